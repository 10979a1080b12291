"""Helpers shared by the per-property rules."""
import re
from terms import *
import terms as TM, sym
from sym import walk_g, St, last, exg

class Anchor(Exception): pass

class Report:
    """obligations of one property"""
    def __init__(s): s.obl=[]; s.fail=[]; s.analyzed=set(); s.ncalls=0; s.nev=0; s.rules=[]; s.entries=[]
    def ok(s,key,cond,detail='',site=''):
        s.obl.append(key)
        if not cond: s.fail.append((key,detail,site))
        return bool(cond)
    def rule(s,txt): s.rules.append(txt)

_shrink=[(re.compile(r"<[^<>]*>"),'')]
class Run:
    """one symbolic evaluation of an entry function"""
    def __init__(s,ctx,body,opaque=(),args=None,rep=None):
        s.ctx=ctx; s.body=body
        I=sym.Interp(ctx.prog,opaque); s.I=I
        n=body['argc']
        s.params=[mk('Param',body['path'],i,body['locals'][i+1][2] or 'arg%d'%i) for i in range(n)]
        if args is None: args=s.params
        s.ret=I.run(body,args)
        s.events=I.events
        if rep is not None:
            rep.analyzed|=I.analyzed; rep.ncalls+=I.ncalls; rep.nev+=len(I.events); rep.entries.append(body['path'])
        s.pg=0
        for x in I.panics: s.pg=lor(s.pg,x[0])
    def ev(s,name):
        if isinstance(name,str): return [e for e in s.events if e.name==name]
        return [e for e in s.events if e.name in name]
    def p(s,i): return s.params[i]
    def rows(s,t,g=1,depth=0): return rows(s.I,t,g,depth)
    def norm(s,t,ordered=False): return norm(s.I,t,ordered)
    def items(s,t,g=1):
        """elements of an iterator or collection the function returned"""
        out=[]
        for h,x in alts(t):
            h=land(g,h)
            if not sat(h): continue
            if x.op in('It','OptIt','Seq') or (x.op=='Agg' and x.a[0]!='<array>'):
                for l,k,v in s.I.open(None,s.I.final.copy(),x,''):
                    for gv,vv in split(v,land(h,k)): out.append((tuple(l),gv,vv))
            else: out+=rows(s.I,x,h)
        return out
    def nitems(s,t,g=1):
        return [(lnorm(s.I,l),gnorm(s.I,h),s.norm(v)) for l,h,v in s.items(t,g)]
    def nrows(s,t,g=1):
        return [(lnorm(s.I,l),gnorm(s.I,h),s.norm(v)) for l,h,v in s.rows(t,g)]
    @property
    def nevents(s):
        """events with clones and identity collections peeled"""
        if not hasattr(s,'_ne'):
            s._ne=[]; lm={}
            for e in s.events:
                n=sym.Event(); n.name=e.name;n.path=e.path;n.seq=e.seq;n.site=e.site;n.kind=e.kind;n.stack=e.stack
                n.args=[s.norm(a) for a in e.args]; n.guard=gnorm(s.I,e.guard); n.ret=s.norm(e.ret) if isinstance(e.ret,T) else e.ret
                ls=[]
                for l in e.loops:
                    k=id(l)
                    if k not in lm: lm[k]=(l,lnorm(s.I,(l,))[0])
                    ls.append(lm[k][1])
                n.loops=tuple(ls); s._ne.append(n)
        return s._ne
    def nev(s,*names): return [e for e in s.nevents if e.name in names]
    def covered(s,guard,need=1):
        """need -> guard, up to executions that panic"""
        return implies(need,lor(guard,s.pg))

class Ctx:
    def __init__(s,prog): s.prog=prog; s._runs={}
    def fn(s,name,crate=None,impl=None,trait=None,sig=None):
        """the function of that name; if it was renamed, the only one of the impl with the given argument types"""
        l=s.prog.find(name,crate,impl,trait)
        l=[b for b in l if 'test' not in b['path'].split('::')]
        if not l and sig is not None:
            for b in s.prog.bodies.values():
                if b['kind'] not in('Fn','AssocFn') or (crate and b['crate']!=crate): continue
                im=b.get('impl')
                if impl is not None and (im is None or last(im['head'])!=impl): continue
                if len(sig)==b['argc']+1 and all(re.search(p,b['locals'][(i+1)%len(sig)][0]) for i,p in enumerate(sig)): l.append(b)
        if len(l)!=1: raise Anchor('expected one function %s%s in %s, found %d'%((impl+'::') if impl else '',name,crate or 'workspace',len(l)))
        return l[0]
    def run(s,rep,name,crate=None,impl=None,trait=None,opaque=(),args=None,sig=None,fix=None):
        b=s.fn(name,crate,impl,trait,sig)
        if fix:
            args=tuple(fix.get(i,mk('Param',b['path'],i,b['locals'][i+1][2] or 'arg%d'%i)) for i in range(b['argc']))
        k=(b['path'],tuple(sorted(opaque)),args)
        if k not in s._runs: s._runs[k]=Run(s,b,opaque,args)
        r=s._runs[k]
        rep.analyzed|=r.I.analyzed; rep.ncalls+=r.I.ncalls; rep.nev+=len(r.events); rep.entries.append(b['path'])
        return r

# ---------------------------------------------------------------- collections
def rows(I,t,g=1,depth=0):
    """elements of a collection term: [(binders, guard, value)], values split into alternatives"""
    out=[]
    if t.op=='Alt':
        for h,x in t.a:
            gg=land(g,h)
            if sat(gg): out+=rows(I,x,gg,depth)
        return out
    if t.op=='Undef': return []
    segs=None
    if t.op=='Obj':
        c=I.contents(t)
        if c is not None: segs=[([i for i in l],h,v) for l,h,v in c]
        elif base_of(I,t) is not None:
            ex=I.clone_parts(t)
            if ex is not None:
                keep,ex=ex
                out=rows(I,base_of(I,t),land(g,keep),depth) if sat(land(g,keep)) else []
                segs=[(l,h,v) for l,h,v in ex]
    elif t.op=='Seq':
        segs=[([sym.LoopInst(b) for b in bs],h,v) for bs,h,v in t.a]
    elif t.op=='OptIt':
        segs=[([],is_variant(t.a[0],'Some'),vfield(t.a[0],'Some','0'))]
    elif t.op=='Agg' and t.a[0]=='<array>': segs=[([],1,v) for v in t.a[3:]]
    if segs is None:
        return out+[((sym.LoopInst(mk('B',t,depth)),),g,mk('Elem',t,depth))]
    for l,h,v in segs:
        gg=land(g,h)
        for gv,vv in split(v,gg):
            out.append((tuple(l),gv,vv))
    return out
def base_of(I,t):
    """the value a locally held collection starts from: a clone's original, or the result of the call that returned it"""
    al=t.a[1]
    if al.op!='Call' or t in I.escaped or I.objs.get(t) is not None: return None
    if al.a[0]=='clone': return al.a[1]
    if al.a[0] in sym.EMPTY_CTORS or al.a[0] in('collect','from') or al.a[0].startswith('IndexSet::new'): return None
    return al
def split(t,g=1,limit=64):
    """alternatives of a term: alt-free terms with guards (nested alternatives are expanded)"""
    work=[(g,t)]; out=[]
    while work:
        g,t=work.pop()
        a=None
        for x in walk(t):
            if x.op=='Alt': a=x; break
        if a is None: out.append((g,t)); continue
        if len(out)+len(work)>limit: out.append((g,t)); continue
        for h,x in a.a:
            gg=land(g,h)
            if sat(gg): work.append((gg,subst(t,{a:x})))
    return out[::-1]
def norm(I,t,ordered=False,memo=None):
    """peel clones and identity collections"""
    if memo is None: memo={}
    r=memo.get(t)
    if r is not None: return r
    memo[t]=t
    x=t
    if t.op=='Obj':
        al=t.a[1]
        if base_of(I,t) is not None and I.clone_extra(t)==[]: x=norm(I,base_of(I,t),ordered,memo)
        else:
            c=I.contents(t)
            if c is not None and len(c)==1:
                l,g,v=c[0]
                if len(l)==1 and g==1 and not l[0].cuts and l[0].kind!='callback':
                    b=l[0].binder
                    if v is mk('Elem',*b.a):
                        x=norm(I,b.a[0],ordered,memo)
    elif t.op=='Rev' and not ordered: x=norm(I,t.a[0],ordered,memo)
    elif t.op in('Int','Str','Param','Static','Const','NConst','FnItem'): x=t
    elif t.op=='Bool': x=Bool(gnorm(I,t.a[0],ordered,memo))
    elif t.op=='Ex': x=mk('Ex',norm(I,t.a[0],ordered,memo),gnorm(I,t.a[1],ordered,memo))
    else:
        m={}
        na=[]; ch=False
        for y in t.a:
            if isinstance(y,T): z=norm(I,y,ordered,memo)
            elif isinstance(y,tuple) and t.op=='Seq': z=(tuple(norm(I,q,ordered,memo) for q in y[0]),gnorm(I,y[1],ordered,memo),norm(I,y[2],ordered,memo))
            elif isinstance(y,tuple) and t.op=='Alt': z=(gnorm(I,y[0],ordered,memo),norm(I,y[1],ordered,memo))
            else: z=y
            ch|=z is not y; na.append(z)
        if ch:
            x=mkalt(na) if t.op=='Alt' else rebuild(t.op,na)
    memo[t]=x
    return x
def gnorm(I,g,ordered=False,memo=None):
    if g<2: return g
    rep={}
    for v in B.support(g):
        t=B.terms[v]; t2=norm(I,t,ordered,memo)
        if t2 is not t: rep[t]=t2
    return gsubst(g,rep) if rep else g
def lnorm(I,loops,ordered=False):
    out=[]
    for l in loops:
        b=norm(I,l.binder,ordered)
        if b is not l.binder or l.cuts or l.extra or l.exits:
            j=sym.LoopInst(b,l.kind); j.cuts=[gnorm(I,c,ordered) for c in l.cuts]; j.id=l.id; j.exits=[gnorm(I,c,ordered) for c in l.exits]
            j.extra=tuple(norm(I,x,ordered) for x in l.extra) if l.extra else None
            l=j
        out.append(l)
    return tuple(out)
def seqof(I,t):
    return rows(I,t)

# ---------------------------------------------------------------- patterns
class Env(dict):
    def __bool__(s): return True
def match(p,t,env=None):
    """structural pattern match; returns env or None. '?x' captures, '_' ignores."""
    env=Env() if env is None else env
    return env if _m(p,t,env) else None
def _m(p,t,env):
    if p=='_' : return True
    if isinstance(p,T): return p is t
    if isinstance(p,str):
        if p[0]=='?':
            p=p[1:]
            if p in env: return env[p] is t
            env[p]=t; return True
        return t.op=='Str' and t.a[0]==p
    if isinstance(p,int): return t.op=='Int' and t.a[0]==p
    if callable(p): return p(t)
    k=p[0]
    if k=='call':
        if t.op!='Call': return False
        names=p[1] if isinstance(p[1],(tuple,set,list,frozenset)) else (p[1],)
        if t.a[0] not in names: return False
        a=t.a[1:]; ps=p[2:]
        if ps and ps[-1]=='...':
            ps=ps[:-1]
            if len(a)<len(ps): return False
            a=a[:len(ps)]
        return len(a)==len(ps) and all(_m(x,y,env) for x,y in zip(ps,a))
    if k=='f': return t.op=='Field' and t.a[1]==p[2] and _m(p[1],t.a[0],env)
    if k=='vf': return t.op=='VField' and t.a[1]==p[2] and (len(p)<4 or t.a[2]==p[3]) and _m(p[1],t.a[0],env)
    if k=='elem': return t.op=='Elem' and _m(p[1],t.a[0],env) and (len(p)<3 or p[2]=='_' or p[2]==t.a[1])
    if k=='agg':
        if t.op!='Agg' or (p[1]!='_' and t.a[0]!=p[1]) or (p[2]!='_' and t.a[1]!=p[2]): return False
        f=fields_of(t)
        return all(n in f and _m(q,f[n],env) for n,q in (p[3] if len(p)>3 else {}).items())
    if k=='arr': return t.op=='Agg' and t.a[0]=='<array>' and len(t.a)-3==len(p)-1 and all(_m(x,y,env) for x,y in zip(p[1:],t.a[3:]))
    if k=='op': return t.op==p[1] and len(t.a)==len(p)-2 and all((_m(x,y,env) if isinstance(y,T) else (x=='_' or x==y)) for x,y in zip(p[2:],t.a))
    if k=='or': 
        for q in p[1:]:
            e2=dict(env)
            if _m(q,t,e2): env.update(e2); return True
        return False
    raise ValueError(p)
def isv(t,enum,*vars):
    vs=TM.ENUMVARS.get(enum)
    r=0
    for v in vars: r=lor(r,is_variant(t,v,vs))
    return r
def cut(loops): return [l for l in loops if l.cuts]
def colls(loops): return [l.binder.a[0] for l in loops]
def exists(loops,g):
    """the guard of 'some iteration of these loops reaches g'"""
    for l in reversed(list(loops)): g=exg(l.binder,g)
    return g
def mentions(t,x): return any(y is x for y in walk_g(t))
def atoms_in(*xs):
    """all terms occurring in the guards / terms given"""
    seen=set()
    for x in xs:
        for t in walk_g(Bool(x) if isinstance(x,int) else x):
            if t not in seen: seen.add(t); yield t
def gmentions(g,x): return mentions(Bool(g),x)
def short(t,n=160):
    s=pp(t) if isinstance(t,T) else str(t)
    return s if len(s)<=n else s[:n]+'…'
def gshow(g,n=200):
    s=B.show(g); return s if len(s)<=n else s[:n]+'…'

def bound_in(l,*terms):
    """the elements a loop ranges over occur in one of the terms (the loop only enumerates them)"""
    b=l.binder
    cs=[b.a[0]]+list(l.extra or ())
    for t in terms:
        for x in atoms_in(t):
            if x.op in('Elem','Idx') and x.a[1]==b.a[1] and x.a[0] in cs: return True
            if x.op=='CbArg' and l.kind=='callback' and x.a[0] is b.a[0]: return True
    return False
def for_all(loops,*terms):
    """every loop only enumerates elements occurring in the terms, and runs to its end"""
    return all(not l.cuts and l.kind in('iter','zip','callback') and bound_in(l,*terms) for l in loops)
def elem_of(t,coll):
    return t.op=='Elem' and t.a[0] is coll
def callsites(prog,pred,crates=None):
    """(body, terminator, fn) of every call in the workspace whose resolved callee satisfies pred(fn record)"""
    for b in prog.bodies.values():
        if crates and b['crate'] not in crates: continue
        for x in b['blocks']:
            t=x['t']
            if t['k']=='call' and t['f']['k']=='fn' and pred(t['f']['f']): yield b,t,t['f']['f']
