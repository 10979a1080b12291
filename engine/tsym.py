"""Symbolic evaluation of the extension's TypeScript (no execution): guarded values, call and store events with path conditions.

Values are terms (terms.py). One state is threaded through an evaluation; every assignment is guarded by the path condition,
so branches, early returns, throws and loops need no state merging. Unknown collections are looped over once with a symbolic element."""
import json
from terms import *
import terms as TM
from sym import exg,walk_g,LoopInst
UNDEF=mk('Const','undefined'); NULL=mk('Const','null')
def jstr(t): return t.op=='Str'
def isindex(t):
    """an index into a list"""
    return t.op=='IdxOf' or (t.op=='FirstOf' and t.a[0].op=='Seq' and all(isindex(v) for b,g,v in t.a[0].a))

class Ev:
    __slots__=('name','args','raw','guard','loops','site','ctx','ret','kind','stack','seq','node','awaited','ta')
    def __repr__(s): return '#%d %s%s %s -- %s @%s'%(s.seq,s.loops or '',s.name,pp(mk('L',*s.args))[:200],B.show(s.guard)[:200],s.site)
class Ctx_:
    """where an exception raised now ends up"""
    __slots__=('kind','id','exn','parent','site')
    def __init__(s,kind,id,parent,site=''): s.kind=kind; s.id=id; s.exn=[]; s.parent=parent; s.site=site
    def __repr__(s): return '%s:%s'%(s.kind,s.id)
class Fr:
    __slots__=('ret','g0','brk','name')
    def __init__(s,g0,name): s.ret=[]; s.g0=g0; s.brk=[]; s.name=name
class TSError(Exception): pass
PURE=('lodash.','path.','console.','Math.','os.','Object.','Array.','new vscode.Range','new vscode.Selection','new vscode.Position','new vscode.ThemeColor','vscode.Uri.','Number','String','new Set','new Error','Error','parseInt','parseFloat','isNaN','Boolean','Date.','new Date','performance.','new Map','process.hrtime','process.memoryUsage','process.uptime','Symbol','Symbol.','Reflect.','new WeakMap','new WeakSet','encodeURIComponent')
PUREM={'toString','join','map','filter','find','some','every','concat','slice','flat','flatMap','push','includes','indexOf','startsWith','endsWith','trim','trimEnd','trimStart','split','get','set','has','delete','clear','keys','values','entries','sort','reverse','offsetAt','positionAt','setDecorations','replace','toLowerCase','appendLine','setEncoding','dispose','show','hide','fire','forEach','reduce','log','on','addListener','once','length','at','pop','shift','unshift','isEqual','contains','intersection','update'}
MAPS=('Map','Set','WeakMap')
class Prog:
    def __init__(s,dump):
        s.files=dump['files']; s.types=dump['types']; s.ts=dump.get('ts')
        s.classes={}; s.members={}; s.fn_by_decl={}; s.names={}; s.decl_file={}; s.reassigned=set(); s.toplevel={}
        for f,v in s.files.items():
            if v['diag']: raise TSError('%s does not parse: %s'%(v['path'],v['diag'][0]))
            for st in v['s']:
                if st['k']=='var':
                    for d in st['d']:
                        for n in names(d['p']): s.toplevel[n['d']]=(f,n['n'])
                elif st['k'] in('fndecl','classdecl','enum'): s.toplevel[st['d']]=(f,st['n'])
                s._scan(f,st,False)
    def _scan(s,f,n,infn):
        if isinstance(n,list):
            for x in n: s._scan(f,x,infn)
        elif isinstance(n,dict):
            k=n.get('k')
            if k=='class':
                s.classes[n['id']]=n; n['file']=f
                for m in n['m']:
                    if 'id' in m: s.members[m['id']]=(n,m)
            if k=='assign' and infn and n['t'].get('k')=='id': s.reassigned.add(n['t']['d'])
            if k=='fn': n['file']=f
            inf=infn or k=='fn'
            for x in n.values():
                if isinstance(x,(dict,list)): s._scan(f,x,inf)
    def cls(s,name):
        l=[c for c in s.classes.values() if c['n']==name]
        if len(l)!=1: raise TSError('expected one class %s, found %d'%(name,len(l)))
        return l[0]
    def export(s,name,file=None):
        l=[d for d,(f,n) in s.toplevel.items() if n==name and (file is None or f==file)]
        if len(l)!=1: raise TSError('expected one %s, found %d'%(name,len(l)))
        return l[0]
def find_nodes(n,pred):
    out=[]; st=[n]
    while st:
        x=st.pop()
        if isinstance(x,list): st+=x
        elif isinstance(x,dict):
            if pred(x): out.append(x)
            st+=list(x.values())
    return out
def mentions_elem(v,b):
    e=mk('Elem',*b.a); i=mk('Idx',*b.a)
    return any(x is e or x is i for x in walk(v)) or any(gmentions(g,e) for x in walk(v) if x.op=='Alt' for g,_ in x.a)
def gmentions(g,t):
    return g>1 and any(x is t for v in B.support(g) for x in walk(B.terms[v]))
def names(p):
    if p is None: return []
    if p['k']=='name': return [p]
    return [n for e in p['e'] if e for n in names(e['p'])]
class Heap(dict):
    """(object, key) -> value, indexed by object"""
    def __init__(s,idx,d=()): super().__init__(d); s.idx=idx
    def __setitem__(s,k,v):
        if k not in s: s.idx.setdefault(k[0],{})[k[1]]=1
        dict.__setitem__(s,k,v)
    def of(s,o): return [((o,k),dict.__getitem__(s,(o,k))) for k in list(s.idx.get(o,())) if (o,k) in s]
_plain={}
def plain(t):
    """no object or alternative occurs in the term"""
    r=_plain.get(t)
    if r is None:
        if t.op in('JObj','Alt','Seq','Promise'): r=False
        else: r=all(plain(x) for x in t.a if isinstance(x,T))
        _plain[t]=r
    return r
class Interp:
    MAXD=40
    def __init__(s,prog,opaque=(),later=()):
        s.P=prog; s.g=1; s.cells={}; s.heap=Heap({}); s.events=[]; s.loops=[]; s.n=0; s.fns={}; s.kind={}; s.born={}; s.cellg={}; s.cls={}; s.prom={}; s.mod={}; s.ctx=Ctx_('top',0,None); s.fr=None; s.stack=[]
        s.opaque=set(opaque); s.analyzed=set(); s.ncalls=0; s.epoch=0; s.later=None; s.evaluating=set(); s.done=set(); s.settle={}; s.fncache={}; s.cleared={}; s.tries={}; s.awaits=[]; s.memb={}; s.nthrow=0
        s.this=None; s.env=None; s.file=''; s.line=0; s.rets=[]; s.hook=None; s.care=1; s.born={}
        for f in prog.files: s.module(f)
    # ------------------------------------------------------------ modules
    def module(s,f):
        if f in s.done or f in s.evaluating: return
        s.evaluating.add(f)
        import posixpath
        for i in s.P.files[f]['imports']:
            if i.startswith('.'):
                t=posixpath.normpath(posixpath.join(posixpath.dirname(f),i))
                if t in s.P.files: s.module(t)
        o=(s.file,s.env,s.this,s.g); s.file=f; s.env=(None,{}); s.this=UNDEF; s.g=1
        s.hoist(s.P.files[f]['s'],True)
        for st in s.P.files[f]['s']: s.stmt(st,True)
        s.file,s.env,s.this,s.g=o
        s.done.add(f); s.evaluating.discard(f)
    def entry_state(s):
        """forget what module initialisation says about variables that functions assign"""
        for d in s.P.reassigned:
            if d in s.mod: s.cells[s.mod[d]]=mk('Glob',s.P.toplevel[d][0]+'.'+s.P.toplevel[d][1])
    def snap(s): return (dict(s.cells),Heap(s.heap.idx,s.heap),dict(s.cleared),s.g,s.epoch)
    def restore(s,x): s.cells,s.heap,s.cleared,s.g,s.epoch=dict(x[0]),Heap(s.heap.idx,x[1]),dict(x[2]),x[3],x[4]
    # ------------------------------------------------------------ cells, heap
    def new(s,kind):
        s.n+=1; o=mk('JObj',s.n); s.kind[o]=kind; s.born[o]=tuple(s.loops); return o
    def simp(s,v):
        if v.op!='Alt': return v
        l=[(g,x) for g,x in v.a if sat(land(g,s.g))]
        if len(l)==len(v.a): return v
        if not l: return v.a[0][1]
        if len(l)==1: return l[0][1]
        return mkalt([(restrict(g,s.g),x) for g,x in l])
    def declare(s,d,v):
        s.n+=1; c=s.n; s.cells[c]=v; s.cellg[c]=s.g
        if d in s.P.toplevel and s.env[0] is None: s.mod[d]=c
        s.env[1][d]=c
    def cell(s,d):
        e=s.env
        while e is not None:
            if d in e[1]: return e[1][d]
            e=e[0]
        if d in s.mod: return s.mod[d]
        if d in s.P.toplevel:
            s.module(s.P.toplevel[d][0])
            return s.mod.get(d)
        return None
    def setcell(s,c,v):
        old=s.cells.get(c)
        if old is None or s.g==1: s.cells[c]=v; return
        g=s.cellg.get(c,1); g=restrict(s.g,g) if g not in(0,1) and implies(s.g,g) else s.g   # the variable exists under that condition only
        s.cells[c]=v if g==1 else mkalt([(g,v),(lnot(g),old)])
    def hget(s,o,k):
        v=s.heap.get((o,k))
        return s.simp(v) if v is not None else None
    def hset(s,o,k,v,old=None):
        w=s.heap.get((o,k))
        if w is None: w=old if old is not None else (UNDEF if s.kind.get(o)=='obj' else mk('Field',o,k))
        s.heap[(o,k)]=v if s.g==1 else mkalt([(s.g,v),(lnot(s.g),w)])
    def under(s,g): return s.g,land(s.g,g)
    # ------------------------------------------------------------ sequences
    def rows(s,t):
        """[(binders, guard, value)] of a collection"""
        t=s.simp(t)
        if t.op=='Alt':
            out=[]
            for g,x in t.a:
                for bs,h,v in s.rows(x):
                    if sat(land(g,h)): out.append((bs,land(g,h),v))
            return out
        if t.op=='JObj' and (t,'<seq>') in s.heap: return s.rows(s.heap[(t,'<seq>')])
        if t.op=='Seq': return [s.fresh_row(r) for r in t.a]
        if t.op=='Const' or t.op=='Undef': return []
        if t.op=='Call' and t.a[0]=='lodash.range' and all(x.op=='Int' for x in t.a[1:]):
            r=range(*[x.a[0] for x in t.a[1:]])
            if len(r)<=16: return [((),1,Int(i)) for i in r]
        if t.op=='Call' and t.a[0]=='lodash.range' and (len(t.a)==2 or (len(t.a)==3 and t.a[1] is Int(0))) and t.a[-1].op=='LenOf':
            r=s.rows(t.a[-1].a[0])
            if all(not b and h==1 for b,h,v in r): return [((),1,Int(i)) for i in range(len(r))]
            return [(b,h,mk('IdxOf',v)) for b,h,v in r]
        if t.op=='Call' and t.a[0]=='.entries' and len(t.a)==2: return [(b,h,s.arr([((),1,mk('IdxOf',v)),((),1,v)])) for b,h,v in s.rows(t.a[1])]
        d=sum(1 for l in s.loops if l.binder.op=='B' and l.binder.a[0] is t)
        return [((mk('B',t,d),),1,mk('Elem',t,d))]
    def fresh_row(s,r):
        bs,g,v=r
        m={}
        for b in bs:
            if b.op=='B' and any(l.binder is b for l in s.loops):
                d=b.a[1]
                while any(l.binder is mk('B',b.a[0],d) for l in s.loops): d+=1
                m[b]=mk('B',b.a[0],d); m[mk('Elem',*b.a)]=mk('Elem',b.a[0],d); m[mk('Idx',*b.a)]=mk('Idx',b.a[0],d)
        if not m: return r
        return tuple(subst(b,m) for b in bs),gsubst(g,m),subst(v,m)
    def isseq(s,t):
        if t.op=='Alt': return all(s.isseq(x) for g,x in t.a)
        return t.op=='Seq' or (t.op=='JObj' and (t,'<seq>') in s.heap)
    def seq(s,rows): return mk('Seq',*[(tuple(b),g,v) for b,g,v in rows])
    def arr(s,rows):
        o=s.new('array'); s.heap[(o,'<seq>')]=s.seq(rows); s.kind[o]='array'; s.heap[(o,'<depth>')]=Int(len(s.loops)); s.born[o]=s.g; return o
    def frozen_seq(s,t):
        return s.seq(s.rows(t)) if s.isseq(t) else t
    def each(s,t,f,kind='iter'):
        """call f(element, index) for every element under its loops; yields (binders, guard, result)"""
        out=[]
        for bs,h,v in s.rows(t):
            g0=s.g; s.g=land(s.g,h)
            if sat(s.g):
                ls=[LoopInst(b,kind) for b in bs]; s.loops+=ls
                ga=s.g
                r=f(v,mk('IdxOf',v))
                gd=s.g
                if ls: del s.loops[-len(ls):]
                out.append((bs,h if gd==ga else restrict(gd,g0),r,gd,ga))
                s.g=land(g0,lnot(land(ga,lnot(gd)))) if not bs else g0
            else: s.g=g0
        return out
    def truth(s,t):
        t=s.simp(t)
        if t.op=='Alt':
            r=0
            for g,x in t.a: r=lor(r,land(g,s.truth(x)))
            return r
        if t.op=='Bool': return t.a[0]
        if t.op=='Str': return 1 if t.a[0] else 0
        if t.op=='Int': return 1 if t.a[0] else 0
        if t.op=='Const': return 0
        if t.op in('JObj','Fn','JClass','Promise','Seq','Agg','Ext','Lam','Regex','Fresh'): 
            return 1 if t.op!='Ext' or not t.a[0].startswith(('vscode.','process.env.')) else atom(mk('Truthy',t))
        if t.op=='FirstOf': return s.nonempty(t.a[0])
        if t.op=='LenOf': return s.nonempty(t.a[0])
        if t.op=='Undef': return 0
        return atom(mk('Truthy',t))
    def nonempty(s,t):
        r=0
        if t.op=='Alt':
            for g,x in t.a: r=lor(r,land(g,s.nonempty(x)))
            return r
        if s.isseq(t):
            for bs,h,v in s.rows(t):
                for b in reversed(bs): h=exg(b,h)
                r=lor(r,h)
            return r
        if t.op=='Call' and t.a[0].startswith('lodash.uniq'): return s.nonempty(t.a[1])
        return lnot(atom(mk('Empty',t)))
    def eq(s,a,b,loose=False):
        a,b=s.simp(a),s.simp(b)
        if a is b: return 1
        if a.op=='Alt' or b.op=='Alt':
            r=0
            for g,x in alts(a):
                for h,y in alts(b): 
                    gh=land(g,h)
                    if gh: r=lor(r,land(gh,s.eq(x,y,loose)))
            return r
        if b.op=='Const' or a.op=='Const':
            if a.op=='Const': a,b=b,a
            if a.op=='Const': return 1 if loose else 0
            if a.op in('Str','Int','Bool'): return 0
            return lnot(s.truth(a))
        if a.op=='LenOf' or b.op=='LenOf':
            if a.op!='LenOf': a,b=b,a
            if b.op=='Int' and b.a[0]==0: return lnot(s.nonempty(a.a[0]))
        lit=('Str','Int')
        if a.op in lit and b.op in lit: return 0
        if any(isindex(x) and y.op=='Int' and y.a[0]<0 for x,y in((a,b),(b,a))): return 0
        own=('JObj','Fn','JClass','Promise')
        if a.op in own and b.op in own: return 0
        if (a.op in own and b.op in lit) or (b.op in own and a.op in lit): return 0
        if a.op=='Bool' or b.op=='Bool':
            x,y=s.truth(a),s.truth(b); return B.ite(x,y,lnot(y))
        if a.op in lit or (b.op not in lit and a.id>b.id): a,b=b,a
        return atom(mk('Eq',a,b))
    def less(s,a,b):
        a,b=s.simp(a),s.simp(b)
        if a.op=='Alt' or b.op=='Alt':
            r=0
            for g,x in alts(a):
                for h,y in alts(b):
                    gh=land(g,h)
                    if gh: r=lor(r,land(gh,s.less(x,y)))
            return r
        if a.op=='Int' and b.op=='Int': return 1 if a.a[0]<b.a[0] else 0
        if a.op=='Int' and b.op=='LenOf' and a.a[0]==0: return s.nonempty(b.a[0])
        if a.op=='LenOf' and b.op=='Int' and b.a[0]==1: return lnot(s.nonempty(a.a[0]))
        if b.op=='LenOf' and a.op=='Int' and a.a[0]<0: return 1
        if a.op=='LenOf' and b.op=='Int' and b.a[0]<=0: return 0
        if isindex(a) and b.op=='Int' and b.a[0]<=0: return 0
        if isindex(b) and a.op=='Int' and a.a[0]<0: return 1
        return atom(mk('Lt',a,b))
    # ------------------------------------------------------------ events
    def event(s,name,args,ret,kind,node=None,raw=None):
        e=Ev(); e.name=name; e.args=[s.freeze(a) for a in args]; e.raw=list(raw if raw is not None else args); e.guard=s.g; e.loops=tuple(s.loops); e.site='%s:%s'%(s.file,(node or {}).get('l',s.line)); e.ctx=s.ctx; e.ret=ret; e.kind=kind; e.stack=tuple(s.stack); e.seq=len(s.events); e.node=node; e.awaited=False; e.ta=(node or {}).get('ta')
        s.events.append(e); s.ncalls+=1
        return e
    def freeze(s,t,d=0,busy=()):
        if d>12 or plain(t): return t
        if t.op=='JObj':
            if t in busy: return t
            k=s.kind.get(t)
            if k=='array': return mk('Seq',*[(bs,g,s.freeze(v,d+1,busy+(t,))) for bs,g,v in s.rows(t)])
            if k=='obj':
                f=[(kk[1],v) for kk,v in s.heap.of(t) if not kk[1].startswith('<')]
                return mkagg('<obj>','',[n for n,v in f],[s.freeze(s.simp(v),d+1,busy+(t,)) for n,v in f])
            return t
        if t.op=='Alt': return mkalt([(g,s.freeze(x,d+1,busy)) for g,x in s.simp(t).a]) if s.simp(t).op=='Alt' else s.freeze(s.simp(t),d,busy)
        if t.op=='Seq': return mk('Seq',*[(bs,g,s.freeze(v,d+1,busy)) for bs,g,v in t.a])
        if t.op in('Promise',): return mk('Promise',t.a[0],s.freeze(t.a[1],d+1,busy))
        if t.op in('Call','Agg','Await','Field','LenOf','Elem','FirstOf','Tpl','Lam'):
            na=[s.freeze(x,d+1,busy) if isinstance(x,T) else x for x in t.a]
            return mk(t.op,*na) if any(x is not y for x,y in zip(na,t.a)) else t
        return t
    def throws(s,call):
        """the call may raise an exception"""
        if not s.tracking(): return
        a=atom(mk('Throws',call))
        s.raise_(land(s.g,a),mk('Thrown',call))
    def tracking(s):
        c=s.ctx
        while c is not None:
            if c.kind in('try','then'): return True
            c=c.parent
        return False
    def raise_(s,g,v):
        if not sat(g): return
        s.ctx.exn.append((g,v,s.line)); s.g=land(s.g,lnot(g))
    # ------------------------------------------------------------ functions
    def closure(s,node):
        s.n+=1; f=mk('Fn',s.n,node['id']); s.fns[f]=(node,s.env,s.this,s.file); return f
    def call_fn(s,f,args,this=None,site=None,name=None):
        node,env,th,file=s.fns[f]
        if node['arrow'] or this is None: this=th if node['arrow'] else (this if this is not None else UNDEF)
        nm=name or s.fname(node)
        s.analyzed.add('%s:%s'%(file,nm))
        if len(s.stack)>s.MAXD or s.stack.count(nm)>2:
            return mk('Call','<recursion> '+nm,*[s.freeze(a) for a in args])
        o=(s.env,s.this,s.fr,s.ctx,s.file,s.line)
        s.env=(env,{}); s.this=this; s.file=file; s.stack.append(nm)
        g0=s.g; s.fr=Fr(g0,nm)
        if node['async']:
            s.n+=1; pid=s.n; s.ctx=Ctx_('promise',pid,o[3],'%s:%s'%(file,node['l']))
        for i,p in enumerate(node['ps']):
            if p['rest']: v=s.arr([((),1,a) for a in args[i:]])
            else:
                v=args[i] if i<len(args) else None
                if p['i'] is not None:
                    if v is None: v=s.ex(p['i'])
                    else:
                        un=s.eq(v,UNDEF) if v.op in('Const','Alt') else 0
                        if un: v=mkalt([(lnot(un),v),(un,s.ex(p['i']))])
                if v is None: v=UNDEF
            s.bind(p['p'],v)
        b=node['body']
        if b is None: r=UNDEF
        elif b['k']=='block':
            s.hoist(b['s'])
            for st in b['s']:
                if s.g==0: break
                s.stmt(st)
            if s.g!=0: s.fr.ret.append((s.g,UNDEF))
        else:
            v=s.ex(b)
            if node['async']: v=s.awaitv(v,None,adopt=True)
            if s.g!=0: s.fr.ret.append((s.g,v))
        rets=s.fr.ret; gout=0
        for g,v in rets: gout=lor(gout,g)
        val=mkalt([(restrict(g,gout) if gout not in(0,1) else g,v) for g,v in rets]) if rets else UNDEF
        ctx=s.ctx
        s.env,s.this,s.fr,s.ctx,s.file,s.line=o; s.stack.pop()
        if node['async']:
            s.prom[pid]=(ctx,gout); s.g=g0
            return mk('Promise',pid,val)
        s.g=gout
        return val
    def fname(s,node):
        if node.get('n'): return node['n']
        i=node['id']; m=s.fncache.get(i)
        if m is None:
            m=s.fncache[i]=s._fname(node)
        return m
    def _fname(s,node):
        i=node['id']
        for c,m in s.P.members.values():
            if m.get('i') is node or m.get('f') is node: return c['n']+'.'+m['n'] if m['k']!='ctor' else 'new '+c['n']
        for f,v in s.P.files.items():
            for st in v['s']:
                if st['k']=='var':
                    for d in st['d']:
                        if d['i'] is node and d['p']['k']=='name': return d['p']['n']
        return 'fn@'+i.split(':')[0]+':%d'%node['l']
    # ------------------------------------------------------------ statements
    def hoist(s,l,top=False):
        for st in l:
            if st['k']=='fndecl': 
                s.declare(st['d'],s.closure(st['f'])) if st['f']['body'] is not None else None
            elif st['k']=='classdecl': s.declare(st['d'],mk('JClass',st['c']['id']))
    def bind(s,p,v):
        if p['k']=='name': s.declare(p['d'],v); return
        if p['k']=='objp':
            for e in p['e']:
                if e['rest']: x=v
                else:
                    x=s.prop(v,e['key']) if isinstance(e['key'],str) else s.index(v,s.ex(e['key']))
                    if e['i'] is not None: x=s.default(x,e['i'])
                s.bind(e['p'],x)
        else:
            for i,e in enumerate(p['e']):
                if not e: continue
                if e['rest']: x=mk('Call','.slice',s.freeze(v),Int(i))
                else:
                    x=s.index(v,Int(i))
                    if e['i'] is not None: x=s.default(x,e['i'])
                s.bind(e['p'],x)
    def default(s,x,init):
        u=s.eq(x,UNDEF)
        if u==0: return x
        g0=s.g; s.g=land(g0,u); y=s.ex(init); s.g=g0
        return mkalt([(lnot(u),x),(u,y)])
    def block(s,l):
        s.env=(s.env,{})
        s.hoist(l)
        for st in l:
            if s.care!=1: s.g=land(s.g,s.care)
            if s.g==0: break
            s.stmt(st)
        s.env=s.env[0]
    def stmt(s,st,top=False):
        k=st['k']
        if 'l' in st: s.line=st['l']
        if k=='nop' or k=='fndecl': return
        if k=='expr': s.ex(st['e']); return
        if k=='var':
            if st.get('dcl'): return
            for d in st['d']:
                s.bind(d['p'],s.ex(d['i'],hint=d['p'].get('n')) if d['i'] is not None else UNDEF)
            return
        if k=='block': return s.block(st['s'])
        if k=='if':
            c=s.truth(s.ex(st['c'])); g0=s.g
            s.g=land(g0,c); 
            if s.g!=0: s.block([st['t']])
            ga=s.g; s.g=land(g0,lnot(c))
            # a condition's own exceptions are already excluded from g0
            if st['e'] is not None and s.g!=0: s.block([st['e']])
            s.g=lor(ga,s.g); return
        if k=='ret':
            v=s.ex(st['e']) if st['e'] is not None else UNDEF
            if s.ctx.kind=='promise' or s.inasync(): v=s.awaitv(v,None,adopt=True)
            if s.g!=0: s.fr.ret.append((s.g,v))
            s.g=0; return
        if k=='throw':
            v=s.ex(st['e']); s.raise_(s.g,v); s.g=0; return
        if k=='try': return s.try_(st)
        if k in('forof','forin'):
            c=s.ex(st['e'])
            def body(v,i):
                s.env=(s.env,{})
                x=v if k=='forof' else i
                if st.get('aw'): x=s.awaitv(x,st)
                if st['p']: s.bind(st['p'],x)
                elif st['t']: s.assign(st['t'],x)
                s.block([st['b']]); s.env=s.env[0]
                return UNDEF
            s.loop(c,body); return
        if k in('while','for','dowhile'):
            s.env=(s.env,{})
            if k=='for' and st['i']: s.stmt(st['i']) if st['i']['k']!='expr' else s.ex(st['i']['e'])
            cn=s.counting(st)
            if cn is not None:
                if s.count_loop(st,*cn): s.env=s.env[0]; return
            s.n+=1; w=mk('While',s.n)
            def body(v,i):
                if k!='dowhile' and st['c'] is not None:
                    c=s.truth(s.ex(st['c'])); s.g=land(s.g,c)
                s.block([st['b']])
                if k=='for' and st['u']: s.ex(st['u'])
                if k=='dowhile' and st['c'] is not None: s.ex(st['c'])
                return UNDEF
            s.loop(w,body); s.env=s.env[0]; return
        if k=='switch':
            v=s.ex(st['e']); g0=s.g; rest=g0; fall=0; s.fr.brk.append([0,'switch']); dflt=None
            conds=[]
            for c in st['c']:
                if c['t'] is None: conds.append(None); continue
                s.g=rest; q=s.eq(v,s.ex(c['t'])); conds.append(land(rest,q)); rest=land(rest,lnot(q))
            fall=0
            for c,q in zip(st['c'],conds):
                s.g=lor(fall,rest if q is None else q)
                if s.g!=0: s.block(c['s'])
                fall=s.g
            if None not in conds: fall=lor(fall,rest)
            s.g=lor(fall,s.fr.brk.pop()[0]); return
        if k=='break':
            for b in reversed(s.fr.brk):
                b[0]=lor(b[0],s.g); break
            s.g=0; return
        if k=='continue':
            for b in reversed(s.fr.brk):
                if b[1]=='loop': b.append(s.g) ; break
            s.g=0; return
        if k=='classdecl':
            c=st['c']; me=mk('JClass',c['id'])
            for m in c['m']:
                if m['k']=='prop' and m['st']:
                    o=s.this; s.this=me; s.heap[(me,m['n'])]=s.ex(m['i']) if m['i'] is not None else UNDEF; s.this=o
            return
        if k=='enum': s.declare(st['d'],mk('Glob','enum '+st['n'])); return
        raise TSError('statement %s at %s:%s is not understood'%(st.get('n',k),s.file,st.get('l')))
    def counting(s,st):
        """(variable, bound, body) of a loop that counts up by one to a bound"""
        c=st['c']; k=st['k']
        if k=='dowhile' or c is None or c['k']!='bin' or c['op'] not in('<','>','<=','!==','!='): return None
        a,b=(c['b'],c['a']) if c['op']=='>' else (c['a'],c['b'])
        if a['k']!='id' or s.cell(a['d']) is None: return None
        step=lambda u: u is not None and u['k']=='assign' and u['op']=='+=' and u['t']['k']=='id' and u['t']['d']==a['d'] and u['v']['k']=='num' and u['v']['v']==1
        bl=st['b']['s'] if st['b']['k']=='block' else [st['b']]
        if k=='while':
            if not(bl and bl[-1]['k']=='expr' and step(bl[-1]['e'])): return None
            bl=bl[:-1]
            if find_nodes(bl,lambda x: x.get('k')=='continue'): return None
        elif not step(st['u']): return None
        if find_nodes(bl,lambda x: x.get('k')=='assign' and x['t'].get('k')=='id' and x['t'].get('d')==a['d']): return None
        if find_nodes(b,lambda x: x.get('k') in('call','await','assign')) : return None
        return a,b,bl,c['op']
    def count_loop(s,st,a,b,bl,op):
        i0=s.simp(s.cells[s.cell(a['d'])])
        if i0.op!='Int': return False
        n=s.simp(s.ex(b))
        if op=='<=':
            if n.op=='Bin' and n.a[0]=='-' and n.a[2] is Int(1): n=n.a[1]
            elif n.op=='Int': n=Int(n.a[0]+1)
            else: return False
        if any(x.op not in('Int','LenOf','Field','Call','Ext','Elem','Await') for g,x in alts(n)): return False
        if n.op=='Int' and n.a[0]-i0.a[0]>16: return False
        rg=lambda n: mk('Call','lodash.range',n) if i0.a[0]==0 else mk('Call','lodash.range',i0,n)
        coll=mkalt([(g,rg(x)) for g,x in alts(n)])
        sn=s.snap(); ne=len(s.events); nx=[(c,len(c.exn)) for c in s.chain()]; nr=len(s.fr.ret) if s.fr else 0
        def body(v,i):
            s.setcell(s.cell(a['d']),v); s.block(bl); s.setcell(s.cell(a['d']),v); return UNDEF
        s.loop(coll,body)
        if s.freeze(s.simp(s.ex(b))) is not s.freeze(n):
            s.restore(sn); del s.events[ne:]
            for c,m in nx: del c.exn[m:]
            if s.fr: del s.fr.ret[nr:]
            return False
        return True
    def inasync(s):
        c=s.ctx
        while c is not None and c.kind in('try','then'): c=c.parent
        return c is not None and c.kind=='promise'
    def try_(s,st):
        g0=s.g; outer=s.ctx; c=Ctx_('try',st['id'],outer,'%s:%s'%(s.file,st['l'])); s.tries.setdefault(st['id'],[]).append(c)
        fr0=len(s.fr.ret)
        if st['c'] is not None: s.ctx=c
        s.block(st['b']['s'])
        s.ctx=outer
        gn=s.g
        if st['c'] is not None:
            ge=0
            for g,v,l in c.exn: ge=lor(ge,g)
            if ge!=0:
                s.g=ge; s.env=(s.env,{})
                if st['c']['p']: s.bind(st['c']['p'],mkalt([(restrict(g,ge),v) for g,v,l in c.exn]))
                s.block(st['c']['b']['s']); s.env=s.env[0]
                gn=lor(gn,s.g)
        s.g=gn
        if st['f'] is not None:
            # finally also runs on the paths that returned or threw
            extra=0
            for g,v in s.fr.ret[fr0:]: extra=lor(extra,g)
            s.g=lor(gn,extra); 
            if s.g!=0: s.block(st['f']['s'])
            s.g=land(s.g,gn)
    def loop(s,coll,body):
        """a statement loop: state written in the body is the previous iteration's on entry"""
        g0=s.g
        for bs,h,v in s.rows(coll):
            if not bs: # a known element
                s.fr.brk.append([0,'loop']); gi=s.g; s.g=land(s.g,h)
                if s.g!=0: body(v,mk('IdxOf',v))
                b=s.fr.brk.pop(); s.g=lor(lor(s.g,land(gi,lnot(h))),0)
                for x in b[2:]: s.g=lor(s.g,x)
                brk=b[0]
                if brk: g0=land(g0,lnot(brk)); s._brk=lor(getattr(s,'_brk',0),brk)
                continue
            s.iterate(bs,h,lambda: body(v,mk('IdxOf',v)))
        s.g=lor(s.g,getattr(s,'_brk',0)); s._brk=0
    def iterate(s,bs,h,run,kind='iter'):
        g0=s.g; pre=(dict(s.cells),dict(s.heap)); ne=len(s.events); nx=[(c,len(c.exn)) for c in s.chain()]; nr=len(s.fr.ret) if s.fr else 0
        ls=[LoopInst(b,kind) for b in bs]; s.loops+=ls
        gi=land(s.g,h)
        changed={}
        for rnd in range(3):
            s.g=gi
            if s.fr: s.fr.brk.append([0,'loop'])
            n0=s.n
            run()
            b=s.fr.brk.pop() if s.fr else [0]
            ch=[]
            for m,src in((s.cells,pre[0]),(s.heap,pre[1])):
                for k,v in m.items():
                    if k in src and src[k] is not v and not (isinstance(k,tuple) and k[1]=='<seq>' and s.appended(src[k],v)): ch.append((m is s.cells,k))
            new=[x for x in ch if x not in changed]
            if not new: break
            for x in new: changed[x]=mk('Prev',str(x[1]) if x[0] else pp(x[1][0])+'.'+x[1][1],len(s.loops))
            # again, from an arbitrary iteration
            s.cells,s.heap=dict(pre[0]),Heap(s.heap.idx,pre[1]); del s.events[ne:]
            for c,n in nx: del c.exn[n:]
            if s.fr: del s.fr.ret[nr:]
            for (isc,k),p in changed.items(): (s.cells if isc else s.heap)[k]=p
        if ls: del s.loops[-len(ls):]
        left=0
        for g,v in (s.fr.ret[nr:] if s.fr else []): left=lor(left,g)
        ends=lor(b[0],left)
        if ends and len(bs)==1 and kind!='callback':
            # an iteration runs only if no earlier one ended the loop
            dep=mentions_elem(Bool(ends),bs[0]); reached=B.var(mk('Reached',bs[0],Bool(ends)))
            for k,v in list(s.heap.items()):
                if isinstance(k,tuple) and k[1]=='<seq>' and k in pre[1] and v is not pre[1][k] and s.appended(pre[1][k],v):
                    n=len(pre[1][k].a); s.heap[k]=mk('Seq',*v.a[:n],*[(q,land(g,reached) if dep or sat(land(g,ends)) else g,y) for q,g,y in v.a[n:]])
        else: reached=1
        for (isc,k),p in changed.items():
            m=s.cells if isc else s.heap; src=pre[0] if isc else pre[1]
            if kind=='callback': m[k]=mk('Fold',p,src[k],m[k]); continue
            m[k]=s.folded(bs,p,src[k],m[k],b[0],g0)
            if reached!=1 and m[k].op=='Fold' and m[k].a[0] is p: m[k]=mk('Fold',p,src[k],mkalt([(land(reached,g),y) for g,y in alts(m[k].a[2])]+[(lnot(reached),p)]))
        cut=lor(b[0],left)
        for c,n in nx:
            for g,v,l in c.exn[n:]: cut=lor(cut,g)
        if cut:
            for e in s.events[ne:]:
                for l in e.loops:
                    if l in ls and cut not in l.cuts: l.cuts.append(cut)
        # after the loop: returns and throws inside end the function for some element
        ex=0
        for c,n in nx:
            for g,v,l in c.exn[n:]: ex=lor(ex,g)
        out=lor(left,ex)
        for b_ in reversed(bs): out=exg(b_,restrict(out,g0) if out>1 and g0>1 else out) if out else 0
        if s.fr and left:
            rr=s.fr.ret[nr:]; del s.fr.ret[nr:]
            lr=restrict(left,g0) if left>1 and g0>1 else left
            for g,v in rr:
                if len(bs)==1 and bs[0].op=='B' and kind!='callback' and mentions_elem(v,bs[0]): v=mk('FirstOf',mk('Seq',((bs[0],),lr,s.freeze(v))))
                for b_ in reversed(bs): g=exg(b_,g)
                s.fr.ret.append((g,v))
        s.g=land(g0,lnot(out))
    def folded(s,bs,p,init,new,brk,g0):
        """a variable after a loop: the first (or last) element's value where it is only assigned, else a fold"""
        if len(bs)==1 and bs[0].op=='B':
            b=bs[0]; cut=lambda g: restrict(g,g0) if g>1 and g0>1 else g
            acc=s.accumulated(bs,p,init,new,cut) if not brk else None
            if acc is not None: return acc
            al=alts(new); keep=0; c=0; xs=[]
            for g,v in al:
                if v is p: keep=lor(keep,g)
                else: c=lor(c,g); xs.append((g,v))
            ok=not any(x is p for g,v in xs for x in walk(s.freeze(v))) and not gmentions(c,p) and keep!=0
            if ok and xs and (not brk or cut(c)==cut(brk)):
                c=cut(c); e=exg(b,c); v=s.freeze(mkalt([(cut(g),v) for g,v in xs]) if len(xs)>1 else xs[0][1])
                if mentions_elem(v,b) or v.op=='Alt': v=mk('LastOf' if not brk else 'FirstOf',mk('Seq',((b,),c,v)))
                return mkalt([(e,v),(lnot(e),init)])
            if new.op=='Bool' and init.op=='Bool' and not brk:
                vs=[x for x in B.support(new.a[0]) if B.terms[x] is mk('Truthy',p)]
                if len(vs)==1:
                    hi=B.cofactor(new.a[0],vs[0],1); lo=B.cofactor(new.a[0],vs[0],0)
                    if hi==1 and not gmentions(lo,p): return Bool(lor(init.a[0],exg(b,cut(lo))))
                    if lo==0 and not gmentions(hi,p): return Bool(land(init.a[0],lnot(exg(b,cut(lnot(hi))))))
        return mk('Fold',p,init,new)
    def accumulated(s,bs,p,init,new,cut):
        """a sequence every iteration appends to"""
        if not all(s.isseq(x) for _,x in alts(init)): return None
        out=[]; n=0
        for g,x in alts(new):
            if x is p: continue
            if x.op=='JObj' and (x,'<seq>') in s.heap: x=s.heap[(x,'<seq>')]
            if x.op!='Seq' or not x.a: return None
            b0,h0,v0=x.a[0]
            if not(len(b0)==1 and b0[0].op=='B' and b0[0].a[0] is p and v0.op=='Elem' and v0.a[0] is p and h0==1): return None
            for b1,h1,v1 in x.a[1:]:
                if any(y is p for y in walk(v1)) or gmentions(h1,p) or any(y is p for z in b1 for y in walk(z)): return None
                out.append((tuple(bs)+tuple(b1),land(cut(g),h1),v1))
            if gmentions(g,p): return None
            n+=1
        if not n: return None
        return s.arr(list(s.rows(init))+out)
    def chain(s):
        out=[]; c=s.ctx
        while c is not None: out.append(c); c=c.parent
        return out
    def appended(s,a,b):
        return a.op=='Seq' and b.op=='Seq' and b.a[:len(a.a)]==a.a
    # ------------------------------------------------------------ expressions
    def ex(s,n,hint=None):
        k=n['k']
        if 'l' in n: s.line=n['l']
        f=getattr(s,'x_'+k,None)
        if f is None: raise TSError('expression %s at %s:%s is not understood'%(n.get('n',k),s.file,n.get('l',s.line)))
        return f(n)
    def x_str(s,n): return Str(n['v'])
    def x_num(s,n): return Int(n['v'])
    def x_bool(s,n): return Bool(1 if n['v'] else 0)
    def x_null(s,n): return NULL
    def x_undef(s,n): return UNDEF
    def x_this(s,n): return s.this if s.this is not None else UNDEF
    def x_super(s,n): return mk('Ext','super')
    def x_regex(s,n): return mk('Regex',n['v'])
    def x_glob(s,n): return mk('Ext',n['n'])
    def x_mod(s,n): return mk('Mod',n['m'])
    def x_ext(s,n): return mk('Ext',n['m'] if n['n'] in('*','default') else n['m']+'.'+n['n'])
    def x_class(s,n): return mk('JClass',n['id'])
    def x_spread(s,n): return mk('Spread',s.ex(n['e']))
    def x_yield(s,n): s.ex(n['e']); return mk('Call','yield')
    def x_fn(s,n): return s.closure(n)
    def x_id(s,n):
        c=s.cell(n['d'])
        if c is None: return mk('Glob',n['n'])
        return s.simp(s.cells[c])
    def x_tpl(s,n): return s.tpl([s.ex(p) for p in n['p']])
    def tpl(s,ps):
        out=[]
        for p in ps:
            p=s.freeze(p)
            l=list(p.a) if p.op=='Tpl' else [p]
            for x in l:
                if x.op=='Int': x=Str(str(x.a[0]))
                if x.op=='Str' and x.a[0]=='': continue
                if out and out[-1].op=='Str' and x.op=='Str': out[-1]=Str(out[-1].a[0]+x.a[0])
                else: out.append(x)
        if not out: return Str('')
        if len(out)==1 and out[0].op=='Str': return out[0]
        return mk('Tpl',*out)
    def x_cond(s,n):
        c=s.truth(s.ex(n['c'])); return s.choose(c,lambda: s.ex(n['t']),lambda: s.ex(n['e']))
    def choose(s,c,a,b):
        g0=s.g
        s.g=land(g0,c); x=a() if s.g!=0 else None; ga=s.g
        s.g=land(g0,lnot(c)); y=b() if s.g!=0 else None
        s.g=lor(ga,s.g)
        if x is None: return y if y is not None else UNDEF
        if y is None: return x
        return mkalt([(c,x),(lnot(c),y)])
    def x_bin(s,n):
        op=n['op']
        if op in('&&','||','??'):
            a=s.ex(n['a']); c=s.truth(a) if op!='??' else lnot(s.eq(a,NULL,True))
            if op=='&&': return s.choose(c,lambda: s.ex(n['b']),lambda: a if a.op!='Bool' else Bool(0))
            return s.choose(c,lambda: a if a.op!='Bool' else Bool(1),lambda: s.ex(n['b']))
        a=s.ex(n['a']); b=s.ex(n['b'])
        if op in('===','=='): return Bool(s.eq(a,b,op=='=='))
        if op in('!==','!='): return Bool(lnot(s.eq(a,b,op=='!=')))
        if op=='<': return Bool(s.less(a,b))
        if op=='>': return Bool(s.less(b,a))
        if op=='<=': return Bool(lnot(s.less(b,a)))
        if op=='>=': return Bool(lnot(s.less(a,b)))
        if op=='+':
            if a.op in('Str','Tpl') or b.op in('Str','Tpl'): return s.tpl([a,b])
            if a.op=='Int' and b.op=='Int': return Int(a.a[0]+b.a[0])
        if op=='-' and a.op=='Int' and b.op=='Int': return Int(a.a[0]-b.a[0])
        if op==',': return b
        if op=='in':
            o=s.simp(b)
            if o.op=='JObj' and a.op=='Str' and s.kind.get(o)=='obj': return Bool(1 if (o,a.a[0]) in s.heap else 0)
            return Bool(atom(mk('In',s.freeze(a),s.freeze(o))))
        if op=='instanceof': return Bool(atom(mk('InstanceOf',s.freeze(a),s.freeze(b))))
        return mk('Bin',op,s.freeze(a),s.freeze(b))
    def x_un(s,n):
        v=s.ex(n['e']); op=n['op']
        if op=='!': return Bool(lnot(s.truth(v)))
        if op=='-' and v.op=='Int': return Int(-v.a[0])
        if op=='+': return v if v.op=='Int' else mk('Call','Number',s.freeze(v))
        if op=='void': return UNDEF
        return mk('Un',op,s.freeze(v))
    def x_obj(s,n):
        o=s.new('obj'); i=0
        for p in n['p']:
            if p.get('s'):
                v=s.simp(s.ex(p['e']))
                if v.op=='JObj' and s.kind.get(v)=='obj':
                    for (q,kk),w in list(s.heap.items()):
                        if q is v: s.heap[(o,kk)]=w
                else: s.heap[(o,'...%d'%i)]=v; i+=1
            else:
                key=p['n'] if isinstance(p['n'],str) else s.keystr(s.ex(p['n']))
                s.heap[(o,key)]=s.ex(p['e'])
        return o
    def keystr(s,v):
        if v.op=='Str': return v.a[0]
        if v.op=='Int': return str(v.a[0])
        return '['+pp(s.freeze(v))+']'
    def x_arr(s,n):
        rows=[]
        for e in n['e']:
            v=s.ex(e['e'])
            if e.get('s'): rows+=s.rows(v)
            else: rows.append(((),1,v))
        return s.arr(rows)
    # ---- property access
    def x_prop(s,n):
        o=s.ex(n['o'])
        if n.get('q'):
            c=s.truth(o); g0=s.g
            return s.choose(c,lambda: s.prop(o,n['n'],n.get('m')),lambda: UNDEF)
        return s.prop(o,n['n'],n.get('m'))
    def prop(s,o,name,m=None):
        o=s.simp(o)
        if o.op=='Alt': return mkalt([(g,s.with_g(g,lambda: s.prop(x,name,m))) for g,x in o.a])
        if o.op=='Ext': return mk('Ext',o.a[0]+'.'+name)
        if o.op=='Mod':
            d=s.P.files[o.a[0]]['exports'].get(name)
            return s.simp(s.cells[s.cell(d)]) if d and s.cell(d) is not None else UNDEF
        v=s.hget(o,name)
        if v is not None: return v
        if name=='length':
            if o.op=='Str': return Int(len(o.a[0]))
            return mk('LenOf',o if not s.isseq(o) else s.frozen_seq(o))
        if o.op=='Str' or o.op=='Tpl' or s.isseq(o): return mk('Bound',o,name)
        if o.op=='JClass':
            c=s.P.classes[o.a[0]]
            for x in c['m']:
                if x.get('n')==name and x.get('st') and x['k']=='method': return s.bound(c,x,o)
            return UNDEF
        cl=s.cls.get(o)
        c=s.P.classes[cl] if cl else (s.P.classes.get(m[0]) if m else None)
        if c is not None:
            x=s.lookup(c,name)
            if x is not None:
                if x['k']=='method': return s.bound(c,x,o)
                if x['k']=='get': return s.call_fn(s.bound(c,x,o),[],o)
                if x['k']=='prop' and not cl and x['i'] is not None and x['i']['k'] in('fn','call'):
                    k=(o,x['id'])
                    if k in s.memb: return s.memb[k]
                    sv=(s.this,s.env,s.file,s.g); s.this=o; s.file=c['file']; s.env=(None,{}); v=s.ex(x['i']); s.this,s.env,s.file,s.g=sv
                    if v.op=='Fn': s.memb[k]=v; return v
        if o.op=='Const' or o.op=='Undef': return UNDEF
        if s.kind.get(o)=='obj':
            if any(k[1].startswith('...') for k,_ in s.heap.of(o)): return mk('Field',s.freeze(o),name)
            return UNDEF
        if o.op=='Agg' and o.a[0]=='<obj>': return fields_of(o).get(name,UNDEF)
        return mk('Field',o,name)
    def with_g(s,g,f):
        g0=s.g; s.g=land(s.g,g); r=f() if s.g!=0 else UNDEF; s.g=g0; return r
    def lookup(s,c,name):
        for x in c['m']:
            if x.get('n')==name and not x.get('st'): return x
        if c['ext'] and c['ext'].get('k')=='id':
            b=[v for v in s.P.classes.values() if v['n']==c['ext']['n']]
            if b: return s.lookup(b[0],name)
        return None
    def bound(s,c,x,o):
        k=(o,x['id'])
        if k in s.memb: return s.memb[k]
        s.n+=1; f=mk('Fn',s.n,x['f']['id']); s.fns[f]=(x['f'],(None,{}),o,c['file']); s.memb[k]=f; return f
    def x_index(s,n):
        o=s.ex(n['o']); i=s.ex(n['i'])
        if n.get('q'):
            return s.choose(s.truth(o),lambda: s.index(o,i),lambda: UNDEF)
        return s.index(o,i)
    def index(s,o,i):
        o=s.simp(o); i=s.simp(i)
        if i.op=='IdxOf':
            e=i.a[0]
            for g,x in alts(o):
                if x.op=='JObj' and (x,'<seq>') in s.heap: x=s.simp(s.heap[(x,'<seq>')])
                if x.op=='Seq':
                    for bs,h,v in x.a:
                        if v is e: return v
                    for bs,h,v in x.a:
                        if s.freeze(v) is s.freeze(e): return v
                elif e.op=='Elem' and e.a[0] is x: return e
        if o.op=='Alt': return mkalt([(g,s.with_g(g,lambda: s.index(x,i))) for g,x in o.a])
        if i.op=='Alt': return mkalt([(g,s.with_g(g,lambda: s.index(o,x))) for g,x in i.a])
        if i.op=='Str': return s.prop(o,i.a[0])
        if s.isseq(o):
            r=s.rows(o)
            if i.op=='Int' and i.a[0]>=0:
                if len(r)>i.a[0] and all(not b and h==1 for b,h,v in r[:i.a[0]+1]): return r[i.a[0]][2]
                if all(not b and h==1 for b,h,v in r): return UNDEF
                if i.a[0]==0: return mk('FirstOf',s.seq(r))
            return mk('Nth',s.seq(r),s.freeze(i))
        if o.op=='JObj' and s.kind.get(o)=='obj':
            a=[(kk[1],v) for kk,v in s.heap.of(o)]
            return mkalt([(atom(mk('Eq',s.freeze(i),Str(kk))),v) for kk,v in a]+[(lnot(lorn(*[atom(mk('Eq',s.freeze(i),Str(kk))) for kk,v in a])),UNDEF)])
        v=s.hget(o,'['+pp(s.freeze(i))+']')
        if v is not None: return v
        if i.op=='Int' and i.a[0]==0: return mk('FirstOf',o)
        return mk('Nth',s.freeze(o),s.freeze(i))
    # ---- assignment
    def x_assign(s,n):
        op=n['op']; t=n['t']
        if op=='=': v=s.ex(n['v']); s.assign(t,v); return v
        old=s.ex(t) if t['k']!='destr' else UNDEF
        if op in('||=','&&=','??='):
            c=s.truth(old) if op!='??=' else lnot(s.eq(old,NULL,True)); c=lnot(c) if op!='&&=' else c
            g0=s.g; s.g=land(g0,c); v=s.ex(n['v']) if s.g!=0 else UNDEF
            if s.g!=0: s.assign(t,v)
            s.g=lor(s.g,land(g0,lnot(c)))
            return mkalt([(c,v),(lnot(c),old)])
        v=s.ex(n['v'])
        if op=='+=':
            if old.op in('Str','Tpl') or v.op in('Str','Tpl'): r=s.tpl([old,v])
            elif old.op=='Int' and v.op=='Int': r=Int(old.a[0]+v.a[0])
            else: r=mk('Bin','+',s.freeze(old),s.freeze(v))
        elif op=='-=' and old.op=='Int' and v.op=='Int': r=Int(old.a[0]-v.a[0])
        else: r=mk('Bin',op[:-1],s.freeze(old),s.freeze(v))
        s.assign(t,r)
        return old if n.get('post') else r
    def assign(s,t,v):
        k=t['k']
        if k=='id':
            c=s.cell(t['d'])
            if c is None: return
            s.event('Assign',[Str(t['n']),v],UNDEF,'assign',t)
            s.setcell(c,v); return
        if k=='prop': s.store(s.ex(t['o']),t['n'],v,t); return
        if k=='index':
            o=s.ex(t['o']); i=s.ex(t['i'])
            s.store(o,i.a[0] if i.op=='Str' else '['+pp(s.freeze(i))+']',v,t); return
        if k=='destr':
            e=t['e']
            if e['k']=='arr':
                for j,x in enumerate(e['e']):
                    if not x.get('s'): s.assign(x['e'],s.index(v,Int(j)))
            return
        raise TSError('assignment to %s at %s:%s is not understood'%(k,s.file,s.line))
    def store(s,o,name,v,node=None):
        o=s.simp(o)
        if o.op=='Alt':
            for g,x in o.a:
                g0=s.g; s.g=land(g0,g)
                if sat(s.g): s.store(x,name,v,node)
                s.g=g0
            return
        s.event('Store',[o,Str(name),v],UNDEF,'store',node,raw=[o,Str(name),v])
        if name=='length' and s.kind.get(o)=='array' and v.op=='Int' and v.a[0]==0: s.hset(o,'<seq>',mk('Seq')); return
        if o.op=='Ext': return
        s.hset(o,name,v)
    # ---- await
    def x_await(s,n):
        v=s.ex(n['e']); return s.awaitv(v,n)
    def awaitv(s,v,n,adopt=False):
        v=s.simp(v)
        if v.op=='Alt':
            out=[];g0=s.g;gg=0
            for g,x in v.a:
                s.g=land(g0,g)
                if sat(s.g): out.append((g,s.awaitv(x,n,adopt)))
                gg=lor(gg,s.g)
            s.g=gg
            return mkalt(out) if out else UNDEF
        if v.op=='Promise':
            if n is not None: s.awaits.append((v.a[0],s.g,s.ctx,n))
            ctx,gout=s.prom.get(v.a[0],(None,1))
            if ctx is not None:
                s.awaits.append((v.a[0],s.g,s.ctx,n))
                for g,x,l in ctx.exn: s.raise_(land(s.g,g),x)
            if v.a[0] in s.settle and not adopt: s.suspend()
            return v.a[1]
        if v.op=='Call' or v.op=='Ext' or v.op in('Field','Elem','Nth','FirstOf','Glob','Param'):
            if adopt and n is None:
                # returned from an async function: the caller's await waits for it
                for e in reversed(s.events):
                    if e.ret is v: e.awaited=True; e.ctx=s.ctx if e.ctx.kind!='try' else e.ctx; break
                return v if v.op!='Call' or not v.a[0].startswith('<') else v
            for e in reversed(s.events):
                if e.ret is v: e.awaited=True; break
            if v.op=='Call': s.throws(v); s.suspend(); return mk('Await',v)
        return v
    def suspend(s):
        """other handlers may run here"""
        if s.hook is not None:
            h=s.hook; s.hook=None
            o=(s.g,s.ctx,s.fr,s.loops,s.stack,s.line,s.this,s.env,s.file); s.ctx=Ctx_('top',0,None); s.fr=None; s.loops=list(s.loops); s.stack=[]
            h(s)
            s.g,s.ctx,s.fr,s.loops,s.stack,s.line,s.this,s.env,s.file=o
            if s.care!=1: s.g=land(s.g,s.care)
            if s.hook is None: s.hook=h
        if s.later is None: return
        s.epoch+=1
        for o in s.later(s):
            for k in [k for k,_ in s.heap.of(o) if not k[1].startswith('<')]:
                v=s.heap[k]
                if v.op=='Fn': continue
                lt=mk('Later',s.epoch,mk('Field',o,k[1]))
                s.heap[k]=lt if s.g==1 else mkalt([(s.g,lt),(lnot(s.g),v)])
    # ---- calls
    def args_(s,a):
        out=[]
        for x in a:
            v=s.ex(x['e'])
            if x.get('s'):
                r=s.rows(v)
                if all(not b and h==1 for b,h,w in r): out+=[w for b,h,w in r]
                else: out.append(mk('Spread',s.frozen_seq(v)))
            else: out.append(v)
        return out
    def x_new(s,n):
        f=s.simp(s.ex(n['f'])); args=s.args_(n['a']); s.line=n['l']
        return s.construct(f,args,n)
    def construct(s,f,args,n):
        if f.op=='JClass':
            c=s.P.classes[f.a[0]]; o=s.new('inst'); s.cls[o]=f.a[0]
            sv=(s.this,s.env,s.file); s.this=o; s.file=c['file']; s.env=(None,{}); s.analyzed.add('%s:new %s'%(c['file'],c['n']))
            s.event('new '+c['n'],args,o,'local',n)
            ct=[m for m in c['m'] if m['k']=='ctor']
            if ct:
                for i,p in enumerate(ct[0]['f']['ps']):
                    if p['prop'] and p['p']['k']=='name': s.heap[(o,p['p']['n'])]=args[i] if i<len(args) else UNDEF
            for m in c['m']:
                if m['k']=='prop' and not m['st']: s.heap[(o,m['n'])]=s.ex(m['i']) if m['i'] is not None else UNDEF
            s.this,s.env,s.file=sv
            if ct:
                s.n+=1; fn=mk('Fn',s.n,ct[0]['f']['id']); s.fns[fn]=(ct[0]['f'],(None,{}),o,c['file'])
                s.call_fn(fn,args,o,name='new '+c['n'])
            return o
        name='new '+s.extname(f)
        if f.op=='Ext' and f.a[0]=='Promise' and args and args[0].op=='Fn':
            s.n+=1; pid=s.n; val=mk('Settled',pid); s.settle[pid]=[]
            rs,rj=mk('Settle',pid,'resolve'),mk('Settle',pid,'reject')
            s.prom[pid]=(Ctx_('promise',pid,s.ctx),1)
            s.event(name,args,mk('Promise',pid,val),'ext',n)
            s.call_fn(args[0],[rs,rj])
            # a rejection reaches whoever awaits
            ctx=s.prom[pid][0]
            rej=[(g,v) for kind,g,ls,v in s.settle[pid] if kind=='reject']
            if rej: ctx.exn.append((atom(mk('Throws',mk('Settled',pid))),mk('Rejected',pid,s.freeze(rej[0][1])) if len(rej)==1 else mk('Rejected',pid,*[s.freeze(v) for g,v in rej]),s.line))
            return mk('Promise',pid,val)
        if f.op=='Ext' and f.a[0] in MAPS and not args:
            o=s.new('map'); s.cleared[o]=[(1,'new')]; s.event(name,args,o,'ext',n); return o
        if f.op=='Ext' and f.a[0] in('Array',) and not args: return s.arr([])
        fr=[s.freeze(a) for a in args]
        r=mk('Call',name,*fr)
        s.event(name,args,r,'ext',n); 
        return r
    def extname(s,f):
        if f.op=='Ext': return f.a[0]
        if f.op=='Glob': return f.a[0]
        return pp(f)
    def x_call(s,n):
        fn=n['f']
        if fn['k']=='prop':
            if fn['n'] in('then','catch','finally'):
                # what the promise is rejected with is of interest
                outer=s.ctx; s.ctx=c=Ctx_('then',0,outer); o=s.ex(fn['o']); s.ctx=outer; outer.exn+=c.exn
            else: o=s.ex(fn['o'])
            if fn.get('q'): return s.choose(s.truth(o),lambda: s.method(o,fn,n),lambda: UNDEF)
            return s.method(o,fn,n)
        f=s.ex(fn)
        if n.get('q'): return s.choose(s.truth(f),lambda: s.apply(f,s.args_(n['a']),n),lambda: UNDEF)
        args=s.args_(n['a']); s.line=n['l']
        return s.apply(f,args,n,hint=fn.get('n'))
    def method(s,o,fn,n):
        o=s.simp(o); name=fn['n']
        if o.op=='Alt':
            # evaluate the arguments once
            args=s.args_(n['a']); s.line=n['l']; out=[]; g0=s.g; gg=0
            if name in('map','filter','flatMap','flat') and s.isseq(o):
                r=s.arraym(o,name,args,n)
                if r is not None: return r
            for g,x in o.a:
                s.g=land(g0,g)
                if sat(s.g): out.append((g,s.meth1(x,name,fn,n,args)))
                gg=lor(gg,s.g)
            s.g=gg
            return mkalt(out) if out else UNDEF
        args=s.args_(n['a']); s.line=n['l']
        return s.meth1(o,name,fn,n,args)
    def meth1(s,o,name,fn,n,args):
        if o.op=='Ext':
            if name in('forEach','map','filter','flatMap','find','some','every') and args and args[0].op=='Fn':
                r=s.arraym(o,name,args,n)
                if r is not None: return r
            return s.ext(o.a[0]+'.'+name,args,n)
        if o.op=='Settle': return UNDEF
        if o.op=='Fn':
            if name=='call': return s.apply(o,args[1:],n,this=args[0] if args else UNDEF)
            if name=='apply': return s.apply(o,[v for b,h,v in s.rows(args[1])] if len(args)>1 else [],n)
            if name=='bind': return o
        if name in('then','catch','finally') and (o.op=='Promise' or (o.op=='Call' and any(a.op in('Fn','Settle') for a in args))): return s.then(o,name,args,n)
        if s.kind.get(o)=='map' or (s.is_map(o,fn,n)): 
            r=s.mapm(o,name,args,n)
            if r is not None: return r
        p=s.prop(o,name,fn.get('m'))
        if p.op=='Fn': return s.apply(p,args,n,this=o,hint=name)
        if p.op=='Alt' and all(x.op in('Fn','Const') for g,x in p.a): return s.apply(p,args,n,this=o,hint=name)
        if p.op=='Settle': return s.apply(p,args,n)
        r=s.arraym(o,name,args,n)
        if r is not None: return r
        if o.op=='Mod' : return s.apply(p,args,n,hint=name)
        return s.ext('.'+name,[o]+args,n)
    def is_map(s,o,fn,n): return False
    def apply(s,f,args,n,this=None,hint=None):
        f=s.simp(f)
        if f.op=='Alt':
            out=[]; g0=s.g; gg=0
            for g,x in f.a:
                s.g=land(g0,g)
                if sat(s.g): out.append((g,s.apply(x,args,n,this,hint)))
                gg=lor(gg,s.g)
            s.g=gg
            return mkalt(out) if out else UNDEF
        if f.op=='Fn':
            node=s.fns[f][0]; nm=s.fname(node)
            e=s.event(nm,args,None,'local',n,raw=([this] if this is not None else [])+args)
            if nm in s.opaque or nm.split('.')[-1] in s.opaque:
                r=mk('Call',nm,*[s.freeze(a) for a in ([this] if this is not None else [])+args]); e.ret=r; e.kind='ext'
                return r
            r=s.call_fn(f,args,this); e.ret=r
            return r
        if f.op=='Settle':
            s.settle[f.a[0]].append((f.a[1],s.g,tuple(s.loops),args[0] if args else UNDEF)); s.event('<%s>'%f.a[1],[f]+args,UNDEF,'settle',n); return UNDEF
        if f.op=='Ext': return s.ext(f.a[0],args,n)
        if f.op=='Bound': return s.meth1(f.a[0],f.a[1],{},n,args)
        if f.op=='Const': return UNDEF
        return s.ext('call '+pp(f) if f.op not in('Glob','Field') else ('.'+f.a[1] if f.op=='Field' else f.a[0]),([f.a[0]] if f.op=='Field' else [])+args,n)
    def then(s,o,name,args,n):
        """p.then(f,h), p.catch(h), p.finally(f): the handlers run once p is settled, what they raise or return settles the result"""
        g0=s.g; outer=s.ctx; fin=name=='finally'
        f=args[0] if args and name!='catch' else None; h=args[0] if args and name=='catch' else args[1] if len(args)>1 and name=='then' else None
        fn=lambda x: x is not None and x.op in('Fn','Settle','Ext')
        s.n+=1; pid=s.n; c=Ctx_('promise',pid,outer); s.prom[pid]=(c,g0)
        if o.op=='Promise':
            ctx,gout=s.prom.get(o.a[0],(None,1)); v=o.a[1]
            exns=[(land(g0,g),x) for g,x,l in ctx.exn] if ctx is not None else []; ok=land(g0,gout) if gout!=0 else 0
            s.awaits.append((o.a[0],g0,Ctx_('try','catch',outer) if fn(h) else c,n))
            if o.a[0] in s.settle: s.suspend()
        else:
            v=mk('Await',o); exns=[(land(g0,atom(mk('Throws',o))),mk('Thrown',o))]; ok=g0
            for e in reversed(s.events):
                if e.ret is o: e.awaited=True; e.ctx=Ctx_('try','catch',outer) if fn(h) else c; break
            s.suspend()
        for g,x in exns: ok=land(ok,lnot(g))
        out=[]
        def run(g,k,a,thrown=None):
            s.g=g; s.ctx=c
            if sat(g):
                r=s.awaitv(s.apply(k,a,n),None,adopt=True)
                if thrown is not None: s.raise_(s.g,thrown)
                elif sat(s.g): out.append((s.g,r))
            s.ctx=outer
        if fn(f) and not fin: run(ok,f,[v])
        elif fin and fn(f):
            s.g=ok; s.ctx=c
            if sat(ok): s.apply(f,[],n); out.append((s.g,v))
            s.ctx=outer
        elif sat(ok): out.append((ok,v))
        ge=0
        for g,x in exns: ge=lor(ge,g)
        if fn(h) and ge!=0: run(ge,h,[mkalt([(restrict(g,ge),x) for g,x in exns])])
        elif not fn(h):
            for g,x in exns:
                if fin and fn(f): run(g,f,[],x)
                elif sat(g): c.exn.append((g,x,s.line))
        s.g=g0; gout=0
        for g,r in out: gout=lor(gout,g)
        s.prom[pid]=(c,gout)
        return mk('Promise',pid,mkalt([(restrict(g,gout) if gout not in(0,1) else g,r) for g,r in out]) if out else UNDEF)
    # ---- maps
    def mapm(s,o,name,args,n):
        fz=[s.freeze(a) for a in args]
        k='<k>'+pp(fz[0]) if fz else None
        if name=='set': s.event('Map.set',[o]+args,o,'map',n,raw=[o]+args); s.hset(o,k,args[1],old=s.mapget(o,k,fz[0])); return o
        if name=='add': s.event('Map.set',[o]+args,o,'map',n,raw=[o]+args); s.hset(o,k,Bool(1),old=s.mapget(o,k,fz[0])); return o
        if name in('get','has'):
            v=s.mapget(o,k,fz[0])
            s.event('Map.'+name,[o]+args,v,'map',n,raw=[o]+args)
            return v if name=='get' else Bool(s.truth(v))
        if name=='delete': s.event('Map.delete',[o]+args,UNDEF,'map',n,raw=[o]+args); s.hset(o,k,UNDEF,old=s.mapget(o,k,fz[0])); return UNDEF
        if name=='clear':
            s.event('Map.clear',[o],UNDEF,'map',n,raw=[o])
            for q in [q for q,_ in s.heap.of(o) if q[1].startswith('<k>')]: s.hset(o,q[1],UNDEF)
            s.cleared.setdefault(o,[]).append((s.g,'clear')); return UNDEF
        return None
    def mapget(s,o,k,key):
        v=s.heap.get((o,k))
        if v is not None: return s.simp(v)
        cl=0
        for g,w in s.cleared.get(o,[]): cl=lor(cl,g)
        u=mk('Call','.get',o,key) if s.epoch==0 or s.later is None else mk('Call','.get',o,key,Int(s.epoch))
        return s.simp(mkalt([(cl,UNDEF),(lnot(cl),u)]))
    # ---- arrays
    def cb(s,f,*args):
        if f.op=='Fn': 
            o=s.fr
            if s.fr is None: s.fr=Fr(s.g,'top')
            r=s.call_fn(f,list(args)); s.fr=o
            return r
        if f.op=='Ext' and f.a[0] in('Boolean',): return Bool(s.truth(args[0]))
        return mk('Call',s.extname(f),*[s.freeze(a) for a in args])
    def arraym(s,o,name,args,n):
        if o.op in('Str','Tpl') : 
            if name in('toString','valueOf'): return o
            if o.op=='Str' and name in('trim','trimEnd','toLowerCase','toUpperCase') and not args: return Str({'trim':str.strip,'trimEnd':str.rstrip,'toLowerCase':str.lower,'toUpperCase':str.upper}[name](o.a[0]))
            return None
        seq=s.isseq(o)
        f=args[0] if args else None
        hof=f is not None and f.op in('Fn','Ext','Bound')
        if name=='forEach' and hof:
            if s.fr is None: s.fr=Fr(s.g,'top'); top=True
            else: top=False
            for bs,h,v in s.rows(o):
                if bs: s.iterate(bs,h,lambda: s.cb(f,v,mk('IdxOf',v)))
                else:
                    g0=s.g; s.g=land(g0,h)
                    if s.g!=0: s.cb(f,v,mk('IdxOf',v))
                    s.g=lor(s.g,land(g0,lnot(h)))
            if top: s.fr=None
            return UNDEF
        if name=='map' and hof: return s.arr([(bs,h,r) for bs,h,r,gd,ga in s.each(o,lambda v,i: s.cb(f,v,i))])
        if name=='filter' and hof:
            out=[]
            for (bs,h,v),(b2,h2,r,gd,ga) in zip(s.rows(o),s.each(o,lambda v,i: s.cb(f,v,i))):
                t=land(h2,s.truth(r))
                if t!=0: out.append((bs,t,v))
            return s.arr(out)
        if name in('find','findIndex','findLast') and hof:
            out=[]
            for (bs,h,v),(b2,h2,r,gd,ga) in zip(s.rows(o),s.each(o,lambda v,i: s.cb(f,v,i))):
                t=land(h2,s.truth(r))
                if t!=0: out.append((bs,t,v))
            rs=s.rows(o)
            if name=='findIndex' and len(rs)==1 and len(rs[0][0])==1 and rs[0][1]==1 and rs[0][0][0].op=='B':
                # the index of the first element that meets the condition, or -1
                q=[((b,),t,mk('IdxOf',mk('Elem',*b.a))) for (b,),t,v in out]
                if not q: return Int(-1)
                q=s.freeze(s.seq(q)); some=s.nonempty(q)
                return mkalt([(lnot(some),Int(-1)),(some,mk('FirstOf',q))])
            return mk({'find':'FirstOf','findIndex':'FirstIdx','findLast':'LastOf'}[name],s.freeze(s.seq(out))) if not(out and not out[0][0] and out[0][1]==1 and name=='find') else out[0][2]
        if name in('some','every') and hof:
            r=0
            for bs,h,x,gd,ga in s.each(o,lambda v,i: s.cb(f,v,i)):
                t=s.truth(x); t=land(h,t if name=='some' else lnot(t))
                for b in reversed(bs): t=exg(b,t)
                r=lor(r,t)
            return Bool(r if name=='some' else lnot(r))
        if name=='flatMap' and hof:
            m=s.arraym(o,'map',args,n); return s.arraym(m,'flat',[],n)
        if name=='flat':
            if not seq: return mk('Call','.flat',o)
            out=[]
            for bs,h,v in s.rows(o):
                ls=[LoopInst(b) for b in bs]; s.loops+=ls
                for b2,h2,v2 in s.rows(v): out.append((tuple(bs)+tuple(b2),land(h,h2),v2))
                if ls: del s.loops[-len(ls):]
            return s.arr(out)
        if name=='concat' and (seq or args):
            out=list(s.rows(o))
            for a in args:
                for h0,x in alts(s.simp(a)):
                    if s.isseq(x) or x.op in('Call','Field','Elem','FirstOf','Await'): out+=[(bs,land(h0,h),v) for bs,h,v in s.rows(x)]
                    else: out.append(((),h0,x))
            return s.arr(out)
        if name=='push' and seq and o.op=='JObj':
            d=s.heap.get((o,'<depth>')); d=d.a[0] if d is not None else 0
            bs=tuple(l.binder for l in s.loops[d:])
            cur=s.heap[(o,'<seq>')]
            add=[]; gb=s.born.get(o,1); gp=restrict(s.g,gb) if gb>1 and s.g>1 else s.g
            for a in args:
                if a.op=='Spread': add+=[(bs+tuple(b),land(gp,h),v) for b,h,v in s.rows(a.a[0])]
                else: add.append((bs,gp,a))
            s.event('.push',[mk('Ref',o)]+args,UNDEF,'push',n,raw=[o]+args)
            if cur.op=='Seq': s.heap[(o,'<seq>')]=mk('Seq',*cur.a,*add)
            else: s.heap[(o,'<seq>')]=mk('Seq',*[r for r in s.rows(o)],*add)
            return mk('LenOf',s.frozen_seq(o))
        if name in('sort','toSorted') and seq and len(s.rows(o))>0:
            r=s.ext('.sort',[s.freeze(s.frozen_seq(o))]+args,n); g0=s.g
            new=[((mk('B',r,0),),1,mk('Elem',r,0))]
            if name=='toSorted': return s.arr(new)
            if o.op=='JObj': s.heap[(o,'<seq>')]=mk('Seq',*new) if s.g==1 else mk('Seq',*[(b,land(s.g,h),v) for b,h,v in new],*[(b,land(lnot(s.g),h),v) for b,h,v in s.rows(o) if land(lnot(s.g),h)!=0])
            return o
        if name=='slice' and seq:
            if not args: return s.arr(s.rows(o))
            r=s.rows(o)
            if all(not b and h==1 for b,h,v in r) and all(a.op=='Int' for a in args): return s.arr(r[slice(*[a.a[0] for a in args])])
            return mk('Call','.slice',s.freeze(s.frozen_seq(o)),*[s.freeze(a) for a in args])
        if name=='reverse' and seq: return mk('Call','.reverse',s.freeze(s.frozen_seq(o)))
        if name=='includes' and seq:
            r=0
            for bs,h,v in s.rows(o):
                t=land(h,s.eq(v,args[0]))
                for b in reversed(bs): t=exg(b,t)
                r=lor(r,t)
            return Bool(r)
        if name=='join' and seq:
            r=s.rows(o)
            if all(not b and h==1 for b,h,v in r):
                sep=args[0] if args else Str(','); ps=[]
                for i,(b,h,v) in enumerate(r):
                    if i: ps.append(sep)
                    ps.append(v)
                return s.tpl(ps)
            return None
        if name in('keys','entries') and not args and seq: return mk('Call','lodash.range',mk('LenOf',s.frozen_seq(o))) if name=='keys' else mk('Call','.entries',s.frozen_seq(o))
        if name=='reduce' and hof and (seq or len(args)>1): 
            s.line=n['l']; r=s.rows(o); acc=args[1] if len(args)>1 else None
            if all(not b and h==1 for b,h,v in r) and acc is not None:
                for b,h,v in r: acc=s.cb(f,acc,v)
                return acc
            if acc is not None:
                for bs,h,v in r:
                    if len(bs)>1: return None
                for bs,h,v in r:
                    g0=s.g; s.g=land(g0,h)
                    if not sat(s.g): s.g=g0; continue
                    if not bs: acc=mkalt([(h,s.cb(f,acc,v)),(lnot(h),acc)]); s.g=g0; continue
                    p=mk('Prev','acc%d.%d'%(n['l'],len(s.events)),len(s.loops)); s.loops.append(LoopInst(bs[0]))
                    x=s.cb(f,p,v); s.g=g0; del s.loops[-1:]
                    acc=s.folded(bs,p,acc,mkalt([(h,x),(lnot(h),p)]) if h!=1 else x,0,g0)
                return acc
        return None
    # ---- external functions
    def ext(s,name,args,n):
        if name.startswith('console.'): s.ncalls+=1; return UNDEF
        base=name.split('.')[-1]
        if name in('lodash.map','lodash.filter','lodash.forEach','lodash.each','lodash.find','lodash.some','lodash.every','lodash.flatMap','lodash.flatten','lodash.concat','lodash.includes') and args:
            m={'each':'forEach','flatten':'flat'}.get(base,base)
            if not s.isseq(args[0]) or m in('forEach','map','filter','find','some','every','flatMap','flat'):
                r=s.arraym(args[0],m,args[1:],n)
                if r is not None: return r
        if name=='Array.from' and args: return s.arr([(b,h,s.cb(args[1],v)) for b,h,v in s.rows(args[0])]) if len(args)>1 else s.arr(s.rows(args[0]))
        if name in('Object.keys','Object.values','Object.entries') and args and s.kind.get(args[0])=='obj':
            l=[(kk[1],v) for kk,v in s.heap.of(args[0]) if not kk[1].startswith('<')]
            return s.arr([((),1,Str(a) if base=='keys' else v if base=='values' else s.arr([((),1,Str(a)),((),1,v)])) for a,v in l])
        if name=='Object.is' and len(args)==2: return Bool(s.eq(args[0],args[1]))
        if name in('Promise.all','Promise.allSettled') and args:
            out=[]
            s.n+=1; pid=s.n; c=Ctx_('promise',pid,s.ctx); s.prom[pid]=(c,1); outer=s.ctx; s.ctx=c
            for bs,h,r,gd,ga in s.each(args[0],lambda v,i: s.awaitv(v,n)): out.append((bs,h,r))
            s.ctx=outer
            ev=s.arr(out)
            s.event(name,args,ev,'ext',n)
            return mk('Promise',pid,ev)
        if name=='Promise.resolve': 
            s.n+=1; s.prom[s.n]=(Ctx_('promise',s.n,s.ctx),1); return mk('Promise',s.n,args[0] if args else UNDEF)
        if name=='Promise.race' : pass
        if name=='String' and len(args)==1 and args[0].op in('Str','Tpl'): return args[0]
        if name=='.toString' and args[0].op=='Int': return Str(str(args[0].a[0]))
        raw=list(args); a2=[]; fns=[]
        pure=name.startswith(PURE)
        for a in args:
            if a.op=='Fn':
                fns.append(a)
                a2.append(a)
            else: a2.append(a)
        sync=pure or base in('search','sort','sortBy','orderBy','replace','reduce')
        fz=[]
        for a in a2:
            if a.op=='Fn' and sync:
                node=s.fns[a][0]; s.n+=1
                ps=[mk('CbArg',name,i) for i in range(len(node['ps']))]
                li=LoopInst(mk('B',mk('CbOf',name),sum(1 for l in s.loops if l.binder.op=='B' and l.binder.a[0] is mk('CbOf',name))),'callback'); s.loops.append(li)
                g0=s.g; r=s.cb(a,*ps); s.g=g0; s.loops.pop()
                fz.append(mk('Lam',s.freeze(r)))
            elif a.op=='JObj' and sync and s.isseq(a) and any(v.op=='Fn' for b,h,v in s.rows(a)):
                rr=[]
                for b,h,v in s.rows(a):
                    if v.op=='Fn':
                        ps=[mk('CbArg',name,i) for i in range(len(s.fns[v][0]['ps']))]; g0=s.g; r=s.cb(v,*ps); s.g=g0; rr.append((b,h,mk('Lam',s.freeze(r))))
                    else: rr.append((b,h,s.freeze(v)))
                fz.append(mk('Seq',*rr))
            else: fz.append(s.freeze(a))
        r=mk('Call',name,*fz)
        if base=='createTextEditorDecorationType': s.n+=1; r=mk('Call',name,*fz,mk('Site',s.file,s.n))
        e=s.event(name,fz,r,'ext',n,raw=raw)
        if not(pure or (name.startswith(('.','vscode.window.activeTextEditor.','vscode.window.visibleTextEditors.')) and base in PUREM) ): s.throws(r) if not s.isawaited(n) else None
        if fns and not sync: s.callbacks(name,fz,fns,n)
        return r
    def isawaited(s,n): return n is not None and n.get('_aw')
    def callbacks(s,name,fz,fns,n):
        """handlers of streams and processes run later, any number of times"""
        if name.startswith('vscode.'): return
        for f in fns:
            node=s.fns[f][0]
            b=mk('B',mk('CbOf',name,*[x for x in fz if x.op!='Fn'][:2]),0)
            ps=[mk('CbArg',name,*[x for x in fz if x.op!='Fn'][:2],i) for i in range(len(node['ps']))]
            g0,c0=s.g,s.ctx; s.ctx=Ctx_('top',0,None)   # nobody waits for what they raise
            s.iterate((b,),1,lambda: s.cb(f,*ps),kind='callback')
            s.g,s.ctx=g0,c0
def mark_awaits(dump):
    def w(x):
        if isinstance(x,list):
            for y in x: w(y)
        elif isinstance(x,dict):
            if x.get('k')=='await' and x['e'].get('k')=='call': x['e']['_aw']=True
            if x.get('k')=='call' and x['f'].get('k')=='prop' and x['f'].get('n') in('then','catch','finally') and x['f']['o'].get('k')=='call': x['f']['o']['_aw']=True
            if x.get('k')=='ret' and x['e'] and x['e'].get('k')=='call': x['e']['_aw']=True
            for y in x.values():
                if isinstance(y,(dict,list)): w(y)
    w(dump['files'])
def load(path):
    d=json.load(open(path)); mark_awaits(d); return Prog(d)
