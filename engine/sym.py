"""Collecting abstract interpreter over dumped MIR (static analysis; see DESIGN.md)."""
import json,re,os,glob
from terms import *
import terms as TM

COLLS={'Vec','HashMap','HashSet','IndexMap','IndexSet','IndexMatrix','SmallVec','IndexVec','SparseBitMatrix','ChunkedBitSet','DenseBitSet','MixedBitSet','BitSet','WorkQueue','VecDeque','BTreeMap','BTreeSet','String','BinaryHeap','ThinVec'}
def strip_generics(p):
    out=[];d=0;i=0
    while i<len(p):
        c=p[i]
        if c=='<':
            # keep "<impl ...>" / "<X as Y>" detection out: drop
            d+=1
        elif c=='>' and (i==0 or p[i-1]!='-'):
            d-=1
        elif d==0: out.append(c)
        i+=1
    return re.sub(r'(::)+','::',''.join(out)).strip(':')
def last(p):
    p=strip_generics(p)
    return p.split('::')[-1]

SEALED={}
def seal(t):
    """an arithmetic operand that depends on the path: one opaque number"""
    if t.op!='Alt': return t
    SEALED[t.id]=t
    return mk('Sealed',t.id)
class LoopInst:
    __slots__=('binder','cuts','id','kind','extra','exits','where')
    n=0
    def __init__(s,binder,kind='iter'):
        s.binder=binder; s.cuts=[]; LoopInst.n+=1; s.id=LoopInst.n; s.kind=kind; s.extra=None; s.exits=[]; s.where=None
    def __repr__(s): return ('cut ' if s.cuts else '')+s.kind+':'+pp(s.binder)
GUARDS=('set_guard',)   # values whose drop is an event
class Event:
    __slots__=('name','path','args','guard','loops','seq','site','ret','g','stack','kind')
    def __repr__(s): return '#%d [%s] %s%s -- if %s @%s'%(s.seq,', '.join(map(repr,s.loops)),s.name,pp(tuple(s.args)),B.show(s.guard),s.site)
class St:
    __slots__=('g','env')
    def __init__(s,g,env): s.g=g; s.env=env
    def copy(s): return St(s.g,dict(s.env))

def join(sts):
    sts=[s for s in sts if s.g!=0]
    if not sts: return None
    if len(sts)==1: return sts[0]
    G=0
    for s in sts: G=lor(G,s.g)
    env={}
    keys=set()
    for s in sts: keys|=s.env.keys()
    for k in keys:
        vs=[s.env.get(k) for s in sts]
        f=vs[0]
        if all(v is f for v in vs): env[k]=f; continue
        if isinstance(k,tuple) and k[0]=='mem':
            base=k[1]
            env[k]=mkalt([(s.g,v if v is not None else base) for s,v in zip(sts,vs)],G); continue
        al=[(s.g,v) for s,v in zip(sts,vs) if v is not None and v.op!='Undef']
        if not al: env[k]=BOT
        elif len({v for _,v in al})==1: env[k]=al[0][1]
        else: env[k]=mkalt(al,G)
    return St(G,env)

class Program:
    def __init__(s,dumpdir):
        s.bodies={}; s.promoted={}; s.adts={}; s.impls=[]; s.crates={}
        for f in sorted(glob.glob(os.path.join(dumpdir,'*.json'))):
            d=json.load(open(f))
            s.crates[d['crate']]=d
            for b in d['bodies']:
                if b['promoted'] is not None: s.promoted[(b['path'],b['promoted'])]=b
                else: s.bodies[b['path']]=b
            s.adts.update(d['adts'])
            for i in d['impls']:
                i['crate']=d['crate']; s.impls.append(i)
        for p,a in s.adts.items():
            if a['enum']: TM.ENUMVARS[last(p)]=[v[0] for v in a['vs']]
        s.byname={}
        for p,b in s.bodies.items():
            s.byname.setdefault(b['name'],[]).append(b)
        s._prep={}; s.renum={}; s.wrap={}
        s._fieldnumbers()
    def direct_calls(s,b):
        return [t['f']['f'] for t in (x['t'] for x in b['blocks']) if t['k']=='call' and t['f']['k']=='fn']
    def _fieldnumbers(s):
        """functions through which the code takes PlaceExt::interior_places/-pointers, which count only the visible
        fields of a struct (C43 decides whether they correct that): `wrap` are functions that return the whole
        collection, `renum` those that return one place of it; the rules see through both"""
        isp=lambda t: re.sub(r"<.*",'',t).endswith('mir::syntax::Place') and not t.startswith('&')
        for p,b in s.bodies.items():
            if b['kind'] not in('Fn','AssocFn') or 'test' in p.split('::'): continue
            tys=[x[0] for x in b['locals'][:b['argc']+1]]; pl=[i for i in range(1,len(tys)) if isp(tys[i])]
            if not pl: continue
            d=s.direct_calls(b)
            ip=[g['fn'] for g in d if g['fn'].startswith('rustc_utils::') and g['name'] in('interior_places','interior_pointers')]
            if len(ip)==1 and len(pl)==1 and ('HashSet<' in tys[0] or 'HashMap<' in tys[0]):
                o=[next((i for i in range(1,len(tys)) if k in tys[i]),None) for k in('TyCtxt<','mir::Body<','DefId')]
                if None not in o: s.wrap[p]=(ip[0],[pl[0]-1]+[i-1 for i in o])
            elif isp(tys[0]) and s.consults_visibility(p): s.renum[p]=None
    def consults_visibility(s,p,depth=0):
        for q,x in s.bodies.items():
            if q==p or q.startswith(p+'::'):
                for g in s.direct_calls(x):
                    if g['name']=='is_accessible_from' or depth<3 and g['fn']!=p and g['fn'] in s.bodies and s.consults_visibility(g['fn'],depth+1): return True
        return False
    def renum_arg(s,p):
        """the argument of a renumbering function that is the place being renumbered: the one whose fields it goes through"""
        if s.renum[p] is None:
            b=s.bodies[p]; n=b['argc']; s.renum[p]=-1
            I=Interp(s); a=[mk('Param',p,i,str(i)) for i in range(n)]; I.run(b,a)
            c=[i for i in range(n) if any(any(x is a[i] for x in TM.walk(l.binder)) for e in I.events for l in e.loops if l.binder is not None)]
            pl=[i for i in range(n) if b['locals'][i+1][0].split('<')[0].endswith('mir::syntax::Place')]
            c=[i for i in c if i in pl] or pl
            if len(c)==1: s.renum[p]=c[0]
        return s.renum[p]
    def prep(s,b):
        k=id(b)
        r=s._prep.get(k)
        if r is None:
            r=CFG(b); s._prep[k]=r
        return r
    def find(s,name,crate=None,impl=None,trait=None,closure=False):
        """find function bodies by item name (module-independent)"""
        out=[]
        for b in s.byname.get(name,[]):
            if b['kind'] not in('Fn','AssocFn'): continue
            if crate and b['crate']!=crate: continue
            im=b.get('impl')
            if impl is not None and (im is None or last(im['head'])!=impl): continue
            if trait is not None and (im is None or im['trait'] is None or last(im['trait'])!=trait): continue
            out.append(b)
        return out

class CFG:
    def __init__(s,b):
        bl=b['blocks']; n=len(bl)
        s.succ=[]
        for x in bl:
            t=x['t']; k=t['k']
            if x['cleanup']: s.succ.append([]); continue
            if k=='goto' or k=='drop' or k=='assert': l=[t['t']]
            elif k=='switch': l=[y for _,y in t['ts']]+[t['else']]
            elif k=='call': l=[t['t']] if t['t'] is not None else []
            else: l=[]
            s.succ.append(l)
        # blocks from which every path ends in a panic
        s.doomed=set(); ch=True
        while ch:
            ch=False
            for i,x in enumerate(bl):
                if i in s.doomed or x['cleanup']: continue
                t=x['t']; k=t['k']
                if k=='call' and t['t'] is None: d=t['f']['k']=='fn' and 'panicking::' in t['f']['f']['fn']
                else: d=bool(s.succ[i]) and all(j in s.doomed for j in s.succ[i])
                if d: s.doomed.add(i); ch=True
        # rpo
        seen=set(); order=[]
        def dfs(u):
            stack=[(u,iter(s.succ[u]))]; seen.add(u)
            while stack:
                v,it=stack[-1]
                for w in it:
                    if w not in seen:
                        seen.add(w); stack.append((w,iter(s.succ[w]))); break
                else:
                    order.append(v); stack.pop()
        dfs(0)
        s.rpo=order[::-1]; s.idx={v:i for i,v in enumerate(s.rpo)}
        pred={v:[] for v in s.rpo}
        for v in s.rpo:
            for w in s.succ[v]: pred[w].append(v)
        # dominators
        idom={0:0}; ch=True
        def inter(a,c):
            while a!=c:
                while s.idx[a]>s.idx[c]: a=idom[a]
                while s.idx[c]>s.idx[a]: c=idom[c]
            return a
        while ch:
            ch=False
            for v in s.rpo[1:]:
                ps=[p for p in pred[v] if p in idom]
                if not ps: continue
                d=ps[0]
                for p in ps[1:]: d=inter(d,p)
                if idom.get(v)!=d: idom[v]=d; ch=True
        def dom(a,c):
            while True:
                if a==c: return True
                if c==0: return False
                c=idom[c]
        loops={}
        for v in s.rpo:
            for w in s.succ[v]:
                if dom(w,v):
                    body=loops.setdefault(w,{w}); st=[v]
                    while st:
                        x=st.pop()
                        if x in body: continue
                        body.add(x); st+=pred[x]
        s.loops=loops

class Interp:
    def __init__(s,prog,opaque=(),max_depth=40):
        s.p=prog; s.opaque=set(opaque); s.events=[]; s.fid=0; s.stack=[]; s.loops=[]; s.regions=[]
        s.cell_depth={}; s.seq=0; s.objs={}; s.escaped=set(); s.panics=[]; s.max_depth=max_depth
        s.prev={}; s.prevs={}; s.contrib={}; s.analyzed=set(); s.ncalls=0; s.unknown=[]; s.kcount={}
        s.max_events=60000; s.objreg={}; s.lenreads={}; s.objctx={}; s.memo={}; s.curg=1
        s.reads=[]; s.carried={}; s.done=False
        s.on_missing=None; s.partial=[]
    # ------------------------------------------------------------ entry
    def run(s,b,args=None,guard=1):
        n=b['argc']
        if args is None: args=[mk('Param',b['path'],i,'P%d'%i) for i in range(n)]
        for _ in range(5):
            st=St(guard,{})
            st,v=s.inline(b,args,st,'entry')
            if not s.find_carried(): break
            c=s.carried
            s.__init__(s.p,s.opaque,s.max_depth); s.carried=c
        s.done=True
        s.ret=v
        s.final=st
        return v
    def find_carried(s):
        """collections read in a loop that also adds to them: what is read includes additions of earlier iterations"""
        new=False; by={}
        for e in s.events:
            if e.args and (e.kind=='contrib' or e.name in SCRAMBLE): by.setdefault(e.args[0],[]).append(e)
        for o,loops in s.reads:
            bs=[b for b in s.objctx.get(o,([],1))[0]]
            for e in by.get(o,()):
                n=0
                while n<len(e.loops) and n<len(bs) and e.loops[n].binder is bs[n]: n+=1
                for l in e.loops[n:]:
                    if any(l.binder is x.binder and (l.where is None or x.where is None or l.where==x.where) for x in loops[n:]) and l.binder not in s.carried.setdefault(o,set()):
                        s.carried[o].add(l.binder); new=True
        return new
    def inline(s,b,args,st,site):
        if len(s.stack)>=s.max_depth or any(x[0] is b for x in s.stack)>0 and sum(1 for x in s.stack if x[0] is b)>1:
            return st,mk('Call','<rec>'+b['name'],*args)
        s.analyzed.add(b['path'])
        fid=s.fid=s.fid+1
        fr=(fid,b)
        s.stack.append((b,site,fid))
        env=st.env
        keys0=None
        st2=St(st.g,dict(env))
        if b.get('spread') not in(None,) and len(args)<b['argc']: pass
        for i,a in enumerate(args): s.setcell(st2,(fid,i+1),a)
        nl=len(s.loops); nr=len(s.regions)
        exits,_=s.region(fr,None,0,st2)
        del s.loops[nl:]; del s.regions[nr:]
        s.stack.pop()
        rets=[x for d,x in exits if d=='ret']
        out=join(rets)
        if out is None: return St(0,st.env),BOT
        v=out.env.get((fid,0),UNIT if b['locals'][0][0]=='()' else BOT)
        if v.op=='Undef' and b['locals'][0][0]=='()': v=UNIT
        # drop the frame's cells unless references to them escape through the result
        keep=set()
        def lref(t):
            for x in walk(t):
                if x.op=='LRef' and x.a[0][0]==fid: keep.add(x.a[0])
        lref(v)
        if not keep:
            env2={k:x for k,x in out.env.items() if not(isinstance(k,tuple) and k[0]==fid)}
        else: env2=dict(out.env)
        return St(out.g,env2),v
    # ------------------------------------------------------------ regions
    def region(s,fr,region,header,st):
        cfg=s.p.prep(fr[1])
        pend={header:[st]}; exits=[]; backs=[]
        for b in cfg.rpo:
            if region is not None and b not in region: continue
            if b not in pend: continue
            cur=join(pend.pop(b))
            if cur is None: continue
            if b in cfg.loops and not(region is not None and b==header):
                outs=s.loop(fr,cfg.loops[b],b,cur)
            else:
                outs=s.block(fr,b,cur)
            for d,x in outs:
                if x.g==0: continue
                if d=='ret': exits.append((d,x))
                elif region is not None and d==header: backs.append(x)
                elif region is not None and d not in region: exits.append((d,x))
                else: pend.setdefault(d,[]).append(x)
        return exits,backs
    def loop(s,fr,body,header,st):
        fid,b=fr
        G0=st.g
        # locals assigned in the loop that hold a value at entry
        written=s.written(b,body)
        itcells={(fid,l) for l in s.iter_locals(b,body)}
        key=(tuple((x[0]['path'],x[1]) for x in s.stack[-6:]),header)
        ind=None
        allexits=[]; allbacks=[]
        attempt=0
        ev0=len(s.events); pan0=len(s.panics); par0=len(s.partial)
        induction={}; force=set()
        while True:
            del s.events[ev0:]; del s.panics[pan0:]; del s.partial[par0:]
            allexits=[];allbacks=[]
            segi=0; ctxs=[]; opened={}
            while True:
                ctx={'seg':segi,'nseg':1,'insts':None,'depth':len(s.regions),'key':key,'fr':fid,'header':header,'opened':opened}
                s.regions.append(ctx); nl=len(s.loops)
                li=LoopInst(mk('B',mk('While',key[0][-1][0] if key[0] else '',header),0),'while')
                ctx['li']=li
                h=St(G0,dict(st.env)); prevs={}
                cells=[(fid,l) for l in written if (fid,l) in st.env and st.env[(fid,l)].op!='Undef']
                # cells of other frames may be written through references
                for k,v in st.env.items():
                    pass
                for c in cells+list(s.extra_written(fr,body,st)):
                    v=st.env.get(c)
                    if v is None or v.op in('Undef','It','LRef','Clos') or c in itcells: continue
                    if isobj(v) and c not in force: continue
                    if c in induction: h.env[c]=induction[c]; continue
                    pv=mk('Prev',str(key[0][-1][0])+':'+str(header),s.cellname(c,fr))
                    prevs[c]=pv; h.env[c]=pv; s.prev[pv]=[v,None]
                if induction.get('li'): 
                    s.loops.append(induction['li'])
                    ctx['insts']=[induction['li']]
                else: s.loops.append(li); ctx['wli']=True
                exits,backs=s.region(fr,body,header,h)
                del s.loops[nl:]; s.regions.pop()
                ctxs.append(ctx)
                allexits+=[(d,x,ctx,prevs) for d,x in exits]; allbacks+=[(x,ctx,prevs) for x in backs]
                segi+=1
                if segi>=ctx['nseg']: break
            # a local holding a collection that is replaced by another one in the loop
            nf={c for x,cx,pv in allbacks for c in cells if c not in force and isobj(st.env[c]) and x.env.get(c) is not None and x.env[c] is not st.env[c]}
            if nf: force|=nf; continue
            # induction-variable detection (index loops)
            if not induction and attempt==0:
                ind=s.find_induction(allexits,allbacks,st,G0)
                if ind: induction=ind; attempt=1; continue
            break
        # resolve loop-carried values
        res={}
        ctx=ctxs[0]
        insts=ctx['insts'] or [ctx['li']]
        used_iter=ctx['insts'] is not None
        binders=[i.binder for i in insts]
        def rel(g):
            g=restrict(g,G0)
            return s.drop_in(g)
        def wrap(g,bs=None):
            for bd in reversed(bs or binders): g=exg(bd,g)
            return g
        prevs=allbacks[0][2] if allbacks else (allexits[0][3] if allexits else {})
        allprev={}
        for _,_,pv in allbacks: allprev.update(pv)
        for _,_,_,pv in allexits: allprev.update(pv)
        for c,pv in allprev.items():
            v0=st.env[c]
            s.prevs.setdefault(pv,[]).append((v0,[(rel(x.g),x.env[c]) for x,_,_ in allbacks if x.env.get(c) is not None]))
            res[c]=s.resolve_prev(c,pv,v0,allbacks,rel,lambda g,cx:wrap(g,[i.binder for i in (cx['insts'] or [cx['li']])]),c[0]==fid and not isinstance(c[1],T) and b['locals'][c[1]][0]=='bool')
        for x,cx,pv in allbacks: pass
        # exits
        outs=[]; cfg=s.p.prep(b)
        natural=[];early=[]
        single=len({id(x) for _,x,_,_ in allexits})==1 or len(allexits)==len(ctxs) and len({d for d,_,_,_ in allexits})==1
        for d,x,cx,pv in allexits:
            if s.is_natural(x.g,cx) or (single and not used_iter): natural.append((d,x,cx))
            else: early.append((d,x,cx))
        if not natural and early and not used_iter:
            # generic loop with several exits: all are conditional
            pass
        eg=0; outl=[]
        for d,x,cx in early:
            bs=[i.binder for i in (cx['insts'] or [cx['li']])]
            g=rel(x.g); ex=wrap(g,bs)
            if d in cfg.doomed: outl.append((d,x,land(G0,ex))); continue # a panic ends everything
            for i in (cx['insts'] or [cx['li']]): i.cuts.append(g)
            if natural or len([1 for y in early if y[0] not in cfg.doomed])>1: outl.append((d,x,land(G0,ex)))
            else: outl.append((d,x,G0))
            eg=lor(eg,ex)
        for d,x,cx in natural:
            outl.append((d,x,land(G0,lnot(eg)) if eg else G0))
            if not used_iter: cx['li'].exits.append(rel(x.g))
        if natural and not early and not used_iter: s.rotate(natural,allbacks,allprev,st,ev0,rel)
        allnat={}
        for d,x,g in outl:
            m={pv:res[c] for c,pv in allprev.items() if c in res}
            env=dict(x.env)
            if m:
                memo={}
                for k,v in list(env.items()):
                    if v is not None and v.op!='Undef' and s.mentions(v,m): env[k]=subst(v,m,memo)
            outs.append((d,St(g,env)))
        # merge natural exits coming from several segments to the same target (same state shape)
        return s.merge_same(outs)
    def rotate(s,natural,backs,allprev,st,ev0,rel):
        """while flag { flag=false; .. } -> loop { .. if !flag {break} }"""
        lis={id(cx['li']):cx['li'] for _,_,cx in natural}
        if len(lis)!=1: return
        li=next(iter(lis.values()))
        E=lorn(*li.exits)
        for c,pv in allprev.items():
            vi=B.vars.get(pv)
            if vi is None: continue
            pol=1 if E==atom(pv) else 0 if E==lnot(atom(pv)) else None
            if pol is None: continue
            t0=truth(st.env[c])
            if t0 not in(0,1) or t0==pol: return
            nE=0
            for x,cx,pvs in backs:
                f=truth(x.env[c]) if x.env.get(c) is not None else 0
                nE=lor(nE,land(rel(x.g),f if pol else lnot(f)))
            cof=lambda g:B.cofactor(g,vi,1-pol) if g>1 else g
            m={pv:Bool(1-pol)}; memo={}
            li.exits=[cof(nE)]
            for e in s.events[ev0:]:
                if li not in e.loops: continue
                e.guard=cof(e.guard)
                e.args=tuple(subst(x,m,memo) if isinstance(x,T) and s.mentions(x,m) else x for x in e.args) if isinstance(e.args,tuple) else [subst(x,m,memo) if isinstance(x,T) and s.mentions(x,m) else x for x in e.args]
            return
    def merge_same(s,outs):
        by={}
        for d,x in outs: by.setdefault(d,[]).append(x)
        r=[]
        for d,l in by.items():
            if len(l)>1 and all(x.g==l[0].g for x in l):
                j=l[0]
                env={}
                for k in set().union(*[x.env.keys() for x in l]):
                    vs=[x.env[k] for x in l if k in x.env]
                    env[k]=vs[0] if all(v is vs[0] for v in vs) else vs[-1]
                r.append((d,St(j.g,env)))
            else: r+= [(d,x) for x in l]
        return r
    def mentions(s,v,m):
        for x in walk_g(v):
            if x in m: return True
        return False
    def cellname(s,c,fr):
        if isinstance(c,tuple) and c[0]==fr[0]:
            return (fr[1]['locals'][c[1]][2] or '_%d'%c[1])
        return str(c[1]) if not isinstance(c[1],T) else 'm'+str(c[1].id)
    def written(s,b,body):
        w=set()
        for i in body:
            x=b['blocks'][i]
            for q in x['s']:
                if 'p' in q: w.add(q['p'][0])
                if q.get('r',{}).get('k')=='ref' and q['r'].get('mut') and not any(e[0]=='*' for e in q['r']['p'][1:]): w.add(q['r']['p'][0])
            if x['t']['k']=='call': w.add(x['t']['d'][0])
        return w
    def iter_locals(s,b,body):
        refs={}; out=set()
        for i in body:
            for q in b['blocks'][i]['s']:
                if 'r' in q and len(q['p'])==1:
                    r=q['r']
                    if r['k']=='ref': refs[q['p'][0]]=r['p'][0]
                    elif r['k']=='use' and r['o'].get('p') and len(r['o']['p'])==1: refs[q['p'][0]]=r['o']['p'][0]
        for i in body:
            t=b['blocks'][i]['t']
            if t['k']=='call' and t['f']['k']=='fn' and t['f']['f']['name'] in('next','next_back','nth','find','position','by_ref') and t['a'] and t['a'][0].get('p'):
                l=t['a'][0]['p'][0]; n=0
                while l in refs and n<5: l=refs[l]; n+=1
                out.add(l)
        return out
    def extra_written(s,fr,body,st):
        """cells of enclosing frames reachable through LRefs held by locals/closures used in the loop"""
        fid,b=fr
        used=set()
        def pl(p): used.add(p[0])
        def opd(o):
            if o.get('p'): pl(o['p'])
        for i in body:
            x=b['blocks'][i]
            for q in x['s']:
                if 'r' in q:
                    pl(q['p'])
                    r=q['r']
                    if 'p' in r: pl(r['p'])
                    for k in('o','a','b'):
                        if isinstance(r.get(k),dict): opd(r[k])
                    for f in r.get('fs',[]): opd(f)
            t=x['t']
            if t['k']=='call':
                for a in t['a']: opd(a)
                opd(t['f'])
            if t['k']=='switch': opd(t['o'])
        out=set(); seen=set()
        def go(v):
            for x in walk(v):
                if x.op=='LRef' and x.a[0] not in seen:
                    c=x.a[0]; seen.add(c)
                    out.add(c)
                    w=st.env.get(c)
                    if w is not None: go(w)
        for l in used:
            v=st.env.get((fid,l))
            if v is not None: go(v)
        return [c for c in out if st.env.get(c) is not None and st.env[c].op in('Bool','Int','Agg','Alt','Call','Elem','VField','Prev','Field')]
    def drop_in(s,g):
        for v in list(B.support(g)):
            if B.terms[v].op=='In': g=B.cofactor(g,v,1)
        return g
    def no_in(s,t):
        """t, in an iteration: that there is an element is known"""
        ins=[c['in'] for c in s.regions if c.get('in') is not None]
        if not ins or not isinstance(t,T) or t.op not in('Alt','Agg'): return t
        m={x:Bool(1) for x in ins}
        return subst(t,m) if s.mentions(t,m) else t
    def is_natural(s,g,cx):
        inn=cx.get('in')
        if inn is None: return False
        v=B.vars.get(inn)
        if v is None: return False
        return B.cofactor(g,v,1)==0
    def resolve_prev(s,c,pv,v0,backs,rel,wrap,isb=False):
        al=[]
        for x,cx,pvs in backs:
            v=x.env.get(c)
            if v is None or v.op=='Undef': continue
            if v is pv: continue
            al.append((x.g,v,cx))
        if not al: return v0
        s.prev[pv][1]=[(g,v) for g,v,_ in al]
        def boolish(v): return v.op=='Bool' or v is pv or (v.op=='Alt' and all(boolish(t) for _,t in v.a)) or v.op=='Int' and False
        if v0.op=='Bool' and all(boolish(v) for _,v,_ in al) or isb:
            r=truth(v0)
            for g,v,cx in al:
                t=truth(v) if v is not pv else atom(pv)
                vi=B.vars.get(pv)
                f=t; gr=rel(g)
                if vi is None: f1=f0=f
                else: f1=B.cofactor(f,vi,1); f0=B.cofactor(f,vi,0)
                # becomes true: ex(not prev & now true); becomes false
                up=land(gr,f0 if vi is None or True else 0)
                if vi is not None: up=land(B.cofactor(gr,vi,0),f0); dn=land(B.cofactor(gr,vi,1),lnot(f1))
                else: dn=land(gr,lnot(f1))
                upE=wrap(up,cx) if up else 0
                dnE=wrap(dn,cx) if dn else 0
                if dnE==0: r=lor(r,upE)
                elif upE==0: r=land(r,lnot(dnE))
                else: r=atom(mk('Fold',pv,Bool(r),Bool(f)))
            return Bool(r)
        out=[]; ng=0; fold=False
        for g,v,cx in al:
            for h,t in alts(v):
                if t is pv: continue
                gg=rel(land(g,h))
                if any(y is pv for y in walk_g(t)): fold=True
                e=wrap(gg,cx)
                out.append((e,t)); ng=lor(ng,e)
        if not out: return v0
        if fold: return mk('Fold',pv,v0,mkalt([(rel(land(g,h)),t) for g,v,_ in al for h,t in alts(v)]))
        return mkalt(out+[(lnot(ng),v0)])
    def find_induction(s,exits,backs,st,G0):
        """while i < len(c) { .. c[i] .. ; i += 1 }  ->  element loop over c"""
        if len(backs)!=1: return None
        x,cx,pvs=backs[0]
        if cx['insts'] is not None: return None
        for c,pv in pvs.items():
            v=x.env.get(c)
            if v is None or v.op!='Bin' or v.a[0]!='Add': continue
            if not(v.a[1] is pv and v.a[2].op=='Int' and v.a[2].a[0]==1): continue
            v0=st.env[c]
            if not(v0.op=='Int' and v0.a[0]==0): continue
            for d,e,_,_ in exits:
                for t in B.atoms(e.g):
                    if t.op=='Lt' and t.a[0] is pv and t.a[1].op=='Len':
                        coll=s.base_coll(t.a[1].a[0])
                        # in-loop atom true in body
                        inst=s.binder(coll)
                        k=inst.binder.a[1]
                        cxn=mk('In',inst.binder)
                        return {c:mk('Idx',coll,k),'li':inst,'bound':t}
        return None
    # ------------------------------------------------------------ cells
    def setcell(s,st,c,v):
        st.env[c]=v
        s.cell_depth[c]=len(s.regions)
    def rd_place(s,fr,st,p):
        fid,b=fr
        v=st.env.get((fid,p[0]),BOT)
        for e in p[1:]:
            v=s.proj(st,fr,v,e)
        return v
    def proj(s,st,fr,v,e):
        if v.op=='Alt': return mkalt([(g,s.proj(st,fr,x,e)) for g,x in v.a])
        k=e[0]
        if k=='*':
            if v.op=='LRef': return s.rd_lref(st,v)
            if v.op=='Ptr': return v.a[0]
            return s.mem(st,v)
        if v.op=='LRef': v=s.rd_lref(st,v)
        if v.op=='Alt': return mkalt([(g,s.proj(st,fr,x,e)) for g,x in v.a])
        if k=='f':
            if v.op=='Down': return s.mem(st,vfield(v.a[0],v.a[1],e[2]))
            if e[3]=='<closure>' and v.op=='Clos': return field(v,e[2])
            if v.op=='Call' and e[3] in TRANSP_ADT: return v
            return s.mem(st,field(v,e[2]))
        if k=='v':
            if v.op=='Agg': return v if v.a[1]==e[1] else BOT
            return mk('Down',v,e[1])
        if k=='i':
            i=st.env.get((fr[0],e[1]),BOT)
            return s.mem(st,s.index(v,i))
        if k=='ci': return s.cindex(v,e[1],e[3])
        if k=='ss': return mk('Slice',v,Int(e[1]),Int(-e[2] if e[3] else e[2]))
        return mk('Proj',v,str(e))
    def cindex(s,v,n,fe=False):
        if v.op=='Agg' and v.a[0]=='<array>' :
            l=v.a[3:]
            return l[len(l)-n if fe else n] if n<=len(l) else BOT
        return mk('Nth',v,-n if fe else n)
    def mem(s,st,v):
        r=st.env.get(('mem',v))
        return v if r is None else r
    def rd_lref(s,st,v):
        c,path=v.a[0],v.a[1:]
        x=st.env.get(c,BOT)
        for e in path: x=s.proj(st,None,x,e if isinstance(e,tuple) else e)
        return x
    def rd(s,st,v):
        n=0
        while v.op=='LRef' and n<8: v=s.rd_lref(st,v); n+=1
        if v.op=='Alt' and any(t.op=='LRef' for _,t in v.a): v=mkalt([(g,s.rd(st,t)) for g,t in v.a])
        return v
    def upd(s,st,fr,base,path,val):
        """functional update of base along path"""
        if not path: return val
        e=path[0]
        if base.op=='Alt': return mkalt([(g,s.upd(st,fr,x,path,val)) for g,x in base.a])
        if e[0]=='f':
            n=e[2]
            if base.op=='Down': base=base.a[0]
            if base.op=='Agg' and n in base.a[2]:
                vals=list(base.a[3:]); i=base.a[2].index(n); vals[i]=s.upd(st,fr,vals[i],path[1:],val)
                return mkagg(base.a[0],base.a[1],base.a[2],vals)
            if base.op=='Undef': 
                return mk('Upd',base,n,s.upd(st,fr,BOT,path[1:],val))
            return mk('Upd',base,n,s.upd(st,fr,field(base,n),path[1:],val))
        if e[0]=='v': return s.upd(st,fr,base,path[1:],val)
        if e[0] in('i','ci'):
            return base
        if e[0]=='*': return s.upd(st,fr,base,path[1:],val)
        return base
    def wr_place(s,fr,st,p,val,site):
        fid,b=fr
        c=(fid,p[0]); path=p[1:]
        if not path: s.setcell(st,c,val); return
        s.wr_path(fr,st,c,path,val,site)
    def wr_path(s,fr,st,c,path,val,site):
        # find last deref
        ld=-1
        for i,e in enumerate(path):
            if e[0]=='*': ld=i
        if ld<0:
            for e in path:
                if e[0] in('i','ci'):
                    # indexed store into an aggregate/collection
                    base=s.rd_place_c(fr,st,c,path[:path.index(e)])
                    idx=st.env.get((fr[0],e[1]),BOT) if e[0]=='i' else Int(e[1])
                    s.emit(st,'Store','Store',[s.index(base,idx),val],site)
                    return
            st.env[c]=s.upd(st,fr,st.env.get(c,BOT),path,val)
            return
        ptr=s.rd_place_c(fr,st,c,path[:ld])
        rest=path[ld+1:]
        for g,t in alts(ptr):
            st2=st if g==1 else None
            if t.op=='LRef':
                if g==1: s.wr_path(fr,st,t.a[0],[e for e in t.a[1:]]+list(rest),val,site) if (len(t.a)>1 or rest) else s._wcell(st,t.a[0],val)
                else:
                    old=s.rd_lref(st,t)
                    nv=mkalt([(g,val),(lnot(g),old)]) if not rest else val
                    if len(t.a)>1 or rest: s.wr_path(fr,st,t.a[0],[e for e in t.a[1:]]+list(rest),nv,site)
                    else: s._wcell(st,t.a[0],nv)
            else:
                tgt=t
                for e in rest: tgt=s.proj(st,fr,tgt,e)
                key=t
                for e in rest: key=s.proj_raw(st,fr,key,e)
                if not any(x.op=='Malloc' for x in walk(key)): s.emit(st,'Store','Store',[key,val],site,land(st.g,g))
                if g==1: st.env[('mem',key)]=val
                else: st.env[('mem',key)]=mkalt([(g,val),(lnot(g),tgt)])
    def proj_raw(s,st,fr,v,e):
        if e[0]=='f': return vfield(v.a[0],v.a[1],e[2]) if v.op=='Down' else field(v,e[2])
        return s.proj(st,fr,v,e)
    def _wcell(s,st,c,v): st.env[c]=v
    def rd_place_c(s,fr,st,c,path):
        v=st.env.get(c,BOT)
        for e in path: v=s.proj(st,fr,v,e)
        return v
    # ------------------------------------------------------------ operands / rvalues
    def op(s,fr,st,o):
        k=o['k']
        if k in('copy','move'):
            v=s.rd_place(fr,st,o['p'])
            if v.op=='Alt': v=prune(v,st.g)
            return v
        if k=='fn': return mk('FnItem',o['f']['fn'],s.fnname(o['f']),o['f']['res'] or '')
        return s.const(fr,st,o)
    def const(s,fr,st,o):
        if 'promoted' in o:
            b=s.p.promoted.get((o['def'],o['promoted']))
            if b is not None: return s.evalconst(b,st)
        if 'variant' in o and TM.ENUMVARS.get(last(o['th'])) : 
            return mkagg(last(o['th']),o['variant'],(),())
        if 'str' in o: return Str(o['str'])
        if o['ty']=='bool' and 'int' in o: return Bool(1 if o['int'] else 0)
        if 'static' in o: return mk('Static',o['static'])
        if 'def' in o and o['def'] in s.p.bodies and 'int' not in o and s.p.bodies[o['def']]['kind'] in('Const','AssocConst','InlineConst'):
            b=s.p.bodies[o['def']]
            v=s.evalconst(b,st)
            if v.op in('Agg','Str','Int','Bool'): return v
        if 'int' in o:
            if 'def' in o: return Int(o['int']) if o['ty'] in INTS else mk('NConst',o['def'],o['int'])
            return Int(o['int'])
        if o['ty']=='()': return UNIT
        if o.get('zst'):
            if o['th'].startswith('closure:'): return mk('Clos',o['th'][8:],())
            return mk('Zst',last(o['th']))
        if 'def' in o: return mk('NConst',o['def'],0)
        return mk('Const',o['s'])
    def evalconst(s,b,st):
        sv=(s.events,s.stack,s.loops,s.regions)
        s.events=[];s.loops=[];s.regions=[]
        st2,v=s.inline(b,[],St(1,{}),'const')
        v=s.rd(st2,v)
        s.events,s.stack,s.loops,s.regions=sv
        return v
    def rval(s,fr,st,r,site):
        k=r['k']
        if k=='use': return s.op(fr,st,r['o'])
        if k=='ref': return s.ref(fr,st,r['p'],r['mut'])
        if k=='len': return s.length(s.rd(st,s.rd_place(fr,st,r['p'])))
        if k=='cast':
            v=s.op(fr,st,r['o'])
            if 'ReifyFnPointer' in r['ck'] or 'ClosureFnPointer' in r['ck']: return v
            return v
        if k=='bin':
            isb=any(r[k].get('p') and len(r[k]['p'])==1 and fr[1]['locals'][r[k]['p'][0]][0]=='bool' for k in('a','b'))
            return s.binop(st,r['op'],s.rd(st,s.op(fr,st,r['a'])),s.rd(st,s.op(fr,st,r['b'])),isb)
        if k=='un':
            v=s.op(fr,st,r['a'])
            if r['op']=='Not' :
                if r['a'].get('p') and len(r['a']['p'])==1 and fr[1]['locals'][r['a']['p'][0]][0]=='bool': return Bool(lnot(truth(s.rd(st,v))))
                return Bool(lnot(truth(v))) if isbool(v) else mk('Not',v)
            if r['op']=='PtrMetadata': return s.length(s.rd(st,v))
            return mk('Un',r['op'],v)
        if k=='discr':
            v=s.rd(st,s.rd_place(fr,st,r['p']))
            return mk('Discr',v,tuple((a,n) for a,n in r['vs']))
        if k=='agg':
            fs=[s.op(fr,st,f) for f in r['fs']]
            ak=r['ak']
            if ak=='tuple': return tup(*fs)
            if ak=='array': return mkagg('<array>','',tuple(str(i) for i in range(len(fs))),fs)
            if ak=='adt':
                return mkagg(last(r['adt']),r['var'] if r['enum'] else '',r['names'],fs)
            if ak=='closure': return mk('Clos',r['def'],tuple(r['names']),*fs)
            return fs[0]
        if k=='repeat': return mk('Call','array::repeat',s.op(fr,st,r['o']),Str(r['n']))
        if k=='tls': return mk('Static',r['def'])
        if k=='null': return mk('Const',r['op'])
        return mk('Const','?')
    def ref(s,fr,st,p,mut):
        fid=fr[0]
        path=p[1:]
        ld=-1
        for i,e in enumerate(path):
            if e[0]=='*': ld=i
        c=(fid,p[0])
        if ld>=0:
            base=s.rd_place_c(fr,st,c,path[:ld])
            rest=path[ld+1:]
            if base.op=='LRef':
                if not rest: return base
                if mut: return s.mkref(st,fr,base.a[0],list(base.a[1:])+list(rest),mut)
            v=s.rd_place_c(fr,st,c,path)
            if base.op=='Alt' and any(t.op=='LRef' for _,t in base.a) and not rest: return base
            return v
        return s.mkref(st,fr,c,path,mut)
    def mkref(s,st,fr,c,path,mut):
        v=s.rd_place_c(fr,st,c,path)
        if not mut and v.op not in('Undef',): return v
        if any(e[0] in('i','ci','ss') for e in path): return v
        if v.op in('LRef',) : return mk('LRef',c,*[tuple(e) for e in path])
        return mk('LRef',c,*[tuple(e) for e in path])
    def binop(s,st,op,a,b,bools=False):
        op=op.replace('WithOverflow','').replace('Unchecked','')
        if (bools or isbool(a) and isbool(b)) and op in('BitAnd','BitOr','BitXor','Eq','Ne'):
            x,y=truth(a),truth(b)
            if op=='BitAnd': return Bool(land(x,y))
            if op=='BitOr': return Bool(lor(x,y))
            r=B.ite(x,lnot(y),y)
            return Bool(r if op in('BitXor','Ne') else lnot(r))
        if op in('BitOr','BitAnd') and (isbool(a) or isbool(b)):
            x,y=truth(a),truth(b)
            return Bool(land(x,y) if op=='BitAnd' else lor(x,y))
        if op=='Eq': return Bool(eqg(a,b))
        if op=='Ne': return Bool(lnot(eqg(a,b)))
        if op=='Lt': return Bool(ltg(a,b))
        if op=='Gt': return Bool(ltg(b,a))
        if op=='Le': return Bool(lnot(ltg(b,a)))
        if op=='Ge': return Bool(lnot(ltg(a,b)))
        if a.op=='Int' and b.op=='Int':
            x,y=a.a[0],b.a[0]
            if op=='Add': return Int(x+y)
            if op=='Sub': return Int(x-y)
            if op=='Mul': return Int(x*y)
        if op in('Add','Sub','Mul'): a,b=seal(a),seal(b)
        if op in('Add','Mul') and (a.op=='Int' or (b.op!='Int' and a.id>b.id)): a,b=b,a
        if op in('Add','Sub') and b.op=='Int' and b.a[0]==0: return a
        return mk('Bin',op,a,b)
    def index(s,v,i):
        if v.op=='Alt' or i.op=='Alt':
            return mkalt([(land(g,h),s.index(x,y)) for g,x in alts(v) for h,y in alts(i)])
        if v.op=='Agg' and v.a[0]=='<array>' and i.op=='Int': return s.cindex(v,i.a[0])
        if i.op=='Idx':
            base=s.base_coll(v)
            if base is i.a[0]:
                if base is not v:
                    sg=s.single_seg(v)
                    if sg: return sg[2]
                return mk('Elem',v,i.a[1])
            if s.aligned(base,i.a[0]): return mk('Elem',v,i.a[1])
        if i.op=='Agg' and i.a[0].startswith('Range'):
            f=fields_of(i)
            lo,hi=f.get('start',Int(0)),f.get('end',mk('Len',v))
            if not i.a[0].startswith('RangeInclusive') and lo is Int(0) and hi is mk('Len',v): return v
            return mk('Slice',v,lo,hi)
        return mk('Index',v,i)
    def aligned(s,a,b):
        """collections built with equal length"""
        def key(c):
            c0=s.alloc(c)
            if c0 is not None and c0.op=='Call' and c0.a[0] in('vec::from_elem','IndexVec::from_elem_n') and c0.a[2].op=='Len':
                return c0.a[2].a[0]
            return c
        return key(a) is key(b)
    def alloc(s,c):
        return c.a[1] if c.op=='Obj' else None
    # ------------------------------------------------------------ events
    def emit(s,st,name,path,args,site,guard=None,kind='call'):
        g=st.g if guard is None else guard
        g=s.drop_in(g)
        e=Event(); e.name=name; e.path=path; e.args=[s.no_in(a) for a in args]; e.guard=g
        e.loops=tuple(s.loops); s.seq+=1; e.seq=s.seq; e.site=site; e.ret=None; e.kind=kind
        e.stack=tuple(x[0]['path'] for x in s.stack)
        s.events.append(e)
        if len(s.events)>s.max_events: raise RuntimeError('event limit')
        return e
    def site(s,fr,l):
        b=fr[1]
        return '%s:%s (%s)'%(b['file'].split('/repo/')[-1],l,b['path'].split('::',1)[-1][-60:])
    # ------------------------------------------------------------ blocks
    def block(s,fr,bi,st):
        b=fr[1]; x=b['blocks'][bi]
        st=St(st.g,dict(st.env))
        for q in x['s']:
            if 'r' in q:
                v=s.rval(fr,st,q['r'],None)
                s.wr_place(fr,st,q['p'],v,s.site(fr,q['l']))
        t=x['t']; k=t['k']
        if k=='drop':
            v=(st.env.get((fr[0],t['p'][0])) if len(t['p'])==1 else None)
            for h,w in (alts(v) if v is not None else ()):
                if w.op=='Call' and last(w.a[0]) in GUARDS: s.emit(st,'Drop','',[w],s.site(fr,t.get('l',0)),land(st.g,h),kind='drop')
        if k in('goto','drop'): return [(t['t'],st)]
        if k=='assert':
            if t['m']=='Discriminant(0)': s.partial.append((st.g,s.site(fr,t.get('l',0)),'bounds',None,None))
            return [(t['t'],st)]
        if k=='return': return [('ret',st)]
        if k=='switch': return s.switch(fr,t,st)
        if k=='call': return s.call(fr,bi,t,st)
        if k=='unreachable': return []
        return []
    def switch(s,fr,t,st):
        v=s.rd(st,s.op(fr,st,t['o']))
        outs=[]; rest=st.g
        def cond(v,val):
            if v.op=='Alt':
                r=0
                for g,x in v.a: r=lor(r,land(g,cond(x,val)))
                return r
            if v.op=='Discr':
                names=dict(v.a[1]); n=names.get(val)
                if n is None: return eqg(v.a[0],Int(val)) if not names else 0
                return s.is_variant(v.a[0],n,[m for _,m in v.a[1]])
            if isbool(v):
                g=truth(v)
                return g if val else lnot(g)
            if t['ty']=='bool':
                g=truth(v)
                return g if val else lnot(g)
            return eqg(v,Int(val))
        gs=[]
        for val,d in t['ts']:
            g=cond(v,val); gs.append((d,g))
        tot=0
        acc={}
        for d,g in gs:
            gg=land(st.g,land(g,lnot(tot))) if not s.is_multi(v) else land(st.g,g)
            tot=lor(tot,g)
            acc.setdefault(d,0); acc[d]=lor(acc[d],gg)
        d=t['else']
        eg=land(st.g,lnot(tot))
        # if all variants are listed the else edge is unreachable
        if not(v.op=='Discr' and len(t['ts'])>=len(v.a[1]) and len(v.a[1])>0):
            acc[d]=lor(acc.get(d,0),eg)
        else:
            # exhaustive: last listed variant is the complement
            if len(gs)==2 and not s.is_multi(v): pass
        # executions that panic are recorded as such and otherwise left out of account
        dm=s.p.prep(fr[1]).doomed; live=[d for d,g in acc.items() if g!=0 and d not in dm]
        if t['ty']=='bool' and len(live)==1 and any(g!=0 for d,g in acc.items() if d in dm): acc[live[0]]=st.g
        for d,g in acc.items():
            if g!=0: outs.append((d,St(g,dict(st.env))))
        return outs
    def is_multi(s,v): return v.op=='Discr' and len(v.a[1])>2
    def is_variant(s,t,n,vs):
        if t.op=='Alt':
            r=0
            for g,x in t.a: r=lor(r,land(g,s.is_variant(x,n,vs)))
            return r
        if t.op=='Bin' or t.op=='CmpOrd': pass
        return is_variant(t,n,vs)
    # ------------------------------------------------------------ calls
    def fnname(s,g):
        if g['trait']: return last(g['trait'])+'::'+g['name']
        if g['impl']:
            h=g['impl']
            if h=='<slice>': h='slice'
            return last(h)+'::'+g['name']
        p=strip_generics(g['fn']).split('::')
        return '::'.join(p[-2:])
    def call(s,fr,bi,t,st):
        s.ncalls+=1
        f=t['f']; s.curg=st.g
        args=[s.op(fr,st,a) for a in t['a']]
        site=s.site(fr,t['l'])
        mac=t['mac'] or ''
        if mac.startswith('log::') or mac.startswith('tracing'):
            if t['t'] is None: return []
            s.wr_place(fr,st,t['d'],Bool(0),site)
            return [(t['t'],st)]
        dty=fr[1]['locals'][t['d'][0]] if len(t['d'])==1 else ['','',None]
        if f['k']=='fn':
            st,v=s.apply(fr,st,f['f'],args,site,dty,t,bi)
        else:
            fv=s.rd(st,s.op(fr,st,f))
            st,v=s.callval(fr,st,fv,args,site,dty,bi)
        if t['t'] is None:
            if st.g!=0: s.panics.append((st.g,site,f['f']['fn'] if f['k']=='fn' else '?',tuple(s.stack[i][0]['path'] for i in range(len(s.stack)))))
            return []
        if st.g==0: return []
        if len(t['d'])==1 and v is not None: s.setcell(st,(fr[0],t['d'][0]),v)
        else: s.wr_place(fr,st,t['d'],v,site)
        return [(t['t'],st)]
    def callval(s,fr,st,fv,args,site,dty,bi):
        """call a function value with already spread args"""
        fv=s.rd(st,fv)
        if fv.op=='Alt':
            outs=[]
            for g,x in fv.a:
                gg=land(st.g,g)
                if gg==0: continue
                s2,v=s.callval(fr,St(gg,dict(st.env)),x,args,site,dty,bi)
                s2.env[('tmpret',)]=v; outs.append(s2)
            j=join(outs)
            if j is None: return St(0,st.env),BOT
            v=j.env.pop(('tmpret',)); return j,v
        if fv.op=='Clos':
            b=s.p.bodies.get(fv.a[0])
            if b is None: return s.opaque_call(fr,st,'closure',fv.a[0],args,site,dty,None,bi)
            a=[fv]+list(args)
            return s.inline(b,a,st,site)
        if fv.op=='FnItem':
            b=s.p.bodies.get(fv.a[2]) or s.p.bodies.get(fv.a[0])
            if b is not None and not s.isopaque(b,fv.a[1]): return s.inline(b,list(args),st,site)
            return s.apply(fr,st,{'fn':fv.a[0],'name':last(fv.a[0]),'trait':None,'impl':None,'res':fv.a[2],'shim':None,'args':[],'local':False,'cname':fv.a[1]},list(args),site,dty,None,bi)
        args=[s.rd(st,a) for a in args]
        e=s.emit(st,'<callvalue>','',[fv]+args,site)
        v=mk('CallV',fv,*args); e.ret=v
        return st,v
    def isopaque(s,b,name):
        return b['name'] in s.opaque or name in s.opaque
    def apply(s,fr,st,g,args,site,dty,t,bi):
        name=g.get('cname') or s.fnname(g)
        body=None
        if g['res']: body=s.p.bodies.get(g['res'])
        if body is None and g['fn'] in s.p.bodies: body=s.p.bodies[g['fn']]
        h=HANDLERS.get(name) or HANDLERS.get(name.split('::')[-1] if name.split('::')[0] in('Iterator','DoubleEndedIterator','ExactSizeIterator','Itertools') else None)
        if name in('Fn::call','FnMut::call_mut','FnOnce::call_once','AsyncFn::async_call'):
            fv=args[0]; ar=args[1] if len(args)>1 else UNIT
            ar=s.rd(st,ar)
            if ar.op=='Agg': l=list(ar.a[3:])
            else: l=[ar]
            return s.callval(fr,st,fv,l,site,dty,bi)
        if body is not None and body['derived'] and name in('PartialEq::eq','PartialEq::ne','Clone::clone','Debug::fmt'): body=None
        if body is not None and not s.isopaque(body,name) and body['path'] in s.p.wrap:
            fn,o=s.p.wrap[body['path']]; s.analyzed.add(body['path'])
            return s.opaque_call(fr,st,'PlaceExt::'+last(fn),fn,[args[i] for i in o],site,dty,None,bi)
        if body is not None and not s.isopaque(body,name) and body['path'] in s.p.renum and s.p.renum_arg(body['path'])>=0:
            s.analyzed.add(body['path']); return st,args[s.p.renum_arg(body['path'])]
        if body is not None and body['kind'] in('Fn','AssocFn','Closure') and not s.isopaque(body,name):
            if body['kind']=='Closure':
                return s.callval(fr,st,args[0],list(args[1].a[3:]) if len(args)>1 and args[1].op=='Agg' else args[1:],site,dty,bi)
            return s.inline(body,args,st,site)
        if h is None and not(body is not None and s.isopaque(body,name)): h=HANDLERS.get(g['fn'])
        if body is not None and s.isopaque(body,name): h=None
        if h is not None:
            r=h(s,fr,st,g,args,site,dty,bi)
            if r is not None: return r
        return s.opaque_call(fr,st,name,g['fn'],args,site,dty,g,bi)
    def opaque_call(s,fr,st,name,path,args,site,dty,g,bi):
        raw=list(args)
        args=[s.norm_arg(fr,st,a,site) for a in raw]
        ev=s.emit(st,name,path,args,site)
        # closures handed to unknown code: run once on generic arguments
        for i,a in enumerate(args):
            st=s.run_escaping(fr,st,name,args,i,a,site)
        for a in raw:
            if a.op=='LRef':
                v=s.rd(st,a)
                for x in walk_data(v,False):
                    if x.op=='Obj' and name not in CLEARS: s.escaped.add(x)
        head=dty[1] if dty else ''
        res=s.mkresult(fr,name,args,dty,bi)
        ev.ret=res
        return st,res
    def mkresult(s,fr,name,args,dty,bi,dist=True):
        th=dty[1] if dty else ''
        ts=dty[0] if dty else ''
        n=1
        for a in args: n*=len(alts(a))
        if dist and 1<n<=12:
            combos=[(1,[])]
            for a in args: combos=[(land(g,h),l+[x]) for g,l in combos for h,x in alts(a)]
            return mkalt([(g,s.mkresult(fr,name,l,dty,bi,False)) for g,l in combos if g!=0])
        c=mk('Call',name,*args)
        if last(th) in COLLS and not ts.startswith('&') and not ts.startswith('core::option') :
            return s.newobj(fr,bi,c)
        if ts=='()': return UNIT
        return c
    def newobj(s,fr,bi,c,segs=None):
        key=tuple((x[0]['path'],x[1]) for x in s.stack[-8:])
        ctx=tuple(i.binder for i in s.loops); reg=s.objreg.setdefault((key,bi),[])
        if ctx not in reg: reg.append(ctx)
        n=reg.index(ctx)
        o=mk('Obj',mk('Site',str(key)+':'+str(bi)+('#%d'%n if n else '')),c)
        s.objs.setdefault(o,segs)
        if segs is not None: s.objs[o]=segs
        s.objctx[o]=([i.binder for i in s.loops],s.curg)
        return o
    def norm_arg(s,fr,st,a,site):
        a=s.rd(st,a)
        if a.op=='It': return s.seq_it(fr,st,a,site)
        if a.op=='Alt': return mkalt([(g,s.norm_arg(fr,st,x,site)) for g,x in a.a])
        if a.op=='Agg' and any(x.op in('LRef','It') for x in a.a[3:] if isinstance(x,T)):
            return mkagg(a.a[0],a.a[1],a.a[2],[s.norm_arg(fr,st,x,site) for x in a.a[3:]])
        return a
    def run_escaping(s,fr,st,name,args,i,a,site):
        cl=[x for x in walk_data(a,False) if x.op=='Clos']
        for c in cl:
            b=s.p.bodies.get(c.a[0])
            if b is None: continue
            if any(q[0] is b for q in s.stack): continue
            n=b['argc']-1
            key=mk('CbOf',name,*[noclos(y) for y in args])
            params=[mk('CbArg',key,j) for j in range(n)]
            li=LoopInst(mk('B',key,0),'callback'); 
            s.loops.append(li)
            st0=St(st.g,dict(st.env))
            st2,v=s.inline(b,[c]+params,st0,site)
            s.emit(St(st2.g,{}),'<cbret>','',[key,v],site,kind='cbret')
            s.loops.pop()
            if st2.g!=0: st=St(st.g,st2.env)
        return st
    # ------------------------------------------------------------ iterators
    def binder(s,coll):
        k=0
        act=[i.binder for i in s.loops]
        while mk('B',coll,k) in act: k+=1
        return LoopInst(mk('B',coll,k))
    def contents(s,o):
        """known segments of an Obj or None"""
        if o.op!='Obj' or o in s.escaped: return None
        if not s.done and s.loops:
            c=s.carried.get(o)
            if c and any(l.binder in c for l in s.loops): return None
            s.reads.append((o,list(s.loops)))
        segs=s.objs.get(o)
        al=o.a[1]
        if segs is None:
            if al.op=='Call' and al.a[0] in EMPTY_CTORS: segs=[]
            else: return None
        r=s.additions(o,list(segs))
        return None if r is None else r[1]
    def additions(s,o,segs):
        """(condition under which the initial contents are still there, the given segments and what is added) or None"""
        keep=1; bs,cg=s.objctx.get(o,([],1))
        for e in s.events:
            if not e.args or e.args[0] is not o:
                if e.name=='Entry::init' and e.args and e.args[0].a[0] is o: return None
                continue
            l=list(e.loops); n=0
            while n<len(l) and n<len(bs) and l[n].binder is bs[n]: n+=1
            g=restrict(e.guard,cg) if cg else e.guard
            if e.kind=='contrib' and e.name in CONTRIB: segs.append((l[n:],g,e.args[1]))
            elif e.name in CLEARS and n==len(l):
                keep=land(keep,lnot(g)); segs=[(x,land(h,lnot(g)),v) for x,h,v in segs if land(h,lnot(g))!=0]
            elif e.name in SCRAMBLE or e.name=='MapInsert': return None
        return keep,segs
    def clone_parts(s,o): return s.additions(o,[])
    def clone_extra(s,o):
        """what is added to a copy that keeps everything it was made with, or None"""
        r=s.additions(o,[])
        return r[1] if r is not None and r[0]==1 else None
    def fresh(s,segs,st=None):
        out=[]
        for l,g,v in segs:
            m={}; nl=[]; n=len(s.loops)
            for i in l:
                coll=i.binder.a[0]
                if m: coll=subst(coll,m)
                j=s.binder(coll)
                if j.binder is i.binder:
                    j=LoopInst(i.binder,i.kind); j.cuts=list(i.cuts); j.extra=i.extra
                else:
                    m[i.binder]=j.binder
                    m[mk('Elem',i.binder.a[0],i.binder.a[1])]=mk('Elem',coll,j.binder.a[1])
                    m[mk('Idx',i.binder.a[0],i.binder.a[1])]=mk('Idx',coll,j.binder.a[1])
                    jj=LoopInst(j.binder,i.kind); jj.cuts=[gsubst(c,m) for c in i.cuts]; jj.extra=tuple(subst(x,m) for x in i.extra) if i.extra else None; j=jj
                nl.append(j); s.loops.append(j)
            del s.loops[n:]
            if m: g=gsubst(g,m); v=subst(v,m)
            if st is not None and st.g: g=restrict(g,st.g)
            out.append((nl,g,v))
        return out
    def single_seg(s,o):
        c=s.contents(o)
        if c is None or len(c)!=1: return None
        li,g,v=c[0]
        if len(li)==1 and g==1 and not li[0].cuts: return c[0]
        return None
    def length(s,v):
        if v.op=='Alt': return mkalt([(g,s.length(x)) for g,x in v.a])
        c=s.base_coll(v)
        if c.op in('Obj','Index','Field','VField','Param'):
            # a length read after the collection grew differs from one read before
            k=len(s.events)
            l=s.lenreads.setdefault(c,[]); l[:]=[x for x in l if x<=k]
            if l:
                n=sum(1 for e in s.events[l[0]:] if e.args and e.args[0] is c and (e.kind=='contrib' or e.name in SCRAMBLE))
                if n: return mk('Len',mk('Later',c,n))
            l.append(k)
        return lenof(c)
    def base_coll(s,v):
        sg=s.single_seg(v) if v.op=='Obj' else None
        if sg: return sg[0][0].binder.a[0]
        if v.op=='Obj' and v.a[1].op=='Call' and v.a[1].a[0]=='clone' and v not in s.escaped and s.clone_extra(v)==[]: return s.base_coll(v.a[1].a[1])
        return v
    def open(s,fr,st,it,site,head=None):
        """-> list of (insts, guard, value); runs adapter closures."""
        it=s.rd(st,it)
        if it.op=='Undef': return []
        if it.op=='Alt':
            out=[]
            for g,x in it.a:
                for l,h,v in s.open(fr,st,x,site,head): out.append((l,land(g,h),v))
            return out
        if it.op=='Agg' and it.a[0]=='Option':
            return [([],1,it.a[3])] if it.a[1]=='Some' else []
        if it.op=='Agg' and it.a[0]=='<array>':
            return [([],1,v) for v in it.a[3:]]
        if it.op=='OptIt':
            v=it.a[0]
            return [([],is_variant(v,'Some'),vfield(v,'Some','0'))]
        if it.op=='Agg' and it.a[0].startswith('Range'):
            f=fields_of(it); lo,hi=f.get('start'),f.get('end')
            if lo is not None and hi is not None and lo is Int(0) and hi.op=='Len' and it.a[0]=='Range':
                inst=s.binder(hi.a[0]); return [([inst],1,mk('Idx',hi.a[0],inst.binder.a[1]))]
            coll=mk('Range',lo or Int(0),hi or BOT,it.a[0])
            inst=s.binder(coll); return [([inst],1,mk('Elem',coll,inst.binder.a[1]))]
        if it.op=='Call' and it.a[0]=='RangeInclusive::new':
            coll=mk('Range',it.a[1],it.a[2],'RangeInclusive'); inst=s.binder(coll); return [([inst],1,mk('Elem',coll,inst.binder.a[1]))]
        if it.op=='Seq':
            return [([LoopInst(b) for b in bs],g,v) for bs,g,v in it.a]
        if it.op=='It':
            k=it.a[0]
            src=it.a[1]
            if k=='chain': return s.open(fr,st,src,site)+s.open(fr,st,it.a[2],site)
            if k in('once',): return [([],1,src)]
            if k=='empty': return []
            if k=='zip':
                A=s.open(fr,st,src,site); Bs=s.open(fr,st,it.a[2],site)
                return s.zip(st,A,Bs,src,it.a[2])
            segs=s.open(fr,st,src,site)
            out=[]
            if k=='copied': return segs
            if k=='rev':
                for l,g,v in segs:
                    if len(l)>=1:
                        m={}; nl=[]
                        for i in l:
                            c=i.binder.a[0]; rc=c.a[0] if c.op=='Rev' else mk('Rev',c)
                            ni=s.binder(rc); nl.append(ni)
                            m[mk('Elem',c,i.binder.a[1])]=mk('Elem',rc,ni.binder.a[1])
                            m[mk('Idx',c,i.binder.a[1])]=mk('Idx',rc,ni.binder.a[1])
                        out.append((nl,gsubst(g,m),subst(v,m)))
                    else: out.append((l,g,v))
                return out[::-1]
            if k=='enumerate':
                gs=[land(st.g,g) for _,g,_ in segs]
                ex=all(land(gs[a],gs[c])==0 for a in range(len(gs)) for c in range(a))
                for l,g,v in segs:
                    if len(l)==1 and ex and not any(x in (l[0].binder,mk('Elem',*l[0].binder.a),mk('Idx',*l[0].binder.a)) for x in walk_g(Bool(restrict(g,st.g)))): ix=mk('Idx',l[0].binder.a[0],l[0].binder.a[1])
                    else: ix=mk('SeqIdx',*( [i.binder for i in l]+[Bool(g),v]))
                    out.append((l,g,tup(ix,v)))
                return out
            if k in('take','skip','step_by','drop_last','rest'):
                for l,g,v in segs: out.append((l,land(g,atom(mk('Take',k,it.a[2],*([i.binder for i in l]+([Bool(g)] if any(B.terms[y].op=='Take' for y in B.support(g)) else []))))),v))
                return out
            # closure adapters
            for l,g,v in segs:
                n=len(s.loops); s.loops+=l
                st2=St(land(st.g,g),st.env)
                if st2.g==0: del s.loops[n:]; continue
                if k=='flatten':
                    sub=s.open(fr,st2,s.hinted(v,it.a[2]) ,site); del s.loops[n:]
                    out+=[(l+l2,land(g,g2),v2) for l2,g2,v2 in sub]; continue
                clos=it.a[2]
                s3,r=s.callval(fr,St(st2.g,dict(st.env)),clos,[v],site,None,'it')
                if s3.g!=0: s.merge_env(st,s3)
                if k=='map': out.append((l,g,r))
                elif k in('filter','take_while','skip_while'):
                    c=restrict(truth(s.rd(st,r)),st2.g)
                    if k=='take_while':
                        for i in l: i.cuts.append(lnot(c))
                    if k=='skip_while': c=atom(mk('SkipWhile',Bool(c)))
                    gg=land(g,c)
                    if gg!=0: out.append((l,gg,v))
                elif k in('filter_map','map_while'):
                    r=s.rd(st,r)
                    c=restrict(is_variant(r,'Some'),st2.g); gg=land(g,c)
                    if k=='map_while':
                        for i in l: i.cuts.append(lnot(c))
                    if gg!=0:
                        pv=vfield(r,'Some','0')
                        if pv.op=='Alt': pv=mkalt(list(pv.a),gg)
                        out.append((l,gg,pv))
                elif k=='flat_map':
                    sub=s.open(fr,st2,s.hinted(s.rd(st,r),it.a[3]),site)
                    out+=[(l+l2,land(g,g2),v2) for l2,g2,v2 in sub]
                elif k=='inspect': out.append((l,g,v))
                elif k=='scan': out.append((l,g,mk('Scan',r)))
                del s.loops[n:]
            return out
        if it.op=='Obj':
            c=s.contents(it)
            if c is not None: return s.fresh(c,st)
            if it.a[1].op=='Call' and it.a[1].a[0] in('clone',) and it not in s.escaped and s.clone_parts(it) is not None:
                keep,ex=s.clone_parts(it)
                return [(l,land(g,keep),v) for l,g,v in s.open(fr,st,it.a[1].a[1],site) if land(g,keep)!=0]+s.fresh(ex,st)
        if it.op=='Call' and it.a[0] in('iter::once','Option::iter'): return [([],1,it.a[1])]
        inst=s.binder(it)
        return [([inst],1,mk('Elem',it,inst.binder.a[1]))]
    def hinted(s,v,h):
        if h=='res' and v.op!='It':
            c=is_variant(v,'Ok')
            return mk('OptIt',mkalt([(c,mkagg('Option','Some',('0',),(vfield(v,'Ok','0'),))),(lnot(c),mkagg('Option','None',(),()))]))
        if v.op in('It','Agg','Alt'):
            if v.op=='Alt' : return mkalt([(g,s.hinted(x,h)) for g,x in v.a])
            return v
        if h=='opt': return mk('OptIt',v)
        return v
    def merge_env(s,st,s3):
        """effects of closures run inside adapters on enclosing cells (weak)"""
        for k,v in s3.env.items():
            o=st.env.get(k)
            if o is None: continue
            if o is not v: st.env[k]=v if s3.g==st.g else mkalt([(s3.g,v),(lnot(s3.g),o)])
    def zip(s,st,A,Bs,sa,sb):
        if len(A)==1 and len(Bs)==1:
            la,ga,va=A[0]; lb,gb,vb=Bs[0]
            if len(la)==len(lb) and all(x.binder is y.binder for x,y in zip(la,lb)) and ga==gb:
                return [(la,ga,tup(va,vb))]
            if len(la)==1 and len(lb)==1 and ga==1 and gb==1:
                ca,cb=la[0].binder.a[0],lb[0].binder.a[0]
                k=la[0].binder.a[1]
                inst=LoopInst(mk('B',ca,k),'zip'); inst.extra=(ca,cb)
                if s.same_order(ca,cb):
                    m={mk('Elem',cb,lb[0].binder.a[1]):mk('Elem',cb,k),mk('Idx',cb,lb[0].binder.a[1]):mk('Idx',ca,k)}
                    return [([inst],1,tup(va,subst(vb,m)))]
                return [([inst],1,tup(va,subst(vb,{mk('Elem',cb,lb[0].binder.a[1]):mk('Elem',mk('ZipWith',ca,cb),k)}) if vb.op!='Idx' else vb))]
        def excl(L):
            return all(land(L[i][1],L[j][1])==0 for i in range(len(L)) for j in range(i))
        if len(A)>1 and excl([(0,land(st.g,g)) for _,g,_ in A]) or len(Bs)>1 and excl([(0,land(st.g,g)) for _,g,_ in Bs]):
            out=[]
            for la,ga,va in A:
                for lb,gb,vb in Bs:
                    g=land(ga,gb)
                    if land(g,st.g)==0: continue
                    for l,h,v in s.zip(st,[(la,1,va)],[(lb,1,vb)],sa,sb): out.append((l,land(g,h),v))
            return out
        # misaligned
        out=[]
        for la,ga,va in A:
            out.append((la,ga,tup(va,mk('Misaligned',*[mk('SegOf',Bool(g),v,*[i.binder for i in l]) for l,g,v in Bs]))))
        return out
    def same_order(s,a,b):
        if a is b: return True
        if (a.op=='Rev')!=(b.op=='Rev'): return False
        if a.op=='Slice' or b.op=='Slice': return False
        return True
    def seq_it(s,fr,st,it,site):
        segs=s.open(fr,st,it,site)
        return mk('Seq',*[(tuple(i.binder for i in l),g,v) for l,g,v in segs])
    def consume(s,st,ref,it,n=Int(1),kind='skip'):
        """elements are taken from an iterator that may be used further"""
        if ref.op=='LRef' and len(ref.a)==1 and it.op in('It','Agg','Call','Field','Obj','Elem','VField','Seq','Alt') and not(it.op=='Agg' and it.a[0]=='Option'):
            st.env[ref.a[0]]=mk('It',kind,it,n)
    def next(s,fr,st,cellref,site,head,pop=None):
        c=None
        if cellref.op=='LRef' and len(cellref.a)==1: c=cellref.a[0]
        it=s.rd(st,cellref)
        d=s.cell_depth.get(c,0) if c is not None else 0
        ctx=s.regions[d] if d<len(s.regions) else None
        if ctx is None:
            if pop: return None
            segs=s.open(fr,st,it,site); s.consume(st,cellref,it)
            if len(segs)==1 and not segs[0][0]:
                _,g,v=segs[0]
                return st,mkalt([(g,mkagg('Option','Some',('0',),(v,))),(lnot(g),mkagg('Option','None',(),()))])
            sq=mk('Seq',*[(tuple(i.binder for i in l),g,v) for l,g,v in segs])
            ex=s.exists_segs(segs)
            if len(segs)==0: return st,mkagg('Option','None',(),())
            return st,mkalt([(ex,mkagg('Option','Some',('0',),(mk('FirstOf',sq),))),(lnot(ex),mkagg('Option','None',(),()))])
        if ctx.get('in') is not None and ctx.get('cell')!=c:
            # second iterator in the same loop
            return None
        if ctx.get('in') is not None: # the same iterator again
            if ctx.get('at')!=site: return None
            v=ctx['cur']
            return st,v
        if pop:
            inst=s.binder(mk('Drain',it)); segs=[([inst],1,mk('Elem',it,inst.binder.a[1]))]
        else:
            # drop this region's while-binder before opening
            mk_=(site,c)
            if ctx['seg'] and mk_ in ctx['opened']: # evaluated when the first segment was run
                segs,delta=ctx['opened'][mk_]; st.env.update(delta)
            else:
                e0=dict(st.env); segs=s.open(fr,st,it,site)
                ctx['opened'][mk_]=(segs,{k:x for k,x in st.env.items() if e0.get(k) is not x})
        if not segs:
            ctx['nseg']=1; ctx['in']=mk('In',mk('Empty',it)); ctx['cell']=c; ctx['at']=site
            r=mkagg('Option','None',(),()); ctx['cur']=r
            ctx['insts']=[]
            return st,r
        ctx['nseg']=len(segs)
        l,g,v=segs[min(ctx['seg'],len(segs)-1)]
        inn=mk('In',mk('Loop',str(ctx['key']),ctx['seg']))
        for x in l:
            if x.where is None: x.where=str(ctx['key'])
        ctx['in']=inn; ctx['cell']=c; ctx['insts']=l; ctx['at']=site
        s.replace_while(ctx,l)
        gi=atom(inn)
        r=mkalt([(land(gi,g),mkagg('Option','Some',('0',),(v,))),(lnot(gi),mkagg('Option','None',(),()))])
        ctx['cur']=r
        return st,r
    def replace_while(s,ctx,l):
        w=ctx['li']
        for e in reversed(s.events):
            if any(x is w for x in e.loops): e.loops=tuple(x for x in e.loops if x is not w)
            else: break
        for o,(bs,cg) in list(s.objctx.items()):
            if any(b is w.binder for b in bs): s.objctx[o]=([b for b in bs if b is not w.binder],cg)
        # the while LoopInst of ctx becomes the iterator's binders
        for i,x in enumerate(s.loops):
            if x is ctx['li']:
                s.loops[i:i+1]=l; return
        s.loops+=l
    def exists_segs(s,segs,cond=None):
        r=0
        for l,g,v in segs:
            h=g
            for i in reversed(l): h=exg(i.binder,h)
            r=lor(r,h)
        return r

VARYING=('Prev','Obj','Elem','Idx','B','Acc','While','LRef','It')
def invariant(t):
    """the condition speaks about values that no iteration of a loop changes"""
    return not any(x.op in VARYING for x in walk_g(t))
def exg(b,g):
    """some element of the binder's collection satisfies g (conditions that do not concern the element are factored out)"""
    if g==0: return 0
    if b.op!='B' or (b.a[0].op=='While' and not all(invariant(B.terms[v]) for v in B.support(g))): return atom(mk('Ex',b,g))
    if b.a[0].op=='While': return g
    if g==1: return lnot(atom(mk('Empty',b.a[0])))
    d=b.a[1]
    outer=[]
    for v in sorted(B.support(g)):
        if not any(x.op=='Prev' or (x.op in('Elem','Idx') and x.a[1]==d) for x in walk_g(B.terms[v])): outer.append(v)
    memo={}
    def go(h,i):
        if h==0: return 0
        k=(h,i)
        if k in memo: return memo[k]
        if i==len(outer) or h==1: r=lnot(atom(mk('Empty',b.a[0]))) if h==1 else atom(mk('Ex',b,h))
        else:
            v=outer[i]
            r=B.ite(B.node(v,0,1),go(B.cofactor(h,v,1),i+1),go(B.cofactor(h,v,0),i+1))
        memo[k]=r
        return r
    return go(g,0)
def walk_data(t,clos=True):
    """values a function receiving t can get at (not the history a term was computed from)"""
    seen=set(); st=[t]
    while st:
        x=st.pop()
        if x in seen: continue
        seen.add(x); yield x
        if x.op=='Clos' and not clos: continue
        if x.op in('Agg','Clos','It','OptIt','Upd'):
            st+=[y for y in x.a if isinstance(y,T)]
        elif x.op=='Alt': st+=[y for _,y in x.a]
        elif x.op=='Seq': st+=[v for _,_,v in x.a]
def noclos(t):
    m={x:mk('Fn',x.a[0]) for x in walk(t) if x.op=='Clos'}
    return subst(t,m) if m else t
def walk_g(t):
    """walk including guards"""
    seen=set(); st=[t]; gs=set()
    def pg(g):
        if g in gs or g<2: return
        gs.add(g)
        for v in B.support(g): st.append(B.terms[v])
    while st:
        x=st.pop()
        if x in seen: continue
        seen.add(x); yield x
        if x.op=='Bool': pg(x.a[0]); continue
        if x.op=='Ex': st.append(x.a[0]); pg(x.a[1]); continue
        for y in x.a:
            if isinstance(y,T): st.append(y)
            elif isinstance(y,tuple):
                for z in y:
                    if isinstance(z,T): st.append(z)
                    elif isinstance(z,int) and x.op in('Alt','Seq'): pg(z)
                    elif isinstance(z,tuple):
                        for w in z:
                            if isinstance(w,T): st.append(w)

INTS={'usize','u8','u16','u32','u64','u128','isize','i8','i16','i32','i64','i128'}
TRANSP_ADT=set()
def prune(v,g):
    if v.op!='Alt': return v
    l=[(h,x) for h,x in v.a if land(h,g)!=0]
    if len(l)==len(v.a): return v
    if not l: return BOT
    if len(l)==1: return prune(l[0][1],g)
    return mk('Alt',*l)
def isobj(v): return v.op=='Obj' or (v.op=='Alt' and all(isobj(t) for _,t in v.a))
def isbool(v): return v.op=='Bool' or (v.op=='Alt' and all(isbool(t) for _,t in v.a))
EMPTY_CTORS=set()
CONTRIB={'Contrib'}
CLEARS={'Vec::clear','HashSet::clear','HashMap::clear','VecDeque::clear','SmallVec::clear','BTreeSet::clear'}
SCRAMBLE={'Vec::retain','Vec::clear','Vec::truncate','Vec::dedup','Vec::remove','Vec::swap_remove','Vec::drain','HashSet::remove','HashSet::clear','HashSet::retain','slice::reverse','Vec::pop','slice::sort','slice::sort_by','slice::sort_by_key','slice::swap','Vec::insert','Vec::split_off'}
HANDLERS={}
import handlers
