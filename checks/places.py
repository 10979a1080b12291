"""C11-C16, C18: points-to facts, aliases, overlap, reachability, caches, domains (mir/aliases.rs, mir/placeinfo.rs)."""
from registry import check
from rules import *
import analysis as AN

PI='PlaceInfo'
def gmap(g,f):
    """replace atoms of a guard: f(term) -> guard or None"""
    m={}
    for v in B.support(g):
        t=B.terms[v]; h=f(t)
        if h is not None: m[t]=Bool(h)
    return gsubst(g,m) if m else g
def permissive(g):
    """MutabilityExt::is_permissive_as(a, b) = !(a = Mut and b = Not)"""
    def f(t):
        m=match(('call',('MutabilityExt::is_permissive_as','Mutability::is_permissive_as'),'?a','?b'),t)
        if m is None: return None
        return lnot(land(isv(m['a'],'Mutability','Mut'),isv(m['b'],'Mutability','Not')))
    return gmap(g,f)
def ignore_mut(*gs):
    g=0
    for t in atoms_in(*gs):
        if t.op in('Is','Bits') or True:
            if isinstance(t,T) and t.op=='Is' and t.a[0].op=='Field' and t.a[0].a[1]=='mutability_mode':
                o=t.a[0].a[0]; b=is_variant(o.a[0],'Some') if o.op=='VField' else 1
                g=lor(g,land(b,is_variant(t.a[0],'IgnoreMut',TM.ENUMVARS.get('MutabilityMode'))))
    return g

# ------------------------------------------------------------------ C14
def prefix(R,t,P):
    """t is the place/PlaceRef of a strict prefix of P: the projection element following the prefix, else None"""
    m=match(('call',('PlaceExt::from_ref','Place::from_ref','PlaceRef::to_place'),'?r','...'),t)
    r=m['r'] if m else t
    if r.op=='Agg' and r.a[0] in('PlaceRef','Place'):
        f=fields_of(r); pj=f.get('projection')
        if f.get('local') is not field(P,'local') or pj is None: return None
        while pj.op=='Call' and last(pj.a[0]) in('mk_place_elems','into','to_vec'): pj=pj.a[-1]
        if pj.op=='Slice' and core(pj.a[0]) is field(P,'projection') and pj.a[1].op=='Int' and pj.a[1].a[0]==0: return ixelem(pj.a[2],field(P,'projection'))
        return None
    m=match(('f',('elem','?c'),'0'),r)
    if m:
        c=strip_rev(m['c'])
        if match(('call',('Place::iter_projections','PlaceRef::iter_projections'),P),c): return field(r.a[0],'1')
    m=match(('call','PlaceExt::make',field(P,'local'),'?s','...'),t)
    if m and m['s'].op=='Slice': return ixelem(m['s'].a[2],field(P,'projection'))
    return None
def strip_rev(c):
    while c.op=='Rev': c=c.a[0]
    return c
def core(t):
    while t.op=='Obj' and t.a[1].op=='Call' and t.a[1].a[0]=='clone': t=t.a[1].a[1]
    return t
def ixelem(i,c):
    """element of c at index i"""
    if i.op=='Idx' and strip_rev(i.a[0]) is c: return mk('Elem',*i.a)
    return mk('Index',c,i)
def reversed_order(l,P):
    """the loop goes from the last projection element to the first"""
    b=l.binder.a[0]
    return b.op=='Rev' and strip_rev(b) is not b and b.a[0].op!='Rev'
@check('C14','PlaceExt::interior_places returns the place and everything inside it, not going through references (rustc_utils).')
def C14(L,rep):
    rep.rule('children(p) must be exactly interior_places(p); conflicts(p) must be children(p) plus every strict prefix of p, enumerated from the longest, stopping exactly before the first dereference whose base is not a box.')
    C=L.rust.run(rep,'children','flowistry',impl=PI); self,p=C.params
    ip=('call','PlaceExt::interior_places',p,field(self,'tcx'),field(self,'body'),field(self,'def_id'))
    it=C.nitems(C.ret); g=0
    for l,h,v in it:
        if rep.ok('children-only',match(('elem',ip),v) is not None or v is p,'children contains '+short(v)) and for_all(l,v) and v is not p: g=lor(g,h)
    rep.ok('children-all',implies(1,g),'sub-places are left out when '+gshow(lnot(g)))
    # interior_places does not look into a type again that it is already inside of
    deeper=any(match(('elem',ip),v) is None and v is not p for l,h,v in it)
    rep.ok('recursive-types',deeper,'parts of a value at which its own type, or the type of something that contains them, occurs again are not enumerated (e.g. the fields of *node.next for struct Node { v: (i32, Option<Box<Node>>) })',C.body.get('site') or '')
    R=L.rust.run(rep,'conflicts','flowistry',impl=PI,opaque=('children',)); self,p=R.params
    ch=('call','PlaceInfo::children',self,p); gc=0; found=False
    for l,h,v in R.items(R.ret):
        v=R.norm(v,True); l=lnorm(R.I,l,True); h=gnorm(R.I,h,True)
        if match(('elem',ch),v) or match(('elem',('call','PlaceExt::interior_places',p,'...')),v):
            if rep.ok('conflicts-children',for_all(l,v),'sub-places are skipped'): gc=lor(gc,h)
            continue
        if v is p: continue
        E=prefix(R,v,p)
        if not rep.ok('conflicts-only',E is not None,'conflicts contains '+short(v)): continue
        found=True
        if not rep.ok('prefix-loop',len(l)==1 and l[0].kind in('iter','zip'),'prefixes are not enumerated one by one'): continue
        # the place before E: its type
        deref=isv(E,'ProjectionElem','Deref')
        cuts=0
        for c in l[0].cuts: cuts=lor(cuts,c)
        boxes=[t for t in atoms_in(h,cuts) if match(('call','Ty::is_box',('f',('call',('Place::ty','PlaceRef::ty'),'?q','...'),'ty')),t) and prefix(R,t.a[1].a[0].a[1],p) is E]
        bx=0
        for t in boxes: bx=lor(bx,atom(t))
        stop=land(deref,lnot(bx))
        rep.ok('box-known',bx!=0,'whether the dereferenced place is a box is not consulted')
        rep.ok('prefix-order',reversed_order(l[0],p),'prefixes are not enumerated from the longest')
        rep.ok('stops-at-pointer',implies(stop,cuts),'containing places beyond a reference are reported')
        rep.ok('stops-only-at-pointer',implies(cuts,stop),'containing places are left out when '+gshow(land(cuts,lnot(stop))))
        rep.ok('prefix-all',implies(lnot(stop),h),'a containing place is left out when '+gshow(land(lnot(stop),lnot(h))))
        rep.ok('prefix-not-pointer',implies(h,lnot(stop)),'the pointer through which a place is reached is reported as overlapping')
    rep.ok('conflicts-children-all',implies(1,gc),'sub-places do not conflict with a place')
    rep.ok('conflicts-parents',found,'containing places do not conflict with a place')

# ------------------------------------------------------------------ C15
@check('C15','rustc calls visit_ty and visit_region for every type and region inside a type (TypeSuperVisitable).')
def C15(L,rep):
    rep.rule('reachable_values(p, m) must contain p unconditionally and every element of collect_loans(type of p, m) except those that are indirect and not last reached through a box or raw pointer; the collector must descend into every type on every path, keep a balanced stack of reference mutabilities, visit the unknown region for boxes and raw pointers, and include a loan exactly when mutability is ignored, or the requested permission is Not, or the loan is mutable and no shared reference encloses it.')
    R=L.rust.run(rep,'reachable_values','flowistry',impl=PI,opaque=('collect_loans','aliases')); self,p,mu=R.params
    body=field(self,'body'); tcx=field(self,'tcx')
    gs=gl=0
    for l,h,v in R.nitems(R.ret):
        if v is p:
            if for_all(l,v): gs=lor(gs,h)
            continue
        m=match(('elem',('call','PlaceInfo::collect_loans',self,('f',('call','Place::ty',p,'...'),'ty'),mu)),v)
        if not rep.ok('reachable-only',m is not None,'a place is reported as reachable that is neither the value nor a loan of its type: '+short(v)): continue
        need=indirect_ref(h,v)
        if rep.ok('loans-every',for_all(l,v),'loans are skipped'): gl=lor(gl,lor(h,lnot(need)))
    rep.ok('itself',implies(1,gs),'a value does not reach itself when '+gshow(lnot(gs)))
    rep.ok('loans-all',implies(1,gl),'points-to targets are left out when '+gshow(lnot(gl)))
    # collector set-up
    K=L.rust.run(rep,'collect_loans','flowistry',impl=PI,opaque=('visit_ty',)); self,ty,mu=K.params
    vs=[e for e in K.events if e.name=='TypeVisitor::visit_ty' or e.name.endswith('::visit_ty') or e.name.endswith('visit_with')]
    if rep.ok('collects',len(vs)==1 and vs[0].guard==1 and not vs[0].loops,'the type of a value is not visited exactly once'):
        e=vs[0]; c=next((a for a in e.args if a.op=='Agg'),None) or next((a for a in e.args if 'LoanCollector' in pp(a)),None)
        rep.ok('collects-type',ty in e.args,'the type visited is not the one given',e.site)
        f=fields_of(c) if c is not None and c.op=='Agg' else {}
        rep.ok('collector-loans',f.get('aliases') is field(self,'aliases'),'loans come from another alias table',e.site)
        rep.ok('collector-mutability',any(x is mu for x in f.values()),'the requested permission is not used',e.site)
        rep.ok('collector-unknown',any(x.op=='Call' and x.a[0]=='Region::new_var' and 'UNKNOWN_REGION' in pp(x) for x in f.values()),'boxes and raw pointers are not given the unknown lifetime',e.site)
        col=[x for x in f.values() if x.op=='Obj']
        rep.ok('collector-fresh',all(K.I.objs.get(x) is not None or 'new' in pp(x) or 'default' in pp(x) for x in col),'the collector does not start empty',e.site)
        rep.ok('collector-result',any(K.ret is x for x in col) or any(K.norm(K.ret) is K.norm(x) for x in col) or (K.ret.op=='Field' and K.ret.a[1]=='loans'),'the collected loans are not returned: '+short(K.ret))
    lc=lambda n:next((b for b in L.rust.prog.find(n,'flowistry') if 'LoanCollector' in b['path']),None)
    bt,br=lc('visit_ty'),lc('visit_region')
    if bt is None or br is None: raise Anchor('LoanCollector::visit_ty / visit_region not found')
    V=Run(L.rust,bt,('visit_region','super_visit_with'),rep=rep); self,ty=V.params
    sup=0; brk=0
    for e in V.nevents:
        if e.name.split('::')[-1]=='super_visit_with' and e.args[0] is ty and e.args[1] is self: sup=lor(sup,e.guard)
        if e.name.split('::')[-1] in('super_visit_with','visit_region'): brk=lor(brk,land(e.guard,is_variant(e.ret,'Break'))) if isinstance(e.ret,T) else brk
    kind=mk('Call','Ty::kind',ty); ref=isv(kind,'TyKind','Ref')
    rep.ok('descends',implies(lnot(brk),sup),'types nested in a type are not visited when '+gshow(land(lnot(sup),lnot(brk))))
    isb=lor(atom(mk('Call','Ty::is_box',ty)),isv(kind,'TyKind','RawPtr'))
    unk=0
    for e in V.nevents:
        if e.name.split('::')[-1]=='visit_region':
            rep.ok('unknown-region',e.args[1] is field(self,'unknown_region'),'a region is visited that does not belong to the type: '+short(e.args[1]),e.site); unk=lor(unk,e.guard)
    # a reference is neither a box nor a raw pointer
    rep.ok('boxes-unknown',implies(land(isb,lnot(ref)),unk),'the unknown lifetime is not visited for a box or raw pointer')
    st=[e for e in V.nevents if e.args and e.args[0].op in('Field',) and e.args[0].a[0] is self and e.name in('Contrib','Pop','Vec::push','Vec::pop','Vec::clear','Vec::truncate')]
    push=pop=0; ss=10**9; ps=0
    for e in st:
        if e.name in('Contrib','Vec::push'):
            rep.ok('stack-push',e.args[1] is vfield(kind,'Ref','2') and implies(e.guard,ref),'the mutability stack receives '+short(e.args[1]),e.site); push=lor(push,e.guard); ss=min(ss,e.seq)
        elif e.name in('Pop','Vec::pop'): pop=lor(pop,e.guard); ps=max(ps,e.seq)
        else: rep.ok('stack-operation',False,'the mutability stack is changed by '+e.name,e.site)
    rep.ok('stack-pushed',implies(ref,push),'a reference is entered without recording its mutability')
    rep.ok('stack-balanced',implies(land(push,lnot(brk)),pop) and implies(pop,push),'the mutability of a reference stays recorded after leaving it')
    sq=[e.seq for e in V.nevents if e.name.split('::')[-1]=='super_visit_with' and sat(land(e.guard,ref))]
    rep.ok('stack-order',bool(sq) and all(ss<x<ps for x in sq),'the types inside a reference are visited without its mutability recorded')
    # regions
    G=Run(L.rust,br,(),rep=rep); self,r=G.params
    k=field(field(r,'0'),'0'); loans=field(field(self,'aliases'),'loans')
    tgt=field(self,'target_mutability'); tot=0; miss=0
    cases={'ReVar':vfield(k,'ReVar','0'),'ReStatic':None}
    cov={c:0 for c in cases}; hk=0
    for e in G.nevents:
        if not(e.name in('Contrib','HashSet::insert') and e.args and e.args[0] is field(self,'loans')): continue
        m=match(('f',('elem',('op','Index',loans,'?key')),'0'),e.args[1])
        if not rep.ok('loan-of-region',m is not None,'the reachable set receives '+short(e.args[1]),e.site): continue
        el=e.args[1].a[0]
        c='ReVar' if m['key'] is cases['ReVar'] else 'ReStatic' if m['key'].op=='Int' and m['key'].a[0]==0 or 'from_usize' in pp(m['key']) and '0' in pp(m['key']) else None
        if not rep.ok('loan-key',c is not None,'the loans of another lifetime are used: '+short(m['key']),e.site): continue
        rep.ok('loan-case-'+c,implies(e.guard,isv(k,'RegionKind',c)),'the loans of lifetime kind %s are used for other lifetimes'%c,e.site)
        g=permissive(e.guard)
        under=0
        for t in atoms_in(g):
            if t.op=='In?' and t.a[0] is field(self,'stack') and is_not(t.a[1]): under=lor(under,atom(t))
            if t.op=='Ex' and t.a[0].a[0] is field(self,'stack'):
                x=mk('Elem',field(self,'stack'),t.a[0].a[1])
                if t.a[1]==isv(x,'Mutability','Not') or t.a[1]==lnot(isv(x,'Mutability','Mut')): under=lor(under,atom(t))
        em=ignore_mut(g)
        lm=field(el,'1'); want=lor(em,lor(lnot(isv(tgt,'Mutability','Mut')),land(isv(lm,'Mutability','Mut'),lnot(under))))
        h=0
        for t in atoms_in(g):
            if t.op=='HasKey' and t.a[0] is loans: h=lor(h,atom(t))
        hk=lor(hk,h)
        cov[c]=lor(cov[c],g)
        # precision
        rep.ok('ignore-mut-'+c,em!=0,'the mutability mode of the extensions is not consulted',e.site)
        rep.ok('mutability-respected-'+c,under!=0 and implies(g,want) ,'a target that is not mutably reachable is included when '+gshow(land(g,lnot(want))),e.site)
        rep.ok('mutability-complete-'+c,rest(cov[c],c,e,want,G,h,k),'a reachable target is left out when '+gshow(land(landn(want,isv(k,'RegionKind',c),h if h else 1),lnot(cov[c]))),e.site) if last_of(G,e,loans,self) else None
    for c in cases: rep.ok('region-'+c,cov[c]!=0,'the loans of lifetime kind %s are not collected'%c)
def is_not(t): return t.op=='Agg' and t.a[0]=='Mutability' and t.a[1]=='Not'
def last_of(G,e,loans,self):
    """e is the last event filling the set from the same key"""
    o=[x for x in G.nevents if x.name==e.name and x.args and x.args[0] is e.args[0] and x.args[1] is e.args[1]]
    return o[-1] is e
def rest(g,c,e,want,G,h,k):
    if any(l.cuts for l in e.loops) or len(e.loops)!=1: return False
    return implies(landn(want,isv(k,'RegionKind',c),h if h else 1),lor(g,G.pg))
def indirect_ref(h,v):
    """what the filter is allowed to require of a loan: direct, or last reached through a box or raw pointer"""
    direct=0; ptr={'is_box':0,'is_raw_ptr':0}; rip=0
    for t in atoms_in(h):
        if match(('call','PlaceExt::is_direct',v,'...'),t): direct=lor(direct,atom(t))
        last_ty=('f',('call',('Place::ty','PlaceRef::ty'),('f',('op','LastOf','?s'),'0'),'...'),'ty')
        k=None
        for n in('is_box','is_raw_ptr'):
            q=match(('call','Ty::'+n,last_ty),t)
            if q: k,m=n,q
        q=match(('call','Ty::kind',last_ty),t)
        if q: k,m='is_raw_ptr',q
        if k and any(match(('call','PlaceExt::refs_in_projection',v,'...'),x) for x in walk(m['s'])): ptr[k]=lor(ptr[k],isv(t,'TyKind','RawPtr') if t.a[0]=='Ty::kind' else atom(t))
        if t.op=='Empty' and match(('call','PlaceExt::refs_in_projection',v,'...'),t.a[0]): rip=lor(rip,atom(t))
    # a loan may be dropped only when it is known not to be direct, nor last reached through a box, nor through a raw pointer
    if direct==0 or not all(ptr.values()): return 1
    return lor(direct,land(lorn(*ptr.values()),lnot(rip)))

# ------------------------------------------------------------------ C16
@check('C16','rustc_utils Cache::get(key, f) returns the stored value for the key, or stores f(key).','Two places with equal normal form have equal points-to targets in one body: the type checker equates the lifetimes of their types.')
def C16(L,rep):
    rep.rule('Every use of a cache in the workspace is enumerated; in its function the memoised value is computed symbolically, and each parameter it depends on must be part of the key; no cache may be filled at two places. The one accepted weaker key is the normal form of a place for alias answers, which must be computed from the place itself.')
    prog=L.rust.prog
    sites=[(b,f) for b,t,f in callsites(prog,lambda f: f['name']=='get' and ('cache::' in f['fn'] or 'Cache' in str(f['impl'])))]
    rep.ok('caches',len(sites)>=4,'expected at least four uses of caches, found %d'%len(sites))
    used={}
    for path in sorted({AN.root_of(prog,b) for b,f in sites}):
        b=prog.bodies[path]; R=Run(L.rust,b,('aliases','children','collect_loans','normalize','conflicts','reachable_values') if True else (),rep=rep)
        ms=[e for e in R.nevents if e.name=='Memo']
        if not rep.ok('memo '+last(path),len(ms)>=1,'the use of a cache in %s is not understood'%path): continue
        for e in ms:
            c,k,v=e.args
            used.setdefault(pp(c),set()).add(path)
            parts=key_parts(k)
            ps=set()
            raw=next(x for x in R.events if x.name=='Memo' and x.seq==e.seq).args[2]
            todo=[raw]; seen=set(); terms=set()
            while todo:
                x=todo.pop()
                if x in seen: continue
                seen.add(x)
                for y in walk_g(x):
                    terms.add(y)
                    if y.op=='Obj' and (y is x or y not in seen):
                        cont=R.I.contents(y)
                        for l,g,w in (cont or []):
                            todo.append(w); todo.append(Bool(g)); todo+=[q.binder.a[0] for q in l]; todo+=[Bool(z) for q in l for z in q.cuts]
                        todo+=[a for a in y.a[1].a[1:] if isinstance(a,T)] if y.a[1].op=='Call' else []
            for y in terms:
                if y.op=='Param' and y.a[0]==b['path'] and y.a[1]>0: ps.add(y)
            for q in sorted(ps,key=pp):
                ok=any(x is q for x in parts)
                if not ok and match(('call','Aliases::aliases',field(R.params[0],'aliases'),q),R.norm(v)): ok=any(match(('call','PlaceInfo::normalize','_',q),x) for x in parts)
                rep.ok('key %s %s'%(last(path),q.a[2]),ok,'the cached answer of %s depends on %s, which is not part of the key %s'%(last(path),q.a[2],short(k)),e.site)
            rep.ok('value '+last(path),bool(ps),'what the cached answer of %s depends on is not understood'%last(path),e.site)
            r=R.norm(R.ret)
            rep.ok('answer '+last(path),r is R.norm(v) or R.ret is v or any(x is v or R.norm(x) is R.norm(v) for x in [R.ret]),'%s does not return the cached answer but %s'%(last(path),short(r)),e.site)
    for c,ps in used.items(): rep.ok('own-cache '+c,len(ps)==1,'one cache is used for different answers, in '+', '.join(sorted(ps)))
    A=L.rust.run(rep,'aliases','flowistry',impl=PI,opaque=('aliases','normalize'))
    rep.ok('alias-unnormalised',match(('call','Aliases::aliases',field(A.params[0],'aliases'),A.params[1]),A.norm(A.ret)) is not None,'aliases are not computed from the place itself: '+short(A.norm(A.ret)))
    N=L.rust.run(rep,'normalize','flowistry',impl=PI)
    rep.ok('normal-form',match(('call','PlaceExt::normalize',N.params[1],field(N.params[0],'tcx'),field(N.params[0],'def_id')),N.norm(N.ret)) is not None,'the normal form of a place is '+short(N.norm(N.ret)))
def key_parts(k):
    out=[k]
    if k.op=='Agg':
        for x in k.a[3:]: out+=key_parts(x)
    if k.op=='Obj' and k.a[1].op=='Call' and k.a[1].a[0]=='clone': out+=key_parts(k.a[1].a[1])
    return out

# ------------------------------------------------------------------ C18
@check('C18','BodyExt::all_locations enumerates every location of the body once, in index order (rustc_utils).')
def C18(L,rep):
    rep.rule('The domain must be built from exactly two sequences, in order: every location of the body as Location, every argument as Arg; PlaceInfo::build must store it for the same body; and every dependency set or matrix created in the workspace must be created over location_domain().')
    R=L.rust.run(rep,'build_location_arg_domain','flowistry',impl=PI); body=R.params[0]
    seqs=[]
    def drill(t,d=0):
        if d>8: return
        t2=t
        if t2.op=='Call' and len(t2.a)==2 and isinstance(t2.a[1],T): return drill(t2.a[1],d+1)
        if t2.op=='Agg' and len(t2.a)==4: return drill(t2.a[3],d+1)
        rs=R.rows(t2)
        for l,g,v in rs:
            if len(l)==1 and v is mk('Elem',*l[0].binder.a) and v.a[0] is not t2 and g==1 and not l[0].cuts and v.a[0].op=='Obj': drill(v.a[0],d+1)
            else: seqs.append((l,g,v))
    drill(R.ret)
    kinds=[]
    for l,g,v in seqs:
        v=R.norm(v,True)
        m=match(('agg','LocationOrArg','?'),v) if False else None
        k=None
        if v.op=='Agg' and v.a[0]=='LocationOrArg':
            x=fields_of(v)['0']; var=v.a[1]
        elif v.op=='Call' and v.a[0] in('LocationOrArg::Location','LocationOrArg::Arg'): x=v.a[1]; var=v.a[0].split('::')[1]
        else: var=None
        if var=='Location' and match(('elem',('call','BodyExt::all_locations',body)),x): k='loc'
        if var=='Arg' and match(('elem',('call','Body::args_iter',body)),x): k='arg'
        rep.ok('domain-element',k is not None,'the domain contains '+short(v))
        rep.ok('domain-every',g==1 and len(l)==1 and not l[0].cuts and l[0].binder.a[0].op!='Rev','the domain leaves out instructions or arguments, or reorders them')
        kinds.append(k)
    rep.ok('domain-order',kinds==['loc','arg'],'the domain consists of %s instead of the instructions followed by the arguments'%kinds)
    Bd=L.rust.run(rep,'build','flowistry',impl=PI,opaque=('build_location_arg_domain','build')); f=fields_of(Bd.ret) if Bd.ret.op=='Agg' else {}
    b=field(Bd.params[2],'body')
    rep.ok('build-domain',match(('call','PlaceInfo::build_location_arg_domain',b),Bd.norm(f.get('location_domain',Int(0)))) is not None,'the domain stored is '+short(f.get('location_domain',Int(0))))
    rep.ok('build-body',f.get('body') is b and f.get('def_id') is Bd.params[1],'places are resolved in another body')
    rep.ok('build-aliases',match(('call','Aliases::build',Bd.params[0],Bd.params[1],Bd.params[2]),Bd.norm(f.get('aliases',Int(0)))) is not None,'alias facts are those of '+short(Bd.norm(f.get('aliases',Int(0)))))
    D=L.rust.run(rep,'location_domain','flowistry',impl=PI)
    rep.ok('location_domain',D.norm(D.ret) is field(D.params[0],'location_domain'),'location_domain returns '+short(D.ret))
    prog=L.rust.prog; n=0
    roots=set()
    for b,t,fn in callsites(prog,lambda f: f['name']=='new' and f['impl'] and last(f['impl']) in('IndexSet','IndexMatrix')):
        if 'LocationOrArg' in str(fn['args']) or 'LocationOrArg' in str(fn.get('sig','')): roots.add(AN.root_of(prog,b))
    for path in sorted(roots):
        bd=prog.bodies[path]
        S=Run(L.rust,bd,('aliases','conflicts','children','normalize','reachable_values','state_at','compute_flow','visit_location','visit_body','location_domain'),rep=rep)
        for e in S.nevents:
            if e.name in('IndexSet::new','IndexMatrix::new') and e.args:
                n+=1
                d=e.args[0]
                ok=d.op=='Call' and d.a[0].split('::')[-1]=='location_domain' or d.op=='Field' and d.a[1]=='location_domain'
                rep.ok('same-domain '+last(path),ok,'a dependency set in %s is created over another domain: %s'%(path,short(d)),e.site)
    rep.ok('domain-uses',n>=4 and len(roots)>=3,'creations of dependency sets not found')

# ------------------------------------------------------------------ C43
@check('C43','PlaceExt::interior_places and interior_pointers enumerate the fields of a struct in declaration order, count only those visible from the given item, and start every place they return with the projection of the place they were given (rustc_utils).')
def C43(L,rep):
    rep.rule('Every place obtained from PlaceExt::interior_places/interior_pointers/interior_paths must pass through a renumbering function before it is returned, stored or passed on; that function must keep the projection of the place the enumeration started from, and of the remaining elements change exactly the field numbers on a struct, replacing n by the number of the n-th field visible from the same item and keeping the field type, with the base type followed element by element.')
    P=L.rust.prog
    IP=('interior_places','interior_pointers','interior_paths')
    fns={}; nsites=0
    for p,b in P.bodies.items():
        if 'test' in p.split('::'): continue
        n=sum(1 for g in P.direct_calls(b) if g['name'] in IP and g['fn'].startswith('rustc_utils::'))
        if not n: continue
        nsites+=n; q=p
        while P.bodies[q]['kind']=='Closure': q=q.rsplit('::',1)[0]
        fns.setdefault(q,0); fns[q]+=n
    rep.ok('enumerations',nsites>=2,'the parts of a value are not enumerated anywhere')
    rn=[p for p in P.renum if P.renum_arg(p)>=0]
    if not rep.ok('renumbering',bool(rn),'no function gives the fields of a made-up place their own numbers'): return
    used=set()
    for p in sorted(fns):
        R=Run(L.rust,P.bodies[p],tuple(last(x) for x in rn)+tuple(last(x) for x in P.wrap)+('deps_for','aliases','conflicts','children','normalize','reachable_values','compute_flow','generate_conservative_constraints'),rep=rep)
        def isip(t): return t.op=='Call' and last(t.a[0]) in IP
        def made(t):
            """the enumeration that t is a place of"""
            x=t
            if x.op=='Elem' and isip(x.a[0]) and last(x.a[0].a[0])!='interior_pointers': return x.a[0]
            if x.op=='Field' and x.a[1]=='0' and x.a[0].op in('Elem','Index'):
                c=x.a[0].a[0]
                if c.op=='Field' and c.a[1]=='1' and c.a[0].op=='Elem' and isip(c.a[0].a[0]): return c.a[0].a[0]
                if c.op=='Elem' and c.a[0].op=='Call' and 'alues' in c.a[0].a[0]:
                    for y in walk(c.a[0]):
                        if isip(y): return y
            return None
        bad=[]
        def scan(t,site):
            seen=set(); st=[t]
            while st:
                x=st.pop()
                if x in seen: continue
                seen.add(x)
                if x.op=='Call' and last(x.a[0]) in [last(y) for y in rn]:
                    f=next(y for y in rn if last(y)==last(x.a[0])); i=P.renum_arg(f)
                    e=made(x.a[1+i]) if len(x.a)>1+i else None
                    if e is not None:
                        used.add((f,last(e.a[0])))
                        rest=[y for j,y in enumerate(x.a[1:]) if j!=i]
                        if not(all(any(y is z for y in rest) for z in e.a[1:])): bad.append(('renumbered for another item or value',short(x,160),site))
                        continue
                if x.op=='Obj' and x is not t:
                    for l,g,v in R.rows(x): st.append(R.norm(v))
                    continue
                if made(x) is not None: bad.append(('used with field numbers that leave out private fields',short(x,160),site)); continue
                for y in x.a:
                    if isinstance(y,T): st.append(y)
                    elif isinstance(y,tuple): st+=[z for z in y if isinstance(z,T)]
        for l,g,v in R.nitems(R.ret): scan(v,'')
        if any(isip(y) for y in [R.norm(R.ret)] ): bad.append(('returned with field numbers that leave out private fields',short(R.ret,160),''))
        for e in R.nevents:
            if e.name in('Clone::clone',): continue
            if last(e.name) in [last(y) for y in rn]: scan(mk('Call',e.name,*e.args),e.site); continue
            for a in e.args: scan(a,e.site)
            if e.name=='Contrib' or last(e.name).startswith('insert') or last(e.name).startswith('extend'):
                if any(isip(a) for a in e.args): bad.append(('stored with field numbers that leave out private fields',e.name,e.site))
        rep.ok('renumbered-'+last(p),not bad,'a place is '+'; '.join('%s: %s'%x[:2] for x in bad[:2]),bad[0][2] if bad else '')
    rep.ok('renumbered-all',{x[1] for x in used}>={'interior_places','interior_pointers'} or any(last(p) not in IP for p in fns) and bool(used),'the renumbering is not applied to what is enumerated')
    for f in rn: C43renumber(L,rep,f)
def C43renumber(L,rep,f):
    P=L.rust.prog; K=Run(L.rust,P.bodies[f],rep=rep); place=K.params[P.renum_arg(f)]
    ret=K.norm(K.ret)
    root=next((q for q in K.params if q is not place and any(e.name in('Place::ty','PlaceRef::ty') and e.args[0] is q for e in K.nevents)),None)
    if not rep.ok('root',root is not None,'the type of the value that the places are in is not consulted'): return
    if not rep.ok('makes-place',ret.op=='Call' and last(ret.a[0])=='make' and len(ret.a)>=3,'the result is not a place made of a variable and a projection but '+short(ret)): return
    rep.ok('local',ret.a[1] in(field(root,'local'),field(place,'local')),'the variable of the place changes')
    elems=field(place,'projection'); el=mk('Elem',elems,0)
    base=0; same=0; kept=0; new=[]; binders=[]
    for l,g,v in K.rows(ret.a[2]):
        l=lnorm(K.I,l); g=gnorm(K.I,g); v=K.norm(v)
        if match(('elem',field(root,'projection')),v) is not None: base=lor(base,g if for_all(l,v) else 0); continue
        for b in l: rep.ok('every-element',not b.cuts,'the elements after some element are left out')
        if v.op=='Elem' and v.a[0] is elems: el=v; same=lor(same,g); continue
        d=fields_of(v) if v.op=='Agg' and v.a[1]=='Field' else {}
        ty=d.get('1')
        if not rep.ok('element',ty is not None and ty.op=='VField' and ty.a[0].op=='Elem' and ty.a[0].a[0] is elems and ty.a[1:]==('Field','1'),'an element becomes '+short(v)): continue
        el=ty.a[0]
        for h,x in alts(d['0']):
            h=land(g,h)
            if x.op=='VField' and x.a[0] is el and x.a[1:]==('Field','0'): kept=lor(kept,h)
            else: new.append((h,x))
    take=1
    for t in atoms_in(same,kept,*[h for h,_ in new]):
        if t.op=='Take':
            take=land(take,atom(t))
            rep.ok('skip',any(isinstance(y,T) and y.op=='Len' and y.a[0] is field(root,'projection') for y in t.a),'elements are skipped other than those of the value itself: '+short(t))
    rep.ok('skips-value',take!=1,'the elements of the value itself are repeated')
    rep.ok('keeps-value',implies(1,base),'the projection of the value itself is left out')
    ch=0
    for h,x in new: ch=lor(ch,h)
    missing=land(take,lnot(lor(same,lor(kept,ch))))
    rep.ok('every-element',implies(missing,0),'an element is left out when '+gshow(missing))
    # the type in front of the element
    pv=K.I.prevs; prev=None; ok=False
    for t,l in pv.items():
        for init,steps in l:
            init=K.norm(init)
            if match(('call',('Place::ty','PlaceRef::ty'),root,'...'),init) is None: continue
            prev=t; ok=True; cov=0
            for g,v in steps:
                for h,x in alts(K.norm(v)):
                    h=land(gnorm(K.I,g),h)
                    if not sat(h): continue
                    good=x.op=='Call' and last(x.a[0])=='projection_ty' and x.a[1] is t and all(y is el or y.op=='Agg' and y.a[1]=='Field' for _,y in alts(x.a[3]))
                    ok=ok and good
    rep.ok('type-followed',prev is not None and ok,'the type in front of an element is not that of the place made so far')
    if prev is None: return
    kind=mk('Call','Ty::kind',field(prev,'ty')); G=0
    isfield=isv(el,'ProjectionElem','Field')
    struct=0
    for t in atoms_in(same,kept,ch):
        if match(('call','AdtDef::is_struct',mk('VField',kind,'Adt','0')),t) is not None: struct=lor(struct,atom(t))
        elif match(('call','AdtDef::is_enum',mk('VField',kind,'Adt','0')),t) is not None: struct=lor(struct,lnot(atom(t)))
        elif t.op=='Is' and t.a[0].op=='Call' and t.a[0].a[0]=='AdtDef::adt_kind' and t.a[0].a[1] is mk('VField',kind,'Adt','0') and t.a[1]=='Struct': struct=lor(struct,atom(t))
    if not rep.ok('struct-fields',struct!=0,'whether the field is one of a struct is not decided from the type in front of it'): return
    need=land(land(isfield,isv(kind,'TyKind','Adt')),struct)
    rep.ok('only-struct-fields',implies(ch,need),'the number of something else than a field of a struct changes when '+gshow(land(ch,lnot(need))))
    # the number
    fields=mk('Field',mk('Call','AdtDef::non_enum_variant',mk('VField',kind,'Adt','0')),'fields')
    none=0; good=0; listed=[]
    for h,x in new:
        sq=None
        if x.op=='Field' and x.a[1]=='0' and x.a[0].op=='Call' and last(x.a[0].a[0])=='nth': x=x.a[0]
        if x.op=='Call' and last(x.a[0])=='nth' and x.a[2].op=='VField' and x.a[2].a[0] is el and x.a[2].a[1:]==('Field','0'): sq=x.a[1]
        row=sq.a[0] if sq is not None and sq.op=='Seq' and len(sq.a)==1 and len(sq.a[0])==3 else None
        if x.op=='Index' and x.a[0].op=='Obj' and x.a[1].op=='VField' and x.a[1].a[0] is el and x.a[1].a[1:]==('Field','0'):
            rs=K.rows(x.a[0]); row=([b.binder for b in rs[0][0]],)+tuple(rs[0][1:]) if len(rs)==1 and not any(b.cuts for b in rs[0][0]) else None
            if row: listed.append(x.a[0])
        if not rep.ok('number',row is not None,'a field number becomes '+short(x)): continue
        ls,g,v=row; ls=[K.norm(y,True) for y in ls]; g=gnorm(K.I,g,True)
        idx=v
        if v.op=='Agg' and v.a[0]=='<tuple>': idx=v.a[3]
        one=rep.ok('number-of-field',len(ls)==1 and idx.op=='Idx' and idx.a[0] is fields and ls[0].op=='B' and ls[0].a[0] is fields,'a field number is '+short(idx)+', not one counted among the fields of the struct')
        if not one: continue
        ats=[t for t in atoms_in(g)]; vis=[t for t in ats if t.op=='Call' and last(t.a[0])=='is_accessible_from']
        did=[q for i,q in enumerate(K.params) if 'DefId' in K.body['locals'][1+i][0]]
        rep.ok('counts-visible',len(vis)==1 and match(('f',('elem',fields),'vis'),vis[0].a[1]) is not None and implies(g,atom(vis[0])) and implies(atom(vis[0]),g),'the fields counted are those with '+gshow(g))
        for t in vis: rep.ok('visible-from',len(did)==1 and t.a[2] is did[0],'visibility is decided from '+short(t.a[2]))
        good=lor(good,h)
    rest=land(land(need,take),lnot(good)); none=1
    for t in atoms_in(rest):
        if t.op=='Ex' or t.op=='HasKey' and t.a[0] in listed or t.op=='Lt' and t.a[1].op=='Len' and t.a[1].a[0] in listed: none=land(none,lnot(atom(t)))
    rep.ok('every-struct-field',good!=0 and implies(rest,none if none!=1 else 0),'a field of a struct keeps the number among the visible fields when '+gshow(rest))
