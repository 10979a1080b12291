"""C19, C20: analysing a call through its callee's body (infoflow/recursive.rs)."""
from registry import check
from rules import *
from fixpoint import effect_applied
from places import core

OPAQUE=('aliases','conflicts','children','normalize','reachable_values','state_at','compute_flow','transfer_function','arg_places','all_args')
def ret_place(k): return k.op in('NConst','Const') and 'RETURN_PLACE' in str(k.a[0])
def ex_chains(g,pre=()):
    """(top-level Ex atom, binders, condition on an element) for the existential atoms of a guard"""
    for v in B.support(g):
        t=B.terms[v]
        if t.op!='Ex': continue
        inner=[(p,l) for _,p,l in ex_chains(t.a[1])]
        for p,l in inner: yield t,(t.a[0],)+p,l
        yield t,(t.a[0],),t.a[1]
class Call:
    """anatomy of recurse_into_call"""
    def __init__(s,L,rep):
        R=s.R=L.rust.run(rep,'recurse_into_call','flowistry',opaque=OPAQUE)
        s.self,s.state,s.call,s.loc=R.params
        s.tcx=field(s.self,'tcx')
        c=lambda n: field(vfield(s.call,'Call',n[0]),n[1]) if isinstance(n,tuple) else vfield(s.call,'Call',n)
        s.func,s.args,s.dest=c('func'),c('args'),c('destination')
        s.tf=[e for e in R.nevents if e.name.endswith('transfer_function')]
        s.applied=0
        for e in s.tf: s.applied=lor(s.applied,e.guard)
        s.cf=[e for e in R.nevents if e.name.split('::')[-1]=='compute_flow']
        s.conds=s.applied
        for e in s.cf: s.conds=land(s.conds,e.guard)
def find(g,*pats):
    """atoms of a guard matching a pattern (as terms)"""
    out=[]
    for t in atoms_in(g):
        for p in pats:
            if match(p,t) is not None: out.append(t)
    return out
@check('C19','Instance resolution is not attempted: a call names the callee of its function constant.','hir_get_if_local, body_id, fn_sig, trait_of_assoc (rustc) and arg_places behave as documented.')
def C19(L,rep):
    rep.rule('The call is analysed through the callee (flow of the callee computed, its mutations applied to the state) only under a guard that implies: constant function of FnDef type, not a trait method, not diverging, local, with a body, no argument type containing a closure called by unique reference or value, a trait object, or (for a generic callee) a type argument with lifetimes, and callee not on the stack of bodies being analysed; recurse_into_call returns true exactly under the guard under which the mutations are applied and touches the state nowhere else; the terminator effect uses the signature-based mutations exactly when it does not recurse, and recurses only for calls in recurse mode; compute_flow puts the body on that stack before the engine runs and takes it off afterwards.')
    K=Call(L,rep); R=K.R
    if not rep.ok('applies',bool(K.tf) and K.applied!=0,'the effects of a callee are never applied'): return
    rep.ok('flow-computed',bool(K.cf),'the flow of a callee is never computed')
    # returned value
    ret=land(truth(R.norm(R.ret)),isv(K.call,'TerminatorKind','Call'))
    rep.ok('reported',implies(K.applied,ret),'a call is analysed through its callee and treated by its signature as well, when '+gshow(land(K.applied,lnot(ret))))
    rep.ok('not-dropped',implies(ret,lor(K.applied,R.pg)),'a call is analysed neither through its callee nor by its signature when '+gshow(land(ret,lnot(K.applied))))
    for e in R.nevents:
        if e in K.tf: continue
        if any(isinstance(a,T) and (a is K.state) for a in e.args) and not e.name.startswith('<'):
            rep.ok('state-untouched',e.name.split('::')[-1] in('fmt','rows','row_set','row','len'),'the state is changed by %s before it is known how the call is treated'%e.name,e.site)
    for e in K.tf: rep.ok('own-call',e.args[0] is K.self and e.args[1] is K.state and e.args[3] is K.loc and not e.loops,'the effects of the callee are applied to another state or location',e.site)
    # requirements
    G=K.applied
    for e in K.cf: G=lor(G,e.guard)
    fc=None
    rq={}
    def need(key,pats,want,msg):
        """every atom must exist and the guard must imply it (want: function atom-term -> guard)"""
        g=0
        for t in find(G,*pats):
            g=lor(g,want(t))
        rep.ok(key,g!=0 and implies(G,g),msg)
    isc=[t for t in find(G,('call','Operand::constant',K.func))]
    rep.ok('constant',bool(isc) and implies(G,isv(isc[0],'Option','Some')),'a call whose callee is not a constant is analysed through a body')
    fty=[t for t in find(G,('call','Ty::kind','?t')) if isc and any(x is isc[0] for x in walk(t)) and 'fn_sig' not in pp(t)]
    if not rep.ok('known-callee',bool(fty) and implies(G,isv(fty[0],'TyKind','FnDef')),'a call is analysed through a body although its callee is not a known function'): return
    d=field(vfield(fty[0],'FnDef','0'),'') if False else vfield(fty[0],'FnDef','0')
    sig=[t for t in find(G,('call','Ty::kind','?t'),('call','Ty::is_never','?t')) if any(match(('call','TyCtxt::fn_sig',K.tcx,d),x) for x in walk(t))]
    ng=0
    for t in sig: ng=lor(ng,atom(t) if t.a[0].endswith('is_never') else isv(t,'TyKind','Never'))
    rep.ok('returning',ng!=0 and implies(G,lnot(ng)),'a diverging callee is analysed through its body')
    node=find(G,('call','TyCtxt::hir_get_if_local',K.tcx,d))
    loc=0
    for t in node: loc=lor(loc,isv(t,'Option','Some'))
    for t in find(G,('call','DefId::as_local',d)): loc=lor(loc,isv(t,'Option','Some'))
    for t in find(G,('call','DefId::is_local',d)): loc=lor(loc,atom(t))
    rep.ok('local',loc!=0 and implies(G,loc),'a callee of another crate is analysed through a body')
    bid=[t for t in find(G,('call',('Node::body_id','TyCtxt::hir_maybe_body_owned_by'),'...')) if any(x is d for x in walk(t))]
    hb=0
    for t in bid: hb=lor(hb,isv(t,'Option','Some'))
    rep.ok('has-body',hb!=0 and implies(G,hb),'a callee without a body is analysed')
    tr=0
    for t in find(G,('call',('TyCtxt::trait_of_assoc','TyCtxt::trait_of_item'),K.tcx,d)): tr=lor(tr,isv(t,'Option','Some'))
    rep.ok('own-body',tr!=0 and implies(G,lnot(tr)),'a method of a trait is analysed through the body in the trait although an implementation may override it')
    # closures, trait objects, opaque generics
    ap=mk('Call','utils::arg_places',K.args)
    def chain(kind,extra):
        ok=False
        for top,bs,leaf in ex_chains(G):
            if len(bs)!=2: continue
            c0,c1=[b.a[0] for b in bs]
            if not (match(('call','utils::arg_places','_'),c0) and any(x is K.args or x.op=='VField' and x.a[0] is K.call for x in walk(c0))): continue
            el0=mk('Elem',c0,bs[0].a[1]); el1=mk('Elem',c1,bs[1].a[1])
            if not match(('call','Ty::walk',('f',('call','Place::ty',('f',el0,'1'),('f',('f',K.self,'body'),'local_decls'),'...'),'ty')),c1) and not match(('call','Ty::walk',('call','Place::ty',('f',el0,'1'),('f',('f',K.self,'body'),'local_decls'),'...')),c1): continue
            for k in find(leaf,('call','Ty::kind','?t')):
                if not any(x is el1 for x in walk(k)): continue
                h=isv(k,'TyKind',kind)
                for gk in find(leaf,('call','GenericArg::kind',el1)): h=land(h,isv(gk,'GenericArgKind','Type'))
                if extra:
                    for ck in find(leaf,('call','ClosureArgs::kind','...')): h=land(h,lnot(isv(ck,'ClosureKind','Fn')))
                if h!=0 and implies(h,leaf) and implies(atom(top),lnot(G)): ok=True
        return ok
    rep.ok('no-mutating-closure',chain('Closure',True),'a callee that is given a mutating closure is analysed through its body')
    rep.ok('no-trait-object',chain('Dynamic',False),'a callee that is given a trait object, whose effects its body does not show, is analysed through its body')
    opq=False
    for top,bs,leaf in ex_chains(G):
        c=bs[0].a[0]
        if match(('call',('RawList::types','GenericArgs::types','List::types'),vfield(fty[0],'FnDef','1')),c) and len(bs)>=1 and any(x.op=='Call' and x.a[0] in('TyExt::inner_regions','Ty::walk') and any(y is mk('Elem',c,bs[0].a[1]) for y in walk(x)) for x in atoms_in(leaf)):
            if implies(atom(top),lnot(G)): opq=True
    rep.ok('no-opaque-pointers',opq,'a generic callee is analysed through its body although the call gives it pointers the body does not show')
    # recursion
    st=[t for t in atoms_in(G) if t.op=='In?' and 'BODY_STACK' in pp(t.a[0])]
    key=lambda t: any(t is vfield(b,'Some','0') for b in bid)
    rc=0
    for t in st:
        if key(t.a[1]): rc=lor(rc,atom(t))
    for top,bs,leaf in ex_chains(G):
        if len(bs)==1 and 'BODY_STACK' in pp(bs[0].a[0]):
            el=mk('Elem',bs[0].a[0],bs[0].a[1])
            for b in bid:
                w=eqg(el,vfield(b,'Some','0'))
                if implies(w,leaf) and implies(leaf,w): rc=lor(rc,atom(top))
    rep.ok('not-recursive',rc!=0 and implies(G,lnot(rc)),'a callee whose body is already being analysed is analysed again')
    for e in K.cf:
        rep.ok('same-callee',key(e.args[1]) and e.args[0] is K.tcx and any(x is d for x in walk(e.args[2])),'the flow that is computed is not that of the callee: '+short(e.args[1]),e.site)
    for e in R.nevents:
        if e.name=='Memo': rep.ok('cache-key',key(e.args[1]) and e.args[0] is field(K.self,'recurse_cache'),'the flow of a callee is remembered under another key: '+short(e.args[1]),e.site)
        if e.name in('MapInsert','HashMap::insert','HashMap::remove','HashMap::clear') and e.args and e.args[0] is field(K.self,'recurse_cache'): rep.ok('cache-insert',e.name=='MapInsert' and key(e.args[1]),'the table of callee flows is changed by %s'%e.name,e.site)
    # the dispatch
    T_=L.rust.run(rep,'apply_primary_terminator_effect','flowistry',impl='FlowAnalysis',opaque=('transfer_function','visit_terminator','recurse_into_call'))
    vg=effect_applied(T_,rep,'terminator','visit_terminator')
    self,state,term,loc=T_.params[:4]
    iscall=isv(field(term,'kind'),'TerminatorKind','Call')
    rec=0; done=0; rcall=0
    for t in atoms_in(vg):
        if t.op in('Is','Bits') and isinstance(t.a[0],T) and t.a[0].op=='Field' and t.a[0].a[1]=='context_mode' and 'EVAL_MODE' in pp(t.a[0]): rec=lor(rec,isv(t.a[0],'ContextMode','Recurse')); 
        if t.op=='Is' and t.a[1]=='Some' and 'EVAL_MODE' in pp(t.a[0]): some=atom(t)
    rc=[e for e in T_.nevents if e.name.endswith('recurse_into_call')]
    if rep.ok('recursion-used',len(rc)>=1 and rec!=0,'calls are never analysed through their callees'):
        active=land(rec,some); g=0
        for e in rc:
            rep.ok('recursion-target',e.args[0] is self and e.args[1] is state and e.args[2] is field(term,'kind') and e.args[3] is loc,'recursion is given another call, state or location',e.site)
            rep.ok('recursion-mode',implies(e.guard,land(active,iscall)),'recursion happens outside recurse mode or for something other than a call, when '+gshow(land(e.guard,lnot(land(active,iscall)))),e.site)
            g=lor(g,e.guard); done=lor(done,land(e.guard,truth(e.ret) if isinstance(e.ret,T) else atom(mk('Call',e.name,*e.args))))
        rep.ok('recursion-when-asked',implies(land(active,iscall),lor(g,T_.pg)),'calls are not analysed through their callees in recurse mode when '+gshow(landn(active,iscall,lnot(g))))
        rep.ok('fallback',implies(lnot(done),lor(vg,T_.pg)),'a terminator is treated neither through its callee nor by its signature when '+gshow(land(lnot(done),lnot(vg))))
        rep.ok('one-treatment',implies(vg,lnot(done)),'a call is treated both through its callee and by its signature when '+gshow(land(vg,done)))
    # the stack of bodies
    W=L.rust.run(rep,'compute_flow','flowistry',opaque=('iterate_to_fixpoint','build','location_domain'),sig=('AnalysisResults','TyCtxt','BodyId','BodyWithBorrowckFacts'))
    onst=lambda e: e.args and isinstance(e.args[0],T) and e.args[0].op in('NConst','Static','Const') and 'BODY_STACK' in pp(e.args[0])
    push=[e for e in W.nevents if onst(e) and e.name in('Contrib','Vec::push')]; pop=[e for e in W.nevents if onst(e) and e.name in('Pop','Vec::pop')]
    eng=[e for e in W.nevents if e.name.endswith('iterate_to_fixpoint')]
    for e in W.nevents:
        if onst(e) and e not in push and e not in pop: rep.ok('stack-operation',e.name.split('::')[-1] in('len','contains','is_empty','fmt','iter','last'),'the stack of bodies is changed by '+e.name,e.site)
    rep.ok('stack-pushed',len(push)==1 and push[0].args[1] is W.params[1] and push[0].guard==1 and bool(eng) and push[0].seq<min(e.seq for e in eng),'a body is analysed without being on the stack of bodies')
    pg=0
    for e in pop: pg=lor(pg,e.guard)
    rep.ok('stack-popped',len(pop)>=1 and W.covered(pg) and bool(eng) and min(e.seq for e in pop)>max(e.seq for e in eng) and all(land(a.guard,b.guard)==0 for a in pop for b in pop if a is not b),'a body is not taken off the stack exactly once after it was analysed')
    other=[]
    for b,t,f in callsites(L.rust.prog,lambda f: f['name'] in('pop','push','clear','truncate','remove','drain') ,('flowistry',)):
        pass

# ------------------------------------------------------------------ C20
def seg_elem(l,t): return [x for x in walk(t) if x.op=='Elem' and x.a[1]==l.binder.a[1] and x.a[0] is l.binder.a[0]]
class Translate:
    """checks that a place term is the translation of a callee place"""
    def __init__(s,K,rep): s.K=K; s.rep=rep; s.R=K.R
    def arg_of(s,t,child):
        """t is the place of the argument of the call that child's root is bound to"""
        proj=t.op=='Field' and t.a[1]=='1'
        q=t.a[0] if proj else t
        if q.op=='VField' and q.a[1]=='Some': q=q.a[0]
        if q.op!='FirstOf': return False
        ok=False
        for bs,h,v in q.a[0].a if q.a[0].op=='Seq' else ():
            if len(bs)!=1 or not match(('call','utils::arg_places','_'),s.peel(bs[0].a[0])) or not any(x.op=='VField' and x.a[0] is s.K.call and x.a[2]=='args' for x in walk(s.peel(bs[0].a[0]))): return False
            el=mk('Elem',bs[0].a[0],bs[0].a[1])
            if v is not (el if proj else field(el,'1')): return False
            lo=field(child,'local'); want=eqg(mk('Bin','Sub',lo,Int(1)),field(el,'0'))
            alt=eqg(lo,mk('Bin','Add',field(el,'0'),Int(1)))
            if not(implies(h,want) and implies(want,h) or implies(h,alt) and implies(alt,h)): return False
            ok=True
        return ok
    def peel(s,c):
        while c.op=='Obj' and c.a[1].op=='Call': c=c.a[1]
        return c
    def found(s,g,child):
        """guard atoms stating that the argument place exists"""
        r=0
        lo=field(child,'local')
        for top,bs,leaf in ex_chains(g):
            if len(bs)!=1 or not match(('call','utils::arg_places','_'),s.peel(bs[0].a[0])): continue
            el=mk('Elem',bs[0].a[0],bs[0].a[1])
            if any(implies(leaf,w) and implies(w,leaf) for w in(eqg(mk('Bin','Sub',lo,Int(1)),field(el,'0')),eqg(lo,mk('Bin','Add',field(el,'0'),Int(1))))): r=lor(r,atom(top))
        for t in atoms_in(g):
            if t.op=='Is' and t.a[1]=='Some' and t.a[0].op=='FirstOf': r=lor(r,atom(t))
        return r
    def check(s,key,t,child,isret,site,what,g0=1):
        """t = translation of child; isret: child is rooted in the return place"""
        rep=s.rep; R=s.R
        m=match(('call','PlaceExt::make',('f','?p','local'),'?pr','...'),t)
        if not rep.ok(key+'-place',m is not None,'%s is %s, which is not a caller place'%(what,short(t)),site): return False
        p=m['p']; base=p is s.K.dest if isret else s.arg_of(p,child)
        if not rep.ok(key+'-root',base,'%s starts at %s instead of %s'%(what,short(p),'the destination of the call' if isret else 'the argument at the same position'),site): return False
        pr=m['pr']
        while pr.op=='Call' and last(pr.a[0]) in('mk_place_elems','as_slice','deref','into'): pr=pr.a[-1]
        segs=[(lnorm(R.I,l,True),gnorm(R.I,g,True),R.norm(v,True)) for l,g,v in R.rows(pr)]
        first=segs[0] if segs else None
        okp=first is not None and len(first[0])==1 and first[1]==1 and not first[0][0].cuts and first[0][0].binder.a[0] is R.norm(field(p,'projection'),True) and first[2].op=='Elem' and first[2].a[0] is first[0][0].binder.a[0]
        rep.ok(key+'-prefix',okp,'%s does not start with the path of %s'%(what,'the destination' if isret else 'the argument'),site)
        cov=None; good=True
        cp=R.norm(field(child,'projection'),True)
        for l,g,v in segs[1:]:
            if not rep.ok(key+'-path',len(l)==1 and l[0].binder.a[0] is cp and l[0].kind in('iter','zip'),'%s is extended by something other than the path of the callee place'%what,site): return False
            el=mk('Elem',cp,l[0].binder.a[1])
            whole=v is el
            # elements carried by matching arms: every component comes from the element
            if v.op=='Agg' and last(v.a[0])=='ProjectionElem':
                f=fields_of(v); var=v.a[1]
                whole=implies(g,isv(el,'ProjectionElem',var))
                for k,x in f.items():
                    if x is vfield(el,var,k): 
                        if var=='Field' and k=='1': whole=False
                        continue
                    if var=='Field' and k=='1':
                        whole=whole and not any(y is el for y in walk(x) ) or (whole and only_index(x,el))
                        if not rep.ok(key+'-field-type',s.field_type(x,el,p),'a field of %s is given the type %s, which is not its type in the caller'%(what,short(x)),site): good=False
                        continue
                    whole=False
            elif v is el and not implies(land(g,isv(el,'ProjectionElem','Field')),0): 
                rep.ok(key+'-field-type',False,'a field of %s keeps the type it has in the callee'%what,site); good=False
            if not rep.ok(key+'-step',whole,'%s is extended by %s'%(what,short(v)),site): good=False; continue
            cov=lor(cov or 0,g)
            for c in l[0].cuts: s.private(key,c,el,p,site,what)
        if cov is None and rep.ok(key+'-extended',False,'%s does not include the path of the callee place'%what,site): pass
        if cov is not None:
            cuts=0
            for l,g,v in segs[1:]:
                for c in l[0].cuts: cuts=lor(cuts,c)
            el=mk('Elem',cp,segs[1][0][0].binder.a[1]); need=lnot(cuts)
            need=land(need,isv(el,'ProjectionElem',*TM.ENUMVARS['ProjectionElem']))
            need=land(need,gnorm(R.I,g0,True))
            rep.ok(key+'-whole-path',implies(need,lor(cov,gnorm(R.I,R.pg,True))),'steps of the callee path are left out of %s when %s'%(what,gshow(land(need,lnot(cov)))),site)
        return good
    def field_type(s,x,el,p):
        """x is the type of the field el in the type of the place built so far"""
        R=s.R; idx=vfield(el,'Field','0')
        m=match(('call','PlaceTy::field_ty','_',('f','?t','ty'),('f','?t','variant_index'),idx),x)
        if m is None or m['t'].op!='Prev': return False
        X=m['t']; recs=R.I.prevs.get(X,[])
        if not recs: return False
        for v0,backs in recs:
            for _,a in split(R.norm(v0)):
                if not match(('call','Place::ty','?p',('f',('f',s.K.self,'body'),'local_decls'),'...'),a): return False
            if not backs: return False
            for g,v in backs:
                for h,w in split(R.norm(v,True),gnorm(R.I,g,True)):
                    q=match(('call','PlaceTy::projection_ty',X,'_','?e'),w)
                    if q is None: return False
                    e=q['e']
                    if e.op=='Elem' and land(h,isv(e,'ProjectionElem','Field'))==0: continue
                    f=fields_of(e) if e.op=='Agg' and e.a[1]=='Field' else None
                    if f and match(('call','PlaceTy::field_ty','_',('f',X,'ty'),('f',X,'variant_index'),f['0']),f['1']): continue
                    return False
        return True
    def private(s,key,c,el,p,site,what):
        acc=0
        for t in atoms_in(c):
            if t.op=='Call' and t.a[0].split('::')[-1]=='is_accessible_from' and len(t.a)>=3:
                if t.a[2] is field(s.K.self,'def_id') or 'def_id' in pp(t.a[2]) and any(x is s.K.self for x in walk(t.a[2])): acc=lor(acc,atom(t))
        # a type the caller cannot look into: the type of the place built so far is an alias (impl Trait, unnormalized)
        opq=0
        for t in atoms_in(c):
            k=next((x for x in walk(t) if x.op=='Call' and last(x.a[0])=='kind' and len(x.a)==2 and x.a[1].op=='Field' and x.a[1].a[1]=='ty' and x.a[1].a[0].op=='Prev' and x.a[1].a[0] in s.R.I.prevs),None)
            if k is not None and t.op in('Is','Bit') and t.a[0] is k: opq=lor(opq,is_variant(k,'Alias',t.a[2] if t.op=='Bit' else None))
        s.rep.ok(key+'-private',(acc!=0 or opq!=0) and implies(c,lor(opq,land(isv(el,'ProjectionElem','Field'),lnot(acc)))),'the path of %s is cut although the next field is visible to the caller, when %s'%(what,gshow(c)),site)
def only_index(x,el):
    """the element occurs in x only as the index of a field"""
    idx=vfield(el,'Field','0')
    def go(t):
        if t is idx: return True
        if t is el: return False
        return all(go(y) for y in t.a if isinstance(y,T))
    return go(x)
def terminator_of(t,bb):
    """t is the terminator of block bb"""
    while t.op=='VField' and t.a[1]=='Some': t=t.a[0]
    if t.op=='Call' and t.a[0] in('BasicBlockData::terminator','Body::terminator') or t.op=='Field' and t.a[1]=='terminator': t=t.a[0]
    else: return False
    return t.op=='Elem' and (bb.op in('Elem','Idx') and t.a[0] is bb.a[0] and t.a[1]==bb.a[1] or bb.op=='Field' and bb.a[0] is t) or t.op=='Call' and any(x is bb for x in t.a) or any(x is bb for x in walk(t))
@check('C20','PlaceExt::make, Place::ty, PlaceTy::field_ty and Visibility::is_accessible_from behave as documented.','A callee place is mutated when it has more dependencies than the argument it belongs to had at entry.')
def C20(L,rep):
    rep.rule('The state that is translated is the join over all Return terminators of the callee body of the state at that terminator; for every row of that state rooted in the return place, or in an argument, behind a pointer and mutated: a mutation of (destination | place of the argument at the same position) extended by the row\'s path, field types taken in the caller\'s types, cut only at a field not visible to the caller; Definitely only for the return place; its inputs are the translations of every row whose dependencies are contained in the row\'s and of every argument place whose synthetic location is.')
    K=Call(L,rep); R=K.R; tr=Translate(K,rep)
    flows=[e.ret for e in K.cf if isinstance(e.ret,T)]
    isflow=lambda t: any(t is f for f in flows) or t.op=='Call' and t.a[0].split('::')[-1]=='compute_flow'
    j=[e for e in R.nevents if e.name.endswith('join')]
    if not rep.ok('return-state',bool(j),'the effects of the callee are not collected'): return
    S=j[0].args[0]; cov=0
    for e in j:
        rep.ok('one-state',e.args[0] is S,'the states at the return points are not combined',e.site)
        m=match(('call','AnalysisResults::state_at','?f','?l'),e.args[1])
        if not rep.ok('state-at',m is not None and isflow(m['f']),'something other than a state of the callee is collected: '+short(e.args[1]),e.site): continue
        lt=match(('call','Body::terminator_loc','?b','?bb'),m['l'])
        ok=lt is not None and lt['bb'].op in('Idx','Elem') and 'basic_blocks' in pp(lt['b'] if False else lt['bb'])
        if not rep.ok('at-terminator',ok,'the state is read at '+short(m['l'])+' instead of the end of a block',e.site): continue
        if not rep.ok('every-block',for_all(e.loops,m['l'],Bool(e.guard)),'blocks are skipped',e.site): continue
        el=[t for t in atoms_in(e.guard) if t.op=='Field' and t.a[1]=='kind' and terminator_of(t.a[0],lt['bb'])]
        ir=0
        for t in el: ir=lor(ir,isv(t,'TerminatorKind','Return'))
        if rep.ok('return-blocks',ir!=0,'blocks are not told apart by their terminator',e.site): cov=lor(cov,lor(restrict(e.guard,K.conds) if K.conds else e.guard,lnot(ir))); rep.ok('returns-only',implies(e.guard,ir),'the state of a block that does not return is collected',e.site)
    rep.ok('every-return',implies(K.conds,lor(cov,R.pg)),'the effects at some return points are left out when '+gshow(land(K.conds,lnot(cov))))
    al=S.a[1] if S.op=='Obj' else S
    rep.ok('fresh-state',match(('call',('IndexMatrix::new','FlowDomain::new'),'?d'),al) is not None and any(isflow(x) for x in walk(al)),'effects are collected in a state that is not fresh: '+short(S))
    for e in R.nevents:
        if e.args and e.args[0] is S and e not in j and not e.name.startswith('<'): rep.ok('state-kept',e.name.split('::')[-1] in('rows','row_set','row','fmt','contains','len','join'),'the collected state is changed by '+e.name,e.site)
    if not rep.ok('applied',bool(K.tf),'the effects of the callee are not applied'): return
    for e in K.tf:
        raw=next(x for x in R.events if x.seq==e.seq)
        mutated(K,tr,rep,e,raw.args[2],S,flows)
def is_row(t,S): return t.op=='Elem' and match(('call','IndexMatrix::rows',S),t.a[0]) is not None
def row_of(t,S):
    return t if t.op=='Field' and t.a[1]=='0' and is_row(t.a[0],S) else None
def deps_of(t,S,child,I=None):
    """t is the dependency set of child"""
    if match(('call',('IndexMatrix::row_set','IndexMatrix::row'),S,child),t): return True
    return t.op=='Field' and t.a[1]=='1' and t.a[0] is child.a[0] if child.op=='Field' else False
def unit_of(g,child):
    r=0
    for t in atoms_in(g):
        if match(('call','Ty::is_unit',('f',('call','Place::ty',child,'...'),'ty')),t) or match(('call','Ty::is_unit',('call','Place::ty',child,'...')),t): r=lor(r,atom(t))
    return r
def local_is_ret(g,child):
    r=0
    for t in atoms_in(g):
        if t.op=='Eq' and any(ret_place(y) for y in t.a) and any(y is field(child,'local') for y in t.a): r=lor(r,atom(t))
        if t.op=='Eq' and any(y.op=='Int' and y.a[0]==0 for y in t.a) and any(y is field(child,'local') for y in t.a): r=lor(r,atom(t))
    return r
def callatom(g,names,*args):
    r=0
    for t in atoms_in(g):
        if t.op=='Call' and t.a[0].split('::')[-1] in names and all(any(y is a for y in t.a[1:]) for a in args): r=lor(r,atom(t))
    return r
def mutated(K,tr,rep,e,muts,S,flows):
    R=K.R
    rg=0; ag=0; allg=0; child=None; ok=True
    its=[(lnorm(R.I,l),gnorm(R.I,g),R.norm(v)) for l,g,v in R.rows(muts)]
    raws=R.rows(muts)
    if not rep.ok('mutations',bool(its),'no mutations are made of the effects of the callee',e.site): return
    for (l,g,v),(l0,g0,v0) in zip(its,raws):
        f=fields_of(v) if v.op=='Agg' else {}
        if not rep.ok('mutation',{'mutated','inputs','status'}<=set(f),'the effects of the callee are '+short(v)): continue
        if not rep.ok('row',len(l)>=1 and match(('call','IndexMatrix::rows',S),l[0].binder.a[0]) is not None,'effects are not taken from the collected state'): continue
        if not rep.ok('every-row',all(not x.cuts and x.kind in('iter','zip') for x in l) and len(l)==1,'rows of the collected state are skipped'): continue
        c=field(mk('Elem',l[0].binder.a[0],l[0].binder.a[1]),'0'); child=c
        unit=unit_of(g,c); isret=local_is_ret(g,c)
        ret=isret!=0 and implies(g,isret)
        if not rep.ok('kind',isret!=0 and (ret or implies(g,lnot(isret))),'an effect is not told apart by whether its place is the returned value'): continue
        st=f['status']
        rep.ok('certainty',st.op=='Agg' and (ret or st.a[1]=='Possibly'),'an effect on an argument counts as certain, so what the argument depended on is forgotten' if not ret else 'an effect has status '+short(st))
        m0=f['mutated']
        tr.check('target-'+('return' if ret else 'argument'),R.norm(fields_of(v0)['mutated']) if v0.op=='Agg' else m0,c,ret,e.site,'the mutated place',g)
        if ret: rg=lor(rg,lor(g,unit))
        else:
            ia=callatom(g,('is_arg',),c); ind=callatom(g,('is_indirect',),c)
            rep.ok('argument-only',ia!=0 and implies(g,ia),'an effect on a variable of the callee that is not an argument is applied to the caller')
            rep.ok('behind-pointer',ind!=0 and implies(g,ind),'an effect on the callee\'s own copy of an argument is applied to the caller')
            mut=0
            for t in atoms_in(g):
                if t.op=='Lt' and t.a[0].op=='Int' and t.a[0].a[0] in(0,1) and t.a[1].op=='Len' and deps_of(t.a[1].a[0],S,c): mut=lor(mut,lnot(atom(t)))
                if t.op=='Lt' and t.a[1].op=='Int' and t.a[1].a[0] in(1,2) and t.a[0].op=='Len' and deps_of(t.a[0].a[0],S,c): mut=lor(mut,atom(t))
            rep.ok('only-mutated',mut!=0 and implies(g,lnot(mut)),'an argument the callee only reads counts as mutated',e.site)
            fd=tr.found(g,c)
            ag=lor(ag,lorn(g,unit,lnot(ia) if ia else 0,lnot(ind) if ind else 0,mut,lnot(fd) if fd else 0))
            ag=lor(ag,isret)
        inputs(K,tr,rep,e,fields_of(v0)['inputs'] if v0.op=='Agg' else f['inputs'],c,S,flows,g)
    c=child
    if c is None: return
    rep.ok('every-return-place',rg!=0 and implies(lnot(rg),lnot(isret_any(rg,c))),'effects on the returned value are left out when '+gshow(land(isret_any(rg,c),lnot(rg))))
    rep.ok('every-argument',ag!=0 and ag==1 or implies(1,ag),'effects behind pointer arguments are left out when '+gshow(lnot(ag)))
def isret_any(g,c): return local_is_ret(g,c)
def inputs(K,tr,rep,e,t,child,S,flows,g0):
    R=K.R; rows_=[(lnorm(R.I,l),gnorm(R.I,g),R.norm(v)) for l,g,v in R.rows(t)]
    cov={}
    for l,g,v in rows_:
        rw=[x for x in l if match(('call','IndexMatrix::rows',S),x.binder.a[0])]
        aa=[x for x in l if match(('call','PlaceInfo::all_args','...'),x.binder.a[0])]
        if not rep.ok('input-source',len(l)==1 and (rw or aa),'inputs of an effect are not taken from the places of the callee',e.site): continue
        if not rep.ok('input-every',not l[0].cuts and l[0].kind in('iter','zip'),'places of the callee are skipped as inputs',e.site): continue
        el=mk('Elem',l[0].binder.a[0],l[0].binder.a[1]); q=field(el,'0'); src='row' if rw else 'argument'
        sup=0
        for x in atoms_in(g):
            if x.op!='Call': continue
            n=x.a[0].split('::')[-1]
            if rw and n=='is_superset' and deps_of(x.a[1],S,child) and deps_of(x.a[2],S,q): sup=lor(sup,atom(x))
            if rw and n=='is_subset' and deps_of(x.a[2],S,child) and deps_of(x.a[1],S,q): sup=lor(sup,atom(x))
            if aa and n=='contains' and deps_of(x.a[1],S,child) and x.a[2] is field(el,'1'): sup=lor(sup,atom(x))
        for x in atoms_in(g):
            if aa and x.op=='In?' and deps_of(x.a[0],S,child) and x.a[1] is field(el,'1'): sup=lor(sup,atom(x))
        if not rep.ok('input-contained-'+src,sup!=0 and implies(g,sup),'an input of an effect is a place whose dependencies are not contained in those of the effect',e.site): continue
        unit=unit_of(g,q); isret=local_is_ret(g,q); ret=isret!=0 and implies(g,isret)
        if not tr.check('input-%s-%s'%(src,'return' if ret else 'argument'),v,q,ret,e.site,'an input',g): continue
        ia=callatom(g,('is_arg',),q); fd=tr.found(g,q)
        k=(src,); 
        gg=lorn(g,unit,lnot(sup))
        if not ret: gg=lorn(gg,land(lnot(ia) if ia else 0,lnot(isret)),land(lnot(fd) if fd else 0,lnot(isret)))
        cov[src]=lor(cov.get(src,0),gg)
    for src in('row','argument'):
        c=cov.get(src,0)
        rep.ok('inputs-'+src,c!=0 and implies(g0,lor(c,R.pg)),('callee places contained in an effect' if src=='row' else 'arguments an effect depends on')+' are left out of its inputs when '+gshow(land(g0,lnot(c))),e.site)
