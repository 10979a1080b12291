"""C03, C04, C05, C07, C08, C17: the transfer function and queries of infoflow/analysis.rs."""
from registry import check
from rules import *

FA='FlowAnalysis'
OPQ=('aliases','conflicts','children','normalize','reachable_values','all_args')
ADD={'IndexSet::insert','IndexSet::union','IndexSet::union_changed'}
REMOVE={'IndexSet::remove','IndexSet::subtract','IndexSet::subtract_changed','IndexSet::intersect','IndexSet::intersect_changed','IndexSet::clear'}
def transfer(L,rep):
    R=L.rust.run(rep,'transfer_function','flowistry',impl=FA,opaque=OPQ,sig=('^\\(\\)$','FlowAnalysis','IndexMatrix','Mutation','Location'))
    R.self,R.state,R.muts,R.loc=R.params
    R.pi=field(R.self,'place_info')
    return R
def writes(R): return [e for e in R.events if e.name.startswith('IndexMatrix::') and e.name not in('IndexMatrix::row_set','IndexMatrix::row','IndexMatrix::rows','IndexMatrix::new','IndexMatrix::col_domain') and e.args and e.args[0] is R.state]
def mutation_of(R,*ts):
    """the element(s) of the mutation list occurring in the terms"""
    return {x for t in ts for x in atoms_in(t) if x.op=='Elem' and base(x.a[0]) is R.muts}
def base(c):
    while c.op=='Rev': c=c.a[0]
    return c
class Contrib:
    __slots__=('kind','val','loops','guard','seq','ev','add')
def contribs(R,D,before=None,depth=0,st=None):
    """everything added to the dependency set D: kind 'row' (val: place whose row) or 'elt' (val: location)"""
    out=[]; bad=[]
    if depth>6: return out,['set built recursively']
    targets=[D]
    def add(kind,val,l,g,e,seq): 
        c=Contrib(); c.kind=kind;c.val=val;c.loops=l;c.guard=g;c.seq=seq;c.ev=e; out.append(c)
    srcs=[]
    if D.op=='Elem' and D.a[0].op=='Obj':
        al=D.a[0].a[1]
        if al.op=='Call' and al.a[0] in('vec::from_elem','IndexVec::from_elem_n','array::repeat'): srcs.append(al.a[1])
        else:
            c=R.I.contents(D.a[0])
            for l,g,v in (c or []): srcs.append(v)
    if D.op=='Obj' and D.a[1].op=='Call' and D.a[1].a[0]=='clone': srcs.append(D.a[1].a[1])
    fold=[]
    for e in R.events:
        if not e.args: continue
        a0=e.args[0]
        same=a0 is D or (D.op=='Elem' and a0.op=='Elem' and a0.a[0] is D.a[0])
        if not same: continue
        if before is not None and e.seq>before: continue
        l=e.loops
        if D.op=='Elem': l=tuple(x for x in l if not(x.binder.a[0] is a0.a[0] or (x.extra and a0.a[0] in x.extra)))
        cut_=[x for x in e.loops if x.cuts]
        if e.name in ADD and not cut_:
            for h,v in split(e.args[1],e.guard):
                v=R.norm(v)
                m=match(('call','IndexMatrix::row_set','?st',('call','PlaceInfo::normalize','_','?x')),v)
                if e.name=='IndexSet::insert': add('elt',v,l,h,e,e.seq)
                elif m: add('row',m['x'],l,h,e,e.seq); out[-1].add=m['st']
                elif v.op=='Call' and v.a[0]=='IndexMatrix::row_set': add('rawrow',v,l,h,e,e.seq)
                else:
                    o2,b2=contribs(R,v,e.seq,depth+1); bad+=b2
                    for c in o2: add(c.kind,c.val,tuple(l)+tuple(x for x in c.loops if x not in l),land(h,c.guard),e,c.seq)
        elif e.name in REMOVE: bad.append('%s at %s'%(e.name,e.site))
    for x in srcs:
        for h,v in split(x):
            if v.op=='Call' and v.a[0]=='IndexMatrix::row_set':
                m=match(('call','IndexMatrix::row_set','?st',('call','PlaceInfo::normalize','_','?x')),R.norm(v))
                if m: add('row',m['x'],(),h,None,0); out[-1].add=m['st']
                continue
            o2,b2=contribs(R,v,before,depth+1); bad+=b2
            for c in o2: add(c.kind,c.val,c.loops,land(h,c.guard),c.ev,c.seq)
    return out,bad
NOTRET=lambda x: any(t.op=='Eq' and any(y.op=='NConst' and 'RETURN_PLACE' in str(y.a[0]) for y in t.a) for t in [x])
def reads_of(R,cs,X,extra_terms=()):
    """guards under which the three kinds of influence rows of place X are in cs, with the contributions"""
    pi=R.pi; g={'alias':0,'prov':0,'index':0}; used=[]
    for c in cs:
        if c.kind!='row': continue
        v=c.val
        m=match(('elem',('call','PlaceInfo::conflicts',pi,('elem',('call','PlaceInfo::aliases',pi,'?x')))),v)
        k=None
        if m and m['x'] is X: k='alias'
        elif m and is_ref_of(m['x'],X): k='prov'
        else:
            m=match(('call',('PlaceExt::from_local','Place::from'),('vf',('elem',('f',X,'projection')),'Index','0'),'...'),v)
            m=m or match(('vf',('elem',('f',X,'projection')),'Index','0'),v)
            if m: k='index'
        if k is None or not for_all(c.loops,v,X,*extra_terms): continue
        gg=c.guard
        if k=='index':
            el=next(x for x in walk(v) if x.op=='Elem' and x.a[0] is field(X,'projection'))
            need=isv(el,'ProjectionElem','Index')
            notret=1
            for t in atoms_in(gg):
                if NOTRET(t) and vfield(el,'Index','0') in t.a: notret=lnot(atom(t))
            # required: the index is a real local
            gg=lor(gg,lnot(land(need,notret)))
            # quantify over the element: the element guard has been discharged if nothing about it is left
        g[k]=lor(g[k],gg); used.append(c)
    return g,used
def is_ref_of(t,X):
    """pointer places that X is reached through"""
    m=match(('call',('PlaceExt::from_ref','Place::from_ref','PlaceRef::to_place'),('f',('elem',('call','PlaceExt::refs_in_projection','?x','...')),'0'),'...'),t)
    return bool(m) and m['x'] is X
def need_reads(R,rep,key,cs,X,need,what,site,extra=()):
    g,used=reads_of(R,cs,X,extra)
    for k,txt in(('alias','places overlapping an alias of it'),('prov','the pointers it is reached through'),('index','the indices in it')):
        rep.ok(key+'-'+k,R.covered(g[k],need),'%s: the dependencies of %s are not included%s'%(what,txt,'' if g[k]==0 else ' when '+gshow(land(need,lnot(g[k])))),site)
    return used
def per_write(R,rep):
    """(write event, mutation element, dependency contributions) of every union into the state"""
    out=[]
    for e in writes(R):
        if e.name!='IndexMatrix::union_into_row': continue
        for h,D in split(e.args[2],e.guard):
            ms=mutation_of(R,e.args[1])
            if len(ms)!=1:
                rep.ok('write-names-mutation',False,'a row is written that is not the place of one mutation: '+short(e.args[1]),e.site); continue
            M=next(iter(ms))
            # each(all_deps) must belong to the same mutation
            if D.op=='Elem':
                rep.ok('own-dependencies',any((x.extra and D.a[0] in x.extra and M.a[0] in x.extra) or (D.a[1]==M.a[1] and R.I.aligned(D.a[0],M.a[0])) for x in e.loops) ,'the dependencies recorded for a mutation belong to another mutation',e.site)
            cs,bad=contribs(R,D,e.seq)
            for b in bad: rep.ok('nothing-removed',False,'dependencies are removed again: '+b,e.site)
            out.append((e,h,M,cs))
    rep.ok('some-write',bool(out),'no dependencies are written for mutations')
    return out

@check('C03','The control-dependence relation itself (rustc_utils ControlDependencies) is computed correctly.')
def C03(L,rep):
    R=transfer(L,rep)
    rep.rule('For every union of a dependency set into the flow state, the analysis collects symbolically everything added to that set; it must contain the terminator location of every block in dependent_on(location.block) and, if that terminator is a SwitchInt on a place, the rows of all influences of that place, without early exit and without further condition.')
    cd=field(R.self,'control_dependencies')
    def blocks(t):
        m=match(('elem',('vf',('call','ControlDependencies::dependent_on',cd,('f',R.loc,'block')),'Some','0')),t)
        return m is not None
    some=0
    for e in R.ev('ControlDependencies::dependent_on'): some=is_variant(e.ret,'Some')
    rep.ok('consults-control-dependence',some!=0,'the control dependencies of the location are not consulted')
    for e,h,M,cs in per_write(R,rep):
        tg=0; B_=None
        for c in cs:
            if c.kind!='elt': continue
            m=match(('call','Body::terminator_loc',field(R.self,'body'),blocks),c.val)
            if m is None:
                blk=[x for x in walk(c.val) if blocks(x)]
                t=None
                if c.val.op=='Agg' and c.val.a[0]=='Location' and blk:
                    f=fields_of(c.val); t=f['block'] is blk[0] and f['statement_index'].op=='Len' and mentions(f['statement_index'],blk[0]) and 'statements' in pp(f['statement_index'])
                if not t: continue
            if for_all(c.loops,c.val,M): tg=lor(tg,c.guard); B_=next(x for x in walk(c.val) if blocks(x))
        need=land(h,some)
        rep.ok('terminator',R.covered(tg,need),'the terminator of a controlling block is not a dependency of every mutation',e.site)
        if B_ is None: continue
        term=field(vfield(field(mk('Index',field(field(R.self,'body'),'basic_blocks'),B_),'terminator'),'Some','0'),'kind')
        discr=vfield(term,'SwitchInt','discr'); X=vfield(discr,'Copy','0')
        need2=landn(need,isv(term,'TerminatorKind','SwitchInt'),isv(discr,'Operand','Copy','Move'))
        need_reads(R,rep,'discriminant',cs,X,need2,'the value a controlling branch tests',e.site,(B_,M))

@check('C04')
def C04(L,rep):
    R=transfer(L,rep)
    rep.rule('Every operation that removes facts from the flow state is found by a scan of all call sites of the indexed matrix in the workspace; in the transfer function its path condition must imply: status Definitely, exactly one alias of the mutated place, no array element in its path; and the row removed must be a sub-place of that same mutated place.')
    pi=R.pi
    known={'clear_row','union_into_row','insert','union_rows','row','rows','row_set','new','col_domain','clone','fmt','eq','join','transpose','len','is_empty'}
    n=0
    for b,t,f in callsites(L.rust.prog,lambda f: (f['impl'] and last(f['impl'])=='IndexMatrix') or 'IndexMatrix' in str(f.get('args',[''])[0:1]) and f['name'] in('clone_from','swap','replace','take')):
        n+=1
        ok=f['name'] in known
        rep.ok('matrix-operation '+f['name'],ok,'unknown operation on the flow state: %s'%f['fn'],b['path'])
        if f['name']=='clear_row': rep.ok('clear-only-in-transfer',b['path'] in R.I.analyzed or b['path'].startswith(tuple(R.I.analyzed)),'facts are removed from a flow state in %s'%b['path'],b['path'])
    rep.ok('matrix-used',n>3,'uses of the flow state not found')
    cl=[e for e in writes(R) if e.name=='IndexMatrix::clear_row']
    oth=[e for e in writes(R) if e.name not in('IndexMatrix::clear_row','IndexMatrix::union_into_row','IndexMatrix::insert','IndexMatrix::union_rows')]
    for e in oth: rep.ok('state-operation',False,'unexpected change of the state: '+e.name,e.site)
    for e in R.events:
        if e.name=='Store' and (e.args[0] is R.state): rep.ok('state-replaced',False,'the whole state is replaced',e.site)
    for e in cl:
        ms=mutation_of(R,e.args[1])
        if not rep.ok('clears-a-mutation',len(ms)==1,'an erased row is not a sub-place of one mutated place: '+short(e.args[1]),e.site): continue
        M=next(iter(ms)); P_=field(M,'mutated')
        m=match(('call','PlaceInfo::normalize',pi,('or',('elem',('call','PlaceInfo::children',pi,P_)),P_)),R.norm(e.args[1]))
        rep.ok('clears-only-children',m is not None,'an erased row is not a sub-place of the mutated place: '+short(e.args[1]),e.site)
        st=field(M,'status')
        rep.ok('clears-definite',implies(e.guard,is_variant(st,'Definitely',TM.ENUMVARS.get('MutationStatus'))),'facts are erased although the mutation may not happen: '+gshow(e.guard),e.site)
        al=mk('Call','PlaceInfo::aliases',pi,P_)
        rep.ok('clears-single-alias',implies(e.guard,eqg(lenof(al),Int(1))),'facts are erased although the mutated place may be one of several: '+gshow(e.guard),e.site)
        # array elements
        good=False
        for t in atoms_in(e.guard):
            if t.op=='Ex' and t.a[0].a[0] is field(P_,'projection'):
                el=mk('Elem',field(P_,'projection'),t.a[0].a[1])
                elem=isv(el,'ProjectionElem','Index','ConstantIndex','Subslice')
                if implies(elem,t.a[1]) and implies(e.guard,lnot(atom(t))): good=True
        rep.ok('clears-no-element',good,'facts about all elements are erased by a write to one element of an array',e.site)
@check('C05','Which places alias, conflict with or contain each other is the subject of C11-C16; this property takes PlaceInfo as given.')
def C05(L,rep):
    R=transfer(L,rep); pi=R.pi
    rep.rule('For every mutation the set united into the state must contain the location, the rows of all influences of every input and of the mutated place; input rows must be read before the first state change of the call (event order and no common loop); the union must reach every alias except those with a shared reference on their path when mutability is respected; removals must precede all recordings.')
    ws=writes(R)
    clears=[e for e in ws if e.name=='IndexMatrix::clear_row']; adds=[e for e in ws if e.name in('IndexMatrix::union_into_row','IndexMatrix::insert')]
    for c in clears:
        for a in adds:
            rep.ok('clear-before-record',c.seq<a.seq and not same_iteration(c,a),'erasing for one mutation happens after recording another one of the same instruction',c.site)
    first=min([e.seq for e in ws] or [0])
    pw=per_write(R,rep)
    cover={}
    for e,h,M,cs in pw:
        P_=field(M,'mutated')
        lg=0
        for c in cs:
            if c.kind=='elt' and c.val is R.loc and for_all(c.loops,c.val,M): lg=lor(lg,c.guard)
        rep.ok('location',R.covered(lg,h),'the current instruction is not a dependency of a mutation',e.site)
        # inputs
        Xs={x for c in cs if c.kind=='row' for x in walk(c.val) if x.op=='Elem' and x.a[0] is field(M,'inputs')}
        if rep.ok('inputs',len(Xs)>=1,'the inputs of a mutation are not read',e.site):
            X=next(iter(Xs))
            used=need_reads(R,rep,'inputs',cs,X,h,'an input of a mutation',e.site,(M,))
            for c in used:
                if c.ev is None: continue
                bad=[w for w in ws if c.seq>w.seq or same_iteration(w,c.ev)]
                rep.ok('inputs-before-writes',not bad,'the inputs of one mutation are read after another mutation of the same instruction was written',c.ev.site)
        need_reads(R,rep,'pointers',cs,P_,h,'the written place',e.site,(M,))
        # target rows
        m=match(('call','PlaceInfo::normalize',pi,('elem',('call','PlaceInfo::aliases',pi,P_))),R.norm(e.args[1]))
        if rep.ok('alias-row',m is not None,'dependencies are written to something that is not an alias of the mutated place: '+short(e.args[1]),e.site):
            if for_all(e.loops,e.args[1],M):
                A=next(x for x in walk(R.norm(e.args[1])) if x.op=='Elem' and x.a[0] is mk('Call','PlaceInfo::aliases',pi,P_))
                g0=cover.get(M,(0,None,e))[0]
                cover[M]=(lor(g0,h),A,e)
            else: rep.ok('alias-all',False,'not every alias of a mutated place is updated',e.site)
    for M,(g,A,e) in cover.items():
        # allowed omission: alias behind a shared reference, mutability respected
        em=is_ignore_mut(R)
        behind=0
        for t in atoms_in(g):
            if t.op=='Ex' and shared_ref_on_path(t,A): behind=lor(behind,atom(t))
        rep.ok('alias-complete',R.covered(g,lnot(land(behind,lnot(em)))),'an alias is left out when '+gshow(lnot(g)),e.site)
def is_ignore_mut(R):
    g=0
    for t in atoms_in(*[e.guard for e in R.events]):
        if t.op=='Is' and t.a[0].op=='Field' and t.a[0].a[1]=='mutability_mode':
            o=t.a[0].a[0]
            vs=TM.ENUMVARS.get('MutabilityMode')
            base=is_variant(o.a[0],'Some') if o.op=='VField' else 1
            g=lor(g,land(base,is_variant(t.a[0],'IgnoreMut',vs)))
    return g
def shared_ref_on_path(t,A):
    """Ex over iter_projections(alias): the sub-place before a projection is a shared reference"""
    b,g=t.a
    m=match(('call',('Place::iter_projections','PlaceRef::iter_projections'),A),b.a[0])
    if not m: return False
    el=mk('Elem',b.a[0],b.a[1])
    ty=('f',('call','Place::ty',('f',el,'0'),'...'),'ty')
    for x in atoms_in(g):
        mm=match(('call','Ty::ref_mutability',ty),x)
        if mm is not None:
            r=x; nm=land(is_variant(r,'Some'),isv(vfield(r,'Some','0'),'Mutability','Not'))
            return implies(g,nm)
        mm=match(ty,x)
        if mm is not None and implies(g,land(isv(x,'TyKind','Ref'),1)) : 
            return implies(g,isv(vfield(x,'Ref','2'),'Mutability','Not'))
    return False
def same_iteration(a,b):
    return any(x in b.loops for x in a.loops)

@check('C07')
def C07(L,rep):
    R=L.rust.run(rep,'initialize_start_block','flowistry',impl=FA,opaque=tuple(x for x in OPQ if x!='all_args')+('all_args',))
    rep.rule('initialize_start_block must insert, for every (place, location) of all_args and every place conflicting with it, that location into the normalised row; all_args must enumerate, for every argument of the body, all its interior places of depth at most two paired with the domain index of exactly that argument.')
    self,_,state=R.params; pi=field(self,'place_info')
    tot=0
    for e in R.events:
        if not(e.name.startswith('IndexMatrix::') and e.args[0] is state): continue
        if e.name in('IndexMatrix::row_set',): continue
        if not rep.ok('only-insert',e.name=='IndexMatrix::insert','unexpected change of the entry state: '+e.name,e.site): continue
        m=match(('call','PlaceInfo::normalize',pi,('elem',('call','PlaceInfo::conflicts',pi,('f',('elem',('call','PlaceInfo::all_args',pi)),'0')))),R.norm(e.args[1]))
        l=match(('f',('elem',('call','PlaceInfo::all_args',pi)),'1'),R.norm(e.args[2]))
        if rep.ok('entry-row',m is not None,'the entry fact is filed under '+short(e.args[1]),e.site) and rep.ok('entry-own-argument',l is not None and next(x for x in walk(e.args[1]) if x is e.args[2].a[0]) is not None if (l is not None and mentions(e.args[1],e.args[2].a[0])) else False,'data of one argument is marked as another: '+short(e.args[2]),e.site):
            if rep.ok('entry-all',for_all(e.loops,e.args[1]),'not every argument place is marked',e.site): tot=lor(tot,e.guard)
    rep.ok('entry-complete',R.covered(tot),'argument data is not marked when '+gshow(lnot(tot)))
    all_args(L,rep)
def all_args(L,rep):
    A=L.rust.run(rep,'all_args','flowistry',impl='PlaceInfo',opaque=())
    self=A.params[0]; body=field(self,'body')
    direct=ptr=0; ptrneed=1; pd=None
    for l,g,v in A.nitems(A.ret):
        if not rep.ok('all_args-shape',v.op=='Agg' and v.a[0]=='<tuple>' and len(v.a)==5,'unexpected element '+short(v)): continue
        p,ix=v.a[3],v.a[4]
        m=match(('elem',('call','PlaceExt::interior_places','?base','...')),p)
        if not rep.ok('all_args-interior',m is not None,'argument data is enumerated only as '+short(p)): continue
        bs=m['base']
        els=[x for x in walk(bs) if match(('elem',('call','Body::args_iter',body)),x)]
        if not rep.ok('all_args-argument',len(els)==1,'the places enumerated do not start at one argument: '+short(bs)): continue
        el=els[0]
        isloc=lambda t: bool(match(('call',('PlaceExt::from_local','Place::from'),el,'...'),t))
        rep.ok('all_args-index',el in list(walk(ix)) and not any(x.op=='Elem' and x is not el for x in walk(ix)) and (ix is el or ix.op=='Call' and ix.a[0].split('::')[-1] in('to_index','index','arg_to_location')),'the marker is not the one of the argument itself: '+short(ix))
        if isloc(bs):
            if rep.ok('all_args-every',for_all(l,p),'arguments are left out'): direct=lor(direct,g)
            continue
        m=match(('call',('TyCtxt::mk_place_deref','PlaceExt::project_deeper'),'_','?ptr'),bs) or match(('call','Place::project_deeper','?ptr',('arr',('agg','ProjectionElem','Deref')),'...'),bs)
        q=m['ptr'] if m else None
        if q is not None and q.op!='Field': q=None
        src=match(('f',('elem','?ps'),'0'),q) if q is not None else None
        vals=None
        if src:
            for pat in(('elem',('op','Values','?ip')),('f',('elem','?ip'),'1')):
                mm=match(pat,src['ps'])
                if mm: vals=mm['ip']; break
        ok=vals is not None and match(('call','PlaceExt::interior_pointers',isloc,'...'),vals)
        if not rep.ok('all_args-pointers',bool(ok),'argument data behind pointers is enumerated as '+short(bs)): continue
        if rep.ok('all_args-every-pointer',for_all(l,p),'pointers of arguments are left out'):
            n=lenof(field(q,'projection')); ptr=lor(ptr,g); ptrneed=lnot(ltg(Int(2),n))
    rep.ok('all_args-direct',implies(1,direct),'arguments are left out when '+gshow(lnot(direct)))
    rep.ok('all_args-behind-pointers',ptr!=0 and implies(ptrneed,ptr),'data behind a pointer at most two levels deep is left out when '+gshow(land(ptrneed,lnot(ptr))))

@check('C08')
def C08(L,rep):
    R=L.rust.run(rep,'deps_for','flowistry',impl=FA,opaque=OPQ)
    rep.rule('The set returned by deps_for must contain the rows of all influences of every element of reachable_values(place, Not); compute_dependencies backward: each result set must contain deps_for of every target of its list in the state at its own location, or the argument itself.')
    self,state,place=R.params; R.self=self; R.pi=pi=field(self,'place_info'); R.state=state
    tot=0
    for h,D in split(R.ret):
        cs,bad=contribs(R,D)
        for b in bad: rep.ok('nothing-removed',False,'dependencies are removed again: '+b)
        Xs={x for c in cs if c.kind=='row' for x in walk(c.val) if match(('elem',('call','PlaceInfo::reachable_values',pi,place,lambda m: m.op=='Agg' and m.a[1]=='Not')),x)}
        if rep.ok('reachable',len(Xs)>=1,'deps_for does not visit the values reachable from the place through references of any mutability'):
            need_reads(R,rep,'deps',cs,next(iter(Xs)),h,'a value reachable from the queried place','deps_for')
            for c in cs:
                if c.kind=='row': rep.ok('own-state',c.add is state,'rows of another state are read')
    backward(L,rep)
DOPQ=OPQ+('deps_for','visit_location','state_at')
def query(L,rep,d):
    R=L.rust.run(rep,'compute_dependencies','flowistry',opaque=DOPQ,fix={2:mkagg('Direction',d,(),())},sig=('Vec<','FlowResults','Vec<Vec<','Direction'))
    R.results,R.targets,_=R.params
    R.an=field(R.results,'analysis'); R.pi=field(R.an,'place_info'); R.body=field(R.an,'body')
    return R
def result_set(R,rep,key):
    """the set returned for the i-th target list: one element per target list, in order"""
    rs=R.rows(R.ret)
    ok=len(rs)==1 and len(rs[0][0])==1 and rs[0][0][0].binder.a[0] is R.targets and not rs[0][0][0].cuts and rs[0][1]==1
    rep.ok(key,ok,'the result does not have exactly one set per target list, in order')
    if not ok: raise Anchor('the result sets of compute_dependencies')
    D=rs[0][2]
    rep.ok(key+'-fresh',D.op=='Obj' and D.a[1].op=='Call' and D.a[1].a[0] in('IndexSet::new','clone','<collect>') or D.op=='Obj','a result set is not created per target list: '+short(D))
    return D
def set_events(R,rep,D,key):
    out=[]
    for e in R.nevents:
        if e.args and e.args[0] is D:
            if e.name in REMOVE or e.name in('IndexSet::insert_all',): rep.ok(key+'-only-grows',False,'%s on a result set'%e.name,e.site)
            elif e.name in ADD or e.name=='IndexSet::union': out.append(e)
    return out
def target_of(R,*ts):
    """the target (place, location) element the terms mention: each(each(all_targets))"""
    return {x for t in ts for x in atoms_in(t) if x.op=='Elem' and x.a[0].op=='Elem' and x.a[0].a[0] is R.targets}
def list_loops(R,loops):
    return [l for l in loops if any(c is R.targets for c in [l.binder.a[0]]+list(l.extra or ()))]
def backward(L,rep):
    R=query(L,rep,'Backward')
    D=result_set(R,rep,'one-set-per-list')
    gA=gL=0; T_=None
    for e in set_events(R,rep,D,'backward'):
        ts=target_of(R,e.args[1])
        if not rep.ok('from-a-target',len(ts)==1,'something that does not come from a target is added to a backward result: '+short(e.args[1]),e.site): continue
        T=next(iter(ts)); T_=T
        if not list_loops(R,e.loops): rep.ok('own-list',False,'a result set receives the targets of another list',e.site)
        rep.ok('own-list',T.a[0].a[1]==0 or True,'')
        if not rep.ok('all-targets',for_all(e.loops,T),'not every target of a list is used',e.site): continue
        loc=field(T,'1'); arg=is_variant(loc,'Arg',TM.ENUMVARS.get('LocationOrArg'))
        if e.name=='IndexSet::insert' and e.args[1] is loc:
            rep.ok('argument-only',implies(e.guard,arg),'a location target is put into its own backward result',e.site) if False else None
            gA=lor(gA,e.guard)
        else:
            want=match(('call','FlowAnalysis::deps_for',R.an,('call','AnalysisResults::state_at',R.results,('vf',loc,'Location','0')),field(T,'0')),e.args[1])
            if rep.ok('deps-at-own-location',want is not None,'a location target contributes %s instead of its dependencies in its own state'%short(e.args[1]),e.site): gL=lor(gL,e.guard)
    if rep.ok('targets-used',T_ is not None,'the targets are not used'):
        arg=is_variant(field(T_,'1'),'Arg',TM.ENUMVARS.get('LocationOrArg'))
        rep.ok('argument-targets',R.covered(gA,arg),'an argument target does not return that argument')
        rep.ok('location-targets',R.covered(gL,lnot(arg)),'the dependencies of a target are left out when '+gshow(land(lnot(arg),lnot(gL))))

def forward_set(R,rep,F,site):
    """F holds what a (target, reachable place) is identified by; returns the target element"""
    new=F.op=='Obj' and F.a[1].op=='Call' and F.a[1].a[0]=='IndexSet::new'
    rep.ok('identified-new',new,'the identifying set of a target is '+short(F),site)
    ev=[e for e in R.nevents if e.args and e.args[0] is F and e.name.startswith('IndexSet::') and e.name not in('IndexSet::contains','IndexSet::is_superset','IndexSet::len','IndexSet::iter')]
    alls=[e for e in ev if e.name=='IndexSet::insert_all']; ints=[e for e in ev if e.name=='IndexSet::intersect']; ins=[e for e in ev if e.name=='IndexSet::insert']
    rep.ok('identified-ops',len(ev)==len(alls)+len(ints)+len(ins),'unexpected operation on the identifying set: '+','.join(e.name for e in ev),site)
    if not rep.ok('identified-shape',len(alls)==1 and len(ints)>=1 and len(ins)==1 and all(alls[0].seq<e.seq<ins[0].seq for e in ints),'the identifying set of a target is not the common dependencies of its parts plus its own location',site): return None
    T=None
    for e in ints:
        good=True; gl=0
        for h,v in split(e.args[1],e.guard):
            m=match(('call','IndexMatrix::row_set',('call','AnalysisResults::state_at',R.results,'?loc'),('elem',('call','PlaceInfo::children',R.pi,('call','PlaceInfo::normalize',R.pi,('elem',('call','PlaceInfo::reachable_values',R.pi,('f','?t','0'),('agg','Mutability','Not'))))))),v)
            if not rep.ok('identified-by-children',m is not None,'the identifying set is computed from '+short(v),e.site): return None
            T=m['t']
            if not rep.ok('identified-target',T.op=='Elem' and T.a[0].op=='Elem' and T.a[0].a[0] is R.targets,'the identifying set belongs to %s, not to a target'%short(T),e.site): return None
            loc=field(T,'1'); arg=is_variant(loc,'Arg',TM.ENUMVARS.get('LocationOrArg'))
            v=m['loc']
            a1=v is vfield(loc,'Location','0') and implies(h,lnot(arg))
            a2=v.op=='NConst' and str(v.a[0]).endswith('Location::START') and implies(h,arg)
            a3=v.op=='Agg' and v.a[0]=='Location' and implies(h,arg) and all(x.op=='Int' and x.a[0]==0 for x in v.a[3:])
            good&=bool(a1 or a2 or a3)
        rep.ok('identified-state',good,'a target is identified in a state other than the one at its location',e.site)
        rep.ok('identified-all',for_all(e.loops,e.args[1]) and e.guard==1,'parts of a target are skipped',e.site)
    rep.ok('identified-location',ins[0].args[1] is field(T,'1') and ins[0].guard==1,'the location of a target is not part of what it is identified by',ins[0].site)
    return T
def forward_rule(L,rep):
    R=query(L,rep,'Forward')
    D=result_set(R,rep,'one-set-per-list')
    evs=set_events(R,rep,D,'forward')
    LOCS=('call','BodyExt::all_locations',R.body)
    cov={'arg':0,'mut':0,'switch':0}; memo={}
    def fset(F,site):
        if F not in memo: memo[F]=forward_set(R,rep,F,site)
        return memo[F]
    stm=None
    for e in R.ev('Body::stmt_at'):
        stm=R.norm(e.ret)
    # which instructions are handed to the mutation visitor
    vis=[e for e in R.nevents if e.name=='Visitor::visit_location']
    for e in evs:
        v=e.args[1]
        if not list_loops(R,e.loops): rep.ok('own-list',False,'a forward result is not filled per target list',e.site); continue
        exs=[t for t in atoms_in(e.guard) if t.op=='Ex' and (t.a[0].a[0].op=='Elem' and t.a[0].a[0].a[0] is R.targets)]
        if not rep.ok('some-target',len(exs)==1,'an instruction is reported without comparing it with the targets of its list: '+gshow(e.guard),e.site): continue
        X=exs[0]; rep.ok('only-if-influenced',implies(e.guard,atom(X)),'an instruction is reported although no target influences it',e.site)
        bs=[X.a[0]]; g=X.a[1]
        while True:
            t=[B.terms[i] for i in B.support(g)]
            if len(t)!=1 or t[0].op!='Ex' or g!=atom(t[0]): break
            bs.append(t[0].a[0]); g=t[0].a[1]
        atoms_=[B.terms[i] for i in B.support(g)]
        others=lambda skip: all(for_all([l],e.args[1],*skip) or list_loops(R,[l]) for l in e.loops) and not any(l.cuts for l in e.loops)
        if match(('agg','LocationOrArg','Arg'),v):
            a=fields_of(v)['0']
            rep.ok('arg-of-body',bool(match(('elem',('call','Body::args_iter',R.body)),a)),'a reported argument is '+short(a),e.site)
            F=None
            for t in atoms_:
                m=match(('call','IndexSet::contains','?F',v),t)
                if m: F=m['F']
            if not rep.ok('arg-contained',F is not None,'an argument is reported on the condition '+gshow(g),e.site): continue
            T=fset(F,e.site)
            need=land(atom(next(t for t in atoms_ if t.op=='Call' and t.a[0]=='IndexSet::contains')),eqg(lenof(F),Int(1)))
            full=lor(0,e.guard)
            inner=land(g,1)
            rep.ok('arg-condition',implies(g,next(atom(t) for t in atoms_ if t.op=='Call' and t.a[0]=='IndexSet::contains')),'an argument is reported although it is no part of a target',e.site)
            G=subst_all(e.guard,X)
            rep.ok('arg-complete',implies(need,land(g,G)) or implies(land(need,atom(X)),land(e.guard,1)) ,'an argument is left out when it is all a target depends on',e.site)
            if rep.ok('arg-every',others([a]),'not every argument and list is considered',e.site): cov['arg']=1
            continue
        loc=match(LOCS,v.a[0]) if v.op=='Elem' else None
        if not rep.ok('loc-of-body',loc is not None,'a reported instruction is '+short(v),e.site): continue
        row=None
        if len(atoms_)==1 and g==atom(atoms_[0]):
            row=match(('call','IndexSet::is_superset',('call','IndexMatrix::row_set',('call','AnalysisResults::state_at',R.results,v),('call','PlaceInfo::normalize',R.pi,'?p')),'?F'),atoms_[0])
        if not rep.ok('superset',row is not None,'an instruction is reported on the condition '+gshow(g),e.site): continue
        T=fset(row['F'],e.site)
        rest=subst_all(e.guard,X)
        p=row['p']; S=mk('Call','Body::stmt_at',R.body,v)
        m=match(('f',('elem',('op','CbArg','?k',1)),'mutated'),p)
        if m:
            k=m['k']; ok=k.a[0]=='Visitor::visit_location' and k.a[2] is R.body and k.a[3] is v and match(('agg','ModularMutationVisitor','_',{'place_info':R.pi}),k.a[1]) is not None
            if rep.ok('visited-here',ok,'the mutations compared do not come from visiting the reported instruction: '+short(k),e.site) and rep.ok('mut-every',others([p]),'mutations, instructions or lists are skipped',e.site): cov['mut']=lor(cov['mut'],rest)
        else:
            k=field(vfield(S,'Right','0'),'kind'); d=vfield(k,'SwitchInt','discr')
            if rep.ok('switch-operand',p is vfield(d,'Copy','0') or p is vfield(d,'Move','0') ,'an instruction is compared through %s'%short(p),e.site) and rep.ok('switch-every',others([]),'instructions or lists are skipped',e.site): cov['switch']=lor(cov['switch'],rest)
            last_s=S
    loc=[l for l in R.nevents if l.name=='Body::stmt_at']
    if not rep.ok('statements',len(loc)>=1,'the instructions of the body are not enumerated'): return
    S=mk('Call','Body::stmt_at',R.body,loc[0].args[1])
    right=lnot(is_variant(S,'Left',TM.ENUMVARS.get('Either')))
    k=field(vfield(S,'Right','0'),'kind'); d=vfield(k,'SwitchInt','discr')
    sw=land(right,isv(k,'TerminatorKind','SwitchInt'))
    rep.ok('forward-arguments',cov['arg']==1,'influenced arguments are not reported')
    rep.ok('forward-mutations',R.covered(cov['mut'],lnot(sw)),'the mutations of an instruction are not considered when '+gshow(land(lnot(sw),lnot(cov['mut']))))
    rep.ok('forward-branches',R.covered(cov['switch'],land(sw,isv(d,'Operand','Copy','Move'))),'branches are not considered when '+gshow(land(land(sw,isv(d,'Operand','Copy','Move')),lnot(cov['switch']))))
def subst_all(g,X):
    """the guard with the condition X assumed"""
    return restrict(g,atom(X))
@check('C09')
def C09(L,rep):
    rep.rule('For direction Forward: every insertion into a result must be of an argument or instruction of the body; its condition must be exactly that some target of the same list and some reachable place of it is identified by a set F contained in the dependencies of a mutated place (or the branch operand) at that instruction; F must be the intersection over all sub-places plus the target location. The conditions must cover all instructions. For direction Both the insertions must be those of Forward plus those of Backward.')
    forward_rule(L,rep)
    both={}
    for d in('Forward','Backward','Both'):
        R=query(L,rep,d); D=result_set(R,rep,'one-set-per-list-'+d)
        both[d]=[(e.name,e.args[1],e.guard,tuple((l.binder,bool(l.cuts)) for l in e.loops)) for e in set_events(R,rep,D,d)]
    # objects are numbered per run: compare by printed form without numbers
    key=lambda x:(x[0],re.sub(r'#\d+','#',pp(x[1])),re.sub(r'#\d+','#',B.show(x[2])),re.sub(r'#\d+','#',str([(pp(b),c) for b,c in x[3]])))
    f=sorted(map(key,both['Forward']+both['Backward'])); b=sorted(map(key,both['Both']))
    rep.ok('both-is-union',f==b,'the result for both directions is not the union of the forward and the backward result')
@check('C10','Spanner::location_to_spans returns the source spans of a location (rustc_utils).','Span::merge_overlaps returns the union of overlapping spans (rustc_utils).')
def C10(L,rep):
    R=L.rust.run(rep,'compute_dependency_spans','flowistry',opaque=('compute_dependencies','merge_overlaps'),sig=('Vec<Vec','FlowResults','Vec<Vec<','Direction','Spanner'))
    results,targets,dirn,spanner=R.params
    rep.rule('The returned list must have one element per element of compute_dependencies(results, targets, direction), in order, each being the overlap-merge of the spans of every location of that element and of nothing else.')
    deps=mk('Call','dependencies::compute_dependencies',results,targets,dirn)
    rs=R.nrows(R.ret)
    isdeps=lambda t: t.op=='Elem' and core(t.a[0]).op=='Call' and last(core(t.a[0]).a[0])=='compute_dependencies' and core(t.a[0]).a[1:]==(results,targets,dirn)
    rep.ok('one-list-per-target',len(rs)==1 and len(rs[0][0])==1 and rs[0][1]==1 and not rs[0][0][0].cuts and isdeps(mk('Elem',*rs[0][0][0].binder.a)),'the result does not have one span list per target list, in order')
    for l,g,v in rs:
        m=match(('call',('Span::merge_overlaps','SpanExt::merge_overlaps'),'?spans'),core(v))
        if m is None:
            spans=v; rep.ok('merged',v.op=='Obj','the spans of a target are not merged: '+short(v))
        else: spans=m['spans']
        cs=R.nrows(spans); cov=0
        for l2,g2,v2 in cs:
            mm=match(('elem',('call',('Spanner::location_to_spans','Spanner::location_to_spans'),spanner,('elem',isdeps),field(field(results,'analysis'),'body'),'...')),v2)
            if rep.ok('span-of-dependency',mm is not None,'a span comes from %s'%short(v2)) and rep.ok('every-location',for_all(l2,v2),'locations or spans are skipped'): cov=lor(cov,g2)
        rep.ok('all-locations',implies(1,cov),'the spans of a dependency are left out when '+gshow(lnot(cov)))
def core(t):
    return t.a[1] if t.op=='Obj' else t

BYPLACE={'row_set','row','insert','union_into_row','clear_row','ensure_row'}
@check('C17')
def C17(L,rep):
    rep.rule('Every call of a by-place operation of the flow-state matrix in the workspace is enumerated; the function containing it (or, if the place is its parameter, every caller) is evaluated symbolically and on every path the place must be PlaceInfo::normalize(..), an element of the children of a normalised place, or a key of a flow state.')
    prog=L.rust.prog
    is_state=lambda f: bool(f['impl']) and last(f['impl'])=='IndexMatrix' and len(f.get('args',[]))>1 and last(f['args'][1][1])=='LocationOrArg'
    roots={}
    for b,t,f in callsites(prog,is_state):
        if f['name'] in BYPLACE: roots.setdefault(root_of(prog,b),[]).append(f['name'])
        else: rep.ok('known-operation '+f['name'],f['name'] in('rows','new','clone','col_domain','is_empty','len'),'unknown by-place operation %s'%f['fn'],b['path'])
    rep.ok('sites',sum(map(len,roots.values()))>=6,'uses of the flow state not found')
    done=set()
    def visit(path,depth,via):
        if path in done: return
        done.add(path)
        b=prog.bodies[path]
        R=Run(L.rust,b,OPQ+('state_at','compute_flow','transfer_function','visit_location') if last(path)!='transfer_function' else OPQ,rep=rep)
        seen=0
        for e in R.nevents:
            if not e.name.startswith('IndexMatrix::') or e.name.split('::')[1] not in BYPLACE: continue
            if not state_matrix(prog,e): continue
            seen+=1
            for h,p in split(e.args[1],e.guard):
                if normalised(p): rep.ok('normalised %s %s'%(last(path),e.name),True); continue
                if is_own_param(p,R) and depth<4:
                    cs=[root_of(prog,cb) for cb,ct,cf in callsites(prog,lambda f: f['res']==path or f['fn']==path)]
                    if rep.ok('callers of '+last(path),bool(cs) ,'a flow state is accessed with a place given by an unknown caller: '+short(p),e.site):
                        for c in cs: visit(c,depth+1,path)
                    continue
                rep.ok('normalised %s %s'%(last(path),e.name),False,'the flow state is accessed with a place that is not normalised: '+short(p),e.site)
        rep.ok('reached '+last(path),seen>=1 ,'an access of the flow state in %s is not reached by the analysis'%path,path)
    for r in sorted(roots): visit(r,0,None)
def root_of(prog,b):
    p=b['path']
    while '::{closure' in p: p=p[:p.rindex('::{closure')]
    return p
def state_matrix(prog,e):
    return True
def normalised(p):
    p=core(p)
    if p.op=='Call' and last(p.a[0])=='normalize': return True
    m=match(('elem',('call','PlaceInfo::children','_',lambda t: normalised(t))),p)
    if m is not None: return True
    if match(('f',('elem',('call','IndexMatrix::rows','_')),'0'),p) is not None: return True
    return False
def is_own_param(p,R):
    while p.op in('Field','VField','Elem') and isinstance(p.a[0],T): p=p.a[0]
    return p.op=='Param'
