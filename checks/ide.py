"""C26, C28: the focus command (crates/flowistry_ide/src/focus)."""
from registry import check
from rules import *
from analysis import core
OPQ=('reachable_values','normalize')
def mut_of(t):
    t=core(t)
    return t.a[1] if t.op=='Agg' and last(t.a[0])=='Mutability' else None
@check('C28','reachable_values gives everything reachable from a place through loans of the given mutability (C15); visit_body reports every mutation of a body (C01, C02).','IndexMatrix::insert and row_set are a set per row.')
def C28(L,rep):
    rep.rule('The index is built by visiting the whole body with the mutation visitor; in every callback, for every element of reachable_values(input, Not) of every input and of reachable_values(mutated, Mut) of every mutation, the instruction\'s location is inserted, unconditionally, under the normalised place, into the matrix that is returned; the lookup collects all entries of the row of the normalised form of every element of reachable_values(target, Not).')
    R=L.rust.run(rep,'build','flowistry_ide',impl='DirectInfluence',opaque=OPQ+('visit_body',))
    body,pi=R.params
    ret=R.norm(R.ret); f=fields_of(ret) if ret.op=='Agg' else {}
    mats=[v for k,v in f.items() if isinstance(v,T) and match(('call',('IndexMatrix::new','IndexMatrix::with_row_domain'),'...'),core(v))]
    if not rep.ok('index',len(mats)==1,'the index is not a table built here: '+short(ret)): return
    mat=mats[0]; mname=[k for k,v in f.items() if v is mat][0]
    rep.ok('domain',any(x is field(pi,'location_domain') or x.op=='Call' and last(x.a[0])=='location_domain' and x.a[1] is pi for x in walk(core(mat))),'the index is not over the locations of the body: '+short(core(mat)))
    pname=[k for k,v in f.items() if v is pi]
    rep.ok('place-info',len(pname)==1,'the index does not keep the place information it was built with')
    vis=[e for e in R.nevents if last(e.name)=='visit_body']
    ok=len(vis)>=1 and all(e.args[1] is body and e.guard==1 and not e.loops and any(x is pi for x in walk(e.args[0])) and 'ModularMutationVisitor' in pp(e.args[0]) for e in vis)
    if not rep.ok('whole-body',ok,'the body is not visited with the mutation visitor'): return
    muts=lambda t: t.op=='CbArg' and t.a[1]==1
    def target(p):
        """(kind, ok) of a place of a mutation"""
        m=match(('f',('elem',muts),'mutated'),p)
        if m is not None: return 'mutated'
        m=match(('elem',('f',('elem',muts),'inputs')),p)
        if m is not None: return 'input'
        return None
    cov={'mutated':0,'input':0}
    for e in R.nevents:
        if e.args and e.args[0] is mat:
            n=last(e.name)
            if n in('contains','fmt','row_set','row','rows'): continue
            if not rep.ok('index-operation',n=='insert','the index is changed by '+e.name,e.site): continue
            row,loc=e.args[1:3]
            if not rep.ok('at-instruction',loc.op=='CbArg' and loc.a[1]==0,'something other than the instruction is recorded: '+short(loc),e.site): continue
            m=match(('call','PlaceInfo::normalize',pi,('elem',('call','PlaceInfo::reachable_values',pi,'?p','?m'))),row)
            if not rep.ok('under-reachable',m is not None,'an instruction is recorded under '+short(row)+', which is not the normalised form of a reachable place',e.site): continue
            k=target(m['p'])
            if not rep.ok('of-mutation',k is not None,'an instruction is recorded for '+short(m['p'])+', which is neither an input nor the mutated place',e.site): continue
            mt=mut_of(m['m']); want='Not' if k=='input' else 'Mut'
            if not rep.ok('loans-'+k,mt==want,'an instruction is recorded for what the %s reaches through %s pointers'%({'input':'input','mutated':'mutated place'}[k],'mutable' if mt=='Mut' else 'any'),e.site): continue
            if rep.ok('every-'+k,all(not l.cuts and l.kind in('iter','zip','callback') and bound_in(l,row,loc) for l in e.loops),'inputs, mutations or reachable places are skipped',e.site): cov[k]=lor(cov[k],e.guard)
    for k in cov: rep.ok('all-'+k,R.covered(cov[k]),'an instruction is not recorded for %s when %s'%('its inputs' if k=='input' else 'the place it mutates',gshow(lnot(cov[k]))))
    # lookup
    R=L.rust.run(rep,'lookup','flowistry_ide',impl='DirectInfluence',opaque=OPQ)
    self,tgt=R.params; cov=0; spi=field(self,pname[0]) if pname else None
    for l,g,v in R.nitems(R.ret):
        m=match(('elem',('call',('IndexMatrix::row_set','IndexMatrix::row'),field(self,mname),('call','PlaceInfo::normalize',spi,('elem',('call','PlaceInfo::reachable_values',spi,tgt,'?m'))))),v)
        if not rep.ok('entry',m is not None,'a lookup gives '+short(v)): continue
        rep.ok('lookup-loans',mut_of(m['m'])=='Not','a lookup does not consider everything the target reaches')
        if rep.ok('lookup-every',for_all(l,v),'entries are skipped'): cov=lor(cov,g)
    rep.ok('lookup-all',R.covered(cov),'entries of a place reachable from the target are left out when '+gshow(lnot(cov)))

# ------------------------------------------------------------------ C26
def names(t,*n): return t.op=='Call' and last(t.a[0]) in n
def peel_opt(t):
    while t.op=='VField' and t.a[1] in('Some','Ok'): t=t.a[0]
    return t
class Focus:
    def __init__(s,L,rep):
        s.rep=rep
        R=s.R=L.rust.run(rep,'focus','flowistry_ide',opaque=OPQ+('compute_flow','lookup','build','compute_dependency_spans'))
        s.tcx,s.bid=R.params
        s.ok=[(g,fields_of(v)['0']) for g,v in alts(R.ret) if v.op=='Agg' and v.a[1]=='Ok']
    def is_body(s,t):
        m=match(('f',('call','borrowck_facts::get_body_with_borrowck_facts',s.tcx,'?d'),'body'),t)
        return m is not None and names(m['d'],'hir_body_owner_def_id') and s.bid in m['d'].a
    def is_flow(s,t):
        return names(t,'compute_flow') and t.a[1] is s.tcx and t.a[2] is s.bid and s.is_body(field(t.a[3],'body'))
    def is_spanner(s,t): return match(('call','Spanner::new',s.tcx,s.bid,s.is_body),t) is not None
    def is_map(s,t): return names(t,'source_map') and any(x is s.tcx for x in walk(t))
    def group(s,G):
        """G groups every (place, location) of the span tree by span; returns True if so"""
        R=s.R
        if G.op=='Obj' and G.a[1].op=='Call' and G.a[1].a[0] in('HashMap::new','BTreeMap::new','IndexMap::new'): return s.group_obj(G)
        m=match(('call','Itertools::into_group_map','?q'),G)
        if m is None: return 'ranges are grouped by '+short(G,80)
        q=m['q']
        if q.op!='Seq': return 'ranges are taken from '+short(q)
        cov=0
        for bs,g,v in q.a:
            l=[sym.LoopInst(b) for b in bs]
            if not(l and match(('call','SpanTree::iter',('f',s.is_spanner,'mir_span_tree')),l[0].binder.a[0])): return 'ranges are not taken from the source map of the body'
            e=mk('Elem',*l[0].binder.a)
            f=fields_of(v) if v.op=='Agg' else {}
            if f.get('0') is not field(e,'span'): return 'ranges are grouped by %s instead of the source range'%short(f.get('0',v))
            if len(l)==1:
                if not implies(1,g): return 'ranges are skipped when '+gshow(lnot(g))
                s.nested=True; cov=1
                for l2,g2,v2 in [(lnorm(R.I,a),gnorm(R.I,b),R.norm(c)) for a,b,c in R.rows(f['1'])]:
                    t=fields_of(v2) if v2.op=='Agg' else {}
                    if t.get('0') is not field(e,'place') or t.get('1') is None or not(t['1'].op=='Elem' and t['1'].a[0] is field(e,'locations')): return 'a range has the target '+short(v2)
                    if g2!=1 or not for_all(l2,v2): return 'locations of a range are skipped'
            elif len(l)==2 and l[1].binder.a[0] is field(e,'locations'):
                s.nested=False; cov=1
                t=fields_of(f['1']) if f['1'].op=='Agg' else {}
                if g!=1: return 'locations of a range are skipped when '+gshow(lnot(g))
                if t.get('0') is not field(e,'place') or t.get('1') is None or not(t['1'].op=='Elem' and t['1'].a[0] is field(e,'locations')): return 'a range has the target '+short(f['1'])
            else: return 'targets of a range are '+short(v)
        return True if cov else 'no ranges'
    def group_obj(s,G):
        """a table filled with the targets of every range"""
        cov=0; s.nested=False
        for e in s.R.nevents:
            if not e.args: continue
            a=e.args[0]
            if e.name=='MapInsert' and a is G: return 'the targets of a range replace those recorded before'
            if not(a.op=='Index' and a.a[0] is G): continue
            l=e.loops
            if not(l and match(('call','SpanTree::iter',('f',s.is_spanner,'mir_span_tree')),l[0].binder.a[0])): return 'ranges are not taken from the source map of the body'
            el=mk('Elem',*l[0].binder.a)
            if a.a[1] is not field(el,'span'): return 'ranges are grouped by '+short(a.a[1])
            if e.name=='Entry::init':
                if any(s.R.I.contents(x)!=[] and not(x.op=='Call' and x.a[0] in('Vec::new','HashSet::new')) for x in e.args[1:]): return 'a range starts with '+short(e.args[1])
            elif e.name=='Contrib':
                v=e.args[1]; t=fields_of(v) if v.op=='Agg' else {}
                if t.get('0') is not field(el,'place') or t.get('1') is None or not(t['1'].op=='Elem' and t['1'].a[0] is field(el,'locations')): return 'a range has the target '+short(v)
                if not for_all(l,v): return 'locations of a range are skipped'
                cov=lor(cov,e.guard)
            else: return 'the targets of a range are changed by '+e.name
        return True if implies(1,cov) else 'targets are left out when '+gshow(lnot(cov))
    def targets(s,t,G,idx):
        """t is the list of all targets of the group"""
        e=mk('Elem',G,idx)
        t=s.R.norm(t,True)
        if s.nested:
            return names(t,'concat') and t.a[1] is field(e,'1') or match(('elem',field(e,'1')),t) is not None and False
        return t is field(e,'1')
    def from_span(s,v):
        """v is the source range of the returned span term"""
        m=match(('vf',('call','CharRange::from_span','?s',s.is_map),'Ok'),v)
        return m['s'] if m else None
    def ranges(s,key,t,want,guard,what):
        """rows of t are the trimmed ranges of want(span, loops, guard)"""
        rep=s.rep; R=s.R; cov=[]
        for l,g,v in [(lnorm(R.I,a,True),gnorm(R.I,b,True),R.norm(c,True)) for a,b,c in R.rows(t)]:
            sp=s.from_span(v)
            if not rep.ok(key+'-range',sp is not None,'%s contains %s, which is not the source range of a span'%(what,short(v))): continue
            m=match(('elem',('vf',('call','SpanExt::trim_leading_whitespace','?s','...'),'Some')),sp)
            if not rep.ok(key+'-trimmed',m is not None,'%s contains the range of %s'%(what,short(sp))): continue
            span=m['s']
            ok=land(isv(peel_opt(sp.a[0]),'Option','Some'),isv(v.a[0],'Result','Ok'))
            if not rep.ok(key+'-loops',all(not x.cuts and x.kind in('iter','zip') and bound_in(x,v) for x in l),'parts of %s are skipped'%what): continue
            r=want(span,l,g)
            if r is None: continue
            cov.append((span,g,ok,r))
        return cov
@check('C26','Spanner::mir_span_tree, location_to_spans, trim_leading_whitespace, CharRange::from_span and Span::{to,contains} (rustc_utils, rustc) behave as documented.','into_group_map groups by equal keys; its iteration order is the same for both uses because it is collected once.','A range that has no source text is not reported (from_span fails).')
def C26(L,rep):
    rep.rule('place_info has one entry per group of the span tree (grouped by span, targets = every (place, location) of every node with that span), skipped only if the span has no source range; the entry\'s slice is all spans of the element of compute_dependency_spans(flow of this body, targets of all groups in the same order, Both, spanner) at the same position; its direct influence is all spans of every location in DirectInfluence::lookup(place) of every target of the group, kept if and only if a span of the same slice contains them; containers are the body span, the return span, and the span over all parameters exactly if there are any.')
    F=Focus(L,rep); R=F.R
    if not rep.ok('output',len(F.ok)>=1,'there is no successful output'): return
    for G0,out in F.ok:
        f=fields_of(out) if out.op=='Agg' else {}
        if not rep.ok('fields',{'place_info','containers'}<=set(f),'the output is '+short(out)): continue
        rows_=[(lnorm(R.I,a,True),gnorm(R.I,b,True),R.norm(c,True),c) for a,b,c in R.rows(f['place_info'])]
        cov=0; any_row=False
        for l,g,v,raw in rows_:
            if not rep.ok('entry',v.op=='Agg' and {'range','slice','direct_influence'}<=set(fields_of(v)),'an entry is '+short(v)): continue
            p=fields_of(v)
            sp=F.from_span(p['range'])
            key=sp
            if sp is not None and names(sp,'span'): key=sp.a[1]
            if not rep.ok('entry-range',key is not None and key.op=='Field' and key.a[1]=='0' and key.a[0].op=='Elem','the range of an entry is '+short(p['range'])): continue
            G,idx=key.a[0].a
            gr=F.group(R.norm(G,True))
            if not rep.ok('grouping',gr is True,str(gr)): continue
            if not rep.ok('every-range',len(l)==1 and not l[0].cuts and bound_in(l[0],key),'entries are left out or repeated'): continue
            cov=lor(cov,lor(g,lnot(isv(p['range'].a[0],'Result','Ok')))); any_row=True
            # slice
            D=[None]
            def want_slice(span,ls,gg):
                d=span.a[0] if span.op=='Elem' else None
                if d is not None and d.op=='Index' and d.a[1] is mk('Idx',G,idx): d=mk('Elem',d.a[0],idx); byidx=True
                else: byidx=False
                ok=d is not None and d.op=='Elem' and d.a[1]==idx and names(core(d.a[0]),'compute_dependency_spans')
                if not rep.ok('slice-own',ok,'the slice of a range contains '+short(span)): return None
                dc=core(d.a[0]); 
                ok=F.is_flow(dc.a[1]) and dc.a[3].op=='Agg' and dc.a[3].a[1]=='Both' and F.is_spanner(dc.a[4])
                if not rep.ok('slice-call',ok,'slices are computed with '+', '.join(short(x,40) for x in dc.a[1:])): return None
                trs=[(lnorm(R.I,a,True),gnorm(R.I,b,True),R.norm(c,True)) for a,b,c in R.rows(dc.a[2])]
                ok=len(trs)==1 and trs[0][1]==1 and len(trs[0][0])==1 and not trs[0][0][0].cuts and R.norm(trs[0][0][0].binder.a[0],True) is R.norm(G,True) and F.targets(trs[0][2],trs[0][0][0].binder.a[0],trs[0][0][0].binder.a[1])
                if not rep.ok('slice-targets',ok,'slices are not computed for the targets of every range, in the order of the ranges'): return None
                ok=l[0].kind=='zip' or byidx
                rep.ok('slice-paired',ok,'slices are not paired with the range they were computed for')
                D[0]=span.a[0]; return True
            c=F.ranges('slice',fields_of(raw)['slice'] if raw.op=='Agg' else p['slice'],want_slice,g,'the slice')
            cs=0
            for span,gg,ok,_ in c: cs=lor(cs,lor(gg,lnot(ok)))
            rep.ok('slice-all',bool(c) and implies(g,cs),'spans of the slice are left out when '+gshow(lnot(cs)))
            if D[0] is None: continue
            d=D[0]
            def want_direct(span,ls,gg):
                m=match(('elem',('call','Spanner::location_to_spans',F.is_spanner,('elem',('call','DirectInfluence::lookup','?di',('f',('elem','?ts'),'0'))),F.is_body,'?k')),span)
                if not rep.ok('direct-span',m is not None,'the direct influence of a range contains '+short(span)): return None
                rep.ok('direct-index',match(('call','DirectInfluence::build',F.is_body,('f',('f',F.is_flow,'analysis'),'place_info')),m['di']) is not None,'the direct influence is looked up in '+short(m['di']))
                k=core(m['k']); rep.ok('direct-own-spans',k.op=='Agg' and k.a[1]=='None','the direct influence includes enclosing expressions')
                if not rep.ok('direct-targets',F.targets(m['ts'],G,idx),'the direct influence of a range is not that of its own targets: '+short(m['ts'])): return None
                inside=0
                for t in atoms_in(gg):
                    if t.op=='Ex' and t.a[0].a[0] is d:
                        x=mk('Elem',d,t.a[0].a[1]); leaf=t.a[1]
                        for y in atoms_in(leaf):
                            if y.op=='Call' and last(y.a[0])=='contains' and y.a[1] is x and y.a[2] is span and implies(leaf,atom(y)) and implies(atom(y),leaf): inside=lor(inside,atom(t))
                if not rep.ok('direct-inside',inside!=0 and implies(gg,inside),'the direct influence of a range is not limited to its own slice'): return None
                return inside
            c=F.ranges('direct',fields_of(raw)['direct_influence'] if raw.op=='Agg' else p['direct_influence'],want_direct,g,'the direct influence')
            cs=0
            for span,gg,ok,ins in c: cs=lor(cs,lor(gg,lnot(land(ok,ins))))
            rep.ok('direct-all',bool(c) and implies(g,cs),'direct influences inside the slice are left out when '+gshow(lnot(cs)))
        rep.ok('all-ranges',any_row and implies(1,cov),'ranges are left out when '+gshow(lnot(cov)))
        # containers
        have={'body':0,'return':0,'parameters':0}
        for l,g,v in [(lnorm(R.I,a,True),gnorm(R.I,b,True),R.norm(c,True)) for a,b,c in R.rows(f['containers'])]:
            sp=F.from_span(v); k=None
            if sp is not None:
                if match(('f',F.is_spanner,'body_span'),sp): k='body'
                elif match(('f',F.is_spanner,'ret_span'),sp): k='return'
                else: k=params_span(F,sp)
            if rep.ok('container',k is not None and not l,'a container is '+short(v)):
                have[k]=lor(have.get(k,0),g)
        if 'p-to' in have and 'p-first' in have: have['parameters']=lorn(have['parameters'],have['p-to'],have['p-first'])
        G0=gnorm(R.I,G0,True)
        for k in('body','return'): rep.ok('container-'+k,implies(G0,have[k]),'the %s is not a container'%('body' if k=='body' else 'return type'))
        emp=0
        for t in atoms_in(have['parameters'],G0):
            if t.op=='Empty' and match(('f',('call','TyCtxt::hir_body',F.tcx,F.bid),'params'),t.a[0]): emp=lor(emp,atom(t))
        rep.ok('container-parameters',have['parameters']!=0 and implies(land(G0,lnot(emp)),have['parameters']),'the parameter list is not a container when '+gshow(land(land(G0,lnot(emp)),lnot(have['parameters']))))
def params_span(F,sp):
    ps=('f',('call','TyCtxt::hir_body',F.tcx,F.bid),'params')
    q=peel_opt(sp)
    if param_end(F,q,'to') : return 'parameters'
    if q.op=='Fold' and param_end(F,q.a[1],'first') and q.a[2].op=='Seq' and len(q.a[2].a)==1:
        bs,g,v=q.a[2].a[0]
        if len(bs)==1 and (g==1 or all(t.op=='Take' and t.a[:2]==('skip',mk('Int',1)) and len(t.a)==3 for t in map(B.terms.__getitem__,B.support(g))) and g!=0) and match(ps,bs[0].a[0]) and names(v,'to') and {y for y in v.a[1:]}=={field(mk('Elem',*bs[0].a),'span'),q.a[0]}: return 'parameters'
        return None
    if q.op=='Fold' and q.a[1].op=='Agg' and q.a[1].a[1]=='None' and q.a[2].op=='Seq' and len(q.a[2].a)==1:
        bs,g,v=q.a[2].a[0]; pv=q.a[0]
        if len(bs)==1 and g==1 and match(ps,bs[0].a[0]):
            el=field(mk('Elem',*bs[0].a),'span')
            x=fields_of(v).get('0') if v.op=='Agg' and v.a[1]=='Some' else None
            if x is el: return 'p-first'
            if x is not None and names(x,'to') and {y for y in x.a[1:]}=={el,vfield(pv,'Some','0')}: return 'p-to'
        return None
    return 'parameters' if _params_span(F,sp) else None
def param_end(F,t,k):
    """t is the span of the first / last parameter, or ('to') of everything from the first to the last"""
    ps=('f',('call','TyCtxt::hir_body',F.tcx,F.bid),'params')
    if k=='to': return names(t,'to') and len(t.a)==3 and ((param_end(F,t.a[1],'first') and param_end(F,t.a[2],'last')) or (param_end(F,t.a[1],'last') and param_end(F,t.a[2],'first')))
    if t.op=='Field' and t.a[1]=='span':
        t=t.a[0]
        if t.op=='Nth' and match(ps,t.a[0]): return str(getattr(t.a[1],'a',(t.a[1],))[0])==('0' if k=='first' else '-1')
        c=t.a[0]
        if t.op=='FirstOf' and c.op=='Seq' and len(c.a)==1: 
            bs,g,v=c.a[0]
            return k=='first' and len(bs)==1 and g==1 and bool(match(ps,bs[0].a[0])) and v is mk('Elem',*bs[0].a)
        if t.op=='FirstOf': return k=='first' and bool(match(ps,c))
    return False
def _params_span(F,sp):
    ps=('f',('call','TyCtxt::hir_body',F.tcx,F.bid),'params')
    m=match(('call','Iterator::reduce','?q','?b'),peel_opt(sp))
    if m is not None and m['q'].op=='Seq' and len(m['q'].a)==1:
        bs,g,v=m['q'].a[0]
        if len(bs)==1 and g==1 and match(ps,bs[0].a[0]) and v is field(mk('Elem',*bs[0].a),'span'):
            b=m['b']
            return names(b,'to') and {b.a[1].op,b.a[2].op if b.a[2] is not v else 'V'}=={'Acc','V'}
    return False
