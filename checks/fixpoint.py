"""C06: the dataflow engine; how transfer functions are applied."""
from registry import check
from rules import *
import analysis as AN

def peel_loc(t):
    """the location (or index) an index expression stands for"""
    while True:
        m=match(('call','IndexedDomain::index','_','?x'),t) or match(('call',('ToIndex::to_index',),'?x','...'),t) or match(('agg','LocationOrArg','Location',{'0':'?x'}),t)
        if m is None: return t
        t=m['x']
def is_start(t):
    if t.op=='NConst' and str(t.a[0]).endswith('Location::START'): return True
    return t.op=='Agg' and t.a[0]=='Location' and all(x.op=='Int' and x.a[0]==0 for x in fields_of(t).values() if x.op=='Int') and fields_of(t)['statement_index'].op=='Int' and ('START' in pp(fields_of(t)['block']) or fields_of(t)['block'].op=='Int')
def state_ix(t,S):
    """t denotes the stored state of an index of S: that index"""
    while t.op=='Obj' and t.a[1].op=='Call' and t.a[1].a[0]=='clone': t=t.a[1].a[1]
    while t.op=='Call' and t.a[0]=='clone': t=t.a[1]
    if t.op=='Index' and t.a[0] is S: return t.a[1]
    if t.op=='Field' and t.a[0].op=='Call' and t.a[0].a[0] in('IndexSlice::pick2_mut','IndexVec::pick2_mut') and t.a[0].a[1] is S: return t.a[0].a[2+int(t.a[1])]
    return None
@check('C06','The matrix join of indexical is a union and reports whether it changed anything.','Analysis::Direction of the flow analysis is the default, Forward (checked).')
def C06(L,rep):
    R=L.rust.run(rep,'iterate_to_fixpoint','flowistry',sig=('AnalysisResults','TyCtxt','Body<','LocationOrArgDomain','.'))
    rep.rule('Work-list obligations over the symbolic events of iterate_to_fixpoint: every location of every block in reverse postorder is queued; for each popped location the effect of its own statement or terminator is applied to its own state, then that state is joined (only joined) into the state of every successor, and the successor is queued whenever the join reports a change; nothing else writes a state; the returned vector is that of the states.')
    _,body,dom,ana=R.params
    lp=lambda e: [l for l in e.loops if l.kind=='while']
    # the state vector
    ini=R.ev('Analysis::initialize_start_block')
    if not rep.ok('entry-state',len(ini)==1 and ini[0].guard==1 and not ini[0].loops,'the entry state is not initialised exactly once'): return
    S=None
    t=ini[0].args[2]
    if t.op=='Index': S=t.a[0]
    if not rep.ok('entry-at-start',S is not None and is_start(peel_loc(t.a[1])),'the entry state is stored at '+short(t),ini[0].site): return
    al=S.a[1] if S.op=='Obj' else S
    m=match(('call',('IndexVec::from_elem_n','vec::from_elem'),'?v','?n'),al)
    bot=R.ev('Analysis::bottom_value')
    rep.ok('bottom',m is not None and len(bot)>=1 and any(b.ret is m['v'] for b in bot),'states do not start at the bottom value')
    if m:
        n=m['n']; rep.ok('all-locations',n.op in('Call','Len','Count') and any(x.op=='Call' and x.a[0] in('BodyExt::all_locations','IndexedDomain::len') and x.a[1] in(body,dom) for x in walk_g(n)) and not any(x.op=='BinOp' for x in walk(n)),'the number of states is '+short(n))
    pops=[e for e in R.events if e.name=='WorkQueue::pop']
    if not rep.ok('work-list',len({e.args[0] for e in pops})==1 and pops,'no single work list'): return
    Q=pops[0].args[0]; rep.ok('queue-size',Q.op=='Obj' and match(('call',('WorkQueue::with_none','WorkQueue::with_all'),'?n'),Q.a[1]) is not None and (m is None or Q.a[1].a[1] is m['n']),'the work list does not have room for every state')
    pop=pops[0].ret; I0=vfield(pop,'Some','0')
    loc=vfield(mk('Call','IndexedDomain::value',dom,I0),'Location','0')
    ins=[e for e in R.events if e.name=='WorkQueue::insert' and e.args[0] is Q]
    # seeding
    seeded=0
    fwd=0
    for e in ins:
        if lp(e): continue
        x=peel_loc(e.args[1])
        blk=('f',('elem',('or',('call','traversal::reverse_postorder',body),('call',('traversal::preorder','traversal::postorder'),body))),'0')
        mm=match(('agg','Location','_',{'block':'?b','statement_index':'?s'}),x)
        ok=False
        if mm and match(blk,mm['b']):
            el=mm['b'].a[0]; st=field(field(el,'1'),'statements'); s=mm['s']
            if s.op=='Elem' and s.a[0].op=='Range':
                lo,hi=s.a[0].a[0],s.a[0].a[1]; inc='Inclusive' in str(s.a[0].a[2:])
                ok=lo.op=='Int' and lo.a[0]==0 and ((inc and hi is lenof(st)) or (not inc and hi.op=='Bin' and hi.a[0]=='Add' and set(hi.a[1:])=={lenof(st),mk('Int',1)}))
        mm=match(('elem',('call','BodyExt::all_locations',body)),x)
        ok=ok or mm is not None
        if rep.ok('seed',ok,'the work list starts with '+short(x),e.site) and rep.ok('seed-every',for_all(e.loops,x),'locations are skipped when the work list is filled',e.site): seeded=lor(seeded,e.guard)
    if Q.op=='Obj' and Q.a[1].a[0]=='WorkQueue::with_all': seeded=1
    isf=0
    for t in atoms_in(seeded):
        if t.op in('NConst','Const') and 'IS_FORWARD' in str(t.a): isf=atom(t)
    rep.ok('seeded',implies(isf if isf else 1,seeded),'locations are not queued initially when '+gshow(lnot(seeded)))
    if isf:
        ok=direction_forward(L)
        rep.ok('direction',ok,'the flow analysis does not run forward')
    # the loop body
    for e in R.events:
        if e.name in('IndexSlice::swap','IndexVec::push','IndexVec::truncate','IndexVec::pop','mem::take','mem::replace','mem::swap') and e.args and (e.args[0] is S or state_ix(e.args[0],S) is not None): rep.ok('state-operation',False,'states are changed by '+e.name,e.site)
        if e.name=='Store' and (mentions(e.args[0],S)): rep.ok('only-joined',False,'a state is overwritten instead of joined',e.site)
        if e.name not in('Analysis::apply_primary_statement_effect','Analysis::apply_primary_terminator_effect','Analysis::initialize_start_block','JoinSemiLattice::join') and any(state_ix(a,S) is not None for a in e.args[:1]) and e.kind!='pure':
            rep.ok('state-operation',e.name.split('::')[-1] in('clone','eq','ne','fmt','new'),'states are changed by '+e.name,e.site)
    dv=mk('Call','IndexedDomain::value',dom,I0)
    is_loc=isv(dv,'LocationOrArg','Location')
    st=mk('Call','Body::stmt_at',body,loc); left=is_variant(st,'Left',TM.ENUMVARS.get('Either'))
    live=land(is_variant(pop,'Some'),is_loc)
    sq={}
    for name,var,need in(('Analysis::apply_primary_statement_effect','Left',left),('Analysis::apply_primary_terminator_effect','Right',lnot(left))):
        g=0; sq[var]=10**9
        for e in R.ev(name):
            if not lp(e): rep.ok('effect-in-loop',False,'an effect is applied outside the work-list loop',e.site); continue
            ok=state_ix(e.args[1],S) is I0 or peel_loc(state_ix(e.args[1],S) or e.args[1]) is loc
            rep.ok('effect-own-state',ok,'the effect of an instruction is applied to '+short(e.args[1]),e.site)
            rep.ok('effect-own-instruction',e.args[2] is vfield(st,var,'0') and e.args[3] is loc,'the effect applied is not that of the popped instruction',e.site)
            if len(e.loops)==1: g=lor(g,e.guard); sq[var]=min(sq[var],e.seq)
        rep.ok('effect-applied-'+var,implies(land(live,need),g),'the effect of an instruction is not applied when '+gshow(land(live,land(need,lnot(g)))))
    joins=R.ev('JoinSemiLattice::join'); cov={'Left':0,'Right':0}; req=[]
    taken={e.args[0]:e for e in R.events if e.name=='<clone>'}
    def saved(t):
        """t is a copy of the state of the popped instruction taken before its effect"""
        while t in taken and t.a[1].a[1] in taken: t=t.a[1].a[1]
        return t in taken and state_ix(t,S) is I0 and taken[t].seq<min(sq.values())
    def itself(j,g):
        """can g hold while the successor j is the popped instruction itself?  (a terminator at statement 0 of a block that is its own successor)"""
        x=peel_loc(j)
        if x.op=='Call' and x.a[0]=='Location::successor_within_block': return False
        g=land(g,eqg(j,I0)); b0=field(loc,'block'); b=None
        if x.op=='Agg' and x.a[0]=='Location': b=fields_of(x)['block']
        f=land(lnot(left),eqg(field(loc,'statement_index'),Int(0)))
        if b is not None: f=land(f,eqg(b,b0))
        f=land(f,eqg(x,loc))
        for t in atoms_in(g):
            if t.op=='Ex' and any(y.op=='Eq' and b0 in y.a and any(z.op=='Elem' and 'uccessors' in pp(z.a[0])[:40] for z in y.a) for y in walk_g(t)): f=land(f,atom(t))
        return land(g,f)!=0
    for e in R.events:
        if e.name.endswith('::pick2_mut') and e.args and e.args[0] is S:
            rep.ok('own-successor-distinct',not itself(e.args[2] if e.args[1] is I0 else e.args[1],e.guard),'the state of a terminator that is its own successor is borrowed twice, which panics',e.site)
    own=[]
    for e in joins:
        if saved(e.args[0]) or saved(e.args[1]):
            # a loop back to the same instruction: has its effect changed its own state?
            a,b=e.args[:2]
            ok=saved(a) and state_ix(b,S) is I0 and b not in taken and sq['Right']<e.seq
            if rep.ok('own-successor-compared',ok,'the state before a self-looping terminator is not compared with the one after it',e.site): own.append(e)
            continue
        d,s=state_ix(e.args[0],S),state_ix(e.args[1],S)
        if not rep.ok('join-states',d is not None and s is not None,'a join involves something other than the stored states: %s'%short(e.args[0]),e.site): continue
        if not rep.ok('join-from-current',s is I0 or peel_loc(s) is loc,'the state joined into a successor is not that of the instruction just processed',e.site): continue
        x=peel_loc(d); which=None
        if x.op=='Call' and x.a[0]=='Location::successor_within_block' and x.a[1] is loc: which='Left'
        mm=match(('agg','Location','_',{'block':'?b','statement_index':'?s'}),x)
        if mm:
            b,si=mm['b'],mm['s']
            if b is field(loc,'block') and si.op=='BinOp' and field(loc,'statement_index') in si.a and any(y.op=='Int' and y.a[0]==1 for y in si.a if isinstance(y,T)): which='Left'
            m2=match(('elem',('call',('Successors::successors','Terminator::successors','TerminatorKind::successors'),'?bb','...')),b)
            if m2 and si.op=='Int' and si.a[0]==0:
                c=b.a[0]
                if c.a[0]=='Successors::successors' and c.a[2] is field(loc,'block') and m2['bb'] is field(body,'basic_blocks'): which='Right'
                elif c.a[0]!='Successors::successors' and mentions(m2['bb'],st): which='Right'
        if not rep.ok('successor',which is not None,'states are propagated to %s, which is not a successor'%short(x),e.site): continue
        inner=[l for l in e.loops if l.kind!='while']
        rep.ok('own-successor-handled',not itself(d,e.guard),'a terminator that is its own successor is not processed again when its effect changes its state',e.site)
        if not rep.ok('every-successor',for_all(inner,x),'successors are skipped',e.site): continue
        rep.ok('effect-before-join',sq[which]<e.seq,'the state is propagated before the effect of the instruction is applied',e.site)
        cg=e.guard
        for o in own:
            if [l.binder for l in o.loops]==[l.binder for l in e.loops]: cg=lor(cg,land(o.guard,eqg(d,I0)))
        cov[which]=lor(cov[which],cg)
        # re-queue
        def requeued(e,same):
            q=0
            for k in ins:
                if not lp(k): continue
                if same(k.args[1]) and k.seq>e.seq and len(k.loops)<=len(e.loops) and all(a.binder is b.binder for a,b in zip(k.loops,e.loops)): q=lor(q,k.guard)
            return q
        for o in own:
            w=land(o.guard,truth(o.ret)); q=requeued(o,lambda t:t is I0 or peel_loc(t) is loc or t is d or peel_loc(t) is x)
            if [l.binder for l in o.loops]==[l.binder for l in e.loops] : w=land(w,eqg(d,I0)) if implies(o.guard,eqg(d,I0)) else w
            elif any(l.kind!='while' for l in o.loops): continue
            rep.ok('requeue-own',implies(w,q),'a terminator that is its own successor is not processed again when its effect changed its state, when '+gshow(land(w,lnot(q))),o.site)
        q=requeued(e,lambda t:t is d or peel_loc(t) is x)
        rep.ok('requeue',implies(land(e.guard,atom(e.ret)),q),'a successor whose state grew is not processed again when '+gshow(land(land(e.guard,atom(e.ret)),lnot(q))),e.site)
    for v,need in(('Left',left),('Right',lnot(left))):
        rep.ok('propagated-'+v,implies(land(live,need),cov[v]),'the state after an instruction is not propagated to its successors when '+gshow(land(live,land(need,lnot(cov[v])))))
    # loop runs until the list is empty
    wl={l for e in R.events for l in lp(e)}
    ok=all(implies(c,lnot(live)) for l in wl for c in l.cuts)
    rep.ok('until-empty',ok and bool(wl),'the work-list loop can stop while instructions are queued')
    # result
    f=fields_of(R.ret) if R.ret.op=='Agg' else {}
    rs=[v for v in f.values() if v.op=='Obj' or v is S]
    good=False
    for v in rs:
        if v is S: good=True; continue
        for l,g,x in R.rows(v):
            ok=match(('call',lambda t:True,),x) or True
            el=[y for y in walk(x) if y.op=='Elem' and y.a[0] is S]
            if len(l)==1 and not l[0].cuts and len(el)==1 : good=True
    rep.ok('returns-states',good,'the returned results do not hold the computed states')
    rep.ok('returns-analysis',any(v is ana or 'analysis' in pp(v) for v in f.values()) and f.get('location_domain',dom) is dom,'the returned results belong to another analysis or domain')
    A=L.rust.run(rep,'state_at','flowistry',impl='AnalysisResults')
    v=A.norm(A.ret)
    rep.ok('state_at',v.op=='Index' and v.a[0] is field(A.params[0],'state') and peel_loc(v.a[1]) is A.params[1],'a query for a location returns '+short(v))
    # statement effects
    T_=L.rust.run(rep,'apply_primary_statement_effect','flowistry',impl='FlowAnalysis',opaque=('transfer_function','visit_statement'))
    effect_applied(T_,rep,'statement','visit_statement')
    # wiring of compute_flow
    W=L.rust.run(rep,'compute_flow','flowistry',opaque=('iterate_to_fixpoint','build','location_domain'),sig=('AnalysisResults','TyCtxt','BodyId','BodyWithBorrowckFacts'))
    it=[e for e in W.nevents if e.name.endswith('iterate_to_fixpoint')]
    tcx,bid,bwf=W.params
    if rep.ok('runs-engine',len(it)==1 and it[0].guard==1,'the analysis does not run the engine exactly once'):
        e=it[0]; b=field(bwf,'body')
        rep.ok('same-body',e.args[1] is b,'the engine runs on another body',e.site)
        a=e.args[3]; fa=fields_of(a) if a.op=='Agg' else {}
        pi=fa.get('place_info')
        rep.ok('same-analysis',bool(fa) and fa.get('body') is b and pi is not None and pi.op in('Call','Obj'),'the analysis is built for another body',e.site)
        rep.ok('same-domain',pi is not None and any(x is pi for x in walk(e.args[2])) and 'location_domain' in pp(e.args[2]),'the engine uses another domain than the analysis: '+short(e.args[2]),e.site)
        rep.ok('same-place-info',pi is not None and any(x is bwf for x in walk(pi)),'places are analysed for another body',e.site)
        cdv=fa.get('control_dependencies'); rep.ok('control-dependencies',cdv is not None and any(x is b for x in walk(cdv)),'control dependencies are not those of the body',e.site)
        rep.ok('returns-results',W.ret is e.ret,'something other than the computed results is returned: '+short(W.ret),e.site)
def direction_forward(L):
    return not any('Backward' in str(t['f'].get('f',{}).get('args','')) and 'FlowAnalysis' in str(t['f'].get('f',{}).get('args','')) for b in L.rust.prog.bodies.values() for x in b['blocks'] for t in [x['t']] if t['k']=='call' and t['f']['k']=='fn')
def effect_applied(R,rep,what,visit):
    self,state,inst,loc=R.params[:4]
    vis=[e for e in R.nevents if e.name.split('::')[-1]==visit]
    tf=[e for e in R.nevents if e.name.endswith('transfer_function')]
    ok=rep.ok(what+'-visited',len(vis)>=1 and all(e.args[1] is inst and e.args[2] is loc for e in vis),'the %s is not visited at its own location'%what)
    g=0
    for e in tf:
        k=e.args[2]
        at=e.args[3]; same=at is loc or at.op=='CbArg' and k.op=='CbArg' and at.a[0] is k.a[0] and at is not k # the visitor hands on the location it was given (C01, C17)
        own=k.op=='CbArg' and e.args[0] is self and e.args[1] is state and same
        if rep.ok(what+'-transfer',own,'the mutations of the %s are applied as (%s)'%(what,short(e.args[2])),e.site) and all(l.kind=='callback' and not l.cuts for l in e.loops): g=lor(g,e.guard)
    vg=0
    for e in vis: vg=lor(vg,e.guard)
    rep.ok(what+'-mutations',R.covered(g,vg) and vg!=0,'mutations are not applied when '+gshow(land(vg,lnot(g))))
    return vg
