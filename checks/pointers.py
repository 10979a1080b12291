"""C11-C13: points-to facts and alias queries (mir/aliases.rs)."""
from registry import check
from rules import *
import analysis as AN
from places import core

AL='Aliases'
def is_unknown(k): return k.op in('NConst','Const') and 'UNKNOWN_REGION' in str(k.a[0])
def last_ref(t,p):
    """t is the last (pointer, rest) pair of refs_in_projection(p)"""
    src=lambda c: any(match(('call','PlaceExt::refs_in_projection',p,'...'),x) for x in walk(c)) and not any(x.op=='Slice' for x in walk(c))
    if t.op=='LastOf': return src(t.a[0])
    if t.op=='VField' and t.a[1]=='Some': return last_ref(t.a[0],p)
    if t.op=='Nth' and t.a[1]==-1: return src(t.a[0])
    return False
def concat_of(R,t):
    """a locally built sequence: the sequences it consists of, in order"""
    t0=t
    while t.op=='Call' and last(t.a[0]) in('mk_place_elems','into','to_vec','as_slice','deref'): t=t.a[-1]
    out=[]
    for l,g,v in R.rows(t):
        l=lnorm(R.I,l,True); v=R.norm(v,True)
        if len(l)==1 and g==1 and not l[0].cuts and v.op=='Elem' and v.a[0] is l[0].binder.a[0]: out.append(v.a[0])
        else: return None
    return out

@check('C13','PlaceExt::refs_in_projection yields the pointers dereferenced by a place in order, with the projection after each; PlaceExt::make builds the place from a local and a projection (rustc_utils).')
def C13(L,rep):
    rep.rule('Symbolic result of Aliases::aliases: the place itself on every path; and, for a place that is not direct, with (ptr, rest) the last pointer dereferenced: for every loan recorded for the lifetime of ptr (the unknown lifetime for boxes and raw pointers) either loan ++ rest when the loan has the pointee type or the loan itself when not. No loan may be skipped, and nothing else may be in the set. Every reader of the loan table must be one of the known ones.')
    R=L.rust.run(rep,'aliases','flowistry',impl=AL); self,p=R.params
    body,tcx,loans=field(self,'body'),field(self,'tcx'),field(self,'loans')
    direct=0; own=0
    its=R.nitems(R.ret)
    for t in atoms_in(*[h for l,h,v in its]):
        if match(('call','PlaceExt::is_direct',p,'...'),t): direct=lor(direct,atom(t))
    cov={}
    pts={}
    for l,h,v in its:
        if v is p:
            if for_all(l,v): own=lor(own,h)
            continue
        made=match(('call','PlaceExt::make',('f','?ln','local'),'?pr','...'),v)
        ln=made['ln'] if made else v
        m=match(('f',('elem',('op','Index',loans,'?k')),'0'),ln)
        if not rep.ok('target-is-loan',m is not None,'the aliases of a place contain %s, which is not made from a recorded target'%short(v)): continue
        k=m['k']
        rep.ok('every-target',for_all(l,ln),'recorded targets are skipped')
        # the last pointer
        tys=[t for t in atoms_in(h,*[x.binder.a[0] for x in l]) if match(('f',('call',('Place::ty','PlaceRef::ty'),('f','?q','0'),'...'),'ty'),t) and last_ref(t.a[0].a[1].a[0],p)]
        if not rep.ok('last-pointer',len(set(tys))==1,'the pointer through which the place is reached is not determined by its last dereference'): continue
        pt=tys[0]; lp=pt.a[0].a[1].a[0]; kind=mk('Call','Ty::kind',pt)
        box=atom(mk('Call','Ty::is_box',pt)); raw=land(lnot(box),isv(kind,'TyKind','RawPtr'))
        reg=vfield(kind,'Ref','0')
        ref=land(lnot(box),isv(kind,'TyKind','Ref'))
        if is_unknown(k):
            case='unknown'; 
            for c,g in(('box',box),('raw',raw)): pts.setdefault(c,(g,pt))
            cs=[('box',box,[mk('Call','Ty::boxed_ty',pt)]),('raw',raw,[vfield(kind,'RawPtr','0')])]
        elif k.op=='VField' and k.a[1]=='ReVar' and any(x is reg for x in walk(k)):
            case='ref'
            rv=is_variant(k.a[0],'ReVar',TM.ENUMVARS.get('RegionKind'))
            pts.setdefault('ref',(land(ref,rv),pt))
            cs=[('ref',land(ref,rv),[vfield(kind,'Ref','1')])]
        else:
            rep.ok('loan-key',False,'targets of another lifetime are used: '+short(k)); continue
        has=0
        for t in atoms_in(h):
            if t.op=='HasKey' and t.a[0] is loans: has=lor(has,atom(t))
        lty=('f',('call',('Place::ty','PlaceRef::ty'),ln,'...'),'ty')
        tot=0
        for c,g,orig in cs:
            tot=lor(tot,g)
            same=0
            hc=land(h,g)
            if hc==0: continue
            for t in atoms_in(hc):
                if t.op=='Eq':
                    for x,y in((t.a[0],t.a[1]),(t.a[1],t.a[0])):
                        if match(lty,x) and is_orig(y,orig,pt): same=lor(same,atom(t))
            if not rep.ok('pointee-compared '+c,same!=0,'whether a target has the pointee type is not decided by comparing the two types'): continue
            e=cov.setdefault(c,[0,0,has,same]); e[2]=lor(e[2],has)
            if made:
                seqs=concat_of(R,made['pr'])
                if rep.ok('rest-appended '+c,seqs is not None and len(seqs)==2 and seqs[0] is field(ln,'projection') and seqs[1].op=='Field' and seqs[1].a[1]=='1' and seqs[1].a[0] is lp,'the rest of the path is not appended to the target: '+short(mk('L',*(seqs or ())))):
                    e[0]=lor(e[0],hc)
                rep.ok('rest-only-if-typed '+c,implies(hc,same),'the rest of the path is appended to a target of another type')
            else:
                e[1]=lor(e[1],hc)
                rep.ok('whole-only-if-untyped '+c,implies(hc,lnot(same)),'a whole target is reported although the rest of the path applies to it')
        rep.ok('right-lifetime '+case,implies(h,tot),'targets are looked up under the wrong lifetime when '+gshow(land(h,lnot(tot))))
    rep.ok('itself',implies(1,own),'a place is missing from its own aliases when '+gshow(lnot(own)))
    for c,(g,pt) in sorted(pts.items()):
        e=cov.get(c)
        if e is None: continue
        need=landn(lnot(direct),g,e[2] if e[2] else 1)
        rep.ok('targets '+c,implies(land(need,e[3]),lor(e[0],R.pg)),'targets of the pointee type are left out when '+gshow(landn(need,e[3],lnot(e[0]))))
        rep.ok('other-targets '+c,implies(land(need,lnot(e[3])),lor(e[1],R.pg)),'targets of another type are left out when '+gshow(landn(need,lnot(e[3]),lnot(e[1]))))
    rep.ok('pointer-kinds',set(pts)=={'box','raw','ref'} and set(cov)=={'box','raw','ref'},'pointers of some kind have no aliases: only '+', '.join(sorted(cov))+' are handled')
def is_orig(y,orig,pt):
    if any(y is o or (y.op=='VField' and y.a[1]=='Some' and y.a[0] is o) for o in orig): return True
    return y.op in('VField','Call') and any(match(('call','Ty::builtin_deref',pt,'...'),x) for x in walk(y)) and not any(x.op=='Field' and x.a[0] is not pt and x.a[1]!='ty' for x in [y])

# ------------------------------------------------------------------ C11 / C12
def ex_implied(h,loops,G):
    """whenever some iteration of the loops satisfies h, G holds"""
    if not loops: return implies(h,G)
    bd=loops[0].binder; g=G
    for v in B.support(G):
        t=B.terms[v]
        if t.op=='Ex' and ((t.a[0] is bd) or (t.a[0].op=='In' and t.a[0].a[0] is bd) or t.a[0].a==bd.a) and ex_implied(h,loops[1:],t.a[1]): g=B.cofactor(g,v,1)
    return implies(h,g)
class Points:
    """anatomy of the construction of the points-to table"""
    def __init__(s,L,rep):
        R=s.R=L.rust.run(rep,'build','flowistry',impl=AL,opaque=('generate_conservative_constraints',))
        s.tcx,s.did,bwf=R.params; s.body=field(bwf,'body'); s.bwf=bwf
        f=fields_of(R.ret) if R.ret.op=='Agg' else {}
        s.C=f.get('loans')
        if not rep.ok('table',s.C is not None and s.C.op=='Obj','the points-to table is not built locally: '+short(R.ret)): raise Anchor('points-to table not found')
        s.C=R.norm(s.C)
        rep.ok('table-body',f.get('body') is s.body and f.get('tcx') is s.tcx,'the points-to table is built for another body')
        # writes to the table
        s.writes=[e for e in R.nevents if e.name in('Contrib','HashSet::insert','MapInsert') and e.args and (e.args[0].op=='Index' and e.args[0].a[0] is s.C or e.args[0] is s.C)]
        s.raw={e.seq:e for e in R.events}
        for e in R.nevents:
            a=e.args[0] if e.args else None
            if a is None or not(a is s.C or a.op=='Index' and a.a[0] is s.C): continue
            if e.name in('Contrib','HashSet::insert','Entry::init') or e.name.startswith('<'): continue
            rep.ok('table-operation',False,'the points-to table is changed by '+e.name,e.site)
        s.borrows=None
        vb=[e for e in R.nevents if e.name.split('::')[-1]=='visit_body' and e.args and 'GatherBorrows' in pp(e.args[0])]
        if len(vb)==1 and vb[0].guard==1 and not vb[0].loops and vb[0].args[1] is s.body:
            a=vb[0].args[0]
            for x in fields_of(a).values() if a.op=='Agg' else (): s.borrows=x
            s.gathered=vb[0].seq
        s.mode=0
    def borrow(s,t):
        """t is one of the gathered borrows"""
        return s.borrows is not None and t.op=='Elem' and t.a[0] is s.borrows
    def first_ref(s,t,place):
        """t is a (pointer, rest) pair of refs_in_projection(place)"""
        if t.op=='VField' and t.a[1]=='Some': t=t.a[0]
        return t.op=='FirstOf' and any(match(('call','PlaceExt::refs_in_projection',place,'...'),x) for x in walk(t.a[0]))
def prefix_of(s,e):
    """loops of a propagation event inside the while loop"""
    i=[k for k,l in enumerate(e.loops) if l.kind=='while']
    return i[0] if len(i)==1 else None

def is_region(v):
    if v.op!='Elem': return False
    c=v.a[0]
    lo=c.a[0] if c.op=='Range' else c.a[3] if c.op=='Agg' and 'Range' in str(c.a[0]) else None
    return lo is not None and lo.op=='Int' and lo.a[0]==0
def static_flow(P,rep):
    R=P.R; stat=0
    for e in R.nevents:
        if e.name=='SparseBitMatrix::insert' and e.args[1].op=='Int' and e.args[1].a[0]==0 and is_region(e.args[2]):
            if rep.ok('every-lifetime',for_all(e.loops,e.args[2]),'the static lifetime does not flow into every lifetime',e.site): stat=lor(stat,e.guard)
    rep.ok('static',R.covered(stat),'the static lifetime does not flow into every lifetime when '+gshow(lnot(stat)))
@check('C11','Lifetimes of pointers and of borrow facts are numbered below the table size (max_region + 1).','SparseBitMatrix, VecGraph, Sccs and reverse_post_order (rustc) behave as documented; reverse_post_order from the static lifetime reaches every lifetime because the static lifetime flows into all.')
def C11(L,rep):
    rep.rule('Construction of the points-to table (Aliases::build with compute_loans inlined): every borrow fact (a, b, _) must be inserted into the flow relation unless a or b is a lifetime of the async context type; the static lifetime must flow into every lifetime; the components of that same relation must be visited in reverse postorder from the static lifetime, each one until nothing changed; and in each visit, for every lifetime a of the component, every b it flows into (a != b) and every target of a: b receives the target with the same permission, refined only with the projection recorded for the borrow of b, only across components and only when the types agree.')
    P=Points(L,rep); R=P.R; C=P.C
    ins=[e for e in R.nevents if e.name=='SparseBitMatrix::insert']
    subs={e.args[0] for e in ins}
    if not rep.ok('relation',len(subs)==1,'expected one flow relation'): return
    S=subs.pop(); N=None
    m=match(('call','SparseBitMatrix::new','?n'),S.a[1] if S.op=='Obj' else S)
    for e in R.nevents:
        if e.args and e.args[0] is S and e.name.split('::')[-1] not in('insert','iter','rows','contains','row','fmt','new','ensure_row','union_rows','num_columns') and not e.name.startswith('<'):
            rep.ok('relation-operation',False,'the flow relation is changed by '+e.name,e.site)
    base=0
    isreg=is_region
    allr=lambda l,v: for_all(l,v) and isreg(v)
    size=m['n'] if m else None
    rep.ok('relation-size',size is not None and 'subset_base' in pp_full(size) and 'interior_pointers' in pp_full(size),'the number of lifetimes is not taken from the pointers and the borrow facts')
    for e in ins:
        a,b=e.args[1],e.args[2]
        fa=match(('f',('elem','?c'),'0'),a); fb=match(('f',('elem','?c'),'1'),b)
        if fa and fb and a.a[0] is b.a[0] and fa['c'].op=='Field' and fa['c'].a[1]=='subset_base' and any(x is P.bwf for x in walk(fa['c'])):
            if not rep.ok('every-fact',for_all(e.loops,a),'borrow facts are skipped',e.site): continue
            ign=0
            for t in atoms_in(e.guard):
                if t.op=='In?' and t.a[1] in(a,b) and async_regions(P,t.a[0]): ign=lor(ign,atom(t))
            base=lor(base,lor(e.guard,lor(ign,eqg(a,b)))); continue
        if a.op=='Int' and a.a[0]==0 and isreg(b): continue
        cons=conservative(e.guard)
        rep.ok('facts-only',cons!=0 and implies(e.guard,cons),'a flow is recorded that no borrow fact states: %s into %s'%(short(a,60),short(b,60)),e.site)
    rep.ok('facts',R.covered(base),'borrow facts are dropped when '+gshow(lnot(base)))
    static_flow(P,rep)
    # components
    g=[e for e in R.nevents if e.name=='Sccs::new']
    if not rep.ok('components',len(g)==1 and g[0].guard==1,'the components of the flow relation are not computed once'): return
    mg=match(('call','VecGraph::new','_','?e'),g[0].args[0])
    ed=0
    if mg:
        for l,h,v in [x for x in R.rows(next(e.args[1] for e in R.events if e.name=='VecGraph::new'))]:
            v=R.norm(v); l=lnorm(R.I,l); h=gnorm(R.I,h)
            row=[x for x in walk(v) if x.op=='Elem' and x.a[0].op=='Call' and x.a[0].a[0]=='SparseBitMatrix::rows']
            ok=v.op=='Agg' and len(v.a)==5 and v.a[3].op=='Elem' and v.a[4].op=='Elem' and v.a[3].a[0].op=='Call' and v.a[3].a[0].a[0]=='SparseBitMatrix::rows' and v.a[4].a[0].op=='Call' and v.a[4].a[0].a[0]=='SparseBitMatrix::iter' and v.a[4].a[0].a[2] is v.a[3]
            if rep.ok('edge',ok,'the graph of lifetimes has an edge that is not in the flow relation: '+short(v)) and rep.ok('edge-every',for_all(l,v),'edges are skipped'): ed=lor(ed,h)
    sc=[e for e in R.nevents if e.name=='SparseBitMatrix::rows']
    rep.ok('edges',ed==1 and all(e.seq<g[0].seq for e in ins) and all(e.args[0] is S for e in sc),'the graph of lifetimes does not contain the whole flow relation')
    G=g[0].ret if isinstance(g[0].ret,T) else mk('Call','Sccs::new',*g[0].args)
    sccs=lambda t: t.op=='Call' and t.a[0]=='Sccs::new' or t.op=='Obj' and t.a[1].op=='Call' and t.a[1].a[0]=='Sccs::new'
    # members of components
    mem=0; V=None
    for e in R.nevents:
        if e.name in('ChunkedBitSet::insert','DenseBitSet::insert','BitSet::insert','MixedBitSet::insert','Contrib') and e.args[0].op=='Index' and len(e.args)>1:
            mm=match(('call','Sccs::scc','?s','?r'),e.args[0].a[1])
            if mm and sccs(mm['s']):
                if rep.ok('member',mm['r'] is e.args[1] and isreg(e.args[1]),'a lifetime is filed under the component of another',e.site) and rep.ok('member-every',for_all(e.loops,e.args[1]),'lifetimes are not filed under their component',e.site): mem=lor(mem,e.guard); V=e.args[0].a[0]
    rep.ok('members',mem==1,'lifetimes are not filed under their component')
    # propagation
    init=[];prop=[]
    for e in P.writes:
        (prop if any(l.kind=='while' for l in e.loops) else init).append(e)
    rep.ok('initial-first',bool(init) and bool(prop) and max(e.seq for e in init)<min(e.seq for e in prop),'targets are recorded after they have been propagated')
    if not rep.ok('propagated',bool(prop),'targets are not propagated'): return
    cov={}; wl={}
    for e in prop:
        w=prefix_of(P,e)
        if not rep.ok('one-fixpoint',w is not None,'the propagation is nested in more than one open-ended loop',e.site): continue
        raw=P.raw[e.seq]
        b=e.args[0].a[1]; v=e.args[1]
        mb=match(('elem',('call','SparseBitMatrix::iter',S,'?a')),b)
        if not rep.ok('flows-into',mb is not None,'targets are added to a lifetime that is not one the current lifetime flows into: '+short(b),e.site): continue
        a=mb['a']
        comp=a.a[0] if a.op=='Elem' else None
        while comp is not None and comp.op=='Call' and len(comp.a)==2 and isinstance(comp.a[1],T): comp=comp.a[1]
        ok=comp is not None and comp.op=='Index' and comp.a[0] is V and comp.a[1].op=='Elem'
        if not rep.ok('of-component',ok,'targets are propagated from a lifetime outside the component: '+short(a),e.site): continue
        cx=comp.a[1]; order=cx.a[0]
        o=match(('call','iterate::reverse_post_order','?g',('call','Sccs::scc','?g',0)),order) or (order.op=='Rev' and match(('call','Sccs::all_sccs','?g'),order.a[0]))
        rep.ok('order',bool(o) and sccs(o['g']) if o else False,'components are not visited in reverse postorder from the static lifetime: '+short(order),e.site)
        # value
        A=mk('Index',C,a)
        xs=[x for x in walk(v) if x.op=='Elem' and x.a[0] is A]
        if not rep.ok('target-of-flow',len(set(xs))==1,'a lifetime receives %s, which is not a target of one flowing into it'%short(v),e.site): continue
        x=xs[0]
        il=e.loops[w+1:]
        rep.ok('every-flow',all(not l.cuts and l.kind in('iter','zip') for l in e.loops[:w]) and all(not l.cuts and l.kind in('iter','zip') and bound_in(l,b,v,a) for l in il),'targets, lifetimes or flows are skipped',e.site)
        wl[id(P.raw[e.seq].loops[w])]=(raw.loops[w],w)
        eq=lor(eqg(a,b),0)
        cyc=0
        for t in atoms_in(e.guard):
            if t.op=='Call' and t.a[0].split('::')[-1]=='contains' and t.a[0].split('::')[0] in('ChunkedBitSet','DenseBitSet','BitSet','MixedBitSet') and t.a[1] is comp and t.a[2] is b: cyc=lor(cyc,atom(t))
            if t.op=='In?' and t.a[0] is comp and t.a[1] is b: cyc=lor(cyc,atom(t))
            if t.op=='Eq' and any(match(('call','Sccs::scc','_',b),y) for y in t.a): cyc=lor(cyc,atom(t))
        for gv,vv in split(v,e.guard):
            if vv is x or (vv.op=='Agg' and len(vv.a)==5 and vv.a[3] is field(x,'0') and vv.a[4] is field(x,'1')):
                cov[a,b]=lor(cov.get((a,b),0),gv); continue
            mk_=match(('call','PlaceExt::make',('f',('f',x,'0'),'local'),'?pr','...'),vv.a[3]) if vv.op=='Agg' and len(vv.a)==5 else None
            if not rep.ok('target-kept',mk_ is not None and vv.a[4] is field(x,'1'),'a target is passed on as '+short(vv),e.site): continue
            pr=mk_['pr']; seqs=concat_of(R,pr)
            ok=seqs is not None and len(seqs)==2 and seqs[0] is field(field(x,'0'),'projection') and seqs[1].op=='Field' and seqs[1].a[1]=='1' and match(('op','Index','?d',b),seqs[1].a[0])
            if not rep.ok('refinement',bool(ok),'a target is refined with something other than the path of the borrow of the receiving lifetime: '+short(mk('L',*(seqs or ()))),e.site): continue
            D=seqs[1].a[0].a[0]; same=0; has=0
            for t in atoms_in(gv):
                if t.op=='HasKey' and t.a[0] is D and t.a[1] is b: has=lor(has,atom(t))
                if t.op=='Eq' and any(y is field(seqs[1].a[0],'0') for y in t.a) and any(match(('f',('call','Place::ty',('f',x,'0'),'...'),'ty'),y) for y in t.a): same=lor(same,atom(t))
            rep.ok('refined-if-typed',same!=0 and implies(gv,same),'a target is refined although its type is not the one the borrow starts from',e.site)
            rep.ok('refined-acyclic',cyc!=0 and implies(gv,lnot(cyc)),'targets are refined inside a cycle of lifetimes, which never ends',e.site)
            cov[a,b]=lor(cov.get((a,b),0),gv)
            definite(P,rep,D)
    for (a,b),h in cov.items():
        need=lnot(eqg(a,b))
        rep.ok('all-targets',implies(need,lor(h,R.pg)),'targets are not passed on when '+gshow(land(need,lnot(h))))
    rep.ok('some-flow',bool(cov),'targets are never passed on')
    for li,w in wl.values():
        rep.ok('fixpoint-exits',bool(li.exits) or bool(li.cuts),'the propagation within a component is never repeated')
        for E in li.exits+li.cuts:
            for e in prop:
                raw=P.raw[e.seq]
                chg=[]
                for t in atoms_in(E):
                    if t.op=='Call' and t.a[0].split('::')[-1]=='insert' and t.a[1] is raw.args[0] and (len(t.a)<3 or raw.args[1] in t.a[2:] or any(x is raw.args[1] for gg,y in ((1,t.a[2]),) for x in [y])): chg.append(atom(t))
                    if t.op=='Eq' and {y.op for y in t.a}=={'Len'} and any(y.a[0].op=='Later' and y.a[0].a[0] is raw.args[0] for y in t.a) and any(y.a[0] is raw.args[0] for y in t.a): chg.append(lnot(atom(t)))
                    if t.op=='Lt' and t.a[0].op=='Len' and t.a[0].a[0] is raw.args[0] and t.a[1].op=='Len' and t.a[1].a[0].op=='Later' and t.a[1].a[0].a[0] is raw.args[0]: chg.append(atom(t))
                rep.ok('until-stable',any(fix_seen(raw,w,c,E) for c in chg),'the propagation within a component can stop although targets were added',e.site)
def fix_seen(raw,w,chg,E):
    ls=raw.loops[w+1:]
    for n in range(len(ls),-1,-1):
        if ex_implied(land(raw.guard,chg),ls[:n],lnot(E)): return True
    return False
def pp_full(t):
    out=[]; todo=[t]; seen=set()
    while todo:
        for x in walk_g(todo.pop()):
            if x in seen: continue
            seen.add(x)
            if x.op=='Sealed': todo.append(sym.SEALED[x.a[0]])
            out.append(str(x.a[0]) if x.op=='Call' else x.a[1] if x.op=='Field' else '')
    return ' '.join(out)
def conservative(g):
    r=0
    for t in atoms_in(g):
        if isinstance(t,T) and t.op in('Is','Bits') and isinstance(t.a[0],T) and t.a[0].op=='Field' and t.a[0].a[1]=='pointer_mode': r=lor(r,isv(t.a[0],'PointerMode','Conservative'))
        if t.op=='Field' and t.a[1]=='pointer_mode': r=lor(r,isv(t,'PointerMode','Conservative'))
    return r
def async_regions(P,X):
    """every element of X is a lifetime of the async context type"""
    for h,x in alts(X):
        for l,g,v in P.R.items(x,h):
            v=P.R.norm(v)
            if not any(match(('call','BodyExt::async_context',P.body,'...'),y) for y in walk(v)): return False
    return True
def definite(P,rep,D):
    """what is recorded as the path of a borrow"""
    R=P.R
    for e in R.nevents:
        if not(e.args and e.args[0] is D) or e.name.startswith('<'): continue
        if e.name!='MapInsert': rep.ok('borrow-path-operation',e.name.split('::')[-1] in('get','len','fmt','contains_key','Entry::init'),'the table of borrow paths is changed by '+e.name,e.site); continue
        k,v=e.args[1],e.args[2]
        b=k.a[0] if k.op=='Field' and k.a[1]=='0' and P.borrow(k.a[0]) else None
        if not rep.ok('borrow-path-key',b is not None,'the path of a borrow is recorded for '+short(k),e.site): continue
        pl=field(b,'2')
        for gv,vv in split(v,e.guard):
            ok=False
            if vv.op=='Agg' and len(vv.a)==5:
                ty,pr=vv.a[3],vv.a[4]
                if pr is field(pl,'projection'): ok=ty.op=='Field' and ty.a[1]=='ty' and match(('op','Index',field(P.body,'local_decls'),field(pl,'local')),ty.a[0]) is not None
                elif pr.op=='Field' and pr.a[1]=='1' and P.first_ref(pr.a[0],pl):
                    q=pr.a[0]
                    ok=any(match(('call','Ty::builtin_deref',('f',('call',('Place::ty','PlaceRef::ty'),('f',q,'0'),'...'),'ty'),'...'),x) for x in walk(ty)) or any(match(('call','Ty::boxed_ty',('f',('call',('Place::ty','PlaceRef::ty'),('f',q,'0'),'...'),'ty')),x) for x in walk(ty))
            rep.ok('borrow-path',ok,'the recorded path of a borrow is not the part of the borrowed place after its pointer, starting at the type pointed to: '+short(vv),e.site)
@check('C12','PlaceExt::interior_pointers lists every pointer inside a value by lifetime, boxes and raw pointers under UNKNOWN_REGION (rustc_utils).','MIR visitors call visit_assign for every assignment of the body.')
def C12(L,rep):
    rep.rule('Initial contents of the points-to table: for every assignment of a borrow with lifetime r of place p: (p, kind) under r when p is direct; for every argument and every pointer inside it (lifetime r, at most two projections): its target with the pointer\'s permission under r; for every local and every raw pointer or box inside it: its target, mutable, under the unknown lifetime. Each entry is found as a write event whose loops run over all of these and whose path condition is no stronger. The static lifetime must flow into every lifetime.')
    P=Points(L,rep); R=P.R; C=P.C; body,tcx=P.body,P.tcx
    rep.ok('borrows-gathered',P.borrows is not None,'the borrows of the body are not gathered')
    # the visitor
    g=0; n=0
    for b in L.rust.prog.bodies.values():
        im=b.get('impl')
        if im and last(im['head'])=='GatherBorrows' and 'Visitor' in str(im.get('trait') or b['path']):
            V=Run(L.rust,b,('super_assign','super_rvalue','super_statement'),rep=rep); n+=1
            if b['name'] not in('visit_assign','visit_rvalue'):
                rep.ok('visitor-method',any('super_' in e.name for e in V.nevents),'%s does not visit what is nested inside'%b['name']); continue
            rv=V.params[2] if b['name']=='visit_assign' else V.params[1]
            reg=field(field(vfield(rv,'Ref','0'),'0'),'0')
            isb=land(isv(rv,'Rvalue','Ref'),isv(reg,'RegionKind','ReVar'))
            for e in V.nevents:
                if e.name in('Contrib','Vec::push') and e.args[0].op=='Field' and e.args[0].a[0] is V.params[0]:
                    v=e.args[1]
                    ok=v.op=='Agg' and len(v.a)==6 and v.a[3] is vfield(reg,'ReVar','0') and v.a[4] is vfield(rv,'Ref','1') and v.a[5] is vfield(rv,'Ref','2')
                    if rep.ok('borrow-recorded',ok,'a borrow is recorded as '+short(v),e.site) and not e.loops: g=lor(g,e.guard)
            rep.ok('every-borrow',g!=0 and implies(isb,g),'borrows are not recorded when '+gshow(land(isb,lnot(g))))
    rep.ok('borrow-visitor',n>=1 and g!=0,'the visitor gathering borrows was not found')
    bor=arg=unk=0
    for e in P.writes:
        if any(l.kind=='while' for l in e.loops): continue
        k,v=(e.args[0].a[1],e.args[1]) if e.args[0].op=='Index' else (e.args[1],None)
        if v is None: rep.ok('initial-entry',False,'an entry of the points-to table is replaced',e.site); continue
        pl,mu=(v.a[3],v.a[4]) if v.op=='Agg' and len(v.a)==5 else (None,None)
        if not rep.ok('initial-value',pl is not None,'the points-to table receives '+short(v),e.site): continue
        if k.op=='Field' and P.borrow(k.a[0]):
            b=k.a[0]
            if rep.ok('borrow-target',k.a[1]=='0' and pl is field(b,'2') and mu is mk('Call','BorrowKind::to_mutbl_lossy',field(b,'1')),'a borrow contributes %s to %s'%(short(v),short(k)),e.site) and rep.ok('borrow-each',for_all(e.loops,b),'borrows are skipped',e.site):
                d=0
                for t in atoms_in(e.guard):
                    if match(('call','PlaceExt::is_direct',field(b,'2'),'...'),t): d=lor(d,atom(t))
                bor=lor(bor,lor(e.guard,lnot(d) if d else 0))
            rep.ok('borrow-after-gathering',e.seq>P.gathered if P.borrows is not None else False,'borrows are read before they are gathered',e.site)
            continue
        ip=('call','PlaceExt::interior_pointers',('call','PlaceExt::from_local','?l','...'),tcx,body,P.did)
        m=match(('call','TyCtxt::mk_place_deref',tcx,('f',('elem',('f',('elem',ip),'1')),'0')),pl)
        if not rep.ok('pointer-target',m is not None,'the points-to table receives a target that is neither borrowed nor pointed to: '+short(pl),e.site): continue
        q=pl.a[2].a[0]; ent=q.a[0].a[0]; loc=m['l']
        if not rep.ok('pointer-each',for_all(e.loops,q,ent,loc),'pointers are skipped',e.site): continue
        if match(('elem',('call','Body::args_iter',body)),loc) and k is field(ent,'0') and mu is field(q,'1'):
            lim=0
            for t in atoms_in(e.guard):
                if t.op=='Lt' and t.a[0].op=='Int' and t.a[0].a[0]>=2 and t.a[1] is lenof(field(field(q,'0'),'projection')): lim=lor(lim,atom(t))
                if t.op=='Lt' and t.a[1].op=='Int' and t.a[1].a[0]>=3 and t.a[0] is lenof(field(field(q,'0'),'projection')): lim=lor(lim,lnot(atom(t)))
            arg=lor(arg,lor(e.guard,lim)); continue
        isl=loc.op=='Idx' and loc.a[0] is field(body,'local_decls') or match(('elem',('call',('Body::local_decls','IndexVec::indices','IndexSlice::indices'),'...')),loc)
        u=0
        for t in atoms_in(e.guard):
            if t.op=='Eq' and any(is_unknown(y) for y in t.a) and any(y is field(ent,'0') for y in t.a): u=lor(u,atom(t))
        if rep.ok('pointer-kind',bool(isl) and is_unknown(k) and u!=0 and implies(e.guard,u),'a pointer contributes %s to lifetime %s'%(short(v),short(k)),e.site):
            if rep.ok('unknown-mutable',mu.op=='Agg' and mu.a[1]=='Mut','targets of raw pointers and boxes are recorded as '+short(mu),e.site): unk=lor(unk,lor(e.guard,lnot(u)))
    static_flow(P,rep)
    rep.ok('borrows',R.covered(bor),'targets of borrows are left out when '+gshow(lnot(bor)))
    rep.ok('arguments',R.covered(arg),'targets of pointers in arguments are left out when '+gshow(lnot(arg)))
    rep.ok('unknown',R.covered(unk),'targets of raw pointers and boxes are left out when '+gshow(lnot(unk)))
