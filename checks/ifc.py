"""C31, C32, C33: the information-flow checker."""
from registry import check
from rules import *
from places import core
from driver import agg
CR='flowistry_ifc'
TRAITS='flowistry_ifc_traits'
IO=('set_color','write_fmt','write_all','write','flush','reset','write_str')
def calls(t,*names): return any(x.op=='Call' and last(x.a[0]) in names for x in walk_g(t))
def is_io(x):
    x=core(x)
    return x.op=='Call' and last(x.a[0]) in IO and any(k in x.a[0] for k in('Write','Stream','io::','stdio'))
def io_atom(t): return t.op=='Is' and t.a[1]=='Ok' and is_io(t.a[0])
def crate_atom(t): return t.op in('Ex','Is','Empty') and mentions(t,mk('Str',TRAITS)) and calls(t,'crates') and not calls(t,'type_implements_trait','module_children')
def rets_atom(t): return t.op=='Empty' and core(t.a[0]).op=='Call' and last(core(t.a[0]).a[0])=='all_returns'
def filename(t):
    t=core(t)
    return t.op=='Call' and last(t.a[0]) in('span_to_filename',)
def usual(t):
    """report output succeeds; the marker traits are in scope; the function returns"""
    if io_atom(t): return 1
    if crate_atom(t): return 0 if t.op=='Empty' else 1
    if rets_atom(t): return 0
    return None
def assume(g,pred=usual):
    """the guard where every atom for which pred gives a value has that value, inside quantifiers too"""
    if g<2: return g
    r=g
    for v in B.support(g):
        t=B.terms[v]; val=pred(t)
        if val is None and t.op=='Ex':
            g2=assume(t.a[1],pred)
            if g2!=t.a[1]: val=exg(t.a[0],g2)
        if val is None: continue
        r=lor(land(val,B.cofactor(r,v,1)),land(lnot(val),B.cofactor(r,v,0)))
    return r
def real(*gs):
    """the function is in a file"""
    r=1
    for t in {t.a[0] for g in gs for t in B.atoms(g) if t.op in('Bit','Is') and filename(t.a[0])}: r=land(r,isv(t,'FileName','Real'))
    return r
class Analyze:
    def __init__(s,L,rep):
        s.L=L; s.rep=rep
        s.R=R=L.rust.run(rep,'analyze',CR,opaque=('deps_for',))
        s.pb=[p for p in R.params if 'BodyId' in R.body['locals'][p.a[1]+1][0]]
        s.pf=[p for p in R.params if 'AnalysisResults' in R.body['locals'][p.a[1]+1][0] or 'FlowResults' in R.body['locals'][p.a[1]+1][0]]
        if len(s.pb)!=1 or len(s.pf)!=1: raise Anchor('analyze no longer takes a body and its flow results')
        s.pb=s.pb[0]; s.pf=s.pf[0]
        an=field(s.pf,'analysis'); s.an=an
        s.body=field(an,'body'); s.tcx=field(an,'tcx')
        s.reports=[e for e in R.nevents if last(e.name) in('write_fmt','write_all') and len(e.args)>1 and not(e.args[-1].op=='Str' and e.loops==())]
        s.lr={}
    def owner(s,t):
        t=core(t)
        while t.op=='Call' and last(t.a[0]) in('to_def_id','expect_local'): t=core(t.a[1])
        if t.op=='Call' and last(t.a[0])=='hir_body_owner_def_id': return core(t.a[2]) is s.pb
        if t is field(s.an,'def_id'): return True
        return t.op=='Call' and last(t.a[0])=='def_id' and len(t.a)==2 and mentions(t,s.body)
    def interior(s,t):
        """the index of the local when t enumerates the places inside one local"""
        t=core(t)
        if t.op=='Obj': t=core(t.a[1]) if t.a[1].op=='Call' else t
        if not(t.op=='Call' and last(t.a[0])=='interior_places' and len(t.a)==5): return None
        l=core(t.a[1])
        if not(l.op=='Call' and last(l.a[0])=='from_local'): return None
        if not(core(t.a[2]) is s.tcx and core(t.a[3]) is s.body and s.owner(t.a[4])): return None
        return core(l.a[1])
    def locals_(s,t):
        t=core(t)
        while t.op=='Call' and last(t.a[0]) in('local_decls','deref','iter','indices'): t=core(t.a[1])
        return t is field(s.body,'local_decls') or t is s.body
    def trait(s,t):
        """('Secure'|'Insecure', place) of an implementation query, or the reason it is not one"""
        if len(t.a)!=5: return 'the query has other arguments'
        d,args,pe=core(t.a[2]),core(t.a[3]),core(t.a[4])
        if not(pe.op=='Call' and last(pe.a[0]) in('param_env','typing_env') and s.owner(pe.a[-1])): return 'the bounds in scope are not those of the function: '+short(pe,80)
        k=s.key(d)
        if k is None: return 'the trait asked about is '+short(d,80)
        ty=args.a[3] if args.op=='Agg' and len(args.a)==4 else None
        if ty is None: return 'the types asked about are '+short(args,80)
        ty=core(ty)
        while ty.op=='Call' and last(ty.a[0]) in('erase_regions','erase_and_anonymize_regions','normalize_erasing_regions','from','into'): ty=core(ty.a[2] if len(ty.a)>2 else ty.a[1])
        if ty.op=='Field' and ty.a[1]=='ty' and core(ty.a[0]).op=='Call' and core(ty.a[0]).a[0].endswith('Place::ty'): return k,core(core(ty.a[0]).a[1])
        return 'the type asked about is '+short(ty,80)
    def key(s,d):
        if d.op!='Index': return None
        k=core(d.a[1])
        if k.op!='Str': return None
        if not s.items(d.a[0]): return None
        return k.a[0]
    def items(s,m):
        if m in s.lr: return s.lr[m]
        ok=False
        for l,g,v in s.item_rows(m):
            if len(l)!=1 or l[0].cuts: continue
            c=core(l[0].binder.a[0]); v=core(v)
            if not(c.op=='Call' and last(c.a[0])=='module_children'): continue
            d=core(c.a[2])
            if not(d.op=='Agg' and fields_of(d).get('krate') is not None and s.krate(fields_of(d)['krate']) and 'CRATE_DEF_INDEX' in pp(d)): continue
            e=mk('Elem',*l[0].binder.a)
            f=list(fields_of(v).values()) if v.op=='Agg' else []
            if len(f)!=2: continue
            name=core(f[0]); res=field(e,'res')
            if not(mentions(name,field(e,'ident')) and mentions(f[1],res)): continue
            if implies(isv(res,'Res','Def'),g): ok=True
        s.lr[m]=ok
        return ok
    def item_rows(s,m):
        out=list(s.R.nrows(m))
        if m.op=='Obj' and not any(e.name in('HashMap::remove','HashMap::clear','HashMap::retain') and e.args and e.args[0] is m for e in s.R.nevents):
            for e in s.R.nevents:
                if e.name=='MapInsert' and e.args[0] is m: out.append((e.loops,s.assume(e.guard),mkagg('','',('0','1'),(e.args[1],e.args[2]))))
        return out
    def krate(s,k):
        """the crate of the marker traits"""
        if mentions(k,mk('Str',TRAITS)): return True
        k=core(k)
        if not(k.op=='Elem' and core(k.a[0]).op=='Call' and last(core(k.a[0]).a[0])=='crates'): return False
        # the element at which a search loop stopped
        return any(t.op=='Ex' and mk('Elem',*t.a[0].a) is k and mentions(t,mk('Str',TRAITS)) for e in s.R.nevents if e.name=='MapInsert' or e in s.reports for t in B.atoms(e.guard))
    def final(s,t):
        """t is the join of the states at all returns"""
        R=s.R
        allr=lambda x: core(x).op=='Call' and last(core(x).a[0])=='all_returns' and core(core(x).a[1]) is s.body
        def state(v,b):
            v=core(v)
            return v.op=='Index' and v.a[0] is field(s.pf,'state') and core(v.a[1]) is mk('Elem',*b.a)
        t=core(t)
        while t.op=='VField' and t.a[1]=='Some': t=core(t.a[0])
        if t.op=='Call' and last(t.a[0]) in('reduce','fold'):
            col,acc=t.a[1],t.a[-1]
            if not(col.op=='Seq' and len(col.a)==1): return 'the states joined are '+short(col,100)
            bs,g,v=col.a[0]
            if not(len(bs)==1 and g==1 and allr(bs[0].a[0]) and state(v,bs[0])): return 'the states joined are '+short(col,100)
            if last(t.a[0])=='fold' and not(len(t.a)>3 and calls(t.a[2],'bottom_value','new','default')): return 'the join starts from '+short(t.a[2],60)
            ok=0; it=[core(v)]
            acc=core(acc)
            js=[e for e in R.nevents if last(e.name)=='join' and len(e.args)==2]
            if acc.op!='Acc':
                return 'the states at the returns are combined to '+short(acc,80)
            for e in js:
                if core(e.args[0]) is acc and state(e.args[1],bs[0]) and not cut(e.loops): ok=lor(ok,e.guard)
            return True if ok and R.covered(assume(ok)) else 'not every return\'s state is joined'
        # a variable joined with each return's state
        jg={}
        for e in R.nevents:
            if last(e.name)=='join' and len(e.args)==2 and len(e.loops)==1 and not cut(e.loops) and allr(e.loops[0].binder.a[0]) and state(e.args[1],e.loops[0].binder):
                k=(core(e.args[0]),e.loops[0].binder); jg[k]=lor(jg.get(k,0),assume(e.guard))
        for (x,b),jn in jg.items():
            base_=x
            while base_.op=='VField': base_=core(base_.a[0])
            if x is t or (t.op=='Obj' and mentions(x,t)): 
                if R.covered(jn): return True
            if x is t and t.op=='Index' and t.a[0] is field(s.pf,'state'):
                # the first return's state, joined with those of the others
                f=core(t.a[1])
                if f.op=='FirstOf' and f.a[0].op=='Seq' and len(f.a[0].a)==1:
                    (bs,h,v),=f.a[0].a
                    rest=jn
                    for y in B.support(jn):
                        z=B.terms[y]
                        if z.op=='Take' and z.a[0]=='skip' and z.a[1] is Int(1) and len(z.a)==3: rest=B.cofactor(rest,y,1)
                    if len(bs)==1 and h==1 and allr(bs[0].a[0]) and core(v) is mk('Elem',*bs[0].a) and R.covered(rest): return True
            if t.op=='FirstOf' and base_.op=='Prev' and R.covered(jn):
                c=t.a[0]
                if c.op=='Seq' and len(c.a)==1 and len(c.a[0][0])==1 and c.a[0][1]==1 and allr(c.a[0][0][0].a[0]) and state(c.a[0][2],c.a[0][0][0]): return True
            if t.op=='Fold' and base_ is core(t.a[0]) and t.a[1].op=='Agg' and t.a[1].a[1]=='None':
                P=t.a[0]; some=is_variant(P,'Some'); ok=R.covered(jn,some)
                for h,y in split(t.a[2],1):
                    in_=fields_of(y).get('0') if agg(y,'Option','Some') else None
                    if in_ is None: ok=False; continue
                    kept=core(in_) is x
                    if not(kept or (state(in_,b) and not sat(land(h,some)))): ok=False
                if ok: return True
            if t.op=='Fold' and x is core(t.a[0]) and t.a[2] is x and calls(t.a[1],'bottom_value') and R.covered(jn): return True
        return 'the state asked is '+short(t,120)
    def usual(s,t):
        if t.op=='Is' and t.a[1]=='Some' and core(t.a[0]).op in('Fold','Call'):
            k=('some',t)
            if k not in s.lr: s.lr[k]=None; s.lr[k]=1 if s.final(t.a[0]) is True else None
            if s.lr[k] is not None: return s.lr[k]
        return usual(t)
    def assume(s,g): return assume(g,s.usual)
    def deps(s,t):
        """(state, place) of a dependency set"""
        t=core(t)
        if t.op=='Call' and last(t.a[0])=='deps_for' and len(t.a)==4 and core(t.a[1]) is s.an: return core(t.a[2]),core(t.a[3])
        return None
    def pairs(s):
        """the reports: (event, secure place, insecure place, canonical condition, why not)"""
        out=[]
        for e in s.reports:
            g=s.assume(e.guard); p=q=None; bad=[]; dets=[]; want=1
            ts=sorted({x for x in walk_g(Bool(g)) if x.op=='Call' and last(x.a[0])=='type_implements_trait'},key=pp)
            for x in ts:
                k=s.trait(x)
                if isinstance(k,str): bad.append(k); continue
                vs=TM.ENUMVARS.get('EvaluationResult')
                w=lor(is_variant(x,'EvaluatedToOk',vs),is_variant(x,'EvaluatedToOkModuloRegions',vs)); want=land(want,w)
                if k[0]=='Secure' and p in(None,k[1]): p=k[1]
                elif k[0]=='Insecure' and q in(None,k[1]): q=k[1]
                else: bad.append('the trait asked about is '+k[0])
            sup=0
            for x in B.atoms(g):
                y=None
                if x.op=='Call' and last(x.a[0]) in('is_superset','is_subset') and len(x.a)==3: y=(x.a[1],x.a[2]) if last(x.a[0])=='is_superset' else (x.a[2],x.a[1])
                elif x.op=='Ex' and x.a[0].op=='B':
                    b=x.a[0]; el=mk('Elem',*b.a)
                    for z in B.atoms(x.a[1]):
                        if z.op=='Call' and last(z.a[0])=='contains' and core(z.a[2]) is el and x.a[1]==lnot(atom(z)): y=(z.a[1],b.a[0])
                if y is None: continue
                a,b=s.deps(y[0]),s.deps(y[1])
                if a is None or b is None: continue
                for st in {a[0],b[0]}:
                    f=s.final(st)
                    if f is not True: bad.append(f)
                if a[1] is q and b[1] is p and q is not None: sup=land(1,atom(x)) if x.op!='Ex' else lnot(atom(x))
                else: bad.append('the dependencies compared are those of '+short(a[1],60)+' and '+short(b[1],60))
            if p is None or q is None: bad.append('it does not depend on which places are secure and insecure')
            if not sup: bad.append('it does not compare the places\' dependencies')
            out.append((e,p,q,land(want,sup) if not bad else 0,bad,g))
        return out
@check('C31','deps_for reads the place\'s dependencies in the given state (C01, C02); interior_places lists the place and all places inside it visible from the function; type_implements_trait decides trait implementation.')
def C31(L,rep):
    rep.rule('The visitor\'s walk and per-body analysis calls are unconditional; each report in the checker\'s analysis is evaluated: it ranges over all interior places of all locals twice, and its condition is equivalent to secure(p) and insecure(q) and deps(q) including deps(p) in the join of the states at all returns')
    after(L,rep,walk=True); visitor(L,rep)
    A=Analyze(L,rep); R=A.R
    P=A.pairs()
    if not rep.ok('reports',len(P)>=1,'the analysis reports nothing'): return
    seen=set()
    for i,(e,p,q,want,bad,g) in enumerate(P):
        if not rep.ok('condition-%d'%i,not bad,'; '.join(sorted(set(bad))[:3]),e.site): continue
        rl=land(real(g),A.assume(exists(e.loops,want)))
        a=land(land(g,rl),lnot(want)); b=land(land(want,rl),lnot(land(g,rl)))
        rep.ok('only-flows-%d'%i,not sat(a),'a pair is reported although '+gshow(a),e.site)
        rep.ok('all-flows-%d'%i,not sat(b),'a pair is not reported although '+gshow(b),e.site)
        cuts=[A.assume(c) for l in e.loops for c in l.cuts]
        cuts=[c for c in cuts if sat(land(c,real(c)))]
        rep.ok('no-early-stop-%d'%i,not cuts,'the reporting loop ends when '+(gshow(cuts[0]) if cuts else ''),e.site)
        rng=set()
        for l in e.loops:
            b=l.binder
            if l.kind=='callback' or b.op!='B': rep.ok('ranges-%d'%i,False,'reports are made in '+short(b,80),e.site); continue
            c=b.a[0]; loc=A.interior(c)
            if loc is not None:
                ix=core(loc); ok=ix.op in('Idx','Elem') and A.locals_(ix.a[0]) and any(x.binder.op=='B' and x.binder.a[0] is ix.a[0] and x.binder.a[1]==ix.a[1] for x in e.loops)
                rep.ok('all-locals-%d'%i,ok,'the places ranged over are those of '+short(ix,80),e.site)
                rng.add(mk('Elem',*b.a))
            else: rep.ok('ranges-%d'%i,A.locals_(c),'the places ranged over are '+short(c,100),e.site)
        rep.ok('pairs-%d'%i,{core(x) for x in rng}>={p,q} and p is not q,'the reports do not range over all pairs of places',e.site)
        for a in e.args[1:]:
            for x,n in((p,'p'),(q,'q')):
                if mentions(a,x): seen.add(n)
    rep.ok('shows-both',seen=={'p','q'},'the reports do not show both places')
def after(L,rep,walk=False):
    """evaluation of the callback after analysis: (run, visitor value)"""
    R=L.rust.run(rep,'after_analysis',CR,impl='Callbacks')
    w=[e for e in R.nevents if 'hir_visit' in last(e.name) or last(e.name) in('visit_all_item_likes_in_crate','hir_walk_toplevel_module')]
    if walk:
        g=0
        for e in w:
            if last(e.name) in('hir_visit_all_item_likes_in_crate','visit_all_item_likes_in_crate','hir_walk_toplevel_module') and not e.loops and len(e.args)>1 and any(x.op=='Agg' and x.a[0].split('::')[-1]=='IfcVisitor' or x.op=='Obj' for x in walk_g(e.args[1])): g=lor(g,e.guard)
        rep.ok('visits-crate',R.covered(g),'the crate\'s bodies are not visited when '+gshow(lnot(g)),w[0].site if w else '')
        nf=L.rust.prog
    return R
def visitor(L,rep):
    prog=L.rust.prog
    n=0
    for b in list(prog.bodies.values()):
        im=b.get('impl')
        if b['crate']!=CR or not im or last(im['head'])!='IfcVisitor' or b['kind']!='AssocFn' or last(im.get('trait') or '')!='Visitor': continue
        name=b['path'].split('::')[-1]
        R=L.rust.run(rep,name,CR,impl='IfcVisitor',trait='Visitor',opaque=('compute_flow','analyze'))
        me=R.params[0]
        if name=='visit_nested_body':
            n+=1; bid=[p for p in R.params[1:]][0]
            wg=ag=0
            for e in R.nevents:
                if last(e.name) in('walk_body','visit_body') and len(e.args)==2 and not e.loops and e.args[0] is me:
                    x=core(e.args[1])
                    if x.op=='Call' and last(x.a[0]) in('hir_body','body') and core(x.a[-1]) is bid: wg=lor(wg,e.guard)
                if last(e.name)=='analyze' and not e.loops and len(e.args)==2:
                    f=[core(x) for x in e.args]
                    x=f[1]; ok=f[0] is bid and x.op=='Call' and last(x.a[0])=='compute_flow' and core(x.a[2]) is bid
                    if ok:
                        y=core(x.a[3]); z=core(y.a[2]) if y.op=='Call' and last(y.a[0])=='get_body_with_borrowck_facts' else None
                        ok=z is not None and z.op=='Call' and last(z.a[0])=='hir_body_owner_def_id' and core(z.a[2]) is bid
                    if ok: ag=lor(ag,e.guard)
            rep.ok('nested',R.covered(wg),'the bodies nested in a body are not visited when '+gshow(lnot(wg)))
            rep.ok('analyses',R.covered(ag),'a body is not analysed when '+gshow(lnot(ag)))
        elif name.startswith('visit_'):
            wg=0
            for e in R.nevents:
                if last(e.name) in('walk_'+name[6:],) and not e.loops and e.args and e.args[0] is me: wg=lor(wg,e.guard)
            rep.ok('walks-'+name,R.covered(wg),name+' does not visit what is inside when '+gshow(lnot(wg)))
    rep.ok('visitor',n==1,'the visitor does not handle nested bodies')
@check('C32','Output succeeds or the process ends; walk functions call the visitor\'s methods only.')
def C32(L,rep):
    rep.rule('The analysis\' returned verdict is compared with the existential closure of its report condition; every store to the visitor\'s verdict is of Yes or of its old value, and happens when the analysis returned Yes; the clean message is guarded by the verdict after the visit being No')
    A=Analyze(L,rep); R=A.R
    yes=no=0
    for g,v in alts(R.norm(R.ret)):
        if agg(v,'Result','Ok'):
            for h,w in split(fields_of(v)['0'],g):
                if agg(w,'IssueFound','Yes'): yes=lor(yes,h)
                elif agg(w,'IssueFound','No'): no=lor(no,h)
                else:
                    yes=lor(yes,land(h,isv(w,'IssueFound','Yes'))); no=lor(no,land(h,isv(w,'IssueFound','No')))
        elif v.op not in('Agg','Undef'): rep.ok('verdict-known',False,'the verdict is '+short(v))
    rep.ok('verdicts',yes!=0 and no!=0,'the analysis always returns the same verdict')
    rep.ok('exclusive',not sat(land(yes,no)),'')
    yes,no=A.assume(yes),A.assume(no)
    for i,(e,p,q,want,bad,g) in enumerate(A.pairs()):
        if bad: want=g
        found=exists(e.loops,want); found=A.assume(found)
        rl=real(yes,no,found)
        f=lor(found,0)
        bad1=land(land(no,f),rl)
        rep.ok('reported-is-found-%d'%i,not sat(bad1) and implies(land(f,rl),lor(yes,gnorm(R.I,R.pg))),'a body with a reported pair gets the clean verdict when '+gshow(bad1),e.site)
        bad2=land(land(yes,lnot(f)),rl)
        rep.ok('found-is-reported-%d'%i,not sat(bad2),'a body without a reported pair counts as a finding when '+gshow(bad2),e.site)
    # the visitor keeps it
    V=L.rust.run(rep,'visit_nested_body',CR,impl='IfcVisitor',trait='Visitor',opaque=('compute_flow','analyze'))
    me=V.params[0]; fld=[x for x in V.nevents if x.name=='Store' and x.args[0].op=='Field' and x.args[0].a[0] is me]
    verd={e.args[0].a[1] for e in fld}
    rep.ok('remembers',len(verd)==1,'the verdicts of bodies are kept in '+(', '.join(sorted(verd)) or 'nothing'))
    if len(verd)!=1: return
    vf=verd.pop(); got=0
    def old(x):
        x=core(x)
        return x is field(me,vf) or (x.op=='Call' and x.a[0]=='<after visit>' and old(x.a[1]))
    V2=V; an=[e for e in V.nevents if last(e.name)=='analyze']
    tv=TM.ENUMVARS.get('IssueFound')
    vg=0
    for e in an:
        r=e.ret if isinstance(e.ret,T) else None
        if r is not None:
            for h,y in alts(vfield(core(r),'Ok','0')): vg=lor(vg,land(land(e.guard,h),is_variant(y,'Yes',tv)))
    rep.ok('asks-analysis',vg!=0,'the visitor does not look at the analysis\' verdict')
    for e in fld:
        rep.ok('store-loops',not e.loops,'the verdict is stored in a loop',e.site)
        for h,x in split(e.args[1],e.guard):
            y=core(x)
            if agg(y,'IssueFound','Yes'): got=lor(got,h)
            elif old(y): got=lor(land(got,1),land(h,is_variant(y,'Yes',tv)))
            else:
                lost=land(land(h,lnot(is_variant(y,'Yes',tv))),1)
                for z in {z for z in atoms_in(h) if z.op in('Is','Bit') and old(z.a[0])}: lost=land(lost,is_variant(z.a[0],'Yes',tv))
                okk=any(old(z.a[0]) for z in atoms_in(h) if z.op in('Is','Bit')) and not sat(lost)
                rep.ok('keeps-finding',okk,'a finding is forgotten: the verdict becomes '+short(y,80)+' when '+gshow(h,100),e.site)
                got=lor(got,land(h,is_variant(y,'Yes',tv)))
    held=0
    for z in {z.a[0] for e in fld for z in atoms_in(e.guard) if z.op in('Is','Bit') and old(z.a[0])}: held=lor(held,is_variant(z,'Yes',tv))
    miss=land(land(vg,lnot(got)),lnot(held))
    rep.ok('counts-finding',V.covered(lor(got,held),vg),'a finding is not counted when '+gshow(miss))
    # the message
    C=after(L,rep)
    msg=[e for e in C.nevents if last(e.name) in('write_fmt','write_all','_print','_eprint') ]
    rep.ok('clean-message',len(msg)>=1,'the clean verdict is never printed')
    vis=[e for e in C.nevents if 'hir_visit' in last(e.name) or last(e.name) in('visit_all_item_likes_in_crate','hir_walk_toplevel_module')]
    clean=0; text=lambda e: ' '.join(x.a[0] for a in e.args for x in walk(a) if x.op=='Str'); judged=lambda e: any(z.op in('Is','Bit') and z.a[0].op=='Call' and z.a[0].a[0]=='<after visit>' for z in atoms_in(assume(e.guard)))
    others=[]; cleans=set(); verdicts={text(e) for e in msg if judged(e)}
    # log output: printed whatever the verdict is, and not the text of a verdict
    for e in msg if not verdicts else [e for e in msg if judged(e) or text(e) in verdicts]:
        g=assume(e.guard)
        pr=[z.a[0] for z in atoms_in(g) if z.op in('Is','Bit') and z.a[0].op=='Call' and z.a[0].a[0]=='<after visit>']
        pr=list(dict.fromkeys(pr))
        ok=len(pr)==1 and agg(core(pr[0].a[1]),'IssueFound','No')
        w=is_variant(pr[0],'No',tv) if ok else 0
        if w and not sat(land(g,w)): others.append(e); continue          # a message for the other verdict
        clean+=1; cleans.add(text(e).strip())
        rep.ok('clean-only',ok and implies(g,w) and all(v.seq<e.seq for v in vis),'the clean verdict is printed when '+gshow(g),e.site)
        rep.ok('clean-when-clean',ok and implies(w,lor(g,gnorm(C.I,C.pg))),'the clean verdict is not printed when '+gshow(land(w,lnot(g))),e.site)
    for e in others: rep.ok('other-verdict',text(e).strip() not in cleans,'the clean verdict is printed although something was found',e.site)
    rep.ok('clean-verdict',clean>=1,'the clean verdict is never printed')
@check('C33','source_map lookups of spans of the analysed function succeed; spans cover at least one line; the file of a function in a workspace crate has a name; indexing a local by a place of the body and a state by a location of the body succeed; the traits crate exports Secure and Insecure.')
def C33(L,rep):
    rep.rule('Every panicking construct reachable in the checker\'s analysis (explicit panics, unwraps, assertions, indexing) is listed with its path condition; each must be one of the allowed lookups')
    A=Analyze(L,rep); R=A.R
    base(L,rep,R,A)
    for g,v in alts(R.norm(R.ret)):
        if not sat(g) or v.op=='Undef': continue
        if agg(v,'Result','Err'):
            for h,w in split(fields_of(v)['0'],g):
                x=core(w)
                while x.op in('VField','Call') and not is_io(x):
                    if x.op=='VField': x=core(x.a[0])
                    elif last(x.a[0]) in('from','into','new','context') and len(x.a)>1: x=core(x.a[1])
                    else: break
                rep.ok('errors',is_io(x),'the analysis fails with '+short(x,100)+', which ends the checker, when '+gshow(h,100))
        elif v.op!='Agg': rep.ok('errors',False,'the result is '+short(v,80))
    V=L.rust.run(rep,'visit_nested_body',CR,impl='IfcVisitor',trait='Visitor',opaque=('compute_flow','analyze'))
    for x in V.I.panics:
        y=core(x[3]) if len(x)>3 and isinstance(x[3],T) else None
        rep.ok('visit-panics',x[1]!='panic' and y is not None and y.op=='Call' and last(y.a[0])=='analyze','visiting a body can panic: '+(short(y,80) if y is not None else str(x[1])),x[1])
    C=after(L,rep)
    for x in C.I.panics:
        y=core(x[3]) if len(x)>3 and isinstance(x[3],T) else None
        rep.ok('message-panics',y is not None and is_io(y),'the verdict can panic: '+(short(y,80) if y is not None else str(x[1])),x[1])
LOOK=('span_to_lines','span_to_snippet')
def base(L,rep,R,A):
    for x in R.I.panics:
        g=gnorm(R.I,x[0]); y=core(R.norm(x[3])) if len(x)>3 and isinstance(x[3],T) else None
        if not sat(g): continue
        ok=False
        if y is not None:
            top=[z for z in walk_g(y) if z.op=='Call' and last(z.a[0]) in LOOK]
            if y.op=='Call' and last(y.a[0]) in LOOK: ok=True
            elif y.op=='Call' and last(y.a[0])=='file_name': ok=True
            elif is_io(y): ok=True
            elif top:      # first / last line of the lines of a span
                ok=all(z.op in('Agg','Nth','NthBack','LastOf','FirstOf','Elem') or (z.op=='Agg') for h,z in alts(y)) and all(z.op!='Agg' or not sat(land(land(g,h),lnot(emptylines(land(g,h))))) for h,z in alts(y) if z.op=='Agg' and z.a[1]=='None')
        else:
            ok=not sat(land(g,real(g)))
        rep.ok('panics',ok,'the analysis can panic'+(' on '+short(y,90) if y is not None else '')+' when '+gshow(g,140),x[1] if isinstance(x[1],str) else '')
    for x in R.I.partial:
        g=gnorm(R.I,x[0]); c,i=R.norm(x[3]) if isinstance(x[3],T) else x[3],R.norm(x[4]) if isinstance(x[4],T) else x[4]
        if not sat(g): continue
        ok=False
        if isinstance(c,T) and isinstance(i,T):
            i=core(i)
            if i.op=='Str': ok=A.items(x[3]) and i.a[0] in('Secure','Insecure')
            elif c is field(A.pf,'state'): ok=a_return(i)
            elif A.locals_(c): ok=i.op=='Field' and i.a[1]=='local' or i.op=='Idx' and A.locals_(i.a[0])
        rep.ok('lookups',ok,'a lookup can fail: '+(short(c,60) if isinstance(c,T) else str(c))+'['+(short(i,60) if isinstance(i,T) else '')+'] when '+gshow(g,100),'')
def a_return(i):
    if i.op=='FirstOf' and i.a[0].op=='Seq': return bool(i.a[0].a) and all(a_return(core(v)) for bs,h,v in i.a[0].a)
    return i.op=='Elem' and core(i.a[0]).op=='Call' and last(core(i.a[0]).a[0])=='all_returns'
def emptylines(g):
    """the cases in which the looked-up lines are empty"""
    r=0
    for t in B.atoms(g):
        if t.op=='Empty' and any(z.op=='Call' and last(z.a[0]) in LOOK for z in walk_g(t.a[0])): r=lor(r,atom(t))
    return r
from sym import exg
