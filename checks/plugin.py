"""C21, C23, C25, C30: the analysis drivers (crates/flowistry_ide/src/plugin.rs, crates/flowistry_ifc/src/lib.rs)."""
from registry import check
from rules import *
from analysis import core
import wire
DIMS={'context_mode':('context-mode','ContextMode','SigOnly'),'mutability_mode':('mutability-mode','MutabilityMode','DistinguishMut'),'pointer_mode':('pointer-mode','PointerMode','Precise')}
EM=lambda t: t.op=='Static' and last(str(t.a[0]))=='EVAL_MODE'
def set_events(R): return [e for e in R.nevents if last(e.name)=='set_guard' and EM(e.args[0])]
class Driver:
    """the plugin's run(): compiler runs and the callbacks they are given"""
    def __init__(s,L,rep,crate='flowistry_ide',impl='FlowistryPlugin'):
        s.L=L; s.crate=crate; s.R=L.rust.run(rep,'run',crate,impl=impl)
        s.comp=[e for e in s.R.nevents if last(e.name)=='run_compiler']
    def cb(s,e):
        """the callbacks object handed to the compiler"""
        t=e.args[1]
        while t.op in('Ref','Box'): t=t.a[0]
        return t
    def method(s,rep,cb,name,**k):
        """evaluation of a Callbacks method on this object (None: the default method)"""
        if cb.op!='Agg': return None
        l=[b for b in s.L.rust.prog.find(name,s.crate,impl=last(cb.a[0])) if b['impl']['trait'] and last(b['impl']['trait'])=='Callbacks']
        if not l: return None
        b=wire.one(l,name+' of '+cb.a[0])
        args=tuple([cb]+[mk('Param',b['path'],i,b['locals'][i+1][2] or 'arg%d'%i) for i in range(1,b['argc'])])
        key=(b['path'],cb)
        if key not in _runs: _runs[key]=Run(s.L.rust,b,(),args)
        R=_runs[key]
        rep.analyzed|=R.I.analyzed; rep.ncalls+=R.I.ncalls; rep.nev+=len(R.events); rep.entries.append(b['path'])
        return R
_runs={}
@check('C21','clap fills each argument from the option of that name with the value its FromStr gives, and rejects values for which FromStr fails; rustc_plugin hands the parsed arguments to the driver as JSON.','fluid_let: a value set is in force on that thread until its guard is dropped; the compiler calls back on another thread.')
def C21(L,rep):
    rep.rule('Each option\'s name parser is the identity between names and variants and rejects every other string; clap and serde carry each option to the field of the same name; the mode set before the analysis runs is, per dimension, the given option or else the precise modular variant, it is set (and not yet dropped or changed) where the analysis of a body is called, on the thread it is called on, nothing else sets a mode, and with no mode set a relaxation is never active.')
    P=L.rust.prog
    # 1 names
    for d,(opt,ty,dflt) in DIMS.items():
        vs=TM.ENUMVARS.get(ty)
        if not rep.ok('variants-'+ty,bool(vs) and dflt in vs,'no modes of '+ty): continue
        R=L.rust.run(rep,'from_str','flowistry',impl=ty); m,o=wire.strings(R)
        for v in vs:
            t=m.get(v)
            rep.ok('name-'+v,t is not None and t.op=='Agg' and t.a[1]=='Ok' and core(fields_of(t)['0']).a[1:2]==(v,),'--%s %s selects %s'%(opt,v,short(t) if t is not None else 'nothing'))
        for k,t in m.items():
            if k not in vs: rep.ok('other-name',t.op=='Agg' and t.a[1]=='Err','--%s accepts the name %s'%(opt,k))
        rep.ok('unknown-'+ty,bool(o) and all(v.op=='Agg' and v.a[1]=='Err' for g,v in o),'an unknown name of a %s is not rejected'%opt)
        rep.ok('partition-'+ty,all(all(t.op=='Eq' and any(x.op=='Str' for x in t.a) and R.params[0] in t.a for t in B.atoms(g)) for g,v in o),'whether a name is rejected depends on something other than the name')
        # serde round trip of the enum
        S,sh=wire.ser(L,ty); dk=wire.de_keys(L,ty)
        DE=wire.run(L,wire.one(wire.derived(L,None,ty,'visit_enum','::deserialize::__Visitor'),'reader of '+ty))
        for v in vs:
            nm=[x[1] for g,x in sh if x[0]=='unit' and implies(is_variant(S.params[0],v,vs),g)]
            if not rep.ok('sent-'+v,len(nm)==1 and nm[0] in dk,'mode %s is not transmitted to the driver'%v): continue
            ok=False
            for g,t in alts(DE.norm(DE.ret)):
                if t.op=='Agg' and t.a[1]=='Ok' and core(fields_of(t)['0']).a[1:2]==(v,):
                    for q in B.atoms(g):
                        if q.op in('Is','Bit') and last((wire.core_call(q.a[0]) or mk('Call','')).a[0])=='variant' and q.a[0].op=='Field':
                            k=q.a[0]; fv=tuple(sorted(set(dk.values()))) if q.op=='Is' else q.a[2]
                            if implies(g,is_variant(k,dk[nm[0]],fv)): ok=True
            rep.ok('received-'+v,ok,'the driver does not receive mode %s when it is sent'%v)
    # 2 clap and serde of the arguments
    C=wire.clap(L,'FlowistryPluginArgs'); CR,vals=wire.clap_read(L,'FlowistryPluginArgs')
    S,sh=wire.ser(L,'FlowistryPluginArgs'); D=wire.de_struct(L,'FlowistryPluginArgs')
    rep.ok('parsed',bool(vals),'the arguments are never accepted')
    for d,(opt,ty,dflt) in DIMS.items():
        a=[x for x in C['args'] if x['long']==opt]
        if not rep.ok('option-'+opt,len(a)==1,'there is no option --'+opt): continue
        a=a[0]
        rep.ok('parser-'+opt,a['parser'] is not None and a['parser'].op=='Call' and a['parser'].a[0]=='_impls_FromStr::value_parser' and a['action']=='Set' and (a['required'] is False or a['required'] is Bool(0)),'--%s does not take a name of a %s'%(opt,ty))
        bad=[x for x in a['other'] if x.startswith(('default_','env','ignore_case','value_delimiter','num_args','conflicts','overrides','exclusive'))]
        rep.ok('plain-'+opt,not bad,'--%s has %s'%(opt,', '.join(bad)))
        for g,v in vals:
            t=core(fields_of(v).get(d,BOT))
            rep.ok('read-'+opt,t.op=='Call' and t.a[0] in('ArgMatches::remove_one','ArgMatches::get_one') and t.a[2] is Str(a['id']),'the %s of the arguments is %s'%(d,short(t)))
        keys=[k for g,x in sh if x[0]=='struct' for k,(t,h) in x[1].items() if t is field(S.params[0],d) and wire.io_ok(h)==1]
        rep.ok('transmitted-'+opt,len(keys)==1 and D.get(d)=={keys[0]},'--%s is not passed on to the driver'%opt)
    A=L.rust.run(rep,'args','flowistry_ide',impl='FlowistryPlugin')
    for g,v in alts(A.norm(A.ret)):
        t=fields_of(v).get('args') if v.op=='Agg' else None
        rep.ok('arguments-unchanged',t is not None and core(t).op=='Call' and last(core(t).a[0]) in('parse_from','parse'),'the arguments handed to the driver are '+short(v))
    # 3 the mode that is set
    Dr=Driver(L,rep); R=Dr.R; pa=R.params[2]; seen=set()
    n=0
    def dims(M,env,what):
        for d,(opt,ty,dflt) in DIMS.items():
            ok=True
            for g,v in alts(field(M,d)):
                for h,w in split(v,g):
                    w=core(w)
                    if not sat(h): continue
                    o=field(pa,d)
                    if w is vfield(o,'Some','0'): ok&=implies(h,is_variant(o,'Some'))
                    elif w.op=='Agg' and w.a[0].split('::')[-1]==ty and w.a[1]==dflt: ok&=implies(h,is_variant(o,'None'))
                    else: ok=False
            rep.ok(what+'-'+d,ok,'the %s in force is %s'%(d,short(field(M,d))))
    def in_force(R,ev):
        """the modes set where the event happens: [(guard, mode)], or None where none is"""
        cur=[(1,None)]
        for e in R.nevents:
            if e.seq>=ev.seq: break
            if last(e.name)=='set_guard' and EM(e.args[0]) :
                cur=[(land(g,lnot(e.guard)),m) for g,m in cur]+[(e.guard,(e.args[1],e.ret))]
            elif e.name=='Drop' and last(e.args[0].a[0])=='set_guard' and EM(e.args[0].a[1]):
                cur=[(land(g,lnot(e.guard)),m) for g,m in cur]+[(land(g,e.guard),None) for g,m in cur]
            cur=[(g,m) for g,m in cur if sat(g)]
        return [(land(g,ev.guard),m[0] if m else None) for g,m in cur if sat(land(g,ev.guard))]
    copied=mk('Call','DynamicVariable::copied',[e.args[0] for e in set_events(R)][0]) if set_events(R) else None
    for e in Dr.comp:
        cb=Dr.cb(e)
        if not rep.ok('callbacks',cb.op=='Agg','the compiler is run with '+short(cb)): continue
        at=[x for x in R.nevents if x.name=='DynamicVariable::copied' and x.seq<e.seq and sat(land(x.guard,e.guard)) and EM(x.args[0])]
        outer=[(g,m) for g,m in in_force(R,at[-1] if at else e)]
        if copied is not None:
            # what EVAL_MODE.copied() gave when the callbacks were made
            ms=[(g,m) for g,m in outer]
            val=mkalt([(g,mkagg('Option','Some',('0',),(m,)) if m is not None else mkagg('Option','None',(),())) for g,m in ms],e.guard)
        AR=Dr.method(rep,cb,'after_analysis')
        if AR is None: continue
        seen|=AR.I.analyzed
        for a in AR.nevents:
            if a.name!='FlowistryAnalysis::analyze': continue
            n+=1
            for g,M in in_force(AR,a):
                if not rep.ok('set-for-analysis',M is not None,'a body is analysed with no mode set when '+gshow(g),a.site): continue
                if copied is not None: 
                    M=subst(M,{copied:val}); g=gsubst(g,{copied:val})
                if not sat(g): continue
                dims(M,g,'mode')
    seen|=R.I.analyzed
    rep.ok('analysed',n>0,'no analysis is run')
    # 4 nothing else sets a mode
    for b,t,f in callsites(P,lambda f:f['fn'].split('::')[-1] in('set_guard','set') and 'DynamicVariable' in f['fn']):
        tys=' '.join(str(x) for x in f.get('args',[]))
        if 'EvalMode' not in tys or is_test(b): continue
        rep.ok('only-requested',b['path'] in seen,'the mode is also set in '+b['path'],b['path'])
    # 5 inactive by default
    R=L.rust.run(rep,'is_extension_active','flowistry'); f=R.params[0]
    cp=[x for x in atoms_in(R.ret) if x.op=='Call' and x.a[0]=='DynamicVariable::copied' and EM(x.a[1])]
    if rep.ok('consulted',len(set(cp))==1,'whether a relaxation is active does not depend on the mode set'):
        c=cp[0]
        for g,v in R.norm(R.ret).op=='Alt' and R.norm(R.ret).a or [(1,R.norm(R.ret))]:
            if v.op=='Bool': rep.ok('inactive',not sat(land(g,v.a[0])),'a relaxation is active when '+gshow(land(g,v.a[0])))
            else: rep.ok('active',v.op=='CallV' and v.a[0] is f and v.a[1] is vfield(c,'Some','0') and implies(g,is_variant(c,'Some')),'a relaxation is active if %s when %s'%(short(v),gshow(g)))
def is_test(b): return any(x in('test','tests','test_utils') for x in b['path'].split('::'))

# ------------------------------------------------------------------ C22
def mode_atoms(g): return [v for v in B.support(g) if any(EM(x) for x in walk(B.terms[v]))]
def mode_is(term_guard,field_,variant,ty):
    """guard of 'a mode is set and its field_ is variant'"""
    r=0
    for t in atoms_in(term_guard):
        f=t.a[0] if t.op in('Is','Bit') and isinstance(t.a[0],T) else t
        if f.op=='Field' and f.a[1]==field_ and any(EM(x) for x in walk(f)):
            c=f.a[0]
            c=c.a[0] if c.op=='VField' else None
            if c is not None: r=lor(r,land(is_variant(c,'Some'),is_variant(f,variant,TM.ENUMVARS.get(ty))))
    return r
def project(g,c):
    """what g requires apart from the mode, when c holds of the mode"""
    g=land(g,c)
    for v in mode_atoms(g): g=B.exists(g,v)
    return g
SHRINK=('clear','clear_row','remove','retain','subtract','intersect','take','truncate','pop','difference')
@check('C22','The functions consulting a mode are those whose evaluation reads EVAL_MODE; dependencies through the sets they build are monotone (C05, C11-C13).','Place::ty is the type of a place; interior_pointers lists the pointers of a local with their lifetimes.')
def C22(L,rep):
    rep.rule('For every function that consults the mutability or pointer mode: each element it adds or returns with the precise mode is also added or returned with the relaxed one, and nothing is removed because a mode is relaxed; the modes are consulted nowhere else than in such functions, and the context mode only decides whether calls are analysed through their callees. In conservative pointer mode, for every two lifetimes of pointers of the body one of which points to the same type as one of the other, and only for those, the flow relation gets the pair in both directions.')
    P=L.rust.prog; n=0
    users=[b for b,t,f in callsites(P,lambda f:f['fn'].split('::')[-1] in('is_extension_active',) or (f['fn'].split('::')[-1] in('copied','cloned','get') and 'DynamicVariable' in f['fn'] and 'EvalMode' in str(f.get('args')))) if not is_test(b) and b['crate']=='flowistry' and b['name']!='is_extension_active']
    rep.ok('consulted',len(users)>=4,'the modes are consulted in %d functions only'%len(users))
    seen=set()
    for b in users:
        while b['kind']=='Closure': 
            o=P.bodies.get(b['path'].rsplit('::{closure',1)[0])
            if o is None: break
            b=o
        if b['path'] in seen: continue
        seen.add(b['path'])
        R=Run(L.rust,b,('recurse_into_call','transfer_function','deps_for','influences')) if b['path'] not in _runs else _runs[b['path']]
        _runs[b['path']]=R
        rep.analyzed|=R.I.analyzed; rep.ncalls+=R.I.ncalls; rep.nev+=len(R.events); rep.entries.append(b['path'])
        groups={}
        def add(k,site,loops,g,grow):
            q=groups.setdefault((k,tuple(l.binder for l in loops)),[0,0,site,grow,set()])
            act=0; gg=g
            for d,v,ty in(('mutability_mode','IgnoreMut','MutabilityMode'),('pointer_mode','Conservative','PointerMode')):
                act=lor(act,mode_is(g,d,v,ty))
            ms=[B.terms[v] for v in mode_atoms(g)]
            for t in ms:
                f=t.a[0] if t.op in('Is','Bit') else t
                if f.op=='Field': q[4].add(f.a[1])
            q[0]=lor(q[0],project(g,lnot(act)) if act else g); q[1]=lor(q[1],project(g,act) if act else g)
        allg=[]
        for l,g,v in R.nitems(R.ret):
            for h,w in split(v,g):
                cg=land(h,landn(*[lnot(c) for x in l for c in x.cuts]) if any(x.cuts for x in l) else 1)
                add(('returned',w),b['path'],l,cg,True)
        for e in R.nevents:
            nm=last(e.name)
            grow=nm in('insert','union_into_row','Contrib','extend','push','union','union_row','MapInsert','or_insert','append','or_default','init','extend_from_slice','recurse_into_call')
            shrink=nm.startswith(SHRINK)
            if not grow and not shrink: continue
            for h,w in split(mk('L',*e.args),e.guard):
                add((nm,w),e.site,e.loops,h,grow)
                if any(mode_atoms(c) for x in e.loops for c in x.cuts): rep.ok('whole-loop',False,'a loop ends early depending on the mode',e.site)
        for (k,bs),(gi,ga,site,grow,ds) in groups.items():
            if not ds: continue
            n+=1
            what=short(k[1],120)
            if 'context_mode' in ds: rep.ok('context-only-recurses',any(last(e.name)=='recurse_into_call' for e in R.nevents),'the context mode decides about '+what,site)
            if ds=={'context_mode'}: continue
            if grow: rep.ok('adds',implies(gi,ga),'%s is dropped when a mode is relaxed and %s'%(what,gshow(land(gi,lnot(ga)))),site)
            else: rep.ok('keeps',implies(ga,gi),'%s is removed when a mode is relaxed and %s'%(what,gshow(land(ga,lnot(gi)))),site)
    rep.ok('some-relaxation',n>0,'no mode relaxes anything')
    conservative_edges(L,rep)
def conservative_edges(L,rep):
    R=L.rust.run(rep,'build','flowistry',impl='Aliases')
    def cons(g): return mode_is(g,'pointer_mode','Conservative','PointerMode')
    es=[e for e in R.nevents if e.name=='SparseBitMatrix::insert' and cons(e.guard)]
    G={}; M=None; S=None
    if not rep.ok('conservative-edges',bool(es),'conservative mode relates no lifetimes'): return
    for e in es:
        c=cons(e.guard); a,b=e.args[1:3]
        rep.ok('only-if-conservative',implies(e.guard,c),'lifetimes are related although the mode is precise',e.site)
        m=match(('f',('elem','?m','_'),'0'),a); m2=match(('f',('elem','?m','_'),'0'),b)
        if not rep.ok('lifetimes',m is not None and m2 is not None and m['m'] is m2['m'] and a is not b,'%s and %s are related'%(short(a),short(b)),e.site): continue
        M=m['m']; x,y=a.a[0],b.a[0]
        if not rep.ok('every-pair',for_all(e.loops,a,b),'pairs of lifetimes are skipped',e.site): continue
        g=project(e.guard,c); same=0
        for v in sorted(B.support(g)):
            t=B.terms[v]
            if t.op=='Ex' and same_type(t,x,y):
                at=mk('SameTy',M); same=atom(at)
                g=lor(land(same,B.cofactor(g,v,1)),land(lnot(same),B.cofactor(g,v,0)))
        if not rep.ok('same-type',same!=0 and implies(g,same),'lifetimes are related although no two of their pointers point to the same type, when '+gshow(g),e.site): continue
        X,Y=mk('Elem',M,'x'),mk('Elem',M,'y')
        g=gsubst(g,{x:X,y:Y}); S=same
        G=land(1,lor(G if not isinstance(G,dict) else 0,g))
    if isinstance(G,dict): return
    X,Y=field(mk('Elem',M,'x'),'0'),field(mk('Elem',M,'y'),'0')
    need=land(S,lnot(eqg(X,Y)))
    left=land(need,lnot(G))
    # two different lifetimes are ordered one way or the other
    for p,q in((X,Y),(Y,X)):
        left=land(left,lor(ltg(p,q),ltg(q,p))) if left else 0
    rep.ok('both-directions',not sat(left),'two lifetimes of pointers to the same type are not related when '+gshow(left))
    # the lifetimes are those of all pointers of the body
    cov=0; rep.ok('all-pointers-table',M.op=='Obj','the lifetimes related are those of '+short(M))
    for e in R.nevents:
        if not(e.args and e.args[0].op=='Index' and e.args[0].a[0] is M): continue
        if e.name=='Entry::init': continue
        k,v=e.args[0].a[1],(e.args[1] if len(e.args)>1 else None)
        if not rep.ok('table-operation',e.name=='Contrib','the pointers of a lifetime are changed by '+e.name,e.site): continue
        ip=[x for x in walk(k) if x.op=='Elem' and x.a[0].op=='Call' and last(x.a[0].a[0])=='interior_pointers']
        if not rep.ok('filed-by-lifetime',len(set(ip))==1 and k is field(ip[0],'0') and match(('elem',field(ip[0],'1')),v) is not None and any(x.op=='Idx' for x in walk(ip[0].a[0])),'pointers are filed under '+short(k),e.site): continue
        if rep.ok('every-pointer',for_all(e.loops,k,v),'pointers are skipped',e.site):
            g=project(e.guard,cons(e.guard) or 1)
            for w in sorted(B.support(g)):
                t=B.terms[w]
                if t.op=='Eq' and k in t.a and 'UNKNOWN_REGION' in pp(t): g=B.cofactor(g,w,0)
            cov=lor(cov,g)
    rep.ok('all-pointers',R.covered(cov),'pointers are left out when '+gshow(lnot(cov)))
def same_type(t,x,y):
    """t: some pointer of x and some pointer of y point to the same type"""
    b=t.a[0]; inner=t.a[1]
    for p,q in((x,y),(y,x)):
        if b.a[0] is not field(p,'1'): continue
        g=inner; at=[B.terms[v] for v in B.support(g)]
        if len(at)!=1 or at[0].op!='Ex' or atom(at[0])!=g or at[0].a[0].a[0] is not field(q,'1'): continue
        g=at[0].a[1]; eq=[B.terms[v] for v in B.support(g)]
        if len(eq)!=1 or eq[0].op!='Eq' or atom(eq[0])!=g: continue
        pe=mk('Elem',*b.a); qe=mk('Elem',*at[0].a[0].a)
        def ptr(z): 
            m=match(('f',('call',('Place::ty','PlaceRef::ty'),('call',('TyCtxt::mk_place_deref','TyCtxtExt::mk_place_deref'),'_','?p'),'...'),'ty'),z)
            return m['p'] if m else None
        got={ptr(z) for z in eq[0].a}
        if got=={field(pe,'0'),field(qe,'0')}: return True
    return False
