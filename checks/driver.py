"""C23, C24, C25, C27, C30: what the drivers give the compiler, print and touch."""
from registry import check
from rules import *
from places import core
from plugin import Driver,is_test
import wire
CATCH=('catch_fatal_errors','catch_with_exit_code','catch_unwind')
def fn_of(f): return f.get('res') or f['fn']
def agg(t,ty,var=None): return t.op=='Agg' and t.a[0].split('::')[-1]==ty and (var is None or t.a[1]==var)
def last_store(R,f):
    l=[e for e in R.nevents if e.name=='Store' and e.args[0] is f]
    return l
def caught(R):
    """events running the compiler under a guard against fatal errors: [(event, catching call)]"""
    out=[]
    for e in R.nevents:
        if last(e.name)!='run_compiler': continue
        c=None
        for l in e.loops:
            b=l.binder.a[0]
            if l.kind=='callback' and b.op=='CbOf' and last(b.a[0]) in CATCH:
                for x in R.nevents:
                    if last(x.name)==last(b.a[0]) and x.seq<e.seq and sat(land(x.guard,e.guard)): c=x
        out.append((e,c))
    return out
# ------------------------------------------------------------------ C25
def tokens(R,t):
    """the argument list: [('user'|'token', guard, value)] in order"""
    out=[]
    for l,g,v in R.rows(t):
        v=core(R.norm(v)); l=lnorm(R.I,l); g=gnorm(R.I,g)
        if len(l)==1 and not l[0].cuts:
            c=l[0].binder.a[0]
            if c.op=='Call' and last(c.a[0]) in('split','split_whitespace','split_ascii_whitespace') and c.a[1].op=='Str' and v.op=='Elem' and v.a[0] is c and g==1:
                s=c.a[1].a[0]; p=s.split() if len(c.a)==2 or last(c.a[0])!='split' else s.split(sepof(c.a[2]))
                out+=[('token',1,x) for x in p]; continue
            if v.op=='Elem' and v.a[0] is c:
                if c.op=='Agg' and c.a[0]=='<array>':
                    for x in c.a[3:]: out.append(('token',g,core(x).a[0]) if core(x).op=='Str' else ('other',g,x))
                    continue
                out.append(('all',g,c)); continue
        if not l and v.op=='Str': out.append(('token',g,v.a[0])); continue
        out.append(('other',g,v))
    return out
def sepof(t): return chr(t.a[0]) if t.op=='Int' else t.a[0]
def zopts(toks):
    o={}; i=0
    while i<len(toks):
        x=toks[i]
        if x=='-Z' and i+1<len(toks): x='-Z'+toks[i+1]; i+=1
        if x.startswith('-Z'):
            k,_,v=x[2:].partition('='); o[k.replace('_','-')]=v
        i+=1
    return o
YES=('','y','yes','on','true')
ANALYSES=('FlowistryAnalysis::analyze','infoflow::compute_flow','compute_flow')
def analysing(L,R):
    if any(e.name in ANALYSES or last(e.name) in('compute_flow','get_body_with_borrowck_facts') or (last(e.name).startswith('hir_') and 'visit' in e.name) for e in R.nevents): return True
    return False
@check('C25','The compiler honours the options given to it; of two settings of one option the later one counts.')
def C25(L,rep):
    rep.rule('Every run of the compiler: the argument list is evaluated to the elements it is built from (all of the user\'s, then constant tokens), and the callbacks\' config is evaluated for the override of the query providers and the simplified-body switch')
    D=Driver(L,rep); n=0
    for e in D.comp:
        cmd='run'
        tk=tokens(D.R,e.args[0]); u=D.R.params[1]
        users=[i for i,(k,g,c) in enumerate(tk) if k=='all' and c is u and implies(e.guard,g)]
        rep.ok('user-arguments',len(users)==1,'the compiler is not given all of the user\'s arguments, or more than once',e.site)
        const=[x for k,g,x in tk[(users[0]+1 if users else 0):] if k=='token' and implies(e.guard,g)]
        rest=[x for k,g,x in tk if k=='other' or (k=='token' and not implies(e.guard,g)) or (k=='all' and x is not u)]
        rep.ok('known-arguments',not rest,'the compiler is also given '+', '.join(x if isinstance(x,str) else short(x) for x in rest),e.site)
        z=zopts(const)
        rep.ok('identify-regions',z.get('identify-regions') in YES,'regions are not identified',e.site)
        rep.ok('mir-opt-level',z.get('mir-opt-level')=='0','the analysed bodies are optimised at level %s'%z.get('mir-opt-level','the default'),e.site)
        rep.ok('coverage',z.get('maximal-hir-to-mir-coverage') in YES,'bodies do not map back to the whole source',e.site)
        early=zopts([x for k,g,x in tk[:users[0]] if k=='token']) if users else {}
        cb=D.cb(e); A=D.method(rep,cb,'after_analysis')
        if not rep.ok('callbacks',A is not None,'the compiler is run with '+short(cb),e.site): continue
        if not analysing(L,A): continue
        n+=1
        cfg(L,rep,D.method(rep,cb,'config'),last(cb.a[0]))
    rep.ok('analysing-runs',n>=2,'only %d compiler runs analyse bodies'%n)
    D2=Driver(L,rep,'flowistry_ifc','IfcPlugin')
    rep.ok('ifc-runs',len(D2.comp)>=1,'the checker does not run the compiler')
    for e in D2.comp:
        tk=tokens(D2.R,e.args[0])
        rep.ok('ifc-user-arguments',any(k=='all' and c is D2.R.params[1] and implies(e.guard,g) for k,g,c in tk),'the compiler is not given the user\'s arguments',e.site)
        cb=D2.cb(e)
        cfg(L,rep,D2.method(rep,cb,'config'),'ifc '+short(cb,30))
def cfg(L,rep,R,who):
    if not rep.ok('config-'+who,R is not None,who+' does not configure the compiler'): return
    en=[e for e in R.nevents if last(e.name)=='enable_mir_simplification']
    g=0
    for e in en:
        if not e.loops: g=lor(g,e.guard)
    rep.ok('simplified-'+who,R.covered(g),'bodies are not simplified when '+gshow(lnot(g)),en[0].site if en else None)
    f=[e for e in R.nevents if e.name=='Store' and e.args[0].op=='Field' and e.args[0].a[1]=='override_queries']
    ok=0
    for e in f:
        if e.loops: ok=0; continue
        for g,v in alts(e.args[1]):
            g=land(g,e.guard); good=agg(v,'Option','Some') and provides(L,fields_of(v)['0'])
            ok=lor(ok,g) if good else land(ok,lnot(g))
    rep.ok('facts-'+who,R.covered(ok),'borrow facts are not collected when '+gshow(lnot(ok)),f[-1].site if f else None)
def provides(L,t):
    """a function that installs the borrow-fact collection"""
    if t.op=='FnItem':
        p=str(t.a[0])
        if p.endswith('borrowck_facts::override_queries'): return True
        b=L.rust.prog.bodies.get(p)
    elif t.op in('Clos','Fn'): b=L.rust.prog.bodies.get(str(t.a[0]))
    else: return False
    if b is None: return False
    R=Run(L.rust,b)
    g=0
    ps=[p for p in R.params if not p.a[2].startswith('arg0')] if t.op!='FnItem' else R.params
    for e in R.nevents:
        if last(e.name)=='override_queries' and not e.loops and len(e.args)>=2 and list(e.args[-2:])==R.params[-2:]: g=lor(g,e.guard)
    return R.covered(g)
# ------------------------------------------------------------------ C23
def is_output(n): 
    return n in('stdio::_print','stdio::print_to') or n.endswith('io::stdio::_print')
def outputs(R):
    """writes to standard output: [(event, written pieces)]"""
    out=[]
    for e in R.nevents:
        if is_output(e.name): out.append((e,pieces(e.args[0])))
        elif e.args and any(x.op=='Call' and x.a[0] in('stdio::stdout','StandardStream::stdout','io::stdout') for a in e.args[:1] for x in walk(a)) and last(e.name) not in('lock','flush','by_ref','stdout'):
            out.append((e,pieces(e.args[1]) if len(e.args)>1 else [e.args[0]]))
        elif any(x.op=='Call' and x.a[0] in('stdio::stdout','io::stdout') for a in e.args[1:] for x in walk(a)): out.append((e,[e.args[-1]]))
    return out
def pieces(t):
    if t.op=='FmtArgs':
        out=[]
        for x in t.a:
            for y in(x.a[3:] if x.op=='Agg' else [x]): out.append(y.a[1] if y.op=='Fmt' else y)
        return [y for y in out if not(y.op=='Str' and y.a[0].strip()=='')]
    t=core(t)
    while t.op=='Call' and last(t.a[0]) in('as_bytes','as_str','into_bytes','as_ref','deref') and len(t.a)==2: t=core(t.a[1])
    return [t]
def peel(t,*names):
    t=core(t)
    while True:
        if t.op=='Call' and last(t.a[0]) in names: t=core(t.a[1])
        elif t.op=='VField' and t.a[1] in('Ok','Some') : t=core(t.a[0])
        else: return t
def message(R,rep,e,t):
    """the value written as base64 of gzip of JSON by this output, or None"""
    t=core(t)
    if not rep.ok('base64',t.op=='Call' and t.a[0]=='Engine::encode' and 'STANDARD' in pp(t.a[1]) and 'NO_PAD' not in pp(t.a[1]) and 'URL' not in pp(t.a[1]),'what is printed is not base64: '+short(t),e.site): return None
    z=core(t.a[2])
    while z.op in('VField','Ref') : z=core(z.a[0])
    if z.op=='Obj': z=z.a[1]
    if not rep.ok('gzip',z.op=='Call' and last(z.a[0])=='finish' and 'Gz' in z.a[0],'what is printed is not a finished gzip stream: '+short(z),e.site): return None
    enc=z.a[1]
    w=[x for x in R.nevents if enc in x.args and x.seq<e.seq and sat(land(x.guard,e.guard)) and last(x.name) not in('finish','flush','by_ref','new')]
    if not rep.ok('one-document',len(w)==1 and not w[0].loops and implies(e.guard,w[0].guard),'%d values are written to the compressed stream'%len(w),e.site): return None
    w=w[0]
    if last(w.name) in('to_writer','to_writer_pretty'): return w.args[1]
    if last(w.name) in('write_all','write') and core(w.args[1]).op=='Alt':
        out=[]
        for g,x in alts(core(w.args[1])):
            while x.op in('VField','Ref','Obj') or (x.op=='Call' and last(x.a[0]) in('as_bytes','as_slice','as_ref')): x=core(x.a[0] if x.op in('VField','Ref') else x.a[1])
            if x.op=='Call' and last(x.a[0]) in('to_vec','to_string','to_vec_pretty','to_string_pretty'): out.append((g,x.a[1]))
            else: rep.ok('json',False,'what is compressed is not a JSON document: '+short(x),w.site); return None
        return mkalt(out)
    if last(w.name) in('write_all','write'):
        x=core(w.args[1])
        while x.op in('VField','Ref') or (x.op=='Call' and last(x.a[0]) in('as_bytes','as_slice','as_ref')): x=core(x.a[0] if x.op!='Call' else x.a[1])
        if x.op=='Call' and last(x.a[0]) in('to_vec','to_string','to_vec_pretty','to_string_pretty'): return x.a[1]
    rep.ok('json',False,'what is compressed is not a JSON document: '+short(mk('L',*w.args)),w.site)
    return None
def run_of(L,rep):
    D=Driver(L,rep); R=D.R
    ret=[(land(g,1),v) for g,v in alts(R.norm(R.ret)) if v.op=='Agg']
    okg=0; errg=0
    for g,v in ret:
        if v.a[1]=='Ok': okg=lor(okg,g)
        elif v.a[1]=='Err': errg=lor(errg,g)
    live=lnot(gnorm(R.I,R.pg))
    return D,R,land(okg,live),land(errg,live)
@check('C23','serde_json writes one complete document of the value; GzEncoder::finish completes the stream; Engine::encode with the STANDARD engine is base64.')
def C23(L,rep):
    rep.rule('In the plugin\'s run: on every path exactly one write to standard output, of base64(gzip(json(result))) with the result\'s single serialisation, unless the compiler reported an error, in which case none and an Err is returned; no other function writes to standard output')
    D,R,okg,errg=run_of(L,rep)
    outs=outputs(R); P=0
    rep.ok('prints',bool(outs),'the driver never prints a result')
    for i,(e,ps) in enumerate(outs):
        rep.ok('once',not e.loops and not sat(land(P,e.guard)),'more than one message is printed when '+gshow(land(P,e.guard)),e.site)
        P=lor(P,e.guard)
        if not rep.ok('nothing-else',len(ps)==1,'more than the message is printed: '+', '.join(short(p,60) for p in ps),e.site): continue
        v=message(R,rep,e,ps[0])
        if v is None: continue
        for g,w in split(v,e.guard):
            if not sat(g): continue
            if w.op=='Agg' and w.a[0].split('::')[-1]=='Result' and w.a[1]=='Err':
                x=fields_of(w)['0']
                for h,y in split(x,g):
                    bad=land(h,is_variant(y,'BuildError',TM.ENUMVARS.get('FlowistryError'))) if y.op!='Agg' else (h if y.a[1]=='BuildError' else 0)
                    rep.ok('not-for-build-errors',not sat(bad),'a build failure is printed as a message when '+gshow(bad),e.site)
            elif w.op=='Agg': rep.ok('a-result',w.a[0].split('::')[-1]=='Result','what is printed is '+short(w),e.site)
    rep.ok('success-printed',implies(okg,P),'the run succeeds but prints nothing when '+gshow(land(okg,lnot(P))))
    rep.ok('failure-not-printed',not sat(land(errg,P)),'the run prints a message and fails when '+gshow(land(errg,P)))
    for e,c in caught(R):
        if not rep.ok('caught',c is not None,'a failing build is not caught',e.site): continue
        bad=land(land(e.guard,c.guard),lnot(is_variant(c.ret,'Ok')))
        rep.ok('build-failure-silent',not sat(land(bad,P)),'a message is printed although the build failed',e.site)
        rep.ok('build-failure-reported',not sat(land(bad,okg)),'the run succeeds although the build failed',e.site)
    # nobody else
    ev=D.R.I.analyzed
    A=L.rust.run(rep,'args','flowistry_ide',impl='FlowistryPlugin'); go=0
    for g,v in alts(A.norm(A.ret)):
        if v.op=='Agg': go=lor(go,land(g,lnot(gnorm(A.I,A.pg))))
    for e,ps in outputs(A): rep.ok('before-analysis',not sat(land(e.guard,go)),'something is printed before the analysis is run',e.site)
    n=0
    for b,t,f in callsites(L.rust.prog,lambda f:is_stdout(fn_of(f)) or is_stdout(f['fn']),('flowistry','flowistry_ide','flowistry_driver')):
        n+=1
        if is_test(b): continue
        rep.ok('only-message',b['path'] in ev or b['path'] in A.I.analyzed,'%s writes to standard output'%b['path'],b['path'])
    rep.ok('sites',n>=1,'no call that writes to standard output was found')
def is_stdout(n):
    return n in('std::io::stdio::_print','std::io::stdio::stdout','std::io::stdio::print_to','std::io::stdio::Stdout::lock','std::io::stdio::try_set_output_capture') or n.endswith(('StandardStream::stdout','BufferWriter::stdout','Builder::target')) or n.startswith(('libc::','std::os::fd::'))
# ------------------------------------------------------------------ C30
def result_alts(v,g):
    """alternatives of a Result-valued term"""
    return [(h,w) for h,w in split(v,g) if sat(h)]
@check('C30','The to_span of a target fails exactly if the position does not map to a span; find_enclosing_bodies yields the bodies around it.','unwrap panics exactly on Err/None.')
def C30(L,rep):
    rep.rule('after_analysis stores a result on every path: success only with the analysis\'s own successful output, and an error whenever the span lookup, the body lookup or the analysis fails; run passes that result on, wrapping errors as AnalysisError with the message; no panic depends on those outcomes')
    R=L.rust.run(rep,'after_analysis','flowistry_ide',impl='FlowistryCallbacks')
    sf=field(R.params[0],'output')
    st=last_store(R,sf)
    S=[e for e in R.nevents if last(e.name)=='to_span']; F=[e for e in R.nevents if last(e.name) in('find_enclosing_bodies','find_bodies')]; A=[e for e in R.nevents if e.name=='FlowistryAnalysis::analyze']
    rep.ok('lookups',len(S)==1 and len(F)==1 and len(A)>=1,'the target, its bodies or the analysis are looked up %d, %d and %d times'%(len(S),len(F),len(A)))
    if not S or not A: return
    okS=is_variant(S[0].ret,'Ok')
    cov=0
    for e in st:
        cov=lor(cov,e.guard)
        for g,v in split(e.args[1],e.guard):
            if not sat(g): continue
            if not rep.ok('stored',agg(v,'Option','Some'),'no result is left when '+gshow(g),e.site): continue
            for h,w in result_alts(fields_of(v)['0'],g):
                a=[x for x in A if w is x.ret]
                if a:
                    rep.ok('as-analysed',implies(h,lor(*[x.guard for x in a]) if len(a)>1 else a[0].guard),'the result is not that of the analysis',e.site)
                elif agg(w,'Result','Ok'):
                    x=core(fields_of(w)['0'])
                    rep.ok('success-analysed',any(x is vfield(y.ret,'Ok','0') and implies(h,land(y.guard,is_variant(y.ret,'Ok'))) for y in A),'the result is a success with %s when %s'%(short(x),gshow(h)),e.site)
                elif agg(w,'Result','Err'):
                    x=fields_of(w)['0']
                    for y in A: rep.ok('error-only-on-failure',not sat(landn(h,y.guard,is_variant(y.ret,'Ok'))),'a successful analysis is reported as an error',e.site)
                    if sat(land(h,lnot(okS))): rep.ok('span-message',mentions(x,vfield(S[0].ret,'Err','0')) or not sat(land(h,lnot(okS))),'the message of a failed lookup is lost: '+short(x),e.site)
                    for y in A:
                        if sat(land(h,y.guard)): rep.ok('analysis-message',mentions(x,vfield(y.ret,'Err','0')),'the message of a failed analysis is lost: '+short(x),e.site)
                else: rep.ok('result',False,'the result is '+short(w),e.site)
    rep.ok('always-stored',R.covered(cov),'no result is stored when '+gshow(lnot(cov)))
    outs=(S[0].ret,)+tuple(x.ret for x in F)+tuple(x.ret for x in A)
    panics(R,rep,'no-panic',outs,1)
    # run
    D,R,okg,errg=run_of(L,rep)
    outp=outputs(R); ca=caught(R); nA=nS=0
    for e,c in ca:
        cb=D.cb(e); an=analysing_cb(D,rep,cb)
        if c is None: continue
        X=None
        aft=[x for x in atoms_all(R) if x.op=='Call' and x.a[0]=='<after run_compiler>' and x.a[1] is cb]
        aft=list(dict.fromkeys(aft))
        if not rep.ok('result-used',len(aft)==1,'the outcome of the compiler run is not used',e.site): continue
        X=vfield(field(aft[0],'output'),'Some','0')
        base=landn(e.guard,is_variant(c.ret,'Ok'))
        okX=is_variant(X,'Ok')
        done=0
        for o,ps in outp:
            if len(ps)!=1: continue
            r2=Quiet(); v=message(R,r2,o,ps[0])
            if v is None: continue
            g0=land(o.guard,base)
            if not sat(g0): continue
            done=lor(done,g0)
            for g,w in result_alts(v,g0):
                if w is X:
                    rep.ok('passed-on',not an or not sat(land(g,lnot(okX))),'an error of the analysis is printed unwrapped',o.site); 
                    continue
                if agg(w,'Result','Ok'):
                    rep.ok('success-passed',core(fields_of(w)['0']) is vfield(X,'Ok','0') and implies(g,okX),'a success with %s is printed when %s'%(short(fields_of(w)['0']),gshow(g)),o.site); nS+=1
                elif agg(w,'Result','Err'):
                    rep.ok('error-on-error',implies(g,lnot(okX)),'an error is printed when '+gshow(land(g,okX)),o.site)
                    for h,y in split(fields_of(w)['0'],g):
                        if not sat(h): continue
                        if an:
                            nA+=1
                            rep.ok('analysis-error',agg(y,'FlowistryError','AnalysisError') and mentions(y,vfield(X,'Err','0')),'a failed analysis is printed as '+short(y),o.site)
                        else: rep.ok('error-kept',y is vfield(X,'Err','0') or (y.op=='Agg' and implies(h,is_variant(vfield(X,'Err','0'),y.a[1],TM.ENUMVARS.get('FlowistryError')))),'an error of the command is printed as '+short(y),o.site)
                else: rep.ok('printed',False,'what is printed is '+short(w),o.site)
        need=base
        if not an: need=land(need,lor(okX,lnot(is_variant(vfield(X,'Err','0'),'BuildError',TM.ENUMVARS.get('FlowistryError')))))
        rep.ok('outcome-printed',not sat(land(need,lnot(done))),'the outcome of the command is not printed when '+gshow(land(need,lnot(done))),e.site)
        panics(R,rep,'no-panic-run',(X,),base)
    rep.ok('analysis-errors',nA>0 and nS>0,'no analysis error is ever printed')
def panics(R,rep,key,outs,base):
    """no panic is decided by one of the outcomes"""
    def root(t):
        t=core(t)
        while t.op in('Field','VField') and t not in outs: t=core(t.a[0])
        return t in outs or any(t is x.a[0] for x in outs if x.op in('Call',) and False)
    for p in R.I.panics:
        g=gnorm(R.I,p[0])
        if not sat(land(g,base)): continue
        ws=[w for _,w in split(R.norm(p[3]),1)] if p[2]=='unwrap' else []
        if ws and not all(w.op=='Agg' or mentions(w,outs[0]) and w.op=='FirstOf' for w in ws if not root(w)) : bad=any(root(w) for w in ws)
        else:
            at=[B.terms[v] for v in B.support(g)]
            bad=any(root(w) for w in ws) or any(t.op in('Is','Bit') and root(t.a[0]) or t.op=='Empty' and root(t.a[0]) for t in at)
        rep.ok(key,not bad,'the driver panics when '+gshow(g),p[1])
class Quiet:
    def ok(s,k,c,m='',site=None): return bool(c)
def atoms_all(R):
    for e in R.nevents:
        for x in atoms_in(e.guard,*e.args): yield x
def analysing_cb(D,rep,cb):
    A=D.method(rep,cb,'after_analysis')
    return A is None or analysing(D.L,A)
# ------------------------------------------------------------------ C27
@check('C27','find_bodies lists the bodies of the crate with their source spans, find_source_file finds the file of that name if the compiler loaded it, and CharRange::from_span converts a span; a name identifies a source file.')
def C27(L,rep):
    rep.rule('The list is built in one pass over all bodies found, keeping exactly those whose source file is the one looked up, each mapped to its range; the lookup\'s failure and nothing else gives the file-not-found error')
    D=Driver(L,rep); n=0
    for e in D.comp:
        cb=D.cb(e)
        l=[b for b in L.rust.prog.find('after_analysis','flowistry_ide',impl=last(cb.a[0]))] if cb.op=='Agg' else []
        if len(l)!=1: continue
        b=l[0]; key=(b['path'],'sym')
        R=Run(L.rust,b); 
        if not any(agg(x,'SpansOutput') for ev in R.nevents for a in ev.args for x in walk(a)): continue
        n+=1
        rep.analyzed|=R.I.analyzed; rep.ncalls+=R.I.ncalls; rep.nev+=len(R.events); rep.entries.append(b['path'])
        spans_rule(L,rep,R,cb,D,e)
    rep.ok('body-list',n==1,'%d compiler runs produce a body list'%n)
def spans_rule(L,rep,R,cb,D,ce):
    F=[e for e in R.nevents if last(e.name)=='find_source_file']
    if not rep.ok('file-looked-up',len(F)==1 and not F[0].loops,'the file is looked up %d times'%len(F)): return
    F=F[0]; fn=core(F.args[0])
    nm=core(fn.a[1]) if fn.op=='Call' and last(fn.a[0])=='intern' else fn
    rep.ok('file-of-request',nm.op=='Field' and nm.a[0] is R.params[0] and file_of(D,ce,cb,nm.a[1]),'the file looked up is '+short(nm),F.site)
    okF=is_variant(F.ret,'Ok'); fl=vfield(F.ret,'Ok','0')
    cov=0; found=0
    for e in last_store(R,field(R.params[0],'output')):
        cov=lor(cov,e.guard)
        for g,v in split(e.args[1],e.guard):
            if not sat(g): continue
            if not rep.ok('stored',agg(v,'Option','Some'),'no result is left when '+gshow(g),e.site): continue
            for h,w in result_alts(fields_of(v)['0'],g):
                if agg(w,'Result','Err'):
                    rep.ok('not-found-error',all(agg(y,'FlowistryError','FileNotFound') for _,y in split(fields_of(w)['0'],h)),'a missing file gives '+short(w),e.site)
                    rep.ok('only-if-missing',implies(h,lnot(okF)),'the file is reported as missing when '+gshow(land(h,okF)),e.site)
                elif agg(w,'Result','Ok'):
                    rep.ok('only-if-found',implies(h,okF),'a list is given although the file was not found',e.site)
                    for k,o in split(fields_of(w)['0'],h):
                        if rep.ok('output',agg(o,'SpansOutput'),'the list is '+short(o),e.site):
                            found=lor(found,k); rows_rule(L,rep,R,fields_of(o)['spans'],k,fl,e)
                else: rep.ok('result',False,'the result is '+short(w),e.site)
    panics(R,rep,'no-panic',(F.ret,)+tuple(x.ret for x in R.nevents if last(x.name)=='from_span'),1)
    rep.ok('always-stored',R.covered(cov),'no result is stored when '+gshow(lnot(cov)))
    rep.ok('list-given',implies(okF,found),'no list is given when '+gshow(land(okF,lnot(found))))
def file_of(D,e,cb,f):
    """the callbacks' field holds the file of the command"""
    t=core(fields_of(cb).get(f,BOT))
    return t.op=='VField' and t.a[2]=='file' and t.a[0] is field(D.R.params[2],'command') and implies(e.guard,is_variant(t.a[0],t.a[1],TM.ENUMVARS.get('FlowistryCommand')))
def rows_rule(L,rep,R,coll,g0,fl,e):
    cov=0; n=0; el=None
    for l,g,v in R.nrows(coll,g0):
        n+=1
        v=core(v)
        m=match(('vf',('call',('CharRange::from_span',),'?s','...'),'Ok','0'),v) if False else None
        c=v.a[0] if v.op=='VField' and v.a[1]=='Ok' else v
        if not rep.ok('ranges',c.op=='Call' and last(c.a[0])=='from_span','the list has '+short(v),e.site): continue
        sp=core(c.a[1])
        b=sp.a[0] if sp.op=='Field' and sp.a[1]=='0' else BOT
        if not rep.ok('of-bodies',b.op=='Elem' and core(b.a[0]).op=='Call' and last(core(b.a[0]).a[0])=='find_bodies','the ranges are those of '+short(sp),e.site): continue
        if not rep.ok('every-body',len(l)==1 and for_all(l,v),'bodies are skipped',e.site): continue
        # the condition: same file, conversion succeeded
        okr=is_variant(c,'Ok'); rel=0; other=[]
        for x in sorted(B.support(g)):
            t=B.terms[x]
            if atom(t)==okr or gmentions(g0,t): continue
            if same_file(t,sp,fl): rel=atom(t)
        if not rep.ok('same-file',rel!=0 and implies(g,rel),'bodies of other files are listed',e.site): continue
        cov=lor(cov,g); need=landn(g0,rel,okr)
        rep.ok('complete',implies(need,g),'a body of the file is left out when '+gshow(land(need,lnot(g))),e.site)
    rep.ok('list',n==1,'the list is built from %d sources'%n,e.site)
def same_file(t,sp,fl):
    """t compares the source file of span sp with the file fl"""
    if t.op!='Eq': 
        if not(t.op=='Call' and last(t.a[0]) in('ptr_eq','eq')): return False
        xs=t.a[1:3]
    else: xs=t.a[:2]
    def canon(x):
        for y in list(walk(x)):
            if y.op=='Call' and last(y.a[0])=='lookup_source_file' and len(y.a)==3:
                p=core(y.a[2])
                if p.op=='Call' and last(p.a[0]) in('lo','hi') and core(p.a[1]) is sp: x=subst(x,{y:fl})
            elif y.op=='Call' and last(y.a[0])=='span_to_filename' and core(y.a[2]) is sp: x=subst(x,{y:field(fl,'name')})
        return core(x)
    a,b=canon(xs[0]),canon(xs[1])
    return a is b and xs[0] is not xs[1] and mentions(a,fl) and (a is fl or a.op in('Field','Call'))
# ------------------------------------------------------------------ C24
FORBID=('std::fs::','std::os::unix::fs::','std::os::linux::','std::process::','std::net::','std::os::unix::net','libc::','nix::','tempfile::','std::env::set','std::env::remove','std::sys::fs','std::sys::process','std::sys::net','rustc_utils::mir::body::run_dot','core::arch::')
ALLOWED=('std::fs::read','std::fs::read_to_string','std::fs::canonicalize','std::fs::metadata','std::fs::read_dir','std::fs::exists','std::fs::symlink_metadata','std::fs::File::open','std::process::ExitStatus::','std::process::id','std::process::exit','std::fs::Metadata::','std::fs::DirEntry::','std::fs::read_link','std::fs::FileType::')
def effect(n):
    n=n.replace('<','').replace('>','')
    if n.endswith(('write_graphviz','run_dot','write_analysis_results','::persist','process::Command::new')): return True
    return n.startswith(FORBID) and not any(n==a or(a.endswith('::') and n.startswith(a)) for a in ALLOWED)
def prologue(n): return n.startswith('std::process::Command::') or n.startswith('std::process::Child')
@check('C24','An external function outside std::fs, std::process, std::env, std::net, std::os, libc and the listed writers has no effect on files, processes or the environment beyond those of the compiler itself, which writes only into the plugin\'s target directory.')
def C24(L,rep):
    rep.rule('Every call in the non-test code of the analysis crates is compared with the functions that write files, change the environment or start processes; the only ones allowed are those of the preload command, whose command line is reconstructed; every compiler run ends with Compilation::Stop')
    D=Driver(L,rep); A=L.rust.run(rep,'args','flowistry_ide',impl='FlowistryPlugin')
    n=0
    for b,t,f in callsites(L.rust.prog,lambda f:True,('flowistry','flowistry_ide','flowistry_driver','flowistry_ifc','ifc_driver','cargo_flowistry','cargo_ifc')):
        if is_test(b): continue
        n+=1
        nm=fn_of(f)
        if not(effect(nm) or effect(f['fn'])): continue
        rep.ok('no-effect',prologue(nm) and b['path'] in A.I.analyzed,'%s calls %s'%(b['path'],nm),b['path']+' '+last(nm))
    rep.ok('calls',n>1000,'only %d calls were examined'%n)
    go=0
    for g,v in alts(A.norm(A.ret)):
        if v.op=='Agg': go=lor(go,land(g,lnot(gnorm(A.I,A.pg))))
    news=[e for e in A.nevents if e.name=='Command::new']; runs=[e for e in A.nevents if e.name in('Command::status','Command::output','Command::spawn')]
    cmdv=None
    for e in runs:
        rep.ok('preload-only',only_preload(e.guard),'a program is started when '+gshow(e.guard),e.site)
        rep.ok('not-for-analysis',not sat(land(e.guard,go)),'a program is started before an analysis',e.site)
        toks=[]
        for x in A.nevents:
            if x.seq>=e.seq or not sat(land(x.guard,e.guard)): continue
            if x.name=='Command::arg': toks.append((x.guard,core(x.args[1])))
            elif x.name=='Command::args':
                for l,g,v in A.nrows(x.args[1],x.guard): toks.append((g if not l else 0,core(v)))
        must=[v for g,v in toks if implies(e.guard,g)]
        rep.ok('check-build',len(must)>0 and must[0] is Str('check'),'cargo is run as '+' '.join(short(v,20) for v in must),e.site)
        td=[i for i,v in enumerate(must) if v is Str('--target-dir')]
        rep.ok('own-target',bool(td) and td[-1]+1<len(must) and must[td[-1]+1] is A.params[1] or any('--target-dir=' in pp(v) and mentions(v,A.params[1]) for v in must),'cargo does not build in the plugin\'s target directory: '+' '.join(short(v,20) for v in must),e.site)
        pr=[x for x in news if sat(land(x.guard,e.guard))]
        rep.ok('cargo',len(pr)==1 and all(w is Str('cargo') or 'CARGO_PATH' in pp(w) for _,w in split(core(pr[0].args[0]),1)),'the program started is '+(short(pr[0].args[0]) if pr else '?'),e.site)
    for crate,impl in(('flowistry_ide','FlowistryPlugin'),('flowistry_ifc','IfcPlugin')):
        d=Driver(L,rep,crate,impl)
        rep.ok('runs-'+crate,bool(d.comp),'%s does not run the compiler'%crate)
        for e in d.comp:
            cb=d.cb(e); M=d.method(rep,cb,'after_analysis')
            if not rep.ok('stops',M is not None,'compilation goes on after the analysis (%s)'%short(cb,40),e.site): continue
            for g,v in alts(M.norm(M.ret)):
                if v.op=='Undef': continue
                rep.ok('stops',agg(v,'Compilation','Stop') or not sat(g),'compilation goes on after the analysis when '+gshow(g),M.body['path'])
def only_preload(g):
    vs=TM.ENUMVARS.get('FlowistryCommand'); 
    for t in atoms_in(g):
        if t.op in('Is','Bit') and t.a[0].op=='Field' and t.a[0].a[1]=='command':
            if implies(g,is_variant(t.a[0],'Preload',vs)): return True
    return False
