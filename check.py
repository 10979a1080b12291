#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : decide one property of /repo's current source by static analysis."""
import sys,os,json,time,hashlib,subprocess,fcntl,glob,shutil,traceback
V=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get('VERIF_REPO','/repo')
sys.path[:0]=[V+'/engine',V+'/tools',V+'/checks',V]
sys.dont_write_bytecode=True
BUILD=os.environ.get('VERIF_BUILD',V+'/build')
EVID=os.environ.get('VERIF_EVID',V+'/evidence')
TC='nightly-2025-08-20'
CRATES='flowistry,flowistry_ide,flowistry_ifc,flowistry_ifc_traits,cargo_flowistry,flowistry_driver,cargo_ifc,ifc_driver'
def log(*a): print(*a,file=sys.stderr,flush=True)
def sha(paths,root):
    h=hashlib.sha256()
    for p in sorted(paths):
        h.update(os.path.relpath(p,root).encode()+b'\0'); h.update(open(p,'rb').read()); h.update(b'\0')
    return h.hexdigest()[:24]
def toolchain():
    # the pinned toolchain of the repository
    import tomllib
    try: return tomllib.load(open(REPO+'/rust-toolchain.toml','rb'))['toolchain']['channel']
    except Exception: return TC
def env():
    e=dict(os.environ); tc=toolchain()
    have=subprocess.run(['rustup','toolchain','list'],capture_output=True,text=True).stdout
    if tc not in have: tc=TC
    e.update(RUSTUP_TOOLCHAIN=tc,CARGO_NET_OFFLINE='true',CARGO_INCREMENTAL='0',CARGO_PROFILE_DEV_DEBUG='0',RUSTC_WRAPPER='',CARGO_TERM_COLOR='never')
    e['RUSTC_ICE']='0'; e.pop('RUSTFLAGS',None); e.pop('CARGO_TARGET_DIR',None)
    return e
def ensure_driver():
    os.makedirs(BUILD,exist_ok=True)
    src=V+'/engine/mirdump.rs'; st=BUILD+'/mirdump.stamp'; h=sha([src],V)
    if os.path.exists(BUILD+'/mirdump') and os.path.exists(st) and open(st).read()==h: return
    r=subprocess.run(['rustc','-O','--edition','2021',src,'-o',BUILD+'/mirdump'],env=env(),cwd=V,capture_output=True,text=True)
    if r.returncode: log(r.stderr[-4000:]); raise SystemExit(2)
    open(st,'w').write(h)
def rust_sources():
    out=[]
    for d,ds,fs in os.walk(REPO+'/crates'):
        ds[:]=[x for x in ds if x not in('target','node_modules','.git')]
        out+=[os.path.join(d,f) for f in fs if f.endswith(('.rs','.toml'))]
    for f in('Cargo.toml','Cargo.lock','rust-toolchain.toml'):
        if os.path.exists(REPO+'/'+f): out.append(REPO+'/'+f)
    return out
CONFIG={ # build configurations whose MIR is analysed: environment, cargo arguments
    'dev':({},[]),
    'release':(dict(CARGO_PROFILE_DEV_DEBUG_ASSERTIONS='false',CARGO_PROFILE_DEV_OVERFLOW_CHECKS='false'),[]),
}
def configs(tier):
    """quick: the development build, and the release build where sources distinguish them; thorough: all"""
    if tier=='thorough': return list(CONFIG)
    rs=[f for f in rust_sources() if f.endswith('.rs') and '/tests/' not in f]
    dbg=any(w in open(f,errors='replace').read() for f in rs for w in('debug_assert','overflow_checks'))
    return ['dev','release'] if dbg else ['dev']
def ensure_dump(config='dev'):
    """type-checked MIR of /repo's current working tree (re-dumped whenever any source differs)"""
    tag='' if config=='dev' else '-'+config; cenv,cargs=CONFIG[config]
    os.makedirs(BUILD,exist_ok=True)
    with open(BUILD+'/lock','w') as lk:
        fcntl.flock(lk,fcntl.LOCK_EX)
        ensure_driver()
        h=sha(rust_sources()+[V+'/engine/mirdump.rs'],'/')
        out=BUILD+'/dump'+tag
        if os.path.exists(out+'/STAMP') and open(out+'/STAMP').read()==h: return out
        shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
        for f in glob.glob(BUILD+'/target'+tag+'/debug/.fingerprint/*flowistry*')+glob.glob(BUILD+'/target'+tag+'/debug/.fingerprint/*ifc*'): shutil.rmtree(f,ignore_errors=True)
        e=env()
        sr=subprocess.run(['rustc','--print','sysroot'],env=e,capture_output=True,text=True,cwd=REPO).stdout.strip()
        e.update(LD_LIBRARY_PATH=sr+'/lib',VERIF_DUMP_OUT=out,VERIF_DUMP_CRATES=CRATES,RUSTC_WORKSPACE_WRAPPER=BUILD+'/mirdump',**cenv)
        r=subprocess.run(['cargo','check','--workspace','--offline','--target-dir',BUILD+'/target'+tag,*cargs],env=e,cwd=REPO,capture_output=True,text=True)
        if r.returncode:
            log(r.stderr[-4000:]); log('the repository does not compile'); raise SystemExit(2)
        need={'flowistry','flowistry_ide','flowistry_ifc'}
        have={os.path.basename(x).split('.')[0] for x in glob.glob(out+'/*.json')}
        if not need<=have: log('MIR dump incomplete',have); raise SystemExit(2)
        open(out+'/STAMP','w').write(h)
        return out
class Lazy:
    def __init__(s,config='dev'): s._ctx=None; s._ts=None; s.config=config
    @property
    def rust(s):
        if s._ctx is None:
            import sym,rules
            s._ctx=rules.Ctx(sym.Program(ensure_dump(s.config)))
        return s._ctx
    @property
    def ts(s):
        if s._ts is None:
            import tsfacts
            s._ts=tsfacts.load(REPO,BUILD,V)
        return s._ts
    repo=REPO
def evaluate(pid,lazy,rep):
    import rules,registry
    f=registry.CHECKS[pid]
    try: f(lazy,rep)
    except rules.Anchor as ex: rep.ok('anchor',False,'cannot locate the code this property is about: %s'%ex)
    except SystemExit: raise
    except Exception as ex:
        if os.environ.get('VERIF_DEBUG'): raise
        tb=traceback.extract_tb(ex.__traceback__)
        rep.ok('analysis',False,'analysis could not be completed: %s: %s at %s'%(type(ex).__name__,ex,['%s:%s'%(os.path.basename(x.filename),x.lineno) for x in tb[-3:]]))
    if not rep.obl: rep.ok('empty',False,'no obligation was generated')
def run_one(pid,tier,lazy=None,quiet=False):
    import rules,registry,props
    t0=time.time(); lazy=lazy or {}
    rep=None; done=[]
    for config in configs(tier):
        l=lazy.setdefault(config,Lazy(config)); one=rules.Report(); evaluate(pid,l,one)
        done.append(config)
        if rep is None: rep=one
        else: # what holds in one build has to hold in the other
            have={k for k,d,s in rep.fail}
            rep.fail+=[(k,'in the %s build: %s'%(config,d),s) for k,d,s in one.fail if k not in have]
            rep.obl+=one.obl; rep.ncalls+=one.ncalls; rep.nev+=one.nev; rep.analyzed=set(rep.analyzed)|set(one.analyzed)
        if l._ctx is None: break
    kf=[]
    p=V+'/known_findings.json'
    if os.path.exists(p): kf=[k for k in json.load(open(p))['findings'] if k['property']==pid]
    known=[];new=[]
    for key,det,site in rep.fail:
        if any(k['key']==key for k in kf): known.append((key,det,site))
        else: new.append((key,det,site))
    meta=next(x for x in props.P if x['id']==pid)
    ev=dict(property=pid,tier=tier,seed=int(os.environ.get('VERIF_SEED','1') or 1),level='other',
        coverage=dict(explanation='Static analysis of the current source. '+' '.join(rep.rules)+(' Builds analysed: %s.'%', '.join(done) if l._ctx is not None else '')+' Entry points analysed: %d; functions reached: %d; call sites interpreted: %d; events examined: %d; obligations: %d, of which %d hold.'%(len(set(rep.entries)),len(rep.analyzed),rep.ncalls,rep.nev,len(rep.obl),len(rep.obl)-len(rep.fail)),
          entries=sorted(set(rep.entries)),functions=sorted(rep.analyzed),call_sites=rep.ncalls,events=rep.nev,obligations=len(rep.obl),discharged=len(rep.obl)-len(rep.fail),obligation_keys=rep.obl),
        assumptions=registry.ASSUME.get(pid,[])+registry.ASSUME['*'],
        wall_s=round(time.time()-t0,2),
        violations=[dict(key=k,detail=d,site=s) for k,d,s in new])
    os.makedirs(EVID,exist_ok=True)
    json.dump(ev,open(EVID+'/%s.json'%pid,'w'),indent=1)
    for k,d,s in known: print('KNOWN-FINDING: property=%s %s: %s'%(pid,k,d))
    if new:
        rp=EVID+'/%s.violation.txt'%pid
        with open(rp,'w') as fo:
            for k,d,s in new: fo.write('obligation: %s\n  %s\n  at: %s\n'%(k,d,s))
        if not quiet:
            for k,d,s in new: print('  %s: %s%s'%(k,d,'  ['+s+']' if s else ''))
        print('VIOLATION property=%s replay=%s'%(pid,rp))
        return 1
    if not quiet: print('%s holds: %d obligations, %d functions, %d call sites (%.1fs)'%(pid,len(rep.obl),len(rep.analyzed),rep.ncalls,time.time()-t0))
    return 0
def main():
    a=sys.argv[1:]; tier=os.environ.get('VERIF_TIER','quick')
    if '--tier' in a: i=a.index('--tier'); tier=a[i+1]; del a[i:i+2]
    if a==['setup']: ensure_dump(); return 0
    lazy={}; r=0
    import registry
    if a==['all']: a=sorted(registry.CHECKS)
    for p in a: r|=run_one(p,tier,lazy)
    return r
if __name__=='__main__': sys.exit(main())
