#!/usr/bin/env python3
"""mkseed.py [--novalidate] id...: build /verif/seeded/<id> from tools/seeds.py and validate it in a scratch copy of /repo."""
import sys,os,subprocess,json,shutil,time
T=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(T); sys.path.insert(0,T)
SC='/tmp/sc'
def sh(c,cwd=SC,env=None,t=900):
    e=dict(os.environ); e.update(env or {})
    r=subprocess.run(c,shell=True,cwd=cwd,env=e,capture_output=True,text=True,timeout=t); return r.returncode,r.stdout+r.stderr
def fresh():
    if not os.path.exists(SC): sh('cp -a /repo '+SC,cwd='/')
    head=sh('git rev-parse HEAD',cwd='/repo')[1].strip()
    sh('git fetch -q /repo && git checkout -q -f %s && git checkout -q -- .'%head)
BENV=dict(HOME='/root',RUSTUP_TOOLCHAIN='nightly-2025-08-20',CARGO_NET_OFFLINE='true',CARGO_INCREMENTAL='1',CARGO_PROFILE_DEV_DEBUG='line-tables-only',CARGO_TERM_COLOR='never',RUSTC_WRAPPER='')
def baseline():
    b=json.load(open('/opt/vp/BASELINE.json')); return b
def main():
    import seeds
    a=[x for x in sys.argv[1:] if not x.startswith('--')]
    S={s['id']:s for s in seeds.S}
    if a==['all']: a=list(S)
    if a==['new']: a=[i for i in S if not os.path.exists(V+'/seeded/'+i)]
    for i in a:
        s=S[i]; fresh(); t0=time.time()
        edits=s.get('edits') or [(s['file'],s['old'],s['new'])]
        d=V+'/seeded/'+i; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        for f,o,n in edits:
            x=open(SC+'/'+f).read()
            assert x.count(o)==1,(i,f,x.count(o),o)
            open(SC+'/'+f,'w').write(x.replace(o,n))
        rc,diff=sh('git diff'); open(d+'/patch.diff','w').write(diff)
        kind=s.get('kind','flowistry')
        shutil.copy(T+'/seedlib/demo_%s.sh'%kind,d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
        if kind=='flowistry': open(d+'/probe.rs','w').write(open(T+'/seedlib/probe_head.rs').read()+s['probe'].strip()+'\n')
        for fn,txt in s.get('files',{}).items(): open(d+'/'+fn,'w').write(txt)
        json.dump(dict(property=s['property'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
        if '--novalidate' in sys.argv: continue
        # validate
        de=dict(DEMO_TARGET='/tmp/sc_demo')
        rc1,o1=sh('bash %s/demo.sh'%d,env=de)
        rcb,ob=sh('cargo build --workspace --offline && cargo test --workspace --no-run --offline',env=BENV) if kind!='ts' else (0,'')
        fails=''
        if kind!='ts':
            ot=sh('RUST_LOG=flowistry::test_utils=info cargo test --workspace --no-fail-fast --offline -- --test-threads 8 --show-output',env=BENV)[1]
            nf=ot.count('... FAILED')+ot.count('Tests failed'); fails=str(nf)
        fresh()
        rc0,o0=sh('bash %s/demo.sh'%d,env=de)
        sh('git apply %s/patch.diff'%d)
        rcs,os_=sh('python3 %s/check.py all'%V,env=dict(VERIF_REPO=SC,VERIF_BUILD='/tmp/sc_build',VERIF_EVID='/tmp/sc_evid'))
        caught=[l.split('property=')[1].split()[0] for l in os_.splitlines() if l.startswith('VIOLATION')]
        fresh()
        ok=rc0==0 and rc1!=0 and rcb==0 and fails in('','0')
        print(i,'prop',s['property'],'OK' if ok else 'BAD','clean',rc0,'patched',rc1,'build',rcb,'testfails',fails,'CAUGHT' if s['property'] in caught else 'MISSED',caught,'%.0fs'%(time.time()-t0),flush=True)
        if not ok:
            if rc0: print(o0[-1500:])
            elif rc1==0: print(o1[-1500:])
            elif rcb: print(ob[-1500:])
            else: print(ot[-1500:])
if __name__=='__main__': main()
