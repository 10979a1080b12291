#!/usr/bin/env python3
"""caught.py [ids]: run every check against every planted bug (in a scratch copy) and record which report it, in tools/caught.json."""
import sys,os,json,glob,subprocess,shutil
T=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(T); D='/tmp/caught'
TS='C29 C34 C35 C36 C37 C38 C39 C40 C41 C42 C44 C45 C46 C47'.split()
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
RS=[c for c in ids if c.startswith('C') and (c not in TS or c=='C29')]
p=T+'/caught.json'; C=json.load(open(p)) if os.path.exists(p) else {}
todo=sys.argv[1:] or [os.path.basename(d) for d in sorted(glob.glob(V+'/seeded/*'))]
for i in todo:
    shutil.rmtree(D+'/t',ignore_errors=True); os.makedirs(D+'/t')
    subprocess.run('git -C /repo archive HEAD | tar x -C %s/t'%D,shell=True,check=True)
    pf=V+'/seeded/%s/patch.diff'%i
    if not os.path.exists(pf): continue
    r=subprocess.run(['git','apply','--directory','t',pf] if 0 else ['patch','-p1','-s','-d',D+'/t','-i',pf],capture_output=True,text=True)
    if r.returncode: print(i,'does not apply'); continue
    ts=all(l[6:].startswith('ide/') for l in open(pf).read().splitlines() if l.startswith('+++ b/'))
    e=dict(os.environ,VERIF_REPO=D+'/t',VERIF_BUILD=D+'/b',VERIF_EVID=D+'/e')
    L=TS if ts else RS
    if not ts: subprocess.run(['python3',V+'/check.py','C01'],env=e,capture_output=True)
    ps=[]; got=[]
    def take(n):
        while len(ps)>n:
            c,q=ps.pop(0); o=q.communicate()[0]
            if 'VIOLATION property=' in o: got.append(c)
    for c in L: take(5); ps.append((c,subprocess.Popen(['python3',V+'/check.py',c],env=e,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True)))
    take(0)
    C[i]=sorted(got); print(i,got,flush=True)
    json.dump({k:C[k] for k in sorted(C)},open(p,'w'),indent=0)
shutil.rmtree(D,ignore_errors=True)
for k in [k for k in C if not os.path.isdir(V+'/seeded/'+k)]: del C[k]
json.dump({k:C[k] for k in sorted(C)},open(p,'w'),indent=0)
