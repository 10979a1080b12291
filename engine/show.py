import sys,os,re; sys.path.insert(0,'/verif/engine')
import sym; from terms import *
P=sym.Program('/verif/build/dump')
name=sys.argv[1]; opq=sys.argv[2].split(',') if len(sys.argv)>2 else []
kw={}
if len(sys.argv)>3: kw['impl']=sys.argv[3]
for b in P.find(name,**kw):
    I=sym.Interp(P,opq)
    print('==',b['path'],b['file'],b['line'])
    args=[]
    for i in range(b['argc']):
        args.append(mk('Param',b['path'],i,b['locals'][i+1][2] or 'P%d'%i))
    for kv in os.environ.get('FIX','').split(','):
        if kv: i,ty,vr=kv.split(':'); args[int(i)]=mkagg(ty,vr,(),())
    v=I.run(b,args)
    M=int(os.environ.get("M","400"))
    for e in I.events:
        if os.environ.get("F") and not re.search(os.environ["F"],e.name): continue
        print("  ",("#%d %s %s%s"%(e.seq,list(e.loops),e.name,pp(tuple(e.args))))[:M]," -- ",B.show(e.guard)[:M],e.site.split("/")[-1][:40])
    print('  ret',I.final.g and B.show(I.final.g)[:M],pp(v)[:M])
    for g,site,f,_ in I.panics: print('  PANIC',B.show(g)[:300],site[:60],f)
    print(len(I.events),'events',I.ncalls,'calls')
