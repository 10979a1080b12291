#!/usr/bin/env python3
"""Write /verif/DESIGN.md from tools/design/*.md, properties, the rules in checks/*.py, findings and planted bugs."""
import ast,glob,json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def consts(n):
    return n.value if isinstance(n,ast.Constant) and isinstance(n.value,str) else None
def rules():
    out={}
    for p in sorted(glob.glob(V+'/checks/*.py')):
        for f in ast.parse(open(p).read()).body:
            if not isinstance(f,ast.FunctionDef): continue
            for d in f.decorator_list:
                if isinstance(d,ast.Call) and getattr(d.func,'id','')=='check':
                    pid=consts(d.args[0]); o=out.setdefault(pid,dict(file=os.path.basename(p),fn=[],assume=[],rule=[]))
                    o['fn'].append(f.name); o['assume']+=[consts(a) for a in d.args[1:] if consts(a)]
                    for c in ast.walk(f):
                        if isinstance(c,ast.Call) and isinstance(c.func,ast.Attribute) and c.func.attr=='rule' and consts(c.args[0]): o['rule'].append(consts(c.args[0]))
    return out
def main():
    P=[json.loads(l) for l in open(V+'/properties.jsonl')]; M=json.load(open(V+'/MANIFEST.json')); R=rules()
    na={x['property']:x['reason'] for x in M['not_applicable']}
    o=[open(V+'/tools/design/head.md').read()]
    for p in P:
        if p['id'] in na: continue
        r=R[p['id']]
        o.append('### %s — %s\n'%(p['id'],p['title']))
        o.append('%s\n'%p['statement'])
        o.append('*Decided by* `checks/%s`: %s\n'%(r['file'],' '.join(r['rule'])))
        if r['assume']: o.append('*Assumes:* %s\n'%' '.join(r['assume']))
    t=open(V+'/tools/design/tail.md').read()
    t=t.replace('%NA%','\n'.join('| %s | %s |'%(k,v) for k,v in na.items()))
    K=json.load(open(V+'/known_findings.json'))
    fi=['Repaired:\n']+['* %s'%x.replace('fixed: property=','') for x in K['fixed']]+['\nRecorded, not repaired (the check prints KNOWN-FINDING):\n']+['* %s [%s] %s'%(x['property'],x['key'],x['what']) for x in K['findings']]
    t=t.replace('%FINDINGS%','\n'.join(fi))
    C=json.load(open(V+'/tools/caught.json')) if os.path.exists(V+'/tools/caught.json') else {}
    rows=['| planted bug | breaks | caught by | needs |','| --- | --- | --- | --- |']
    for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
        i=os.path.basename(os.path.dirname(d)); m=json.load(open(d))
        rows.append('| %s | %s | %s | %s |'%(i,m['property'],', '.join(C.get(i,['?'])) or 'none',m['needs'].replace('|','/').replace('\n',' ')))
    t=t.replace('%SEEDS%','\n'.join(rows))
    o.append(t)
    open(V+'/DESIGN.md','w').write('\n'.join(o))
main()
