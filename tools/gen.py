import json,os,sys
sys.path.insert(0,os.path.dirname(__file__))
from props import P
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for q in P:
    assert len(q['title'])<=80,(q['id'],len(q['title']))
with open(root+'/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
try:
    from manifest_data import build
    json.dump(build(P),open(root+'/MANIFEST.json','w'),indent=1); open(root+'/MANIFEST.json','a').write('\n')
except ImportError: pass
