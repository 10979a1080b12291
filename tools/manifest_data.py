import os,sys
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in('engine','checks',''): sys.path.insert(0,os.path.join(root,d))
import registry
TECH={}
TECH['rust']='symbolic dataflow over compiler MIR: event, effect and path-condition obligations (no execution, BDD guards)'
TECH['ts']='symbolic dataflow over the type-checked TypeScript program: event, state and path-condition obligations (no execution, BDD guards)'
TECH['mix']='cross-checking facts extracted from type-checked Rust, TypeScript and manifests'
TECH['man']='cross-checking manifests and constants extracted from source'
KIND={'C29':'mix','C34':'ts','C35':'ts','C36':'mix','C37':'ts','C38':'ts','C39':'ts','C40':'man','C41':'ts','C42':'ts','C44':'ts','C45':'mix','C46':'ts','C47':'ts'}
NA={
 'N01':'Semantic non-interference quantifies over all executions of all analysed programs; the analysis is knowingly unsound for interior mutability, unsafe code and unresolved calls, so no static argument over this source can establish it. C01-C20 decide the mechanisms instead.',
 'N02':'Depends on the runtime contents of source files and on column encodings computed in external crates (rustc_utils, rustc_span); no static argument over this source bounds them.',
 'N03':'A quantitative bound on time and memory over all programs; the cost is dominated by external fixpoints and by runtime sizes of alias sets that no static analysis in reach bounds.',
}
def build(P):
    checks=[];na=[]
    for q in P:
        i=q['id']
        if i in registry.CHECKS:
            checks.append(dict(property=i,quick_cmd='python3 check.py %s'%i,thorough_cmd='python3 check.py %s --tier thorough'%i,technique=TECH[KIND.get(i,'rust')],level='other',
              level_note='Static rule over the current source; complete for the stated obligations up to the models of external functions (see DESIGN.md and the assumptions in the evidence).'))
        else: na.append(dict(property=i,reason=NA.get(i,'Not claimed yet: the static rule for this property is not built.')))
    return dict(version=1,setup_cmd='python3 check.py setup',checks=checks,not_applicable=na,
      notes='check.py dumps the type-checked MIR of /repo (a rustc driver, engine/mirdump.rs) and evaluates it symbolically; see DESIGN.md. known_findings.json lists known and fixed findings.')
