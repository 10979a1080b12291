F='crates/flowistry/src/'
MU=F+'infoflow/mutation.rs'; AN=F+'infoflow/analysis.rs'; RE=F+'infoflow/recursive.rs'; DE=F+'infoflow/dependencies.rs'
EN=F+'mir/engine.rs'; PI=F+'mir/placeinfo.rs'; AL=F+'mir/aliases.rs'; UT=F+'mir/utils.rs'; EX=F+'extensions.rs'; MO=F+'infoflow/mod.rs'
S=[]
MANY='''
extern crate rustc_middle;
use rustc_middle::mir::{Local, Place};
use rustc_utils::mir::location_or_arg::LocationOrArg;
/// Spans of the dependencies of one target list: the first argument (if `arg`), then the marked place.
#[allow(dead_code)]
fn query(src: &str, arg: bool, direction: Direction) -> Vec<String> {
  let dir = std::env::temp_dir().join(format!("flowistry_probe_{}_{}", std::process::id(), next()));
  std::fs::create_dir_all(&dir).unwrap();
  let input = dir.join("input.txt");
  std::fs::write(&input, src).unwrap();
  let expected = dir.join("input.txt.expected");
  std::fs::write(&expected, src.replace("`(", "").replace(")`", "")).unwrap();
  let out: Arc<Mutex<Vec<String>>> = Default::default();
  let out2 = out.clone();
  test_utils::test_command_output(&input, Some(&expected), move |results, spanner, target| {
    let mut targets = Vec::new();
    if arg {
      let local = Local::from_usize(1);
      targets.push((Place::from(local), LocationOrArg::Arg(local)));
    }
    for m in spanner.span_to_places(target) {
      targets.extend(m.locations.iter().map(|l| (m.place, *l)));
    }
    let source_map = results.analysis.tcx.sess.source_map();
    *out2.lock().unwrap() = infoflow::compute_dependency_spans(&results, vec![targets], direction, &spanner)
      .into_iter()
      .flatten()
      .map(|span| source_map.span_to_snippet(span).unwrap())
      .collect();
    Vec::new()
  });
  std::fs::remove_dir_all(&dir).unwrap();
  let v = out.lock().unwrap().clone();
  v
}
'''
def seed(id,prop,file,old,new,needs,breaks,probe=None,**k):
    S.append(dict(id=id,property=prop,file=file,old=old,new=new,needs=needs,breaks=breaks,probe=probe,**k))
def t(src,present=(),absent=(),forward=False,name='demo'):
    q=lambda l:'&['+','.join('r#"%s"#'%x for x in l)+']'
    return '#[test]\nfn %s() {\n  check(r##"%s"##, %s, %s, %s);\n}\n'%(name,src,'true' if forward else 'false',q(present),q(absent))

seed('C01-single-variant-enum','C01',MU,
 """              AdtKind::Enum => mutated.project_deeper(""",
 """              AdtKind::Enum if adt_def.variants().len() > 1 => mutated.project_deeper(""",
 'an enum with a single variant','the fields of a single-variant enum are recorded without the downcast under which they are read',
 t("enum E { A(i32, i32) } fn main() { let a = 17; let b = 18; let e = E::A(a, b); let E::A(_, y) = e; `(y)`; }",['18']),
 edits=[(MU,"""              AdtKind::Enum => mutated.project_deeper(""","""              AdtKind::Enum if adt_def.variants().len() > 1 => mutated.project_deeper("""),
        (MU,"AdtKind::Struct | AdtKind::Union => *mutated,","AdtKind::Struct | AdtKind::Union | AdtKind::Enum => *mutated,")])
seed('C02-enum-args-not-mutated','C02',MU,
 """        for arg in arg_places {
          for arg_mut in""",
 """        for arg in arg_places {
          // Enums are moved into the callee.
          let body = self.place_info.body;
          if arg.ty(body.local_decls(), tcx).ty.is_enum() {
            continue;
          }
          for arg_mut in""",
 'a mutable reference passed inside an enum such as Option','data reachable through a reference inside an enum argument is not recorded as mutated by a call',
 t("fn f(o: Option<&mut i32>, v: i32) {} fn main() { let mut x = 1; let v = 17; f(Some(&mut x), v); `(x)`; }",['17']))
seed('C03-discr-first-mutation','C03',AN,
 """        for deps in &mut all_deps {
          add_deps(state, discr_place, deps);
        }""",
 """        if let Some(deps) = all_deps.first_mut() {
          add_deps(state, discr_place, deps);
        }""",
 'an instruction with several mutations under a branch, queried through the second one','only the first mutation of an instruction depends on what the controlling branch tests',
 t("fn main() { let c = 17; let mut t = (1, 2); if c == 5 { t = (7, 8); } let y = t.1; `(y)`; }",['17']))
seed('C05-self-input','C05',AN,
 """      for input in &mt.inputs {
        add_deps(state, *input, deps);
      }""",
 """      for input in mt.inputs.iter().filter(|input| **input != mt.mutated) {
        add_deps(state, *input, deps);
      }""",
 'an assignment that reads and overwrites the same place directly, as x ^= 1 does','the previous value of a place is not an input of an assignment that updates it in place',
 t("fn main() { let a = 17; let mut y = a; y ^= 1; `(y)`; }",['17']))
seed('C07-raw-pointer-args','C07',PI,
 "    self.body.args_iter().flat_map(|local| {",
 "    let body = self.body;\n    self.body.args_iter().filter(|local| !body.local_decls[*local].ty.is_raw_ptr()).flat_map(|local| {",
 'a function with a raw pointer parameter','arguments that are raw pointers are not marked at entry',
 t("fn f(p: *const i32) { let y = unsafe { *p }; `(y)`; } fn main() {}",['p: *const']))
seed('C09-switch-on-field','C09',DE,
 "          if let Some(place) = discr.as_place() {","          if let Some(place) = discr.as_place() && place.projection.is_empty() {",
 'a match that branches directly on a field','a forward query does not report branches on a field of the target',
 t("fn main() { let c = true; let `(t)` = (c, 2); match t { (true, _) => {} _ => {} } }",['match t'],forward=True))
seed('C09-both-stale','C09',DE,
 """          if target_deps
            .all_forward
            .iter()
            .any(|fwd| deps.is_superset(fwd))
          {
            outputs.insert(location);
          }""",
 """          if target_deps
            .all_forward
            .iter()
            .any(|fwd| deps.is_superset(fwd))
          {
            outputs.insert(location);
            break;
          }""",
 'several target lists influenced by the same instruction','an influenced instruction is reported only for the first target list it belongs to',MANY.replace('vec![targets]','vec![targets.clone(), targets]').replace('.flatten()','.skip(1).flatten()')+'''
#[test]
fn demo() {
  let v = query("fn main() { let `(x)` = 17; let y = x; let z = y; }", false, Direction::Forward);
  assert!(has(&v, "z = y"), "{v:?}");
}
''')
seed('C10-spans-of-sorted-deps','C10',DE,
 """  all_deps
    .into_iter()
    .map(|deps| {""",
 """  all_deps
    .into_iter()
    .filter(|deps| !deps.is_empty())
    .map(|deps| {""",
 'a query with several target lists, one of which is empty','the span lists no longer line up with the target lists once one has no dependencies',MANY.replace('vec![targets]','vec![Vec::new(), targets]').replace('.flatten()','.skip(1).flatten()')+'''
#[test]
fn demo() {
  let v = query("fn main() { let x = 17; let y = x; `(y)`; }", false, Direction::Backward);
  assert!(has(&v, "17"), "{v:?}");
}
''')

seed('C06-pass-limit','C06',EN,
 "  while let Some(loc_index) = dirty_queue.pop() {",
 """  let mut fuel = 6 * state.len();
  while let Some(loc_index) = dirty_queue.pop() {
    // Don't spend too long on any one body.
    fuel -= 1;
    if fuel == 0 {
      break;
    }
""",
 'a loop through which facts travel slowly, so that many passes over it are needed','the engine stops after a fixed number of steps although states still grow',
 t("fn main() { let c = 17; let mut a = [0; 1]; let (mut x0, mut x1, mut x2, mut x3, mut x4, mut x5, mut x6, mut x7, mut x8, mut x9) = (1,1,1,1,1,1,1,1,1,1); loop { if a[0] == 3 { break; } x9 = x8; x8 = x7; x7 = x6; x6 = x5; x5 = x4; x4 = x3; x3 = x2; x2 = x1; x1 = x0; x0 = c; } let y = x9; `(y)`; }",['17']))
seed('C18-no-unit-args','C18',PI,
 "    let all_locals = body.args_iter().map(LocationOrArg::Arg);",
 """    let all_locals = body
      .args_iter()
      .filter(|local| !body.local_decls()[*local].ty.is_unit())
      .map(LocationOrArg::Arg);""",
 'a function with a parameter of type ()','parameters without data have no index in the domain, so analysing such a function crashes',
 t("fn f(u: (), v: i32) { let y = v; `(y)`; } fn main() {}",['v: i32']),
 edits=[(PI,"    let all_locals = body.args_iter().map(LocationOrArg::Arg);",
 """    let all_locals = body
      .args_iter()
      .filter(|local| !body.local_decls[*local].ty.is_unit())
      .map(LocationOrArg::Arg);""")])
seed('C12-nested-raw','C12',AL,
 """        for (place, _) in places {
          unk_contains.insert((tcx.mk_place_deref(*place), Mutability::Mut));
        }""",
 """        for (place, _) in places.iter().filter(|(place, _)| place.projection.len() <= 2) {
          unk_contains.insert((tcx.mk_place_deref(*place), Mutability::Mut));
        }""",
 'raw pointers stored a few fields deep behind references','raw pointers and boxes stored deep in a value have no targets',
 t("struct I { p: *mut i32 } struct O { i: I } struct P { o: O } fn mk(a: &mut i32) -> P { P { o: O { i: I { p: a } } } } fn main() { let c = 17; let mut a = 1; let x = mk(&mut a); let z = mk(&mut a); unsafe { *x.o.i.p = c; } let y = unsafe { *z.o.i.p }; `(y)`; }",['17']))
seed('C13-same-kind-of-type','C13',AL,
 "      if orig_ty == loan_ty {","      if std::mem::discriminant(orig_ty.kind()) == std::mem::discriminant(loan_ty.kind()) {",
 'a field of a struct reached through a reference that came out of a container struct','the field path is appended to a target of another type, so the target itself is missed',
 t("struct S { a: i32, b: i32 } struct W { x: i32, y: i32, s: S } impl W { fn get(&mut self) -> &mut S { &mut self.s } } fn main() { let c = 17; let mut w = W { x: 1, y: 2, s: S { a: 3, b: 4 } }; let p = w.get(); p.a = c; let y = w.s.a; `(y)`; }",['17']))
cases_head=open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/seedlib/cases_head.py').read()
def drv(id,prop,edits,needs,breaks,body):
    S.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,kind='focus',files={'cases.py':cases_head+body}))
PL='crates/flowistry_ide/src/plugin.rs'; FO='crates/flowistry_ide/src/focus/mod.rs'; DI='crates/flowistry_ide/src/focus/direct_influence.rs'; SP='crates/flowistry_ide/src/spans.rs'
IA='crates/flowistry_ifc/src/analysis.rs'; IL='crates/flowistry_ifc/src/lib.rs'
SL="""
def slices(src, mark, fn='main', extra=()):
    \"\"\"text of the slices of the places selectable at the first occurrence of mark\"\"\"
    o = focus(src, fn, extra)
    i = src.index(mark); l = src[:i].count('\\n'); c = i - (src.rfind('\\n', 0, i) + 1)
    return [[text(src, r) for r in p['slice']] for p in o['Ok']['place_info'] if p['range']['start'] == {'line': l, 'column': c}]
"""
drv('C19-direct-recursion-only','C19',[(RE,"      body_stack.contains(&body_id)","      body_stack.last() == Some(&body_id)")],
 'functions that call each other recursively, with interprocedural analysis','the recursion check looks at the innermost function only, so mutual recursion never ends',SL+"""
src = 'fn even(n: u32) -> bool { if n == 0 { return true; } odd(n - 1) }\\nfn odd(n: u32) -> bool { if n == 0 { return false; } even(n - 1) }\\nfn main() {\\n  let c = 17;\\n  let y = even(c);\\n}\\n'
s = slices(src, 'y = ', extra=['--context-mode', 'Recurse'])
assert any('17' in ' '.join(x) for x in s), s
""")
drv('C20-constant-arguments','C20',[(RE,"""          .iter()
          .find(|(j, _)| child.local.as_usize() - 1 == *j)
          .map(|(_, place)| *place)?""","""          .get(child.local.as_usize() - 1)
          .map(|(_, place)| *place)?""")],
 'a call with a constant before a place in its argument list, with interprocedural analysis','callee arguments are matched with the caller arguments that are places by position, ignoring constants',SL+"""
src = 'fn f(k: i32, v: i32) -> i32 { v }\\nfn main() {\\n  let c = 17;\\n  let y = f(3, c);\\n  let z = y;\\n}\\n'
s = slices(src, 'z = ', extra=['--context-mode', 'Recurse'])
assert any('17' in ' '.join(x) for x in s), s
""")
drv('C21-pointer-mode-needs-recurse','C21',[(PL,"      pointer_mode: plugin_args.pointer_mode.unwrap_or(PointerMode::Precise),","""      pointer_mode: plugin_args
        .pointer_mode
        .filter(|_| plugin_args.context_mode.is_some())
        .unwrap_or(PointerMode::Precise),""")],
 'a pointer mode requested without a context mode','the requested pointer mode is ignored unless a context mode is requested too',SL+"""
src = 'fn main() {\\n  let c = 17;\\n  let mut a = 1;\\n  let mut b = 2;\\n  let p = &mut a;\\n  let q = &mut b;\\n  *q = c;\\n  let y = *p;\\n}\\n'
s = slices(src, 'y = ', extra=['--pointer-mode', 'Conservative'])
assert any('17' in ' '.join(x) for x in s), s
""")
drv('C26-first-parameter','C26',[(FO,"    .reduce(|s1, s2| s1.to(s2));","    .next();")],
 'a function with several parameters','only the first parameter is part of the containers, so the others are never dimmed',"""
src = 'fn f(a: i32, b: i32) -> i32 { a }\\nfn main() {}\\n'
o = focus(src, 'f')
assert any('b: i32' in text(src, r) and '{' not in text(src, r) for r in o['Ok']['containers']), o
""")
drv('C28-only-mutable-targets','C28',[(DI,"    let aliases = self.place_info.reachable_values(target, Mutability::Not);","    let aliases = self.place_info.reachable_values(target, Mutability::Mut);")],
 'a shared reference as the target','instructions touching the data behind a shared reference are not direct influences of it',"""
src = 'fn main() {\\n  let x = 17;\\n  let r = &x;\\n  let z = *r;\\n}\\n'
o = focus(src)
l = [text(src, q) for p in o['Ok']['place_info'] if p['range']['start'] == {'line': 2, 'column': 6} for q in p['direct_influence']]
assert any('17' in q for q in l), l
""")
drv('C30-outside-panics','C30',[(PL,'      let body = bodies.next().context("Selection did not map to a body")?;','      let body = bodies.next().expect("Selection did not map to a body");')],
 'a position outside all functions','a selection outside all functions crashes the driver instead of being reported',"""
d = crate({'src/main.rs': 'fn main() {}\\n\\n\\n'})
r = run(d, 'focus', d + '/src/main.rs', 2, 0)
m = json.loads(gzip.decompress(base64.b64decode(r.stdout))) if r.stdout else None
assert m and m['Err']['type'] == 'AnalysisError', (m, r.stderr[-300:])
""")
# --- the information-flow checker
IFC="""
def ifc(src):
    \"\"\"(number of reported flows, clean verdict printed) of cargo-ifc on one source file\"\"\"
    d = crate({'src/main.rs': src}, '[dependencies]\\nflowistry_ifc_traits = { path = "%s/crates/flowistry_ifc_traits" }\\n' % os.environ['REPO'])
    r = run(d, prog='cargo-ifc', sub=None)
    if r.returncode: raise SystemExit('cargo-ifc failed: ' + r.stderr[-1500:])
    return r.stderr.count('ERROR: insecure flow'), 'No security issues found' in r.stderr
HEAD = '''
use flowistry_ifc_traits::{Secure, Insecure};
#[derive(Copy, Clone)] struct S(i32);
impl Secure for S {}
struct I(i32);
impl Insecure for I {}
fn secret() -> S { S(42) }
'''
"""
drv('C31-one-finding-per-secret','C31',[(IA,"""        errors.push((secure, insecure));
""","""        errors.push((secure, insecure));
        break;
""")],'one secure place that flows to two insecure places','only the first insecure place is reported for each secure place',IFC+"""
# several locals hold the secret, and each should be reported for both targets
src = HEAD + '''
fn main() {
  let s = secret();
  let a = I(s.0);
  let b = I(s.0);
}
'''
n1 = ifc(src.replace('  let b = I(s.0);\\n', ''))[0]
n2 = ifc(src)[0]
assert n1 > 0 and n2 >= 2 * n1, (n1, n2)
""")
# --- the extension
TSHARN=open('/verif/tools/tsdemo/harness.cjs').read()
FT='ide/src/focus.ts'; DT='ide/src/decorations.ts'; SU='ide/src/setup.ts'; ET='ide/src/errors.ts'; ST='ide/src/status_bar.ts'; EXT='ide/src/extension.ts'; RT='ide/src/range.ts'
TSH="""const {start,gate}=require('./harness.cjs');
const assert=require('assert');
process.on('unhandledRejection',e=>{console.error(e);process.exit(2)});
// A world with one Rust document, opened in an editor, and a driver that knows one function covering it.
async function world(o={}){
  let w=start(Object.assign({driver:a=>o.reply?o.reply(w,a):reply(w,a,o)},o.opts||{}));
  await w.activate();
  let d=new w.Doc(o.file||'/ws/src/a.rs',o.text||'fn main() { let x = 1; let y = x; let z = y; }\\n'); let ed=new w.Editor(d);
  w.vscode.window.activeTextEditor=ed; w.ed=ed; w.doc=d;
  return w;
}
function reply(w,a,o){
  let all=w.rng(0,0,0,46);
  if(a.includes('spans'))return w.ok({spans:[all]});
  return w.ok({containers:[all],place_info:o.places?o.places(w):[]});
}
function test(f){f().then(()=>{console.log('ok');process.exit(0)},e=>{console.error(e);process.exit(1)})}
"""
def tss(id,prop,edits,needs,breaks,body):
    S.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,kind='ts',files={'demo.cjs':TSH+body,'harness.cjs':TSHARN}))
tss('C42-nested-pieces','C42',[(DT,"      start = Math.max(r[1], start);","      start = r[1];")],
 'a slice range nested in another one','after a nested slice range the rest of the enclosing slice range is dimmed',"""
test(async()=>{
  let w=await world({places:w=>[{range:w.rng(0,16,0,17),ranges:[w.rng(0,16,0,17)],slice:[w.rng(0,12,0,33),w.rng(0,16,0,17)],direct_influence:[]}]});
  w.ed.selection=new w.Selection(0,16,0,17);
  await w.run('focus'); await w.settle();
  let {hide_type}=w.load('decorations.ts');
  let hidden=w.ed.deco.get(hide_type).map(r=>[r.start.character,r.end.character]).filter(([a,b])=>a<b);
  assert.deepStrictEqual(hidden,[[0,12],[33,46]]);
});
""")
tss('C35-direct-influence-stays','C35',[(DT,"  [highlight_type, hide_type, select_type, slice_type, emphasis_type].forEach(","  [highlight_type, hide_type, select_type, slice_type].forEach(")],
 'a selection with direct influence, then leaving focus mode','the emphasis of direct influences stays when highlights are cleared',"""
test(async()=>{
  let w=await world({places:w=>[{range:w.rng(0,16,0,17),ranges:[w.rng(0,16,0,17)],slice:[w.rng(0,12,0,33)],direct_influence:[w.rng(0,20,0,21)]}]});
  w.ed.selection=new w.Selection(0,16,0,17);
  await w.run('focus'); await w.settle();
  assert(w.ed.shown().length>0);
  await w.run('focus'); await w.settle();
  assert.strictEqual(w.ed.shown().length,0);
});
""")
tss('C39-containing-needs-no-overlap','C39',[(FT,"""      sliced = result.overlapping.concat(first_containing);""","""      sliced =
        result.overlapping.length > 0 ? result.overlapping : first_containing;""")],
 'a selection that lies inside one place and overlaps another','the containing place is left out when another place overlaps the selection',"""
test(async()=>{
  let p=(w,a,b)=>({range:w.rng(0,a,0,b),ranges:[w.rng(0,a,0,b)],slice:[w.rng(0,a,0,b)],direct_influence:[]});
  let w=await world({places:w=>[p(w,10,40),p(w,20,25)]});
  w.ed.selection=new w.Selection(0,22,0,30);
  await w.run('focus'); await w.settle();
  let {slice_type}=w.load('decorations.ts');
  let s=w.ed.deco.get(slice_type).map(r=>r.start.character).sort();
  assert.deepStrictEqual(s,[10,20]);
});
""")
tss('C38-notfound-once','C38',[(FT,"""          this.state.set(filename, "notfound");
        } else {""","""          this.state.set(filename, "notfound");
          this.set_mode("notfound");
        } else {"""),(FT,"""    if (state == "notfound") {
      this.set_mode("notfound");
      return null;""","""    if (state == "notfound") {
      return null;""")],
 'a second request for a file that the driver did not know','the mode is set to not-found only when the driver is asked, so later requests stay in loading',"""
test(async()=>{
  let w=await world({reply:(w,a)=>w.err({type:'FileNotFound'})});
  await w.run('focus'); await w.settle();
  assert(w.state().includes('question'),w.state());
  w.onSel.fire({}); await w.settle();
  assert(w.state().includes('question'),w.state());
});
""")
tss('C37-killed-driver','C37',[(SU,"      if (proc.exitCode !== 0) {","      if (proc.exitCode) {")],
 'a driver ended by a signal, which has no exit code','a driver that was killed counts as a success, and its messages are lost',"""
test(async()=>{
  let w=await world({reply:(w,a)=>({code:null,stderr:'memory allocation failed'})});
  await w.run('focus'); await w.settle();
  assert(w.panes.length===1&&w.panes[0].text.includes('memory allocation failed'),JSON.stringify([w.panes.map(p=>p.text),w.errors]));
});
""")
tss('C37-only-latest-message','C37',[(SU,"""        reject(stderrChunks.join(""));""","""        reject(stderrChunks.pop() ?? "");""")],
 'a driver that writes its messages in several pieces','only the last piece of the output of a failed driver is shown',"""
test(async()=>{
  let w=await world({reply:(w,a)=>({code:1,stderr:['error[E0308]: mismatched types\\\\n','error: could not compile\\\\n']})});
  await w.run('focus'); await w.settle();
  assert(w.panes.length===1&&w.panes[0].text.includes('E0308'),JSON.stringify(w.panes.map(p=>p.text)));
});
""")
tss('C41-innermost-manifest','C41',[(SU,"  let entry = prefixHasToml.find(({ has }) => has);","  let entry = prefixHasToml.reverse().find(({ has }) => has);")],
 'an opened folder without a manifest, and two manifests between it and the file','the innermost folder with a manifest is used as the workspace root',"""
test(async()=>{
  let w=start({driver:a=>({code:0,stdout:''}),files:new Set(['/ws/a/Cargo.toml','/ws/a/b/Cargo.toml'])});
  w.vscode.window.activeTextEditor=new w.Editor(new w.Doc('/ws/a/b/src/lib.rs',''));
  await w.activate(); await w.settle();
  let dirs=new Set(w.spawned.filter(s=>s.args.includes('flowistry')).map(s=>s.opts.cwd));
  assert.deepStrictEqual([...dirs],['/ws/a']);
});
""")
tss('C34-save-after-error','C34',[(FT,"""      if (this.mode === "idle") {
        return;
      }

      this.set_mode("active");
      this.update_slice();""","""      if (this.mode !== "unsaved") {
        return;
      }

      this.set_mode("active");
      this.update_slice();""")],
 'a save while focus mode shows an error','a save only restarts focus mode if the document was edited while it was on, so it stays in error',"""
test(async()=>{
  let fail=true;
  let w=await world({reply:(w,a)=>fail?{code:1,stderr:'boom'}:reply(w,a,{})});
  await w.run('focus'); await w.settle();
  assert(w.state().includes('(x)'),w.state());
  fail=false;
  w.onSave.fire(w.doc); await w.settle();
  assert(w.state().includes('check'),w.state());
});
""")
tss('C36-error-command','C36',[(ST,"""    command: "flowistry.last_error",""","""    command: "flowistry.show_error",""")],
 'an error shown in the status bar','the status bar offers a command that does not exist while an error is shown',"""
test(async()=>{
  let w=await world({reply:(w,a)=>({code:1,stderr:'boom'})});
  await w.run('focus'); await w.settle();
  assert(w.bars[0].command in w.registered,w.bars[0].command);
});
""")
tss('C40-newer-patch','C40',[(SU,"  if (version !== VERSION) {","  if (!version.startsWith(VERSION)) {")],
 'an installed driver whose version starts with the version of the extension','a driver with a version such as 0.5.441 is accepted by an extension of version 0.5.44',"""
test(async()=>{
  let v=JSON.parse(require('fs').readFileSync('ide/package.json')).version;
  for(let i of [v,v+'1',v+'-beta','']){
    let w=start({driver:a=>({code:0,stdout:''}),installed:i});
    await w.activate(); await w.settle();
    assert.strictEqual(!!w.downloaded,i!==v,i);
  }
});
""")
DLT="""
const cp=require('child_process'),fsp=require('fs');
async function release(platform,cargo_home){
  Object.defineProperty(process,'platform',{value:platform}); if(cargo_home)process.env.CARGO_HOME=cargo_home; else delete process.env.CARGO_HOME;
  let out={zip:[],mode:{}};
  let exec=(c,cb)=>cb(null,{stdout:'rustc 1.0\\nhost: x-y-z\\n'});
  exec[require('util').promisify.custom]=async c=>({stdout:'rustc 1.0\\nhost: x-y-z\\n'});
  class Zip{extractAllTo(d,o){out.zip.push([d,o])}}
  let got={get:u=>({buffer:async()=>Buffer.from('')})};
  let chain=v=>({split:s=>chain(v.split(s)),map:f=>chain(v.map(f)),find:f=>chain(v.find(f)),value:()=>v});
  let _={chain};
  let base=start({driver:a=>({code:0,stdout:''})}); await base.activate();
  let lod=Object.assign({},_,{default:_,__esModule:true});
  let w=start({driver:a=>({code:0,stdout:''}),mocks:{'adm-zip':{default:Zip,__esModule:true},got:{default:got,__esModule:true},'./extension':{globals:{status_bar:{set_state(){}}}},'./logging':{log(){}},
    './setup':{cargo_bin:base.load('setup.ts').cargo_bin},lodash:lod,child_process:{exec},fs:{promises:{chmod:async(p,m)=>{out.mode[p]=m}}}}});
  await w.load('download.ts').download();
  return out;
}
"""
DLF='ide/src/download.ts'
tss('C45-windows-driver','C45',[(DLF,"""path.join(dir, "flowistry-driver" + suffix)""","""path.join(dir, "flowistry-driver")""")],
 'a download on Windows','after a download on Windows the driver is looked for under a name it does not have',DLT+"""
test(async()=>{
  for(let [p,s] of [['linux',''],['darwin',''],['win32','.exe']]){
    let o=await release(p,'/ch');
    assert.deepStrictEqual(Object.keys(o.mode).sort(),['/ch/bin/cargo-flowistry'+s,'/ch/bin/flowistry-driver'+s]);
    for(let k in o.mode)assert.strictEqual(parseInt(o.mode[k],8)&0o111,0o111);
  }
});
""")
tss('C45-keeps-older','C45',[(DLF,"zip.extractAllTo(dir, true);","zip.extractAllTo(dir, false);")],
 'an update, with an older release in the folder','a downloaded release does not replace the programs of an older one',DLT+"""
test(async()=>{ let o=await release('linux','/ch'); assert.deepStrictEqual(o.zip,[['/ch/bin',true]]); });
""")
tss('C45-home-without-cargo','C45',[(SU,"""  return path.join(cargo_home, "bin");""","""  return process.env.CARGO_HOME ? cargo_home : path.join(cargo_home, "bin");""")],
 'CARGO_HOME set in the environment of the editor','with CARGO_HOME set the programs are put beside the bin folder',DLT+"""
test(async()=>{
  assert.strictEqual((await release('linux','/ch')).zip[0][0],'/ch/bin');
  assert.strictEqual((await release('linux',null)).zip[0][0],require('path').join(require('os').homedir(),'.cargo','bin'));
});
""")
tss('C44-cell-per-line','C44',[(FT,"""    this.bodies = new RangeTree(
      spans.spans.map((range) => ({ range, value: new Cell(null) })),
      doc
    );""","""    let cells: Record<number, Cell<FlowistryResult<FocusBodyState> | null>> = {};
    this.bodies = new RangeTree(
      spans.spans.map((range) => ({
        range,
        value: (cells[range.start.line] ||= new Cell(null)),
      })),
      doc
    );""")],
 'two bodies that start on the same line','two bodies that start on one line share one cached analysis',"""
test(async()=>{
  let asked=[];
  let w=await world({text:'fn f() { let x = 1; } fn g() { let y = 2; }     \\\\n',reply:(w,a)=>{
    let bs=[w.rng(0,0,0,21),w.rng(0,22,0,43)];
    if(a.includes('spans'))return w.ok({spans:bs});
    let c=+a[a.length-1]; for(let x of a)if(/^[0-9]+$/.test(x))c=+x;
    asked.push(c); let b=bs[c<22?0:1];
    return w.ok({containers:[b],place_info:[]});
  }});
  w.ed.selection=new w.Selection(0,13,0,14); await w.run('focus'); await w.settle();
  w.ed.selection=new w.Selection(0,35,0,36); w.onSel.fire({textEditor:w.ed,selections:[w.ed.selection]}); await w.settle();
  assert.deepStrictEqual(asked.map(c=>c<22),[true,false]);
});
""")
drv('C29-empty-influence-left-out','C29',[(FO,"""  pub slice: Vec<CharRange>,
  pub direct_influence: Vec<CharRange>,""","""  pub slice: Vec<CharRange>,
  #[serde(skip_serializing_if = "Vec::is_empty")]
  pub direct_influence: Vec<CharRange>,""")],
 'a place without direct influences','a field the extension reads is left out of the reply when it is empty',"""
src = 'fn main() {\\n  let x;\\n  x = 1;\\n  let y = 2;\\n  println!("{}", x + y);\\n}\\nfn g(a: i32, b: &i32) { }\\nfn h(c: Option<i32>) { loop { } }\\n'
for f in ['main', 'g', 'h']:
    for p in focus(src, f)['Ok']['place_info']:
        assert set(p) == {'range', 'ranges', 'slice', 'direct_influence'}, p
""")
tss('C46-newer-driver-kept','C46',[(SU,"  if (version !== VERSION) {","  if (version.localeCompare(VERSION, undefined, { numeric: true }) < 0) {")],
 'a driver newer than the extension is installed','a driver of a later version than the extension is used as it is',"""
test(async()=>{
  for(let [v,want] of [[undefined,false],['0.0.1',true],['99.0.0',true]]){
    let w=start({installed:v,driver:a=>({code:0,stdout:''})}); await w.activate();
    assert.strictEqual(!!w.downloaded,want,'installed '+v);
    assert(w.registered['flowistry.focus']);
  }
});
""")
tss('C46-save-in-background','C46',[(SU,"        await editor.document.save();","        editor.document.save();")],
 'a document that takes a moment to be saved','the driver is started before the document it is to analyse is saved',"""
test(async()=>{
  let w=await world({places:w=>[]});
  w.doc.isDirty=true; w.doc.save=async()=>{await new Promise(r=>setTimeout(r,3));w.doc.isDirty=false;return true};
  let n=w.spawned.length;
  await w.run('focus'); await w.settle(30);
  let l=w.spawned.slice(n).filter(i=>i.args.includes('flowistry'));
  assert(l.length>0);
  for(let i of l)assert.strictEqual(i.dirty,false,i.args.join(' '));
});
""")
tss('C47-cannot-start','C47',[(SU,"""      globals.status_bar.set_state("idle");
      reject(e.toString());""","""      reject(e.toString());""")],
 'an external program that cannot be started, on activation','after a program that cannot be started the status bar stays busy for ever',"""
test(async()=>{
  let w=start({proc:(c,a)=>c==='/rustc'?{error:'spawn /rustc ENOENT'}:undefined,driver:a=>({code:0,stdout:''})}); await w.activate();
  await w.settle();
  assert(w.errors.length>0);
  assert(!/~spin/.test(w.state()),w.state());
});
""")
