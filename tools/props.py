"""Single source for properties.jsonl / MANIFEST.json metadata (run tools/gen.py)."""
F='crates/flowistry/src/'
IDE='crates/flowistry_ide/src/'
IFC='crates/flowistry_ifc/src/'
MU=F+'infoflow/mutation.rs'; AN=F+'infoflow/analysis.rs'; RE=F+'infoflow/recursive.rs'
DE=F+'infoflow/dependencies.rs'; MO=F+'infoflow/mod.rs'; EN=F+'mir/engine.rs'
PI=F+'mir/placeinfo.rs'; AL=F+'mir/aliases.rs'; UT=F+'mir/utils.rs'; EX=F+'extensions.rs'
PL=IDE+'plugin.rs'
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,**kw):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]),**kw))
PROG=["programs"]
p("C01","An assignment makes its target depend on everything it reads",
  "For every assignment in an analysed function, the assigned place is recorded as definitely mutated, and each place read by the right-hand side is recorded as an input of that mutation. When a struct, tuple or enum value is built, or a struct is copied, field by field, every field visible from the function is recorded and gets the corresponding operand or source field as its input and no other field's; unions are treated as a whole.",
  PROG,"all MIR assignments: every rvalue form, any number and type of fields and operands, any enum variant",
  "The tests exercise a few rvalue shapes in about 60 small functions; a dropped operand kind, an off-by-one field or a skipped aggregate form survives them.",
  [MU],[("visit_assign: aggregate, struct-copy and generic cases",MU+" ModularMutationVisitor::visit_assign"),("PlaceCollector",'rustc_utils mir/place.rs')])
p("C02","A call affects its result and all mutable data reachable from its arguments",
  "For every function call analysed by signature, the call's destination depends on every place passed as an argument and on the function pointer being called, if any (unless the result is the unit value), and every place that is mutably reachable from any argument is recorded as possibly mutated with all the arguments as inputs. The only arguments left out are those of the async context type inside an async body.",
  PROG,"all call terminators, any number, order and type of arguments, any destination type",
  "Tests call a handful of functions with one to three arguments and check one dependency each; a call shape whose second mutable argument or third input is forgotten is not sampled.",
  [MU,UT],[("visit_terminator",MU+" ModularMutationVisitor::visit_terminator"),("arg_places / AsyncHack::ignore_place",UT)])
p("C03","Every mutation depends on the branches that control it",
  "Every mutation performed at an instruction records as dependencies the terminator of each block that instruction's block is control-dependent on and, where that terminator is a branch on a value, everything that value depends on. This applies to all mutations of the instruction, definite or possible, not only to some of them.",
  PROG,"all control-flow graphs and all sets of mutations at an instruction",
  "Tests include a few ifs, loops and matches with a single mutation inside; nested control, several mutations at one instruction and non-place discriminants are not enumerated.",
  [AN],[("control dependence section of transfer_function",AN+" FlowAnalysis::transfer_function")])
p("C04","Old dependencies are forgotten only when an overwrite is certain",
  "The analysis erases what it knew about a place only if the mutation is definite and the mutated place has exactly one possible alias (itself), and it then erases only that place and the sub-places inside it; a write to an array element never erases anything. Anything that is only possibly mutated, or that may be one of several aliased places, keeps its previous dependencies and gains the new ones.",
  PROG,"all mutations, all alias sets, all states",
  "A strong update applied in one extra situation loses dependencies only for programs with a specific aliasing shape; the tests hold a few such shapes.",
  [AN],[("guarded clear_row in transfer_function",AN+" FlowAnalysis::transfer_function")])
p("C05","A write records its inputs' dependencies on every place it may modify",
  "At each mutation, the new dependencies consist of the current instruction and everything each input, each pointer the written place is reached through, and each index used in it depends on; inputs are read from the state before any of the instruction's own writes, erasing for one mutation never discards what another mutation of the same instruction recorded, and they are added to every alias of the mutated place. Only aliases that lie behind a shared reference may be left out, and not even those when mutability is being ignored.",
  PROG,"all mutation lists, all alias sets, all prior states",
  "Order of reads and writes and the handling of the second and later alias or mutation matter only for multi-mutation instructions and aliased pointers, which unit tests sample sparsely.",
  [AN],[("add_deps over inputs; mutable_aliases; union_into_row",AN+" FlowAnalysis::transfer_function"),("influences",AN+" FlowAnalysis::influences")])
p("C06","The dataflow engine computes a complete fixpoint",
  "The flow engine starts from the bottom state with the entry state at the first instruction, processes every instruction reachable from the entry at least once, and propagates the state after each instruction to every control-flow successor of that instruction by joining, never by overwriting. An instruction whose incoming state grows is always processed again, so the returned state is a fixpoint, and a query for a location returns the state stored for that location.",
  PROG,"all control-flow graphs and transfer functions, all orders of the work list",
  "Loops whose facts need more than one pass, or blocks with several predecessors, only sometimes change a test's answer.",
  [EN],[("work list loop",EN+" iterate_to_fixpoint"),("state_at",EN+" AnalysisResults::state_at")])
p("C07","At entry, data reachable from each argument depends on that argument",
  "On function entry, each argument, each of its fields, and what it points to (up to two levels of projection) is recorded as depending on that argument, for every argument of the function. An argument's marker is never attached to data of a different argument.",
  PROG,"all function signatures and argument types",
  "Tests use one to three arguments of simple types.",
  [AN,PI],[("initialize_start_block",AN),("all_args",PI+" PlaceInfo::all_args")])
p("C08","Backward queries return everything the target depends on",
  "A place's dependencies at a point are the union, over everything reachable from the place through references of any mutability, of the recorded dependencies of all its aliases, of places overlapping those aliases, of the pointers it is reached through and of the indices in it. A backward query for a list of targets returns, for each list, the union over all of its targets at their own locations, and an argument target returns that argument.",
  PROG,"all places, target lists and states",
  "Tests query one local at the end of the function.",
  [AN,DE],[("deps_for / influences",AN),("backward closure",DE+" compute_dependencies")])
p("C09","Forward queries return everything the target influences",
  "A forward query reports an instruction exactly when the recorded dependencies of some place it mutates (or of the value it branches on) include everything the target is identified by, for some place reachable from some target in that list; every instruction of the body and every argument is considered. A query in both directions returns the union of the forward and backward answers, and results are returned one per target list in the order given.",
  PROG,"all bodies, target lists and directions",
  "Existing forward-slice tests cover about a dozen small functions, one target list each.",
  [DE],[("TargetDeps::new, forward closure, direction dispatch",DE)])
p("C10","Dependency spans cover every dependency of the right target",
  "Translating dependencies to source spans maps every dependency location of a target to its source spans and merges only overlapping spans, producing one span list per target, in the same order as the targets, and never using the spans of another target's dependencies.",
  PROG,"all target lists and dependency sets",
  "Tests use one or a few targets and compare a rendered slice.",
  [DE],[("compute_dependency_spans",DE)])
p("C11","Pointers inherit the targets of everything they may be borrowed from",
  "If the compiler's borrow facts say one lifetime may flow into another, then everything the first may point to is also something the second may point to, transitively and through cycles of lifetimes. Flows are dropped only for lifetimes of the async context, and a target is refined to a field only when the borrow expression itself selects that field and the types agree.",
  PROG,"all borrow-fact sets, including cyclic ones",
  "Alias tests check three or four programs; cycles, late constraints and long chains need specific programs.",
  [AL],[("subset relation and fixpoint",AL+" Aliases::compute_loans")])
p("C12","Every pointer source is given its points-to targets",
  "Every borrow expression of a directly owned place, every pointer inside an argument (up to two levels of projection), and every raw pointer or box contributes what it points to, with its mutability, to the points-to set of its lifetime (raw pointers and boxes share one unknown lifetime). The static lifetime flows into every other lifetime.",
  PROG,"all bodies, all local and argument types",
  "Tests sample a few pointer kinds.",
  [AL],[("GatherBorrows; contains initialisation",AL+" Aliases::compute_loans")])
p("C13","Alias queries include the place itself and all its possible targets",
  "The aliases of a place always include the place itself; a place reached through a pointer additionally aliases every target recorded for that pointer's lifetime (the unknown lifetime for raw pointers and boxes). The rest of the path after the pointer is appended when the target has the pointee's type, and the whole target is reported when it does not.",
  PROG,"all places and points-to sets",
  "Two alias unit tests check four places.",
  [AL],[("Aliases::aliases",AL)])
p("C14","Overlapping places are never treated as independent",
  "The places reported as conflicting with a place include the place itself, everything contained in it, and every place that contains it, up to but not beyond the nearest reference or raw pointer (boxes are owned and are looked through). Sibling fields of structs and tuples are not reported.",
  PROG,"all places and types",
  "One unit test checks one tuple.",
  [PI],[("conflicts / children",PI)])
p("C15","Reachability respects mutability and never loses a target",
  "Up to the lifetimes written in them, the places reachable from a value include the value itself and every points-to target of every lifetime occurring anywhere in its type, including inside generics, nested references, boxes and raw pointers. With the mutable permission, only targets reached without passing under a shared reference and borrowed mutably are included; with the shared permission, or when mutability is ignored, nothing is filtered out on mutability grounds.",
  PROG,"all types and points-to sets",
  "One unit test checks a nested tuple of references.",
  [PI],[("reachable_values, collect_loans, LoanCollector",PI)])
p("C16","Cached answers about places equal freshly computed ones",
  "Whatever the history of earlier queries, the cached normalisation, alias, conflict and reachability answers for a query are the ones a fresh computation for that query would give: each cache is keyed by everything its computation depends on and is used for one kind of answer only; lifetimes that do not occur in the answer may be ignored. The alias answer for a place is computed from that place with its lifetimes intact.",
  ["histories","programs"],"all histories of queries against one analysed body",
  "A cache keyed too coarsely returns wrong answers only after a particular earlier query.",
  [PI],[("normalized_cache, aliases_cache, conflicts_cache, reachable_cache",PI)])
p("C17","Dependency facts are filed under normalised places",
  "Every time the flow state is read, erased, inserted into or merged into by place, the place has been normalised first (or comes from a set built from normalised places), so facts written about a place through one path or with one set of lifetimes are found when read through another.",
  PROG,"all reads and writes of the flow state",
  "A missing normalisation only matters for places whose types carry lifetimes or indices.",
  [AN,DE],[("row_set / union_into_row / clear_row / insert call sites",AN+", "+DE)])
p("C18","Every location and argument has its own place in the dependency domain",
  "The dependency domain of a function contains every instruction of its body and every argument exactly once, instructions first and in order, and the same domain is used by the state, the engine and all queries about that function.",
  PROG,"all bodies",
  "An argument or a terminator missing from the domain shows only when it is asked for.",
  [PI,EN,MO],[("build_location_arg_domain",PI),("compute_flow",MO)])
p("C19","Call recursion always falls back safely and terminates",
  "With interprocedural analysis on, a call is analysed through its callee's body only if the callee is a known, local, non-diverging function with a body (not a trait's method, which an implementation may override), its arguments hold no mutating closure or trait object and its type arguments no references (whose effects the body would not show), and it is not already being analysed; in every other case the call gets the signature-based treatment and the state is otherwise untouched. Every call is treated in exactly one of the two ways, and with interprocedural analysis off the signature-based treatment is always used.",
  PROG,"all call graphs including mutually recursive ones, all call shapes",
  "A cycle through three functions, a diverging callee or a function pointer is needed to see a wrong fallback.",
  [RE,AN,MO],[("recurse_into_call",RE),("apply_primary_terminator_effect",AN),("BODY_STACK",MO)])
p("C20","Callee effects are translated back to the caller without loss",
  "When a callee is analysed, its effects at all of its return points are combined, and every callee place rooted in the return value, or mutated behind a pointer argument, becomes an effect on the corresponding caller place: the call destination, or the argument at the same position. Only the return value counts as definitely mutated, translation stops at fields private to the caller, and each effect's inputs are all the caller places whose callee dependencies, at entry or on return, are contained in the effect's.",
  PROG,"all callees and argument lists",
  "Interprocedural tests use a few callees with one or two arguments and a single return point.",
  [RE],[("translate_child_to_parent and mutation construction",RE)])
p("C21","Precision options reach the analysis exactly as requested",
  "Each command-line precision option selects the mode with the same name for its own dimension and no other, an unknown name is rejected, and an option that is not given means the precise, modular default. The chosen modes are in force while the body is analysed, and nothing is relaxed when no mode has been set.",
  ["configurations"],"all combinations of the three option dimensions, given or not",
  "Tests set the modes directly and never go through the command line.",
  [EX,PL],[("EvalMode default / FromStr",EX),("plugin run, callbacks eval_mode",PL)])
p("C22","Ablation modes only ever add dependencies",
  "Each less precise mode is consulted only to keep or add something that the precise mode would filter out: ignoring mutability never removes an alias, loan or pointer, and conservative pointer mode only adds lifetime relations, in both directions, between lifetimes of pointers to the same type.",
  ["configurations","programs"],"all programs under all mode combinations",
  "Tests compare the modes on a few programs only.",
  [EX,AL,AN,PI,UT],[("is_extension_active uses",AL+", "+AN+", "+PI+", "+UT)])
p("C23","Driver output is exactly one well-formed message, and build failures are errors",
  "For every analysis command, the only thing the driver writes to standard output is one base64-encoded, gzip-compressed JSON document of the analysis result or the analysis error. If the user's crate fails to build, nothing is printed and the run is reported as failed.",
  ["inputs","fault_sequences"],"all crates, commands and failures",
  "There is no test of the driver's output path.",
  [PL],[("postprocess",PL),("run_with_callbacks",PL)])
p("C24","Analysing a crate never modifies it",
  "Running any analysis command reads the user's crate but never creates, writes or deletes files, changes the environment of the process, or starts other programs; only the preload command runs cargo, as a check build in the plugin's own target directory. Compilation stops after the analysis, so no build products are produced.",
  ["inputs"],"all crates and commands",
  "Absence of side effects on every path cannot be tested by sampling.",
  [PL,IDE+'spans.rs',IDE+'focus/mod.rs',IFC+'lib.rs'],[("call graph of the drivers",PL),("Compilation::Stop",PL)])
p("C25","The compiler is always configured to produce the facts the analysis needs",
  "Every driver that analyses bodies, before any body is analysed, installs the borrow-fact collection and the simplified bodies; the IDE driver always runs the compiler with region identification on, optimisation of the analysed bodies off, and full source mapping of bodies, on top of the user's own arguments and never instead of them.",
  ["configurations","inputs"],"all commands and compiler argument lists",
  "Unit tests use their own compiler configuration, not the drivers'.",
  [PL,IFC+'lib.rs'],[("Callbacks::config",PL+", "+IFC+"lib.rs"),("run_with_callbacks",PL)])
p("C26","Focus output pairs every selectable range with its own slice",
  "Focus output has one entry per distinct selectable source range, whose targets are all places and locations the source map records at that range, and whose slice is the forward and backward dependency spans of exactly those targets. The direct-influence ranges are the source ranges of those targets' direct influences that lie inside that entry's own slice, and the containers are the body, the return type and, if there are parameters, the whole parameter list.",
  PROG,"all functions and source layouts",
  "The focus tests check a few ranges of small functions.",
  [IDE+'focus/mod.rs'],[("focus",IDE+'focus/mod.rs')])
p("C27","The body list of a file is complete and contains nothing else",
  "The list of function bodies reported for a file has the source range of every body of the crate that lies in that file and of none that lies in another file, and a file the compiler did not load is reported as not found rather than as an empty list.",
  ["inputs"],"all crates and files",
  "No test covers the listing command.",
  [IDE+'spans.rs'],[("after_analysis of the spans command",IDE+'spans.rs')])
p("C28","Direct influence lists every instruction touching the target",
  "The direct influences of a place are all instructions that read anything reachable from one of its reachable places, or mutate anything mutably reachable from what they write: every input and every mutated place of every mutation in the body is indexed under every place reachable from it, and a lookup collects all entries of all places reachable from the target.",
  PROG,"all bodies and targets",
  "No test covers direct influence beyond one or two ranges.",
  [IDE+'focus/direct_influence.rs'],[("DirectInfluence::build / lookup",IDE+'focus/direct_influence.rs')])
p("C29","Editor and driver agree on the wire format",
  "The commands, argument order and number, result fields, and error tags the editor extension uses are exactly those the driver defines and serialises: every command the extension sends is one the driver accepts with the same positional arguments, and every field or tag the extension reads is one the driver writes with that name and shape.",
  ["inputs","configurations"],"all requests and replies",
  "Both sides are tested separately, if at all; no test connects them.",
  [PL,IDE+'focus/mod.rs',IDE+'spans.rs','ide/src/focus.ts','ide/src/errors.ts','ide/src/setup.ts','ide/src/range.ts'],[("serde/clap derives",PL),("call_flowistry callers and interfaces",'ide/src/focus.ts')])
p("C30","Failures while analysing are reported as analysis errors",
  "If the requested position cannot be mapped to a file or a function body, or the analysis function itself returns an error, the driver reports that as an analysis error carrying the message and keeps the file-not-found error for missing files, rather than crashing or printing a success.",
  ["inputs","fault_sequences"],"all positions, files and analysis failures",
  "No test drives the plugin with bad positions.",
  [PL,IDE+'spans.rs',IDE+'focus/mod.rs'],[("FlowistryCallbacks::after_analysis; run",PL)])
p("C31","The checker examines every function and every secure/insecure pair",
  "The information-flow checker analyses every function body of the crate, nested ones included, and in each reports every pair of a secure place and an insecure place (fields of all locals included) where, in the combined state at all of the function's returns, the insecure place depends on everything the secure place depends on. No pair is skipped because of an earlier finding.",
  PROG,"all crates",
  "There is one example crate and no test of the checker.",
  [IFC+'lib.rs',IFC+'analysis.rs'],[("IfcVisitor::visit_nested_body",IFC+'lib.rs'),("analyze",IFC+'analysis.rs')])
p("C32","The checker's verdict is clean only if nothing was found anywhere",
  "The checker prints that no security issues were found exactly when no analysed body had a finding: once some body has a finding the verdict stays negative, whatever the bodies analysed before or after it. A body counts as a finding exactly when at least one pair in it is reported.",
  ["histories","programs"],"all sequences of analysed bodies",
  "The verdict depends on the order of bodies; no test runs the checker.",
  [IFC+'lib.rs',IFC+'analysis.rs'],[("issue_found",IFC+'lib.rs'),("has_errors",IFC+'analysis.rs')])
p("C33","The checker does not crash on diverging functions",
  "The information-flow checker completes on every function body of every crate that compiles, in particular on functions that never return, for which there is nothing to report.",
  PROG,"all crates, including functions with no return point",
  "No test runs the checker on a diverging function.",
  [IFC+'analysis.rs'],[("final_state",IFC+'analysis.rs')])
p("C34","The editor drops stale results when the document changes",
  "When the active Rust document has unsaved edits, all cached analysis results are dropped, and while focus mode is on, highlights are cleared and the mode shows unsaved. An analysis still running at the moment of the edit changes neither the mode nor the cache nor the highlights when it ends. After a save, focus mode (if on) becomes active again and recomputes from fresh results.",
  ["histories"],"all sequences of edits, saves and selections",
  "The extension's tests run a fixed script in a full editor and are not run here.",
  ['ide/src/focus.ts'],[("doc_edit_callback / doc_save_callback",'ide/src/focus.ts FocusMode')])
p("C35","Clearing removes every kind of highlight the extension can draw",
  "Leaving focus mode removes every kind of decoration focus mode ever applies from every visible editor, not only the active one, and selecting something with no slice removes them from the active editor, so no highlight can outlive either.",
  ["histories"],"all sequences of highlight and clear operations",
  "Which decoration kinds are in use is spread over several functions.",
  ['ide/src/decorations.ts','ide/src/focus.ts'],[("clear_ranges",'ide/src/decorations.ts')])
p("C36","Every advertised editor command exists",
  "Every command the extension's manifest declares, binds to a key or attaches to the status bar is registered when the extension activates, under the same name, and every key or menu binding refers to a declared command.",
  ["configurations"],"all commands of the manifest and the status bar",
  "Nothing tests the manifest against the code.",
  ['ide/package.json','ide/src/extension.ts','ide/src/focus.ts','ide/src/status_bar.ts'],[("commands",'ide/src/extension.ts')])
p("C37","Command failures always reach the user",
  "An exception in any registered command is caught and shown, a failed driver run is turned into a build error carrying the driver's output and remembered for the last-error command, an undecodable reply becomes an analysis error, and an error reply is never treated as a result.",
  ["fault_sequences"],"all commands and failures",
  "The tests never inject driver failures.",
  ['ide/src/extension.ts','ide/src/setup.ts','ide/src/errors.ts','ide/src/focus.ts'],[("call_flowistry",'ide/src/setup.ts'),("registerCommand wrapper",'ide/src/extension.ts')])
p("C38","Focus mode never stays stuck in loading",
  "Whenever focus mode sets itself to loading for a request, every way that request can end normally sets the mode to something else before control returns to the user: active on success, error on failure, not-found when the file is unknown.",
  ["histories","fault_sequences"],"all request outcomes",
  "Needs specific outcome sequences.",
  ['ide/src/focus.ts'],[("get_doc_state / handle_analysis_result",'ide/src/focus.ts')])
p("C39","Selection and mark decide the slice as documented",
  "The slice shown is computed for the mark if one is set and for the current selection otherwise: all places contained in the query if there are any, else the overlapping ones plus the smallest containing one. Setting the mark stores the current selection, unsetting removes it, and the select command selects exactly the slice's ranges.",
  ["inputs","histories"],"all selections, marks and place ranges",
  "A few selections are tested in a full editor only.",
  ['ide/src/focus.ts','ide/src/range.ts'],[("find_slice_at_selection",'ide/src/focus.ts'),("RangeTree.search",'ide/src/range.ts')])
p("C40","All components are released in lockstep",
  "All crates and the editor extension carry the same version, internal dependencies ask for exactly that version, and every build file that names the compiler toolchain names the pinned one. The extension uses a driver only if the driver reports exactly the extension's version or the extension has just installed that version with the pinned toolchain.",
  ["configurations"],"all manifests",
  "No test reads the manifests together.",
  ['Cargo.toml','rust-toolchain.toml','ide/package.json','ide/src/setup.ts'],[("version comparison in setup",'ide/src/setup.ts'),("manifests",'crates/*/Cargo.toml')])
p("C42","Exactly the code outside the slice is dimmed",
  "When a slice is shown, in every container of the selected body exactly the text not covered by the slice ranges inside that container is dimmed: no dimmed range overlaps such a slice range, and the gap before the first, between any two and after the last of them is dimmed, whatever their order, nesting or overlap.",
  ["inputs"],"all slices and containers",
  "Needs nested, overlapping, adjacent or unordered ranges; the editor tests do not look at dimming.",
  ['ide/src/decorations.ts'],[("invert_ranges / highlight_slice",'ide/src/decorations.ts')])
p("C41","The project root the extension uses contains a Cargo manifest",
  "The workspace root the extension runs the driver in is the opened folder if that has a Cargo manifest, and otherwise the outermost folder between it and the active file that has one; if there is none, the extension reports that it found no root. The driver is run in that folder and with the toolchain the extension pins.",
  ["configurations"],"all folder layouts",
  "Tests open one mock project whose root has the manifest.",
  ['ide/src/setup.ts'],[("findWorkspaceRoot / cargo_command",'ide/src/setup.ts')])
p("C43","The parts of a value keep the field numbers of the compiler",
  "Whenever the analysis lists the parts of a value or the pointers inside it, each part is identified by the same field numbers that the function's own code uses for it, whichever fields of a struct are private elsewhere. So a write to one field of a struct is seen by every later use of the whole struct (and by the information flow checker), also when fields declared before it are not visible in the function.",
  PROG,"all struct types with any mixture of visible and invisible fields, at any depth inside a value",
  "No test uses a struct that has a private field in front of a visible one.",
  [UT,PI,AL,IFC+'analysis.rs'],[("renumber_fields / interior_places / interior_pointers",UT),("field enumeration among visible fields",'rustc_utils mir/place.rs')])
p("C44","Results cached for a body are results of that body",
  "Focus mode keeps one analysis result per body of the document. The result kept for a body is the driver's answer for that very body, wherever the selection lay when it was requested, also when only one end of the selection lies inside a nested body such as a closure.",
  ["inputs","histories"],"all layouts of nested bodies and all selections",
  "Needs a selection that starts in a closure and ends outside it, followed by another selection in the enclosing function.",
  ['ide/src/focus.ts'],[("get_body_state / FocusBodyState.load",'ide/src/focus.ts')])
p("C45","Installed programs find each other and run what they are named after",
  "Each cargo subcommand the packages install (cargo flowistry, cargo ifc) always starts the build with the driver its own package installs, under exactly the name that package installs it by, and the driver always runs the same plug-in. The arguments it parses are exactly those after the program name, the version it reports is that of its package, and cargo ifc covers every crate of the workspace while cargo flowistry covers the crate that contains the file asked about. After the extension has downloaded a release, every program of flowistry_ide lies in $CARGO_HOME/bin, or in ~/.cargo/bin where that is not set, replaces an older one, and is executable under the name it has on the platform.",
  ["inputs","configurations"],"all programs, platforms, environments and argument lists",
  "No test runs the installed programs or a download; a wrong driver name shows only after installation.",
  ['crates/flowistry_ide/src/bin/cargo-flowistry.rs','crates/flowistry_ide/src/plugin.rs','crates/flowistry_ifc/src/lib.rs','ide/src/download.ts'],[("FlowistryPlugin",'crates/flowistry_ide/src/plugin.rs'),("IfcPlugin",'crates/flowistry_ifc/src/lib.rs'),("download",'ide/src/download.ts')])
p("C46","Analyses run on the saved text, by a driver of the extension's version",
  "The extension accepts requests, and uses the driver for anything else than asking its version, only when the installed driver reports exactly the extension's own version or drivers of exactly that version have just been installed, from the release or, if that fails, from source, replacing any other; before an installation the pinned toolchain is installed with all the components it lists, or the user has said to go on without. A driver of the right version is never installed again. For every request the document in the active editor is saved, and the save has finished, before the driver is started.",
  ["inputs","configurations","fault_sequences"],"all installed versions, installation failures, user choices and editor states",
  "No test installs the extension beside a driver of another version, or races a save against an analysis.",
  ['ide/src/setup.ts','ide/src/download.ts'],[("setup",'ide/src/setup.ts'),("download",'ide/src/download.ts')])
p("C47","The status bar is busy exactly while an external program runs",
  "From the start of every external program the extension runs until that program ends, the status bar shows that it is busy, and when the program has ended, in whichever way, the status bar no longer does.",
  ["inputs","fault_sequences"],"all external programs, all ways they can end",
  "No test observes the status bar, and a program that cannot be started is never tried.",
  ['ide/src/setup.ts','ide/src/status_bar.ts'],[("exec_notify_binary",'ide/src/setup.ts'),("StatusBar",'ide/src/status_bar.ts')])
p("N01","The dependency sets are a sound non-interference guarantee",
  "If changing the value at one place can change the value observed at another when the program runs, then the analysis reports a dependency of the second on the first.",
  PROG,"all safe Rust programs and executions",
  "Quantifies over all executions of all programs.",
  [AN,AL,MU],[("whole analysis",AN)])
p("N02","Source ranges map to the right characters for every file",
  "Every reported line and column denotes the same characters in the editor's encoding as in the compiler's source map, for files with any mixture of Unicode characters.",
  ["inputs"],"all source texts",
  "Tests use ASCII sources.",
  [IDE+'focus/mod.rs','ide/src/range.ts'],[("CharRange",'rustc_utils source_map/range.rs')])
p("N03","Analysis stays fast and bounded on large functions",
  "Analysing a function takes time and memory polynomial in its size and finishes within interactive limits for real-world code.",
  PROG,"all programs",
  "Only small programs are tested.",
  [EN,AL],[("engine",EN)])
