// Loads the extension's TypeScript (transpiled in memory) with stand-ins for VS Code, the driver process and the npm packages it uses.
const fs=require('fs'),path=require('path'),zlib=require('zlib'),Module=require('module'),EventEmitter=require('events');
const ts=require('/opt/veriftools/node/node_modules/typescript');
const REPO=process.cwd(), SRC=path.join(REPO,'ide/src');
class Position{constructor(line,character){this.line=line;this.character=character}}
class Range{constructor(a,b,c,d){if(a instanceof Position){this.start=a;this.end=b}else{this.start=new Position(a,b);this.end=new Position(c,d)}}}
class Selection extends Range{constructor(a,b,c,d){super(a,b,c,d);this.anchor=this.start;this.active=this.end}}
class ThemeColor{constructor(id){this.id=id}}
class VEmitter{constructor(){this.l=[];this.event=f=>{this.l.push(f);return{dispose:()=>{this.l=this.l.filter(x=>x!==f)}}}} fire(x){return this.l.slice().map(f=>f(x))}}
class Doc{
  constructor(fileName,text,languageId='rust'){this.fileName=fileName;this.text=text;this.languageId=languageId;this.isDirty=false;this.saves=0;this.onsave=null}
  async save(){this.saves++;this.isDirty=false;if(this.onsave)this.onsave();return true}
  offsetAt(p){let ls=this.text.split('\n'),o=0;for(let i=0;i<p.line&&i<ls.length;i++)o+=ls[i].length+1;return o+p.character}
  positionAt(o){let ls=this.text.split('\n'),i=0;while(i<ls.length-1&&o>ls[i].length){o-=ls[i].length+1;i++}return new Position(i,o)}
}
class Editor{
  constructor(doc){this.document=doc;this.selection=new Selection(0,0,0,0);this.selections=[];this.deco=new Map();this.hidden=0}
  setDecorations(t,rs){this.deco.set(t,rs.slice())}
  hide(){this.hidden++}
  shown(){return [...this.deco].filter(([t,r])=>r.length>0)}
}
const key=x=>Array.isArray(x)?String(x):x;
const cmp=(a,b)=>a<b?-1:a>b?1:0;
const lodash={
  range:(a,b)=>b===undefined?Array.from({length:a},(_,i)=>i):Array.from({length:b-a},(_,i)=>a+i),
  sortBy:(x,...f)=>{f=f.flat();return x.map((v,i)=>({v,i,k:f.map(g=>key(g(v)))})).sort((p,q)=>{for(let j=0;j<p.k.length;j++){let c=cmp(p.k[j],q.k[j]);if(c)return c}return p.i-q.i}).map(p=>p.v)},
  orderBy:(x,f,o=[])=>{f=[].concat(f);o=[].concat(o);return x.map((v,i)=>({v,i,k:f.map(g=>key(g(v)))})).sort((p,q)=>{for(let j=0;j<p.k.length;j++){let c=cmp(p.k[j],q.k[j]);if(c)return o[j]==='desc'?-c:c}return p.i-q.i}).map(p=>p.v)},
  isEqual:(a,b)=>{try{require('assert').deepStrictEqual(a,b);return true}catch(e){return false}},
  uniqWith:(x,f)=>x.reduce((a,v)=>a.some(w=>f(w,v))?a:[...a,v],[]),
};
class IntervalTree{constructor(){this.e=[]} insert(k,v){this.e.push([k,v])}
  search(q,f){return this.e.filter(([k])=>k[0]<=q[1]&&q[0]<=k[1]).sort((a,b)=>a[0][0]-b[0][0]||a[0][1]-b[0][1]).map(([k,v])=>f?f(v,{low:k[0],high:k[1]}):v)}}
function ok(v){return{code:0,stdout:zlib.gzipSync(JSON.stringify({Ok:v})).toString('base64')}}
function err(v){return{code:0,stdout:zlib.gzipSync(JSON.stringify({Err:v})).toString('base64')}}
// opts.driver(args, info): reply {code,stdout,stderr,error} of the process (may be a promise); opts.files: set of existing paths
function start(opts={}){
  const w={editors:[],spawned:[],messages:[],errors:[],registered:{},stored:{},panes:[],infos:[],log:[]};
  const onEdit=new VEmitter(),onSave=new VEmitter(),onSel=new VEmitter();
  w.onEdit=onEdit;w.onSave=onSave;w.onSel=onSel;w.Doc=Doc;w.Editor=Editor;w.Selection=Selection;w.Range=Range;w.Position=Position;w.ok=ok;w.err=err;w.bars=[];
  const vscode=w.vscode={Position,Range,Selection,ThemeColor,EventEmitter:VEmitter,version:'1',ViewColumn:{Beside:-2},
    Uri:{file:p=>({fsPath:p,path:p}),parse:p=>({path:p,fsPath:p})},
    window:{activeTextEditor:undefined,
      get visibleTextEditors(){return [vscode.window.activeTextEditor,...w.editors,...w.panes.map(p=>p.editor)].filter((e,i,l)=>e&&!e.hidden&&!e.closed&&l.indexOf(e)===i)},
      createStatusBarItem:()=>{let b={show(){}};w.bars.push(b);return b},
      createTextEditorDecorationType:o=>({o}),
      createOutputChannel:()=>({appendLine:x=>w.log.push(x)}),
      onDidChangeTextEditorSelection:f=>onSel.event(f),
      showErrorMessage:async(m,...c)=>{w.errors.push(m);return opts.choose?opts.choose(m,c):undefined},
      showInformationMessage:async(m,...c)=>{w.infos.push(m);return c[0]},
      showTextDocument:async(d,o)=>{let e=new Editor(d);w.panes.push({doc:d,editor:e,text:w.provider&&w.provider.provideTextDocumentContent()});return e},
      createWebviewPanel:()=>({webview:{html:'',onDidReceiveMessage(){}}}),
    },
    workspace:{workspaceFolders:opts.folders||[{uri:{fsPath:'/ws'}}],
      onDidChangeTextDocument:f=>onEdit.event(f),onDidSaveTextDocument:f=>onSave.event(f),
      registerTextDocumentContentProvider:(s,p)=>{w.provider=p;return{dispose(){}}},
      openTextDocument:async u=>({uri:u}),
      fs:{stat:async u=>{w.stats=(w.stats||[]).concat(u.fsPath);if(opts.files?opts.files.has(u.fsPath):u.fsPath==='/ws/Cargo.toml')return{};throw new Error('no such file')}},
    },
    commands:{registerCommand:(n,f)=>{w.registered[n]=f;return{dispose(){}}}},
  };
  vscode.default=vscode;
  w.context={subscriptions:[],extensionPath:'/ext',workspaceState:{get:k=>w.stored[k],update:async(k,v)=>{w.stored[k]=v}},globalState:{get(){},async update(){}}};
  const version=opts.version||JSON.parse(fs.readFileSync(path.join(REPO,'ide/package.json'))).version;
  function spawn(cmd,args,o){
    let p=new EventEmitter();p.stdout=new EventEmitter();p.stderr=new EventEmitter();p.stderr.setEncoding=()=>{};p.exitCode=null;
    let i={cmd,args,opts:o||{},dirty:vscode.window.activeTextEditor&&vscode.window.activeTextEditor.document.isDirty};w.spawned.push(i);
    (async()=>{
      let r=opts.proc&&await opts.proc(cmd,args);
      if(r);
      else if(args.includes('-V'))r={code:0,stdout:(opts.installed===undefined?version:opts.installed)+'\n'};
      else if(cmd==='rustup')r={code:0,stdout:'/rustc\n'};
      else if(args.includes('--print'))r={code:0,stdout:'/lib\n/sys\n'};
      else if(args.includes('preload'))r={code:0,stdout:''};
      else r=await opts.driver(args,i);
      await new Promise(r=>setTimeout(r,1));
      if(r.error){p.emit('error',new Error(r.error));return}
      if(r.stdout)p.stdout.emit('data',Buffer.from(r.stdout));
      if(r.stderr)for(let c of [].concat(r.stderr))p.stderr.emit('data',c);
      p.exitCode=r.code;p.emit('close',r.code);p.emit('exit',r.code);
    })().catch(e=>{console.error(e);process.exit(3)});
    p.addListener=p.on;
    return p;
  }
  const child={spawn,exec:(c,o,cb)=>{(cb||o)(null,'','')},execSync:()=>'',default:null};child.default=child;
  const mocks={vscode,lodash:Object.assign({default:lodash,__esModule:true},lodash),'@flatten-js/interval-tree':{default:IntervalTree,__esModule:true},
    child_process:child,'new-github-issue-url':{default:o=>'url:'+o.body,__esModule:true},open:{default:async u=>{w.opened=(w.opened||[]).concat(u)},__esModule:true},
    './app.scss':{},'./download':{download:async()=>{w.downloaded=true}},...(opts.mocks||{})};
  const cache={};
  function load(rel){
    let f=path.join(SRC,rel);if(cache[f])return cache[f].exports;
    let m={exports:{}};cache[f]=m;
    let js=ts.transpileModule(fs.readFileSync(f,'utf8'),{compilerOptions:{module:ts.ModuleKind.CommonJS,target:ts.ScriptTarget.ES2021,esModuleInterop:true}}).outputText;
    let req=n=>{if(n in mocks)return mocks[n];if(n.startsWith('.'))return load(path.join(path.dirname(rel),n)+'.ts');return require(n)};
    let tc={channel:'nightly-x',components:['rust-src']};
    new Function('require','module','exports','VERSION','TOOLCHAIN','console',js)(req,m,m.exports,version,tc,{log(){},error(){},warn(){}});
    return m.exports;
  }
  w.load=load;
  w.activate=async()=>{let e=load('extension.ts');await e.activate(w.context);return w};
  w.run=n=>w.registered['flowistry.'+n]();
  w.settle=async(n=12)=>{for(let i=0;i<n;i++)await new Promise(r=>setTimeout(r,1))};
  w.rng=(l0,c0,l1,c1,f='/ws/src/a.rs')=>({start:{line:l0,column:c0},end:{line:l1,column:c1},filename:f});
  w.state=()=>w.bars[0].text;
  return w;
}
function gate(){let open;let p=new Promise(r=>{open=r});p.open=open;return p}
module.exports={start,gate,ok,err};
