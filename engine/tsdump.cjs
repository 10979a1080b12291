// tsdump.cjs SRC_DIR OUT.json : resolved syntax trees of the extension's sources (no execution)
const ts=require(process.env.VERIF_TS||'/opt/veriftools/node/node_modules/typescript');
const fs=require('fs'),path=require('path');
const dir=path.resolve(process.argv[2]);
const files=[];
(function walk(d){for(const f of fs.readdirSync(d).sort()){const p=path.join(d,f),s=fs.statSync(p);if(s.isDirectory()){if(!['tests','test','node_modules','out'].includes(f))walk(p);}else if(/\.tsx?$/.test(f)&&!/\.(test|d)\.tsx?$/.test(f))files.push(p);}})(dir);
const opts={module:ts.ModuleKind.CommonJS,target:ts.ScriptTarget.ES2019,moduleResolution:ts.ModuleResolutionKind.NodeJs,esModuleInterop:true,lib:['lib.es2019.d.ts','lib.dom.d.ts'],jsx:ts.JsxEmit.React,resolveJsonModule:true,strict:true,noEmit:true,types:[],skipLibCheck:true};
const prog=ts.createProgram(files,opts),ck=prog.getTypeChecker();
const rel=f=>path.relative(dir,f).replace(/\.tsx?$/,'');
const isLocal=f=>files.includes(path.resolve(f));
const K=ts.SyntaxKind;
function did(d){const f=d.getSourceFile().fileName;return isLocal(f)?rel(f)+':'+d.getStart():null;}
function mod(d){let n=d;while(n&&!ts.isImportDeclaration(n)&&!ts.isImportEqualsDeclaration(n))n=n.parent;
  if(!n)return null;const s=ts.isImportDeclaration(n)?n.moduleSpecifier:(n.moduleReference.expression);return s&&s.text;}
function ref(sym,name){ // resolved reference
  if(!sym)return {k:'glob',n:name};
  let s=sym;
  if(s.flags&ts.SymbolFlags.Alias){
    const decl=s.declarations&&s.declarations[0];
    const a=ck.getAliasedSymbol(s);
    if(a&&a.declarations&&a.declarations.length&&isLocal(a.declarations[0].getSourceFile().fileName)){
      if(a.flags&ts.SymbolFlags.Module&&ts.isSourceFile(a.declarations[0]))return {k:'mod',m:rel(a.declarations[0].fileName)};
      s=a;
    } else if(decl){
      const m=mod(decl);
      let n='*';
      if(ts.isImportSpecifier(decl))n=(decl.propertyName||decl.name).text;
      return {k:'ext',m,n};
    }
  }
  const d=s.valueDeclaration||(s.declarations&&s.declarations[0]);
  if(!d)return {k:'glob',n:name};
  const i=did(d);
  if(i===null)return {k:'glob',n:name};
  if(d.getSourceFile&&s.flags&ts.SymbolFlags.Variable&&hasDeclare(d))return {k:'glob',n:name};
  return {k:'id',n:name,d:i};
}
function hasDeclare(d){let n=d;while(n&&!ts.isVariableStatement(n))n=n.parent;return !!(n&&n.modifiers&&n.modifiers.some(m=>m.kind===K.DeclareKeyword));}
function member(node){ // declaration of the class member accessed, if local
  const s=ck.getSymbolAtLocation(node);if(!s)return undefined;
  for(const d of s.declarations||[]){if((ts.isPropertyDeclaration(d)||ts.isMethodDeclaration(d)||ts.isGetAccessor(d))&&isLocal(d.getSourceFile().fileName)&&ts.isClassLike(d.parent))return [did(d.parent),did(d)];}
  return undefined;
}
const L=n=>{const sf=n.getSourceFile();return sf.getLineAndCharacterOfPosition(n.getStart()).line+1;};
const opt=(o,k,v)=>{if(v!==undefined&&v!==false&&v!==null)o[k]=v;return o;};
function pat(n){ // binding pattern or name
  if(ts.isIdentifier(n))return {k:'name',n:n.text,d:did(n.parent)};
  if(ts.isObjectBindingPattern(n))return {k:'objp',e:n.elements.map(e=>({key:e.propertyName?pname(e.propertyName):(ts.isIdentifier(e.name)?e.name.text:null),p:ts.isIdentifier(e.name)?{k:'name',n:e.name.text,d:did(e)}:pat(e.name),i:e.initializer?X(e.initializer):null,rest:!!e.dotDotDotToken}))};
  if(ts.isArrayBindingPattern(n))return {k:'arrp',e:n.elements.map(e=>ts.isOmittedExpression(e)?null:({p:ts.isIdentifier(e.name)?{k:'name',n:e.name.text,d:did(e)}:pat(e.name),i:e.initializer?X(e.initializer):null,rest:!!e.dotDotDotToken}))};
  throw Error('pattern '+K[n.kind]);
}
function pname(n){if(ts.isIdentifier(n)||ts.isStringLiteral(n)||ts.isNumericLiteral(n)||ts.isPrivateIdentifier(n)||ts.isNoSubstitutionTemplateLiteral(n))return n.text;if(ts.isComputedPropertyName(n))return X(n.expression);return '?';}
const mods=n=>(n.modifiers||[]).map(m=>K[m.kind]);
function fn(n){
  return {k:'fn',n:n.name&&n.name.text||'',id:did(n),l:L(n),async:mods(n).includes('AsyncKeyword'),arrow:ts.isArrowFunction(n),gen:!!n.asteriskToken,
    ps:n.parameters.filter(p=>!(ts.isIdentifier(p.name)&&p.name.text==='this')).map(p=>({p:ts.isIdentifier(p.name)?{k:'name',n:p.name.text,d:did(p)}:pat(p.name),i:p.initializer?X(p.initializer):null,rest:!!p.dotDotDotToken,prop:(p.modifiers||[]).length>0,t:p.type?T(p.type):null})),
    rt:n.type?T(n.type):null,
    body:n.body?(ts.isBlock(n.body)?{k:'block',s:n.body.statements.map(S)}:X(n.body)):null};
}
function cls(n){
  return {k:'class',n:n.name?n.name.text:'',id:did(n),ext:(n.heritageClauses||[]).filter(h=>h.token===K.ExtendsKeyword).map(h=>X(h.types[0].expression))[0]||null,
    m:n.members.map(m=>{const st=mods(m).includes('StaticKeyword');
      if(ts.isConstructorDeclaration(m))return {k:'ctor',f:fn(m),id:did(m)};
      if(ts.isMethodDeclaration(m))return {k:'method',n:pname(m.name),f:fn(m),st,id:did(m)};
      if(ts.isPropertyDeclaration(m))return {k:'prop',n:pname(m.name),i:m.initializer?X(m.initializer):null,st,id:did(m),t:m.type?T(m.type):null};
      if(ts.isGetAccessor(m))return {k:'get',n:pname(m.name),f:fn(m),st,id:did(m)};
      if(ts.isSetAccessor(m))return {k:'set',n:pname(m.name),f:fn(m),st,id:did(m)};
      return {k:'other'};})};
}
function args(a){return (a||[]).map(x=>ts.isSpreadElement(x)?{s:1,e:X(x.expression)}:{e:X(x)});}
function X(n){
  switch(n.kind){
  case K.ParenthesizedExpression: case K.AsExpression: case K.NonNullExpression: case K.TypeAssertionExpression: case K.SatisfiesExpression: case K.PartiallyEmittedExpression: return X(n.expression);
  case K.Identifier: if(n.text==='undefined')return {k:'undef'}; return Object.assign(ref(ck.getSymbolAtLocation(n),n.text),{});
  case K.ThisKeyword: return {k:'this'};
  case K.SuperKeyword: return {k:'super'};
  case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return {k:'str',v:n.text};
  case K.NumericLiteral: return {k:'num',v:Number(n.text)};
  case K.BigIntLiteral: return {k:'num',v:Number(n.text.replace('n',''))};
  case K.TrueKeyword: return {k:'bool',v:true};
  case K.FalseKeyword: return {k:'bool',v:false};
  case K.NullKeyword: return {k:'null'};
  case K.RegularExpressionLiteral: return {k:'regex',v:n.text};
  case K.TemplateExpression: return {k:'tpl',p:[{k:'str',v:n.head.text}].concat(...n.templateSpans.map(s=>[X(s.expression),{k:'str',v:s.literal.text}]))};
  case K.TaggedTemplateExpression: return {k:'call',l:L(n),f:X(n.tag),a:[{e:X(n.template)}]};
  case K.PropertyAccessExpression: return opt(opt({k:'prop',o:X(n.expression),n:n.name.text,l:L(n)},'q',!!n.questionDotToken),'m',member(n.name));
  case K.ElementAccessExpression: return opt({k:'index',o:X(n.expression),i:X(n.argumentExpression),l:L(n)},'q',!!n.questionDotToken);
  case K.CallExpression: return opt(opt({k:'call',l:L(n),f:X(n.expression),a:args(n.arguments)},'q',!!n.questionDotToken),'ta',n.typeArguments?n.typeArguments.map(T):undefined);
  case K.NewExpression: return {k:'new',l:L(n),f:X(n.expression),a:args(n.arguments)};
  case K.AwaitExpression: return {k:'await',e:X(n.expression),l:L(n)};
  case K.YieldExpression: return {k:'yield',e:n.expression?X(n.expression):{k:'undef'}};
  case K.ConditionalExpression: return {k:'cond',c:X(n.condition),t:X(n.whenTrue),e:X(n.whenFalse)};
  case K.BinaryExpression: {
    const op=n.operatorToken.getText();
    if(n.operatorToken.kind>=K.FirstAssignment&&n.operatorToken.kind<=K.LastAssignment)return {k:'assign',op,t:target(n.left),v:X(n.right),l:L(n)};
    return {k:'bin',op,a:X(n.left),b:X(n.right),l:L(n)};}
  case K.PrefixUnaryExpression: {const op=ts.tokenToString(n.operator);if(op==='++'||op==='--')return {k:'assign',op:op[0]+'=',t:target(n.operand),v:{k:'num',v:1},l:L(n)};return {k:'un',op,e:X(n.operand)};}
  case K.PostfixUnaryExpression: {const op=ts.tokenToString(n.operator);return {k:'assign',op:op[0]+'=',t:target(n.operand),v:{k:'num',v:1},l:L(n),post:1};}
  case K.TypeOfExpression: return {k:'un',op:'typeof',e:X(n.expression)};
  case K.VoidExpression: return {k:'un',op:'void',e:X(n.expression)};
  case K.DeleteExpression: return {k:'un',op:'delete',e:X(n.expression)};
  case K.ObjectLiteralExpression: return {k:'obj',l:L(n),p:n.properties.map(p=>{
    if(ts.isSpreadAssignment(p))return {s:1,e:X(p.expression)};
    if(ts.isShorthandPropertyAssignment(p))return {n:p.name.text,e:ref(ck.getShorthandAssignmentValueSymbol(p),p.name.text)};
    if(ts.isPropertyAssignment(p))return {n:pname(p.name),e:X(p.initializer)};
    if(ts.isMethodDeclaration(p))return {n:pname(p.name),e:fn(p),meth:1};
    return {n:'?',e:{k:'undef'}};})};
  case K.ArrayLiteralExpression: return {k:'arr',l:L(n),e:n.elements.map(e=>ts.isSpreadElement(e)?{s:1,e:X(e.expression)}:ts.isOmittedExpression(e)?{e:{k:'undef'}}:{e:X(e)})};
  case K.ArrowFunction: case K.FunctionExpression: return fn(n);
  case K.ClassExpression: return cls(n);
  case K.SpreadElement: return {k:'spread',e:X(n.expression)};
  default: return {k:'unknown',n:K[n.kind],l:L(n)};
  }
}
function target(n){
  while(ts.isParenthesizedExpression(n)||ts.isNonNullExpression(n)||ts.isAsExpression(n))n=n.expression;
  if(ts.isArrayLiteralExpression(n)||ts.isObjectLiteralExpression(n))return {k:'destr',e:X(n)};
  return X(n);
}
function S(n){
  switch(n.kind){
  case K.VariableStatement: return {k:'var',l:L(n),c:!!(n.declarationList.flags&ts.NodeFlags.Const),ex:mods(n).includes('ExportKeyword'),dcl:mods(n).includes('DeclareKeyword'),d:n.declarationList.declarations.map(d=>({p:ts.isIdentifier(d.name)?{k:'name',n:d.name.text,d:did(d)}:pat(d.name),i:d.initializer?X(d.initializer):null,t:d.type?T(d.type):null}))};
  case K.ExpressionStatement: return {k:'expr',e:X(n.expression),l:L(n)};
  case K.IfStatement: return {k:'if',c:X(n.expression),t:S(n.thenStatement),e:n.elseStatement?S(n.elseStatement):null};
  case K.Block: return {k:'block',s:n.statements.map(S)};
  case K.ReturnStatement: return {k:'ret',e:n.expression?X(n.expression):null,l:L(n)};
  case K.ThrowStatement: return {k:'throw',e:X(n.expression),l:L(n)};
  case K.TryStatement: return {k:'try',id:did(n),b:S(n.tryBlock),c:n.catchClause?{p:n.catchClause.variableDeclaration?(ts.isIdentifier(n.catchClause.variableDeclaration.name)?{k:'name',n:n.catchClause.variableDeclaration.name.text,d:did(n.catchClause.variableDeclaration)}:pat(n.catchClause.variableDeclaration.name)):null,b:S(n.catchClause.block)}:null,f:n.finallyBlock?S(n.finallyBlock):null,l:L(n)};
  case K.ForOfStatement: case K.ForInStatement: {const d=ts.isVariableDeclarationList(n.initializer)?n.initializer.declarations[0]:null;return {k:n.kind===K.ForOfStatement?'forof':'forin',p:d?(ts.isIdentifier(d.name)?{k:'name',n:d.name.text,d:did(d)}:pat(d.name)):null,t:d?null:target(n.initializer),e:X(n.expression),b:S(n.statement),aw:!!n.awaitModifier,l:L(n)};}
  case K.ForStatement: return {k:'for',i:n.initializer?(ts.isVariableDeclarationList(n.initializer)?{k:'var',d:n.initializer.declarations.map(d=>({p:ts.isIdentifier(d.name)?{k:'name',n:d.name.text,d:did(d)}:pat(d.name),i:d.initializer?X(d.initializer):null}))}:{k:'expr',e:X(n.initializer)}):null,c:n.condition?X(n.condition):null,u:n.incrementor?X(n.incrementor):null,b:S(n.statement),l:L(n)};
  case K.WhileStatement: return {k:'while',c:X(n.expression),b:S(n.statement),l:L(n)};
  case K.DoStatement: return {k:'dowhile',c:X(n.expression),b:S(n.statement),l:L(n)};
  case K.SwitchStatement: return {k:'switch',e:X(n.expression),c:n.caseBlock.clauses.map(c=>({t:ts.isCaseClause(c)?X(c.expression):null,s:c.statements.map(S)})),l:L(n)};
  case K.BreakStatement: return {k:'break',lb:n.label&&n.label.text};
  case K.ContinueStatement: return {k:'continue',lb:n.label&&n.label.text};
  case K.LabeledStatement: return S(n.statement);
  case K.FunctionDeclaration: return {k:'fndecl',n:n.name?n.name.text:'default',d:did(n),f:fn(n),ex:mods(n).includes('ExportKeyword')};
  case K.ClassDeclaration: return {k:'classdecl',n:n.name?n.name.text:'default',d:did(n),c:cls(n),ex:mods(n).includes('ExportKeyword')};
  case K.ExportAssignment: return {k:'expr',e:X(n.expression),l:L(n)};
  case K.InterfaceDeclaration: case K.TypeAliasDeclaration: case K.ImportDeclaration: case K.ExportDeclaration: case K.EmptyStatement: case K.ImportEqualsDeclaration: case K.DebuggerStatement: case K.ModuleDeclaration: return {k:'nop'};
  case K.EnumDeclaration: return {k:'enum',n:n.name.text,d:did(n)};
  default: return {k:'unknown',n:K[n.kind],l:L(n)};
  }
}
function T(n){
  if(ts.isParenthesizedTypeNode(n))return T(n.type);
  if(ts.isTypeReferenceNode(n)){const nm=n.typeName.getText();let s=ck.getSymbolAtLocation(ts.isQualifiedName(n.typeName)?n.typeName.right:n.typeName);let d=null;
    if(s){if(s.flags&ts.SymbolFlags.Alias)s=ck.getAliasedSymbol(s);const dd=s.declarations&&s.declarations[0];if(dd&&isLocal(dd.getSourceFile().fileName))d=did(dd);}
    return {k:'ref',n:nm,d,a:(n.typeArguments||[]).map(T)};}
  if(ts.isArrayTypeNode(n))return {k:'array',e:T(n.elementType)};
  if(ts.isTypeOperatorNode(n))return T(n.type);
  if(ts.isTupleTypeNode(n))return {k:'tuple',e:n.elements.map(e=>ts.isNamedTupleMember(e)?T(e.type):T(e))};
  if(ts.isUnionTypeNode(n))return {k:'union',e:n.types.map(T)};
  if(ts.isIntersectionTypeNode(n))return {k:'inter',e:n.types.map(T)};
  if(ts.isLiteralTypeNode(n)){const l=n.literal;return {k:'lit',v:l.kind===K.NullKeyword?null:(ts.isStringLiteral(l)?l.text:l.getText())};}
  if(ts.isTypeLiteralNode(n))return {k:'obj',m:n.members.map(mem)};
  if(ts.isFunctionTypeNode(n))return {k:'fn',p:n.parameters.map(p=>p.type?T(p.type):null),r:T(n.type)};
  return {k:'kw',n:n.getText()};
}
function mem(m){if(ts.isPropertySignature(m))return {n:pname(m.name),o:!!m.questionToken,t:m.type?T(m.type):{k:'kw',n:'any'}};if(ts.isIndexSignatureDeclaration(m))return {n:'[]',o:false,t:T(m.type)};return {n:'?',o:false,t:{k:'kw',n:'any'}};}
const out={files:{},types:{},ts:ts.version};
for(const f of files){
  const sf=prog.getSourceFile(f);
  const diag=prog.getSyntacticDiagnostics(sf).map(d=>ts.flattenDiagnosticMessageText(d.messageText,' '));
  const types=[];
  const visit=n=>{if(ts.isInterfaceDeclaration(n))out.types[did(n)]={n:n.name.text,t:{k:'obj',m:n.members.map(mem),ext:(n.heritageClauses||[]).flatMap(h=>h.types.map(t=>t.expression.getText()))},tp:(n.typeParameters||[]).map(t=>t.name.text)};
    else if(ts.isTypeAliasDeclaration(n))out.types[did(n)]={n:n.name.text,t:T(n.type),tp:(n.typeParameters||[]).map(t=>t.name.text)};ts.forEachChild(n,visit);};
  visit(sf);
  const exps={};
  const ms=ck.getSymbolAtLocation(sf);
  if(ms)for(const e of ck.getExportsOfModule(ms)){let s=e;if(s.flags&ts.SymbolFlags.Alias)s=ck.getAliasedSymbol(s);const d=s.valueDeclaration||(s.declarations||[])[0];if(d&&did(d))exps[e.name]=did(d);}
  const imports=sf.statements.filter(ts.isImportDeclaration).map(i=>i.moduleSpecifier.text);
  out.files[rel(f)]={path:path.basename(f),diag,s:sf.statements.map(S),exports:exps,imports};
}
fs.writeFileSync(process.argv[3],JSON.stringify(out));
