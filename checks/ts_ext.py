"""C29, C36, C37, C40, C41: the extension's dealings with the driver, its manifest and the project."""
import json,os,re,wire
from registry import check
from rules import Anchor,mentions,last
from tsfacts import *
from terms import *
from sym import restrict
from ts_focus import entries,noexc,obj
support=B.support
WF='vscode.workspace.workspaceFolders'
FOLDER=mk('Field',mk('Field',mk('FirstOf',mk('Ext',WF)),'uri'),'fsPath')
ACTIVE='vscode.window.activeTextEditor'
def const(t,s): return t.op=='Ext' and t.a[0]==s
def argrows(t):
    """the elements of an argument list, if it is known: [(binders, guard, value)]"""
    return list(t.a) if t.op=='Seq' else None
def literals(t):
    """leading literal arguments"""
    out=[]
    for bs,g,v in argrows(t) or []:
        if bs or g!=1: break
        out.append(v)
    return out
class Spawn:
    """one start of an external program"""
    def __init__(s,e):
        s.e=e; s.site=e.site; s.cmd=e.args[0]; s.args=e.args[1] if len(e.args)>1 else mk('Seq'); s.opts=e.args[2] if len(e.args)>2 else UNDEF; s.lit=literals(s.args)
    @property
    def words(s): return [x.a[0] for x in s.lit if x.op=='Str']
    def opt(s,k):
        out=[]
        for g,o in alts(s.opts):
            v=fields_of(o).get(k) if o.op=='Agg' else None
            if v is None: out.append((g,None)); continue
            out+=[(land(g,h),x) for h,x in alts(v) if land(g,h)!=0]
        return out
def spawns(evs): return [Spawn(e) for e in evs if e.kind=='ext' and e.name in('child_process.spawn','child_process.execFile','child_process.spawnSync','child_process.execFileSync')]
def is_driver(s): return any(x.op=='Str' and x.a[0]=='flowistry' for x in s.lit) and 'install' not in s.words
def caller(W):
    """the function that runs the driver for the rest of the extension"""
    W.activate()
    l=[]
    for e in W._act:
        if e.kind=='store' and e.args[1]==Str('call_flowistry'): l.append(e.raw[2])
    l=[f for t in l for g,f in alts(t) if f.op=='Fn']
    l=list(dict.fromkeys(l))
    if len(l)!=1: raise Anchor('expected one function to be stored as call_flowistry on activation, found %d'%len(l))
    return l[0]
def call_run(W):
    if getattr(W,'_call',None) is None:
        W._call=W.run(caller(W),lambda I:[mk('Arg','args'),mk('Arg','no_output')],mode='active',name='call_flowistry')
        W._call.vals=unwrap(W._call.I,W._call.ret) # before another evaluation changes the heap
    return W._call
# ------------------------------------------------------------ C41
def opened(t):
    """a value taken from the first element of a collection: (binder, condition, value for an element); else None"""
    fs=[x for x in walk(t) if x.op=='FirstOf' and x.a[0].op=='Seq' and len(x.a[0].a)==1 and len(x.a[0].a[0][0])==1]
    fs=list(dict.fromkeys(fs))
    if len(fs)!=1: return None
    bs,g,v=fs[0].a[0].a[0]
    def sub(x):
        if x is fs[0]: return v
        if x.op=='Field':
            o=sub(x.a[0])
            if o.op=='Agg' and x.a[1] in fields_of(o): return fields_of(o)[x.a[1]]
            return mk('Field',o,x.a[1]) if o is not x.a[0] else x
        if x.op in('Call','Spread','Tpl','Await'):
            na=[sub(y) if isinstance(y,T) else y for y in x.a]
            return mk(x.op,*na) if any(a is not b for a,b in zip(na,x.a)) else x
        return x
    return bs[0],g,sub(t)
def stat_of(W,d):
    """the file-existence tests made for the manifest of a folder"""
    want=mk('Call','path.join',d,Str('Cargo.toml'))
    return [e for e in W._act if e.kind=='ext' and e.name in('vscode.workspace.fs.stat','fs.promises.stat','fs.promises.access','fs.existsSync') and any(x is want for x in walk(e.args[0]))]
def present(e):
    """the test succeeds"""
    return lnot(atom(mk('Throws',e.ret))) if e.name!='fs.existsSync' else atom(mk('Truthy',e.ret))
def rel_components(c,folder):
    """path components between the folder and the active file"""
    return c.op=='Call' and c.a[0]=='.split' and const(c.a[2],'path.sep') and c.a[1].op=='Call' and c.a[1].a[0]=='path.relative' and c.a[1].a[1] is folder and const(c.a[1].a[2],ACTIVE+'.document.fileName')
def prefix(d,b,folder):
    """d is the folder extended by the first components up to the binder's element"""
    if not(d.op=='Call' and d.a[0]=='path.join' and d.a[1] is folder and len(d.a)==3 and d.a[2].op=='Spread'): return None
    s=d.a[2].a[0]
    if not(s.op=='Call' and s.a[0]=='.slice' and s.a[2] is Int(0) and rel_components(s.a[1],folder)): return None
    i=s.a[3]; c=s.a[1]
    if b.a[0] is c and i is mk('IdxOf',mk('Elem',*b.a)): return 0
    r=b.a[0]
    if r.op=='Call' and r.a[0]=='lodash.range' and i is mk('Elem',*b.a) and r.a[-1] is mk('LenOf',c): return r.a[1].a[0] if len(r.a)==3 and r.a[1].op=='Int' else 0 if len(r.a)==2 else None
    return None
@check('C41','VS Code lists the opened folder first in workspaceFolders; path.relative, path.join and split work as documented.')
def C41(L,rep):
    rep.rule('Activation is evaluated. Every run of cargo names the pinned toolchain; for every run of the driver, each value its working directory can take is either the opened folder, on a path where that folder\'s Cargo.toml is known to exist, or the first (outermost) prefix of the path from the folder to the active file for which the existence test succeeds, on a path where the folder has none. Where either exists the driver is run, where neither does it is not and this is reported.')
    W=L.ts; W.activate(); W.account(rep,None); rep.entries.append('activate')
    sp=spawns(W._act)+spawns(call_run(W).events); cargo=[s for s in sp if any(v is Str('cargo') for g,v in alts(s.cmd))]
    rep.ok('runs',any(is_driver(s) for s in cargo),'the driver is never run')
    tn=mk('Tpl',Str('+'),mk('Ext','TOOLCHAIN.channel'))
    for s in cargo:
        env=[x for g,o in s.opt('env') if o is not None for x in walk(o) if const(x,'TOOLCHAIN.channel')]
        rep.ok('toolchain[%s]'%' '.join(s.words[:2]),(bool(s.lit) and s.lit[0] is tn) or bool(env),'cargo is run without the pinned toolchain: cargo %s'%' '.join(pp(x) for x in s.lit),s.site)
    tf=stat_of(W,FOLDER)
    if not rep.ok('folder-test',len(tf)>0,'it is never tested whether the opened folder has a Cargo.toml'): return
    pf=1
    for e in tf: pf=land(pf,present(e))
    folders=W.I.truth(mk('Ext',WF))
    firsts=[]
    drv=[s for s in cargo if is_driver(s)]
    for s in drv:
        cw=s.opt('cwd'); what=' '.join(s.words[1:2]) or 'call'
        for h,v in cw:
            g=land(s.e.guard,h)
            if not sat(g): continue
            if v is None: rep.ok('cwd[%s]'%what,False,'the driver is run without a working directory',s.site); continue
            if v is FOLDER:
                rep.ok('cwd-folder[%s]'%what,implies(g,pf),'the driver is run in the opened folder although it may have no Cargo.toml',s.site); continue
            o=opened(v)
            if o is None: rep.ok('cwd[%s]'%what,False,'the driver is run in %s, which is not known to have a Cargo.toml'%pp(v)[:300],s.site); continue
            b,gb,d=o
            lo=prefix(d,b,FOLDER)
            if not rep.ok('cwd-prefix[%s]'%what,lo in(0,1),'the folders considered are %s'%pp(d)[:300],s.site): continue
            st=stat_of(W,d)
            rep.ok('cwd-first[%s]'%what,len(st)>0 and any(same(gb,present(e)) for e in st),'the folder used is the first for which %s, not the first that has a Cargo.toml'%B.show(gb)[:300],s.site)
            rep.ok('cwd-only[%s]'%what,implies(g,lnot(pf)),'a folder below is used although the opened folder has a Cargo.toml',s.site)
            firsts.append((b,gb))
    rep.ok('prefixes',bool(firsts),'no folder between the opened one and the active file is considered')
    # found -> the driver is run
    first=min(drv,key=lambda s: s.e.seq if s.e in W._act else 1e9)
    g=first.e.guard
    for b,gb in firsts[:1]:
        ae=W.I.truth(mk('Ext',ACTIVE))
        found=land(folders,lor(pf,landn(lnot(pf),ae,exg(b,gb))))
        miss=land(found,lnot(g))
        for v in support(miss):
            t=B.terms[v]
            if t.op=='Throws' and not any(t.a[0] is e.ret for e in tf) and not mentions(t,'fs.stat'): miss=B.cofactor(miss,v,0)
            elif t.op in('Truthy','Empty') and (t.a[0] is FOLDER or any(x is t.a[0] for h,x in first.opt('cwd'))): miss=B.cofactor(miss,v,1 if t.op=='Truthy' else 0)
            elif t.op=='Eq' and 'workspaceFolders.length' in pp(t): miss=B.cofactor(miss,v,0)
        rep.ok('found',not sat(miss),'there is a folder with a Cargo.toml but the driver is not run when %s'%B.show(miss)[:300],first.site)
        none=noexc2(land(lnot(found),lnot(g)),W)
        told=0
        for e in W._act:
            if (e.kind=='ext' and e.name.split('.')[-1] in('appendLine','showErrorMessage','showWarningMessage','showInformationMessage')) and not sat(land(noexc2(e.guard,W),g)): told=lor(told,noexc2(e.guard,W))
        nf=land(none,lnot(told))
        rep.ok('reported',not sat(nf),'no root is found and this is not reported when %s'%B.show(nf)[:300])
def noexc2(g,W):
    """a condition without exceptions other than those of file-existence tests"""
    for v in support(g):
        t=B.terms[v]
        if t.op=='Throws' and 'stat' not in pp(t.a[0])[:40]: g=B.cofactor(g,v,0)
    return g
def same(a,b): return a==b
# ------------------------------------------------------------ C36
def literal_commands(W):
    """string literals given as the value of a `command` property anywhere in the sources"""
    out=[]
    def w(x,f):
        if isinstance(x,list):
            for y in x: w(y,f)
        elif isinstance(x,dict):
            if x.get('n')=='command':
                for k in('v','e','i'):
                    y=x.get(k)
                    if isinstance(y,dict) and y.get('k')=='str': out.append((y['v'],f))
            for y in x.values(): w(y,f)
    for f,d in W.P.files.items(): w(d['s'],f)
    return out
@check('C36','VS Code runs the command a key, menu or status-bar item names if and only if a command of that name is registered.')
def C36(L,rep):
    rep.rule('The names given to registerCommand on activation are evaluated and compared with every command of the manifest (commands, key bindings, menus), with every command a status-bar item is given on any evaluated path and with every literal command property in the sources; each registration happens whenever the extension has been set up, without further conditions; menus refer to declared commands and submenus.')
    W=L.ts; W.activate(); W.account(rep,None); rep.entries.append('activate')
    p=W.repo+'/ide/package.json'
    try: pk=json.load(open(p))
    except (OSError,ValueError) as ex: raise Anchor('the extension manifest cannot be read: %s'%ex)
    C=pk.get('contributes',{}); decl=[c['command'] for c in C.get('commands',[])]
    if not rep.ok('declared',bool(decl),'the manifest declares no commands'): return
    reg={}
    for t,f,e in W.commands:
        for g,x in alts(t):
            if x.op!='Str': rep.ok('name',False,'a command is registered under an unknown name: %s'%pp(x)[:120],e.site)
            else: reg.setdefault(x.a[0],[]).append((e,land(g,e.guard),f))
    pre=[s for s in spawns(W._act) if is_driver(s)]
    ready=noexc(pre[-1].e.guard) if pre else 0
    def settled():
        """outcomes of the last run of the driver on activation"""
        p=pre[-1].e.ret; out={p}
        for e in W._act:
            if e.kind=='settle' and listener(e,p,'close','exit','error'): out.add(mk('Settled',e.args[0].a[0]))
        return out
    last_run=settled() if pre else set()
    rep.ok('ready',bool(pre),'the extension never gets ready')
    def registered(name,what,where='ide/package.json'):
        l=reg.get(name,[])
        if not rep.ok('registered[%s]'%name,len(l)>0,'%s names the command %s, which is not registered'%(what,name),where): return
        rep.ok('once[%s]'%name,len(l)==1,'the command %s is registered %d times'%(name,len(l)),l[0][0].site)
        e,g,f=l[0]
        rep.ok('function[%s]'%name,f.op=='Fn','the command %s is registered with %s'%(name,pp(f)[:80]),e.site)
        m=known(land(ready,lnot(g)),lambda t: 0 if t.op=='Throws' and t.a[0] not in last_run else None)
        rep.ok('always[%s]'%name,not e.loops and not sat(m),'the command %s is not registered when %s'%(name,B.show(m)[:300]),e.site)
    for c in decl: registered(c,'the manifest')
    rep.ok('distinct',len(set(decl))==len(decl),'a command is declared twice')
    for k in C.get('keybindings',[]):
        c=k['command'].lstrip('-')
        registered(c,'the key binding %s'%k.get('key'))
        rep.ok('binding[%s]'%k.get('key'),c in decl,'the key binding %s names %s, which the manifest does not declare'%(k.get('key'),c),'ide/package.json')
    subs=[s['id'] for s in C.get('submenus',[])]
    for m,items in C.get('menus',{}).items():
        rep.ok('menu[%s]'%m,'/' in m or m in subs or m in('commandPalette','touchBar'),'the menu %s does not exist'%m,'ide/package.json')
        for it in items:
            if 'command' in it:
                registered(it['command'],'the menu %s'%m)
                rep.ok('item[%s]'%it['command'],it['command'] in decl,'the menu %s names %s, which the manifest does not declare'%(m,it['command']),'ide/package.json')
            if 'submenu' in it: rep.ok('submenu[%s]'%it['submenu'],it['submenu'] in subs and it['submenu'] in C['menus'],'the submenu %s is not declared'%it['submenu'],'ide/package.json')
    # status bar
    seen={}
    evs=list(W._act)
    for name,f,a in entries(W):
        e=W.run(f,a(W.I),mode=None,name=name); W.account(rep,e); evs+=e.events
    evs+=call_run(W).events
    n=0
    for e in evs:
        if e.kind=='store' and e.args[1]==Str('command'):
            n+=1
            for g,x in alts(e.raw[2]):
                if not sat(land(g,e.guard)): continue
                if x.op=='Str': seen.setdefault(x.a[0],e.site)
                elif x.op!='Const' : 
                    fz=e.args[2]
                    rep.ok('bar',all(y.op in('Str','Const') for h,y in alts(fz)) or fz.op in('Field','Prev','Fold','Glob'),'the status bar\'s command is %s'%pp(x)[:160],e.site)
    rep.ok('status-bar',n>0,'the status bar is never given a command')
    for c,site in seen.items(): registered(c,'the status bar',site)
    for c,f in literal_commands(W):
        if not c.startswith(('workbench.','editor.','vscode.')): registered(c,'a command property in %s'%f,'ide/src/%s.ts'%f)
    for e in evs:
        if e.kind=='ext' and e.name=='vscode.commands.executeCommand' and e.args and e.args[0].op=='Str' and e.args[0].a[0].startswith('flowistry.'): registered(e.args[0].a[0],'executeCommand',e.site)
# ------------------------------------------------------------ C37
def known(g,want):
    """a condition with the value of some atoms fixed: want(term) -> 0, 1 or None"""
    for v in support(g):
        if v not in support(g): continue
        x=want(B.terms[v])
        if x is not None: g=B.cofactor(g,v,x)
    return g
def throws_of(g,skip=()):
    """the calls whose exceptions a condition distinguishes"""
    return [B.terms[v].a[0] for v in support(g) if B.terms[v].op=='Throws' and B.terms[v].a[0] not in skip]
def listener(e,proc,*evs):
    """the event runs in a listener of the process"""
    for l in e.loops:
        b=l.binder
        if b.op=='B' and b.a[0].op=='CbOf' and b.a[0].a[0] in('.addListener','.on','.once') and b.a[0].a[1] is proc and any(b.a[0].a[2] is Str(x) for x in evs): return b.a[0]
    return None
def cbargs(t,recv,ev):
    """arguments a listener of the stream receives, in the value"""
    return [x for x in walk(t) if x.op=='CbArg' and len(x.a)>3 and x.a[1] is recv and x.a[2] is Str(ev)]
def chunks(t,stream):
    """the value is built from everything the stream delivers"""
    def parts(t):
        """subterms that carry all of a value"""
        if t.op in('FirstOf','LastOf','ElemAt','Elem','LenOf','Idx','Truthy') or (t.op=='Call' and t.a[0].split('.')[-1] in('slice','at','shift','pop','substring','substr')): return
        yield t
        for y in([y for h,y in alts(t)] if t.op=='Alt' else [t.a[1]] if t.op=='Call' and len(t.a)==2 else kids(t)): yield from parts(y)
    for x in parts(t):
        if x.op=='Seq' and any(g==1 and len(bs)==1 and cbargs(v,stream,'data') for bs,g,v in x.a): return True
        if x.op in('Fold','Append','FoldOf') and cbargs(x,stream,'data'): return True
    return False
def exits(rep,r,s,what):
    """the promise for the process settles according to how the process ends"""
    proc=s.e.ret
    st=[e for e in r if e.kind=='settle' and (listener(e,proc,'close','exit','error'))]
    if not rep.ok(what+':settled',len(st)>0,'nothing waits for the end of the driver',s.site): return None
    ids={e.args[0].a[0] for e in st}
    if not rep.ok(what+':promise',len(ids)==1,'the end of the driver settles %d promises'%len(ids),s.site): return None
    n=ids.pop()
    cov={}
    for e in st:
        l=listener(e,proc,'close','exit','error'); ev=l.a[2].a[0]; g=noexc(e.guard); kind=e.name.strip('<>')
        cov.setdefault(ev,[0,0])[kind=='reject']=lor(cov.setdefault(ev,[0,0])[kind=='reject'],g)
        if kind=='resolve':
            code=[mk('Field',proc,'exitCode'),mk('CbArg','.addListener',proc,Str('close'),0)]
            def zero(t): return 0 if t.op=='Eq' and any(x is Int(0) for x in t.a) and any(x is mk('Field',proc,'exitCode') or (x.op=='CbArg' and x.a[1] is proc and x.a[-1]==0) for x in t.a) else None
            rep.ok(what+':success',ev!='error' and not sat(known(g,zero)),'the run counts as successful although the driver may have failed',e.site)
            rep.ok(what+':complete',ev=='close','the output of the driver is used before it is complete',e.site)
            rep.ok(what+':output',any(chunks(v,mk('Field',proc,'stdout')) for h,v in alts(e.args[1])),'the result of a run is not the driver\'s output',e.site)
        elif ev!='error': rep.ok(what+':stderr',all(chunks(v,mk('Field',proc,'stderr')) for h,v in alts(e.args[1])),'the error of a failed run does not carry the driver\'s output',e.site)
        else: rep.ok(what+':cause',bool(cbargs(e.args[1],proc,'error')),'the error of a run that does not start does not say why',e.site)
    base=noexc(s.e.guard)
    for ev in('close','error'):
        a=cov.get(ev) or (cov.get('exit') if ev=='close' else None)
        if not rep.ok('%s:%s'%(what,ev),a is not None,'the end of the driver (%s) is not noticed'%ev,s.site): continue
        m=land(base,lnot(lor(*a)))
        rep.ok('%s:%s-settles'%(what,ev),not sat(m),'the end of the driver (%s) does not settle the request when %s'%(ev,B.show(m)[-300:]),s.site)
    return n
def unwrap(I,t):
    """[(guard, object or value)] of what a promise delivers"""
    out=[]
    for g,x in alts(t):
        if x.op=='Promise': out+=[(land(g,h),y) for h,y in unwrap(I,x.a[1])]
        else: out.append((g,x))
    return [(g,I.freeze(x)) for g,x in out if sat(g)]
def kids(x):
    if x.op=='Seq': return [y for bs,h,y in x.a]
    out=[]
    for y in x.a:
        if isinstance(y,T): out.append(y)
        elif isinstance(y,tuple):
            for z in y:
                if isinstance(z,T): out.append(z)
                elif isinstance(z,tuple): out+=[q for q in z if isinstance(q,T)]
    return out
def under(t,g0,what):
    """[(guard, subterm)] of the subterms of a value that are meant, with the choices that lead there"""
    if not any(what(x) for x in walk(t)): return []
    inside={}; seen=set(); out=[]
    def holds(x):
        if x not in inside:
            inside[x]=False
            inside[x]=what(x) or any(holds(y) for y in ([y for h,y in alts(x)] if x.op=='Alt' else kids(x)))
        return inside[x]
    def w(x,g):
        if (x,g) in seen or not holds(x): return
        seen.add((x,g))
        if x.op=='Alt':
            for h,y in alts(x):
                k=land(g,h)
                if sat(k): w(y,k)
            return
        if what(x): out.append((g,x))
        if x.op=='Seq': # an element is there only on its condition
            for bs,h,v in x.a:
                for b in reversed(bs): h=exg(b,h)
                k=land(g,h)
                if sat(k): w(v,k)
            return
        for y in kids(x): w(y,g)
    w(t,g0); return out
def reason(y,n,s):
    """the value is why the run failed"""
    return any((z.op=='Rejected' and z.a[0]==n) or z is mk('Thrown',s.e.ret) for z in walk(y))
def has(t,x): return any(y is x for y in walk(t))
def pane(W):
    """the keys of the error text's provider its text is made from"""
    W.activate()
    l=[e for e in W._act if e.kind=='ext' and e.name=='vscode.workspace.registerTextDocumentContentProvider']
    if len(l)!=1: raise Anchor('expected one provider of the error text, found %d'%len(l))
    o=l[0].raw[1]; I,_,_,_=W.enter()
    f=I.prop(o,'provideTextDocumentContent')
    if f.op!='Fn': raise Anchor('the provider of the error text has no text')
    for k,v in list(I.heap.of(o)):
        if v.op!='Fn': I.heap[k]=mk('Field',o,k[1])
    r=I.apply(f,[mk('Arg','uri')],{'l':0},this=o)
    ks=sorted({x.a[1] for g,t in unwrap(I,r) for x in walk(t) if x.op=='Field' and x.a[0] is o})
    if not ks: raise Anchor('the error text is constant')
    return ks,l[0]
def shows(W,evs,what,keys):
    """condition under which something mentioning a value is put before the user: a dialog, or the error document, unless it is visible already"""
    dlg=0; doc=0
    for e in evs:
        if e.kind=='ext' and e.name in('vscode.window.showErrorMessage','vscode.window.showWarningMessage','vscode.window.showInformationMessage'):
            for h,x in under(e.args[0],e.guard,what): dlg=lor(dlg,h)
        if e.kind=='store' and e.args[1].op=='Str' and e.args[1].a[0] in keys:
            us=under(e.args[2],e.guard,what)
            if us:
                later=0; fire=0
                for d in evs:
                    if d.seq>e.seq and d.kind=='ext' and d.name=='vscode.window.showTextDocument': later=lor(later,d.guard)
                    if d.seq>e.seq and d.kind=='ext' and d.name.endswith('.fire'): fire=lor(fire,d.guard)
                for h,x in us: doc=lor(doc,landn(h,fire,visible(later)))
    return noexc(dlg),noexc(doc)
def visible(g):
    """the document is shown, or known to be visible"""
    vs=[v for v in support(g) if 'visibleTextEditors' in pp(B.terms[v])]
    if not vs: return g
    r=0
    for v in vs: r=lor(r,lor(B.cofactor(g,v,0),B.cofactor(g,v,1)))
    return r
def remembered(W,evs):
    """writes to the extension's own storage: [(event, key, value)]"""
    return [(e,e.args[1],e.args[2]) for e in evs if e.kind=='ext' and e.name=='.update' and len(e.args)>2 and e.args[0].op=='Field' and e.args[0].a[0] is mk('Arg','context')]
def caught(I,aw,c,seen=()):
    """the exception handler an exception raised here reaches: a try context, None, or the promise nothing waits for"""
    while c is not None:
        if c.kind=='try': return c
        if c.kind=='promise':
            l=aw.get(c.id,[])
            if not l or c.id in seen: return c
            rs=[caught(I,aw,x,seen+(c.id,)) for x in l]
            t=[r for r in rs if r is not None and r.kind=='try']
            return t[0] if t else (rs[0] if rs[0] is not None else c)
        c=c.parent
    return None
@check('C37','A child process ends with a close or an error event; awaiting a rejected promise raises its reason at the await.')
def C37(L,rep):
    rep.rule('Running the driver: the promise for it settles on close and on error, successfully only with exit code 0, otherwise with the collected stderr. On every path a failed run yields a BuildError with that error and stores it under the key last_error reads; exceptions of decoding yield an AnalysisError; an Err reply is passed on, only an Ok reply becomes an output. Every command: exceptions reach the handler that shows them, no promise of the extension\'s own functions is left unawaited, error replies are shown with their error and the value of a reply is used only where it is an output.')
    W=L.ts; W.activate(); W.account(rep,None); rep.entries.append('activate'); keys,prov=pane(W)
    r=call_run(W); W.account(rep,r); evs=r.events; I=r.I
    sp=[s for s in spawns(evs) if is_driver(s)]
    if not rep.ok('run',len(sp)==1,'a request runs the driver %d times'%len(sp)): return
    s=sp[0]; n=exits(rep,evs,s,'exec')
    if n is None: return
    S=mk('Settled',n); fail=atom(mk('Throws',S))
    alts_=r.vals; cls={}
    for g,x in alts_:
        k=fields_of(x).get('type') if x.op=='Agg' else None
        kind=k.a[0] if k is not None and k.op=='Str' else 'other'
        cls.setdefault(kind,[]).append((g,x))
    allg=0
    for g,x in alts_: allg=lor(allg,g)
    # the ways to fail before there is a reply
    def rel(l,cond): return [(land(g,cond),x) for g,x in l if sat(land(g,cond))]
    early=land(s.e.guard,fail)
    for e in evs:
        if e.kind=='ext' and not e.loops and e.ret is s.e.ret: early=lor(early,land(e.guard,atom(mk('Throws',e.ret))))
    tag=sorted(k for k in cls if rel(cls[k],early))
    rep.ok('failed-run',tag==['BuildError'],'a failed run of the driver yields %s'%', '.join(tag or ['nothing']),s.site)
    for g,x in rel(cls.get('BuildError',[]),early):
        for h,y in alts(fields_of(x).get('error',UNDEF)):
            hh=land(g,h)
            if sat(hh): rep.ok('build-error',reason(y,n,s),'a build error does not carry the driver\'s error but %s'%pp(y)[:120],s.site)
    # decoding
    parsed=[e for e in evs if e.kind=='ext' and e.name=='JSON.parse' and has(e.args[0],S)]
    if not rep.ok('parsed',len(parsed)==1,'the reply is parsed %d times'%len(parsed)): return
    P=parsed[0].ret
    for e in evs:
        if e.kind=='ext' and not e.loops and e.ret is not None and has(mk('L',*e.args),S) and (e is parsed[0] or has(P,e.ret)) and e.name.split('.')[-1] in('from','gunzipSync','parse','inflateSync','unzipSync'):
            c=caught(I,{},e.ctx)
            if not rep.ok('decode[%s]:caught'%e.name,c is not None and c.kind=='try','an exception of %s on an undecodable reply is not turned into an error reply'%e.name,e.site): continue
            th=land(e.guard,atom(mk('Throws',e.ret))); got=rel(alts_,th)
            tg=sorted({k for k in cls if rel(cls[k],th)})
            rep.ok('decode[%s]'%e.name,tg==['AnalysisError'],'an undecodable reply (%s) yields %s'%(e.name,', '.join(tg or ['nothing'])),e.site)
            for g,x in got:
                if x.op=='Agg':
                    er=[y for h,y in alts(fields_of(x).get('error',UNDEF)) if sat(land(g,h))]
                    rep.ok('decode[%s]:error'%e.name,bool(er) and all(any(z.op=='Thrown' for z in walk(y)) for y in er),'the analysis error does not say what failed',e.site)
    good=land(lnot(fail),allg)
    for g,x in cls.get('output',[]):
        rep.ok('output-failed',not sat(land(g,fail)),'a failed run yields an output',s.site)
        for h,y in alts(fields_of(x).get('value',UNDEF)):
            hh=land(g,h)
            if not sat(hh): continue
            if y is UNDEF or y.op=='Const':
                rep.ok('no-value',implies(hh,atom(mk('Truthy',mk('Arg','no_output')))),'a reply without a value counts as a result although one was asked for',s.site); continue
            rep.ok('value',y is mk('Field',P,'Ok'),'a result is %s, not what the driver replied'%pp(y)[-80:],s.site)
            def err(t):
                for k,y in(('Err',1),('Ok',0)):
                    f=mk('Field',P,k)
                    if t.op in('In','Has') and any(z is Str(k) for z in t.a) and any(z is P for z in t.a): return y
                    if t.op=='Truthy' and t.a[0] is f: return y
                    if t.op=='Call' and t.a[0].endswith('hasOwnProperty') and any(z is Str(k) for z in t.a): return y
                    if t.op=='Eq' and any(z is f for z in t.a) and any(z.op=='Const' for z in t.a): return 1-y
            rep.ok('err-reply',not sat(known(hh,err)),'an error reply is treated as a result',s.site)
    for g,x in cls.get('other',[]):
        for h,y in alts(x):
            if sat(land(g,h)): rep.ok('err-passed',y is mk('Field',P,'Err'),'a request can yield %s'%pp(y)[-80:],s.site)
    rep.ok('err-replies',any(x is mk('Field',P,'Err') for g,x in cls.get('other',[])),'the driver\'s error replies are not passed on')
    # remembered
    le=W.run(W.command('flowistry.last_error'),mode=None,name='last_error'); W.account(rep,le)
    got=[e for e in le.events if e.kind=='ext' and e.name=='.get' and e.args[0].op=='Field' and e.args[0].a[0] is mk('Arg','context')]
    if rep.ok('last-error',len(got)>0,'the last-error command reads no remembered error'):
        q=got[0]; d,o=shows(W,le.events,lambda x: x is q.ret,keys)
        rep.ok('last-error-shown',lor(d,o)==1,'the last-error command does not show the remembered error when %s'%B.show(lnot(lor(d,o)))[:300],q.site)
        up=[u for u in remembered(W,evs) if u[1] is q.args[1] and u[0].args[0] is q.args[0]]
        cov=0
        for u,k,v in up:
            for h,y in alts(v):
                if reason(y,n,s): cov=lor(cov,land(u.guard,h))
        m=land(land(early,lnot(cov)),allg)
        for v in support(m):
            if B.terms[v].op=='Throws' and any(B.terms[v].a[0] is u[0].ret for u in up): m=B.cofactor(m,v,0)
        rep.ok('remembered',not sat(m),'the error of a failed run is not what the last-error command shows',s.site)
    # commands
    for t,f,ce in W.commands:
        name=t.a[0] if t.op=='Str' else pp(t)
        for mode in(['idle','active'] if 'focus' in name else ['idle']):
            a0=len(I.awaits)
            e=W.run(f,[],mode=mode,name='%s from %s'%(name,mode)); W.account(rep,e); command(W,rep,name,e,keys)
    # activation
    uncaught(W,rep,'activate',W._act,W.actawaits)
    aw={}
    for p,g,c,n in W.actawaits: aw.setdefault(p,[]).append(c)
    for x in W._act:
        if x.kind!='ext' or x.ret is None or x.loops or handling(x) or x.name not in('child_process.spawn','vscode.commands.registerCommand','vscode.workspace.openTextDocument'): continue
        c=caught(W.I,aw,x.ctx)
        if c is None or c.kind!='try' or outer(c) is not None: continue
        why=[(x.ret,mk('Thrown',x.ret))]
        for y in W._act:
            if y.kind=='settle' and listener(y,x.ret,'close','exit','error'): why.append((mk('Settled',y.args[0].a[0]),mk('Rejected',y.args[0].a[0])))
        for r_,th in dict(why).items():
            d=0
            for y in W._act:
                if y.kind=='ext' and y.name=='vscode.window.showErrorMessage' and any(z is th or (z.op=='Thrown' and z.a[0] is r_) or (z.op=='Rejected' and r_.op=='Settled' and z.a[0]==r_.a[0]) for z in walk(y.args[0])): d=lor(d,y.guard)
            m=land(noexc2_(land(x.guard,atom(mk('Throws',r_))),r_),lnot(noexc2_(d,r_)))
            rep.ok('activation-shown[%s]'%x.name,not sat(m),'an exception of %s during activation is not shown when %s'%(x.name,B.show(m)[-200:]),x.site)
def outer(c):
    """the try context around a context"""
    c=c.parent
    while c is not None and c.kind!='try': c=c.parent
    return c
QUIET=('console.','Math.','Date.','performance.','process.hrtime','process.memoryUsage','process.uptime')
def harmless(e):
    """a call that cannot throw"""
    if e.name.startswith(QUIET) or (e.name=='new Date' and not e.args) or e.name in('Number','isNaN','Boolean','parseInt','parseFloat'): return True
    a=e.args[0] if e.args else None
    return e.name.startswith('.') and a is not None and a.op=='Call' and a.a[0]=='new Date' and len(a.a)==1 and e.name.startswith(('.get','.to','.valueOf'))
def uncaught(W,rep,name,evs,awaits):
    aw={}
    for p,g,c,n in awaits: aw.setdefault(p,[]).append(c)
    for e in evs:
        if e.kind!='ext' or e.ret is None or e.ret.op!='Call': continue
        if any(l.kind=='callback' for l in e.loops) or e.name.endswith('.appendLine') or harmless(e): continue
        c=caught(W.I,aw,e.ctx)
        yield_=c is not None and c.kind=='try'
        if yield_: rep.ok('caught[%s]'%name,True)
        elif not handling(e): 
            where=c.site if c is not None and c.kind=='promise' else e.site
            rep.ok('caught[%s:%s]'%(name,e.name),False,'an exception of %s%s is not caught and shown'%(e.name,' in a promise nothing waits for' if c is not None and c.kind=='promise' else ''),e.site)
def handling(e):
    """the event is part of showing or logging a caught exception"""
    return any(B.terms[v].op=='Throws' for v in support(e.guard)) and implies(e.guard,thrown_any(e.guard))
def thrown_any(g):
    r=0
    for v in support(g):
        if B.terms[v].op=='Throws': r=lor(r,mk_atom(v))
    return r
def mk_atom(v): return atom(B.terms[v])
def command(W,rep,name,e,keys):
    uncaught(W,rep,name,e.events,e.I.awaits)
    for x in e.events:
        # what is caught is shown
        if x.kind!='ext' or x.loops or x.ret is None: continue
    for x in e.events:
        if not(x.kind=='ext' and x.name.endswith('.call_flowistry')): continue
        R=mk('Await',x.ret)
        ok_=atom(mk('Eq',mk('Field',R,'type'),Str('output')))
        th=land(x.guard,atom(mk('Throws',x.ret)))
        d,o=0,0
        for y in e.events:
            if y.kind=='ext' and y.name=='vscode.window.showErrorMessage' and any(z is mk('Thrown',x.ret) for z in walk(y.args[0])): d=lor(d,y.guard)
        m=land(noexc2_(th,x.ret),lnot(noexc2_(d,x.ret)))
        rep.ok('shown[%s]'%name,not sat(m),'an exception of a request is not shown when %s'%B.show(m)[-300:],x.site)
        for tag in('BuildError','AnalysisError'):
            def want(t):
                if t.op=='Eq' and any(z is mk('Field',R,'type') for z in t.a):
                    o=[z for z in t.a if z.op=='Str']
                    return None if not o else 1 if o[0].a[0]==tag else 0
                if t.op=='Truthy' and t.a[0] is R: return 1
            d,o=shows(W,e.events,lambda z: z is mk('Field',R,'error'),keys)
            m=land(noexc(x.guard),lnot(lor(d,o))); m=known(m,want)
            rep.ok('reply[%s,%s]'%(name,tag),not sat(m),'a reply of type %s is not shown when %s'%(tag,B.show(m)[-300:]),x.site)
        V=mk('Field',R,'value')
        for y in e.events:
            if y.seq<=x.seq or y.kind=='local': continue
            for a in y.args:
                for h,z in under(a,y.guard,lambda z: z is V): rep.ok('value-of[%s]'%name,implies(h,ok_),'the value of a reply is used although it may be an error',y.site)
def noexc2_(g,c):
    """exceptions of other calls do not occur"""
    return known(g,lambda t: 0 if t.op=='Throws' and t.a[0] is not c else None)
# ------------------------------------------------------------ C40
import tomllib,glob
VER=mk('Ext','VERSION'); CHAN=mk('Ext','TOOLCHAIN.channel')
def toml(p):
    try: return tomllib.load(open(p,'rb'))
    except (OSError,ValueError) as ex: raise Anchor('%s cannot be read: %s'%(os.path.basename(p),ex))
def plain_version(v): return v.lstrip('=^~ ') if isinstance(v,str) else v
def text_of(t,S):
    """the value is the text S denotes, up to surrounding white space"""
    while t.op=='Call' and t.a[0] in('.toString','.trim','.trimEnd','String','.replace') and t.a[0]!='.replace': t=t.a[1]
    return t is S
def string_literals(W):
    out=[]
    def w(x,f):
        if isinstance(x,list):
            for y in x: w(y,f)
        elif isinstance(x,dict):
            if x.get('k')=='str' and isinstance(x.get('v'),str): out.append((x['v'],f,x.get('l')))
            for y in x.values(): w(y,f)
    for f,d in W.P.files.items(): w(d['s'],f)
    return out
@check('C40','The extension is built by ide/build.cjs, which defines VERSION from ide/package.json and TOOLCHAIN from rust-toolchain.toml.','cargo install --version X installs X; rustup install X installs X.')
def C40(L,rep):
    rep.rule('All manifests and lock files are read together: one version for every crate of the system and the extension, internal dependencies ask for that version, one toolchain in rust-toolchain.toml, in the versions of the compiler plug-in libraries and in the release workflow. The driver\'s version function returns the crate version. Activation is evaluated: the driver is used only on paths where the version it printed equals the extension\'s version or where that version has been installed with the pinned toolchain.')
    R=L.repo
    root=toml(R+'/Cargo.toml'); crates={}
    for p in sorted(glob.glob(R+'/crates/*/Cargo.toml')):
        d=toml(p); n=d.get('package',{}).get('name')
        if n and n.startswith('flowistry'): crates[n]=(d,os.path.relpath(p,R))
    if not rep.ok('crates',len(crates)>=3,'fewer than three crates found: %s'%', '.join(crates)): return
    def ver(d):
        v=d['package'].get('version')
        return root.get('workspace',{}).get('package',{}).get('version') if isinstance(v,dict) else v
    vs={n:ver(d) for n,(d,p) in crates.items()}
    try: pk=json.load(open(R+'/ide/package.json'))
    except (OSError,ValueError) as ex: raise Anchor('ide/package.json: %s'%ex)
    V=pk.get('version'); rep.ncalls+=len(crates)+2; rep.analyzed|={p for d,p in crates.values()}|{'ide/package.json','Cargo.toml','Cargo.lock','rust-toolchain.toml'}
    for n,v in vs.items(): rep.ok('version[%s]'%n,v==V,'%s has version %s, the extension has %s'%(n,v,V),crates[n][1])
    nd=0
    def deps(d):
        for k in('dependencies','build-dependencies'):
            yield from d.get(k,{}).items()
        for t in d.get('target',{}).values():
            for k in('dependencies','build-dependencies'): yield from t.get(k,{}).items()
    for n,(d,p) in crates.items():
        for dn,dv in deps(d):
            if isinstance(dv,dict) and dv.get('workspace'): dv=root.get('workspace',{}).get('dependencies',{}).get(dn,dv)
            name=dv.get('package',dn) if isinstance(dv,dict) else dn
            if name in crates:
                nd+=1; w=dv.get('version') if isinstance(dv,dict) else dv
                rep.ok('dependency[%s,%s]'%(n,name),plain_version(w)==vs[name] and str(w)[:1] not in'*~<>','%s asks for %s %s, which has version %s'%(n,name,w,vs[name]),p)
                rep.ok('dependency-path[%s,%s]'%(n,name),isinstance(dv,dict) and 'path' in dv and os.path.normpath(os.path.join(os.path.dirname(p),dv['path']))==os.path.dirname(crates[name][1]) or (isinstance(dv,dict) and 'path' in dv and dv is root.get('workspace',{}).get('dependencies',{}).get(dn)),'%s does not depend on the %s of this repository'%(n,name),p)
    rep.ok('dependencies',nd>=2,'fewer than two internal dependencies found')
    if os.path.exists(R+'/Cargo.lock'):
        lk={x['name']:x for x in toml(R+'/Cargo.lock').get('package',[]) if x['name'] in crates}
        for n in crates:
            if n in lk: rep.ok('lock[%s]'%n,lk[n]['version']==vs[n],'Cargo.lock has %s %s'%(n,lk[n]['version']),'Cargo.lock')
    if os.path.exists(R+'/ide/package-lock.json'):
        lj=json.load(open(R+'/ide/package-lock.json'))
        for k,v in(('version',lj.get('version')),('root',lj.get('packages',{}).get('',{}).get('version'))):
            if v is not None: rep.ok('package-lock[%s]'%k,v==V,'package-lock.json has version %s, the extension has %s'%(v,V),'ide/package-lock.json')
    # toolchain
    ch=toml(R+'/rust-toolchain.toml').get('toolchain',{}).get('channel')
    rep.ok('channel',isinstance(ch,str) and re.fullmatch(r'nightly-\d{4}-\d\d-\d\d',ch),'no dated toolchain is pinned: %s'%ch,'rust-toolchain.toml')
    named=0
    for dn,dv in root.get('workspace',{}).get('dependencies',{}).items():
        w=dv.get('version') if isinstance(dv,dict) else dv
        m=re.search(r'nightly-[\d-]+',w or '')
        if m:
            named+=1; rep.ok('toolchain[%s]'%dn,m.group(0)==ch,'%s is for %s but the toolchain is %s'%(dn,m.group(0),ch),'Cargo.toml')
            rep.ok('pinned[%s]'%dn,w.startswith('='),'%s is not pinned: %s'%(dn,w),'Cargo.toml')
    rep.ok('plugin-libraries',named>0,'no dependency names the toolchain it is for')
    if os.path.exists(R+'/Cargo.lock'):
        for x in toml(R+'/Cargo.lock').get('package',[]):
            m=re.search(r'nightly-[\d-]+',x.get('version',''))
            if m: rep.ok('lock-toolchain[%s]'%x['name'],m.group(0)==ch,'Cargo.lock has %s for %s'%(x['name'],m.group(0)),'Cargo.lock')
    for p in sorted(glob.glob(R+'/.github/workflows/*.y*ml')):
        for line in open(p):
            for m in re.findall(r'nightly-\d{4}-\d\d-\d\d',line.split('#')[0]): rep.ok('workflow[%s]'%os.path.basename(p),m==ch,'%s uses %s but the toolchain is %s'%(os.path.basename(p),m,ch),os.path.relpath(p,R))
    # the driver says which version it is
    nv=0
    for b in L.rust.prog.find('version','flowistry_ide'):
        if not(b.get('impl') and b['impl']['trait'] and b['impl']['trait'].split('<')[0].split('::')[-1]=='RustcPlugin'): continue
        r=wire.run(L,b); nv+=1; rep.analyzed.add(b['path']); rep.ncalls+=1
        for g,x in alts(r.norm(r.I.val(r.ret) if hasattr(r.I,'val') else r.ret)):
            lits=[y.a[0] for y in walk(x) if y.op=='Str']
            rep.ok('driver-version',lits==[V],'the driver says it is version %s'%pp(x)[:80],b['path'])
    rep.ok('driver-versions',nv==1,'the driver\'s version function was found %d times'%nv)
    # the extension
    W=L.ts; W.activate(); W.account(rep,None); rep.entries.append('activate')
    for v,f,l in string_literals(W):
        for m in re.findall(r'nightly-\d{4}-\d\d-\d\d',v): rep.ok('literal-toolchain[%s]'%f,m==ch,'%s names the toolchain %s'%(f,m),'ide/src/%s.ts:%s'%(f,l))
    sp=spawns(W._act); vq=[s for s in sp if is_driver(s) and ('-V' in s.words or '--version' in s.words)]
    if not rep.ok('asked',len(vq)==1,'the installed driver is asked for its version %d times'%len(vq)): return
    q=vq[0]; proc=q.e.ret
    ids={e.args[0].a[0] for e in W._act if e.kind=='settle' and listener(e,proc,'close','exit')}
    if not rep.ok('answer',len(ids)==1,'the driver\'s answer is not waited for',q.site): return
    S=mk('Settled',ids.pop())
    use=[s for s in sp if is_driver(s) and s is not q and s.e.seq>q.e.seq]
    if not rep.ok('used',len(use)>0,'the driver is not used'): return
    inst=[s for s in sp if s.cmd is Str('cargo') and 'install' in s.words]
    done=0
    for s in inst:
        l=s.lit; i=[k for k,x in enumerate(l) if x is Str('--version')]
        name=[x for x in s.words[s.words.index('install')+1:] if not x.startswith('-')]
        okv=bool(i) and i[0]+1<len(l) and l[i[0]+1] is VER
        rep.ok('install-version',okv or any(x.op=='Tpl' and x.a[-1] is VER and pp(x.a[0]).strip("'").endswith(('=','@')) for x in l),'cargo install is not told to install the extension\'s version',s.site)
        pkgs=[n for n,(d,p) in crates.items() if glob.glob(R+'/'+os.path.dirname(p)+'/src/bin/cargo-flowistry*') or glob.glob(R+'/'+os.path.dirname(p)+'/src/bin/cargo_flowistry*')]
        rep.ok('install-name',bool(name) and name[0] in pkgs,'cargo install installs %s, the driver is in %s'%(name[:1],pkgs),s.site)
        rep.ok('install-toolchain',bool(l) and l[0] is mk('Tpl',Str('+'),CHAN),'the driver is built with another toolchain',s.site)
        rep.ok('install-force','--force' in s.words or '-f' in s.words,'an installed driver of another version is not replaced',s.site)
        rep.ok('install-locked','--locked' in s.words,'the driver is not built from the versions it was released with',s.site)
        done=lor(done,s.e.guard)
    for e in W._act:
        if e.kind=='ext' and e.name.split('.')[-1] in('extractAllTo','extractAllToAsync'):
            u=[x for x in walk(e.args[0]) if x.op=='Tpl' and any('releases/download' in (y.a[0] if y.op=='Str' else '') for y in x.a)]
            rep.ok('download-version',bool(u) and all(any(y is VER for y in x.a) for x in u),'the downloaded driver is not the one of the extension\'s version',e.site)
            rep.ok('download-target',any(y.op=='Call' and y.a[0]=='path.join' and y.a[-1] is Str('bin') for y in walk(e.args[1])),'the driver is not unpacked where cargo finds it',e.site)
            done=lor(done,e.guard)
    rep.ok('installs',done!=0,'no driver is ever installed')
    rt=[s for s in sp if s.cmd is Str('rustup') and 'install' in s.words]
    rep.ok('rustup',len(rt)>0,'the toolchain is never installed')
    chosen=0
    for s in rt: rep.ok('rustup-channel',any(x is CHAN for x in s.lit),'rustup installs another toolchain',s.site); chosen=lor(chosen,s.e.guard)
    for s in rt: rep.ok('rustup-components',any('TOOLCHAIN.components' in pp(b.a[0]) for bs,g,v in argrows(s.args) or [] for b in bs) or any('TOOLCHAIN.components' in pp(v) for bs,g,v in argrows(s.args) or []),'the components of the toolchain are not installed',s.site)
    for s in inst: rep.ok('rustup-first',implies(known(s.e.guard,lambda t: None),chosen) ,'the driver is built without trying to install the toolchain',s.site)
    eq=[v for v in range(2,len(B.terms)) if isinstance(B.terms[v],T) and B.terms[v].op=='Eq' and any(x is VER for x in B.terms[v].a) and any(text_of(x,S) for x in B.terms[v].a)]
    A=0
    for v in eq: A=lor(A,atom(B.terms[v]))
    A=land(A,lnot(atom(mk('Throws',S))))
    for s in use:
        bad=land(s.e.guard,lnot(done))
        bad=known(bad,lambda t: 0 if t.op=='Eq' and any(x is VER for x in t.a) and any(x.op=='Str' for x in t.a) else None)
        m=land(bad,lnot(A))
        rep.ok('same-version',not sat(m),'the driver is used although its version may differ from the extension\'s%s'%(': %s'%B.show(m)[-200:] if sat(m) else ''),s.site)
