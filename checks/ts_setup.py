"""C46, C47: getting the driver ready, and what the status bar says about external programs."""
from registry import check
from tsfacts import *
from terms import *
from ts_ext import spawns,is_driver,call_run,caller,listener,const,noexc2_,chunks,known
from ts_focus import noexc
support=B.support
VERSION=mk('Ext','VERSION')
DOC=mk('Ext','vscode.window.activeTextEditor')
def promises(evs,s):
    """the promises that settle when the program ends"""
    return sorted({e.args[0].a[0] for e in evs if e.kind=='settle' and listener(e,s.e.ret,'close','exit','error')})
def fails(evs,s):
    """the program cannot be started or fails"""
    g=atom(mk('Throws',s.e.ret))
    for n in promises(evs,s): g=lor(g,atom(mk('Throws',mk('Settled',n))))
    return g
def follows(s,*words):
    """the argument after some argument"""
    for i,x in enumerate(s.lit[:-1]):
        if x.op=='Str' and x.a[0] in words: return s.lit[i+1]
    for x in s.lit:
        if x.op=='Tpl' and x.a and x.a[0].op=='Str' and x.a[0].a[0] in tuple(w+'=' for w in words) and len(x.a)==2: return x.a[1]
        if x.op=='Tpl' and x.a and x.a[0].op=='Str' and x.a[0].a[0].endswith('@') and len(x.a)==2 and '--version' in words: return x.a[1]
def asks_version(s): return any(w in('-V','--version') for w in s.words)
def all_of(t,coll):
    """every element of a collection is in an argument list"""
    return t.op=='Seq' and any(g==1 and len(bs)==1 and bs[0].a[0] is coll and any(x is mk('Elem',*bs[0].a) for x in walk(v)) for bs,g,v in t.a)
def ready(W):
    """[(what, event, condition)] where the extension starts to use the driver"""
    out=[('requests',e,e.guard) for e in W._act if e.kind=='store' and e.args[1]==Str('call_flowistry') and any(f.op=='Fn' and sat(land(e.guard,g)) for g,f in alts(e.raw[2]))]
    for e in W._act:
        if e.kind=='store' and e.args[1]==Str('call_flowistry'):
            h=0
            for g,f in alts(e.raw[2]):
                if f.op=='Fn': h=lor(h,g)
            out=[(w,x,land(y,h) if x is e else y) for w,x,y in out]
    return out+[(' '.join(s.words[:2]),s.e,s.e.guard) for s in spawns(W._act) if is_driver(s) and not asks_version(s)]
@check('C46','cargo install --version V --force puts the programs of exactly version V in place of others; rustup toolchain install adds the components given by -c.',
 'The version of the extension (VERSION) is not the empty text.')
def C46(L,rep):
    rep.rule('Activation is evaluated. On every path on which the extension starts to accept requests, or runs the driver for something else than its version, the text the installed driver printed for -V was equal to VERSION, or drivers of VERSION were installed before, by unpacking the release of VERSION or by a cargo install of VERSION with --force that succeeded; nothing is installed when they are equal. Before that, the pinned toolchain was installed with all its components, or the user said to go on. In the evaluation of a request, the document of the active editor, if there is one, is saved and the save awaited before the driver is started.')
    W=L.ts; W.activate(); W.account(rep,None); rep.entries.append('activate'); evs=W._act
    sp=spawns(evs); V=[s for s in sp if is_driver(s) and asks_version(s)]
    if not rep.ok('asked',len(V)>0,'the version of the installed driver is never asked for'): return
    vs=[mk('Settled',n) for s in V for n in promises(evs,s)]
    vfail=0
    for s in V: vfail=lor(vfail,fails(evs,s))
    def isver(t): return any(x in vs for x in walk(t))
    rd=ready(W)
    rep.ok('used',any(w=='requests' for w,e,g in rd),'the extension never accepts requests')
    # installations
    tc=[s for s in sp if 'toolchain' in s.words and 'install' in s.words]
    ci=[s for s in sp if 'install' in s.words and 'flowistry_ide' in ' '.join(s.words)]
    unpack=[e for e in evs if e.kind=='ext' and e.name.split('.')[-1] in('extractAllTo','extractAllToAsync')]
    for s in ci:
        v=follows(s,'--version','--vers')
        rep.ok('source-version',v is VERSION,'the version of flowistry_ide installed from source is %s'%('not given' if v is None else pp(v)),s.site)
        rep.ok('source-replaces','--force' in s.words or '-f' in s.words,'an installed driver of another version is not replaced',s.site)
    for e in unpack: rep.ok('release-version',any(x is VERSION for a in e.args for x in walk(a)),'the release downloaded is not that of the extension\'s version',e.site)
    for s in tc:
        rep.ok('toolchain-channel',any(const(x,'TOOLCHAIN.channel') for x in s.lit),'the toolchain installed is not the pinned one',s.site)
        rep.ok('toolchain-components',all_of(s.args,mk('Ext','TOOLCHAIN.components')),'the toolchain is installed without all the components the driver needs',s.site)
    inst=0; pre=[]
    for s in ci: inst=lor(inst,land(s.e.guard,lnot(fails(evs,s)))); pre.append((s.e,'cargo install'))
    for e in unpack: inst=lor(inst,land(e.guard,lnot(atom(mk('Throws',e.ret))))); pre.append((e,'the download'))
    rep.ok('installers',bool(pre),'no driver is ever installed')
    eqs=set()
    for w,e,g in rd+[(w,e,e.guard) for e,w in pre]:
        for v in support(g):
            t=B.terms[v]
            if t.op=='Eq' and any(x is VERSION for x in t.a) and any(isver(x) for x in t.a): eqs.add(t)
    rep.ok('compared',bool(eqs),'the version of the installed driver is not compared with that of the extension')
    same_=0
    for t in eqs:
        same_=lor(same_,atom(t))
        o=[x for x in t.a if x is not VERSION]
        plain=o[0] if o else None
        while plain is not None and plain.op=='Call' and plain.a[0] in('.toString','String','Buffer.concat'): plain=plain.a[1]
        rep.ok('trimmed',plain not in vs,'the driver ends its version with a line break, which is compared as part of it')
    same_=land(same_,lnot(vfail))
    empty=lambda t: 0 if t.op=='Eq' and any(x is VERSION for x in t.a) and any(x is Str('') for x in t.a) else None
    for w,e,g in rd:
        m=known(land(g,lnot(lor(same_,inst))),empty)
        rep.ok('own-version[%s]'%w,not sat(m),'the driver is used although its version is not the extension\'s and none was installed when %s'%B.show(noexc2_(m,None))[-300:],e.site)
        for p,what in pre: rep.ok('installed-first[%s]'%w,p.seq<e.seq,'the driver is used before %s'%what,e.site)
    for p,what in pre:
        m=known(land(p.guard,same_),empty)
        rep.ok('only-when-needed[%s]'%what,not sat(m),'%s is done although the installed driver has the right version'%what,p.site)
        # the toolchain comes first
        ok=0; went=0
        for s in tc:
            if s.e.seq<p.seq: ok=lor(ok,land(s.e.guard,lnot(fails(evs,s))))
        for v in support(p.guard):
            t=B.terms[v]
            if t.op=='Eq' and any(x.op=='Str' for x in t.a):
                for d in evs:
                    if d.kind=='ext' and d.name.startswith('vscode.window.show') and any(x is d.ret for y in t.a for x in walk(y)) and any(x in t.a for x in d.args): went=lor(went,atom(t))
        m=known(land(p.guard,lnot(lor(ok,went))),empty)
        rep.ok('toolchain-first[%s]'%what,not sat(m),'%s is done without the toolchain installed or the user\'s consent when %s'%(what,B.show(m)[-300:]),p.site)
    for e in unpack:
        # a failed download
        src=0
        for s in ci: src=lor(src,s.e.guard)
        m=known(land(land(e.guard,atom(mk('Throws',e.ret))),lnot(src)),empty)
        rep.ok('from-source',not sat(m),'when the download fails, the driver is not installed from source',e.site)
    # the saved text
    r=call_run(W); W.account(rep,r); rv=r.events
    runs=[s for s in spawns(rv) if is_driver(s)]
    rep.ok('runs',len(runs)>0,'a request never runs the driver')
    saves=[e for e in rv if e.kind=='ext' and (e.name in(DOC.a[0]+'.document.save','vscode.workspace.saveAll','vscode.workspace.save'))]
    editor=W.I.truth(DOC)
    for s in runs:
        cov=0
        for e in saves:
            if e.seq<s.e.seq:
                rep.ok('save-awaited',bool(e.awaited),'the driver is started while the document is still being saved',e.site)
                cov=lor(cov,e.guard)
        m=known(land(land(s.e.guard,editor),lnot(cov)),lambda t: 1 if t.op=='Truthy' and t.a[0] is mk('Ext',DOC.a[0]+'.document.isDirty') else None) # saving an unchanged document does nothing
        rep.ok('saved',not sat(m),'the driver is run on a document that was not saved when %s'%B.show(m)[-300:],s.site)
# ------------------------------------------------------------ C47
BAR='vscode.window.createStatusBarItem'
def texts(evs):
    """what the status bar is made to say: [(event, condition, spinning)]"""
    out=[]
    for e in evs:
        if e.kind=='store' and e.args[1]==Str('text') and(any((x.op=='Call' and x.a[0]==BAR) or x.op=='Glob' for x in walk(e.args[0])) or any(x.op=='Str' and '$(' in x.a[0] for x in walk(e.args[2]))):
            for g,v in alts(e.args[2]):
                h=land(e.guard,g)
                if sat(h): out.append((e,h,any(x.op=='Str' and '~spin' in x.a[0] for x in walk(v))))
    return out
@check('C47','A status bar item whose text contains an icon with ~spin is shown as busy; a child process ends with a close or an error event.')
def C47(L,rep):
    rep.rule('Activation and a request are evaluated. For every external program they start: the last text given to the status bar before the program ends is a spinning one, on every path on which it was started, and every listener that settles the promise for it (close, error) leaves a text that does not spin, on each of its paths.')
    W=L.ts; W.activate(); W.account(rep,None); rep.entries.append('activate')
    r=call_run(W); W.account(rep,r); n=0
    for evs in(W._act,r.events):
        tx=texts(evs)
        for s in spawns(evs):
            what=' '.join(s.words[:2]) or 'request'; n+=1; ends=[]
            for e in evs:
                if e.kind=='settle':
                    l=listener(e,s.e.ret,'close','exit','error')
                    if l is not None: ends.append((e,l))
            if not rep.ok('ends[%s]'%what,bool(ends),'nothing waits for the end of the program',s.site): continue
            last_=max(e.seq for e,l in ends); first=min(e.seq for e,l in ends)
            busy=0
            prev=[e.seq for e in evs if e.kind=='settle' and e.seq<s.e.seq]; lo=max(prev) if prev else -1
            for e,g,spin in tx:
                if e.seq>last_ or e.seq<lo or any(listener(e,s.e.ret,k) for k in('close','exit','error')): continue
                if e.loops and not any(x in e.loops for x in s.e.loops): continue
                busy=lor(busy,g) if spin else land(busy,lnot(g))
            m=noexc2_(noexc(land(s.e.guard,lnot(busy))),None)
            rep.ok('busy[%s]'%what,not sat(m),'the status bar does not show that the program runs when %s'%B.show(m)[-200:],s.site)
            for e,l in ends:
                calm=0
                for x,g,spin in tx:
                    if any(b.binder.op=='B' and b.binder.a[0] is l for b in x.loops): calm=land(calm,lnot(g)) if spin else lor(calm,g)
                m=noexc(land(e.guard,lnot(calm)))
                rep.ok('calm[%s:%s]'%(what,l.a[2].a[0]),not sat(m),'the status bar goes on showing that the program runs after it has ended (%s) when %s'%(l.a[2].a[0],B.show(m)[-200:]),e.site)
    rep.ok('programs',n>1,'%d external programs are started'%n)
