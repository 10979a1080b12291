"""C34, C35, C38, C39: focus mode in the editor (ide/src/focus.ts, decorations.ts, range.ts)."""
from registry import check
from rules import Anchor,mentions
from tsfacts import *
from terms import *
from sym import restrict
support=B.support
DOC=mk('Ext','vscode.window.activeTextEditor.document')
ENTRIES=('flowistry.focus','flowistry.focus_mark','flowistry.focus_unmark','flowistry.focus_select')
def obj(I,**kw):
    o=I.new('obj')
    for k,v in kw.items(): I.heap[(o,k)]=v
    return o
def entries(W):
    """[(name, function, arguments maker, modes it can start in)] of everything that can run focus mode's code"""
    W.activate()
    out=[(t.a[0],f,lambda I: []) for t,f,e in W.commands if t.op=='Str' and t.a[0].startswith('flowistry.focus')]
    out.append(('selection change',selection_handler(W),lambda I: [mk('Arg','selection event')]))
    out.append(('save',W.handler('workspace.onDidSaveTextDocument'),lambda I: [DOC]))
    return out
def selection_handler(W):
    if getattr(W,'_sel',None) is None:
        e=W.run(W.command('flowistry.focus'),mode='idle',name='focus')
        l=[x.raw[0] for x in e.events if x.kind=='ext' and x.name=='vscode.window.onDidChangeTextEditorSelection']
        l+=[f for n,f,x in W.handlers if n=='window.onDidChangeTextEditorSelection']
        l=list(dict.fromkeys(l))
        if len(l)!=1: raise Anchor('expected one handler of selection changes, found %d'%len(l))
        W._sel=l[0]; W._selenv=None
        # the closure stays valid: closures are values
    return W._sel
def edit_event(I): return obj(I,document=DOC)
def drawn(e): return [x for x in e.events if x.kind=='ext' and x.name.split('.')[-1]=='setDecorations']
def empty(t): return t.op=='Seq' and not t.a
def target(x):
    """the editor a decoration is applied to"""
    return x.args[0] if x.name.startswith('.') else mk('Ext',x.name.rsplit('.',1)[0])
def skips(x):
    """some elements of the collection may be left out because a loop ends early"""
    return any(sat(noexc(c)) for l in x.loops for c in l.cuts)
def everywhere(x):
    """condition under which a decoration is applied to every visible editor"""
    t=target(x)
    if not(t.op=='Elem' and t.a[0] is mk('Ext','vscode.window.visibleTextEditors')) or len(x.loops)!=1: return 0
    g=noexc(x.guard)
    return 0 if mentions(Bool(g),t) or skips(x) else g
def on_active(x):
    """condition under which a decoration is applied to the active editor, which is visible"""
    return noexc(exl(x)) if target(x) is ED else everywhere(x)
def mode_at(W,e): return W.cur(e,W.focus()[1])
def isv(I,t,s):
    """condition under which a value is this string"""
    return I.eq(t,Str(s))
def noexc(g):
    """the part of a condition in which no external call raises an exception"""
    for v in B.support(g):
        t=B.terms[v]
        if t.op=='Throws': g=B.cofactor(g,v,0)
        elif t.op=='Ex':
            h=noexc(t.a[1])
            if h!=t.a[1]: 
                x=exg(t.a[0],h)
                g=lor(land(x,B.cofactor(g,v,1)),land(lnot(x),B.cofactor(g,v,0)))
    return g
def leaves(I,t,g=1):
    """[(condition, value)] the value can take without exceptions"""
    out=[]
    for h,x in alts(t):
        h=noexc(land(g,h))
        if sat(h): out.append((h,x))
    return out
def valid(W):
    """condition under which the active editor shows a Rust document of the workspace, as the save handler decides it"""
    if getattr(W,'_valid',None) is None:
        r=0
        e=W.run(W.handler('workspace.onDidSaveTextDocument'),[DOC],mode='error',name='save')
        o,mk_,c=W.focus()
        for x in e.stores(o,mk_): r=lor(r,noexc(x.guard))
        W._valid=r
    return W._valid
# ------------------------------------------------------------ C38
@check('C38','VS Code delivers events to handlers one at a time; awaiting an extension-host call is the only way a request gives up control.')
def C38(L,rep):
    rep.rule('Every handler and command of focus mode is evaluated from every mode. On every path that ends without an exception the mode left behind is not "loading" unless it was loading before and the handler did not touch it; after a successful reply it is "active", after an error "error", and after FileNotFound "notfound".')
    W=L.ts; o,MK,cache=W.focus()
    for name,f,a in entries(W):
        touched=False; seen={}
        for m in MODES:
            I=W.I
            e=W.run(f,a(I),mode=m,name='%s [%s]'%(name,m)); W.account(rep,e)
            t=mode_at(W,e)
            st=e.stores(o,MK)
            load=0
            for x in st:
                if Str('loading') in [y for g,y in alts(x.raw[2])]: load=lor(load,noexc(x.guard)); touched=True
            for g,x in leaves(I,t):
                if x.op!='Str':
                    rep.ok('mode[%s]'%name,False,'the mode %s leaves behind is not known: %s'%(name,pp(x)[:120])); continue
                if x.a[0]=='loading' and (m!='loading' or sat(land(g,load))):
                    rep.ok('stuck[%s]'%name,False,'started in mode "%s", it can end with the mode still "loading" when %s'%(m,B.show(g)[:400]),st[-1].site if st else '')
                elif x.a[0] not in MODES: rep.ok('mode[%s]'%name,False,'unknown mode '+x.a[0])
            rep.ok('ends[%s,%s]'%(name,m),True)
            # outcome of the replies
            for c in e.events:
                if c.kind!='ext' or c.name!='.call_flowistry': continue
                r=mk('Await',c.ret); ty=mk('Field',r,'type')
                for tag,want in (('BuildError',('error',)),('AnalysisError',('error',)),('FileNotFound',('notfound','error'))):
                    h=landn(noexc(c.guard),I.truth(r),I.eq(ty,Str(tag)))
                    bad=[x for g,x in leaves(I,t,h) if x.op=='Str' and x.a[0] not in want]
                    rep.ok('outcome[%s,%s]'%(name,tag),not bad,'after a %s reply the mode is %s'%(tag,bad),c.site)
                    seen[tag]=1
            oks=1; calls=[c for c in e.events if c.kind=='ext' and c.name=='.call_flowistry']
            if calls:
                for c in calls: oks=land(oks,lor(lnot(noexc(c.guard)),land(I.truth(mk('Await',c.ret)),I.eq(mk('Field',mk('Await',c.ret),'type'),Str('output')))))
                h=land(oks,load)
                bad=[x for g,x in leaves(I,t,h) if x.op=='Str' and x.a[0] not in('active','notfound','idle','error')]
                rep.ok('outcome[%s,ok]'%name,not bad,'after successful replies the mode is %s'%bad)
        rep.ok('requests[%s]'%name,touched,'%s never sets the mode to loading: the request it makes is not covered'%name)
# ------------------------------------------------------------ interleavings
class Hit:
    """runs another handler while a request is suspended at its k-th await"""
    def __init__(s,k,f,mkargs,A=1): s.A=A; s.k=k; s.f=f; s.mkargs=mkargs; s.n=0; s.at=None; s.seq=None; s.site=''; s.end=None
    def __call__(s,I):
        if s.n==s.k:
            s.at=I.g; s.site='%s:%s'%(I.file,I.line); s.seq=len(I.events)
            I.apply(s.f,s.mkargs(I),{'l':0})
            s.end=len(I.events); s.state=I.snap(); I.care=land(s.at,s.A)
        s.n+=1
def interleave(W,name,f,a,m,other,margs,A=1,limit=60):
    """evaluations of f with `other` run at each await in turn"""
    k=0
    while k<limit:
        h=Hit(k,other,margs,A)
        e=W.run(f,a(W.I),mode=m,hook=h,name='%s [%s, await %d]'%(name,m,k))
        if h.at is None: return
        yield h,e; k+=1
    raise Anchor('more than %d suspension points in %s'%(limit,name))
def draws_after(I,e,h,g):
    """decorations and selections applied after the other handler ran"""
    out=[]
    for x in e.events:
        if x.seq<h.end: continue
        d=None
        if x.kind=='ext' and x.name.split('.')[-1]=='setDecorations' and not empty(x.args[-1]): d='a decoration'
        if x.kind=='store' and x.raw[1].op=='Str' and x.raw[1].a[0] in('selections','selection') : d='a selection'
        if d and sat(land(noexc(x.guard),g)): out.append((d,x))
    return out
def map_entries(I,m,g):
    """entries a cache can hold under g"""
    out=[]
    for q,v in I.heap.of(m):
        if q[1].startswith('<k>'):
            for h,x in leaves(I,v,g):
                if x is not UNDEF: out.append((q[1][3:],x))
    cl=0
    for h,w in I.cleared.get(m,[]): cl=lor(cl,noexc(h))
    if sat(land(g,lnot(cl))): out.append(('anything cached before',m))
    return out
@check('C34','VS Code delivers events to handlers one at a time; awaiting an extension-host call is the only way a request gives up control.','The active editor is the same when the edit happens as when the request started.')
def C34(L,rep):
    rep.rule('The edit handler is evaluated from every mode: for a dirty active Rust document every cached result is dropped, and unless focus mode is idle the mode becomes "unsaved" and highlights are cleared. The save handler, unless idle, makes the mode "active" and starts a request. The edit handler is also evaluated at every await of every request: afterwards the resumed request must not change the mode, fill the cache, or draw anything.')
    W=L.ts; o,MK,cache=W.focus(); V=valid(W)
    edit=W.handler('workspace.onDidChangeTextDocument'); save=W.handler('workspace.onDidSaveTextDocument')
    dirty=W.I.truth(mk('Ext','vscode.window.activeTextEditor.document.isDirty'))
    truthed=W.I.truth(ED)
    A=landn(V,dirty,truthed)
    if not rep.ok('valid',sat(A),'the documents focus mode applies to cannot be identified'): return
    clears=None
    for m in MODES:
        e=W.run(edit,lambda I: [edit_event(I)],mode=m,name='edit [%s]'%m); I=W.I; W.account(rep,e)
        for c in cache:
            for g,x in leaves(I,W.cur(e,c),A):
                left=map_entries(I,x,g) if I.kind.get(x)=='map' else ([] if x.op=='Const' else [('the cache',x)])
                rep.ok('dropped[%s]'%c,not left,'after an edit in mode "%s" the cache still holds %s'%(m,[(a,pp(b)[:60]) for a,b in left][:3]),e.events[0].site if e.events else '')
        want='idle' if m=='idle' else 'unsaved'
        bad=[x for g,x in leaves(I,mode_at(W,e),A) if x is not Str(want)]
        rep.ok('mode[edit]',not bad,'after an edit in mode "%s" the mode is %s'%(m,[pp(x)[:40] for x in bad]),'focus')
        if m!='idle':
            r=0
            for x in drawn(e):
                if empty(x.args[-1]): r=lor(r,on_active(x))
            rep.ok('cleared[%s]'%m,implies(A,r),'after an edit in mode "%s" highlights are not cleared'%m)
            # the bar shows the mode
        e2=W.run(save,[DOC],mode=m,name='save [%s]'%m); I=W.I; W.account(rep,e2)
        if m=='idle':
            st=[x for x in e2.events if x.kind=='store' or (x.kind=='ext' and x.name in('.call_flowistry',)) or x in drawn(e2)]
            rep.ok('save[idle]',not st,'a save while focus mode is off does something')
        else:
            st=e2.stores(o,MK)
            first=[x for x in st if x.raw[2] is Str('active')]
            r=0
            for x in first[:1]: r=lor(r,noexc(x.guard))
            rep.ok('save-active',implies(land(V,truthed),r),'a save in mode "%s" does not make focus mode active'%m)
            r=0
            for x in e2.events:
                if (x.kind=='map' and x.name=='Map.get') or (x.kind=='ext' and x.name=='.call_flowistry'): r=lor(r,noexc(x.guard))
            rep.ok('save-recompute',implies(land(V,truthed),r),'a save in mode "%s" does not look up or request results'%m)
    for name,f,a in entries(W):
        n=0
        for m in ('idle','active') if name!='save' else ('active',):
            for h,e in interleave(W,name,f,a,m,edit,lambda I: [edit_event(I)],A):
                n+=1; I=W.I; W.account(rep,e)
                G=noexc(land(h.at,A))
                if not sat(G): continue
                key='%s'%name
                want={}
                # the mode the edit left behind
                for g,x in leaves(I,alt_of(I,h.state[1].get((o,MK))),G):
                    for g2,y in leaves(I,mode_at(W,e),g):
                        if y is not x: rep.ok('stale-mode[%s]'%key,False,'an edit while the request waits at %s leaves the mode %s; the resumed request changes it to %s'%(h.site,pp(x),pp(y)),h.site); break
                for c in cache:
                    for g,x in leaves(I,W.cur(e,c),G):
                        left=map_entries(I,x,g) if I.kind.get(x)=='map' else ([] if x.op=='Const' else [('the cache',x)])
                        if left: rep.ok('stale-cache[%s]'%key,False,'an edit while the request waits at %s drops the cache; the resumed request stores stale results in it: %s'%(h.site,[(p[:40],pp(q)[:40]) for p,q in left][:2]),h.site)
                for d,x in draws_after(I,e,h,G)[:1]:
                    rep.ok('stale-draw[%s]'%key,False,'after an edit while the request waits at %s the resumed request applies %s'%(h.site,d),x.site)
        rep.ok('interleaved[%s]'%name,n>0,'no suspension point was found in '+name)
# ------------------------------------------------------------ C35
@check('C35','VS Code delivers events to handlers one at a time; awaiting an extension-host call is the only way a request gives up control.','The active editor is the same when highlights are cleared as when they were drawn.')
def C35(L,rep):
    rep.rule('The decoration kinds focus mode applies with ranges are collected over all its handlers and commands. Leaving focus mode applies every one of them with no ranges; each request that gets as far as drawing sets or clears every one of them; after leaving focus mode no handler draws, also not a request that was still waiting (the leave command is evaluated at every await).')
    W=L.ts; o,MK,cache=W.focus(); V=valid(W); off=W.command('flowistry.focus'); sel=selection_handler(W)
    A=land(V,W.I.truth(ED))
    kinds={}
    def note(e):
        for x in drawn(e):
            if not empty(x.args[-1]):
                for g,k in leaves(W.I,x.args[-2],noexc(x.guard)): kinds.setdefault(k,x.site)
    for name,f,a in entries(W):
        for m in ('idle','active'):
            e=W.run(f,a(W.I),mode=m,name='%s [%s]'%(name,m)); W.account(rep,e); note(e)
            if m=='idle' and name in('selection change','save'):
                d=[x for x in drawn(e) if not empty(x.args[-1]) and sat(noexc(x.guard))]
                rep.ok('idle-quiet[%s]'%name,not d,'%s draws although focus mode is off'%name,d[0].site if d else '')
            if m=='active' and name=='selection change':
                req(W,rep,e)
    if not rep.ok('kinds',kinds,'no decoration is ever applied'): return
    for k in kinds: rep.ok('kind[%s]'%kname(W,k),True)
    for m in MODES:
        if m=='idle': continue
        e=W.run(off,[],mode=m,name='leave [%s]'%m); W.account(rep,e); I=W.I
        for k,site in kinds.items():
            r=0
            for x in drawn(e):
                if empty(x.args[-1]): 
                    for g,y in leaves(I,x.args[-2],everywhere(x)):
                        if y is k: r=lor(r,g)
            rep.ok('cleared[%s]'%kname(W,k),r==1,'leaving focus mode from "%s" does not clear the decoration %s in every visible editor'%(m,pp(k)[:200]),site)
        bad=[x for g,x in leaves(I,mode_at(W,e)) if x is not Str('idle')]
        rep.ok('left[%s]'%m,not bad,'the command leaves mode %s'%[pp(x)[:40] for x in bad])
        late=[x for x in drawn(e) if not empty(x.args[-1]) and sat(noexc(x.guard))]
        rep.ok('quiet[%s]'%m,not late,'leaving focus mode draws',late[0].site if late else '')
    for name,f,a in entries(W):
        n=0
        for m in ('idle','active') if name!='save' else ('active',):
            if name=='flowistry.focus' and m=='active': continue
            for h,e in interleave(W,name,f,a,m,off,lambda I: [],A):
                I=W.I; W.account(rep,e)
                G=0
                for g,x in leaves(I,alt_of(I,h.state[1].get((o,MK))),noexc(land(h.at,A))):
                    if x is Str('idle'): G=lor(G,g)
                if not sat(G): continue
                n+=1
                for g2,y in leaves(I,mode_at(W,e),G):
                    if y is not Str('idle'): rep.ok('late-mode[%s]'%name,False,'leaving focus mode while the request waits at %s: the resumed request sets the mode to %s'%(h.site,pp(y)),h.site); break
                for d,x in draws_after(I,e,h,G)[:1]:
                    rep.ok('late-draw[%s]'%name,False,'leaving focus mode while the request waits at %s: the resumed request applies %s'%(h.site,d),x.site)
        rep.ok('interleaved[%s]'%name,n>0,'no suspension point was found in '+name)
def kname(W,k):
    for d,(f,n) in W.P.toplevel.items():
        if d in W.I.mod and W.I.cells.get(W.I.mod[d]) is k: return n
    return pp(k)[:60]
def req(W,rep,e):
    I=W.I; draw={}; clear={}
    for x in drawn(e):
        for g,k in leaves(I,x.args[-2],noexc(exl(x))):
            t=clear if empty(x.args[-1]) else draw
            t[k]=lor(t.get(k,0),g)
    any_=0
    for t in(draw,clear):
        for g in t.values(): any_=lor(any_,g)
    for k in draw:
        g=lor(draw[k],clear.get(k,0))
        rep.ok('reset[%s]'%kname(W,k),implies(any_,g),'a request that draws can leave the old decoration %s in place when %s'%(kname(W,k),B.show(land(any_,lnot(g)))[:300]))
    n=0
    for c in e.events:
        if c.kind=='ext' and c.name=='.call_flowistry' and c.args[-1].op=='Seq' and c.args[-1].a and c.args[-1].a[0][2] is Str('focus'):
            n+=1; r=mk('Await',c.ret)
            h=landn(noexc(c.guard),I.truth(r),I.eq(mk('Field',r,'type'),Str('output')))
            rep.ok('shown',implies(h,any_),'a successful reply is neither shown nor are the old highlights cleared',c.site)
    rep.ok('requests',n>0,'the selection handler makes no focus request')
def exl(x):
    g=x.guard
    for l in reversed(x.loops): g=exg(l.binder,g)
    return g
def alt_of(I,v): return v if v is not None else UNDEF
# ------------------------------------------------------------ C39
PERM=('.sort','.toSorted','.reverse','lodash.sortBy','lodash.orderBy')
def expand(rows,g=1,done=(),perm=True):
    """[(binders over plain collections, condition, value)] of a sequence, nested sequences and choices flattened"""
    for bs,h,v in rows: yield from _exp(list(bs),done,land(g,h),v,perm)
def _rebind(b,c):
    nb=mk('B',c,*b.a[1:])
    return nb,{b:nb,mk('Elem',*b.a):mk('Elem',*nb.a),mk('Idx',*b.a):mk('Idx',*nb.a)}
def _exp(todo,done,g,v,perm):
    g=noexc(g)
    if not sat(g): return
    if not todo:
        for h,x in alts(v):
            h=land(g,noexc(h))
            if sat(h): yield done,h,x
        return
    b=todo[0]; rest=todo[1:]; c=b.a[0]
    if c.op=='Alt':
        for h,x in c.a:
            nb,s=_rebind(b,x)
            yield from _exp([nb]+[subst(y,s) for y in rest],done,land(gsubst(g,s),h),subst(v,s),perm)
    elif c.op=='Call' and (c.a[0].startswith('lodash.uniq') or perm and c.a[0] in PERM):
        nb,s=_rebind(b,c.a[1])
        yield from _exp([nb]+[subst(y,s) for y in rest],done,gsubst(g,s),subst(v,s),perm)
    elif c.op=='Seq':
        for b2,g2,x in c.a:
            s={mk('Elem',*b.a):x}
            yield from _exp(list(b2)+[subst(y,s) for y in rest],done,land(g2,gsubst(g,s)),subst(v,s),perm)
    else: yield from _exp(rest,done+(b,),g,v,perm)
def seqrows(t): return t.a if t.op=='Seq' else [((mk('B',t,0),),1,mk('Elem',t,0))]
def is_range_of(v):
    """the range {start,end} a vscode range or selection is made from"""
    if v.op!='Call' or not v.a[0].startswith('new vscode.'): return None
    k=v.a[0].split('.')[-1]; a=list(v.a[1:])
    if k not in('Range','Selection'): return None
    if len(a)==2: 
        q=[]
        for x,which in zip(a,('start','end')):
            if x.op=='Field' and x.a[0].op=='Call' and x.a[1] in('start','end','anchor','active'):
                if x.a[1] not in({'start':('start','anchor'),'end':('end','active')}[which]): return None
                r=is_range_of(x.a[0])
                if r is None: return None
                q+=[mk('Field',mk('Field',r,which),'line'),mk('Field',mk('Field',r,which),'column')]
            elif x.op=='Call' and x.a[0]=='new vscode.Position': q+=list(x.a[1:])
            else: return None
        a=q
    if len(a)!=4: return None
    r=None
    for x,(s,c) in zip(a,(('start','line'),('start','column'),('end','line'),('end','column'))):
        if not(x.op=='Field' and x.a[1]==c and x.a[0].op=='Field' and x.a[0].a[1]==s): return None
        if r is None: r=x.a[0].a[0]
        if x.a[0].a[0] is not r: return None
    return r
def first_of(t):
    """X when t is the collection of the first element of X"""
    if t.op=='Call' and t.a[0]=='.slice' and len(t.a)==4 and t.a[2] is Int(0) and t.a[3] is Int(1): return t.a[1]
    return None
SEARCH='search'
PARTS=('contained','containing','overlapping')
def is_search(t): return t.op=='Call' and t.a[0]==SEARCH and len(t.a)==3
def item_source(t):
    """(search result, part, first only) of the results a result item is taken from"""
    first=False; c=t
    if t.op=='FirstOf': c=t.a[0]; first=True
    elif t.op=='Elem':
        c=t.a[0]
        f=first_of(c)
        if f is not None: c=f; first=True
    else: return None
    if c.op=='Field' and c.a[1] in PARTS and is_search(c.a[0]): return c.a[0],c.a[1],first
    return None
def origin(rng):
    """(search result, part, first only, field) a drawn range comes from"""
    if rng is None or rng.op!='Elem': return None
    c=rng.a[0]
    if c.op=='Field' and c.a[0].op=='Field' and c.a[0].a[1]=='value':
        q=item_source(c.a[0].a[0])
        if q: return q+(c.a[1],)
    return None
class Trace: pass
def trace(W,rep,what,t,g,site):
    """checks that a collection of ranges is, for one field, exactly that field of the results selected for the query"""
    parts={}; fields=set()
    g=noexc(g)
    for bs,h,v in expand(seqrows(t),g):
        o=origin(is_range_of(v) or v)
        if o is None: return None
        R,part,first,f=o
        d=parts.setdefault((R,f),{}); d[(part,first)]=lor(d.get((part,first),0),h)
        fields.add(f)
    if not parts: return None
    out=Trace(); out.fields=fields; out.R=set(R for R,f in parts)
    for (R,f),d in parts.items():
        # the condition under which this search is the one used: decided by the sequence's own guards
        base=0
        for h in d.values(): base=lor(base,h)
        has=lnot(atom(mk('Empty',mk('Field',R,'contained'))))
        for (part,first),h in d.items():
            key='%s[%s]'%(what,f)
            if part=='contained':
                rep.ok(key+'-all',not first,'%s: only the first of the contained places is used for %s'%(what,f),site)
                rep.ok(key+'-contained',implies(land(ctx(g,base,has),has),h),'%s: a place contained in the query is left out when %s'%(what,B.show(landn(ctx(g,base,has),has,lnot(h)))[:300]),site)
            else:
                rep.ok(key+'-only-contained',not sat(land(h,has)),'%s: %s places are used for %s although the query contains places'%(what,part,f),site)
                rep.ok(key+'-'+part,first==(part=='containing'),'%s: %s of the %s places used for %s'%(what,'only the first' if first else 'all',part,f),site)
                rep.ok(key+'-'+part,implies(land(ctx(g,base,has),lnot(has)),h),'%s: %s places are left out of %s although the query contains none'%(what,part,f),site)
        got=set(p for p,_ in d)
        rep.ok('%s[%s]-complete'%(what,f),got==set(PARTS),'%s: %s are never used for %s'%(what,sorted(set(PARTS)-got),f),site)
    return out
def ctx(g,base,has):
    """the part of a condition that does not depend on whether there are contained places"""
    for v in support(has): base=lor(B.cofactor(base,v,0),B.cofactor(base,v,1))
    return land(g,base)
def isSel(t): return t is mk('Ext','vscode.window.activeTextEditor.selection') or (t.op=='Field' and t.a[0] is ED and t.a[1]=='selection')
def off(t):
    """(document, object, 'start'|'end') of the offset of a selection's end point"""
    if t.op=='Call' and t.a[0].endswith('offsetAt'):
        x=t.a[-1]; d=t.a[1] if len(t.a)>2 else mk('Doc',t.a[0])
        if x.op=='Ext' and x.a[0].split('.')[-1] in('start','end'): return d,mk('Ext',x.a[0].rsplit('.',1)[0]),x.a[0].split('.')[-1]
        if x.op=='Field' and x.a[1] in('start','end'): return d,x.a[0],x.a[1]
    return None
def query(rep,W,what,R,site,S,marked=True):
    """checks the query of a search; the keys of the body's fields that may replace the selection"""
    tree,q=R.a[1],R.a[2]; keys=set(); care=S.get(R,1)
    l=[r for r in q.a] if q.op=='Seq' else []
    if not rep.ok(what+'-query',len(l)==2 and all(not bs for bs,g,v in l),'%s: the query is not a pair of offsets: %s'%(what,pp(q)[:200]),site): return keys
    for (bs,h,v),end in zip(l,('start','end')):
        for g,x in [(g2,mk(x.op,*x.a[:-1],y)) if x.op=='Call' else (g,x) for g,x in leaves(W.I,v,land(h,care)) for g2,y in (leaves(W.I,x.a[-1],g) if x.op=='Call' else [(g,x)])]:
            o=off(x)
            if not rep.ok(what+'-query',o is not None and o[2]==end,'%s: the query runs to %s'%(what,pp(x)[-200:]),site): continue
            d,X,_=o
            if isSel(X):
                for v2 in support(g):
                    a=B.terms[v2]
                    if a.op=='Truthy' and a.a[0].op=='Field' and owner(tree) is a.a[0].a[0]: rep.ok(what+'-mark-first',not sat(land(g,B.var(a))),'%s: the selection is used although the mark is set'%what,site)
            elif X.op=='Field' and owner(tree) is X.a[0] and marked:
                keys.add(X.a[1])
                rep.ok(what+'-mark',implies(g,W.I.truth(X)),'%s: the mark is used although it is not set'%what,site)
            else: rep.ok(what+'-query',False,'%s: the query is made from %s'%(what,pp(X)[-200:]),site)
    return keys
def owner(tree):
    return tree.a[0] if tree.op=='Field' else None
@check('C39','IntervalTree.search(q, f) returns f(value, key) for every stored interval that meets q.','lodash.orderBy, lodash.sortBy and Array.sort sort as documented; keys that are not numbers compare as strings.')
def C39(L,rep):
    rep.rule('Queries of a range tree, as evaluated from its search method: a result is contained iff it lies within the query, containing iff not contained and the query lies within it, overlapping otherwise, and each list is ordered by line extent, then column extent (the sort keys are evaluated over a grid of extents). Every entry of a tree is inserted at the offsets of its own range. With the search left symbolic, every range focus mode draws or selects is traced to the search result it came from: contained ones if there are any, otherwise the overlapping ones and the first containing one, of the query made from the mark if set and the selection otherwise, in the smallest body around the selection. After the mark command every body drawn has the selection as its mark; after unmark it has none; the select command sets the selections to the slice.')
    tree_rule(L.ts,rep); inserts(L.ts,rep)
    W0=L.ts; W=W0.view(SEARCH); I=W.I
    e=W.run(selection_handler(W),lambda I: [mk('Arg','selection event')],mode='active',name='selection change [active]'); W.account(rep,e)
    S={}
    for q in e.events:
        if q.ret is not None and is_search(q.ret): S[q.ret]=lor(S.get(q.ret,0),noexc(exl(q)))
    fields={}; keys=set(); Rs=set(); plain=[]; seen=[]; some={}
    for x in drawn(e):
        if empty(x.args[-1]): continue
        g=noexc(exl(x))
        for h,k in leaves(I,x.args[-2],g):
            t=trace(W,rep,kname(W0,k) if W0.I else '',x.args[-1],h,x.site)
            if t is None: plain.append((k,x)); continue
            for f in t.fields: fields.setdefault(f,set()).add(kname(W0,k))
            Rs|=t.R
            seen.append((k,x,h,t))
            if 'ranges' in t.fields:
                for bs,h2,v in expand(seqrows(x.args[-1])):
                    o=origin(is_range_of(v) or v)
                    for bb in reversed(bs): h2=exg(bb,h2)
                    if o: some[o[0]]=lor(some.get(o[0],0),h2)
    for k,x,h,t in seen:
        base=NE=0
        for R in t.R:
            if rep.ok('search',R in S,'the search %s was not made'%pp(R)[:100],x.site): base=lor(base,S[R])
        for R in t.R: NE=lor(NE,some.get(R,0))
        rep.ok('shown-if[%s]'%kname(W0,k),implies(land(base,NE),h),'something is selected, but it is not shown when %s'%B.show(landn(base,NE,lnot(h)))[-400:],x.site)
    for f in('slice','ranges','direct_influence'): rep.ok('shows[%s]'%f,f in fields,'no decoration shows the %s of the selected places'%f)
    for R in Rs: keys|=query(rep,W,'query',R,'',S); body(rep,W,R,S)
    if not rep.ok('mark',len(keys)==1,'expected one field of the body to replace the selection in the query, found %s'%sorted(keys)): return
    MKEY=keys.pop()
    for n in('mark','unmark'):
        want=isSel if n=='mark' else lambda y: y is NULL or y is UNDEF
        e=W.run(W.command('flowistry.focus_'+n),[],mode='active',name='focus_%s [active]'%n); W.account(rep,e)
        seen=0
        for x in drawn(e):
            if empty(x.args[-1]): continue
            rows=[(o,h) for bs,h,v in expand(seqrows(x.args[-1]),noexc(exl(x))) for o in [origin(is_range_of(v) or v)] if o]
            for o,h in rows:
                O=body_of(I,o[0].a[1])
                if not rep.ok('body',O is not None,'the body of a drawn place cannot be identified',x.site): continue
                m=I.hget(O,MKEY)
                if m is None: m=mk('Field',O,MKEY)
                seen+=1
                bad=[y for g,y in leaves(I,m,h) if not want(y)]
                rep.ok('set[%s]'%n,not bad,'after the %s command the mark of the body shown can be %s'%(n,[pp(y)[:40]+'...'+pp(y)[-40:] for y in bad][:3]),x.site)
        rep.ok('set[%s]'%n,seen>0,'nothing is drawn after the %s command'%n)
    e=W.run(W.command('flowistry.focus_select'),[],mode='active',name='focus_select [active]'); W.account(rep,e)
    n=0
    for x in e.events:
        if x.kind=='store' and x.raw[0] is ED and x.raw[1] is Str('selections'):
            v=I.freeze(x.raw[2]); h=noexc(exl(x))
            if sat(h):
                n+=1; t=trace(W,rep,'selections',v,h,x.site)
                rep.ok('selects',t is not None and t.fields=={'slice'},'the select command selects %s'%(sorted(t.fields) if t else pp(v)[:200]),x.site)
    rep.ok('selects',n>0,'the select command never sets the selections')
def body_of(I,tree):
    if tree.op=='Field': return tree.a[0]
    l=[o for (o,k),v in I.heap.items() if k[:1]!='<' and any(x is tree for g,x in alts(v))]
    l=list(dict.fromkeys(l))
    return l[0] if len(l)==1 else None
def body(rep,W,R,S):
    """the body searched is the smallest one around the selection"""
    n=0
    for y in walk(R.a[1]):
        if y.op=='Field' and is_search(y.a[0]):
            rep.ok('body-part',y.a[1]=='containing','the body is taken from the %s bodies'%y.a[1])
            query(rep,W,'body',y.a[0],'',S,marked=False)
        for z in y.a:
            if isinstance(z,T) and z.op=='Field' and z.a[1]=='containing' and is_search(z.a[0]): n+=1; rep.ok('body-first',y.op=='FirstOf','the body is not the smallest one around the selection')
def position(a,b):
    """the position whose line and column are a and b: ('start', range), ('at', point), or None"""
    def strip(t):
        while t.op=='Call' and t.a[0] in('String','.toString','Number') and len(t.a)==2: t=t.a[1]
        while t.op=='Tpl' and len([x for x in t.a if x is not Str('')])==1: t=[x for x in t.a if x is not Str('')][0]
        if t.op in('Ext','Call') and len(t.a)==1 and '.' in t.a[0]:
            q=t.a[0].split('.')
            if q[-1]=='toString': q=q[:-1]
            return mk('Ext','.'.join(q[:-1])),q[-1]
        if t.op=='Field': return t.a[0],t.a[1]
        return None,None
    (o,k),(o2,k2)=strip(a),strip(b)
    if o is None or o is not o2 or (k,k2) not in(('line','character'),('line','column')): return None
    q=point(o)
    if q: return q[1],q[0]
    if o.op=='Field' and o.a[1] in('start','end') and o.a[0].op=='Field' and o.a[0].a[1]=='range': return o.a[1],o.a[0]
    return 'at',o
def split(t,g,n=4000):
    """[(condition, t with every choice in it decided)]"""
    out=[]; todo=[(t,g)] if sat(g) else []
    while todo:
        t,g=todo.pop(); n-=1
        if n<0: raise Anchor('too many choices in a value')
        a=next((x for x in walk(t) if x.op=='Alt'),None)
        if a is None: out.append((g,t)); continue
        for h,y in a.a:
            k=land(g,h)
            if not sat(k): continue
            m={a:y}; k=gsubst(k,m)
            if sat(k): todo.append((subst(t,m),k))
    return out
def first_body(t):
    """the search whose smallest containing result t is"""
    if t.op=='FirstOf' and t.a[0].op=='Field' and t.a[0].a[1]=='containing' and is_search(t.a[0].a[0]): return t.a[0].a[0]
    return None
def searched_at(R):
    """the point a search was made at, if at a single one"""
    q=R.a[2]; l=list(q.a) if q.op=='Seq' else []
    if len(l)!=2: return None
    out=[]
    for bs,g,v in l:
        if bs or not(v.op=='Call' and v.a[0].endswith('offsetAt')): return None
        y=v.a[-1]
        if y.op=='Field' and y.a[0].op=='Call' and y.a[0].a[0] in('new vscode.Selection','new vscode.Range') and len(y.a[0].a)==3:
            if y.a[0].a[1] is y.a[0].a[2]: y=y.a[0].a[1]
        out.append(y)
    return out[0] if out[0] is out[1] else None
@check('C44','The driver analyses the smallest body around the position it is given.','A position at the start of a body lies in no smaller body, unless one starts at the same character (a const block that begins the initialiser of a constant).')
def C44(L,rep):
    rep.rule('Every request for the analysis of a body that focus mode makes, in all its handlers and commands, is followed to the cell its reply is stored in. That cell must belong to the smallest body around the selection, and under every condition the position sent must be the start of that body, or a position for which the range tree was asked and answered with the same body. The reply stored in a cell is the reply to that request.')
    W0=L.ts; W=W0.view(SEARCH); n=0
    for name,f,a in entries(W):
        if name=='save': continue
        e=W.run(f,a if name!='selection change' else (lambda I: [mk('Arg','selection event')]),mode='active',name=name+' [active]'); W.account(rep,e); I=W.I
        for x in e.events:
            if not(x.kind=='ext' and x.name.endswith('.call_flowistry')): continue
            rows=list(x.args[1].a) if x.args[1].op=='Seq' else []
            if not rows or rows[0][2] is not Str('focus'): continue
            if not rep.ok('request',len(rows)==4 and all(not bs and h==1 for bs,h,v in rows),'the arguments of a request for a body are %s'%pp(x.args[1])[:200],x.site): continue
            cells=[]
            for s in e.events:
                if s.kind=='store' and mentions(s.args[-1],x.ret): cells+=[(g,q) for g,q in split(mk('L',s.args[0],rows[2][2],rows[3][2]),land(s.guard,x.guard)) if q.a[0].op=='Field' and q.a[0].a[1]=='value' and first_body(q.a[0].a[0]) is not None]
            if not rep.ok('stored[%s]'%name,bool(cells),'%s: the reply is not stored in the cell of the smallest body around the selection'%name,x.site): continue
            n+=1
            for h,t in cells:
                item=t.a[0].a[0]; R=first_body(item); q=position(t.a[1],t.a[2])
                if not rep.ok('position[%s]'%name,q is not None,'%s: the position sent is %s, %s'%(name,pp(t.a[1])[-120:],pp(t.a[2])[-120:]),x.site): continue
                k,o=q
                if k=='start' and o.op=='Field' and o.a[1]=='range' and o.a[0] is item: rep.ok('body-start[%s]'%name,True); continue
                good=False
                for v in support(h):
                    y=B.terms[v]
                    if y.op!='Eq' or not implies(h,B.var(y)): continue
                    for _,w in split(y,h):
                        if w.op!='Eq': continue
                        for a_,b_ in((w.a[0],w.a[1]),(w.a[1],w.a[0])):
                            if a_.op==b_.op=='Field' and a_.a[1]==b_.a[1]=='value' and a_.a[0] is item:
                                R2=first_body(b_.a[0])
                                if k=='at' and R2 is not None and R2.a[1] is R.a[1] and searched_at(R2) is o: good=True
                rep.ok('same-body[%s]'%name,good,'%s: the driver is asked about %s, which may lie in a smaller body than the one the reply is stored for, such as a closure that contains only an end of the selection'%(name,pp(o)[-120:]),x.site)
    rep.ok('requests',n>=1,'no request for the analysis of a body was found')
    own_cells(W0,rep)
def own_cells(W,rep):
    """every body has its own place for its result: the value stored for a body is made for it and put nowhere else"""
    n=0
    for name,f,a in entries(W):
        if name!='flowistry.focus': continue
        e=W.run(f,a,mode='idle',name=name+' [idle]'); W.account(rep,e); I=e.I
        for x in e.events:
            if not(x.kind=='ext' and x.name=='.insert' and len(x.raw)>2): continue
            src={y.a[0] for y in walk(x.args[1]) if y.op=='Elem' and spans_reply(y.a[0])}
            if len(src)!=1: continue
            src=src.pop(); n+=1
            for g,v in alts(x.raw[2]):
                if not sat(land(g,x.guard)): continue
                own=v.op=='JObj' and any(tmentions(b,src) for b in I.born.get(v,()))
                rep.ok('own-result[%s]'%name,own,'the place for the result of a body is %s, which is not made for that body alone'%pp(v)[:120],x.site)
                for z in e.events:
                    if z.kind=='store' and z.raw[2] is v: rep.ok('own-result-kept[%s]'%name,False,'the place for the result of a body is also kept in %s, where other bodies find it'%pp(z.args[0])[:80],z.site)
    rep.ok('bodies',n>=1,'no place where the bodies of a document are stored was found')
def tmentions(b,src):
    for y in (b if isinstance(b,(tuple,list)) else [b]):
        if isinstance(y,T):
            if mentions(y,src): return True
        elif getattr(y,'binder',None) is not None and mentions(y.binder,src): return True
    return False
def spans_reply(t):
    for y in walk(t):
        if y.op=='Call' and y.a[0].endswith('.call_flowistry') or y.op=='Call' and y.a[0]=='.call_flowistry':
            r=y.a[-1]
            if r.op=='Seq' and r.a and r.a[0][2] is Str('spans'): return True
    return False
def point(t):
    """(range, 'start'|'end') of a vscode position"""
    if t.op=='Field' and t.a[1] in('start','end','anchor','active'):
        r=is_range_of(t.a[0])
        if r is not None: return r,{'anchor':'start','active':'end'}.get(t.a[1],t.a[1])
    if t.op=='Call' and t.a[0]=='new vscode.Position' and len(t.a)==3:
        l,c=t.a[1:]
        if l.op=='Field' and c.op=='Field' and l.a[1]=='line' and c.a[1]=='column' and l.a[0] is c.a[0] and l.a[0].op=='Field' and l.a[0].a[1] in('start','end'): return l.a[0].a[0],l.a[0].a[1]
    return None
def inserts(W,rep):
    """every entry of a tree is inserted at the offsets of its own range, with its own value"""
    e=W.run(selection_handler(W),lambda I: [mk('Arg','selection event')],mode='active',name='selection change [active]'); W.account(rep,e)
    got={}
    for x in e.events:
        if not(x.kind=='ext' and x.name=='.insert' and x.args and x.args[0].op=='Call' and 'interval-tree' in x.args[0].a[0]): continue
        iv=x.args[1]; ends=[]
        if iv.op=='Seq' and len(iv.a)==2:
            for bs,g,v in iv.a: ends.append(point(v.a[-1]) if v.op=='Call' and v.a[0].endswith('offsetAt') and not bs and noexc(g)==1 else None)
        if not rep.ok('insert-interval',len(ends)==2 and None not in ends and ends[0][0] is ends[1][0] and (ends[0][1],ends[1][1])==('start','end'),'an entry is inserted at %s'%pp(iv)[:300],x.site): continue
        r=ends[0][0]; el=r.a[0] if r.op=='Field' and r.a[1]=='range' else r
        if not rep.ok('insert-entry',el.op=='Elem' and el.a[0].op=='Field' and el.a[0].a[1] in('spans','place_info'),'the entries of a tree come from %s'%pp(el)[:200],x.site): continue
        which=el.a[0].a[1]
        if which=='place_info': rep.ok('insert-value',x.args[2] is el and r is not el,'the range %s is entered with the value %s'%(pp(r)[-60:],pp(x.args[2])[-100:]),x.site)
        else: rep.ok('insert-value',x.raw[2].op=='JObj' and x.raw[2] not in W.I.glob if hasattr(W.I,'glob') else x.raw[2].op=='JObj','the value entered for a body is not a fresh cell',x.site)
        g=noexc(x.guard)
        rep.ok('insert-all[%s]'%which,not mentions(Bool(g),el),'an entry of %s is inserted only if %s'%(which,B.show(g)[-200:]),x.site)
        rep.ok('insert-loop[%s]'%which,len(x.loops)==1 and not skips(x),'entries of %s are left out or entered twice'%which,x.site)
        got[which]=lor(got.get(which,0),g)
    for k in('spans','place_info'): rep.ok('inserted[%s]'%k,sat(got.get(k,0)),'the %s of a reply are never entered in a tree'%k)
# ------------------------------------------------------------ the search itself
class Unknown(Exception): pass
def jsnum(x):
    if isinstance(x,bool): return int(x)
    return x
def ev(t,env):
    """value of a comparator's term; numbers, booleans, lists (JavaScript arrays) as Python values"""
    v=env.get(t)
    if v is not None: return v
    if t.op=='Int': return t.a[0]
    if t.op=='Str': return t.a[0]
    if t.op=='Bool': return evg(t.a[0],env)
    if t.op=='Const': return None
    if t.op=='Alt':
        for g,x in t.a:
            if evg(g,env): return ev(x,env)
        raise Unknown('no alternative')
    if t.op=='Seq' and all(not bs for bs,g,v in t.a): return [ev(v,env) for bs,g,v in t.a if evg(g,env)]
    if t.op=='Field':
        o=ev(t.a[0],env)
        if isinstance(o,dict) and t.a[1] in o: return o[t.a[1]]
        raise Unknown(pp(t)[:80])
    if t.op=='Agg' : return {k:ev(v,env) for k,v in zip(t.a[2],t.a[3:])}
    if t.op=='FirstOf': return ev(t.a[0],env)[0]
    if t.op=='Nth': return ev(t.a[0],env)[t.a[1].a[0] if isinstance(t.a[1],T) else t.a[1]]
    if t.op in('Bin','BinOp'):
        o=t.a[0]; a,b=[ev(x,env) for x in t.a[1:3]]
        if isinstance(a,(int,bool)) and isinstance(b,(int,bool)):
            a,b=int(a),int(b)
            if o=='-': return a-b
            if o=='+': return a+b
            if o=='*': return a*b
            if o=='/' and b: return a/b
        raise Unknown(pp(t)[:80])
    if t.op=='Un' and t.a[0]=='-': return -ev(t.a[1],env)
    if t.op=='Call' and t.a[0] in('Math.abs','Math.max','Math.min','Math.sign'):
        a=[ev(x,env) for x in t.a[1:]]
        return {'abs':lambda: abs(a[0]),'max':lambda: max(a),'min':lambda: min(a),'sign':lambda: (a[0]>0)-(a[0]<0)}[t.a[0][5:]]()
    raise Unknown(t.op+' '+pp(t)[:80])
G_='<given>'
def evg(g,env):
    c=env.get(G_,1)
    if c>1 and g>1: g=restrict(g,c)
    while g>1:
        v,l,h=B.nodes[g]; a=B.terms[v]
        if a.op=='Lt': b=ev(a.a[0],env)<ev(a.a[1],env)
        elif a.op=='Eq': b=ev(a.a[0],env)==ev(a.a[1],env)
        elif a.op=='Truthy': b=bool(ev(a.a[0],env))
        else: raise Unknown(pp(a)[:80])
        g=h if b else l
    return bool(g)
def jskey(v):
    """how a sort key compares"""
    if isinstance(v,bool): return (0,int(v))
    if isinstance(v,(int,float)): return (0,v)
    if isinstance(v,list): return (1,','.join(str(x) for x in v))
    if isinstance(v,str): return (1,v)
    raise Unknown(repr(v))
LINES=(0,1,2,9,10,11,100); COLS=(-100,-12,-9,-1,0,1,2,9,10,11,100)
def item(dl,dc): 
    s=dict(line=7,column=200); return dict(range=dict(start=s,end=dict(line=7+dl,column=200+dc),filename='f'),value='v')
def sort_rule(rep,name,v):
    """the list is sorted by line extent, then column extent, ascending; returns the sequence sorted"""
    if v.op=='Seq': v=mk('Seq',*[r for r in v.a if sat(noexc(r[1]))])
    if v.op=='Seq' and len(v.a)==1 and len(v.a[0][0])==1 and noexc(v.a[0][1])==1 and v.a[0][2] is mk('Elem',*v.a[0][0][0].a) and v.a[0][0][0].a[0].op=='Call': v=v.a[0][0][0].a[0]
    if v.op=='Call' and v.a[0] in('lodash.orderBy','lodash.sortBy'):
        ks=v.a[2] if len(v.a)>2 else None
        if len(v.a)>4 or ks is None: return None
        l=[x for bs,g,x in ks.a] if ks.op=='Seq' else [ks]
        orders=['asc']*len(l)
        if len(v.a)==4:
            if v.a[3].op!='Seq' : return None
            o=[x.a[0] if x.op=='Str' else '?' for bs,g,x in v.a[3].a]; orders=(o+orders)[:max(len(l),len(o))]
        if not l or any(k.op not in('Lam','Str') for k in l): return None
        def key(k,it):
            if k.op=='Str':
                for p in k.a[0].split('.'): it=it[p]
                return it
            return ev(k.a[0],{mk('CbArg',v.a[0],0):it})
        def less(a,b):
            for k,o in zip(l,orders):
                x,y=jskey(key(k,a)),jskey(key(k,b))
                if x!=y: return (x<y)==(o=='asc')
            return False
        seq=v.a[1]
    elif v.op=='Call' and v.a[0] in('.sort','.toSorted') and len(v.a)==3 and v.a[2].op=='Lam':
        def less(a,b): return ev(v.a[2].a[0],{mk('CbArg',v.a[0],0):a,mk('CbArg',v.a[0],1):b})<0
        seq=v.a[1]
    else: return None
    bad=None
    for a in((l,c) for l in LINES for c in COLS):
        for b in((l,c) for l in LINES for c in COLS):
            try: r=less(item(*a),item(*b))
            except (Unknown,TypeError,KeyError,IndexError) as ex: bad='the sort key cannot be evaluated: %s'%ex; break
            if r!=(a<b): bad='ranges of %s lines and %s columns do not come %s ranges of %s lines and %s columns'%(a+('before' if a<b else 'after',)+b); break
        if bad: break
    rep.ok('order[%s]'%name,not bad,'%s results: %s'%(name,bad),'range')
    return seq
def lam_field(lam,i):
    """how the value and the two ends are found in what the tree's own search returns"""
def tree_rule(W,rep):
    I,o,mk_,cache=W.enter('active'); n=len(I.events)
    try: c=W.P.cls('RangeTree')
    except Exception: raise Anchor('class RangeTree not found')
    m=[x for x in c['m'] if x.get('n')==SEARCH]
    if len(m)!=1: raise Anchor('method RangeTree.search not found')
    t=mk('Param','tree'); Q=mk('Param','query')
    f=I.prop(t,SEARCH,[c['id'],m[0]['id']])
    ret=I.apply(f,[Q],{'l':0},this=t)
    if ret is None or ret.op!='JObj': raise Anchor('RangeTree.search does not return an object made there')
    rep.entries.append('RangeTree.search'); rep.analyzed|=set('ide/src/%s'%x for x in I.analyzed)
    q0,q1=mk('FirstOf',Q),mk('Nth',Q,Int(1))
    ks=set(I.keyof(k) for k in ()) if False else None
    C={}
    for k in PARTS:
        v=I.hget(ret,k)
        if not rep.ok('part[%s]'%k,v is not None,'a query has no list of %s results'%k): return
        v=I.freeze(v); s=sort_rule(rep,k,v)
        if not rep.ok('sorted[%s]'%k,s is not None,'the %s results are not sorted: %s'%(k,pp(v)[:160]),'range'): s=v
        if not rep.ok('rows[%s]'%k,s.op=='Seq','the %s results are %s'%(k,pp(s)[:200])): return
        for bs,g,x in s.a:
            g=noexc(g)
            if not sat(g): continue
            if not rep.ok('row[%s]'%k,len(bs)==1 and bs[0].a[0].op=='Call' and bs[0].a[0].a[0]=='.search','a %s result does not stem from the interval tree\'s search'%k,'range'): return
            call=bs[0].a[0]; E=mk('Elem',*bs[0].a)
            rep.ok('queried',call.a[2] is Q,'the interval tree is queried with %s'%pp(call.a[2])[:100],'range')
            lam=call.a[3] if len(call.a)>3 else None
            if not rep.ok('result-map',lam is not None and lam.op=='Lam','the interval tree is searched without mapping its results','range'): return
            val,low,high=mk('CbArg','.search',0),mk('Field',mk('CbArg','.search',1),'low'),mk('Field',mk('CbArg','.search',1),'high')
            paths={y:p for p,y in lampaths(lam.a[0],E)}
            V,lo,hi=[paths.get(y) for y in(val,low,high)]
            if not rep.ok('result-map',None not in(V,lo,hi),'the interval tree\'s results carry no %s'%[n for n,y in zip(('value','low','high'),(V,lo,hi)) if y is None],'range'): return
            C.setdefault((k,bs),[]).append((g,x,V,lo,hi,bs))
            r=fields_of(x) if x.op=='Agg' else {}
            rep.ok('value[%s]'%k,r.get('value') is V,'a %s result has the value %s'%(k,pp(r.get('value',x))[:80]),'range')
            rg=r.get('range'); ok=rg is not None and rg.op=='Agg'
            for end,y in(('start',lo),('end',hi)):
                w=fields_of(rg).get(end) if ok else None
                p=fields_of(w) if w is not None and w.op=='Agg' else {}
                okk=True
                for fld,vs in(('line','line'),('column','character')):
                    z=p.get(fld)
                    okk&=z is not None and z.op=='Field' and z.a[1]==vs and z.a[0].op=='Call' and z.a[0].a[0].endswith('positionAt') and z.a[0].a[-1] is y
                rep.ok('range[%s,%s]'%(k,end),okk,'the %s of a %s result is %s'%(end,k,pp(w)[:120] if w is not None else 'missing'),'range')
    tot={}
    for (k,bs),l in C.items():
        g=0
        for h,*_ in l: g=lor(g,h)
        tot.setdefault(bs,{})[k]=(g,l[0])
    if not rep.ok('partition',len(tot)==1,'the results are split in an unrecognised way'): return
    d=next(iter(tot.values()))
    _,x,V,lo,hi,bs=next(iter(d.values()))[1]
    inq=land(lnot(I.less(lo,q0)),lnot(I.less(q1,hi))); around=land(lnot(I.less(q0,lo)),lnot(I.less(hi,q1)))
    ax=1
    for a,b in((lo,q0),(q1,hi)): ax=land(ax,lnot(land(I.less(a,b),I.less(b,a))))
    want=dict(contained=inq,containing=land(lnot(inq),around),overlapping=land(lnot(inq),lnot(around)))
    for k in PARTS:
        g=d.get(k,(0,))[0]; dif=land(ax,lor(land(g,lnot(want[k])),land(want[k],lnot(g))))
        rep.ok('is[%s]'%k,not sat(dif),'a stored interval [low,high] is treated as %s wrongly when %s'%(k,B.show(dif)[:500]),'range')
def lampaths(t,at):
    yield at,t
    if t.op=='Seq':
        for i,(bs,g,v) in enumerate(t.a):
            yield from lampaths(v,mk('FirstOf',at) if i==0 else mk('Nth',at,Int(i)))
    if t.op=='Agg':
        for n,v in zip(t.a[2],t.a[3:]): yield from lampaths(v,mk('Field',at,n))

# ------------------------------------------------------------ C42
def posn(t,f):
    """offset a coordinate is the position of"""
    if t.op=='Field' and t.a[1]==f and t.a[0].op=='Call' and t.a[0].a[0].endswith('positionAt'): return t.a[0].a[-1]
    return None
def span(v):
    """(start offset, end offset) of a drawn range"""
    if v.op!='Call' or v.a[0]!='new vscode.Range': return None
    if len(v.a)==5:
        o=[posn(t,f) for t,f in zip(v.a[1:],('line','character')*2)]
        if None in o or o[0] is not o[1] or o[2] is not o[3]: return None
        return o[0],o[2]
    if len(v.a)==3:
        o=[t.a[-1] if t.op=='Call' and t.a[0].endswith('positionAt') else None for t in v.a[1:]]
        return None if None in o else tuple(o)
    return None
def edge(t):
    """(range, end) whose offset this is"""
    return point(t.a[-1]) if t.op=='Call' and t.a[0].endswith('offsetAt') else None
def sorted_by(v):
    """(sequence, less(a,b)) of a sorted collection whose elements are intervals"""
    if v.op!='Call' or v.a[0] not in PERM or len(v.a)<3: return None
    if v.a[0] in('.sort','.toSorted'):
        return v.a[1],lambda a,b: ev(v.a[2].a[0],{mk('CbArg','.sort',0):a,mk('CbArg','.sort',1):b})<0
    ks=v.a[2]; l=[x for bs,g,x in ks.a] if ks.op=='Seq' else [ks]
    if len(v.a)>3 or any(k.op!='Lam' for k in l): return None
    f=lambda it: [jskey(ev(k.a[0],{mk('CbArg',v.a[0],0):it})) for k in l]
    return v.a[1],lambda a,b: f(a)<f(b)
@check('C42','lodash.sortBy and Array.sort sort as documented.','positionAt and offsetAt of a document are inverse to each other and the slice ranges are within the document.')
def C42(L,rep):
    rep.rule('The decoration drawn over the text between ranges is found, and the loop that computes it is read off as a transition: for every order of the current position, the next slice range (sorted by start) and the container it is emitted up to the range iff that lies in the container and begins after the position, and the position moves to the furthest end seen; after the loop the rest of the container is emitted. The transition is compared with this on all order types of the five offsets (the code only compares them). It runs for every container, over exactly the slice shown.')
    W0=L.ts; W=W0.view(SEARCH); I=W.I
    e=W.run(selection_handler(W),lambda I: [mk('Arg','selection event')],mode='active',name='selection change [active]'); W.account(rep,e)
    n=0
    for x in drawn(e):
        if empty(x.args[-1]): continue
        g=noexc(exl(x)); a=x.args[-1]
        rows=list(expand(seqrows(a),g,perm=False))
        if trace(W,_Null(),'',a,g,'') is not None: continue
        n+=1
        conts={}
        for bs,h,v in rows:
            s=span(v)
            if not rep.ok('range',s is not None and bs and cont(bs[0]),'a dimmed range is %s'%pp(v)[:160],x.site): continue
            conts.setdefault(bs[0],[]).append((bs[1:],h,s))
        for cb,l in conts.items(): dim(W,rep,x,cb,l,g,e)
        rep.ok('containers',len(conts)>0,'nothing is dimmed',x.site)
    rep.ok('dims',n>0,'no decoration is drawn between the slice ranges')
def cont(b):
    c=b.a[0]
    return c.op=='Field' and c.a[1]=='containers'
class _Null:
    def ok(s,*a): return bool(a[1])
def dim(W,rep,x,cb,l,g,e):
    I=W.I; E=mk('Elem',*cb.a)
    inner=[r for r in l if r[0]]; last=[r for r in l if not r[0]]
    if not rep.ok('shape',len(inner)>=1 and len(last)>=1 and len(set(r[0] for r in inner))==1 and len(inner[0][0])==1,'the dimmed ranges of a container are not made by one loop over the slice and a final range',x.site): return
    b=inner[0][0][0]; coll=b.a[0]; el=mk('Elem',*b.a)
    so=sorted_by(coll)
    if not rep.ok('sorted',so is not None,'the slice ranges are not sorted: %s'%pp(coll)[:100],x.site): return
    seq,less=so
    bad=None
    R=range(0,12)
    for a0 in R:
        for b0 in R:
            for w in(0,3,20):
                try: r=less([a0,a0+w],[b0,b0+1])
                except (Unknown,TypeError,IndexError,KeyError) as ex: bad=str(ex); break
                if (a0<b0 and not r) or (a0>b0 and r): bad='[%d,%d] and [%d,%d]'%(a0,a0+w,b0,b0+1)
    rep.ok('sorted',not bad,'the slice ranges are not sorted by their start: %s'%bad,x.site)
    # the intervals sorted are those of the slice
    pre=None; srcs=[]
    for bs,h,v in expand(seqrows(seq)) if seq.op in('Seq','Alt') else []:
        en=[edge(y) for _,_,y in v.a] if v.op=='Seq' and len(v.a)==2 else []
        if not rep.ok('intervals',len(en)==2 and None not in en and en[0][0] is en[1][0] and (en[0][1],en[1][1])==('start','end'),'the slice ranges are represented by %s'%pp(v)[:160],x.site): return
        srcs.append((bs,h,en[0][0],v))
    t=trace(W,rep,'slice',mk('Seq',*[(bs,drop(h,v),r) for bs,h,r,v in srcs]),g,x.site)
    if not rep.ok('of-slice',t is not None and t.fields=={'slice'},'the ranges left undimmed are not those of the slice',x.site): return
    # leaves of the transition
    fold=[y for r in last for y in walk(r[2][0]) if y.op=='Fold']
    if not rep.ok('fold',len(set(fold))==1,'the start of the last dimmed range is not the position after the loop',x.site): return
    P,init,step=fold[0].a[:3]
    ends={}
    for y in set(z for r in l for w in(r[2][0],r[2][1]) for z in walk(w)) | {init}:
        ed=edge(y)
        if ed and ed[0] is E: ends[ed[1]]=y
    if not rep.ok('ends','start' in ends and 'end' in ends,'the dimmed ranges do not run from the container\'s start to its end',x.site): return
    C0,C1=ends['start'],ends['end']
    filt=[(h,v) for bs,h,r,v in srcs]
    bad=None
    def env(c0,c1,p,r0,r1):
        d={C0:c0,C1:c1,P:p,el:[r0,r1],G_:g}
        for _,v in filt:
            for (_,_,y),z in zip(v.a,(r0,r1)): d[y]=z
        return d
    try:
        for c0 in range(1,3):
            for c1 in range(c0,5):
                if ev(init,{C0:c0,C1:c1})!=c0: bad=bad or 'the position starts at %s'%pp(init)[:100]
                for p in range(c0,6):
                    fe={C0:c0,C1:c1,fold[0]:p,G_:g}
                    out=[(ev(r[2][0],fe),ev(r[2][1],fe)) for r in last if evs(r[1],fe,g)]
                    if [o for o in out if o[0]<o[1]]!=([(p,c1)] if p<c1 else []) or any(o[0]>o[1] and p<=c1 for o in out): bad=bad or 'with the container [%d,%d] and the position %d at the end, %s is dimmed'%(c0,c1,p,out)
                    if p>c1: continue
                    for r0 in range(0,7):
                        for r1 in range(r0,7):
                            d=env(c0,c1,p,r0,r1)
                            inside=c0<=r0 and r1<=c1
                            pas=any(evx(h,d) for h,_ in filt)
                            out=[(ev(r[2][0],d),ev(r[2][1],d)) for r in inner if pas and evs(r[1],d,g)]
                            want=[(p,r0)] if inside and p<r0 else []
                            if [o for o in out if o[0]<o[1]]!=want or any(o[0]>o[1] for o in out): bad=bad or 'with the container [%d,%d], the position %d and the slice range [%d,%d], %s is dimmed'%(c0,c1,p,r0,r1,out)
                            nx=ev(step,d) if pas else p
                            if nx!=(max(p,r1) if inside else p): bad=bad or 'with the container [%d,%d], the position %d and the slice range [%d,%d] the position becomes %s'%(c0,c1,p,r0,r1,nx)
    except (Unknown,TypeError) as ex: bad='it cannot be evaluated: %s'%ex
    rep.ok('transition',not bad,'dimming around the slice: %s'%bad,x.site)
def drop(h,v):
    """a row's condition without what it says about the interval itself"""
    for w in support(h):
        if any(mentions(B.terms[w],y) for _,_,y in v.a): h=lor(B.cofactor(h,w,0),B.cofactor(h,w,1))
    return h
def evx(g,env):
    """condition under an assignment, conditions that do not concern the assignment's terms being true where possible"""
    for v in support(g):
        a=B.terms[v]
        if not any(mentions(a,k) for k in env if k is not G_): g=lor(B.cofactor(g,v,0),B.cofactor(g,v,1))
    return evg(g,env)
def evs(h,env,g):
    """condition under an assignment, given the condition under which anything is drawn"""
    h=restrict(h,g) if g>1 else h
    for v in support(h):
        a=B.terms[v]
        if not any(mentions(a,k) for k in env if k is not G_): raise Unknown('it depends on '+pp(a)[:60]+'...'+pp(a)[-60:])
    return evg(h,env)
