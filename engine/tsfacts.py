"""The extension's sources as an evaluated program: activation, the commands and handlers it registers, and evaluations of each."""
import os,json,hashlib,subprocess,fcntl
import tsym
from tsym import *
from rules import Anchor
ED=mk('Ext','vscode.window.activeTextEditor')
MODES=('idle','active','unsaved','error','loading','notfound')
def sources(repo):
    out=[]
    for d,ds,fs in os.walk(repo+'/ide/src'):
        ds[:]=[x for x in ds if x not in('node_modules','tests','.git')]
        out+=[os.path.join(d,f) for f in fs if f.endswith('.ts')]
    return sorted(out)
def load(REPO,BUILD,V):
    os.makedirs(BUILD,exist_ok=True)
    src=sources(REPO)
    if not src: raise Anchor('no TypeScript sources under ide/src')
    with open(BUILD+'/lock.ts','w') as lk:
        fcntl.flock(lk,fcntl.LOCK_EX)
        h=hashlib.sha256()
        for p in src+[V+'/engine/tsdump.cjs']: h.update(os.path.relpath(p,'/').encode()+b'\0'+open(p,'rb').read())
        h=h.hexdigest(); out=BUILD+'/ts.json'; st=BUILD+'/ts.stamp'
        if not(os.path.exists(out) and os.path.exists(st) and open(st).read()==h):
            r=subprocess.run(['node',V+'/engine/tsdump.cjs',REPO+'/ide/src',out],capture_output=True,text=True)
            if r.returncode: raise Anchor('the extension sources cannot be read: '+r.stderr[-500:])
            open(st,'w').write(h)
        w=World(tsym.load(out),len(src)); w.repo=REPO; return w
class Entry:
    """one evaluation from a handler's entry"""
    def __init__(s,w,name,ret,n0): s.w=w; s.name=name; s.ret=ret; s.I=w.I; s.events=w.I.events[n0:]; s.n0=n0; s.g=w.I.g
    def ext(s,*names): return [e for e in s.events if e.kind=='ext' and e.name in names]
    def stores(s,o,k): return [e for e in s.events if e.kind=='store' and e.raw[0] is o and e.raw[1]==Str(k)]
class World:
    def __init__(s,prog,nfiles,opaque=()):
        s.opaque=opaque; s._views={}; s.P=prog; s.nfiles=nfiles; s._act=None; s._focus=None
    def view(s,*opaque):
        """the same program with these functions left uninterpreted"""
        if opaque not in s._views: s._views[opaque]=World(s.P,s.nfiles,opaque); s._views[opaque].repo=s.repo
        return s._views[opaque]
    def fresh(s,opaque=()):
        I=Interp(s.P,opaque); I.entry_state(); return I
    def fn(s,I,name):
        d=s.P.export(name); return I.cells[I.mod[d]]
    # ---- activation
    @property
    def I(s): s.activate(); return s._I
    def activate(s):
        """evaluates activate(context); then the state handlers start from"""
        if s._act is not None: return s._act
        try: d=s.P.export('activate','extension')
        except TSError as ex: raise Anchor(str(ex))
        I=s._I=Interp(s.P,s.opaque); I.entry_state(); n=len(I.events)
        I.apply(I.cells[I.mod[d]],[mk('Arg','context')],{'l':0})
        s._act=I.events[n:]; s.actawaits=list(I.awaits)
        s.commands=[]
        for e in s._act:
            if e.kind=='ext' and e.name=='vscode.commands.registerCommand': s.commands.append((e.args[0],e.raw[1],e))
        s.handlers=[(e.name[len('vscode.'):],e.raw[0],e) for e in s._act if e.kind=='ext' and e.name.startswith('vscode.') and '.onDid' in e.name]
        I.entry_state(); I.g=1; I.loops=[]; I.ctx=tsym.Ctx_('top',0,None); I.fr=None
        s.base=I.snap()
        return s._act
    def command(s,name):
        s.activate()
        l=[f for t,f,e in s.commands if t.op=='Str' and t.a[0]==name]
        if len(l)!=1 or l[0].op!='Fn': raise Anchor('expected one registration of the command %s, found %d'%(name,len(l)))
        return l[0]
    def handler(s,name):
        s.activate()
        l=[f for n,f,e in s.handlers if n==name]
        if len(l)!=1 or l[0].op!='Fn': raise Anchor('expected one handler of %s, found %d'%(name,len(l)))
        return l[0]
    def focus(s):
        """(object that holds focus mode's state, key of its mode, keys of its caches)"""
        if s._focus is None:
            f=s.handler('workspace.onDidChangeTextDocument'); I=s.I
            o=s.holder(f)
            h={k[1]:I.simp(v) for k,v in I.heap.of(o)}
            mode=[k for k,v in h.items() if v.op=='Str' and v.a[0] in MODES]
            cache=[k for k,v in h.items() if I.kind.get(v)=='map']
            if len(mode)!=1 or not cache: raise Anchor('the state of focus mode cannot be identified: mode fields %s, cache fields %s'%(mode,cache))
            s._focus=(o,mode[0],cache)
        return s._focus
    def holder(s,f):
        I=s.I; node,env,this,file=I.fns[f]
        if this in I.cls: return this
        # the handler may be made elsewhere: an instance its environment holds
        e=env; c=[]
        while e is not None:
            c+=[I.cells[x] for x in e[1].values() if I.cells.get(x) in I.cls]; e=e[0]
        c=list(dict.fromkeys(c))
        if len(c)!=1: raise Anchor('the object behind the change handler cannot be identified')
        return c[0]
    def enter(s,mode=None,keep=()):
        """the state in which a handler can start: any cached results, this mode"""
        I=s.I; I.restore(s.base); o,mk_,cache=s.focus()
        for k,v in I.heap.of(o):
            if k[1] not in(mk_,) and v.op not in('Fn',) and not k[1].startswith('<'):
                if k[1] in cache:
                    m=v
                    for q in [q for q,_ in I.heap.of(m) if q[1].startswith('<k>')]: del I.heap[q]
                    I.cleared[m]=[]
                elif v.op not in('Int',): I.heap[k]=mk('Field',o,k[1])
        if mode is not None: I.heap[(o,mk_)]=Str(mode)
        else: I.heap[(o,mk_)]=mk('Field',o,mk_)
        I.loops=[]; I.ctx=tsym.Ctx_('top',0,None); I.fr=None; I.stack=[]; I.awaits=[]; I.care=1
        return I,o,mk_,cache
    def run(s,f,args=(),mode=None,hook=None,name=''):
        I,o,mk_,cache=s.enter(mode)
        n=len(I.events); I.hook=hook
        if callable(args): args=args(I)
        r=I.apply(f,list(args),{'l':0}); I.hook=None
        return Entry(s,name,r,n)
    def account(s,rep,e=None):
        rep.analyzed|=set('ide/src/%s'%x for x in s.I.analyzed); n=len(e.events) if e else len(s._act); rep.ncalls+=n; rep.nev+=n
        if e: rep.entries.append(e.name)
    def cur(s,e,k):
        o=s.focus()[0]
        v=e.I.hget(o,k)
        return v if v is not None else mk('Field',o,k)
def text(I,t):
    """strings a value can be: [(guard,str)] or None where not a literal"""
    return [(g,x.a[0] if x.op=='Str' else None,x) for g,x in alts(t)]
