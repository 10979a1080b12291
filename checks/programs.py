"""C45: the installed programs, and the release the extension downloads."""
import os,glob,tomllib
from rules import *
from terms import *
from rules import short
from registry import check
import sym
from ts_focus import noexc,skips
from ts_ext import toml
ENDS={'cli_main':'the front-end','driver_main':'the driver'}
def packages(R):
    """{package: (version, [(bin name, crate name)])} of the packages that install programs built on rustc_plugin"""
    root=toml(R+'/Cargo.toml'); out={}
    for p in sorted(glob.glob(R+'/crates/*/Cargo.toml')):
        d=toml(p); k=d.get('package',{}); base=os.path.dirname(p)
        if not k.get('name') or 'rustc_plugin' not in d.get('dependencies',{}): continue
        v=k.get('version'); v=root.get('workspace',{}).get('package',{}).get('version') if isinstance(v,dict) else v
        names={b.get('name') for b in d.get('bin',[])}
        if k.get('autobins',True):
            have={os.path.normpath(b['path']) for b in d.get('bin',[]) if b.get('path')}
            for f in glob.glob(base+'/src/bin/*.rs')+glob.glob(base+'/src/bin/*/main.rs'):
                n=os.path.basename(f)[:-3] if not f.endswith('/main.rs') else os.path.basename(os.path.dirname(f))
                if os.path.normpath(os.path.relpath(f,base)) not in have: names.add(n)
            if os.path.exists(base+'/src/main.rs') and 'src/main.rs' not in have: names.add(k['name'])
        out[k['name']]=(v,sorted(names))
    return out
def lit(x):
    """the constant text of x, or None"""
    if x.op=='Str': return x.a[0]
    if x.op=='Agg' and last(str(x.a[0])) in('Cow','String') and len(x.a)>3: return lit(x.a[3]) if len(x.a)==4 else None
    if x.op=='Fmt': return lit(x.a[1])
    if x.op!='Call': return None
    n=last(str(x.a[0])); a=x.a[1:]
    if n in('join','concat') and a and a[0].op=='Agg':
        ps=[lit(y) for y in a[0].a[3:]]; d='' if n=='concat' else lit(a[1])
        return None if d is None or None in ps else d.join(ps)
    if n=='format' and a and a[0].op=='FmtArgs':
        z=[y.a[3:] if y.op=='Agg' else None for y in a[0].a[:2]]
        if None in z: return None
        ls,vs=[[lit(y) for y in w] for w in z]
        if None in ls or None in vs or len(ls) not in(len(vs),len(vs)+1): return None
        return ''.join(l+(vs[i] if i<len(vs) else '') for i,l in enumerate(ls))
    return None
def strings(R,t):
    """the texts t may be, as (constant or None, term)"""
    return [(lit(x),x) for g,x in split(R.norm(t)) if sat(g)]
def plugin_of(t):
    return t.a[0] if t.op=='Agg' else None
@check('C45','rustc_plugin 0.14: cli_main runs cargo with the program driver_name beside its own executable as RUSTC_WORKSPACE_WRAPPER, prints version for -V, and OnlyWorkspace and AllCrates cover every workspace crate.',
 'Cargo runs cargo-X for cargo X and passes X as the first argument; Parser::parse_from skips the first element it is given.',
 'AdmZip.extractAllTo(d, true) replaces files; fs.chmod takes an octal string.')
def C45(L,rep):
    rep.rule('The main function of every program of a package that depends on rustc_plugin is evaluated: on every path it must call cli_main (cargo-*) or driver_main (others) exactly once, with the plug-in of its package. driver_name, version and args of each plug-in are evaluated: the name must be that of a driver program of the same package running the same plug-in, the version the package\'s, the filter all crates of the workspace (or the crate that contains the file asked about), the arguments those after the first. In the extension\'s activation, everything extracted must go, replacing, to the bin directory under CARGO_HOME or ~/.cargo, and each program of the downloaded package must afterwards be made executable under its platform\'s name.')
    pk=packages(L.repo); ran={}; kinds={}
    for n,(v,bins) in pk.items():
        for b in bins:
            R=L.rust.run(rep,'main',b.replace('-','_'))
            st=[e for e in R.nevents if e.path.startswith('rustc_plugin::') and last(e.name) in ENDS]
            if not rep.ok('starts[%s]'%b,bool(st),'%s never hands over to rustc_plugin'%b): continue
            want='cli_main' if b.startswith('cargo-') else 'driver_main'
            for e in st:
                rep.ok('kind[%s]'%b,last(e.name)==want and not e.loops,'%s starts %s'%(b,ENDS[last(e.name)]),e.site)
                p=plugin_of(e.args[0]) if e.args else None
                rep.ok('plugin[%s]'%b,p is not None,'%s runs %s'%(b,short(e.args[0]) if e.args else 'nothing'),e.site)
                ran.setdefault(n,{}).setdefault(b,set()).add(p)
            g=0
            for e in st: g=lor(g,e.guard)
            rep.ok('always[%s]'%b,R.covered(g),'%s does nothing when %s'%(b,gshow(lnot(g))),st[0].site)
    rep.ok('packages',len(pk)>=2 and all(len(b)>=2 for v,b in pk.values()),'programs found: %s'%', '.join('%s: %s'%(n,' '.join(b)) for n,(v,b) in pk.items()))
    files=None
    for n,(v,bins) in pk.items():
        ps=set().union(*ran.get(n,{}).values()) if ran.get(n) else set()
        if not rep.ok('one-plugin[%s]'%n,len(ps)==1 and None not in ps,'the programs of %s run different analyses'%n): continue
        P=last(next(iter(ps))); drv=[b for b in bins if not b.startswith('cargo-')]
        D=L.rust.run(rep,'driver_name',impl=P)
        for c,x in strings(D,D.ret): rep.ok('driver-name[%s]'%n,c in drv,'cargo runs the driver %s, the package installs %s'%(short(x),', '.join(drv)))
        V=L.rust.run(rep,'version',impl=P)
        for c,x in strings(V,V.ret): rep.ok('version[%s]'%n,c==v,'the reported version is %s, the version of the package is %s'%(short(x),v))
        A=L.rust.run(rep,'args',impl=P); got=0
        for g,x in split(A.norm(A.ret)):
            if not sat(g): continue
            if not rep.ok('args[%s]'%n,x.op=='Agg' and last(x.a[0])=='RustcPluginArgs','the arguments of the plug-in are %s'%short(x)): continue
            f=fields_of(x)
            for h,y in split(f['filter'],g):
                if not sat(h): continue
                k=y.a[1] if y.op=='Agg' and len(y.a)>1 else None
                name=k if k in('AllCrates','OnlyWorkspace','CrateContainingFile') else next((z for z in('AllCrates','OnlyWorkspace','CrateContainingFile') if y.op=='Agg' and z in str(y.a[:2])),None)
                files_=[z for h2,z in split(mk('L',y),h) if sat(h2)] if name=='CrateContainingFile' else []
                if name=='CrateContainingFile':
                    ok=bool(files_)
                    for z in files_:
                        w=z.a[0]
                        arg=w.a[-1] if w.op=='Agg' else None
                        while arg is not None and arg.op=='Call' and len(arg.a)==2 and last(arg.a[0]) in('from','new','into','clone','to_owned','to_path_buf','as_str'): arg=arg.a[1]
                        ok=ok and arg is not None and arg.op in('VField','Field') and arg.a[-1]=='file' and any(q.op=='Call' and last(q.a[0])=='parse_from' for q in walk(arg))
                    rep.ok('filter[%s]'%n,ok,'the crate analysed is that of %s, which is not the file asked about'%short(y,160))
                else: rep.ok('filter[%s]'%n,name in('AllCrates','OnlyWorkspace'),'the crates analysed are %s'%short(y,120))
        for e in A.nevents:
            if last(e.name) in('parse_from','try_parse_from','parse'):
                rep.ok('arguments[%s]'%n,last(e.name)!='parse' and after_first(e.args[0]),'the arguments parsed are %s'%(short(e.args[0],160) if e.args else 'all, including the name of the subcommand'),e.site)
    release(L,rep,pk.get('flowistry_ide'))
def after_first(t):
    """all arguments of the process but the first"""
    if t.op!='Seq' or len(t.a)!=1: return False
    bs,g,v=t.a[0]
    if len(bs)!=1 or v.op!='Elem' or v.a[0] is not bs[0].a[0] or not(v.a[0].op=='Call' and last(v.a[0].a[0]) in('args','args_os')): return False
    s=[B.terms[x] for x in B.support(g)]
    return len(s)==1 and s[0].op=='Take' and s[0].a[0]=='skip' and (s[0].a[1] is Int(1) or s[0].a[1]==1) and g==atom(s[0])
def release(L,rep,pkg):
    if not rep.ok('downloaded-package',pkg is not None,'flowistry_ide installs no programs'): return
    W=L.ts; W.activate(); evs=W._act; WIN=atom(mk('Eq',mk('Ext','process.platform'),Str('win32')))
    ext=[x for x in evs if x.kind=='ext' and x.name.split('.')[-1] in('extractAllTo','extractAllToAsync')]
    if not rep.ok('extracted',bool(ext),'no release is extracted during activation'): return
    home=mk('Ext','process.env.CARGO_HOME')
    def bindir(t):
        """the directory cargo finds programs in, on every path"""
        c=0; d=0
        for h,x in altsplit(t):
            if not(x.op=='Call' and x.a[0]=='path.join'): return False
            p=[y for y in x.a[1:]]
            while p and p[0].op=='Call' and p[0].a[0]=='path.join': p=list(p[0].a[1:])+p[1:]
            s=[y.a[0] if y.op=='Str' else y for y in p]
            if s==[home,'bin']: c=lor(c,h)
            elif len(s)==3 and s[1:]==['.cargo','bin'] and isinstance(s[0],T) and s[0].op in('Call','Ext') and 'homedir' in pp(s[0]): d=lor(d,h)
            else: return False
        t_=atom(mk('Truthy',home))
        return implies(t_,c) and not sat(land(c,lnot(t_))) and implies(lnot(t_),d)
    for x in ext:
        rep.ok('directory',len(x.args)>1 and bindir(x.args[1]),'programs are extracted to %s, where cargo may not find them'%pp(x.args[1])[:200],x.site)
        over=x.args[2] if len(x.args)>2 else Bool(0)
        rep.ok('replaces',over.op=='Bool' and over.a[0]==1,'programs of an earlier version are not replaced',x.site)
        done=noexc(x.guard)
        for b in pkg[1]:
            plain=exe=0
            for y in evs:
                if y.kind!='ext' or y.name.split('.')[-1] not in('chmod','chmodSync') or y.seq<x.seq or skips(y): continue
                try: ok=int(y.args[1].a[0],8) if y.args[1].op=='Str' else y.args[1].a[0]
                except (ValueError,TypeError,AttributeError,IndexError): continue
                if not isinstance(ok,int) or ok&0o500!=0o500: continue
                p=y.args[0]
                for h,q in altsplit(p,noexc(y.guard)):
                    if not(q.op=='Call' and q.a[0]=='path.join' and len(q.a)>=3): continue
                    d=q.a[1] if len(q.a)==3 else mk('Call','path.join',*q.a[1:-1])
                    name=text(q.a[-1])
                    if not any(d is z for h2,z in altsplit(x.args[1],h)): continue
                    if name==b: plain=lor(plain,h)
                    elif name==b+'.exe': exe=lor(exe,h)
            m=lor(land(land(done,lnot(WIN)),lnot(plain)),land(land(done,WIN),lnot(lor(exe,1))))
            rep.ok('executable[%s]'%b,not sat(m),'the program %s of a downloaded release is not made executable'%b,x.site)
            rep.ok('platform-name[%s]'%b,not sat(land(land(exe,lnot(WIN)),done)) and not sat(land(land(plain,WIN),done)),'%s is looked for under the name of another platform'%b,x.site)
def altsplit(t,g=1):
    """[(condition, t with every choice in it decided)]"""
    out=[]; todo=[(t,g)] if sat(g) else []; n=400
    while todo:
        t,g=todo.pop(); n-=1
        if n<0: raise Anchor('too many choices in a value')
        a=next((x for x in walk(t) if x.op=='Alt'),None)
        if a is None: out.append((g,t)); continue
        for h,y in a.a:
            k=land(g,h)
            if not sat(k): continue
            k=gsubst(k,{a:y})
            if sat(k): todo.append((subst(t,{a:y}),k))
    return out
def text(t):
    if t.op=='Str': return t.a[0]
    if t.op=='Tpl' and all(x.op=='Str' for x in t.a): return ''.join(x.a[0] for x in t.a)
    return None
