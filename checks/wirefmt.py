"""C29: the requests and replies exchanged by the editor extension and the driver."""
from registry import check
from rules import *
import wire
from plugin import Driver
from analysis import core
import driver as DR
from tsfacts import ED
import ts_ext as X
from ts_focus import leaves
support=B.support
VS=lambda n: TM.ENUMVARS.get(n)
# ------------------------------------------------------------ JSON shapes: Rust
CHARPOS=('obj',{'line':('num',),'column':('num',)})
EXTERNAL={'rustc_utils::source_map::range::CharRange':('obj',{'start':CHARPOS,'end':CHARPOS,'filename':('str',)}),'rustc_utils::source_map::range::CharPos':CHARPOS,
 'rustc_utils::source_map::range::ByteRange':('obj',{'start':('obj',{}),'end':('obj',{}),'filename':('str',)})}
NUM={'usize','u8','u16','u32','u64','u128','isize','i8','i16','i32','i64','i128','f32','f64'}
ARR=('Vec','VecDeque','HashSet','BTreeSet','FxHashSet','IndexSet','SmallVec','LinkedList')
WRAP=('Box','Rc','Arc','Cow','Cell','RefCell','Reverse','Mutex')
def targs(s):
    """arguments between < and > of a type's name, or the members of a tuple"""
    out=[];d=0;c=''
    for ch in s:
        if ch in'<([': d+=1
        elif ch in'>)]': d-=1
        if ch==',' and d==0: out.append(c.strip()); c=''
        else: c+=ch
    if c.strip(): out.append(c.strip())
    return out
def rshape(L,ty,seen=()):
    """how serde_json writes a value of the type"""
    ty=re.sub(r"^(&('\w+ )?(mut )?)+",'',ty.strip())
    if ty in NUM: return('num',)
    if ty in('bool',): return('bool',)
    if ty in('str','char') or ty.endswith('string::String'): return('str',)
    if ty=='()': return('null',)
    if ty.startswith('('): return('tuple',[rshape(L,x,seen) for x in targs(ty[1:-1])])
    if ty.startswith('['): return('array',rshape(L,ty[1:-1].split(';')[0],seen))
    m=re.match(r'([\w:]+)(<(.*)>)?$',ty)
    if not m: return('unknown',ty)
    h=m.group(1); a=[x for x in targs(m.group(3) or '') if not x.startswith("'")]
    n=h.split('::')[-1]
    if h in EXTERNAL: return EXTERNAL[h]
    if n in ARR and a: return('array',rshape(L,a[0],seen))
    if n in WRAP and a: return rshape(L,a[0],seen)
    if n=='Option' and a: return('opt',rshape(L,a[0],seen))
    if n in('HashMap','BTreeMap','FxHashMap','IndexMap') and len(a)>1: return('map',rshape(L,a[1],seen))
    A=L.rust.prog.adts.get(h)
    if A is None or h in seen: return('unknown',ty)
    vs=A['vs']
    if len(vs)==1 and not A.get('enum'):
        R,o=wire.ser(L,h)
        fs=dict(vs[0][1])
        for g,s in o:
            if wire.io_ok(g)!=1 and len(o)>1: continue
            if s[0]=='struct':
                out={}
                for k,(t,gg) in s[1].items():
                    f=t
                    while f.op in('Ref','Box'): f=f.a[0]
                    if f.op=='Field' and f.a[0] is R.params[0] and f.a[1] in fs: x=rshape(L,fs[f.a[1]],seen+(h,))
                    else: x=('unknown',short(t))
                    out[k]=x if wire.io_ok(gg)==1 else('opt',x)
                return('obj',out)
            if s[0]=='transparent' and len(fs)==1: return rshape(L,list(fs.values())[0],seen+(h,))
    return('unknown',ty)
# ------------------------------------------------------------ JSON shapes: TypeScript
def tres(W,t,env):
    """a type with names resolved: (type, environment of type parameters)"""
    n=0
    while t['k']=='ref' and n<50:
        n+=1
        if t['n'] in env: t,env=env[t['n']]; continue
        d=W.P.types.get(t['d'] or '')
        if d is None: return t,env
        env={p:(a,env) for p,a in zip(d['tp'],t['a'])}; t=d['t']
    return t,env
def tshow(t):
    k=t['k']
    return {'array':lambda:tshow(t['e'])+'[]','tuple':lambda:'[...]','ref':lambda:t['n'],'lit':lambda:repr(t['v']),'kw':lambda:t['n'],'obj':lambda:'{'+', '.join(m['n'] for m in t['m'])+'}'}.get(k,lambda:k)()
def agrees(W,t,env,s,path,out):
    """every value of JSON shape s has the TypeScript type t; disagreements are collected"""
    t,env=tres(W,t,env); k=t['k']; ok=False
    if k=='kw' and t['n'] in('any','unknown'): return
    if k=='union':
        if s[0]=='opt':
            rest=[x for x in t['e'] if not null(tres(W,x,env)[0])]
            if len(rest)==len(t['e']): out.append((path,'may be null but is read as '+tshow(t))); return
            s=s[1]; t=dict(k='union',e=rest)
        c=[]
        for x in t['e']:
            o=[]; agrees(W,x,env,s,path,o)
            if not o: return
            c.append(o)
        out+=min(c,key=len) if c else [(path,'is read as nothing')]; return
    if s[0]=='opt': out.append((path,'may be null but is read as '+tshow(t))); return
    if s[0]=='unknown': out.append((path,'is written as %s, of unknown form'%s[1])); return
    if k=='ref' and t['n'] in('Array','ReadonlyArray') and t['a']: k='array'; t=dict(k='array',e=t['a'][0])
    if k=='ref' and t['n'] in('Readonly','Partial','Required') and t['a']: return agrees(W,t['a'][0],env,s,path,out)
    if k=='array' and s[0]=='array': return agrees(W,t['e'],env,s[1],path+'[]',out)
    if k=='array' and s[0]=='tuple':
        for x in s[1]: agrees(W,t['e'],env,x,path+'[]',out)
        return
    if k=='tuple' and s[0]=='tuple' and len(t['e'])==len(s[1]):
        for i,(x,y) in enumerate(zip(t['e'],s[1])): agrees(W,x,env,y,'%s[%d]'%(path,i),out)
        return
    if k=='kw' and (t['n'],s[0]) in(('number','num'),('string','str'),('boolean','bool'),('null','null')): return
    if k=='obj' and s[0]=='obj':
        for m in t['m']:
            if m['n'] in s[1]:
                v=s[1][m['n']]
                agrees(W,m['t'],env,v[1] if m['o'] and v[0]=='opt' else v,path+'.'+m['n'],out)
            elif not m['o']: out.append((path+'.'+m['n'],'is read but never written'))
        for x in t.get('ext') or []: agrees(W,x if isinstance(x,dict) else dict(k='ref',n=str(x),d=x,a=[]),env,s,path,out)
        return
    if k=='inter' or k=='intersection':
        for x in t['e']: agrees(W,x,env,s,path,out)
        return
    out.append((path,'is written as %s but read as %s'%(s[0],tshow(t))))
def null(t): return (t['k']=='kw' and t['n'] in('null','undefined')) or (t['k']=='lit' and t.get('v') is None)
def tagged(W,tag,names):
    """object types of the sources whose member `tag` is one of these literals: name -> [type]"""
    out={}
    def w(t):
        if isinstance(t,list):
            for x in t: w(x)
        elif isinstance(t,dict):
            if t.get('k')=='obj':
                for m in t.get('m',[]):
                    if m.get('n')==tag and m['t'].get('k')=='lit' and m['t'].get('v') in names: out.setdefault(m['t']['v'],[]).append(t)
            for x in t.values(): w(x)
    for d in W.P.types.values(): w(d['t'])
    return out
# ------------------------------------------------------------ requests
def meaning(t):
    """(what an argument of a request is, where it is taken from)"""
    def strip(t):
        while True:
            if t.op=='Call' and t.a[0] in('String','.toString','Number') and len(t.a)==2: t=t.a[1]
            elif t.op=='Tpl' and len([x for x in t.a if x is not Str('')])==1: t=[x for x in t.a if x is not Str('')][0]
            else: return t
    t=strip(t)
    if t.op in('Ext','Call') and isinstance(t.a[0],str) and len(t.a)==1 and '.' in t.a[0]:
        p=t.a[0].split('.')
        if p[-1] in('toString','valueOf') and t.op=='Call': p=p[:-1]
        return p[-1],'.'.join(p[:-1])
    if t.op=='Field': return t.a[1],pp(t.a[0])
    if t.op=='Call': return t.a[0].split('.')[-1],pp(t)
    if t.op=='Str': return 'literal',t.a[0]
    return t.op,pp(t)
ROLE={'fileName':'file','fsPath':'file','path':'file','line':'line','character':'column','column':'column','offsetAt':'offset'}
def roles(terms,f):
    """what the driver takes a field of the command to be"""
    out=set()
    for t in terms:
        for x in walk(t):
            if x.op=='Agg':
                n=x.a[0].split('::')[-1]
                for k,v in fields_of(x).items():
                    c=core(v)
                    if n=='CharPos' and k in('line','column') and mentions(c,f): out.add(k if c is f else 'changed '+k)
                    if k in('filename','file','file_name','path') and mentions(c,f): out.add('file')
            elif x.op=='Call' and x.a[0].endswith('Filename::intern') and mentions(x,f): out.add('file')
    return out
def commands(L,rep):
    """subcommand -> (variant, [(position, field, argument)]) accepted by the driver's command line"""
    AS=wire.one(wire.derived(L,'Subcommand','FlowistryCommand','augment_subcommands'),'command line of the commands'); R0=wire.run(L,AS)
    C=wire.clap_cmd(R0.norm(R0.ret))
    FR=wire.run(L,wire.one(wire.derived(L,'FromArgMatches','FlowistryCommand','from_arg_matches_mut'),'reader of the commands'))
    rep.entries+=[AS['path'],'FlowistryCommand::from_arg_matches_mut']; rep.ncalls+=R0.I.ncalls+FR.I.ncalls; rep.nev+=len(FR.events); rep.analyzed|=R0.I.analyzed|FR.I.analyzed
    out={}
    vals=[(g,fields_of(v)['0']) for h,w in alts(FR.norm(FR.ret)) for g,v in split(w,h) if v.op=='Agg' and v.a[1]=='Ok']
    for n,c in C['subs'].items():
        hit=[]
        for g,v in vals:
            at=[t for t in B.atoms(g) if t.op=='Eq' and any(y is Str(n) for y in t.a)]
            if v.op=='Agg' and any(implies(g,atom(t)) for t in at): hit.append(v)
        pos=[a for a in c['args'] if a['pos']]
        fs=[]
        for a in pos:
            f=[k for v in hit for k,t in fields_of(v).items() if core(wire.core_call(t) or t).op=='Call' and wire.core_call(t).a[0] in('ArgMatches::remove_one','ArgMatches::get_one') and wire.core_call(t).a[2] is Str(a['id'])]
            fs.append((f[0] if len(set(f))==1 else None,a))
        out[n]=(hit[0].a[1] if len(hit)==1 else None,fs,c)
    return out
def numeric(a): return a['parser'] is not None and a['parser'].op=='Call' and a['parser'].a[0]=='_impls_FromStr::value_parser'
def required(a): return a['required'] is True or (isinstance(a['required'],T) and (a['required'] is Bool(1) or a['required'].op!='Bool'))
def adts_in(ty): return re.findall(r'flowistry\w*(?:::\w+)+',ty)
def result_type(L,p0):
    """the type of a value computed by the driver: named by the function that computes it, or the field it is stored in"""
    A=L.rust.prog.adts; out=set()
    def ser_(n): return n in A and n.split('::')[-1]!='FlowistryError' and bool(wire.derived(L,'Serialize',n,'serialize'))
    read={(y,x.a[1]) for x in walk(p0) if x.op=='Field' for y in walk(x.a[0]) if y.op=='Agg'}
    for x in walk(p0):
        if x.op=='FnItem':
            b=L.rust.prog.bodies.get(str(x.a[0]))
            if b is not None: out|={n for n in adts_in(str(b['locals'][0])) if ser_(n)}
        elif x.op=='Agg':
            for p,d in A.items():
                if not p.startswith('flowistry') or last(p)!=last(x.a[0]): continue
                for v,fs in d['vs']:
                    if tuple(k for k,_ in fs)!=x.a[2]: continue
                    if x is core(p0) and ser_(p): return {p}
                    for k,ty in fs:
                        if (x,k) in read: out|={n for n in adts_in(ty) if ser_(n)}
    return out
@check('C29','serde writes a CharRange as start, end (each line, column) and filename; clap fills positional arguments in the order they are declared.','Node decodes standard base64; gunzip and JSON.parse invert gzip and serde_json.')
def C29(L,rep):
    rep.rule('Every request of the extension (all its commands, focus mode, activation) is compared with the driver\'s derived command line: the subcommand exists, takes as many positional arguments, numbers where numbers are parsed, and each argument (file, line, column) reaches the driver\'s field of that meaning unchanged. The reply\'s TypeScript type is compared structurally with what the derived serialisers write; error tags and their fields likewise; both sides apply the same codecs and unwrap the same Result.')
    W=L.ts; W.activate(); W.account(rep,None); rep.entries.append('activate'); I=W.I
    D=Driver(L,rep); R=D.R; pa=R.params[2]; cmdv=field(pa,'command'); CV=VS('FlowistryCommand')
    if not CV: raise Anchor('the driver\'s commands were not found')
    cs=commands(L,rep)
    rep.ok('commands',len(cs)>=3 and {v for v,_,_ in cs.values()}>=set(CV)-{None},'not every command of the driver is selected by its subcommand: %s'%', '.join('%s->%s'%(k,v[0]) for k,v in cs.items()))
    # the command survives the way from cargo-flowistry to the driver
    S,sh=wire.ser(L,'FlowistryCommand'); dk=wire.de_keys(L,'FlowistryCommand')
    for v in CV:
        nm=[x[1] for g,x in sh if x[0] in('unit','svariant','newtype','struct_variant') and sat(land(g,is_variant(S.params[0],v,CV)))]
        rep.ok('passed[%s]'%v,len(nm)==1 and nm[0] in dk,'the command %s is not passed on to the driver'%v)
    # what the driver does with each field
    used={}; comp={}
    for e in D.comp:
        cb=D.cb(e); terms=list(e.args)
        AR=D.method(rep,cb,'after_analysis')
        if AR is not None: terms+=[a for x in AR.nevents for a in x.args]
        for v in CV:
            if sat(land(e.guard,is_variant(cmdv,v,CV))): used.setdefault(v,[]).extend(terms); comp.setdefault(v,[]).append((e,cb,AR))
    # requests
    req=[]
    def collect(evs,where):
        for e in evs:
            if e.kind=='ext' and e.name.endswith('.call_flowistry'): req.append((e,e.args[1:],where))
    runs=list(X.entries(W))
    for name,f,a in runs:
        e=W.run(f,a(W.I),mode=None,name=name); W.account(rep,e); collect(e.events,name)
    for t,f,ce in W.commands:
        e=W.run(f,[],mode=None,name=pp(t)); W.account(rep,e); collect(e.events,pp(t))
    collect(W._act,'activation')
    # also calls made while activating through the stored function itself
    cf=X.caller(W)
    seen={}
    for e,args,where in req: seen.setdefault((tuple(args),str(e.ta)),(e,where))
    words={}
    for (args,_),(e,where) in seen.items():
        for g,a in alts(args[0]):
            rows=X.argrows(a)
            if not rep.ok('request',rows is not None and len(rows)>0 and all(not bs and h==1 for bs,h,v in rows),'the arguments of a request are not known: %s'%pp(a)[:160],e.site): continue
            vs=[v for bs,h,v in rows]
            if not rep.ok('word',vs[0].op=='Str','a request for an unknown command: %s'%pp(vs[0])[:120],e.site): continue
            w=vs[0].a[0]; words.setdefault(w,[]).append((e,vs[1:],args[1] if len(args)>1 else None))
    pre=[s for s in X.spawns(W._act) if X.is_driver(s)]
    for s in pre:
        ws=s.words; rest=ws[ws.index('flowistry')+1:]
        if not rest or rest[0].startswith('-'): continue
        words.setdefault(rest[0],[]).append((s.e,[Str(x) for x in rest[1:]],None))
    rep.ok('requests',{'focus','spans'}<=set(words) or len(words)>=3,'fewer than three kinds of request found: %s'%', '.join(words))
    for w,l in sorted(words.items()):
        if not rep.ok('accepted[%s]'%w,w in cs,'the driver has no command %s'%w,l[0][0].site): continue
        v,fs,c=cs[w]
        rep.ok('selects[%s]'%w,v is not None,'the subcommand %s selects no command'%w)
        replies=[e for e,ps in DR.outputs(R) if sat(land(e.guard,is_variant(cmdv,v,CV)))] if v else []
        for e,vs,noout in l:
            lo=len([a for f,a in fs if required(a)])
            if not rep.ok('arity[%s]'%w,lo<=len(vs)<=len(fs),'the extension sends %d arguments with %s, the driver takes %d'%(len(vs),w,len(fs)),e.site): continue
            src={}
            for (f,a),t in zip(fs,vs):
                ls=[(g,)+meaning(y) for g,y in leaves(I,t,e.guard)]; R_={ROLE.get(what) for g,what,base in ls}
                rep.ok('argument[%s,%s]'%(w,a['id']),len(R_)==1 and None not in R_,'the argument %s of %s is %s'%(a['id'],w,pp(t)[:120]),e.site)
                if len(R_)!=1 or None in R_: continue
                role,=R_; what=ls[0][1]
                if role in('line','column'):
                    for g,_,base in ls: d=src.setdefault(base,{}); d[role]=lor(d.get(role,0),g)
                rep.ok('number[%s,%s]'%(w,a['id']),not numeric(a) or role!='file','the driver expects a number for %s of %s but gets the %s'%(a['id'],w,what),e.site)
                rep.ok('read[%s,%s]'%(w,a['id']),f is not None,'the argument %s of %s is not read into the command'%(a['id'],w))
                if f is None or v not in used: continue
                rs=roles(used[v],vfield(cmdv,v,f))
                rep.ok('meaning[%s,%s]'%(w,a['id']),rs=={role},'the extension sends the %s as argument %s of %s, which the driver takes as the %s'%(role,a['id'],w,', '.join(sorted(rs)) or 'nothing'),e.site)
            both={r for d in src.values() for r in d}=={'line','column'}
            if both: rep.ok('one-position[%s]'%w,all(len(d)==2 and implies(d['line'],d['column']) and implies(d['column'],d['line']) for d in src.values()),'the line and the column sent with %s are of different positions'%w,e.site)
            if not replies and v not in comp:
                quiet=noout is not None and I.truth(noout)==1
                rep.ok('no-reply[%s]'%w,quiet or w=='decompose' or e.name.startswith('child_process'),'the extension expects a reply to %s, the driver gives none'%w,e.site)
    # the arguments reach the driver
    r=X.call_run(W); W.account(rep,r)
    sp=[s for s in X.spawns(r.events) if X.is_driver(s)]
    if not rep.ok('run',len(sp)>=1,'requests do not run the driver'): return
    for s in sp:
        rows=X.argrows(s.args) or []
        i=[k for k,(bs,g,v) in enumerate(rows) if v is Str('flowistry')]
        tail=rows[i[0]+1:] if i else []
        good=len(tail)==1 and len(tail[0][0])==1 and tail[0][1]==1 and tail[0][0][0].a[0] is mk('Arg','args') and tail[0][2] is mk('Elem',*tail[0][0][0].a)
        sp_=[v for bs,g,v in tail if v.op=='Spread' and v.a[0] is mk('Arg','args')]
        rep.ok('arguments',good or (len(tail)==1 and bool(sp_)),'the driver is not given exactly the arguments of the request: %s'%pp(s.args)[-200:],s.site)
    # replies: codecs
    js=[e for e in r.events if e.kind=='ext' and e.name in('JSON.parse',)]
    if not rep.ok('decoded',len(js)>=1,'replies are not parsed'): return
    outs=DR.outputs(R); n=0
    for e in js:
        t=e.args[0]; layers=['json']
        while True:
            if t.op=='Call' and t.a[0] in('.toString','String','.trim','.trimEnd'):
                enc=[x for x in t.a[2:]]
                if t.a[0]=='.toString' and enc and not(enc[0] is Str('utf8') or enc[0] is Str('utf-8')):
                    layers.append('as '+pp(enc[0])); 
                t=t.a[1]
            elif t.op=='Call' and t.a[0] in('zlib.gunzipSync','zlib.unzipSync'): layers.append('gzip'); t=t.a[1]
            elif t.op=='Call' and t.a[0].startswith('zlib.'): layers.append(t.a[0]); t=t.a[1]
            elif t.op=='Call' and t.a[0]=='Buffer.from' and len(t.a)>2:
                layers.append(t.a[2].a[0] if t.a[2].op=='Str' else pp(t.a[2])); t=t.a[1]
            elif t.op=='Call' and t.a[0]=='atob': layers.append('base64'); t=t.a[1]
            elif t.op=='Await': t=t.a[0]
            else: break
        rep.ok('codec',layers==['json','gzip','base64'],'replies are decoded as %s, the driver writes base64 of gzip of JSON'%' of '.join(reversed(layers)),e.site)
        rep.ok('source',t.op=='Settled' or any(x.op=='Settled' for x in walk(t)),'what is parsed is not the driver\'s output: %s'%pp(t)[:120],e.site)
        P=e.ret
        vals=r.vals
        rd=set(x.a[1] for g,v in vals for x in walk(v) if x.op=='Field' and x.a[0] is P)|{x.a[1] for d in r.events if d.seq>e.seq for a in d.args for x in walk(a) if x.op=='Field' and x.a[0] is P}
        # a success is the value under Ok
        okv=0
        for g,v in vals:
            if v.op=='Agg' and fields_of(v).get('value') is not None:
                for h,x in alts(fields_of(v)['value']):
                    if any(y is P for y in walk(x)):
                        okv+=1; rep.ok('ok',x is mk('Field',P,'Ok'),'the value of a successful request is %s'%pp(x)[-60:],e.site)
        rep.ok('ok-read',okv>0,'no successful reply is passed on',e.site)
        rep.ok('result-fields',rd<={'Ok','Err'} and 'Err' in rd,'the extension reads %s of a reply, the driver writes Ok or Err'%', '.join(sorted(rd)),e.site)
    # replies: contents
    printed=set(); types={}
    for e,ps in outs:
        if len(ps)!=1: rep.ok('message',False,'more than the message is printed',e.site); continue
        v=DR.message(R,rep,e,ps[0])
        if v is None: continue
        rows=[]
        for g,w in split(v,e.guard):
            if w.op not in('Agg','Str','Int','Bool') and any(TM.B.terms[y].op in('Is','Bit') and TM.B.terms[y].a[0] is w for y in TM.B.support(g)):
                # a result that is passed on as it is
                k=is_variant(w,'Ok')
                rows+=[(land(g,k),mkagg('Result','Ok',('0',),(vfield(w,'Ok','0'),))),(land(g,lnot(k)),mkagg('Result','Err',('0',),(vfield(w,'Err','0'),)))]
            else: rows.append((g,w))
        for g,w in rows:
            if not sat(g): continue
            if not rep.ok('result',w.op=='Agg' and w.a[0].split('::')[-1]=='Result','the reply is %s'%short(w),e.site): continue
            x=fields_of(w)['0']
            if w.a[1]=='Ok':
                for c in CV:
                    if sat(land(g,is_variant(cmdv,c,CV))): types.setdefault(c,set()).update(result_type(L,x))
            else:
                for h,y in split(x,g):
                    if not sat(h): continue
                    if y.op=='Agg': printed.add(y.a[1])
                    else: printed|={k for k in VS('FlowistryError') or () if sat(land(h,is_variant(y,k,VS('FlowistryError'))))}
    ncmp=0
    for w,l in sorted(words.items()):
        if w not in cs: continue
        v=cs[w][0]
        if v not in types: continue
        ty=types[v]
        if not rep.ok('reply-type[%s]'%w,len(ty)==1,'the type of the reply to %s is not known: %s'%(w,', '.join(sorted(ty)))): continue
        ty=next(iter(ty)); s=rshape(L,ty)
        for e,vs,noout in l:
            if e.kind!='ext' or not e.name.endswith('.call_flowistry'): continue
            if noout is not None and I.truth(noout)==1: continue
            ta=e.ta
            if not rep.ok('reply-typed[%s]'%w,bool(ta),'the reply to %s has no type'%w,e.site): continue
            ncmp+=1; out=[]
            agrees(W,ta[0],{},s,'',out)
            if not out: rep.ok('reply[%s]'%w,True)
            for p,m in out: rep.ok('reply[%s,%s]'%(w,p),False,'in the reply to %s, %s %s'%(w,p or 'the value',m),e.site)
    rep.ok('replies-compared',ncmp>=2,'only %d replies could be compared'%ncmp)
    # errors
    _,so=wire.ser(L,'FlowistryError'); EV=VS('FlowistryError') or ()
    ER=wire.run(L,wire.one(wire.derived(L,'Serialize','FlowistryError','serialize'),'error writer'))
    A=L.rust.prog.adts; ea=[k for k in A if k.startswith('flowistry_ide') and k.endswith('::FlowistryError')]
    if not rep.ok('errors',len(ea)==1 and bool(EV),'the driver\'s errors were not found'): return
    vf={v:dict(fs) for v,fs in A[ea[0]]['vs']}
    wr={}
    for v in EV:
        for g,s in so:
            if not sat(land(g,is_variant(ER.params[0],v,EV))) : continue
            if not rep.ok('error-form[%s]'%v,s[0]=='struct','the error %s is written as %s'%(v,s[0])): continue
            tg=[(k,t) for k,(t,h) in s[1].items() if t.op=='Str']
            if not rep.ok('error-tag[%s]'%v,len(tg)==1,'the error %s has %d tags'%(v,len(tg))): continue
            sh_={}
            for k,(t,h) in s[1].items():
                if t.op=='Str': continue
                while t.op in('Ref','Box'): t=t.a[0]
                f=t.a[2] if t.op=='VField' else t.a[1] if t.op=='Field' else None
                sh_[k]=rshape(L,vf[v][f]) if f in vf.get(v,{}) else('unknown',short(t))
            wr[v]=(tg[0][0],tg[0][1].a[0],sh_)
    tags={k for k,n,_ in wr.values()}
    if not rep.ok('one-tag',len(tags)==1,'errors are tagged by %s'%', '.join(sorted(tags))): return
    tag=tags.pop(); names={n for k,n,_ in wr.values()}
    tt=tagged(W,tag,names)
    for v in sorted(printed):
        if v not in wr: continue
        k,n,s=wr[v]
        if not rep.ok('known-error[%s]'%n,n in tt,'the extension does not know errors with %s: %s'%(tag,n)): continue
        for t in tt[n]:
            out=[]
            agrees(W,dict(t,m=[m for m in t['m'] if m['n']!=tag]),{},('obj',s),'',out)
            if not out: rep.ok('error[%s]'%n,True)
            for p,m in out: rep.ok('error[%s,%s]'%(n,p),False,'in the error %s, %s %s'%(n,p,m))
    # tags the extension compares with
    made=set(); cmp_={}
    for t in [t for t in B.terms if isinstance(t,T) and t.op=='Eq']:
        f=[x for x in t.a if x.op=='Field' and x.a[1]==tag]; s=[x for x in t.a if x.op=='Str']
        if not f or not s: continue
        b=f[0].a[0]
        if (b.op=='Await' and b.a[0].op=='Call' and b.a[0].a[0].endswith('.call_flowistry')) or (b.op=='Field' and b.a[1]=='Err'): cmp_.setdefault(s[0].a[0],[]).append(f[0])
    for g,v in r.vals:
        k=fields_of(v).get(tag) if v.op=='Agg' else None
        if k is not None and k.op=='Str': made.add(k.a[0])
    rep.ok('tags-compared',len(cmp_)>=2,'the extension distinguishes %d kinds of reply'%len(cmp_))
    for n in sorted(cmp_): rep.ok('tag[%s]'%n,n in names or n in made,'the extension looks for replies with %s: %s, which neither it nor the driver makes'%(tag,n))
