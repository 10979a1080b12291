"""Wire formats, read from the type-checked code serde and clap derive: JSON written, JSON read, command line accepted."""
from rules import *
def derived(L,trait,type_,name=None,part=None):
    """bodies of a derived impl"""
    out=[]
    for b in L.rust.prog.bodies.values():
        p=b['path']
        if name and b['name']!=name: continue
        if b['kind'] not in('Fn','AssocFn'): continue
        if part is not None:
            if part not in p or not re.search(r'for (\w+::)*%s(<.*>)?>$'%re.escape(type_),p.split(part)[0]): continue
        else:
            im=b.get('impl')
            if not im or im['trait'] is None or last(im['trait'])!=trait or last(im['head'])!=type_.split('::')[-1]: continue
            if not (im['head']==type_ or im['head'].endswith(type_)): continue
        out.append(b)
    return out
def one(l,what):
    if len(l)!=1: raise Anchor('expected one %s, found %d'%(what,len(l)))
    return l[0]
_cache={}
def run(L,b):
    k=b['path']
    if k not in _cache: _cache[k]=Run(L.rust,b)
    return _cache[k]
def ser(L,type_):
    """how a value of the type is written: list of (guard, shape)
       ('struct',{key: (term, guard)}) | ('unit',name) | ('newtype',name,term) | ('tuple',..) | ('svariant',name,{..}) | ('call',term)"""
    b=one(derived(L,'Serialize',type_,'serialize'),'Serialize impl of '+type_)
    R=run(L,b); out=[]
    starts=[e for e in R.nevents if e.name.startswith('Serializer::')]
    for e in starts:
        n=last(e.name)
        if n in('serialize_struct','serialize_struct_variant','serialize_map'):
            f={}
            for x in R.nevents:
                if last(x.name) in('serialize_field','serialize_entry') and x.args and len(x.args)==3 and any(y is e.ret for y in walk(x.args[0])) and sat(land(e.guard,x.guard)):
                    ok=x.guard
                    f[x.args[1].a[0] if x.args[1].op=='Str' else short(x.args[1])]=(x.args[2],ok)
            fin=[x for x in R.nevents if last(x.name)=='end' and any(y is e.ret for y in walk(x.args[0]))]
            sh='struct' if n=='serialize_struct' else n[10:]
            out.append((e.guard,(sh,f) if sh=='struct' else (sh,e.args[3].a[0] if len(e.args)>3 and e.args[3].op=='Str' else '',f)))
        elif n=='serialize_unit_variant': out.append((e.guard,('unit',e.args[3].a[0])))
        elif n=='serialize_newtype_variant': out.append((e.guard,('newtype',e.args[3].a[0],e.args[4])))
        elif n in('serialize_newtype_struct',): out.append((e.guard,('transparent',e.args[2])))
        else: out.append((e.guard,('call',e.name)))
    for e in R.nevents:
        if e.name=='Serialize::serialize': out.append((e.guard,('transparent',e.args[0])))
    return R,out
def assume_ok(g,pred):
    """the guard with the success of every call satisfying pred assumed"""
    for v in sorted(B.support(g)):
        t=B.terms[v]
        if t.op=='Is' and t.a[1] in('Ok','Continue') and any(x.op=='Call' and pred(x.a[0]) for x in walk(t.a[0])): g=B.cofactor(g,v,1)
    return g
def io_ok(g): return assume_ok(g,lambda n: 'erializ' in n)
def eq_strings(g):
    """the strings s for which the guard is 'the value read is s' (other comparisons false)"""
    out=[]
    for v in sorted(B.support(g)):
        t=B.terms[v]
        if t.op!='Eq' or not any(x.op=='Str' for x in t.a): return None
        h=g
        for w in sorted(B.support(g)): h=B.cofactor(h,w,1 if w==v else 0)
        if h==1: out+=[x.a[0] for x in t.a if x.op=='Str']
    h=g
    for w in sorted(B.support(g)): h=B.cofactor(h,w,0)
    return out if h==0 else None
def strings(R,ret=None):
    """string -> value, for a function that compares its argument with literals; and the value for any other string"""
    m={}; other=[]
    for g,v in alts(R.norm(R.ret if ret is None else ret)):
        e=eq_strings(g)
        if e is None:
            other.append((g,v)); continue
        for x in e: m[x]=v
    return m,other
def de_keys(L,type_):
    """derived Deserialize: key or variant name -> field number"""
    b=one(derived(L,None,type_,'visit_str','::deserialize::__FieldVisitor'),'key reader of '+type_)
    m,o=strings(run(L,b)); out={}
    for k,v in m.items():
        if v.op=='Agg' and v.a[1]=='Ok' and fields_of(v)['0'].op=='Agg': out[k]=fields_of(v)['0'].a[1]
    return out
def de_struct(L,type_):
    """derived Deserialize of a struct: field -> key it is read from (and whether it may be absent)"""
    keys=de_keys(L,type_)
    b=one(derived(L,None,type_,'visit_map','::deserialize::__Visitor'),'reader of '+type_)
    R=run(L,b); out={}
    for g,v in alts(R.norm(R.ret)):
        if not(v.op=='Agg' and v.a[1]=='Ok'): continue
        for f,t in fields_of(fields_of(v)['0']).items():
            for h,x in alts(t):
                c=core_call(x)
                if c is None or last(c.a[0])!='next_value': continue
                for q in atoms_in(h):
                    n=read_as(q)
                    if n: out.setdefault(f,set()).add(n)
    inv={v:k for k,v in keys.items()}
    return {f:{k for k,v in keys.items() if v in ns} for f,ns in out.items()}
def core_call(x):
    while x.op in('VField','Field'): x=x.a[0]
    return x if x.op=='Call' else None
def read_as(q):
    """the key whose value a loop over the map reads"""
    if q.op!='Ex': return None
    g=q.a[1]
    for v in sorted(B.support(g)):
        t=B.terms[v]
        if t.op not in('Bit','Is'): continue
        k=t.a[0]
        if not(k.op=='VField' and (core_call(k) is not None) and last(core_call(k).a[0])=='next_key'): continue
        vs=t.a[2] if t.op=='Bit' else None
        if vs is None:
            if t.a[1].startswith('__'):
                n=t.a[1]
                if implies(g,B.var(t)): return n
                two=[x for x in TM.ENUMVARS.values() if n in x and len(x)==2]
                if two: return [x for x in two[0] if x!=n][0]
            continue
        for n in vs:
            if implies(g,is_variant(k,n,vs)): return n
    return None
def variant_of(L,R,g):
    """the variants v of self such that g is 'self is v'"""
    return [t for t in sorted({x.a[1] for x in atoms_in(g) if x.op=='Is'})]
def clap_cmd(t):
    """a clap command builder chain: (name, [args], {subcommand: cmd}, [other builder calls])"""
    args=[];subs={};oth=[]
    while t.op=='Call' and t.a[0].startswith('Command::') and t.a[0]!='Command::new':
        n=last(t.a[0])
        if n=='arg': args.insert(0,clap_arg(t.a[2]))
        elif n=='subcommand':
            c=clap_cmd(t.a[2]); subs[c['name']]=c
        else: oth.append((n,t.a[2:]))
        t=t.a[1]
    nm=t.a[1].a[0] if t.op=='Call' and t.a[0]=='Command::new' and t.a[1].op=='Str' else None
    return dict(name=nm,args=args,subs=subs,other=oth,base=t)
def clap_arg(t):
    d=dict(id=None,long=None,short=None,required=False,parser=None,action=None,other=[])
    while t.op=='Call' and t.a[0].startswith('Arg::'):
        n=last(t.a[0]); v=t.a[2] if len(t.a)>2 else None
        if n=='new': d['id']=t.a[1].a[0] if t.a[1].op=='Str' else None; break
        elif n=='long': d['long']=v.a[0] if v.op=='Str' else short(v)
        elif n=='short': d['short']=short(v)
        elif n=='required': d['required']=v
        elif n=='value_parser': d['parser']=v
        elif n=='action': d['action']=v.a[1] if v.op=='Agg' else short(v)
        elif n in('value_name','help','long_help','hide','display_order','value_hint','next_line_help'): pass
        else: d['other'].append(n)
        t=t.a[1]
    d['pos']=d['long'] is None and d['short'] is None
    return d
def clap(L,type_):
    """command line accepted for a derived clap Parser"""
    b=one(derived(L,'Args',type_,'augment_args'),'clap Args impl of '+type_)
    return clap_cmd(run(L,b).norm(run(L,b).ret))
def clap_read(L,type_):
    """[(guard, value built from the matches)] and the evaluation"""
    b=one(derived(L,'FromArgMatches',type_,'from_arg_matches_mut'),'clap FromArgMatches impl of '+type_)
    R=run(L,b)
    return R,[(g,fields_of(v)['0']) for h,w in alts(R.norm(R.ret)) for g,v in split(w,h) if v.op=='Agg' and v.a[1]=='Ok']
