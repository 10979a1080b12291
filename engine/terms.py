"""Hash-consed terms and reduced ordered BDD guards."""
import sys
sys.setrecursionlimit(20000)

class T:
    __slots__=('op','a','id','free','size')
    def __repr__(self): return pp(self)
_tab={}
def mk(op,*a):
    k=(op,)+a
    t=_tab.get(k)
    if t is None:
        t=T(); t.op=op; t.a=a; t.id=len(_tab)
        s=1
        for x in a:
            if isinstance(x,T): s+=x.size
        t.size=s
        _tab[k]=t
    return t

# ---------------------------------------------------------------- BDD
class BDD:
    def __init__(s):
        s.nodes=[(1<<30,0,0),(1<<30,1,1)]; s.u={}; s.cache={}; s.vars={}; s.terms=[]
    def var(s,term):
        v=s.vars.get(term)
        if v is None:
            v=len(s.terms); s.vars[term]=v; s.terms.append(term)
        return s.node(v,0,1)
    def node(s,v,l,h):
        if l==h: return l
        k=(v,l,h); n=s.u.get(k)
        if n is None:
            n=len(s.nodes); s.nodes.append(k); s.u[k]=n
        return n
    def ite(s,f,g,h):
        if f==1: return g
        if f==0: return h
        if g==h: return g
        if g==1 and h==0: return f
        k=('i',f,g,h); r=s.cache.get(k)
        if r is not None: return r
        N=s.nodes
        v=min(N[f][0],N[g][0],N[h][0])
        def co(n,b):
            t=N[n]
            return (t[2] if b else t[1]) if t[0]==v else n
        r=s.node(v,s.ite(co(f,0),co(g,0),co(h,0)),s.ite(co(f,1),co(g,1),co(h,1)))
        s.cache[k]=r
        return r
    def land(s,f,g): return s.ite(f,g,0)
    def lor(s,f,g): return s.ite(f,1,g)
    def lnot(s,f): return s.ite(f,0,1)
    def restrict(s,f,c):
        """simplify f under care set c (Coudert-Madre)"""
        if c==0: return 0
        if c==1 or f<2: return f
        if f==c: return 1
        k=('r',f,c); r=s.cache.get(k)
        if r is not None: return r
        fv,fl,fh=s.nodes[f]; cv,cl,ch=s.nodes[c]
        if cv<fv: r=s.restrict(f,s.lor(cl,ch))
        else:
            if cv==fv: c0,c1=cl,ch
            else: c0=c1=c
            if c0==0: r=s.restrict(fh,c1)
            elif c1==0: r=s.restrict(fl,c0)
            else: r=s.node(fv,s.restrict(fl,c0),s.restrict(fh,c1))
        s.cache[k]=r
        return r
    def cofactor(s,f,v,b):
        if f<2: return f
        fv,fl,fh=s.nodes[f]
        if fv>v: return f
        if fv==v: return fh if b else fl
        k=('c',f,v,b); r=s.cache.get(k)
        if r is not None: return r
        r=s.node(fv,s.cofactor(fl,v,b),s.cofactor(fh,v,b)); s.cache[k]=r
        return r
    def exists(s,f,v): return s.lor(s.cofactor(f,v,0),s.cofactor(f,v,1))
    def support(s,f):
        seen=set(); vs=set(); st=[f]
        while st:
            n=st.pop()
            if n<2 or n in seen: continue
            seen.add(n); v,l,h=s.nodes[n]; vs.add(v); st+=[l,h]
        return vs
    def atoms(s,f): return [s.terms[v] for v in sorted(s.support(f))]
    def paths(s,f,limit=64):
        out=[]
        def go(n,acc):
            if len(out)>=limit: return
            if n==0: return
            if n==1: out.append(list(acc)); return
            v,l,h=s.nodes[n]
            go(h,acc+[(s.terms[v],True)]); go(l,acc+[(s.terms[v],False)])
        go(f,[])
        return out
    def show(s,f):
        if f==0: return 'false'
        if f==1: return 'true'
        out=[]
        for p in s.paths(f,8):
            bits={}; l=[]
            for t,b in p:
                if t.op=='Bit':
                    if t.a[0] not in bits: bits[t.a[0]]=(t.a[2],{}); l.append(t.a[0])
                    bits[t.a[0]][1][t.a[1]]=b
                else: l.append(('' if b else '!')+pp(t))
            def dec(t):
                vs,m=bits[t]; n=len(vs); K=max(1,(n-1).bit_length()); r=[]
                for i in range(1<<K):
                    if all(((i>>k)&1)==int(b) for k,b in m.items()):
                        v=vs[min(i,n-1)]
                        if v not in r: r.append(v)
                if len(r)>n//2 and n>3: return pp(t)+'!:'+'|'.join(v for v in vs if v not in r)
                return pp(t)+':'+'|'.join(r)
            out.append(' & '.join(x if isinstance(x,str) else dec(x) for x in l))
        return ' || '.join(out)
B=BDD()
TRUE=1; FALSE=0
land=B.land; lor=B.lor; lnot=B.lnot; restrict=B.restrict
def landn(*xs):
    r=1
    for x in xs: r=land(r,x)
    return r
def lorn(*xs):
    r=0
    for x in xs: r=lor(r,x)
    return r

def atom(t): return B.var(t)

# exclusivity axioms over multi-variant discriminants
ENUMS={}   # term-type key: Is(t,var) atoms of >2 variant enums: t -> set(all variants) | None
def axioms(f):
    groups={}
    for t in B.atoms(f):
        if t.op=='Is' : groups.setdefault(('I',t.a[0]),[]).append(t)
        elif t.op=='Eq' and t.a[1].op in('Int','Str'): groups.setdefault(('E',t.a[0]),[]).append(t)
    r=1
    for k,l in groups.items():
        for i in range(len(l)):
            for j in range(i+1,len(l)):
                r=land(r,lnot(land(atom(l[i]),atom(l[j]))))
    return r
def implies(a,b):
    n=land(a,lnot(b))
    if n==0: return True
    return land(n,axioms(n))==0
_sat={}
def sat(a):
    if a<2: return a==1
    r=_sat.get(a)
    if r is None: r=_sat[a]=land(a,axioms(a))!=0
    return r

# ---------------------------------------------------------------- alternatives
def mkalt(alts,care=1):
    """alts: list of (guard,term); merges equal terms, drops false, simplifies under care."""
    d={}
    order=[]
    for g,t in alts:
        if t.op=='Alt':
            for g2,t2 in t.a:
                gg=land(g,g2)
                if gg!=0:
                    if t2 not in d: d[t2]=0; order.append(t2)
                    d[t2]=lor(d[t2],gg)
        else:
            if g!=0:
                if t not in d: d[t]=0; order.append(t)
                d[t]=lor(d[t],g)
    l=[]
    for t in order:
        g=land(d[t],care)
        if g==0: continue
        l.append((restrict(g,care) if care!=1 else g,t))
    if not l: return BOT
    if len(l)==1: return l[0][1]
    if all(t.op=='Bool' or t.op=='Undef' for g,t in l):
        g0=0
        for g,t in l:
            if t.op=='Bool': g0=lor(g0,land(g,t.a[0]))
        return mk('Bool',restrict(g0,care) if care!=1 else g0)
    l.sort(key=lambda x:x[1].id)
    return mk('Alt',*l)
def alts(t):
    if t.op=='Alt': return list(t.a)
    return [(1,t)]
BOT=mk('Undef')
UNIT=mk('Agg','()','',())
def Bool(g): return mk('Bool',g)
def Int(n): return mk('Int',n)
def Str(s): return mk('Str',s)
def fields_of(t): # Agg -> dict
    return dict(zip(t.a[2],t.a[3:]))
def mkagg(adt,var,names,vals): return mk('Agg',adt,var,tuple(names),*vals)
def tup(*vs): return mk('Agg','<tuple>','',tuple(str(i) for i in range(len(vs))),*vs) if vs else UNIT

def short(p):
    import re
    p=re.sub(r'<[^<>]*>','',re.sub(r'<[^<>]*>','',p))
    return p.split('::')[-1]
def pp(t,d=0):
    if isinstance(t,tuple): return '('+','.join(pp(x,d) for x in t)+')'
    if not isinstance(t,T): return str(t)
    if d>14: return '..'
    o=t.op; a=t.a; d+=1
    if o=='Param': return str(a[-1])
    if o=='Int': return str(a[0])
    if o=='Str': return repr(a[0])
    if o=='Bool': return 'B{'+B.show(a[0])+'}'
    if o=='Field': return pp(a[0],d)+'.'+a[1]
    if o=='VField': return pp(a[0],d)+'@'+a[1]+'.'+a[2]
    if o=='Elem': return 'each%s(%s)'%('' if a[1]==0 else a[1],pp(a[0],d))
    if o=='Idx': return 'idx%s(%s)'%('' if a[1]==0 else a[1],pp(a[0],d))
    if o=='Call': return a[0]+'('+', '.join(pp(x,d) for x in a[1:])+')'
    if o=='Agg':
        if a[0]=='<tuple>': return '('+', '.join(pp(x,d) for x in a[3:])+')'
        n=short(a[0])+('::'+a[1] if a[1] and a[1]!=short(a[0]) else '')
        return n+'{'+', '.join('%s:%s'%(k,pp(v,d)) for k,v in zip(a[2],a[3:]))+'}'
    if o=='Alt': return 'Alt['+' ; '.join('%s if %s'%(pp(v,d),B.show(g)) for g,v in a)+']'
    if o=='Clos': return 'closure(%s)'%a[0].split('::',1)[-1][-40:]
    if o=='Obj': return 'Obj#%d<%s>'%(t.id,pp(a[1],d))
    if o=='Bit': return 'Bit%d(%s)'%(a[1],pp(a[0],d))
    if o=='Is': return 'Is(%s,%s)'%(pp(a[0],d),a[1])
    if o=='Ex': return 'Ex(%s: %s)'%(pp(a[0],d),B.show(a[1]))
    if o=='B': return 'in%s %s'%('' if a[1]==0 else a[1],pp(a[0],d))
    return o+'('+', '.join(pp(x,d) if isinstance(x,(T,tuple)) else str(x) for x in a)+')'

def subst(t,m,memo=None):
    """substitute terms (dict) everywhere inside t, including guards."""
    if memo is None: memo={}
    r=memo.get(t)
    if r is not None: return r
    if t in m: r=m[t]
    else:
        na=[]; ch=False
        for x in t.a:
            if isinstance(x,T): y=subst(x,m,memo)
            elif isinstance(x,tuple) and x and t.op=='Alt': y=(gsubst(x[0],m,memo),subst(x[1],m,memo))
            elif t.op in('Bool',) : y=gsubst(x,m,memo)
            elif t.op=='Ex' and isinstance(x,int): y=gsubst(x,m,memo)
            elif t.op=='Seq': y=(tuple(subst(z,m,memo) for z in x[0]),gsubst(x[1],m,memo),subst(x[2],m,memo))
            elif isinstance(x,tuple) and any(isinstance(z,T) for z in x): y=tuple(subst(z,m,memo) if isinstance(z,T) else z for z in x)
            else: y=x
            ch|= y is not x and y!=x
            na.append(y)
        if not ch: r=t
        elif t.op=='Alt': r=mkalt(na)
        else: r=rebuild(t.op,na)
    memo[t]=r
    return r
def rebuild(op,a):
    if op=='Field': return field(a[0],a[1])
    if op=='VField': return vfield(a[0],a[1],a[2])
    return mk(op,*a)
def gsubst(g,m,memo=None):
    if g<2: return g
    r=0
    ch=False
    sup=B.support(g)
    rep={}
    for v in sup:
        t=B.terms[v]; t2=subst(t,m,memo)
        if t2 is not t: rep[v]=t2
    if not rep: return g
    cache={}
    def go(n):
        if n<2: return n
        if n in cache: return cache[n]
        v,l,h=B.nodes[n]
        c=truth(rep[v]) if v in rep else B.node(v,0,1)
        x=B.ite(c,go(h),go(l)); cache[n]=x
        return x
    return go(g)
def truth(t):
    """boolean term -> guard"""
    if t.op=='Bool': return t.a[0]
    if t.op=='Int': return 1 if t.a[0] else 0
    if t.op=='Alt':
        r=0
        for g,x in t.a: r=lor(r,land(g,truth(x)))
        return r
    if t.op=='Is': return is_variant(t.a[0],t.a[1])
    if t.op=='Bit': return bitg(*t.a)
    if t.op=='Eq': return eqg(t.a[0],t.a[1])
    return atom(t)
TWO={'Option':('Some','None'),'Result':('Ok','Err')}
ENUMVARS={}  # adt short path -> list of variants (filled from dumps)
def is_variant(t,var,vs=None):
    if t.op=='Alt':
        r=0
        for g,x in t.a: r=lor(r,land(g,is_variant(x,var,vs)))
        return r
    if t.op=='Agg': return 1 if t.a[1]==var else 0
    if t.op=='Undef': return 0
    if t.op=='VariantConst': return 1 if t.a[1]==var else 0
    if var=='None': return lnot(is_variant(t,'Some'))
    if var=='Err': return lnot(is_variant(t,'Ok'))
    if var=='Break': return lnot(is_variant(t,'Continue'))
    if var in('Some','Ok','Continue'): return atom(mk('Is',t,var))
    if vs and len(vs)==2:
        f=sorted(vs)[0]
        if var!=f: return lnot(atom(mk('Is',t,f)))
    elif vs and len(vs)>2 and var in vs:
        vs=tuple(vs); n=len(vs); K=(n-1).bit_length(); i=vs.index(var)
        bits=[atom(mk('Bit',t,k,vs)) for k in range(K)]
        def code(j): return landn(*[bits[k] if (j>>k)&1 else lnot(bits[k]) for k in range(K)])
        if i<n-1: return code(i)
        return lorn(*[code(j) for j in range(n-1,1<<K)])
    return atom(mk('Is',t,var))
def bitg(t,k,vs):
    if t.op=='Alt': return lorn(*[land(g,bitg(x,k,vs)) for g,x in t.a])
    if t.op=='Agg' and t.a[1] in vs: return (vs.index(t.a[1])>>k)&1
    if t.op=='Undef': return 0
    return atom(mk('Bit',t,k,vs))
def lenof(v):
    if v.op=='Alt': return mkalt([(g,lenof(x)) for g,x in v.a])
    if v.op=='Agg' and v.a[0]=='<array>': return Int(len(v.a)-3)
    return mk('Len',v)
def eqg(a,b):
    if a is b: return 1
    if a.op=='Alt' or b.op=='Alt':
        r=0
        for g,x in alts(a):
            for h,y in alts(b):
                r=lor(r,landn(g,h,eqg(x,y)))
        return r
    if a.op=='Bool' or b.op=='Bool':
        x=truth(a); y=truth(b)
        return B.ite(x,y,lnot(y))
    K=('Int','Str')
    if a.op in K and b.op in K: return 1 if a is b else 0
    if a.op=='Agg' and b.op=='Agg' and len(a.a)==3 and len(b.a)==3: return 1 if a is b else 0
    if a.op=='Agg' and a.a[1] and len(a.a)==3 and a.a[0] not in('()',): return is_variant(b,a.a[1],ENUMVARS.get(a.a[0]))
    if b.op=='Agg' and b.a[1] and len(b.a)==3 and b.a[0] not in('()',): return is_variant(a,b.a[1],ENUMVARS.get(b.a[0]))
    for x,y in((a,b),(b,a)):
        if y.op=='Agg' and y.a[0] in('Option','Result') and len(y.a)>3:
            if x.op=='Agg' and x.a[0]==y.a[0]:
                return landn(*[eqg(p,q) for p,q in zip(x.a[3:],y.a[3:])]) if x.a[1]==y.a[1] else 0
            if x.op!='Agg': return landn(is_variant(x,y.a[1]),*[eqg(vfield(x,y.a[1],n),q) for n,q in zip(y.a[2],y.a[3:])])
    if a.op in K or (b.op not in K and a.id>b.id): a,b=b,a
    if b.op=='Int' and b.a[0]==0 and a.op=='Len': return atom(mk('Empty',a.a[0]))
    return atom(mk('Eq',a,b))
def ltg(a,b):
    if a.op=='Alt' or b.op=='Alt':
        r=0
        for g,x in alts(a):
            for h,y in alts(b):
                r=lor(r,landn(g,h,ltg(x,y)))
        return r
    if a.op=='Int' and b.op=='Int': return 1 if a.a[0]<b.a[0] else 0
    if a.op=='Int' and a.a[0]==0 and b.op=='Len': return lnot(atom(mk('Empty',b.a[0])))
    if b.op=='Int' and b.a[0]==1 and a.op=='Len': return atom(mk('Empty',a.a[0]))
    # integers: a < n  is  not (n-1 < a): canonical form "const < a"
    if b.op=='Int' and a.op!='Int': return lnot(ltg(Int(b.a[0]-1),a))
    if a is b: return 0
    return atom(mk('Lt',a,b))

def field(t,n):
    if t.op=='Alt': return mkalt([(g,field(x,n)) for g,x in t.a])
    if t.op=='Agg':
        f=fields_of(t)
        if n in f: return f[n]
        if 'base' in f and t.a[1]=='<upd>': return field(f['base'],n)
    if t.op=='Upd':
        if t.a[1]==n: return t.a[2]
        return field(t.a[0],n)
    if t.op=='Clos':
        d=dict(zip(t.a[1],t.a[2:]))
        if n in d: return d[n]
        try: return t.a[2+int(n)]
        except Exception: pass
    if t.op=='Undef': return t
    return mk('Field',t,n)
def vfield(t,v,n):
    if t.op=='Alt': return mkalt([(g,vfield(x,v,n)) for g,x in t.a if not(x.op=='Agg' and x.a[1]!=v)])
    if t.op=='Agg':
        if t.a[1]!=v: return BOT
        f=fields_of(t)
        if n in f: return f[n]
    if t.op=='Undef': return t
    if v=='Move' and n=='0': v='Copy'   # Operand::{Copy,Move}: both hold the operand's place
    return mk('VField',t,v,n)
def walk(t):
    seen=set(); st=[t]
    while st:
        x=st.pop()
        if x in seen: continue
        seen.add(x); yield x
        for y in x.a:
            if isinstance(y,T): st.append(y)
            elif isinstance(y,tuple):
                for z in y:
                    if isinstance(z,T): st.append(z)
