"""Models of standard-library / indexical functions for the abstract interpreter."""
from terms import *
import sym
from sym import HANDLERS as H, COLLS, last, St, LoopInst, join, EMPTY_CTORS, TRANSP_ADT, walk_g

def reg(*names):
    def d(f):
        for n in names: H[n]=f
        return f
    return d
def some(v): return mkagg('Option','Some',('0',),(v,))
NONE=mkagg('Option','None',(),())
def ok(v): return mkagg('Result','Ok',('0',),(v,))
def err(v): return mkagg('Result','Err',('0',),(v,))
def selfhead(g):
    a=g.get('args') or []
    return last(a[0][1]) if a else ''
def selfty(g):
    a=g.get('args') or []
    return a[0][0] if a else ''
def goodv(g,name):
    """(good variant, bad variant) for the container a combinator works on"""
    h=g.get('impl') or selfhead(g) or name.split('::')[0]
    return ('Ok','Err') if last(h)=='Result' else ('Some','None')

# ---------------------------------------------------------------- identity-like
def ident(i,fr,st,g,a,site,dty,bi):
    return st,i.rd(st,a[0])
def identraw(i,fr,st,g,a,site,dty,bi):
    return st,a[0]
for n in '''Deref::deref DerefMut::deref_mut Borrow::borrow BorrowMut::borrow_mut AsRef::as_ref AsMut::as_mut
 RefCell::new RefCell::borrow RefCell::borrow_mut RefCell::get_mut Rc::new Box::new Arc::new Cell::new Cell::get RefCell::into_inner Rc::as_ref
 Cell::into_inner Vec::as_slice Vec::as_mut_slice String::as_str Option::as_deref Option::as_mut Box::as_ref Box::leak Box::pin Pin::new Pin::get_mut
 Option::as_ref Option::as_deref_mut Result::as_ref Result::as_mut hint::must_use convert::identity Cow::into_owned ManuallyDrop::new OnceCell::new
 IndexVec::as_slice IndexSlice::from_raw slice::as_ref slice::into_boxed_slice Vec::into_boxed_slice Rc::clone Arc::clone
 hint::black_box Option::copied Option::cloned Result::copied Result::cloned Result::iter Binder::skip_binder
 Iterator::by_ref Iterator::fuse Iterator::peekable Itertools::multipeek'''.split(): H[n]=identraw
for n in '''FieldIdx::from_usize FieldIdx::from_u32 FieldIdx::as_usize FieldIdx::index FieldIdx::new RegionVid::from_usize RegionVid::as_usize
 RegionVid::from_u32 RegionVid::index RegionVid::as_u32 Local::as_usize Local::from_usize Local::index Local::from_u32 Idx::index Idx::new
 BasicBlock::from_usize BasicBlock::as_usize BasicBlock::index ToIndex::to_index LocalDefId::to_def_id EarlyBinder::instantiate_identity
 EarlyBinder::skip_binder FieldIdx::as_u32 Option::iter_ Vec::shrink_to_fit'''.split(): H[n]=ident
@reg('From::from','Into::into','ToOwned::to_owned','TryInto::try_into','TryFrom::try_from','slice::to_vec','Clone::clone','slice::to_owned','Vec::clone','HashSet::clone','Option::clone')
def conv(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0])
    nm=g['name']
    ts=dty[0] if dty else ''; th=last(dty[1]) if dty else ''
    if nm in('clone','to_owned','to_vec') and th in COLLS and not ts.startswith('&'):
        if v.op=='Str' : return st,v
        if v.op=='It': return st,v
        if v.op=='Alt': return st,mkalt([(gg,i.newobj(fr,bi,mk('Call','clone',x))) for gg,x in v.a])
        return st,i.newobj(fr,bi,mk('Call','clone',v))
    if nm=='clone' and ts.endswith('::Domain') and v.op=='Index':
        # a copy of a state: keep its identity and when it was taken
        o=i.newobj(fr,bi,mk('Call','clone',v)); i.emit(st,'<clone>','',[o,v],site,kind='pure'); return st,o
    if nm in('from','into') and th in COLLS and v.op=='Agg' and v.a[0]=='<array>':
        return st,i.newobj(fr,bi,mk('Call','from',v),[([],1,x) for x in v.a[3:]])
    if nm in('try_into','try_from'): return st,mk('Call','try_from',v)
    return st,v
@reg('ToString::to_string')
def to_string(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0])
    if v.op=='Str' or v.op=='Call' and v.a[0] in('format','ToString::to_string'): return st,v
    return st,mk('Call','ToString::to_string',v)
@reg('Iterator::cloned','Iterator::copied')
def it_copied(i,fr,st,g,a,site,dty,bi): return st,i.rd(st,a[0])

# ---------------------------------------------------------------- formatting (pure, ignored)
@reg('Argument::new_debug','Argument::new_display','Argument::new_lower_hex')
def fmtarg(i,fr,st,g,a,site,dty,bi): return st,mk('Fmt',g['name'],i.rd(st,a[0]))
@reg('Arguments::new_v1','Arguments::new_const','Arguments::new_v1_formatted')
def fmtargs(i,fr,st,g,a,site,dty,bi): return st,mk('FmtArgs',*[i.rd(st,x) for x in a])
@reg('fmt::format')
def fmtf(i,fr,st,g,a,site,dty,bi): return st,mk('Call','format',i.rd(st,a[0]))

# ---------------------------------------------------------------- booleans / comparison
@reg('PartialEq::eq','PartialEq::ne')
def peq(i,fr,st,g,a,site,dty,bi):
    x=deep(i,st,a[0]); y=deep(i,st,a[1])
    e=eqg(x,y)
    return st,Bool(e if g['name']=='eq' else lnot(e))
@reg('PartialOrd::lt','PartialOrd::le','PartialOrd::gt','PartialOrd::ge')
def pord(i,fr,st,g,a,site,dty,bi):
    x=deep(i,st,a[0]); y=deep(i,st,a[1]); n=g['name']
    r={'lt':lambda:ltg(x,y),'gt':lambda:ltg(y,x),'le':lambda:lnot(ltg(y,x)),'ge':lambda:lnot(ltg(x,y))}[n]()
    return st,Bool(r)
@reg('Not::not')
def nott(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0])
    return (st,Bool(lnot(truth(v)))) if sym.isbool(v) else None
@reg('bool::then_some')
def then_some(i,fr,st,g,a,site,dty,bi):
    c=truth(i.rd(st,a[0]))
    return st,mkalt([(c,some(i.rd(st,a[1]))),(lnot(c),NONE)])
@reg('bool::then')
def then(i,fr,st,g,a,site,dty,bi):
    c=truth(i.rd(st,a[0]))
    st,v=branchcall(i,fr,st,c,a[1],[],site)
    return st,mkalt([(c,some(v)),(lnot(c),NONE)])
def deep(i,st,v):
    v=i.rd(st,v)
    if v.op=='Agg' and any(isinstance(x,T) and x.op=='LRef' for x in v.a[3:]):
        v=mkagg(v.a[0],v.a[1],v.a[2],[deep(i,st,x) for x in v.a[3:]])
    return v
def branchcall(i,fr,st,c,f,args,site):
    """call f(args) only when c holds; joins the state"""
    cg=land(st.g,c)
    if cg==0: return st,BOT
    s2,v=i.callval(fr,St(cg,dict(st.env)),f,args,site,None,'br')
    if c==1 or cg==st.g: return s2,v
    rest=St(land(st.g,lnot(c)),dict(st.env))
    if s2.g==0: return rest,BOT
    return join([s2,rest]) or rest,v

# ---------------------------------------------------------------- Option / Result
def isgood(v,gd): return is_variant(v,gd)
def wrapv(gd,v): return some(v) if gd=='Some' else ok(v)
def badv(gd,v): return NONE if gd=='Some' else err(vfield(v,'Err','0'))
def getg(v,gd,care=1):
    r=vfield(v,gd,'0')
    return r
def comb(*names):
    def d(f):
        for n in names:
            for h in('Option','Result'): H[h+'::'+n]=f
        return f
    return d
@comb('unwrap','expect','unwrap_unchecked')
def unwrap(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); gd,_=goodv(g,'')
    c=restrict(isgood(v,gd),st.g)
    bad=land(st.g,lnot(c))
    if bad!=0: i.panics.append((bad,site,'unwrap',v))
    r=getg(v,gd)
    if r.op=='Alt': r=mkalt(list(r.a),land(st.g,c))
    return st,r
@comb('unwrap_err','expect_err')
def unwrap_err(i,fr,st,g,a,site,dty,bi): return st,vfield(i.rd(st,a[0]),'Err','0')
@comb('unwrap_or')
def unwrap_or(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); gd,_=goodv(g,''); c=isgood(v,gd)
    return st,mkalt([(c,getg(v,gd)),(lnot(c),i.rd(st,a[1]))],st.g)
@comb('unwrap_or_default')
def unwrap_or_default(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); gd,_=goodv(g,''); c=isgood(v,gd)
    st,d=default(i,fr,st,g,[],site,dty,bi)
    return st,mkalt([(c,getg(v,gd)),(lnot(c),d)],st.g)
@comb('unwrap_or_else','map_or_else_')
def unwrap_or_else(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); gd,_=goodv(g,''); c=isgood(v,gd)
    st2,d=branchcall(i,fr,st,lnot(c),a[1],[] if gd=='Some' else [vfield(v,'Err','0')],site)
    return st2,mkalt([(c,getg(v,gd)),(lnot(c),d)],st2.g)
@comb('map')
def omap(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); gd,_=goodv(g,''); c=restrict(isgood(v,gd),st.g)
    st2,r=branchcall(i,fr,st,c,a[1],[getg(v,gd)],site)
    return st2,mkalt([(c,wrapv(gd,r)),(lnot(c),badv(gd,v))],st2.g)
@comb('and_then')
def oand(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); gd,_=goodv(g,''); c=restrict(isgood(v,gd),st.g)
    st2,r=branchcall(i,fr,st,c,a[1],[getg(v,gd)],site)
    return st2,mkalt([(c,r),(lnot(c),badv(gd,v))],st2.g)
@comb('and')
def oand2(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); gd,_=goodv(g,''); c=isgood(v,gd)
    return st,mkalt([(c,i.rd(st,a[1])),(lnot(c),badv(gd,v))],st.g)
@comb('or')
def oor(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); gd,_=goodv(g,''); c=isgood(v,gd)
    return st,mkalt([(c,v),(lnot(c),i.rd(st,a[1]))],st.g)
@comb('or_else')
def oorelse(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); gd,_=goodv(g,''); c=isgood(v,gd)
    st2,r=branchcall(i,fr,st,lnot(c),a[1],[] if gd=='Some' else [vfield(v,'Err','0')],site)
    return st2,mkalt([(c,v),(lnot(c),r)],st2.g)
@comb('map_or')
def omapor(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); gd,_=goodv(g,''); c=isgood(v,gd)
    st2,r=branchcall(i,fr,st,c,a[2],[getg(v,gd)],site)
    return st2,mkalt([(c,i.rd(st2,r)),(lnot(c),i.rd(st,a[1]))],st2.g)
@comb('map_or_else')
def omaporelse(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); gd,_=goodv(g,''); c=isgood(v,gd)
    st2,r=branchcall(i,fr,st,c,a[2],[getg(v,gd)],site)
    st3,d=branchcall(i,fr,st2,lnot(c),a[1],[] if gd=='Some' else [vfield(v,'Err','0')],site)
    return st3,mkalt([(c,r),(lnot(c),d)],st3.g)
@comb('filter')
def ofilter(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); c=restrict(isgood(v,'Some'),st.g)
    st2,r=branchcall(i,fr,st,c,a[1],[getg(v,'Some')],site)
    k=land(c,truth(i.rd(st2,r))) if c!=0 else 0
    return st2,mkalt([(k,some(getg(v,'Some'))),(lnot(k),NONE)],st2.g)
@comb('map_err')
def omaperr(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); c=restrict(isgood(v,'Ok'),st.g)
    st2,r=branchcall(i,fr,st,lnot(c),a[1],[vfield(v,'Err','0')],site)
    return st2,mkalt([(c,ok(getg(v,'Ok'))),(lnot(c),err(r))],st2.g)
@reg('Result::ok')
def rok(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); c=isgood(v,'Ok')
    return st,mkalt([(c,some(getg(v,'Ok'))),(lnot(c),NONE)],st.g)
@reg('Result::err')
def rerr(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); c=isgood(v,'Ok')
    return st,mkalt([(lnot(c),some(vfield(v,'Err','0'))),(c,NONE)],st.g)
@reg('Option::ok_or')
def okor(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); c=isgood(v,'Some')
    return st,mkalt([(c,ok(getg(v,'Some'))),(lnot(c),err(i.rd(st,a[1])))],st.g)
@reg('Option::ok_or_else')
def okorelse(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); c=isgood(v,'Some')
    st2,e=branchcall(i,fr,st,lnot(c),a[1],[],site)
    return st2,mkalt([(c,ok(getg(v,'Some'))),(lnot(c),err(e))],st2.g)
@reg('Context::context','Context::with_context')
def context(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); gd='Ok' if selfhead(g)=='Result' else 'Some'
    c=isgood(v,gd)
    m=i.rd(st,a[1])
    if m.op=='Clos': st,m=branchcall(i,fr,st,lnot(c),m,[],site)
    return st,mkalt([(c,ok(getg(v,gd))),(lnot(c),err(mk('Call','context',m,v)))],st.g)
@comb('is_some','is_ok')
def is_good(i,fr,st,g,a,site,dty,bi): return st,Bool(isgood(i.rd(st,a[0]),'Some' if g['name']=='is_some' else 'Ok'))
@reg('Either::is_left','Either::is_right')
def is_side(i,fr,st,g,a,site,dty,bi):
    v=is_variant(i.rd(st,a[0]),'Left',('Left','Right'))
    return st,Bool(v if g['name']=='is_left' else lnot(v))
@comb('is_none','is_err')
def is_bad(i,fr,st,g,a,site,dty,bi): return st,Bool(lnot(isgood(i.rd(st,a[0]),'Some' if g['name']=='is_none' else 'Ok')))
@comb('is_some_and','is_ok_and','is_none_or')
def is_some_and(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); gd='Ok' if g['name']=='is_ok_and' else 'Some'; c=isgood(v,gd)
    st2,r=branchcall(i,fr,st,c,a[1],[getg(v,gd)],site)
    t=truth(i.rd(st2,r)) if c!=0 else 0
    return st2,Bool(lor(lnot(c),t) if g['name']=='is_none_or' else land(c,t))
@reg('Option::take')
def otake(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); setref(i,fr,st,a[0],NONE,site); return st,v
@reg('Option::replace','mem::replace')
def oreplace(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); setref(i,fr,st,a[0],a[1] if g['name']!='replace' or 'Option' not in (g.get('impl') or '') else some(a[1]),site); return st,v
@reg('Option::insert')
def oinsert(i,fr,st,g,a,site,dty,bi):
    setref(i,fr,st,a[0],some(a[1]),site); return st,a[1]
@reg('Option::get_or_insert_with','Option::get_or_insert')
def ogoi(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); c=isgood(v,'Some')
    if g['name'].endswith('with'): st,d=branchcall(i,fr,st,lnot(c),a[1],[],site)
    else: d=a[1]
    r=mkalt([(c,getg(v,'Some')),(lnot(c),d)],st.g); setref(i,fr,st,a[0],some(r),site); return st,r
@reg('mem::take')
def mtake(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); st,d=default(i,fr,st,g,[],site,dty,bi); setref(i,fr,st,a[0],d,site); return st,v
@reg('mem::swap')
def mswap(i,fr,st,g,a,site,dty,bi):
    x=i.rd(st,a[0]); y=i.rd(st,a[1]); setref(i,fr,st,a[0],y,site); setref(i,fr,st,a[1],x,site); return st,UNIT
@reg('Cell::set','RefCell::replace_','Cell::replace')
def cset(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); setref(i,fr,st,a[0],i.rd(st,a[1]),site); return st,v if g['name']=='replace' else UNIT
def setref(i,fr,st,r,v,site):
    for g,t in alts(r):
        if t.op=='LRef':
            old=i.rd_lref(st,t); nv=v if g==1 else mkalt([(g,v),(lnot(g),old)])
            if len(t.a)>1: i.wr_path(fr,st,t.a[0],[tuple(e) for e in t.a[1:]],nv,site)
            else: i._wcell(st,t.a[0],nv)
        else:
            i.emit(st,'Store','Store',[t,v],site,land(st.g,g))
            st.env[('mem',t)]=v if g==1 else mkalt([(g,v),(lnot(g),i.mem(st,t))])
@reg('Option::flatten')
def oflatten(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); c=isgood(v,'Some'); return st,mkalt([(c,getg(v,'Some')),(lnot(c),NONE)],st.g)
@reg('Option::transpose_')
def otrans(i,fr,st,g,a,site,dty,bi): return None
@reg('Option::unzip')
def ounzip(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); c=isgood(v,'Some'); p=getg(v,'Some')
    return st,tup(*[mkalt([(c,some(field(p,k))),(lnot(c),NONE)],st.g) for k in '01'])
@reg('Option::zip')
def ozip(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); w=i.rd(st,a[1]); c=land(isgood(v,'Some'),isgood(w,'Some'))
    return st,mkalt([(c,some(tup(getg(v,'Some'),getg(w,'Some')))),(lnot(c),NONE)],st.g)
@reg('Try::branch')
def trybranch(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); h=selfhead(g)
    if h=='Option': c=isgood(v,'Some'); gv=getg(v,'Some'); bv=NONE
    elif h=='Result': c=isgood(v,'Ok'); gv=getg(v,'Ok'); bv=err(vfield(v,'Err','0'))
    elif h=='ControlFlow':
        c=is_variant(v,'Continue'); gv=vfield(v,'Continue','0'); bv=v
    else: return None
    c=restrict(c,st.g)
    return st,mkalt([(c,mkagg('ControlFlow','Continue',('0',),(gv,))),(lnot(c),mkagg('ControlFlow','Break',('0',),(bv,)))])
@reg('FromResidual::from_residual')
def fromres(i,fr,st,g,a,site,dty,bi): return st,i.rd(st,a[0])
@reg('Try::from_output')
def fromout(i,fr,st,g,a,site,dty,bi):
    h=last(dty[1]) if dty else ''
    v=i.rd(st,a[0])
    return st,(some(v) if h=='Option' else ok(v) if h=='Result' else mkagg('ControlFlow','Continue',('0',),(v,)))

# ---------------------------------------------------------------- constructors
CT='''Vec HashMap HashSet IndexMap IndexVec VecDeque BTreeMap BTreeSet String SmallVec'''.split()
def ctor(i,fr,st,g,a,site,dty,bi):
    return st,i.newobj(fr,bi,mk('Call',(last(g['impl'] or (dty[1] if dty else g['cname'].rsplit('::',1)[0])))+'::new'),[])
for c in CT:
    for n in('new','with_capacity','default','new_in','with_capacity_and_hasher','with_hasher'): H[c+'::'+n]=ctor
    EMPTY_CTORS.add(c+'::new')
@reg('Default::default')
def default(i,fr,st,g,a,site,dty,bi):
    ts=dty[0] if dty else ''; th=last(dty[1]) if dty else ''
    if ts=='bool': return st,Bool(0)
    if ts in sym.INTS: return st,Int(0)
    if ts=='()': return st,UNIT
    if th=='Option': return st,NONE
    if th in COLLS and th not in('IndexSet','IndexMatrix'): return st,i.newobj(fr,bi,mk('Call',th+'::new'),[])
    bs=i.p.find('default',impl=th,trait='Default') if th else []
    if len(bs)==1 and not any(q[0] is bs[0] for q in i.stack): return i.inline(bs[0],[],st,site)
    return st,mk('Call','Default::default',Str(th or ts))
@reg('alloc::exchange_malloc','Box::new_uninit','Box::new_uninit_in')
def malloc(i,fr,st,g,a,site,dty,bi):
    key=tuple((x[0]['path'],x[1]) for x in i.stack[-8:])
    return st,mk('Malloc',str(key)+str(bi))
@reg('boxed::box_assume_init_into_vec_unsafe','slice::into_vec','Box::write','Box::assume_init')
def intovec(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0])
    if g['name']=='write':
        st.env[('mem',v)]=i.rd(st,a[1]); return st,v
    if g['name']=='assume_init': return st,v
    for x,y in list(st.env.items()):
        if isinstance(x,tuple) and x[0]=='mem' and any(z is v for z in walk(x[1])): v=y; break
    if v.op=='Agg' and v.a[0]=='<array>':
        return st,i.newobj(fr,bi,mk('Call','vec!',*v.a[3:]),[([],1,i.rd(st,x)) for x in v.a[3:]])
    if v.op=='Obj': return st,v
    return st,i.newobj(fr,bi,mk('Call','into_vec',v))
@reg('vec::from_elem')
def from_elem(i,fr,st,g,a,site,dty,bi):
    return st,i.newobj(fr,bi,mk('Call','vec::from_elem',i.rd(st,a[0]),i.rd(st,a[1])))
@reg('IndexVec::from_elem_n','IndexVec::from_elem')
def from_elem_n(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); n=i.rd(st,a[1])
    if g['name']=='from_elem': n=mk('Len',n)
    return st,i.newobj(fr,bi,mk('Call','IndexVec::from_elem_n',v,n))
@reg('IndexVec::from_fn_n','array::from_fn')
def from_fn_n(i,fr,st,g,a,site,dty,bi):
    n=i.rd(st,a[1]) if len(a)>1 else BOT
    it=mk('It','map',mkagg('Range','',('start','end'),(Int(0),n)),a[0])
    return collect(i,fr,st,g,[it],site,dty,bi)
@reg('BasicBlock::start_location')
def start_location(i,fr,st,g,a,site,dty,bi):
    return st,mkagg('Location','',('block','statement_index'),(i.rd(st,a[0]),Int(0)))
@reg('array::map')
def array_map(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0])
    if v.op!='Agg': return None
    out=[]
    for x in v.a[3:]:
        st,r=i.callval(fr,st,a[1],[x],site,None,'am'); out.append(r)
    return st,mkagg('<array>','',v.a[2],out)

# ---------------------------------------------------------------- iterator sources
def src(i,fr,st,g,a,site,dty,bi):
    h=g.get('impl') or ''
    v=i.rd(st,a[0])
    if last(h)=='Option': return st,mk('OptIt',v) if v.op!='Alt' else v
    if last(h)=='Result': return st,resit(st,v)
    return st,v
def resit(st,v):
    """a Result as the iterator of its success value"""
    if v.op=='It': return v
    c=isgood(v,'Ok'); return mk('OptIt',mkalt([(c,some(getg(v,'Ok'))),(lnot(c),NONE)],st.g))
for c in '''slice Vec HashSet HashMap IndexMap IndexSet IndexSlice IndexVec RawList VecDeque BTreeMap BTreeSet SmallVec Option Result DenseBitSet ChunkedBitSet
  MixedBitSet BitSet array ThinVec List'''.split():
    for n in('iter','iter_mut','into_iter','drain_all','into_iter_sorted'): H[c+'::'+n]=src
@reg('IntoIterator::into_iter')
def intoiter(i,fr,st,g,a,site,dty,bi):
    v=a[0]
    h=selfhead(g); ts=selfty(g)
    if v.op=='LRef':
        w=i.rd(st,v)
        if ts.startswith('&mut') and w.op=='It': return st,v
        v=w
    if h=='Option' or ts.startswith('core::option::Option') or ts.startswith('&core::option') or ts.startswith('&mut core::option'):
        return st,(v if v.op in('It',) else mk('OptIt',v))
    if h=='Result' or ts.replace('&mut ','').replace('&','').startswith('core::result::Result'): return st,resit(st,v)
    return st,v
@reg('IndexSlice::iter_enumerated','IndexVec::into_iter_enumerated','IndexSlice::iter_enumerated_mut','IndexVec::iter_enumerated')
def iter_enum(i,fr,st,g,a,site,dty,bi): return st,mk('It','enumerate',i.rd(st,a[0]))
@reg('IndexSlice::indices','IndexVec::indices')
def indices(i,fr,st,g,a,site,dty,bi): return st,mkagg('Range','',('start','end'),(Int(0),i.length(i.rd(st,a[0]))))
def vals(nm):
    def f(i,fr,st,g,a,site,dty,bi): return st,mk(nm,i.rd(st,a[0]))
    return f
for c in('HashMap','BTreeMap','IndexMap'):
    for n in('values','values_mut','into_values'): H[c+'::'+n]=vals('Values')
    for n in('keys','into_keys'): H[c+'::'+n]=vals('Keys')
@reg('iter::once','sources::once')
def once(i,fr,st,g,a,site,dty,bi): return st,mk('It','once',i.rd(st,a[0]))
H['once::once']=once
@reg('empty::empty','iter::empty')
def empty(i,fr,st,g,a,site,dty,bi): return st,mk('It','empty',UNIT)
@reg('once_with::once_with','iter::once_with')
def oncew(i,fr,st,g,a,site,dty,bi):
    st,v=i.callval(fr,st,a[0],[],site,None,'ow'); return st,mk('It','once',v)
@reg('zip::zip','iter::zip')
def zipf(i,fr,st,g,a,site,dty,bi): return st,mk('It','zip',asit(i,st,g,0,a[0]),asit(i,st,g,1,a[1]))
def asit(i,st,g,k,v):
    v=i.rd(st,v)
    ar=g.get('args') or []
    if k<len(ar) and last(ar[k][1])=='Option' and v.op not in('It',): return mk('OptIt',v)
    if k<len(ar) and last(ar[k][1])=='Result': return resit(st,v)
    return v
def argopt(g,k):
    ar=g.get('args') or []
    return '' if k>=len(ar) else {'Option':'opt','Result':'res'}.get(last(ar[k][1]),'')
# ---------------------------------------------------------------- adapters
def adapter(kind,hasclos=True):
    def f(i,fr,st,g,a,site,dty,bi):
        v=i.rd(st,a[0])
        if kind=='flat_map': return st,mk('It',kind,v,captured(i,st,a[1]),argopt(g,1))
        if hasclos: return st,mk('It',kind,v,captured(i,st,a[1]))
        return st,mk('It',kind,v)
    return f
def captured(i,st,c): return c
for k in 'map filter filter_map take_while skip_while map_while inspect flat_map'.split(): H[k]=adapter(k)
H['rev']=adapter('rev',False); H['enumerate']=adapter('enumerate',False)
H['copied']=H['cloned']=ident
@reg('flatten')
def flat(i,fr,st,g,a,site,dty,bi):
    hint='opt' if dty and 'option::Option' in dty[0].split('Flatten')[-1] else ''
    return st,mk('It','flatten',i.rd(st,a[0]),hint)
@reg('chain')
def chain(i,fr,st,g,a,site,dty,bi): return st,mk('It','chain',i.rd(st,a[0]),asit(i,st,g,1,a[1]))
@reg('zip')
def zipm(i,fr,st,g,a,site,dty,bi): return st,mk('It','zip',i.rd(st,a[0]),asit(i,st,g,1,a[1]))
@reg('take')
def take(i,fr,st,g,a,site,dty,bi): return st,mk('It','take',i.rd(st,a[0]),i.rd(st,a[1]))
@reg('skip')
def skip(i,fr,st,g,a,site,dty,bi): return st,mk('It','skip',i.rd(st,a[0]),i.rd(st,a[1]))
@reg('step_by')
def stepby(i,fr,st,g,a,site,dty,bi): return st,mk('It','step_by',i.rd(st,a[0]),i.rd(st,a[1]))
H['by_ref']=identraw; H['fuse']=ident; H['peekable']=ident

# ---------------------------------------------------------------- consumers
def seqterm(segs): return mk('Seq',*[(tuple(x.binder for x in l),g,v) for l,g,v in segs])
def rsegs(i,st,segs):
    """segments relative to the current guard"""
    return [(l,restrict(g,st.g) if g!=0 else 0,i.rd(st,v)) for l,g,v in segs]
@reg('collect','FromIterator::from_iter','Itertools::collect_vec')
def collect(i,fr,st,g,a,site,dty,bi):
    segs=rsegs(i,st,i.open(fr,st,asit(i,st,g,1 if g['name']=='from_iter' else 0,a[0]),site))
    th=last(dty[1]) if dty else ''
    if g['name']=='collect_vec': th='Vec'
    def mkobj(sg): 
        return i.newobj(fr,bi,mk('Call','collect',Str(th)),sg)
    if th in('Result','Option'):
        gd='Ok' if th=='Result' else 'Some'
        good=[(l,land(gg,is_variant(v,gd)),vfield(v,gd,'0')) for l,gg,v in segs]
        bad=i.exists_segs([(l,land(gg,lnot(is_variant(v,gd))),v) for l,gg,v in segs])
        for l,gg,v in segs:
            c=lnot(is_variant(v,gd))
        o=mkobj([(l,gg,v) for l,gg,v in good if gg!=0])
        if bad==0: return st,wrapv(gd,o)
        b=NONE if th=='Option' else err(mk('FirstErr',seqterm(segs)))
        return st,mkalt([(lnot(bad),wrapv(gd,o)),(bad,b)])
    o=mkobj(segs)
    i.emit(st,'<collect>','',[o,Str(th)],site,kind='collect')
    return st,o
def contrib(i,fr,st,tgt,val,site,loops=(),g=1):
    n=len(i.loops); i.loops+=list(loops)
    for gt,t in alts(i.rd(st,tgt)):
        for gv,v in alts(val):
            gg=landn(st.g,g,gt,gv)
            if gg!=0: i.emit(st,'Contrib','Contrib',[t,v],site,gg,kind='contrib')
    del i.loops[n:]
def ext(i,fr,st,g,a,site,dty,bi):
    it=asit(i,st,g,1 if g['trait'] else 0,a[1])
    tgt=i.rd(st,a[0])
    segs=i.open(fr,st,it,site)
    for l,gg,v in segs: contrib(i,fr,st,tgt,i.rd(st,v),site,l,gg)
    return st,UNIT
for n in '''Extend::extend Vec::extend HashSet::extend Vec::extend_from_slice SmallVec::extend Vec::append'''.split(): H[n]=ext
@reg('Vec::push','HashSet::insert','SmallVec::push','VecDeque::push_back','BTreeSet::insert','IndexVec::push','VecDeque::push_front','String::push_str','String::push')
def push(i,fr,st,g,a,site,dty,bi):
    contrib(i,fr,st,a[0],i.rd(st,a[1]),site)
    return st,(mk('Call',(g['impl'] and last(g['impl'])+'::' or '')+g['name'],i.rd(st,a[0]),i.rd(st,a[1])) if dty and dty[0]!='()' else UNIT)
@reg('any','all')
def anyall(i,fr,st,g,a,site,dty,bi):
    segs=i.open(fr,st,a[0],site); isany=g['name']=='any'
    r=0; out=[]
    for l,gg,v in segs:
        n=len(i.loops); i.loops+=l
        ne=len(i.events)
        sg=land(st.g,gg)
        if sg==0: del i.loops[n:]; continue
        s2,c=i.callval(fr,St(sg,dict(st.env)),a[1],[v],site,None,'any')
        del i.loops[n:]
        if s2.g!=0: i.merge_env(st,s2)
        c=truth(i.rd(s2,c)) if c.op!='Undef' else 0
        if not isany: c=lnot(c)
        c=restrict(land(gg,c),st.g)
        if len(i.events)>ne and c!=0:
            for x in l: x.cuts.append(c)
        out.append((l,c,v))
    r=i.exists_segs(out)
    return st,Bool(r if isany else lnot(r))
@reg('slice::contains','HashSet::contains','Vec::contains')
def contains(i,fr,st,g,a,site,dty,bi):
    c=i.rd(st,a[0]); x=i.rd(st,a[1])
    if c.op=='Agg' and c.a[0]=='<array>':
        return st,Bool(lorn(*[eqg(y,x) for y in c.a[3:]]))
    if c.op=='Obj':
        k=i.contents(c)
        if k is not None:
            return st,Bool(i.exists_segs([(l,land(gg,eqg(v,x)),v) for l,gg,v in k]))
    return st,Bool(atom(mk('In?',c,x)))
def firstof(i,fr,st,segs,nm):
    segs=[(l,g,v) for l,g,v in rsegs(i,st,segs) if g!=0]
    ex=i.exists_segs(segs)
    if ex==0: return NONE
    if len(segs)==1 and not segs[0][0]: val=segs[0][2]
    else: val=mk('FirstOf' if nm!='last' else 'LastOf',seqterm(segs))
    return mkalt([(ex,some(val)),(lnot(ex),NONE)],st.g)
@reg('find','find_map','position','rposition','last','nth','max','min','max_by_key','min_by_key','max_by','min_by','reduce','next_back','rfind')
def search(i,fr,st,g,a,site,dty,bi):
    nm=g['name']
    it=a[0]
    if nm=='find': it=mk('It','filter',i.rd(st,it),a[1])
    if nm=='rfind': it=mk('It','filter',mk('It','rev',i.rd(st,it)),a[1])
    if nm=='find_map': it=mk('It','filter_map',i.rd(st,it),a[1])
    if nm in('position','rposition'): it=mk('It','map',mk('It','filter',mk('It','enumerate',i.rd(st,it)),mk('Fst2',a[1])),mk('Fst',UNIT)) if False else i.rd(st,it)
    segs=i.open(fr,st,it,site)
    if a[0].op=='LRef' and nm in('find','find_map','rfind','position','rposition','next_back','nth'): i.consume(st,a[0],i.rd(st,a[0]),Int(1),'drop_last' if nm=='next_back' else 'rest')
    if nm in('find','find_map','rfind'): 
        return st,firstof(i,fr,st,segs,nm)
    if nm in('last','next_back'): return st,firstof(i,fr,st,segs,'last')
    segs=[(l,gg,v) for l,gg,v in rsegs(i,st,segs) if gg!=0]
    if nm in('position','rposition'):
        out=[]
        for l,gg,v in segs:
            n=len(i.loops); i.loops+=l
            s2,c=i.callval(fr,St(land(st.g,gg),dict(st.env)),a[1],[v],site,None,'pos')
            del i.loops[n:]
            c=truth(i.rd(s2,c)) if c.op!='Undef' else 0
            ix=mk('Idx',l[0].binder.a[0],l[0].binder.a[1]) if len(l)==1 and gg==1 else mk('SeqIdx',v)
            out.append((l,land(gg,restrict(c,st.g)),ix))
        return st,firstof(i,fr,st,out,nm)
    ex=i.exists_segs(segs)
    sq=seqterm(segs)
    extra=[i.rd(st,x) for x in a[1:]]
    if nm=='reduce':
        pv=mk('Acc',sq)
        for l,gg,v in segs:
            n=len(i.loops); i.loops+=l
            s2,r=i.callval(fr,St(land(st.g,gg),dict(st.env)),a[1],[pv,v],site,None,'red')
            del i.loops[n:]
            if s2.g!=0: i.merge_env(st,s2)
        val=mk('Call','Iterator::reduce',sq,i.rd(st,r) if segs else UNIT)
    else: val=mk('Call','Iterator::'+nm,sq,*extra)
    return st,mkalt([(ex,some(val)),(lnot(ex),NONE)],st.g)
@reg('count','sum','product','cmp','eq','ne','size_hint','min_max')
def agg(i,fr,st,g,a,site,dty,bi):
    segs=[(l,gg,i.rd(st,v)) for l,gg,v in i.open(fr,st,a[0],site)]
    return st,mk('Call','Iterator::'+g['name'],seqterm(segs),*[i.norm_arg(fr,st,x,site) for x in a[1:]])
@reg('for_each','try_for_each')
def foreach(i,fr,st,g,a,site,dty,bi):
    for l,gg,v in i.open(fr,st,a[0],site):
        n=len(i.loops); i.loops+=l
        if land(st.g,gg)!=0:
            s2,r=i.callval(fr,St(land(st.g,gg),dict(st.env)),a[1],[v],site,None,'fe')
            if s2.g!=0: i.merge_env(st,s2)
        del i.loops[n:]
    return st,UNIT
@reg('fold')
def fold(i,fr,st,g,a,site,dty,bi):
    acc=i.rd(st,a[1])
    segs=i.open(fr,st,a[0],site)
    for l,gg,v in segs:
        n=len(i.loops); i.loops+=l
        b0=land(st.g,gg)
        if b0==0: del i.loops[n:]; continue
        isobj=acc.op=='Obj'
        pv=acc if isobj else (mk('Prev','fold',site,acc) if l else acc)
        s2,r=i.callval(fr,St(b0,dict(st.env)),a[2],[pv,v],site,None,'fold')
        del i.loops[n:]
        if s2.g!=0: i.merge_env(st,s2)
        r=i.rd(s2,r)
        if isobj and r is acc: continue
        if not l: acc=mkalt([(gg,r),(lnot(gg),acc)]); continue
        if acc.op=='Bool' and r.op=='Bool':
            f=restrict(r.a[0],b0); vi=B.vars.get(pv)
            rr=atom(pv)
            # boolean accumulation
            if vi is None: vi=-1
            f1=B.cofactor(f,vi,1) if vi>=0 else f; f0=B.cofactor(f,vi,0) if vi>=0 else f
            if f1==1: acc=Bool(lor(acc.a[0],i.exists_segs([(l,land(gg,f0),v)]))); continue
            if f0==0: acc=Bool(land(acc.a[0],lnot(i.exists_segs([(l,land(gg,lnot(f1)),v)])))); continue
        acc=mk('Fold',pv,acc,mk('Seq',(tuple(x.binder for x in l),gg,r)))
    return st,acc
@reg('next')
def nxt(i,fr,st,g,a,site,dty,bi): return i.next(fr,st,a[0],site,None)
@reg('Vec::pop','VecDeque::pop_front','VecDeque::pop_back')
def pop(i,fr,st,g,a,site,dty,bi):
    r=None
    v=i.rd(st,a[0])
    i.emit(st,'Pop',g['fn'],[v],site)
    return st,mkopt(mk('Call','Pop',v))
def mkopt(v): return v
@reg('partition','unzip')
def partition(i,fr,st,g,a,site,dty,bi):
    segs=rsegs(i,st,i.open(fr,st,a[0],site))
    if g['name']=='unzip':
        return st,tup(i.newobj(fr,str(bi)+'a',mk('Call','collect',Str('0')),[(l,gg,field(v,'0')) for l,gg,v in segs]),i.newobj(fr,str(bi)+'b',mk('Call','collect',Str('1')),[(l,gg,field(v,'1')) for l,gg,v in segs]))
    A=[];Bq=[]
    for l,gg,v in segs:
        n=len(i.loops); i.loops+=l
        s2,c=i.callval(fr,St(land(st.g,gg),dict(st.env)),a[1],[v],site,None,'pt')
        del i.loops[n:]
        c=restrict(truth(i.rd(s2,c)),st.g)
        if land(gg,c): A.append((l,land(gg,c),v))
        if land(gg,lnot(c)): Bq.append((l,land(gg,lnot(c)),v))
    return st,tup(i.newobj(fr,str(bi)+'a',mk('Call','collect',Str('0')),A),i.newobj(fr,str(bi)+'b',mk('Call','collect',Str('1')),Bq))

# ---------------------------------------------------------------- container queries
def lenf(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0])
    if v.op=='Agg' and v.a[0]=='<array>': return st,Int(len(v.a)-3)
    return st,i.length(v)
def isempty(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0])
    if v.op=='Obj':
        c=i.contents(v)
        if c is not None: return st,Bool(lnot(i.exists_segs(c)))
    return st,Bool(eqg(i.length(v),Int(0)))
for c in 'Vec slice HashMap HashSet IndexSet IndexVec IndexSlice RawList SmallVec VecDeque BTreeSet BTreeMap String ExactSizeIterator List ThinVec IndexMap'.split():
    H[c+'::len']=lenf; H[c+'::is_empty']=isempty
H['len']=lenf
def memoized(i,m,k):
    if (m,k) not in i.memo: return None
    v,e=i.memo[(m,k)]
    return v if any(x is e for x in reversed(i.events)) else None
@reg('Index::index','IndexMut::index_mut')
def index(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); k=i.rd(st,a[1])
    x=memoized(i,v,k)
    if x is not None: return st,x
    i.partial.append((st.g,site,'index',v,k))
    return st,i.mem(st,i.index(v,k))
@reg('HashMap::get','HashMap::get_mut','slice::get','slice::get_mut','IndexSlice::get','IndexVec::get','BTreeMap::get','IndexSlice::get_mut','IndexMap::get')
def get(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); k=i.rd(st,a[1])
    x=memoized(i,v,k)
    if x is not None: return st,some(x)
    r=i.index(v,k)
    c=1 if r.op=='Elem' else atom(mk('HasKey',v,k))
    return st,mkalt([(c,some(r)),(lnot(c),NONE)],st.g)
@reg('HashMap::contains_key','BTreeMap::contains_key')
def ckey(i,fr,st,g,a,site,dty,bi): return st,Bool(atom(mk('HasKey',i.rd(st,a[0]),i.rd(st,a[1]))))
@reg('slice::first','slice::last','Vec::first','Vec::last','slice::last_mut','slice::first_mut')
def firstlast(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0])
    e=eqg(i.length(v),Int(0))
    return st,mkalt([(lnot(e),some(mk('Nth',v,0 if g['name'].startswith('first') else -1))),(e,NONE)],st.g)
@reg('HashMap::entry','BTreeMap::entry','IndexMap::entry')
def entry(i,fr,st,g,a,site,dty,bi): return st,mk('Entry',i.rd(st,a[0]),i.rd(st,a[1]))
@reg('Entry::or_default','Entry::or_insert','Entry::or_insert_with','Entry::or_insert_with_key')
def ordefault(i,fr,st,g,a,site,dty,bi):
    e=i.rd(st,a[0])
    if e.op!='Entry': return None
    m,k=e.a
    r=mk('Index',m,k)
    if g['name'] in('or_insert_with','or_insert_with_key'):
        c=atom(mk('HasKey',m,k))
        st,v=branchcall(i,fr,st,lnot(c),a[1],[] if g['name']=='or_insert_with' else [k],site)
        if v.op!='Obj' or i.contents(v)!=[]: i.emit(st,'Memo',g['fn'],[m,k,v],site); return st,v
        i.emit(st,'Entry::init',g['fn'],[r,v],site)
    elif g['name']=='or_insert':
        i.emit(st,'Entry::init',g['fn'],[r,i.rd(st,a[1])],site)
    else: i.emit(st,'Entry::init',g['fn'],[r],site)
    return st,r
@reg('HashMap::insert','BTreeMap::insert','IndexMap::insert')
def minsert(i,fr,st,g,a,site,dty,bi):
    m,k,v=[i.rd(st,x) for x in a]
    for gk,kk in alts(k):
        for gv,vv in alts(v):
            gg=landn(st.g,gk,gv)
            if gg==0: continue
            if m.op!='Obj' and implies(gg,lnot(atom(mk('HasKey',m,kk)))): # only if there is none yet: the table is a memo
                i.memo[(m,kk)]=(vv,i.emit(st,'Memo',g['fn'],[m,kk,vv],site,gg))
            else: i.emit(st,'MapInsert',g['fn'],[m,kk,vv],site,gg)
    return st,mk('Call','HashMap::insert',m,k)
@reg('LocalKey::with','LocalKey::with_borrow','LocalKey::with_borrow_mut')
def lkwith(i,fr,st,g,a,site,dty,bi):
    k=i.rd(st,a[0])
    return i.callval(fr,st,a[1],[k],site,dty,bi)
@reg('Cache::get','CopyCache::get')
def cacheget(i,fr,st,g,a,site,dty,bi):
    c=i.rd(st,a[0]); k=deep(i,st,a[1])
    clos=i.rd(st,a[2])
    key=k
    st,v=i.callval(fr,st,clos,[k],site,None,bi)
    v=i.rd(st,v)
    if v.op=='Undef': return None
    i.emit(st,'Memo',g['fn'],[c,k,v],site)
    return st,v
@reg('Fn::call_','panicking::panic_')
def _no(*a): return None
@reg('RangeInclusive::new')
def ri(i,fr,st,g,a,site,dty,bi): return st,mk('Call','RangeInclusive::new',i.rd(st,a[0]),i.rd(st,a[1]))
@reg('ptr::eq')
def ptreq(i,fr,st,g,a,site,dty,bi): return st,Bool(eqg(i.rd(st,a[0]),i.rd(st,a[1])))
@reg('num::max','cmp::max','cmp::min','Ord::max','Ord::min')
def omax(i,fr,st,g,a,site,dty,bi): return st,mk('Call',g['name'],i.rd(st,a[0]),i.rd(st,a[1]))
@reg('Ord::cmp','PartialOrd::partial_cmp')
def ocmp(i,fr,st,g,a,site,dty,bi): return st,mk('Call','cmp',deep(i,st,a[0]),deep(i,st,a[1]))
@reg('mem::drop','drop::drop','mem::forget')
def drop(i,fr,st,g,a,site,dty,bi): return st,UNIT
@reg('HasLocalDecls::local_decls')
def ldecls(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0])
    return st,(field(v,'local_decls') if selfhead(g)=='Body' else v)
@reg('PlaceRef::ty','Place::ty')
def pty(i,fr,st,g,a,site,dty,bi):
    return i.opaque_call(fr,st,'Place::ty',g['fn'],a,site,dty,g,bi)
H['Place::as_ref']=ident

# ---------------------------------------------------------------- MIR operands
@reg('OperandExt::as_place','Operand::place')
def operand_place(i,fr,st,g,a,site,dty,bi):
    o=i.rd(st,a[0]); r=[]
    for h,x in alts(o):
        c=lorn(*[is_variant(x,v,ENUMVARS.get('Operand',('Copy','Move','Constant'))) for v in('Copy','Move')])
        r+=[(land(h,c),some(vfield(x,'Copy','0'))),(land(h,lnot(c)),NONE)]
    return st,mkalt(r)

# ---------------------------------------------------------------- MIR bodies
_index0=index
def memoized(i,m,k):
    if (m,k) not in i.memo: return None
    v,e=i.memo[(m,k)]
    return v if any(x is e for x in reversed(i.events)) else None
@reg('Index::index','IndexMut::index_mut')
def index_body(i,fr,st,g,a,site,dty,bi):
    # Body derefs to its basic blocks when indexed
    if last(selfty(g))=='Body' or selfhead(g)=='Body': a=[field(i.rd(st,a[0]),'basic_blocks')]+list(a[1:])
    return _index0(i,fr,st,g,a,site,dty,bi)
@reg('BasicBlockData::terminator','BasicBlockData::terminator_mut')
def bb_term(i,fr,st,g,a,site,dty,bi): return st,vfield(field(i.rd(st,a[0]),'terminator'),'Some','0')
@reg('Mutability::is_mut','Mutability::is_not')
def mutis(i,fr,st,g,a,site,dty,bi):
    w='Mut' if g['name']=='is_mut' else 'Not'
    return st,Bool(lorn(*[land(h,is_variant(x,w,ENUMVARS.get('Mutability',('Not','Mut')))) for h,x in alts(i.rd(st,a[0]))]))
@reg('Ty::is_raw_ptr','Ty::is_unsafe_ptr','Ty::is_ref','Ty::is_fn_ptr','Ty::is_slice','Ty::is_never','Ty::is_closure')
def tyis(i,fr,st,g,a,site,dty,bi):
    w={'is_raw_ptr':'RawPtr','is_unsafe_ptr':'RawPtr','is_ref':'Ref','is_fn_ptr':'FnPtr','is_slice':'Slice','is_never':'Never','is_closure':'Closure'}[g['name']]
    return st,Bool(lorn(*[land(h,is_variant(mk('Call','Ty::kind',x),w,ENUMVARS.get('TyKind'))) for h,x in alts(i.rd(st,a[0]))]))
@reg('Region::kind')
def rkind(i,fr,st,g,a,site,dty,bi):
    return st,field(field(i.rd(st,a[0]),'0'),'0')
@reg('slice::concat','Concat::concat')
def sconcat(i,fr,st,g,a,site,dty,bi):
    v=i.rd(st,a[0]); segs=[]
    if v.op=='Agg' and v.a[0]=='<array>':
        for x in v.a[3:]: segs+=i.open(fr,st,peel_slice(i.rd(st,x)),site)
        return st,i.newobj(fr,bi,mk('Call','collect',Str('Vec')),rsegs(i,st,segs))
    return None
def peel_slice(v):
    while v.op=='Call' and v.a[0] in('RawList::as_slice','Vec::as_slice','slice::as_slice','Deref::deref'): v=v.a[1]
    return v

# ---------------------------------------------------------------- fluid_let, rustc_driver
@reg('DynamicVariable::cloned')
def dv_cloned(i,fr,st,g,a,site,dty,bi):
    r=mk('Call','DynamicVariable::copied',i.rd(st,a[0])); ev=i.emit(st,'DynamicVariable::copied',g['fn'],[i.rd(st,a[0])],site); ev.ret=r
    return st,r
@reg('DynamicVariable::get')
def dv_get(i,fr,st,g,a,site,dty,bi):
    r=mk('Call','DynamicVariable::copied',i.rd(st,a[0])); ev=i.emit(st,'DynamicVariable::copied',g['fn'],[i.rd(st,a[0])],site); ev.ret=r
    return i.callval(fr,st,a[1],[r],site,dty,bi)
@reg('DynamicVariable::set')
def dv_set(i,fr,st,g,a,site,dty,bi):
    args=[i.rd(st,x) for x in a[:2]]
    gd=mk('Call','DynamicVariable::set_guard',*args); ev=i.emit(st,'DynamicVariable::set_guard',g['fn'],args,site); ev.ret=gd
    st,r=i.callval(fr,st,a[2],[],site,dty,bi)
    i.emit(st,'Drop','',[gd],site,kind='drop')
    return st,r
@reg('rustc_driver_impl::run_compiler','rustc_driver::run_compiler')
def run_compiler(i,fr,st,g,a,site,dty,bi):
    """calls back into the callbacks object, whose fields have unknown contents afterwards"""
    st,r=i.opaque_call(fr,st,i.fnname(g),g['fn'],a,site,dty,g,bi)
    if len(a)>1:
        old=i.rd(st,a[1]); setref(i,fr,st,a[1],mk('Call','<after run_compiler>',i.norm_arg(fr,st,old,site)),site)
    return st,r
@reg('intravisit::walk_body','intravisit::walk_expr','intravisit::walk_item','intravisit::walk_crate','intravisit::walk_block','intravisit::walk_stmt','intravisit::walk_fn','intravisit::walk_mod','intravisit::walk_local',
 'TyCtxt::hir_visit_all_item_likes_in_crate','TyCtxt::hir_walk_toplevel_module','TyCtxt::hir_visit_item_likes_in_module','TyCtxt::hir_walk_attributes')
def hir_walk(i,fr,st,g,a,site,dty,bi):
    """calls back into the visitor, whose fields (except the type context) have unknown contents afterwards"""
    st,r=i.opaque_call(fr,st,i.fnname(g),g['fn'],a,site,dty,g,bi)
    v=a[0] if last(i.fnname(g)).startswith('walk_') else a[-1]
    for gg,t in alts(v):
        tys=[h for _,h in g.get('args',[]) if h in i.p.adts and not i.p.adts[h]['enum']]
        if not tys: continue
        for nm,ty in [(f[0],f[1]) for f in i.p.adts[tys[0]]['vs'][0][1]]:
            if 'TyCtxt' in str(ty): continue
            x=t
            if t.op=='LRef':
                o=i.rd_lref(st,t); nv=mk('Call','<after visit>',i.norm_arg(fr,st,i.proj(st,fr,o,('f',0,nm,'')),site))
                c=t.a[0]; path=[tuple(e) for e in t.a[1:]]+[('f',0,nm,tys[0])]
                i.wr_path(fr,st,c,path,nv if gg==1 else mkalt([(gg,nv),(lnot(gg),i.proj(st,fr,o,('f',0,nm,'')))]),site)
            else:
                k=field(t,nm); st.env[('mem',k)]=mk('Call','<after visit>',i.mem(st,k))
    return st,r
