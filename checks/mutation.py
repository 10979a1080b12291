"""C01, C02: effects of assignments and calls (infoflow/mutation.rs)."""
from registry import check
from rules import *

MV='ModularMutationVisitor'
def callback_rows(R,rep,pid):
    """rows of the mutation lists handed to the visitor's callback: (callback event, loops, guard, value)"""
    self=R.p(0)
    evs=[e for e in R.events if e.name=='<callvalue>' and e.args[0].op=='Field' and e.args[0].a[0] is self]
    out=[]
    for e in evs:
        rep.ok('callback-location',len(e.args)==3 and e.args[1] is R.p(2),'the callback is given another location: '+short(e.args[1]) if len(e.args)>1 else 'callback arity',e.site)
        rep.ok('callback-once',not e.loops,'the callback is invoked repeatedly for one instruction',e.site)
        for l,g,v in R.rows(e.args[2],e.guard): out.append((e,l,g,R.norm(v)))
    return evs,out
def is_idx(t,l):
    """t is the running index of the loop l (a single iteration space)"""
    return t.op=='Idx' and len(l)>=1 and l[-1].binder is mk('B',*t.a)
def elem_of(t,coll,l):
    """t is the element of coll visited by loop l: iterated or zipped with what is iterated"""
    return t.op=='Elem' and t.a[0] is coll and len(l)>=1 and l[-1].binder.a[1]==t.a[1] and (l[-1].binder.a[0] is coll or (l[-1].extra and coll in l[-1].extra))

@check('C01','Index operands inside a place projection (the i in a[i]) are not places read in the sense of this property: rustc_utils PlaceCollector reports the enclosing place.')
def C01(L,rep):
    R=L.rust.run(rep,'visit_assign','flowistry',impl=MV,opaque=())
    rep.rule('Every mutation list handed to the callback by visit_assign is enumerated symbolically; each mutation must be one of three complete forms (whole-place with all places collected from the rvalue; field k of an aggregate from operand k; field k of a copied struct from field k), be Definitely, and together the calls must cover every rvalue.')
    self,mut,rv=R.p(0),R.p(1),R.p(3-1)
    mut,rv,loc=R.params[1],R.params[2],R.params[3]
    self=R.p(0)
    evs=[e for e in R.events if e.name=='<callvalue>' and mentions(e.args[0],self)]
    rep.ok('callback-exists',bool(evs),'visit_assign never reports a mutation')
    tot=0; over=0
    for e in evs:
        over=lor(over,land(tot,e.guard)); tot=lor(tot,e.guard)
        rep.ok('callback-args',len(e.args)==3 and e.args[1] is loc,'the callback does not receive the location of the assignment',e.site)
        rep.ok('callback-not-in-loop',not e.loops,'one callback per element instead of one per assignment',e.site)
    rep.ok('every-assignment-reported',R.covered(tot),'no mutation is reported when not (%s)'%gshow(tot))
    rep.ok('reported-once',not sat(over),'an assignment is reported twice')
    RV=lambda *v: isv(rv,'Rvalue',*v)
    ak=None
    nG=nA=nS=0
    for e in evs:
        lst=[(l,g,R.norm(v)) for l,g,v in R.rows(e.args[2],e.guard)]
        if not rep.ok('mutation-list-known',bool(lst) ,'the reported mutation list is empty or cannot be determined',e.site): continue
        cov=0; whole=0; perel={}
        for l,g,v in lst:
            if not rep.ok('mutation-shape',v.op=='Agg' and v.a[0]=='Mutation','not a Mutation: '+short(v),e.site): continue
            f=fields_of(v)
            rep.ok('definite',f['status'].op=='Agg' and f['status'].a[1]=='Definitely','the target of an assignment is not reported as definitely mutated (%s)'%short(f['status']),e.site)
            rep.ok('no-early-exit',not cut(l),'the list of field mutations may stop early',e.site)
            m,ins=f['mutated'],f['inputs']
            mm=match(('call','Place::project_deeper','?base',('arr',('agg','ProjectionElem','Field',{'0':'?i','1':'?ty'})),'...'),m)
            if m is mut:
                # whole place
                if whole_inputs(R,rep,e,g,ins,rv,l): nG+=1; cov=lor(cov,exists(l,g)); whole=lor(whole,g)
            elif mm and l:
                k=mm['i']
                if aggregate(R,rep,e,l,g,mm,ins,rv,mut): nA+=1; cov=lor(cov,exists(l,g)); perel.setdefault(l[-1].binder,[0,0])[0]=lor(perel.setdefault(l[-1].binder,[0,0])[0],g)
                elif struct_copy(R,rep,e,l,g,mm,ins,rv,mut): nS+=1; cov=lor(cov,exists(l,g)); perel.setdefault(l[-1].binder,[0,1]); perel[l[-1].binder][0]=lor(perel[l[-1].binder][0],g); perel[l[-1].binder][1]=1
                else: rep.ok('field-mutation','' , 'field mutation with the wrong input: %s gets %s'%(short(m),[short(x[2]) for x in R.rows(ins)]),e.site)
            else:
                rep.ok('mutated-place',False,'an assignment reports a mutation of %s instead of its target or a field of it'%short(m),e.site)
        need=land(e.guard,lnot(whole)); tot_el=0
        for b,(G,vis) in perel.items():
            tot_el=lor(tot_el,G)
            if vis:
                # fields the analysed function cannot see may be left out
                for t in walk_g(Bool(G)):
                    if match(('call','Visibility::is_accessible_from',('f',('elem',b.a[0]),'vis'),('f',('f',self,'place_info'),'def_id'),'...'),t):
                        dom=B.exists(G,B.vars[t]); need=land(need,lor(atom(t),lnot(dom)))
        if perel: rep.ok('every-field',implies(need,tot_el),'a field is left out when %s'%gshow(land(need,lnot(tot_el)),3000),e.site)
        rep.ok('list-nonempty',R.covered(cov,e.guard),'the reported list can be empty or incomplete when %s'%gshow(land(e.guard,lnot(cov))),e.site)
    rep.ok('form-whole',nG>0,'no whole-place form found'); rep.ok('form-aggregate',nA>0,'no aggregate form found'); rep.ok('form-struct',nS>0,'no struct-copy form found')
def whole_inputs(R,rep,e,g,ins,rv,l):
    """inputs = everything the rvalue reads"""
    # a collector filled by visiting the rvalue, or the single place of a Use
    place=vfield(vfield(rv,'Use','0'),'Copy','0')
    rws=R.rows(ins)
    use=land(isv(rv,'Rvalue','Use'),isv(vfield(rv,'Use','0'),'Operand','Copy','Move'))
    if len(rws)==1 and R.norm(rws[0][2]) is place and not rws[0][0]:
        return rep.ok('whole-use',implies(g,use),'the operand place stands for all inputs although the rvalue may be something else',e.site)
    base=ins.a[0] if ins.op=='Field' else None
    vis=[x for x in R.events if x.name in('Visitor::visit_rvalue','PlaceCollector::visit_rvalue') and base is not None and R.norm(x.args[0]) is base and x.args[1] is rv and x.seq<e.seq]
    vg=0
    for x in vis: vg=lor(vg,x.guard)
    return rep.ok('whole-inputs',bool(vis) and 'PlaceCollector' in pp(base) and implies(g,vg),'the inputs of the assignment are not all places read by its right-hand side (%s)'%short(ins),e.site)
def inputs_of_operand(R,ins,ops,l):
    """inputs = as_place of operand k"""
    rws=R.rows(ins)
    if not rws: return None
    gs=0
    for ll,g,v in rws:
        v=R.norm(v)
        mm=match(('vf','?o','Copy','0'),v)
        if mm is None or not elem_of(mm['o'],ops,l) or ll: return None
        gs=lor(gs,g)
    o=mm['o']
    return gs,isv(o,'Operand','Copy','Move')
def aggregate(R,rep,e,l,g,mm,ins,rv,mut):
    ops=vfield(rv,'Aggregate','1'); kind=None
    if not implies(g,isv(rv,'Rvalue','Aggregate')): return False
    io=inputs_of_operand(R,ins,R.norm(ops),l)
    if io is None:
        ops2=[mk('Field',ops,'raw')]
        for o in ops2:
            io=inputs_of_operand(R,ins,o,l)
            if io: break
    if io is None: return False
    gs,need=io
    rep.ok('aggregate-operand-complete',implies(need,gs),'an operand that is a place is not always an input',e.site)
    i=mm['i']
    rep.ok('aggregate-field-index',i.op=='Idx' and l and l[-1].binder.a[1]==i.a[1] and (l[-1].binder.a[0] is i.a[0] or (l[-1].extra and i.a[0] in l[-1].extra)) ,'field and operand are not paired by position: field %s'%short(i),e.site)
    # base place
    b=mm['base']
    dc=match(('call','Place::project_deeper',mut,('arr',('agg','ProjectionElem','Downcast',{'1':'?v'})),'...'),b)
    akt=None
    for t in walk_g(Bool(g)):
        if t.op=='Bit' and t.a[2]==tuple(TM.ENUMVARS.get('AggregateKind',())): akt=t.a[0]
    if not rep.ok('aggregate-kind-tested',akt is not None,'aggregate kind is not examined',e.site): return True
    adt=isv(akt,'AggregateKind','Adt'); tupk=isv(akt,'AggregateKind','Tuple')
    rep.ok('aggregate-kinds',implies(g,lor(adt,tupk)),'an aggregate other than a struct, tuple, enum or union is split by field',e.site)
    enumg=0
    for t in walk_g(Bool(g)):
        if t.op in('Bit','Is') and t.a[0].op=='Call' and t.a[0].a[0]=='AdtDef::adt_kind': enumg=lor(enumg,isv(t.a[0],'AdtKind','Enum'))
        if t.op=='Call' and t.a[0]=='AdtDef::is_enum': enumg=lor(enumg,atom(t))
    act=is_variant(vfield(akt,'Adt','4'),'Some'); uni=0
    for t in walk_g(Bool(g)):
        if t.op=='Call' and t.a[0] in('AdtDef::is_union',): uni=lor(uni,atom(t))
        if t.op in('Bit','Is') and t.a[0].op=='Call' and t.a[0].a[0]=='AdtDef::adt_kind': uni=lor(uni,isv(t.a[0],'AdtKind','Union'))
    rep.ok('aggregate-not-union',implies(land(g,adt),lnot(act)) or (uni!=0 and implies(land(g,adt),lnot(uni))),'the single operand of a union is recorded as its first field, whichever field is active',e.site)
    if dc is not None:
        rep.ok('aggregate-downcast',dc['v'] is vfield(akt,'Adt','1'),'downcast to a variant other than the constructed one',e.site)
        rep.ok('aggregate-downcast-only-enum',implies(g,adt),'downcast of a non-ADT',e.site)
    else:
        rep.ok('aggregate-base',b is mut,'fields of %s instead of the assigned place'%short(b),e.site)
        rep.ok('aggregate-enum-downcast',implies(g,lor(tupk,lnot(enumg))) and (enumg!=0 or implies(g,tupk)),'fields of an enum value are recorded without the variant',e.site)
    return True
def struct_copy(R,rep,e,l,g,mm,ins,rv,mut):
    opd=vfield(rv,'Use','0'); place=vfield(opd,'Copy','0')
    if not implies(g,land(isv(rv,'Rvalue','Use'),isv(opd,'Operand','Copy','Move'))): return False
    rws=R.rows(ins)
    if len(rws)!=1 or rws[0][0]: return False
    v=R.norm(rws[0][2])
    src=match(('call','Place::project_deeper',place,('arr',('agg','ProjectionElem','Field',{'0':'?i','1':'?ty'})),'...'),v)
    if src is None: return False
    rep.ok('copy-same-field',src['i'] is mm['i'],'field %s of the target gets field %s of the source'%(short(mm['i']),short(src['i'])),e.site)
    rep.ok('copy-base',mm['base'] is mut,'fields of another place are recorded',e.site)
    i=mm['i']
    c=i.a[0] if i.op=='Idx' else None
    # the index must be a position in the complete field list
    okidx=c is not None and c.op=='Field' and c.a[1]=='fields'
    okidx=okidx or (c is not None and c.op=='Call' and c.a[0] in('AdtDef::all_fields',))
    rep.ok('copy-field-index',okidx,'the field index is not the position of the field in the struct: it counts only %s'%short(c if c is not None else i),e.site)
    return True

def async_ignored(R,place,self):
    """guard: the place has the async context type of an async body (exactly this test is recognised)"""
    g=0
    pi=field(self,'place_info')
    ctx=lambda t: match(('call','BodyExt::async_context',('f',pi,'body'),'_',('f',pi,'def_id')),t)
    for t in atoms_in(*[e.guard for e in R.events]+[e.args[k] for e in R.events for k in range(len(e.args))]):
        if t.op!='Eq': continue
        for x,y in((t.a[0],t.a[1]),(t.a[1],t.a[0])):
            if match(('call','TyCtxt::erase_regions','_',('f',('call','Place::ty',place,'...'),'ty')),x):
                m=match(('call','TyCtxt::erase_regions','_',('vf','?c','Some','0')),y)
                if m and ctx(m['c']): g=lor(g,land(atom(t),is_variant(m['c'],'Some')))
    return g
@check('C02')
def C02(L,rep):
    R=L.rust.run(rep,'visit_terminator','flowistry',impl=MV,opaque=('reachable_values','async_context'))
    rep.rule('The mutation list handed to the callback for a call terminator is enumerated symbolically: the destination row must exist and take every argument place (unless the result is unit), every element of reachable_values(arg, Mut) of every argument must be a Possibly row taking every argument place; only arguments of the async context type may be filtered.')
    self,term,loc=R.params[:3]
    kind=field(term,'kind'); isc=isv(kind,'TerminatorKind','Call')
    dest=vfield(kind,'Call','destination'); args=vfield(kind,'Call','args'); fn=vfield(kind,'Call','func')
    evs=[e for e in R.events if e.name=='<callvalue>' and e.args[0].op=='Field' and e.args[0].a[0] is self]
    tot=0
    for e in evs:
        rep.ok('callback-args',len(e.args)==3 and e.args[1] is loc and not e.loops,'the callback is not called once with the location of the call',e.site)
        rep.ok('once',not sat(land(tot,e.guard)),'a call is reported twice',e.site); tot=lor(tot,e.guard)
    rep.ok('every-call-reported',R.covered(tot,isc),'no effect is reported for a call when %s'%gshow(land(isc,lnot(tot))))
    def place_of_arg(v):
        m=match(('vf',('f','?a','node'),'Copy','0'),v)
        return m['a'] if m else None
    def is_arg(a): return a is not None and a.op=='Elem' and is_args(a.a[0])
    def is_args(c):
        while c is not args and c.op=='Field': c=c.a[0]
        return c is args
    def inputs_ok(e,g,ins,key,what):
        """every argument place is an input"""
        cov=0; a0=None; fcov=0
        for l,h,v in R.rows(ins):
            v=R.norm(v); a=place_of_arg(v)
            if is_arg(a) and len(l)==1: cov=lor(cov,h); a0=a; rep.ok(key+'-no-cut',not cut(l),'not all arguments are inputs of %s'%what,e.site)
            elif v is vfield(fn,'Copy','0') and not l: fcov=lor(fcov,h)
        fneed=land(g,isv(fn,'Operand','Copy','Move'))
        rep.ok(key+'-func',implies(fneed,fcov),'the called function value is not an input of %s'%what,e.site)
        if not rep.ok(key,a0 is not None,'the arguments of the call are not inputs of %s'%what,e.site): return
        place=vfield(field(a0,'node'),'Copy','0')
        need=landn(g,isv(field(a0,'node'),'Operand','Copy','Move'),lnot(async_ignored(R,place,self)))
        rep.ok(key+'-complete',implies(need,cov),'an argument is not an input of %s when %s'%(what,gshow(land(need,lnot(cov)),600)),e.site)
    for e in evs:
        lst=[(l,g,R.norm(v)) for l,g,v in R.rows(e.args[2],land(e.guard,isc))]
        dg=0; mg=0; am=None; unit=0
        ig=[h for _,g,v in lst if v.op=='Agg' and v.a[0]=='Mutation' for _,h,_ in R.rows(fields_of(v)['inputs'],g)]
        for t in atoms_in(e.guard,*[g for _,g,_ in lst],*ig):
            if match(('call','Ty::is_unit',('f',('call','Place::ty',dest,'...'),'ty')),t): unit=atom(t)
        for l,g,v in lst:
            if not rep.ok('mutation-shape',v.op=='Agg' and v.a[0]=='Mutation','not a Mutation: '+short(v),e.site): continue
            f=fields_of(v); m=f['mutated']; definite=f['status'].op=='Agg' and f['status'].a[1]=='Definitely'
            rep.ok('status-known',f['status'].op=='Agg','status depends on something unknown: '+short(f['status']),e.site)
            rep.ok('no-early-exit',not cut(l),'the effects of a call may be enumerated only partly',e.site)
            if m is dest and not l:
                rep.ok('dest-definite',definite,'the destination of a call is not definitely mutated',e.site)
                dg=lor(dg,g)
                if sat(land(g,lnot(unit))): inputs_ok(e,land(g,lnot(unit)),f['inputs'],'dest-inputs','the destination')
                continue
            rep.ok('only-dest-definite',not definite,'%s is reported as definitely overwritten by a call'%short(m),e.site)
            mm=match(('elem',('call','PlaceInfo::reachable_values',field(self,'place_info'),'?p',('agg','Mutability','Mut'))),m)
            if mm and is_arg(place_of_arg(mm['p'])):
                if m.a[0] in colls(l): mg=lor(mg,g); am=place_of_arg(mm['p'])
                inputs_ok(e,g,f['inputs'],'mut-inputs','mutable data reachable from an argument')
        rep.ok('dest-reported',R.covered(dg,land(e.guard,isc)),'the destination is not reported when %s'%gshow(land(e.guard,lnot(dg))),e.site)
        if rep.ok('reachable-reported',am is not None,'mutable data reachable from the arguments is not reported (reachable_values with Mutability::Mut of every argument)',e.site):
            place=vfield(field(am,'node'),'Copy','0')
            need=landn(e.guard,isc,isv(field(am,'node'),'Operand','Copy','Move'),lnot(async_ignored(R,place,self)))
            rep.ok('reachable-complete',implies(need,mg),'mutable data reachable from an argument is left out when %s'%gshow(land(need,lnot(mg)),600),e.site)
