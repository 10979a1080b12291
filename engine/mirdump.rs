// MIR dumper: a rustc driver that behaves exactly like rustc but, for the crates named in
// VERIF_DUMP_CRATES, additionally writes a JSON description of every body's MIR.
// Zero dependencies; compiled by engine/build with the toolchain pinned by /repo.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
  let mut o = String::with_capacity(s.len() + 2);
  o.push('"');
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 => {
        let _ = write!(o, "\\u{:04x}", c as u32);
      }
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
  let v: Vec<String> = it.into_iter().collect();
  format!("[{}]", v.join(","))
}

struct D<'tcx> {
  tcx: TyCtxt<'tcx>,
  adts: BTreeMap<String, DefId>,
}

struct BodyCx<'a, 'tcx> {
  body: &'a Body<'tcx>,
  env: TypingEnv<'tcx>,
  owner: DefId,
}

impl<'tcx> D<'tcx> {
  fn path(&self, d: DefId) -> String {
    self.cr(ty::print::with_no_visible_paths!(ty::print::with_crate_prefix!(
      ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    )))
  }
  fn tystr(&self, t: Ty<'tcx>) -> String {
    self.cr(ty::print::with_no_visible_paths!(ty::print::with_crate_prefix!(
      ty::print::with_no_trimmed_paths!(t.to_string())
    )))
  }
  // replace the `crate::` prefix by the crate's name so paths agree across crates
  fn cr(&self, s: String) -> String {
    let k = self.tcx.crate_name(LOCAL_CRATE);
    let mut o = String::with_capacity(s.len());
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
      let prev_id = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
      if !prev_id && s[i..].starts_with("crate::") {
        o.push_str(k.as_str());
        i += 5;
      } else {
        let c = s[i..].chars().next().unwrap();
        o.push(c);
        i += c.len_utf8();
      }
    }
    o
  }
  fn upvar_name(&self, def: DefId, i: usize) -> String {
    match def.as_local() {
      Some(l) => self
        .tcx
        .closure_captures(l)
        .get(i)
        .map(|c| c.to_symbol().to_string())
        .unwrap_or_else(|| i.to_string()),
      None => i.to_string(),
    }
  }
  fn place(&mut self, cx: &BodyCx<'_, 'tcx>, p: Place<'tcx>) -> String {
    let mut pt = PlaceTy::from_ty(cx.body.local_decls[p.local].ty);
    let mut out = vec![p.local.as_u32().to_string()];
    for elem in p.projection.iter() {
      let s = match elem {
        ProjectionElem::Deref => "[\"*\"]".to_string(),
        ProjectionElem::Field(f, _) => {
          let name = match pt.ty.kind() {
            TyKind::Adt(adt, _) => {
              if let Some(v) = pt.variant_index {
                adt.variant(v).fields[f].name.to_string()
              } else if adt.is_enum() {
                f.as_u32().to_string()
              } else {
                adt.non_enum_variant().fields[f].name.to_string()
              }
            }
            TyKind::Closure(d, _) => self.upvar_name(*d, f.as_usize()),
            _ => f.as_u32().to_string(),
          };
          let adt = match pt.ty.kind() {
            TyKind::Adt(adt, _) => self.adt(*adt),
            TyKind::Closure(..) => "<closure>".into(),
            TyKind::Tuple(..) => "<tuple>".into(),
            _ => String::new(),
          };
          format!("[\"f\",{},{},{}]", f.as_u32(), esc(&name), esc(&adt))
        }
        ProjectionElem::Downcast(name, v) => {
          let n = match name {
            Some(n) => n.to_string(),
            None => match pt.ty.kind() {
              TyKind::Adt(a, _) if a.is_enum() => a.variant(v).name.to_string(),
              _ => v.as_u32().to_string(),
            },
          };
          format!("[\"v\",{}]", esc(&n))
        }
        ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
        ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
          format!("[\"ci\",{offset},{min_length},{from_end}]")
        }
        ProjectionElem::Subslice { from, to, from_end } => {
          format!("[\"ss\",{from},{to},{from_end}]")
        }
        // type-only projections (opaque casts, subtyping)
        _ => String::new(),
      };
      if !s.is_empty() {
        out.push(s);
      }
      pt = pt.projection_ty(self.tcx, elem);
    }
    format!("[{}]", out.join(","))
  }
  fn adt(&mut self, a: ty::AdtDef<'tcx>) -> String {
    let p = self.path(a.did());
    self.adts.entry(p.clone()).or_insert(a.did());
    p
  }
  fn ty_head(&mut self, t: Ty<'tcx>) -> String {
    // structured-enough: string form + head adt path after peeling refs/Box/Rc
    let mut u = t;
    loop {
      match u.kind() {
        TyKind::Ref(_, i, _) => u = *i,
        TyKind::RawPtr(i, _) => u = *i,
        TyKind::Adt(a, args)
          if a.is_box()
            || self.tcx.is_diagnostic_item(rustc_span::sym::Rc, a.did())
            || self.tcx.is_diagnostic_item(rustc_span::sym::Arc, a.did()) =>
        {
          u = args.type_at(0)
        }
        _ => break,
      }
    }
    match u.kind() {
      TyKind::Adt(a, _) => self.adt(*a),
      TyKind::Closure(d, _) => format!("closure:{}", self.path(*d)),
      TyKind::FnDef(d, _) => format!("fn:{}", self.path(*d)),
      TyKind::Tuple(ts) if ts.is_empty() => "()".into(),
      TyKind::Tuple(_) => "<tuple>".into(),
      TyKind::Str => "str".into(),
      TyKind::Slice(_) => "<slice>".into(),
      TyKind::Array(..) => "<array>".into(),
      TyKind::Param(p) => format!("param:{}", p.name),
      _ => self.tystr(u),
    }
  }
  fn generic_args(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
    let mut v = vec![];
    for a in args.iter() {
      if let GenericArgKind::Type(t) = a.kind() {
        let h = self.ty_head(t);
        v.push(format!("[{},{}]", esc(&self.tystr(t)), esc(&h)));
      }
    }
    arr(v)
  }
  fn fndef(&mut self, cx: &BodyCx<'_, 'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
    let erased = self.tcx.erase_regions(args);
    let mut res = "null".to_string();
    let mut shim = "null".to_string();
    if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, cx.env, d, erased) {
      match inst.def {
        ty::InstanceKind::Item(rd) => {
          res = esc(&self.path(rd));
        }
        other => {
          shim = esc(
            match other {
              ty::InstanceKind::ClosureOnceShim { .. } => "closure_once",
              ty::InstanceKind::FnPtrShim(..) => "fnptr",
              ty::InstanceKind::CloneShim(..) => "clone",
              ty::InstanceKind::Virtual(..) => "virtual",
              ty::InstanceKind::Intrinsic(..) => "intrinsic",
              ty::InstanceKind::ReifyShim(..) => "reify",
              _ => "other",
            },
          );
          if let ty::InstanceKind::ClosureOnceShim { .. } | ty::InstanceKind::FnPtrShim(..) = other {
            if let Some(t) = erased.types().next() {
              match t.kind() {
                TyKind::Closure(cd, _) | TyKind::FnDef(cd, _) => res = esc(&self.path(*cd)),
                _ => {}
              }
            }
          }
        }
      }
    }
    let trait_ = match self.tcx.trait_of_assoc(d) {
      Some(t) => esc(&self.path(t)),
      None => "null".into(),
    };
    let imp = match self.tcx.impl_of_assoc(d) {
      Some(i) => {
        let t = self.tcx.type_of(i).instantiate_identity();
        let h = self.ty_head(t);
        esc(&h)
      }
      None => "null".into(),
    };
    let ga = self.generic_args(args);
    let name = self
      .tcx
      .opt_item_name(d)
      .map(|s| s.to_string())
      .unwrap_or_else(|| "?".into());
    format!(
      "{{\"fn\":{},\"name\":{},\"trait\":{},\"impl\":{},\"res\":{},\"shim\":{},\"args\":{},\"local\":{}}}",
      esc(&self.path(d)),
      esc(&name),
      trait_,
      imp,
      res,
      shim,
      ga,
      d.is_local()
    )
  }
  fn constant(&mut self, cx: &BodyCx<'_, 'tcx>, c: &ConstOperand<'tcx>) -> String {
    let t = c.const_.ty();
    if let TyKind::FnDef(d, args) = t.kind() {
      let f = self.fndef(cx, *d, args);
      return format!("{{\"k\":\"fn\",\"f\":{f}}}");
    }
    let tstr = esc(&self.tystr(t));
    let th = self.ty_head(t);
    let th = esc(&th);
    let mut extra = String::new();
    if let Const::Unevaluated(u, _) = c.const_ {
      let _ = write!(extra, ",\"def\":{}", esc(&self.path(u.def)));
      if let Some(p) = u.promoted {
        let _ = write!(extra, ",\"promoted\":{}", p.as_u32());
      }
    }
    let val = match c.const_ {
      Const::Val(v, _) => Some(v),
      Const::Unevaluated(u, _) if u.promoted.is_some() => None,
      _ => c.const_.eval(self.tcx, cx.env, c.span).ok(),
    };
    if let Some(v) = val {
      match v {
        ConstValue::Scalar(interpret::Scalar::Int(i)) => {
          let bits = i.to_bits(i.size());
          if t.is_signed() {
            let sz = i.size();
            let sv = sz.sign_extend(bits);
            let _ = write!(extra, ",\"int\":{}", sv);
          } else {
            let _ = write!(extra, ",\"int\":{}", bits);
          }
        }
        ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
          if let Some(interpret::GlobalAlloc::Static(d)) =
            self.tcx.try_get_global_alloc(p.provenance.alloc_id())
          {
            let _ = write!(extra, ",\"static\":{}", esc(&self.path(d)));
          }
        }
        ConstValue::ZeroSized => {
          extra.push_str(",\"zst\":true");
        }
        ConstValue::Slice { .. } => {
          if let TyKind::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
              if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                let _ = write!(extra, ",\"str\":{}", esc(&String::from_utf8_lossy(b)));
              }
            }
          }
        }
        ConstValue::Indirect { .. } => {
          // try destructuring enums / structs of fieldless type for readability
          extra.push_str(",\"indirect\":true");
        }
      }
      // variant name for fieldless enum constants
      if let TyKind::Adt(a, _) = t.kind() {
        if a.is_enum() {
          if let Some(dc) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
            if let Some(vi) = dc.variant {
              let _ = write!(extra, ",\"variant\":{}", esc(a.variant(vi).name.as_str()));
            }
          }
        }
      }
    }
    format!("{{\"k\":\"const\",\"ty\":{tstr},\"th\":{th}{extra},\"s\":{}}}", esc(&format!("{}", c.const_)))
  }
  fn operand(&mut self, cx: &BodyCx<'_, 'tcx>, o: &Operand<'tcx>) -> String {
    match o {
      Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(cx, *p)),
      Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(cx, *p)),
      Operand::Constant(c) => self.constant(cx, c),
    }
  }
  fn rvalue(&mut self, cx: &BodyCx<'_, 'tcx>, r: &Rvalue<'tcx>) -> String {
    match r {
      Rvalue::Use(o) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(cx, o)),
      Rvalue::Repeat(o, n) => {
        format!("{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(cx, o), esc(&n.to_string()))
      }
      Rvalue::Ref(_, bk, p) => format!(
        "{{\"k\":\"ref\",\"mut\":{},\"p\":{}}}",
        matches!(bk, BorrowKind::Mut { .. }),
        self.place(cx, *p)
      ),
      Rvalue::RawPtr(k, p) => format!(
        "{{\"k\":\"ref\",\"mut\":{},\"raw\":true,\"p\":{}}}",
        matches!(k, RawPtrKind::Mut),
        self.place(cx, *p)
      ),
      Rvalue::Len(p) => format!("{{\"k\":\"len\",\"p\":{}}}", self.place(cx, *p)),
      Rvalue::Cast(ck, o, t) => format!(
        "{{\"k\":\"cast\",\"ck\":{},\"o\":{},\"ty\":{}}}",
        esc(&format!("{ck:?}")),
        self.operand(cx, o),
        esc(&self.tystr(*t))
      ),
      Rvalue::BinaryOp(op, b) => format!(
        "{{\"k\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}",
        esc(&format!("{op:?}")),
        self.operand(cx, &b.0),
        self.operand(cx, &b.1)
      ),
      Rvalue::UnaryOp(op, o) => format!(
        "{{\"k\":\"un\",\"op\":{},\"a\":{}}}",
        esc(&format!("{op:?}")),
        self.operand(cx, o)
      ),
      Rvalue::NullaryOp(op, t) => format!(
        "{{\"k\":\"null\",\"op\":{},\"ty\":{}}}",
        esc(&format!("{op:?}")),
        esc(&self.tystr(*t))
      ),
      Rvalue::Discriminant(p) => {
        let t = p.ty(&cx.body.local_decls, self.tcx).ty;
        let mut vs = vec![];
        let mut ap = String::new();
        if let TyKind::Adt(a, _) = t.kind() {
          ap = self.adt(*a);
          if a.is_enum() {
            for (vi, d) in a.discriminants(self.tcx) {
              vs.push(format!("[{},{}]", d.val, esc(a.variant(vi).name.as_str())));
            }
          }
        }
        format!(
          "{{\"k\":\"discr\",\"p\":{},\"adt\":{},\"vs\":{}}}",
          self.place(cx, *p),
          esc(&ap),
          arr(vs)
        )
      }
      Rvalue::Aggregate(k, ops) => {
        let fields = arr(ops.iter().map(|o| self.operand(cx, o)).collect::<Vec<_>>());
        let kind = match &**k {
          AggregateKind::Array(_) => "\"ak\":\"array\"".to_string(),
          AggregateKind::Tuple => "\"ak\":\"tuple\"".to_string(),
          AggregateKind::Adt(d, v, _, _, active) => {
            let a = self.tcx.adt_def(*d);
            let p = self.adt(a);
            let var = a.variant(*v);
            let names = match active {
              Some(f) => arr([esc(var.fields[*f].name.as_str())]),
              None => arr(var.fields.iter().map(|f| esc(f.name.as_str())).collect::<Vec<_>>()),
            };
            format!(
              "\"ak\":\"adt\",\"adt\":{},\"enum\":{},\"var\":{},\"names\":{}",
              esc(&p),
              a.is_enum(),
              esc(var.name.as_str()),
              names
            )
          }
          AggregateKind::Closure(d, _)
          | AggregateKind::Coroutine(d, _)
          | AggregateKind::CoroutineClosure(d, _) => {
            let names =
              arr((0..ops.len()).map(|i| esc(&self.upvar_name(*d, i))).collect::<Vec<_>>());
            format!("\"ak\":\"closure\",\"def\":{},\"names\":{}", esc(&self.path(*d)), names)
          }
          AggregateKind::RawPtr(..) => "\"ak\":\"rawptr\"".to_string(),
        };
        format!("{{\"k\":\"agg\",{kind},\"fs\":{fields}}}")
      }
      Rvalue::ShallowInitBox(o, _) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(cx, o)),
      Rvalue::CopyForDeref(p) => {
        format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"p\":{}}}}}", self.place(cx, *p))
      }
      Rvalue::ThreadLocalRef(d) => format!("{{\"k\":\"tls\",\"def\":{}}}", esc(&self.path(*d))),
      _ => "{\"k\":\"other\"}".to_string(),
    }
  }
  fn line(&self, sp: rustc_span::Span) -> String {
    let sp = sp.source_callsite();
    let sm = self.tcx.sess.source_map();
    sm.lookup_char_pos(sp.lo()).line.to_string()
  }
  fn body(&mut self, def: DefId, promoted: Option<u32>, body: &Body<'tcx>, out: &mut String) {
    let tcx = self.tcx;
    let env = TypingEnv::post_analysis(tcx, def);
    let cx = BodyCx { body, env, owner: def };
    let _ = cx.owner;
    let kind = format!("{:?}", tcx.def_kind(def));
    let sm = tcx.sess.source_map();
    let sp = body.span.source_callsite();
    let file = match sm.span_to_filename(sp) {
      rustc_span::FileName::Real(r) => r
        .local_path()
        .map(|p| p.display().to_string())
        .unwrap_or_default(),
      o => format!("{o:?}"),
    };
    let _ = write!(
      out,
      "{{\"path\":{},\"promoted\":{},\"kind\":{},\"crate\":{},\"file\":{},\"line\":{},\"derived\":{}",
      esc(&self.path(def)),
      promoted.map(|p| p.to_string()).unwrap_or("null".into()),
      esc(&kind),
      esc(tcx.crate_name(LOCAL_CRATE).as_str()),
      esc(&file),
      self.line(body.span),
      body.span.from_expansion(),
    );
    let _ = write!(out, ",\"name\":{}", esc(tcx.opt_item_name(def).map(|s| s.to_string()).unwrap_or_default().as_str()));
    let mut base = def;
    while tcx.is_closure_like(base) {
      base = tcx.parent(base);
    }
    let _ = write!(out, ",\"owner\":{}", esc(&self.path(base)));
    if let Some(i) = tcx.impl_of_assoc(base) {
      let st = tcx.type_of(i).instantiate_identity();
      let h = self.ty_head(st);
      let tr = tcx.impl_trait_ref(i).map(|t| self.path(t.skip_binder().def_id));
      let _ = write!(
        out,
        ",\"impl\":{{\"self\":{},\"head\":{},\"trait\":{}}}",
        esc(&self.tystr(st)),
        esc(&h),
        tr.map(|t| esc(&t)).unwrap_or("null".into())
      );
    }
    if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) && promoted.is_none() {
      let _ = write!(out, ",\"pub\":{}", tcx.visibility(def).is_public());
    }
    let mut names: BTreeMap<u32, String> = BTreeMap::new();
    for v in &body.var_debug_info {
      if let VarDebugInfoContents::Place(p) = v.value {
        if p.projection.is_empty() {
          names.insert(p.local.as_u32(), v.name.to_string());
        }
      }
    }
    let mut locals = vec![];
    for (l, d) in body.local_decls.iter_enumerated() {
      let h = self.ty_head(d.ty);
      locals.push(format!(
        "[{},{},{}]",
        esc(&self.tystr(d.ty)),
        esc(&h),
        names.get(&l.as_u32()).map(|n| esc(n)).unwrap_or("null".into())
      ));
    }
    let _ = write!(out, ",\"argc\":{},\"spread\":{},\"locals\":{}", body.arg_count, body.spread_arg.map(|l| l.as_u32().to_string()).unwrap_or("null".into()), arr(locals));
    let mut blocks = vec![];
    for bb in body.basic_blocks.iter() {
      let mut st = vec![];
      for s in &bb.statements {
        match &s.kind {
          StatementKind::Assign(a) => {
            let p = self.place(&cx, a.0);
            let r = self.rvalue(&cx, &a.1);
            st.push(format!("{{\"p\":{},\"r\":{},\"l\":{}}}", p, r, self.line(s.source_info.span)));
          }
          StatementKind::SetDiscriminant { place, variant_index } => {
            let p = self.place(&cx, **place);
            st.push(format!("{{\"setd\":{},\"v\":{}}}", p, variant_index.as_u32()));
          }
          StatementKind::StorageDead(l) => st.push(format!("{{\"dead\":{}}}", l.as_u32())),
          _ => {}
        }
      }
      let t = bb.terminator();
      let l = self.line(t.source_info.span);
      let tk = match &t.kind {
        TerminatorKind::Goto { target } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_u32()),
        TerminatorKind::SwitchInt { discr, targets } => {
          let o = self.operand(&cx, discr);
          let ts = arr(targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_u32())).collect::<Vec<_>>());
          let dt = discr.ty(&body.local_decls, tcx);
          format!(
            "{{\"k\":\"switch\",\"o\":{},\"ts\":{},\"else\":{},\"ty\":{},\"l\":{}}}",
            o,
            ts,
            targets.otherwise().as_u32(),
            esc(&self.tystr(dt)),
            l
          )
        }
        TerminatorKind::Return => "{\"k\":\"return\"}".into(),
        TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".into(),
        TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
          "{\"k\":\"unwind\"}".into()
        }
        TerminatorKind::Drop { place, target, .. } => format!(
          "{{\"k\":\"drop\",\"p\":{},\"t\":{}}}",
          self.place(&cx, *place),
          target.as_u32()
        ),
        TerminatorKind::Assert { target, cond, expected, msg, .. } => format!(
          "{{\"k\":\"assert\",\"t\":{},\"o\":{},\"e\":{},\"m\":{}}}",
          target.as_u32(),
          self.operand(&cx, cond),
          expected,
          esc(&format!("{:?}", std::mem::discriminant(&**msg)))
        ),
        TerminatorKind::FalseEdge { real_target, .. } => {
          format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_u32())
        }
        TerminatorKind::FalseUnwind { real_target, .. } => {
          format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_u32())
        }
        TerminatorKind::Call { func, args, destination, target, .. } => {
          let f = self.operand(&cx, func);
          let a = arr(args.iter().map(|a| self.operand(&cx, &a.node)).collect::<Vec<_>>());
          let d = self.place(&cx, *destination);
          let exp = t.source_info.span.from_expansion();
          let mac = t.source_info.span.ctxt().outer_expn_data().macro_def_id.map(|m| self.path(m));
          format!(
            "{{\"k\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"t\":{},\"l\":{},\"exp\":{},\"mac\":{}}}",
            f,
            a,
            d,
            target.map(|t| t.as_u32().to_string()).unwrap_or("null".into()),
            l,
            exp,
            mac.map(|m| esc(&m)).unwrap_or("null".into())
          )
        }
        TerminatorKind::TailCall { .. } => "{\"k\":\"unreachable\"}".into(),
        TerminatorKind::Yield { .. }
        | TerminatorKind::CoroutineDrop
        | TerminatorKind::InlineAsm { .. } => "{\"k\":\"unreachable\"}".into(),
      };
      blocks.push(format!(
        "{{\"s\":{},\"t\":{},\"cleanup\":{}}}",
        arr(st),
        tk,
        bb.is_cleanup
      ));
    }
    let _ = write!(out, ",\"blocks\":{}}}", arr(blocks));
  }
}

fn dump(tcx: TyCtxt<'_>, outdir: &str) {
  let mut d = D { tcx, adts: BTreeMap::new() };
  let krate = tcx.crate_name(LOCAL_CRATE).to_string();
  let kinds = tcx
    .crate_types()
    .iter()
    .map(|c| format!("{c:?}"))
    .collect::<Vec<_>>()
    .join("_");
  let mut out = String::new();
  let _ = write!(out, "{{\"crate\":{},\"bodies\":[", esc(&krate));
  let mut first = true;
  let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
  keys.sort_by_key(|k| tcx.def_path_str(k.to_def_id()));
  let mut seen = BTreeSet::new();
  for k in keys {
    let def = k.to_def_id();
    if !seen.insert(def.index.as_u32()) {
      continue;
    }
    let dk = tcx.def_kind(def);
    match dk {
      DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
        let body = tcx.optimized_mir(def);
        if !first {
          out.push(',');
        }
        first = false;
        d.body(def, None, body, &mut out);
        for (i, p) in tcx.promoted_mir(def).iter_enumerated() {
          out.push(',');
          d.body(def, Some(i.as_u32()), p, &mut out);
        }
      }
      DefKind::Const | DefKind::Static { .. } | DefKind::AssocConst | DefKind::InlineConst | DefKind::AnonConst => {
        let body = tcx.mir_for_ctfe(def);
        if !first {
          out.push(',');
        }
        first = false;
        d.body(def, None, body, &mut out);
        for (i, p) in tcx.promoted_mir(def).iter_enumerated() {
          out.push(',');
          d.body(def, Some(i.as_u32()), p, &mut out);
        }
      }
      _ => {}
    }
  }
  out.push_str("],\"adts\":{");
  // include all local adts
  for id in tcx.hir_crate_items(()).definitions() {
    if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum | DefKind::Union) {
      d.adt(tcx.adt_def(id.to_def_id()));
    }
  }
  let adts: Vec<(String, DefId)> = d.adts.iter().map(|(a, b)| (a.clone(), *b)).collect();
  let mut first = true;
  for (p, id) in adts {
    let a = tcx.adt_def(id);
    if !first {
      out.push(',');
    }
    first = false;
    let vs = a
      .variants()
      .iter()
      .map(|v| {
        format!(
          "[{},{}]",
          esc(v.name.as_str()),
          arr(v.fields.iter().map(|f| {
            let t = tcx.type_of(f.did).instantiate_identity();
            format!("[{},{}]", esc(f.name.as_str()), esc(&d.tystr(t)))
          }).collect::<Vec<_>>())
        )
      })
      .collect::<Vec<_>>();
    let _ = write!(
      out,
      "{}:{{\"enum\":{},\"local\":{},\"vs\":{}}}",
      esc(&p),
      a.is_enum(),
      id.is_local(),
      arr(vs)
    );
  }
  out.push_str("},\"impls\":[");
  let mut first = true;
  for id in tcx.hir_crate_items(()).definitions() {
    if let DefKind::Impl { .. } = tcx.def_kind(id) {
      let did = id.to_def_id();
      let st = tcx.type_of(did).instantiate_identity();
      let h = d.ty_head(st);
      let tr = tcx.impl_trait_ref(did).map(|t| d.path(t.skip_binder().def_id));
      let items = arr(tcx.associated_items(did).in_definition_order().map(|i| {
        esc(tcx.opt_item_name(i.def_id).map(|s| s.to_string()).unwrap_or_default().as_str())
      }).collect::<Vec<_>>());
      let atys = arr(tcx.associated_items(did).in_definition_order().filter(|i| matches!(i.kind, ty::AssocKind::Type{..})).map(|i| {
        let t = tcx.type_of(i.def_id).instantiate_identity();
        format!("[{},{}]", esc(i.name().as_str()), esc(&d.tystr(t)))
      }).collect::<Vec<_>>());
      if !first {
        out.push(',');
      }
      first = false;
      let _ = write!(
        out,
        "{{\"self\":{},\"head\":{},\"trait\":{},\"items\":{},\"assoc\":{}}}",
        esc(&d.tystr(st)),
        esc(&h),
        tr.map(|t| esc(&t)).unwrap_or("null".into()),
        items,
        atys
      );
    }
  }
  out.push_str("]}");
  let f = format!("{outdir}/{krate}.{kinds}.json");
  let tmp = format!("{f}.tmp.{}", std::process::id());
  std::fs::write(&tmp, out).unwrap();
  std::fs::rename(&tmp, &f).unwrap();
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
  fn after_analysis<'tcx>(
    &mut self,
    _c: &rustc_interface::interface::Compiler,
    tcx: TyCtxt<'tcx>,
  ) -> rustc_driver::Compilation {
    if let Ok(out) = std::env::var("VERIF_DUMP_OUT") {
      let crates = std::env::var("VERIF_DUMP_CRATES").unwrap_or_default();
      let name = tcx.crate_name(LOCAL_CRATE).to_string();
      if crates.split(',').any(|c| c == name) {
        dump(tcx, &out);
      }
    }
    rustc_driver::Compilation::Continue
  }
}

fn main() {
  rustc_driver::install_ice_hook("mirdump", |_| ());
  let mut args: Vec<String> = std::env::args().collect();
  // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
  if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) {
    args.remove(0);
  }
  args.extend(
    ["-Zmir-opt-level=0", "-Coverflow-checks=off", "-Zinline-mir=no", "-Awarnings"]
      .iter()
      .map(|s| s.to_string()),
  );
  rustc_driver::run_compiler(&args, &mut Cb);
}
