// rustc_private driver: exports the resolved MIR of the crate under analysis as JSON.
// Used as RUSTC_WORKSPACE_WRAPPER; for the crate named in JLX_CRATE it writes JLX_OUT.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, Ty, TyCtxt};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use std::collections::{HashMap, HashSet};

enum J {
  Null,
  B(bool),
  N(i128),
  S(String),
  A(Vec<J>),
  O(Vec<(&'static str, J)>),
}
fn s<T: ToString>(t: T) -> J {
  J::S(t.to_string())
}
fn n<T: TryInto<i128>>(t: T) -> J {
  J::N(t.try_into().ok().unwrap_or(-1))
}
fn esc(o: &mut String, x: &str) {
  o.push('"');
  for c in x.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
}
impl J {
  fn w(&self, o: &mut String) {
    match self {
      J::Null => o.push_str("null"),
      J::B(b) => o.push_str(if *b { "true" } else { "false" }),
      J::N(x) => o.push_str(&x.to_string()),
      J::S(x) => esc(o, x),
      J::A(v) => {
        o.push('[');
        for (i, x) in v.iter().enumerate() {
          if i > 0 {
            o.push(',')
          }
          x.w(o)
        }
        o.push(']')
      }
      J::O(v) => {
        o.push('{');
        for (i, (k, x)) in v.iter().enumerate() {
          if i > 0 {
            o.push(',')
          }
          esc(o, k);
          o.push(':');
          x.w(o)
        }
        o.push('}')
      }
    }
  }
}

struct Cx<'tcx> {
  tcx: TyCtxt<'tcx>,
  tys: Vec<J>,
  ty_ix: HashMap<Ty<'tcx>, usize>,
  adts: Vec<J>,
  adt_seen: HashSet<DefId>,
  adt_queue: Vec<DefId>,
}

impl<'tcx> Cx<'tcx> {
  fn path(&self, d: DefId) -> String {
    let tcx = self.tcx;
    let k = tcx.crate_name(d.krate).to_string();
    rustc_middle::ty::print::with_no_trimmed_paths!({
      let p = tcx.def_path_str(d);
      if d.is_local() {
        format!("{}::{}", k, p)
      } else {
        p
      }
    })
  }
  fn adt_key(&mut self, d: DefId) -> J {
    if self.adt_seen.insert(d) {
      self.adt_queue.push(d);
    }
    s(self.path(d))
  }
  fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
    let mut v = vec![];
    for x in a.iter() {
      match x.kind() {
        GenericArgKind::Type(t) => v.push(self.ty(t)),
        GenericArgKind::Const(c) => v.push(s(format!("const {:?}", c))),
        _ => (),
      }
    }
    J::A(v)
  }
  fn ty(&mut self, t: Ty<'tcx>) -> J {
    if let Some(i) = self.ty_ix.get(&t) {
      return n(*i);
    }
    let i = self.tys.len();
    self.tys.push(J::Null);
    self.ty_ix.insert(t, i);
    let tcx = self.tcx;
    let d = match t.kind() {
      ty::Bool => J::O(vec![("k", s("bool"))]),
      ty::Char => J::O(vec![("k", s("char"))]),
      ty::Int(x) => J::O(vec![("k", s("int")), ("name", s(x.name_str()))]),
      ty::Uint(x) => J::O(vec![("k", s("uint")), ("name", s(x.name_str()))]),
      ty::Float(x) => J::O(vec![("k", s("float")), ("name", s(x.name_str()))]),
      ty::Str => J::O(vec![("k", s("str"))]),
      ty::Never => J::O(vec![("k", s("never"))]),
      ty::Adt(a, g) => {
        let p = self.adt_key(a.did());
        let g = self.args(g);
        J::O(vec![("k", s("adt")), ("path", p), ("args", g)])
      }
      ty::Array(e, c) => {
        let e = self.ty(*e);
        let len = c.try_to_target_usize(tcx).map(|x| n(x)).unwrap_or(J::Null);
        J::O(vec![("k", s("array")), ("el", e), ("len", len)])
      }
      ty::Slice(e) => {
        let e = self.ty(*e);
        J::O(vec![("k", s("slice")), ("el", e)])
      }
      ty::Ref(_, e, m) => {
        let e = self.ty(*e);
        J::O(vec![("k", s("ref")), ("el", e), ("mut", J::B(m.is_mut()))])
      }
      ty::RawPtr(e, m) => {
        let e = self.ty(*e);
        J::O(vec![("k", s("ptr")), ("el", e), ("mut", J::B(m.is_mut()))])
      }
      ty::FnDef(d, g) => {
        let did: DefId = (*d).into();
        let ga = g.skip_binder();
        let a = self.args(ga);
        J::O(vec![("k", s("fndef")), ("path", s(self.path(did))), ("args", a)])
      }
      ty::Closure(d, g) => {
        let did: DefId = (*d).into();
        let up = g.as_closure().upvar_tys().iter().collect::<Vec<_>>();
        let up: Vec<J> = up.into_iter().map(|t| self.ty(t)).collect();
        J::O(vec![("k", s("closure")), ("path", s(self.path(did))), ("upvars", J::A(up))])
      }
      ty::Tuple(v) => {
        let v: Vec<J> = v.iter().map(|t| self.ty(t)).collect();
        J::O(vec![("k", s("tuple")), ("els", J::A(v))])
      }
      ty::Param(p) => J::O(vec![("k", s("param")), ("name", s(p.name))]),
      ty::Dynamic(..) => J::O(vec![("k", s("dyn")), ("name", s(format!("{:?}", t)))]),
      ty::FnPtr(..) => J::O(vec![("k", s("fnptr")), ("name", s(format!("{:?}", t)))]),
      ty::Alias(..) => J::O(vec![("k", s("alias")), ("name", s(format!("{:?}", t)))]),
      _ => J::O(vec![("k", s("other")), ("name", s(format!("{:?}", t)))]),
    };
    self.tys[i] = d;
    n(i)
  }
  fn flush_adts(&mut self) {
    let tcx = self.tcx;
    while let Some(d) = self.adt_queue.pop() {
      let a = tcx.adt_def(d);
      let local_or_small = true;
      let mut vs = vec![];
      if local_or_small {
        let discrs: HashMap<_, _> = if a.is_enum() {
          a.discriminants(tcx).map(|(i, d)| (i, d.val)).collect()
        } else {
          HashMap::new()
        };
        for (vi, v) in a.variants().iter_enumerated() {
          let mut fs = vec![];
          for f in v.fields.iter() {
            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
            // only export field types for local / Option-like ADTs, to keep the table small
            let krate = tcx.crate_name(d.krate).to_string();
            let tj = if d.is_local() || ["xmltree", "koyomi", "kansuji", "roman"].contains(&krate.as_str()) || self.small(d) {
              self.ty(t)
            } else {
              J::Null
            };
            fs.push(J::O(vec![("name", s(f.name)), ("ty", tj), ("pub", J::B(f.vis.is_public()))]));
          }
          vs.push(J::O(vec![
            ("name", s(v.name)),
            ("discr", discrs.get(&vi).map(|x| n(*x)).unwrap_or(n(vi.as_usize()))),
            ("fields", J::A(fs)),
          ]));
        }
      }
      let gens = tcx.generics_of(d);
      let gn: Vec<J> = gens
        .own_params
        .iter()
        .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
        .map(|p| s(p.name))
        .collect();
      let p = s(self.path(d));
      let (file, line) = self.span(tcx.def_span(d));
      self.adts.push(J::O(vec![
        ("path", p),
        ("kind", s(if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" })),
        ("local", J::B(d.is_local())),
        ("generics", J::A(gn)),
        ("variants", J::A(vs)),
        ("file", file),
        ("line", line),
      ]));
    }
  }
  fn small(&self, d: DefId) -> bool {
    let p = self.path(d);
    p.ends_with("::Option") || p.ends_with("::Result") || p.ends_with("ControlFlow")
  }
  fn span(&self, sp: rustc_span::Span) -> (J, J) {
    let sm = self.tcx.sess.source_map();
    let sp = sp.source_callsite();
    let lo = sm.lookup_char_pos(sp.lo());
    let f = format!("{}", lo.file.name.prefer_local_unconditionally());
    (s(f), n(lo.line))
  }
  fn line(&self, sp: rustc_span::Span) -> J {
    let sm = self.tcx.sess.source_map();
    let sp = sp.source_callsite();
    n(sm.lookup_char_pos(sp.lo()).line)
  }
  fn place(&mut self, p: &Place<'tcx>) -> J {
    let mut v = vec![n(p.local.as_usize())];
    for e in p.projection.iter() {
      v.push(match e {
        ProjectionElem::Deref => s("*"),
        ProjectionElem::Field(f, _) => J::A(vec![s("f"), n(f.as_usize())]),
        ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
        ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
          J::A(vec![s("ci"), n(offset), n(min_length), J::B(from_end)])
        }
        ProjectionElem::Subslice { from, to, from_end } => {
          J::A(vec![s("sub"), n(from), n(to), J::B(from_end)])
        }
        ProjectionElem::Downcast(_, vi) => J::A(vec![s("d"), n(vi.as_usize())]),
        _ => s("cast"),
      })
    }
    J::A(v)
  }
  fn callee(&mut self, owner: DefId, did: DefId, ga: GenericArgsRef<'tcx>) -> J {
    let tcx = self.tcx;
    let te = ty::TypingEnv::post_analysis(tcx, owner);
    let args = self.args(ga);
    let mut o = vec![("path", s(self.path(did))), ("args", args)];
    let kind = tcx.def_kind(did);
    if let Some(tr) = tcx.trait_of_assoc(did) {
      o.push(("trait", s(self.path(tr))));
    }
    o.push(("name", s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())));
    if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
      let ga2 = tcx.erase_and_anonymize_regions(ga);
      if let Ok(Some(inst)) = Instance::try_resolve(tcx, te, did, ga2) {
        let rd = inst.def_id();
        let ra = self.args(inst.args);
        let ik = format!("{:?}", inst.def);
        let ik = ik.split(|c| c == '(' || c == ' ' || c == '{').next().unwrap_or("").to_string();
        o.push(("res", s(self.path(rd))));
        o.push(("rargs", ra));
        o.push(("rkind", s(ik)));
        o.push(("rlocal", J::B(rd.is_local())));
        if let Some(im) = tcx.impl_of_assoc(rd) {
          let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
          let st = self.ty(st);
          o.push(("impl_self", st));
        }
      }
    } else if matches!(kind, DefKind::Ctor(..)) {
      o.push(("ctor", J::B(true)));
      let parent = tcx.parent(did);
      let (adt, vi) = match tcx.def_kind(parent) {
        DefKind::Variant => {
          let e = tcx.parent(parent);
          let a = tcx.adt_def(e);
          (e, a.variant_index_with_id(parent).as_usize())
        }
        _ => (parent, 0),
      };
      let k = self.adt_key(adt);
      o.push(("adt", k));
      o.push(("variant", n(vi)));
    }
    J::O(o)
  }
  fn konst(&mut self, owner: DefId, c: &ConstOperand<'tcx>) -> J {
    let tcx = self.tcx;
    let t = c.const_.ty();
    let tj = self.ty(t);
    let mut o = vec![("ty", tj)];
    if let ty::FnDef(d, g) = t.kind() {
      let did: DefId = (*d).into();
      let f = self.callee(owner, did, g.skip_binder());
      o.push(("fn", f));
      return J::O(o);
    }
    if let Const::Unevaluated(u, _) = c.const_ {
      if let Some(p) = u.promoted {
        o.push(("promoted", n(p.as_usize())));
        let a = self.path(u.def);
        o.push(("of", s(a)));
        return J::O(o);
      }
    }
    let te = ty::TypingEnv::post_analysis(tcx, owner);
    if let Ok(v) = c.const_.eval(tcx, te, c.span) {
      match v {
        ConstValue::ZeroSized => o.push(("zst", J::B(true))),
        ConstValue::Scalar(sc) => {
          if let Ok(si) = sc.try_to_scalar_int() {
            let bits = si.to_bits_unchecked();
            if t.is_signed() {
              let sz = si.size();
              o.push(("int", n(sz.sign_extend(bits) as i128)));
            } else {
              o.push(("int", J::S(bits.to_string())));
            }
          } else if let interpret::Scalar::Ptr(p, _) = sc {
            let (prov, off) = p.prov_and_relative_offset();
            let aid = prov.alloc_id();
            match tcx.global_alloc(aid) {
              interpret::GlobalAlloc::Static(d) => {
                o.push(("static", s(self.path(d))));
              }
              interpret::GlobalAlloc::Memory(m) => {
                // a reference to a byte array (b"..."): decode when the type says so
                if let ty::Ref(_, inner, _) = t.kind() {
                  if let ty::Array(e, _) = inner.kind() {
                    if *e == tcx.types.u8 {
                      let a = m.inner();
                      let st = off.bytes_usize();
                      let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(st..a.len());
                      o.push(("bytes", J::A(bytes.iter().map(|b| n(*b)).collect())));
                    }
                  }
                }
              }
              _ => (),
            }
          }
        }
        _ => {
          if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
            if let Ok(st) = std::str::from_utf8(b) {
              let is_str = matches!(t.kind(), ty::Ref(_, i, _) if i.is_str());
              if is_str {
                o.push(("str", s(st)));
              }
            }
          }
        }
      }
    }
    if let Const::Unevaluated(u, _) = c.const_ {
      let a = self.path(u.def);
      o.push(("const_item", s(a)));
    }
    if o.len() == 1 {
      o.push(("opaque", s(format!("{:?}", c.const_))));
    }
    J::O(o)
  }
  fn op(&mut self, owner: DefId, x: &Operand<'tcx>) -> J {
    match x {
      Operand::Copy(p) => J::O(vec![("p", self.place(p))]),
      Operand::Move(p) => J::O(vec![("p", self.place(p)), ("mv", J::B(true))]),
      Operand::Constant(c) => J::O(vec![("c", self.konst(owner, c))]),
      _ => J::O(vec![("rt", s(format!("{:?}", x)))]),
    }
  }
  fn rvalue(&mut self, owner: DefId, r: &Rvalue<'tcx>) -> J {
    match r {
      Rvalue::Use(o, ..) => J::O(vec![("k", s("use")), ("o", self.op(owner, o))]),
      Rvalue::Repeat(o, c) => {
        let len = c.try_to_target_usize(self.tcx).map(|x| n(x)).unwrap_or(J::Null);
        J::O(vec![("k", s("repeat")), ("o", self.op(owner, o)), ("n", len)])
      }
      Rvalue::Ref(_, bk, p) => J::O(vec![
        ("k", s("ref")),
        ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
        ("p", self.place(p)),
      ]),
      Rvalue::Reborrow(_, m, p) => J::O(vec![
        ("k", s("ref")),
        ("mut", J::B(m.is_mut())),
        ("p", self.place(p)),
      ]),
      Rvalue::RawPtr(k, p) => J::O(vec![
        ("k", s("rawptr")),
        ("mut", J::B(matches!(k, RawPtrKind::Mut))),
        ("p", self.place(p)),
      ]),
      Rvalue::Cast(k, o, t) => {
        let o = self.op(owner, o);
        let t = self.ty(*t);
        J::O(vec![("k", s("cast")), ("ck", s(format!("{:?}", k))), ("o", o), ("ty", t)])
      }
      Rvalue::BinaryOp(b, ab) => {
        let x = self.op(owner, &ab.0);
        let y = self.op(owner, &ab.1);
        J::O(vec![("k", s("bin")), ("op", s(format!("{:?}", b))), ("a", x), ("b", y)])
      }
      Rvalue::UnaryOp(u, a) => {
        J::O(vec![("k", s("un")), ("op", s(format!("{:?}", u))), ("a", self.op(owner, a))])
      }
      Rvalue::Discriminant(p) => J::O(vec![("k", s("discr")), ("p", self.place(p))]),
      Rvalue::CopyForDeref(p) => {
        J::O(vec![("k", s("use")), ("o", J::O(vec![("p", self.place(p))]))])
      }
      Rvalue::Aggregate(k, ops) => {
        let os: Vec<J> = ops.iter().map(|o| self.op(owner, o)).collect();
        let mut o = vec![("k", s("agg")), ("ops", J::A(os))];
        match &**k {
          AggregateKind::Array(_) => o.push(("ak", s("array"))),
          AggregateKind::Tuple => o.push(("ak", s("tuple"))),
          AggregateKind::Adt(d, v, g, _, _) => {
            o.push(("ak", s("adt")));
            let key = self.adt_key(*d);
            o.push(("adt", key));
            o.push(("variant", n(v.as_usize())));
            let g = self.args(g);
            o.push(("args", g));
          }
          AggregateKind::Closure(d, _) => {
            o.push(("ak", s("closure")));
            o.push(("closure", s(self.path(*d))));
          }
          _ => o.push(("ak", s("other"))),
        }
        J::O(o)
      }
      _ => J::O(vec![("k", s("other")), ("dbg", s(format!("{:?}", r)))]),
    }
  }
  fn body(&mut self, owner: DefId, b: &Body<'tcx>) -> J {
    let mut locals = vec![];
    for l in b.local_decls.iter() {
      locals.push(self.ty(l.ty));
    }
    let mut names = vec![];
    for v in b.var_debug_info.iter() {
      if let VarDebugInfoContents::Place(p) = v.value {
        names.push(J::A(vec![s(v.name), self.place(&p)]));
      }
    }
    let mut blocks = vec![];
    for bb in b.basic_blocks.iter() {
      let mut st = vec![];
      for x in bb.statements.iter() {
        let ln = self.line(x.source_info.span);
        match &x.kind {
          StatementKind::Assign(pr) => {
            let p = self.place(&pr.0);
            let r = self.rvalue(owner, &pr.1);
            st.push(J::O(vec![("k", s("=")), ("p", p), ("r", r), ("ln", ln)]));
          }
          StatementKind::SetDiscriminant { place, variant_index } => {
            let p = self.place(place);
            st.push(J::O(vec![
              ("k", s("setd")),
              ("p", p),
              ("v", n(variant_index.as_usize())),
              ("ln", ln),
            ]));
          }
          StatementKind::StorageDead(l) => {
            st.push(J::O(vec![("k", s("dead")), ("l", n(l.as_usize()))]));
          }
          _ => (),
        }
      }
      let t = bb.terminator();
      let ln = self.line(t.source_info.span);
      let mac = t.source_info.span.from_expansion();
      let tj = match &t.kind {
        TerminatorKind::Goto { target, .. } => {
          J::O(vec![("k", s("goto")), ("t", n(target.as_usize()))])
        }
        TerminatorKind::SwitchInt { discr, targets } => {
          let d = self.op(owner, discr);
          let dty = discr.ty(&b.local_decls, self.tcx);
          let dty = self.ty(dty);
          let ts: Vec<J> = targets
            .iter()
            .map(|(v, b)| J::A(vec![J::S(v.to_string()), n(b.as_usize())]))
            .collect();
          J::O(vec![
            ("k", s("switch")),
            ("d", d),
            ("ty", dty),
            ("ts", J::A(ts)),
            ("else", n(targets.otherwise().as_usize())),
            ("ln", ln),
          ])
        }
        TerminatorKind::Return => J::O(vec![("k", s("return"))]),
        TerminatorKind::Unreachable => J::O(vec![("k", s("unreachable"))]),
        TerminatorKind::Drop { target, place, .. } => {
          let p = self.place(place);
          J::O(vec![("k", s("drop")), ("p", p), ("t", n(target.as_usize()))])
        }
        TerminatorKind::Call { func, args, destination, target, .. } => {
          let f = self.op(owner, func);
          let a: Vec<J> = args.iter().map(|x| self.op(owner, &x.node)).collect();
          let d = self.place(destination);
          let dty = destination.ty(&b.local_decls, self.tcx).ty;
          let dty = self.ty(dty);
          J::O(vec![
            ("k", s("call")),
            ("f", f),
            ("a", J::A(a)),
            ("d", d),
            ("dty", dty),
            ("t", target.map(|t| n(t.as_usize())).unwrap_or(J::Null)),
            ("ln", ln),
            ("mac", J::B(mac)),
          ])
        }
        TerminatorKind::Assert { cond, expected, msg, target, .. } => {
          let c = self.op(owner, cond);
          let kind = match &**msg {
            AssertKind::BoundsCheck { .. } => "bounds".to_string(),
            AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
            AssertKind::OverflowNeg(..) => "overflow:Neg".to_string(),
            AssertKind::DivisionByZero(..) => "div0".to_string(),
            AssertKind::RemainderByZero(..) => "rem0".to_string(),
            _ => "other".to_string(),
          };
          let ops = match &**msg {
            AssertKind::BoundsCheck { len, index } => {
              vec![self.op(owner, len), self.op(owner, index)]
            }
            AssertKind::Overflow(_, x, y) => vec![self.op(owner, x), self.op(owner, y)],
            _ => vec![],
          };
          J::O(vec![
            ("k", s("assert")),
            ("c", c),
            ("exp", J::B(*expected)),
            ("msg", s(kind)),
            ("ops", J::A(ops)),
            ("t", n(target.as_usize())),
            ("ln", ln),
          ])
        }
        TerminatorKind::FalseEdge { real_target, .. } => {
          J::O(vec![("k", s("goto")), ("t", n(real_target.as_usize()))])
        }
        TerminatorKind::FalseUnwind { real_target, .. } => {
          J::O(vec![("k", s("goto")), ("t", n(real_target.as_usize()))])
        }
        TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
          J::O(vec![("k", s("resume"))])
        }
        _ => J::O(vec![("k", s("other")), ("dbg", s(format!("{:?}", t.kind)))]),
      };
      blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("cl", J::B(bb.is_cleanup))]));
    }
    J::O(vec![
      ("argc", n(b.arg_count)),
      ("locals", J::A(locals)),
      ("names", J::A(names)),
      ("blocks", J::A(blocks)),
    ])
  }
}

struct Cb {
  out: String,
}

impl rustc_driver::Callbacks for Cb {
  fn after_analysis<'tcx>(
    &mut self,
    _c: &rustc_interface::interface::Compiler,
    tcx: TyCtxt<'tcx>,
  ) -> Compilation {
    let mut cx = Cx {
      tcx,
      tys: vec![],
      ty_ix: HashMap::new(),
      adts: vec![],
      adt_seen: HashSet::new(),
      adt_queue: vec![],
    };
    let mut fns = vec![];
    let ev = tcx.effective_visibilities(());
    for ld in tcx.mir_keys(()).iter() {
      let did = ld.to_def_id();
      let kind = tcx.def_kind(did);
      let is_const = matches!(
        kind,
        DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst
      );
      if matches!(kind, DefKind::Ctor(..)) {
        continue;
      }
      let body: &Body = if is_const {
        tcx.mir_for_ctfe(did)
      } else {
        tcx.optimized_mir(did)
      };
      let bj = cx.body(did, body);
      let prom: Vec<J> = tcx.promoted_mir(did).iter().map(|b| cx.body(did, b)).collect();
      let (file, line) = cx.span(tcx.def_span(did));
      let p = cx.path(did);
      let mut o = vec![
        ("path", s(&p)),
        ("kind", s(format!("{:?}", kind).split(|c| c == ' ' || c == '{').next().unwrap())),
        ("file", file),
        ("line", line),
        ("exported", J::B(ev.is_reachable(*ld))),
        ("name", s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())),
      ];
      if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
        let g = tcx.generics_of(did);
        let mut gn: Vec<J> = vec![];
        let mut cur = Some(g);
        let mut stack = vec![];
        while let Some(gg) = cur {
          stack.push(gg);
          cur = gg.parent.map(|p| tcx.generics_of(p));
        }
        for gg in stack.iter().rev() {
          for p in gg.own_params.iter() {
            if matches!(p.kind, ty::GenericParamDefKind::Type { .. } | ty::GenericParamDefKind::Const { .. }) {
              gn.push(s(p.name))
            }
          }
        }
        o.push(("generics", J::A(gn)));
        if let Some(im) = tcx.impl_of_assoc(did) {
          let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
          let st = cx.ty(st);
          o.push(("impl_self", st));
          if let Some(tr) = tcx.impl_opt_trait_ref(im) {
            let tr = tr.instantiate_identity().skip_norm_wip();
            o.push(("impl_trait", s(cx.path(tr.def_id))));
            let ta = cx.args(tr.args);
            o.push(("impl_trait_args", ta));
          }
          let derived = tcx.is_automatically_derived(im);
          o.push(("derived", J::B(derived)));
        }
        if let Some(tr) = tcx.trait_of_assoc(did) {
          o.push(("trait_default", s(cx.path(tr))));
        }
      }
      if matches!(kind, DefKind::Closure) {
        let par = tcx.parent(did);
        o.push(("parent", s(cx.path(par))));
      }
      o.push(("body", bj));
      o.push(("promoted", J::A(prom)));
      fns.push(J::O(o));
    }
    // local ADTs even when never mentioned in a body
    for id in tcx.hir_crate_items(()).definitions() {
      if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
        cx.adt_key(id.to_def_id());
      }
    }
    cx.flush_adts();
    let root = J::O(vec![
      ("crate", s(tcx.crate_name(LOCAL_CRATE))),
      ("fns", J::A(fns)),
      ("adts", J::A(cx.adts)),
      ("types", J::A(cx.tys)),
    ]);
    let mut o = String::new();
    root.w(&mut o);
    std::fs::write(&self.out, o).expect("write MIR export");
    Compilation::Continue
  }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() -> std::process::ExitCode {
  let mut args: Vec<String> = std::env::args().collect();
  // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
  if args.len() > 1 && args[1].contains("rustc") {
    args.remove(1);
  }
  let want = std::env::var("JLX_CRATE").unwrap_or_default();
  let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want)
    && !args.iter().any(|a| a == "--test");
  if is {
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    let mut cb = Cb { out: std::env::var("JLX_OUT").expect("JLX_OUT") };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
  } else {
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain))
  }
}
