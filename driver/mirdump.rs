// mirdump: a rustc driver that type-checks the crate exactly as cargo builds it and writes the
// resolved program (MIR with resolved callees, types, consts, public API surface) as JSON.
//
// Output path: $MIRDUMP_OUT.  Only the crate named $MIRDUMP_CRATE is dumped; every other crate is
// compiled normally.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;

use rustc_driver_impl::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};

// ---------------------------------------------------------------- tiny JSON writer
enum J {
    Null,
    B(bool),
    N(String),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: impl std::fmt::Display) -> J {
    J::N(x.to_string())
}
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(x) => o.push_str(x),
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    o.push('"');
                    o.push_str(k);
                    o.push_str("\":");
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

fn tj_clone(j: &J) -> J {
    match j {
        J::N(x) => J::N(x.clone()),
        _ => J::Null,
    }
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)));
    // types of the same name in different blocks of one function
    let n = tcx.def_key(d).disambiguated_data.disambiguator;
    if n > 0 && matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
        return format!("{p}#{n}");
    }
    p
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    adts: Vec<J>,
    adt_seen: HashSet<DefId>,
    queue: VecDeque<(Instance<'tcx>, Option<Promoted>, TypingEnv<'tcx>, String)>,
    seen: HashSet<String>,
    bodies: Vec<J>,
}

impl<'tcx> Dump<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.type_ids.get(&t) {
            return n(*i);
        }
        let id = self.types.len();
        self.type_ids.insert(t, id);
        self.types.push(J::Null);
        let tcx = self.tcx;
        let text = with_no_visible_paths!(with_no_trimmed_paths!(format!("{t}")));
        let mut o = vec![("s", s(text))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(x) => {
                o.push(("k", s("int")));
                o.push(("bits", n(x.bit_width().unwrap_or(64))));
                o.push(("signed", J::B(true)));
            }
            ty::Uint(x) => {
                o.push(("k", s("int")));
                o.push(("bits", n(x.bit_width().unwrap_or(64))));
                o.push(("signed", J::B(false)));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(path(tcx, def.did()))));
                let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(a)));
                let mut fl = vec![];
                for v in def.variants().iter() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = with_no_visible_paths!(with_no_trimmed_paths!(format!(
                            "{:?}",
                            f.ty(tcx, args)
                        )));
                        fs.push(s(ft));
                    }
                    fl.push(J::A(fs));
                }
                o.push(("ftys", J::A(fl)));
                self.adt(def.did());
            }
            ty::Array(e, c) => {
                o.push(("k", s("array")));
                let e = self.ty(*e);
                o.push(("elem", e));
                o.push(("len", match c.try_to_target_usize(tcx) { Some(x) => n(x), None => J::Null }));
            }
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                let e = self.ty(*e);
                o.push(("elem", e));
            }
            ty::Ref(_, e, m) | ty::RawPtr(e, m) => {
                o.push(("k", s(if matches!(t.kind(), ty::Ref(..)) { "ref" } else { "ptr" })));
                let e = self.ty(*e);
                o.push(("elem", e));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(path(tcx, (*d).into()))));
                let a: Vec<J> = args.skip_binder().types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(a)));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Closure(d, _) => {
                o.push(("k", s("closure")));
                o.push(("path", s(path(tcx, (*d).into()))));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(a)));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("name", s(p.name.as_str())));
            }
            ty::Alias(..) => o.push(("k", s("alias"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            _ => o.push(("k", s("other"))),
        }
        self.types[id] = J::O(o);
        n(id)
    }

    fn adt(&mut self, d: DefId) {
        if !self.adt_seen.insert(d) {
            return;
        }
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let fields: Vec<J> = v
                .fields
                .iter()
                .map(|f| {
                    let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    J::O(vec![
                        ("name", s(f.name.as_str())),
                        ("pub", J::B(f.vis.is_public())),
                    ("ty", s(with_no_visible_paths!(with_no_trimmed_paths!(format!("{fty}"))))),
                    ])
                })
                .collect();
            let disc = if def.is_enum() {
                n(def.discriminant_for_variant(tcx, vi).val)
            } else {
                n(0)
            };
            vs.push(J::O(vec![
                ("name", s(v.name.as_str())),
                ("disc", disc),
                ("fields", J::A(fields)),
            ]));
        }
        self.adts.push(J::O(vec![
            ("path", s(path(tcx, d))),
            ("local", J::B(d.is_local())),
            ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("variants", J::A(vs)),
        ]));
    }

    fn loc(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let p = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", p.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, p.line))
    }

    fn key(inst: &Instance<'tcx>, promoted: Option<Promoted>, env_key: &str) -> String {
        let k = with_no_visible_paths!(with_no_trimmed_paths!(format!("{inst:?}")));
        match promoted {
            Some(p) => format!("{env_key}|{k}|promoted{}", p.as_u32()),
            None => format!("{env_key}|{k}"),
        }
    }

    fn enqueue(&mut self, inst: Instance<'tcx>, p: Option<Promoted>, env: TypingEnv<'tcx>, ek: &str) -> String {
        let k = Self::key(&inst, p, ek);
        if self.seen.insert(k.clone()) {
            self.queue.push_back((inst, p, env, ek.to_string()));
        }
        k
    }

    /// Which non-local functions are worth dumping (pure combinators whose MIR is in the metadata).
    fn descend(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        let p = path(self.tcx, d);
        let allow = [
            "core::option::", "core::result::", "core::cmp::", "core::num::", "core::ops::",
            "core::bool::", "core::mem::", "core::convert::", "core::clone::", "core::borrow::",
            "core::char::", "<core::option", "<core::result", "<core::cmp", "<T as core::convert",
            "core::tuple::", "<core::ops::range",
        ];
        let deny = ["core::num::bignum", "core::num::flt2dec", "core::num::imp::", "core::num::dec2flt"];
        (allow.iter().any(|a| p.starts_with(a)) || p.starts_with("<"))
            && !deny.iter().any(|a| p.starts_with(a))
            && (p.starts_with("core") || p.contains("core::"))
            && !p.contains("fmt::") && !p.contains("core::iter") && !p.contains("core::slice") && !p.contains("core::str")
            && !p.contains("alloc::") && !p.contains("hash")
    }

    fn func_ref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, ek: &str) -> J {
        let tcx = self.tcx;
        let mut o = vec![("k", s("fn")), ("path", s(path(tcx, d)))];
        let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        o.push(("args", J::A(a)));
        let cs: Vec<J> = args
            .iter()
            .filter_map(|x| x.as_const())
            .map(|x| match x.try_to_target_usize(tcx) {
                Some(v) => n(v),
                None => J::Null,
            })
            .collect();
        if !cs.is_empty() {
            o.push(("consts", J::A(cs)));
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, t))));
        } else if let Some(t) = tcx.trait_impl_of_assoc(d) {
            o.push(("impl_of", s(path(tcx, tcx.impl_trait_id(t)))));
        }
        o.push(("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        let kind = tcx.def_kind(d);
        if matches!(kind, DefKind::Ctor(..)) {
            // tuple struct / variant constructor used as a function
            o.push(("ctor", J::B(true)));
            let parent = tcx.parent(d);
            let adt = if tcx.def_kind(parent) == DefKind::Variant { tcx.parent(parent) } else { parent };
            o.push(("adt", s(path(tcx, adt))));
            let def = tcx.adt_def(adt);
            let vi = def.variants().iter_enumerated().find(|(_, v)| v.ctor_def_id() == Some(d)).map(|(i, _)| i.as_u32()).unwrap_or(0);
            o.push(("variant", n(vi)));
            self.adt(adt);
            return J::O(o);
        }
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(inst)) => {
                let rd = inst.def_id();
                o.push(("rpath", s(path(tcx, rd))));
                match inst.def {
                    InstanceKind::Item(_) => {
                        o.push(("rkind", s("item")));
                        // a call to a provided trait method on a type parameter resolves to the
                        // default body only if the impl is known
                        if tcx.is_mir_available(rd) && self.descend(rd) && !tcx.is_constructor(rd) {
                            let k = self.enqueue(inst, None, env, ek);
                            o.push(("inst", s(k)));
                        }
                    }
                    InstanceKind::Intrinsic(_) => o.push(("rkind", s("intrinsic"))),
                    InstanceKind::Virtual(..) => o.push(("rkind", s("virtual"))),
                    InstanceKind::Shim(_) => o.push(("rkind", s("shim"))),
                    _ => o.push(("rkind", s("other"))),
                }
            }
            _ => o.push(("rkind", s("unresolved"))),
        }
        J::O(o)
    }

    fn konst(&mut self, c: mir::Const<'tcx>, env: TypingEnv<'tcx>, ek: &str) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return self.func_ref((*d).into(), args.skip_binder(), env, ek);
        }
        let tj = self.ty(t);
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                if let Ok(Some(inst)) = Ok::<_, ()>(Some(Instance::new_raw(u.def, u.args))) {
                    let k = self.enqueue(inst, Some(p), env, ek);
                    return J::O(vec![("k", s("promoted")), ("inst", s(k)), ("ty", tj)]);
                }
            }
        }
        if let ty::Closure(d, args) = t.kind() {
            let k = self.closure((*d).into(), args, env, ek);
            return J::O(vec![("k", s("const")), ("ty", tj), ("closure", s(k))]);
        }
        if let Some(si) = c.try_eval_scalar_int(tcx, env) {
            let bits = si.to_bits(si.size());
            let v = match t.kind() {
                ty::Int(_) => {
                    let sz = si.size().bits();
                    let sh = 128 - sz;
                    let x = if sz == 0 { 0 } else { ((bits << sh) as i128) >> sh };
                    x.to_string()
                }
                _ => bits.to_string(),
            };
            let mut o = vec![("k", s("const")), ("ty", tj), ("v", J::N(v))];
            if let mir::Const::Unevaluated(u, _) = c {
                o.push(("def", s(path(tcx, u.def))));
            }
            return J::O(o);
        }
        if t.is_unit() {
            return J::O(vec![("k", s("const")), ("ty", tj), ("unit", J::B(true))]);
        }
        // string / byte-string constants
        if let Ok(cv) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
            if let ty::Ref(_, inner, _) = t.kind() {
                if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) {
                    if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                        let txt = String::from_utf8_lossy(b).to_string();
                        let bytes: Vec<J> = b.iter().map(|x| n(x)).collect();
                        return J::O(vec![("k", s("const")), ("ty", tj), ("str", s(txt)), ("bytes", J::A(bytes))]);
                    }
                }
                // references to immutable arrays of integers (statics, promoted tables)
                if let Some(j) = self.int_array(&cv, *inner, tj_clone(&tj)) {
                    return j;
                }
            }
        }
        if let Ok(cv) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
            if let Some(j) = self.agg_const(cv, t, env, ek, 0) {
                return j;
            }
        }
        let txt = with_no_visible_paths!(with_no_trimmed_paths!(format!("{c}")));
        let mut o = vec![("k", s("const")), ("ty", tj), ("opaque", s(txt))];
        // constants with an evaluable body (e.g. `const T: [usize; 4] = [..]`) are given as their MIR
        if let mir::Const::Unevaluated(u, _) = c {
            o.push(("def", s(path(tcx, u.def))));
            if u.promoted.is_none() && u.def.is_local() {
                let inst = Instance::new_raw(u.def, u.args);
                let k = self.enqueue(inst, None, env, ek);
                o.push(("inst", s(k)));
            }
        }
        J::O(o)
    }

    /// structure of an evaluated constant of an enum, struct or tuple type
    fn agg_const(&mut self, cv: mir::ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, ek: &str, depth: usize) -> Option<J> {
        let tcx = self.tcx;
        if depth > 4 {
            return None;
        }
        match t.kind() {
            ty::Adt(def, _) if !def.is_union() => {}
            ty::Tuple(_) => {}
            _ => return None,
        }
        let d = tcx.try_destructure_mir_constant_for_user_output(cv, t)?;
        let mut fs = vec![];
        for (v, ft) in d.fields.iter() {
            let cc = mir::Const::Val(*v, *ft);
            fs.push(self.konst(cc, env, ek));
        }
        let tj = self.ty(t);
        let mut o = vec![("k", s("const")), ("ty", tj), ("fields", J::A(fs))];
        if let ty::Adt(def, _) = t.kind() {
            self.adt(def.did());
            o.push(("adt", s(path(tcx, def.did()))));
            o.push(("variant", n(d.variant.map(|x| x.as_u32()).unwrap_or(0))));
        }
        Some(J::O(o))
    }

    fn int_array(&mut self, cv: &mir::ConstValue, inner: Ty<'tcx>, tj: J) -> Option<J> {
        let tcx = self.tcx;
        let (e, len) = match inner.kind() {
            ty::Array(e, c) => (*e, c.try_to_target_usize(tcx)?),
            _ => return None,
        };
        let bits = match e.kind() {
            ty::Uint(u) => u.bit_width().unwrap_or(64),
            ty::Int(u) => u.bit_width().unwrap_or(64),
            ty::Bool => 8,
            _ => return None,
        };
        let sc = match cv {
            mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => *p,
            _ => return None,
        };
        let (prov, off) = sc.prov_and_relative_offset();
        let alloc = match tcx.global_alloc(prov.alloc_id()) {
            mir::interpret::GlobalAlloc::Memory(a) => a,
            mir::interpret::GlobalAlloc::Static(d) => {
                if tcx.is_mutable_static(d) {
                    return None;
                }
                tcx.eval_static_initializer(d).ok()?
            }
            _ => return None,
        };
        let a = alloc.inner();
        let w = bits / 8;
        let n_bytes = (w * len) as usize;
        let o = off.bytes_usize();
        if o + n_bytes > a.len() {
            return None;
        }
        let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n_bytes);
        let vals: Vec<J> = raw
            .chunks(w as usize)
            .map(|ch| {
                let mut x: u128 = 0;
                for (i, b) in ch.iter().enumerate() {
                    x |= (*b as u128) << (8 * i);
                }
                n(x)
            })
            .collect();
        let et = self.ty(e);
        Some(J::O(vec![("k", s("const")), ("ty", tj), ("ints", J::A(vals)), ("bits", n(bits)), ("elem", et)]))
    }

    fn closure(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, ek: &str) -> String {
        let inst = Instance::new_raw(d, args);
        if self.tcx.is_mir_available(d) {
            self.enqueue(inst, None, env, ek)
        } else {
            Self::key(&inst, None, ek)
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("f"), n(f.as_u32()), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), n(offset), n(min_length), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), n(from), n(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), n(v.as_u32())]),
                _ => J::A(vec![s("?")]),
            });
        }
        J::O(vec![("l", n(p.local.as_u32())), ("p", J::A(pr))])
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>, ek: &str) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("pl", self.place(p))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("pl", self.place(p))]),
            Operand::Constant(c) => self.konst(c.const_, env, ek),
            Operand::RuntimeChecks(r) => J::O(vec![("k", s("rtcheck")), ("v", s(format!("{r:?}")))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, ek: &str) -> J {
        match r {
            Rvalue::Use(o, _) => J::O(vec![("k", s("use")), ("o", self.operand(o, env, ek))]),
            Rvalue::Repeat(o, c) => {
                let c = c.try_to_target_usize(self.tcx);
                J::O(vec![
                    ("k", s("repeat")),
                    ("o", self.operand(o, env, ek)),
                    ("n", c.map(n).unwrap_or(J::Null)),
                ])
            }
            Rvalue::Ref(_, b, p) => J::O(vec![
                ("k", s("ref")),
                ("mut", J::B(matches!(b, BorrowKind::Mut { .. }))),
                ("fake", J::B(matches!(b, BorrowKind::Fake(_)))),
                ("pl", self.place(p)),
            ]),
            Rvalue::RawPtr(_, p) => J::O(vec![("k", s("rawptr")), ("pl", self.place(p))]),
            Rvalue::Cast(ck, o, t) => {
                let o = if let (CastKind::PointerCoercion(..), Operand::Constant(c)) = (ck, o) {
                    self.konst(c.const_, env, ek)
                } else {
                    self.operand(o, env, ek)
                };
                J::O(vec![("k", s("cast")), ("ck", s(format!("{ck:?}"))), ("o", o), ("ty", self.ty(*t))])
            }
            Rvalue::BinaryOp(op, ab) => J::O(vec![
                ("k", s("bin")),
                ("op", s(format!("{op:?}"))),
                ("a", self.operand(&ab.0, env, ek)),
                ("b", self.operand(&ab.1, env, ek)),
            ]),
            Rvalue::UnaryOp(op, a) => J::O(vec![
                ("k", s("un")),
                ("op", s(format!("{op:?}"))),
                ("a", self.operand(a, env, ek)),
            ]),
            Rvalue::Discriminant(p) => J::O(vec![("k", s("discr")), ("pl", self.place(p))]),
            Rvalue::Aggregate(k, ops) => {
                let mut o = vec![("k", s("agg"))];
                match &**k {
                    AggregateKind::Array(t) => {
                        o.push(("ak", s("array")));
                        let t = self.ty(*t);
                        o.push(("ty", t));
                    }
                    AggregateKind::Tuple => o.push(("ak", s("tuple"))),
                    AggregateKind::Adt(d, v, args, _, uf) => {
                        o.push(("ak", s("adt")));
                        o.push(("path", s(path(self.tcx, *d))));
                        o.push(("variant", n(v.as_u32())));
                        let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                        o.push(("args", J::A(a)));
                        if let Some(f) = uf {
                            o.push(("union_field", n(f.as_u32())));
                        }
                        self.adt(*d);
                    }
                    AggregateKind::Closure(d, args) => {
                        o.push(("ak", s("closure")));
                        let k = self.closure(*d, args, env, ek);
                        o.push(("inst", s(k)));
                    }
                    _ => o.push(("ak", s("other"))),
                }
                let ops: Vec<J> = ops.iter().map(|x| self.operand(x, env, ek)).collect();
                o.push(("ops", J::A(ops)));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::O(vec![("k", s("use")), ("o", J::O(vec![("k", s("copy")), ("pl", p)]))])
            }
            Rvalue::Reborrow(_, m, p) => J::O(vec![
                ("k", s("use")),
                ("o", J::O(vec![("k", s("copy")), ("pl", self.place(p)), ("mut", J::B(m.is_mut()))])),
            ]),
            _ => J::O(vec![("k", s("other")), ("dbg", s(format!("{r:?}")))]),
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, promoted: Option<Promoted>, env: TypingEnv<'tcx>, ek: &str) {
        let tcx = self.tcx;
        let key = Self::key(&inst, promoted, ek);
        let d = inst.def_id();
        let raw: Body<'tcx> = match promoted {
            Some(p) => tcx.promoted_mir(d)[p].clone(),
            None => {
                if matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst) {
                    tcx.mir_for_ctfe(d).clone()
                } else {
                    tcx.instance_mir(inst.def).clone()
                }
            }
        };
        let b = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw.clone())) {
            Ok(b) => b,
            Err(_) => raw,
        };
        let locals: Vec<J> = b.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![s(v.name.as_str()), self.place(&p)]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let pl = self.place(&a.0);
                        let rv = self.rvalue(&a.1, env, ek);
                        st.push(J::O(vec![("k", s("=")), ("pl", pl), ("rv", rv), ("sp", self.loc(x.source_info.span))]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(place);
                        st.push(J::O(vec![("k", s("setdiscr")), ("pl", pl), ("v", n(variant_index.as_u32()))]));
                    }
                    StatementKind::Intrinsic(i) => {
                        if let NonDivergingIntrinsic::Assume(o) = &**i {
                            let o = self.operand(o, env, ek);
                            st.push(J::O(vec![("k", s("assume")), ("o", o)]));
                        } else {
                            st.push(J::O(vec![("k", s("memcpy"))]));
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.loc(t.source_info.span);
            let mut o: Vec<(&'static str, J)> = vec![];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(target.as_u32())));
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(real_target.as_u32())));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("k", s("switch")));
                    let dty = discr.ty(&b.local_decls, tcx);
                    let dj = self.operand(discr, env, ek);
                    o.push(("o", dj));
                    o.push(("ty", self.ty(dty)));
                    let signed_bits = match dty.kind() {
                        ty::Int(x) => Some(x.bit_width().unwrap_or(64)),
                        _ => None,
                    };
                    let ts: Vec<J> = targets
                        .iter()
                        .map(|(v, t)| {
                            let vs = match signed_bits {
                                Some(b) => (((v << (128 - b)) as i128) >> (128 - b)).to_string(),
                                None => v.to_string(),
                            };
                            J::A(vec![J::N(vs), n(t.as_u32())])
                        })
                        .collect();
                    o.push(("ts", J::A(ts)));
                    o.push(("else", n(targets.otherwise().as_u32())));
                }
                TerminatorKind::Return => o.push(("k", s("return"))),
                TerminatorKind::Drop { place, target, .. } => {
                    o.push(("k", s("drop")));
                    o.push(("pl", self.place(place)));
                    o.push(("t", n(target.as_u32())));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    o.push(("k", s("call")));
                    o.push(("f", self.operand(func, env, ek)));
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, env, ek)).collect();
                    o.push(("a", J::A(a)));
                    o.push(("d", self.place(destination)));
                    o.push(("t", target.map(|x| n(x.as_u32())).unwrap_or(J::Null)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    o.push(("k", s("assert")));
                    o.push(("c", self.operand(cond, env, ek)));
                    o.push(("e", J::B(*expected)));
                    let (mk, mops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![index, len]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow {op:?}"), vec![a, b]),
                        AssertKind::OverflowNeg(a) => ("overflow Neg".into(), vec![a]),
                        AssertKind::DivisionByZero(a) => ("divzero".into(), vec![a]),
                        AssertKind::RemainderByZero(a) => ("remzero".into(), vec![a]),
                        _ => ("other".into(), vec![]),
                    };
                    o.push(("m", s(mk)));
                    let mo: Vec<J> = mops.into_iter().map(|x| self.operand(x, env, ek)).collect();
                    o.push(("mo", J::A(mo)));
                    o.push(("t", n(target.as_u32())));
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => o.push(("k", s("resume"))),
                TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
                _ => o.push(("k", s("other"))),
            }
            o.push(("sp", sp));
            blocks.push(J::O(vec![("s", J::A(st)), ("t", J::O(o)), ("cleanup", J::B(bb.is_cleanup))]));
        }
        let a: Vec<J> = inst.args.types().map(|x| self.ty(x)).collect();
        let mut o = vec![
            ("key", s(key)),
            ("path", s(path(tcx, d))),
            ("local", J::B(d.is_local())),
            ("promoted", J::B(promoted.is_some())),
            ("kind", s(format!("{:?}", tcx.def_kind(d)))),
            ("args", J::A(a)),
            ("argc", n(b.arg_count)),
            ("spread", b.spread_arg.map(|x| n(x.as_u32())).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("sp", self.loc(b.span)),
        ];
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, t))));
        }
        if let Some(t) = tcx.trait_impl_of_assoc(d) {
            o.push(("impl_of", s(path(tcx, tcx.impl_trait_id(t)))));
            let st = tcx.type_of(t).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            o.push(("self_ty", st));
        } else if let Some(p) = tcx.opt_parent(d) {
            if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                let st = self.ty(st);
                o.push(("self_ty", st));
            }
        }
        self.bodies.push(J::O(o));
    }
}

// user-written unsafe blocks
struct Unsafe<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(DefId, rustc_span::Span)>,
    owner: Vec<DefId>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafe<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_body(&mut self, b: &rustc_hir::Body<'tcx>) {
        self.owner.push(self.tcx.hir_body_owner_def_id(b.id()).to_def_id());
        rustc_hir::intravisit::walk_body(self, b);
        self.owner.pop();
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            if let (Some(o), false) = (self.owner.last(), b.span.in_external_macro(self.tcx.sess.source_map())) {
                self.found.push((*o, b.span));
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

// the first type with interior mutability or shared ownership inside t: fields of local and foreign types, and type arguments
fn hidden<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, seen: &mut HashSet<Ty<'tcx>>) -> Option<String> {
    if !seen.insert(t) || seen.len() > 4000 {
        return None;
    }
    match t.kind() {
        ty::Adt(def, args) => {
            let p = path(tcx, def.did());
            if Some(def.did()) == tcx.lang_items().unsafe_cell_type() || p == "alloc::rc::Rc" || p == "alloc::sync::Arc" {
                return Some(p);
            }
            for a in args.types() {
                if let Some(x) = hidden(tcx, a, seen) {
                    return Some(x);
                }
            }
            for f in def.all_fields() {
                let ft = tcx.type_of(f.did).instantiate(tcx, args).skip_norm_wip();
                if let Some(x) = hidden(tcx, ft, seen) {
                    return Some(if x.contains(" in ") { x } else { format!("{x} in {p}") });
                }
            }
            None
        }
        ty::Ref(_, x, _) | ty::Array(x, _) | ty::Slice(x) => hidden(tcx, *x, seen),
        ty::RawPtr(x, _) => hidden(tcx, *x, seen),
        ty::Tuple(xs) => xs.iter().find_map(|x| hidden(tcx, x, seen)),
        _ => None,
    }
}

/// what a safe Rust reader takes for granted: state that outlives a call, unsafe code, auto traits of the public types
fn effects<'tcx>(dm: &mut Dump<'tcx>) -> J {
    let tcx = dm.tcx;
    let ev = tcx.effective_visibilities(());
    let mut statics = vec![];
    let mut types = vec![];
    let mut unsafes = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let env = TypingEnv::post_analysis(tcx, d);
                let st = matches!(tcx.def_kind(d), DefKind::Static { .. });
                statics.push(J::O(vec![
                    ("path", s(path(tcx, d))),
                    ("static", J::B(st)),
                    ("mut", J::B(st && tcx.is_mutable_static(d))),
                    ("thread_local", J::B(st && tcx.is_thread_local_static(d))),
                    ("freeze", J::B(t.is_freeze(tcx, env))),
                    ("hidden", hidden(tcx, t, &mut HashSet::new()).map(s).unwrap_or(J::Null)),
                    ("ty", s(with_no_visible_paths!(with_no_trimmed_paths!(format!("{t}"))))),
                    ("sp", dm.loc(tcx.def_span(d))),
                ]));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let env = TypingEnv::post_analysis(tcx, d);
                let mut o = vec![
                    ("path", s(path(tcx, d))),
                    ("reachable", J::B(ev.is_reachable(id))),
                    ("freeze", J::B(t.is_freeze(tcx, env))),
                    ("hidden", hidden(tcx, t, &mut HashSet::new()).map(s).unwrap_or(J::Null)),
                    ("sp", dm.loc(tcx.def_span(d))),
                ];
                let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
                let pe = tcx.param_env(d);
                for (name, td) in [
                    ("send", tcx.get_diagnostic_item(rustc_span::sym::Send)),
                    ("sync", tcx.lang_items().sync_trait()),
                ] {
                    if let Some(td) = td {
                        o.push((name, J::B(infcx.type_implements_trait(td, [t], pe).must_apply_modulo_regions())));
                    }
                }
                types.push(J::O(o));
            }
            DefKind::Impl { of_trait: true } if !tcx.impl_trait_header(d).safety.is_safe() && !tcx.is_automatically_derived(d) => {
                unsafes.push(J::O(vec![("kind", s("impl")), ("path", s(path(tcx, d))), ("sp", dm.loc(tcx.def_span(d)))]));
            }
            DefKind::Fn | DefKind::AssocFn if !tcx.fn_sig(d).skip_binder().safety().is_safe() => {
                unsafes.push(J::O(vec![("kind", s("fn")), ("path", s(path(tcx, d))), ("sp", dm.loc(tcx.def_span(d)))]));
            }
            DefKind::ForeignMod => {
                unsafes.push(J::O(vec![("kind", s("extern")), ("path", s(path(tcx, d))), ("sp", dm.loc(tcx.def_span(d)))]));
            }
            _ => {}
        }
    }
    let mut v = Unsafe { tcx, found: vec![], owner: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut v);
    for (o, sp) in v.found {
        unsafes.push(J::O(vec![("kind", s("block")), ("path", s(path(tcx, o))), ("sp", dm.loc(sp))]));
    }
    J::O(vec![("statics", J::A(statics)), ("types", J::A(types)), ("unsafe", J::A(unsafes))])
}

struct Cb;
impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "baa".into());
        if tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str() != want {
            return Compilation::Continue;
        }
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let mut dm = Dump {
            tcx,
            types: vec![],
            type_ids: HashMap::new(),
            adts: vec![],
            adt_seen: HashSet::new(),
            queue: VecDeque::new(),
            seen: HashSet::new(),
            bodies: vec![],
        };
        let ev = tcx.effective_visibilities(());
        let mut roots = vec![];
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|d| path(tcx, d.to_def_id()));
        for ld in keys {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let env = TypingEnv::post_analysis(tcx, d);
            let ek = if tcx.generics_of(d).requires_monomorphization(tcx) { path(tcx, d) } else { String::new() };
            let inst = Instance::new_raw(d, args);
            let k = dm.enqueue(inst, None, env, &ek);
            let imp = tcx.trait_impl_of_assoc(d).map(|i| {
                (path(tcx, tcx.impl_trait_id(i)), tcx.type_of(i).instantiate_identity().skip_norm_wip())
            });
            let assoc_inherent = tcx.opt_parent(d).filter(|p| matches!(tcx.def_kind(*p), DefKind::Impl { of_trait: false }));
            let mut o = vec![
                ("key", s(k)),
                ("path", s(path(tcx, d))),
                ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
                ("reachable", J::B(ev.is_reachable(ld))),
                ("vis", s(if tcx.visibility(d).is_public() { "pub" } else { "restricted" })),
                ("sp", dm.loc(tcx.def_span(d))),
                ("safe", J::B(tcx.fn_sig(d).skip_binder().safety().is_safe())),
            ];
            if let Some((t, st)) = imp {
                o.push(("impl_of", s(t)));
                let st = dm.ty(st);
                o.push(("self_ty", st));
            }
            if let Some(p) = assoc_inherent {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                let st = dm.ty(st);
                o.push(("self_ty", st));
            }
            if let Some(t) = tcx.trait_of_assoc(d) {
                o.push(("trait", s(path(tcx, t))));
            }
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            o.push(("sig", s(with_no_visible_paths!(with_no_trimmed_paths!(format!("{sig}"))))));
            roots.push(J::O(o));
        }
        while let Some((i, p, e, ek)) = dm.queue.pop_front() {
            dm.body(i, p, e, &ek);
            if dm.bodies.len() > 20000 {
                break;
            }
        }
        // impls in this crate
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if let DefKind::Impl { of_trait } = tcx.def_kind(d) {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut o = vec![("self", s(with_no_visible_paths!(with_no_trimmed_paths!(format!("{st}")))))];
                let st = dm.ty(st);
                o.push(("self_ty", st));
                if of_trait {
                    o.push(("trait", s(path(tcx, tcx.impl_trait_id(d)))));
                }
                let items: Vec<J> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .map(|a| s(a.opt_name().map(|x| x.to_string()).unwrap_or_default()))
                    .collect();
                o.push(("items", J::A(items)));
                o.push(("derived", J::B(tcx.is_automatically_derived(d))));
                o.push(("sp", dm.loc(tcx.def_span(d))));
                impls.push(J::O(o));
            }
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                dm.ty(t);
            }
        }
        let eff = effects(&mut dm);
        let top = J::O(vec![
            ("effects", eff),
            ("roots", J::A(roots)),
            ("bodies", J::A(std::mem::take(&mut dm.bodies))),
            ("types", J::A(std::mem::take(&mut dm.types))),
            ("adts", J::A(std::mem::take(&mut dm.adts))),
            ("impls", J::A(impls)),
        ]);
        let mut o = String::new();
        top.write(&mut o);
        std::fs::write(&out, o).expect("write MIRDUMP_OUT");
        Compilation::Continue
    }
}

fn main() {
    // invoked as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
}
