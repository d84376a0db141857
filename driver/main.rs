//! MIR extraction driver.
//!
//! Runs as RUSTC_WORKSPACE_WRAPPER: performs the ordinary compilation of one workspace crate and,
//! after analysis, writes the type-checked program (MIR bodies, resolved callees, evaluated
//! constants, type table, trait impls) to $KV_DUMP_DIR/<crate>.json.  Nothing of the analysed
//! program is executed.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io;
use std::path::{Path, PathBuf};
use std::sync::Arc;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use rustc_span::source_map::{FileLoader, RealFileLoader};
use rustc_span::Span;

// ------------------------------------------------------------------ JSON

enum J {
    Null,
    B(bool),
    I(i128),
    U(u128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}

fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::U(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
fn u(x: usize) -> J {
    J::U(x as u128)
}

macro_rules! arr { ($($e:expr),* $(,)?) => { J::A(vec![$($e),*]) } }

// ------------------------------------------------------------------ collector

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<J>,
    consts: HashMap<String, ()>,
    const_out: Vec<J>,
    seen: HashSet<Instance<'tcx>>,
    queue: VecDeque<(Instance<'tcx>, usize)>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d))))
}

fn inst_key<'tcx>(tcx: TyCtxt<'tcx>, i: Instance<'tcx>) -> String {
    let base = with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(
        tcx.def_path_str_with_args(i.def_id(), i.args)
    )));
    match i.def {
        InstanceKind::Item(_) => base,
        InstanceKind::Intrinsic(_) => base,
        InstanceKind::Virtual(_, n) => format!("{base} - virtual#{n}"),
        InstanceKind::Shim(k) => {
            let t = with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(format!("{:?}", k))));
            format!("{base} - shim({t})")
        }
        _ => format!("{base} - other"),
    }
}

fn ty_str<'tcx>(t: Ty<'tcx>) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())))
}

/// Crates whose bodies are only followed when reachable; deep library internals are cut off and
/// left for the analyser to model by name.
fn descend(tcx: TyCtxt<'_>, d: DefId) -> bool {
    if d.is_local() {
        return true;
    }
    let name = tcx.crate_name(d.krate);
    let p = path(tcx, d);
    match name.as_str() {
        "core" => {
            const CUT: &[&str] = &[
                "core::fmt", "core::panicking", "core::str", "core::unicode", "core::char", "core::num::dec2flt",
                "core::num::flt2dec", "core::num::bignum", "core::slice::sort", "core::time", "core::net",
                "core::ub_checks", "core::alloc", "core::any", "core::cell", "core::sync", "core::ffi",
                "core::hash", "core::result::unwrap_failed", "core::option::unwrap_failed",
                "core::option::expect_failed",
            ];
            // `<impl core::fmt::..>`-style paths also contain the trait name
            !(CUT.iter().any(|c| p.starts_with(c)) || p.contains("core::fmt::"))
        }
        "alloc" | "std" => false,
        n if n.starts_with("keramics") => true,
        _ => false,
    }
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.type_out.len();
        self.types.insert(t, i);
        self.type_out.push(J::Null);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", s(ty_str(t)))];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(x) => {
                o.push(("k", s("int")));
                o.push(("w", u(x.bit_width().unwrap_or(64) as usize)));
                o.push(("sg", J::B(true)));
            }
            ty::Uint(x) => {
                o.push(("k", s("int")));
                o.push(("w", u(x.bit_width().unwrap_or(64) as usize)));
                o.push(("sg", J::B(false)));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Ref(_, x, m) => {
                let xi = self.ty(x, env);
                o.push(("k", s("ref")));
                o.push(("m", J::B(m.is_mut())));
                o.push(("t", u(xi)));
            }
            ty::RawPtr(x, m) => {
                let xi = self.ty(x, env);
                o.push(("k", s("ptr")));
                o.push(("m", J::B(m.is_mut())));
                o.push(("t", u(xi)));
            }
            ty::Slice(x) => {
                let xi = self.ty(x, env);
                o.push(("k", s("slice")));
                o.push(("t", u(xi)));
            }
            ty::Array(x, n) => {
                let xi = self.ty(x, env);
                o.push(("k", s("array")));
                o.push(("t", u(xi)));
                o.push(("n", n.try_to_target_usize(tcx).map_or(J::Null, |v| J::U(v as u128))));
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|x| u(self.ty(x, env))).collect();
                o.push(("k", s("tuple")));
                o.push(("ts", J::A(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("p", s(path(tcx, def.did()))));
                o.push(("ak", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let targs = args.types().map(|x| u(self.ty(x, env))).collect();
                o.push(("ga", J::A(targs)));
                let mut vs = Vec::new();
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = Vec::new();
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let ft = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                        let fi = self.ty(ft, env);
                        fs.push(arr![s(f.name), u(fi)]);
                    }
                    let dv = if def.is_enum() {
                        let dd = def.discriminant_for_variant(tcx, vi);
                        let sh = match tcx.layout_of(env.as_query_input(dd.ty)) {
                            Ok(l) if dd.ty.is_signed() => 128 - 8 * l.size.bytes() as u32,
                            _ => 0,
                        };
                        J::I(((dd.val << sh) as i128) >> sh)
                    } else {
                        J::I(0)
                    };
                    vs.push(arr![s(v.name), dv, J::A(fs)]);
                }
                o.push(("vs", J::A(vs)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("d", s(path(tcx, d))));
                let a = args.skip_binder();
                if let Some(inst) = self.resolve(d, a, env) {
                    o.push(("key", s(inst_key(tcx, inst))));
                }
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("p", s(path(tcx, d))));
                let inst = Instance::new_raw(d, args);
                o.push(("key", s(inst_key(tcx, inst))));
                let v = args.as_closure().upvar_tys().iter().map(|x| u(self.ty(x, env))).collect();
                o.push(("ts", J::A(v)));
            }
            ty::Dynamic(preds, ..) => {
                o.push(("k", s("dyn")));
                o.push(("p", preds.principal_def_id().map_or(J::Null, |d| s(path(tcx, d)))));
            }
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        if let Ok(l) = tcx.layout_of(env.as_query_input(t)) {
            if l.is_sized() {
                o.push(("sz", J::U(l.size.bytes() as u128)));
            }
        }
        self.type_out[i] = J::O(o);
        i
    }

    fn resolve(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> Option<Instance<'tcx>> {
        if !matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            return None;
        }
        if matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) {
            return Some(Instance::new_raw(d, args));
        }
        let args = self
            .tcx
            .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args))
            .unwrap_or(args);
        Instance::try_resolve(self.tcx, env, d, args).ok().flatten()
    }

    fn loc(&self, sp: Span) -> (String, usize, Option<String>) {
        let sm = self.tcx.sess.source_map();
        let mac = if sp.from_expansion() {
            let mut outer = None;
            for e in sp.macro_backtrace() {
                outer = Some(e.kind.descr().to_string());
            }
            outer
        } else {
            None
        };
        let sc = sp.source_callsite();
        let l = sm.lookup_char_pos(sc.lo());
        (l.file.name.prefer_local_unconditionally().to_string(), l.line, mac)
    }

    // -------------------------------------------------------------- constants

    fn bytes_of(&self, id: AllocId, off: u64, n: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let off = off as usize;
                let n = n as usize;
                if off + n > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + n).to_vec())
            }
            GlobalAlloc::Static(d) => {
                let a = self.tcx.eval_static_initializer(d).ok()?;
                let a = a.inner();
                let off = off as usize;
                let n = n as usize;
                if off + n > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + n).to_vec())
            }
            _ => None,
        }
    }

    fn prov_at(&self, id: AllocId, off: u64) -> Option<AllocId> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                a.inner().provenance().ptrs().get(&rustc_abi::Size::from_bytes(off)).map(|p| p.alloc_id())
            }
            GlobalAlloc::Static(d) => {
                let a = self.tcx.eval_static_initializer(d).ok()?;
                a.inner().provenance().ptrs().get(&rustc_abi::Size::from_bytes(off)).map(|p| p.alloc_id())
            }
            _ => None,
        }
    }

    /// Read a value of type `t` at `off` in allocation `id`.
    fn mem_val(&mut self, id: AllocId, off: u64, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return arr![s("?")];
        }
        let rd = |cx: &Self, n: u64| -> Option<u128> {
            let b = cx.bytes_of(id, off, n)?;
            let mut v: u128 = 0;
            for (i, x) in b.iter().enumerate() {
                v |= (*x as u128) << (8 * i);
            }
            Some(v)
        };
        let lay = match tcx.layout_of(env.as_query_input(t)) {
            Ok(l) => l,
            Err(_) => return arr![s("?")],
        };
        let size = lay.size.bytes();
        match *t.kind() {
            ty::Bool => rd(self, 1).map_or(arr![s("?")], |v| J::B(v != 0)),
            ty::Char => rd(self, 4).map_or(arr![s("?")], |v| J::U(v)),
            ty::Uint(_) => rd(self, size).map_or(arr![s("?")], |v| J::U(v)),
            ty::Int(_) => match rd(self, size) {
                Some(v) => {
                    let sh = 128 - 8 * size as u32;
                    J::I(((v << sh) as i128) >> sh)
                }
                None => arr![s("?")],
            },
            ty::Ref(_, x, _) | ty::RawPtr(x, _) => {
                let target = match self.prov_at(id, off) {
                    Some(x) => x,
                    None => return arr![s("?")],
                };
                let b = match self.bytes_of(id, off, size) {
                    Some(b) => b,
                    None => return arr![s("?")],
                };
                let g = |i: usize| {
                    let mut v = 0u64;
                    for k in 0..8 {
                        v |= (b[i + k] as u64) << (8 * k);
                    }
                    v
                };
                let base = g(0);
                match *x.kind() {
                    ty::Slice(_) | ty::Str if size == 16 => {
                        let n = g(8);
                        self.slice_val(target, base, n, x, env, depth)
                    }
                    _ if size == 8 => {
                        let inner = self.mem_val(target, base, x, env, depth + 1);
                        arr![s("R"), inner]
                    }
                    _ => arr![s("?")],
                }
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                self.seq_val(id, off, n, e, env, depth)
            }
            ty::Tuple(ts) => {
                let mut v = Vec::new();
                for (i, ft) in ts.iter().enumerate() {
                    let fo = lay.fields.offset(i).bytes();
                    v.push(self.mem_val(id, off + fo, ft, env, depth + 1));
                }
                arr![s("A"), J::U(0), J::A(v)]
            }
            ty::Adt(def, args) => {
                if def.is_union() {
                    return arr![s("?")];
                }
                let vi = if def.is_enum() {
                    let cv = ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) };
                    match tcx.try_destructure_mir_constant_for_user_output(cv, t) {
                        Some(d) => d.variant.unwrap(),
                        None => return arr![s("?")],
                    }
                } else {
                    rustc_abi::VariantIdx::from_u32(0)
                };
                let c = ty::layout::LayoutCx::new(tcx, env);
                let vl = lay.for_variant(&c, vi);
                let mut v = Vec::new();
                for (i, f) in def.variant(vi).fields.iter().enumerate() {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    let ft = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                    let fo = vl.fields.offset(i).bytes();
                    v.push(self.mem_val(id, off + fo, ft, env, depth + 1));
                }
                arr![s("A"), J::U(vi.as_u32() as u128), J::A(v)]
            }
            ty::FnDef(..) | ty::Closure(..) => arr![s("Z")],
            _ => arr![s("?")],
        }
    }

    fn seq_val(&mut self, id: AllocId, off: u64, n: u64, e: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if let ty::Uint(ty::UintTy::U8) = e.kind() {
            return match self.bytes_of(id, off, n) {
                Some(b) => {
                    let mut h = String::new();
                    for x in b {
                        let _ = write!(h, "{:02x}", x);
                    }
                    arr![s("B"), J::S(h)]
                }
                None => arr![s("?")],
            };
        }
        let es = match tcx.layout_of(env.as_query_input(e)) {
            Ok(l) => l.size.bytes(),
            Err(_) => return arr![s("?")],
        };
        let v = (0..n).map(|i| self.mem_val(id, off + i * es, e, env, depth + 1)).collect();
        arr![s("L"), J::A(v)]
    }

    fn slice_val(&mut self, id: AllocId, off: u64, n: u64, x: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        match *x.kind() {
            ty::Str => match self.bytes_of(id, off, n) {
                Some(b) => arr![s("R"), arr![s("S"), J::S(String::from_utf8_lossy(&b).into_owned())]],
                None => arr![s("?")],
            },
            ty::Slice(e) => {
                let v = self.seq_val(id, off, n, e, env, depth);
                arr![s("R"), v]
            }
            _ => arr![s("?")],
        }
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => match *t.kind() {
                ty::FnDef(d, args) => match self.resolve(d, args.skip_binder(), env) {
                    Some(i) => {
                        self.enqueue(i, 0);
                        arr![s("F"), s(inst_key(tcx, i))]
                    }
                    None => arr![s("F"), s(path(tcx, d))],
                },
                ty::Array(..) => arr![s("L"), J::A(vec![])],
                _ => {
                    // unit-like values
                    if let ty::Adt(def, _) = t.kind() {
                        if def.is_struct() || def.is_enum() {
                            let n = def.variants().iter().next().map_or(0, |v| v.fields.len());
                            let fs = (0..n).map(|_| arr![s("Z")]).collect();
                            return arr![s("A"), J::U(0), J::A(fs)];
                        }
                    }
                    arr![s("Z")]
                }
            },
            ConstValue::Scalar(Scalar::Int(i)) => match *t.kind() {
                ty::Bool => J::B(i.to_bits(i.size()) != 0),
                ty::Int(_) => J::I(i.to_int(i.size())),
                ty::Uint(_) | ty::Char => J::U(i.to_bits(i.size())),
                ty::Adt(def, _) => {
                    if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let _ = def;
                        let var = d.variant.map_or(0, |x| x.as_u32());
                        let fs: Vec<_> = d.fields.iter().map(|(fv, ft)| self.const_val(*fv, *ft, env)).collect();
                        arr![s("A"), J::U(var as u128), J::A(fs)]
                    } else {
                        arr![s("?")]
                    }
                }
                ty::Tuple(_) | ty::Array(..) => {
                    if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let fs: Vec<_> = d.fields.iter().map(|(fv, ft)| self.const_val(*fv, *ft, env)).collect();
                        if t.is_array() { arr![s("L"), J::A(fs)] } else { arr![s("A"), J::U(0), J::A(fs)] }
                    } else {
                        arr![s("?")]
                    }
                }
                ty::RawPtr(..) => arr![s("P"), J::U(i.to_bits(i.size()))],
                _ => arr![s("?")],
            },
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                match *t.kind() {
                    ty::Ref(_, x, _) | ty::RawPtr(x, _) => {
                        if let Some(GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                            let fixed = !tcx.is_mutable_static(d) && !tcx.is_foreign_item(d) && x.is_freeze(tcx, env);
                            let inner = if fixed { self.mem_val(prov.alloc_id(), off.bytes(), x, env, 0) } else { arr![s("?")] };
                            return arr![s("G"), s(path(tcx, d)), inner];
                        }
                        let inner = self.mem_val(prov.alloc_id(), off.bytes(), x, env, 0);
                        arr![s("R"), inner]
                    }
                    ty::FnPtr(..) => match tcx.try_get_global_alloc(prov.alloc_id()) {
                        Some(GlobalAlloc::Function { instance }) => {
                            self.enqueue(instance, 0);
                            arr![s("F"), s(inst_key(tcx, instance))]
                        }
                        _ => arr![s("?")],
                    },
                    ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                        if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                            let var = d.variant.map_or(0, |x| x.as_u32());
                            let fs: Vec<_> = d.fields.iter().map(|(fv, ft)| self.const_val(*fv, *ft, env)).collect();
                            arr![s("A"), J::U(var as u128), J::A(fs)]
                        } else {
                            arr![s("?")]
                        }
                    }
                    _ => arr![s("?")],
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let ty::Ref(_, x, _) = *t.kind() {
                    self.slice_val(alloc_id, 0, meta, x, env, 0)
                } else {
                    arr![s("?")]
                }
            }
            ConstValue::Indirect { alloc_id, offset } => self.mem_val(alloc_id, offset.bytes(), t, env, 0),
        }
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t, env);
        let mut o = vec![("t", u(ti))];
        let mut name = None;
        if let Const::Unevaluated(uc, _) = c.const_ {
            if uc.promoted.is_none() {
                let n = with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(
                    tcx.def_path_str_with_args(uc.def, uc.args)
                )));
                name = Some(n);
            }
        }
        if let Some(n) = name {
            o.push(("n", J::S(n.clone())));
            if !self.consts.contains_key(&n) {
                self.consts.insert(n.clone(), ());
                let v = match c.const_.eval(tcx, env, rustc_span::DUMMY_SP) {
                    Ok(v) => self.const_val(v, t, env),
                    Err(_) => arr![s("?")],
                };
                self.const_out.push(arr![s(n), u(ti), v]);
            }
        } else {
            let v = match c.const_.eval(tcx, env, rustc_span::DUMMY_SP) {
                Ok(v) => self.const_val(v, t, env),
                Err(_) => arr![s("?")],
            };
            o.push(("v", v));
        }
        J::O(o)
    }

    // -------------------------------------------------------------- bodies

    fn enqueue(&mut self, i: Instance<'tcx>, depth: usize) {
        if self.seen.contains(&i) {
            return;
        }
        let d = i.def_id();
        match i.def {
            InstanceKind::Item(_) => {
                if !descend(self.tcx, d) {
                    return;
                }
            }
            InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => return,
            InstanceKind::Shim(ty::ShimKind::Clone(..))
            | InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. })
            | InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => {}
            _ => return,
        }
        if depth > 24 {
            return;
        }
        self.seen.insert(i);
        self.queue.push_back((i, depth));
    }

    fn place(&mut self, p: &Place<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut v = Vec::new();
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => arr![s("d")],
                ProjectionElem::Field(f, t) => arr![s("f"), u(f.as_usize()), u(self.ty(t, env))],
                ProjectionElem::Index(l) => arr![s("i"), u(l.as_usize())],
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    arr![s("c"), J::U(offset as u128), J::U(min_length as u128), J::B(from_end)]
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    arr![s("s"), J::U(from as u128), J::U(to as u128), J::B(from_end)]
                }
                ProjectionElem::Downcast(_, vi) => arr![s("v"), u(vi.as_usize())],
                ProjectionElem::OpaqueCast(_) => arr![s("o")],
                _ => arr![s("?")],
            });
        }
        arr![u(p.local.as_usize()), J::A(v)]
    }

    fn op(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => arr![s("cp"), self.place(p, env)],
            Operand::Move(p) => arr![s("mv"), self.place(p, env)],
            Operand::Constant(c) => arr![s("k"), self.konst(c, env)],
            Operand::RuntimeChecks(r) => arr![s("rt"), s(format!("{:?}", r))],
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        match r {
            Rvalue::Use(o, _) => arr![s("use"), self.op(o, env)],
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map_or(J::Null, |v| J::U(v as u128));
                arr![s("rep"), self.op(o, env), n]
            }
            Rvalue::Ref(_, b, p) => {
                let k = match b {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "shr",
                    _ => "fake",
                };
                arr![s("ref"), s(k), self.place(p, env)]
            }
            Rvalue::RawPtr(k, p) => arr![s("addr"), s(format!("{:?}", k)), self.place(p, env)],
            Rvalue::Reborrow(_, _, p) => arr![s("reborrow"), self.place(p, env)],
            Rvalue::ThreadLocalRef(d) => arr![s("tls"), s(path(self.tcx, *d))],
            Rvalue::Cast(k, o, t) => {
                // function items / closures reified to pointers are reachable
                if let CastKind::PointerCoercion(..) = k {
                    if let Operand::Constant(c) = o {
                        if let ty::FnDef(d, a) = *c.const_.ty().kind() {
                            if let Some(i) = self.resolve(d, a.skip_binder(), env) {
                                self.enqueue(i, depth + 1);
                            }
                        }
                    }
                }
                let ti = self.ty(*t, env);
                arr![s("cast"), s(format!("{:?}", k)), self.op(o, env), u(ti)]
            }
            Rvalue::BinaryOp(b, x) => {
                let (l, r) = &**x;
                arr![s("bin"), s(format!("{:?}", b)), self.op(l, env), self.op(r, env)]
            }
            Rvalue::UnaryOp(b, x) => arr![s("un"), s(format!("{:?}", b)), self.op(x, env)],
            Rvalue::Discriminant(p) => arr![s("disc"), self.place(p, env)],
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(_) => arr![s("array")],
                    AggregateKind::Tuple => arr![s("tuple")],
                    AggregateKind::Adt(d, vi, _, _, af) => {
                        arr![s("adt"), s(path(self.tcx, *d)), u(vi.as_usize()), af.map_or(J::Null, |f| u(f.as_usize()))]
                    }
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance::new_raw(*d, args);
                        self.enqueue(inst, depth + 1);
                        arr![s("closure"), s(inst_key(self.tcx, inst))]
                    }
                    AggregateKind::RawPtr(..) => arr![s("rawptr")],
                    _ => arr![s("other")],
                };
                let v = ops.iter().map(|o| self.op(o, env)).collect();
                arr![s("agg"), kj, J::A(v)]
            }
            Rvalue::CopyForDeref(p) => arr![s("use"), arr![s("cp"), self.place(p, env)]],
            _ => arr![s("?"), s(format!("{:?}", r))],
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, generic: bool, depth: usize) -> Option<J> {
        let tcx = self.tcx;
        let d = inst.def_id();
        if let InstanceKind::Item(d) = inst.def {
            if !tcx.is_mir_available(d) || tcx.is_foreign_item(d) {
                return None;
            }
            if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
                return None;
            }
        }
        let env = if generic { TypingEnv::post_analysis(tcx, d) } else { TypingEnv::fully_monomorphized() };
        let body = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = if generic {
            body.clone()
        } else {
            let mut b = body.clone();
            // drop debug info before monomorphising: fragments may not be normalisable
            let names = std::mem::take(&mut b.var_debug_info);
            let mut b = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, b));
            b.var_debug_info = names;
            b
        };
        let (file, line, _) = self.loc(body.span);
        let mut o: Vec<(&'static str, J)> = vec![
            ("key", s(inst_key(tcx, inst))),
            ("def", s(path(tcx, d))),
            ("crate", s(tcx.crate_name(d.krate))),
            ("local", J::B(d.is_local())),
            ("generic", J::B(generic)),
            ("file", s(file)),
            ("line", u(line)),
            ("args", u(body.arg_count)),
        ];
        let is_closure = tcx.is_closure_like(d);
        o.push(("closure", J::B(is_closure)));
        if let Some(imp) = tcx.impl_of_assoc(d) {
            o.push(("self", s(ty_str(tcx.type_of(imp).instantiate_identity().skip_norm_wip()))));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("trait", s(path(tcx, tr.def_id))));
            }
        }
        if let Some(ai) = tcx.opt_associated_item(d) {
            if let Some(tm) = ai.trait_item_def_id() {
                o.push(("tm", s(path(tcx, tm))));
            }
            o.push(("name", s(ai.name())));
        } else if let Some(n) = tcx.opt_item_name(d) {
            o.push(("name", s(n)));
        }
        if d.is_local() {
            o.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
            o.push(("const", J::B(tcx.is_const_fn(d))));
        }
        if let Some(p) = tcx.opt_parent(d) {
            if is_closure {
                o.push(("parent", s(path(tcx, p))));
            }
        }
        let tys = body.local_decls.iter().map(|l| u(self.ty(l.ty, env))).collect();
        o.push(("locals", J::A(tys)));
        let mut names = Vec::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(arr![u(p.local.as_usize()), s(v.name)]);
                }
            }
        }
        o.push(("names", J::A(names)));
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut st = Vec::new();
            for stmt in bb.statements.iter() {
                let (_, line, _) = self.loc(stmt.source_info.span);
                match &stmt.kind {
                    StatementKind::Assign(x) => {
                        let (p, r) = &**x;
                        let pj = self.place(p, env);
                        let rj = self.rvalue(r, env, depth);
                        st.push(arr![s("="), pj, rj, u(line)]);
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place, env);
                        st.push(arr![s("sd"), pj, u(variant_index.as_usize()), u(line)]);
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(op) => {
                            let oj = self.op(op, env);
                            st.push(arr![s("assume"), oj, u(line)]);
                        }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.op(&c.src, env);
                            let b = self.op(&c.dst, env);
                            let n = self.op(&c.count, env);
                            st.push(arr![s("cno"), a, b, n, u(line)]);
                        }
                    },
                    StatementKind::StorageLive(l) => st.push(arr![s("sl"), u(l.as_usize())]),
                    StatementKind::StorageDead(l) => st.push(arr![s("sx"), u(l.as_usize())]),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let (tfile, tline, tmac) = self.loc(term.source_info.span);
            let uw = |a: &UnwindAction| match a {
                UnwindAction::Cleanup(b) => u(b.as_usize()),
                _ => J::Null,
            };
            let tj = match &term.kind {
                TerminatorKind::Goto { target, .. } => arr![s("goto"), u(target.as_usize())],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dj = self.op(discr, env);
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dti = self.ty(dt, env);
                    let vs = targets.iter().map(|(v, b)| arr![J::U(v), u(b.as_usize())]).collect();
                    arr![s("switch"), dj, u(dti), J::A(vs), u(targets.otherwise().as_usize())]
                }
                TerminatorKind::Return => arr![s("ret")],
                TerminatorKind::Unreachable => arr![s("unreachable")],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => arr![s("resume")],
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pti = self.ty(pt, env);
                    arr![s("drop"), self.place(place, env), u(target.as_usize()), uw(unwind), u(pti)]
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let fj = self.callee(func, env, &body, depth);
                    let aj = args.iter().map(|a| self.op(&a.node, env)).collect();
                    arr![
                        s("call"),
                        fj,
                        J::A(aj),
                        self.place(destination, env),
                        target.map_or(J::Null, |t| u(t.as_usize())),
                        uw(unwind)
                    ]
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let mk;
                    let mut ops = Vec::new();
                    match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            mk = "bounds".to_string();
                            ops.push(self.op(len, env));
                            ops.push(self.op(index, env));
                        }
                        AssertKind::Overflow(b, x, y) => {
                            mk = format!("overflow:{:?}", b);
                            ops.push(self.op(x, env));
                            ops.push(self.op(y, env));
                        }
                        AssertKind::OverflowNeg(x) => {
                            mk = "overflow:Neg".into();
                            ops.push(self.op(x, env));
                        }
                        AssertKind::DivisionByZero(x) => {
                            mk = "divzero".into();
                            ops.push(self.op(x, env));
                        }
                        AssertKind::RemainderByZero(x) => {
                            mk = "remzero".into();
                            ops.push(self.op(x, env));
                        }
                        _ => mk = "other".into(),
                    }
                    let cj = self.op(cond, env);
                    arr![s("assert"), cj, J::B(*expected), s(mk), J::A(ops), u(target.as_usize()), uw(unwind)]
                }
                TerminatorKind::FalseEdge { real_target, .. } => arr![s("goto"), u(real_target.as_usize())],
                TerminatorKind::FalseUnwind { real_target, .. } => arr![s("goto"), u(real_target.as_usize())],
                k => arr![s("?"), s(format!("{:?}", k))],
            };
            let mut bo = vec![("s", J::A(st)), ("t", tj), ("l", u(tline))];
            if let Some(m) = tmac {
                bo.push(("m", s(m)));
            }
            let _ = tfile;
            if bb.is_cleanup {
                bo.push(("c", J::B(true)));
            }
            blocks.push(J::O(bo));
        }
        o.push(("blocks", J::A(blocks)));
        Some(J::O(o))
    }

    fn callee(&mut self, func: &Operand<'tcx>, env: TypingEnv<'tcx>, body: &Body<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let ft = func.ty(&body.local_decls, tcx);
        match *ft.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let mut o: Vec<(&'static str, J)> = vec![("def", s(path(tcx, d)))];
                let ga: Vec<J> = args.types().map(|t| u(self.ty(t, env))).collect();
                o.push(("ga", J::A(ga)));
                if tcx.trait_of_assoc(d).is_some() {
                    o.push(("tm", s(path(tcx, d))));
                }
                match self.resolve(d, args, env) {
                    Some(i) => {
                        o.push(("key", s(inst_key(tcx, i))));
                        o.push(("rdef", s(path(tcx, i.def_id()))));
                        o.push(("crate", s(tcx.crate_name(i.def_id().krate))));
                        let k = match i.def {
                            InstanceKind::Item(_) => "item",
                            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                            InstanceKind::Virtual(..) => "virtual",
                            InstanceKind::Shim(_) => "shim",
                        };
                        o.push(("k", s(k)));
                        if matches!(tcx.def_kind(i.def_id()), DefKind::Ctor(..)) {
                            o.push(("ctor", J::B(true)));
                        }
                        self.enqueue(i, depth + 1);
                    }
                    None => o.push(("k", s("unresolved"))),
                }
                J::O(o)
            }
            _ => {
                let oj = self.op(func, env);
                J::O(vec![("k", s("ptr")), ("op", oj)])
            }
        }
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, dir: &str) {
    let mut cx = Cx {
        tcx,
        types: HashMap::new(),
        type_out: vec![],
        consts: HashMap::new(),
        const_out: vec![],
        seen: HashSet::new(),
        queue: VecDeque::new(),
    };
    let crate_name = tcx.crate_name(LOCAL_CRATE).to_string();
    let mut fns: Vec<String> = Vec::new();
    let mut statics = Vec::new();
    let mut missing = Vec::new();
    let mut generic_roots: Vec<DefId> = Vec::new();
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                let g = tcx.generics_of(d);
                if tcx.is_closure_like(d) {
                    continue; // reached from the enclosing body
                }
                if g.requires_monomorphization(tcx) {
                    generic_roots.push(d);
                } else {
                    cx.enqueue(Instance::mono(tcx, d), 0);
                }
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let freeze = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
                let (f, l, _) = cx.loc(tcx.def_span(d));
                let tls = tcx.is_thread_local_static(d);
                statics.push(J::O(vec![
                    ("path", s(path(tcx, d))),
                    ("mut", J::B(mutability.is_mut())),
                    ("freeze", J::B(freeze)),
                    ("tls", J::B(tls)),
                    ("ty", s(ty_str(t))),
                    ("file", s(f)),
                    ("line", u(l)),
                ]));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                if tcx.generics_of(d).requires_monomorphization(tcx) {
                    continue;
                }
                let env = TypingEnv::fully_monomorphized();
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let n = path(tcx, d);
                if !cx.consts.contains_key(&n) {
                    cx.consts.insert(n.clone(), ());
                    let ti = cx.ty(t, env);
                    let v = match tcx.const_eval_poly(d) {
                        Ok(v) => cx.const_val(v, t, env),
                        Err(_) => arr![s("?")],
                    };
                    cx.const_out.push(arr![s(n), u(ti), v]);
                }
            }
            _ => {}
        }
    }
    for d in generic_roots {
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let inst = Instance::new_raw(d, args);
        if let Some(j) = cx.body(inst, true, 0) {
            let mut o = String::new();
            j.w(&mut o);
            fns.push(o);
        }
    }
    // trait impls of this crate
    let mut impls = Vec::new();
    for (tr, imps) in tcx.all_local_trait_impls(()) {
        for imp in imps.iter() {
            let st = tcx.type_of(imp.to_def_id()).instantiate_identity().skip_norm_wip();
            let mut ms = Vec::new();
            for ai in tcx.associated_items(imp.to_def_id()).in_definition_order() {
                if ai.is_fn() {
                    if let Some(tm) = ai.trait_item_def_id() {
                        let key = if tcx.generics_of(ai.def_id).requires_monomorphization(tcx) {
                            path(tcx, ai.def_id)
                        } else {
                            inst_key(tcx, Instance::mono(tcx, ai.def_id))
                        };
                        ms.push(arr![s(path(tcx, tm)), s(key)]);
                    }
                }
            }
            // methods the trait provides and this impl does not define
            let idef = imp.to_def_id();
            let ours = tcx.crate_name(tr.krate);
            if (ours.as_str().starts_with("keramics") || ours.as_str().starts_with("kvfixture"))
                && !tcx.generics_of(idef).requires_monomorphization(tcx)
            {
                let targs = tcx.impl_trait_ref(idef).instantiate_identity().skip_norm_wip().args;
                let have: HashSet<DefId> = tcx
                    .associated_items(idef)
                    .in_definition_order()
                    .filter_map(|a| a.trait_item_def_id())
                    .collect();
                for ai in tcx.associated_items(*tr).in_definition_order() {
                    if ai.is_fn()
                        && ai.defaultness(tcx).has_value()
                        && !have.contains(&ai.def_id)
                        && tcx.generics_of(ai.def_id).own_params.iter().all(|p| p.kind.is_ty_or_const() == false)
                    {
                        let targs = tcx
                            .try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(targs))
                            .unwrap_or(targs);
                        let inst = Instance::new_raw(ai.def_id, targs);
                        cx.enqueue(inst, 1);
                        ms.push(arr![s(path(tcx, ai.def_id)), s(inst_key(tcx, inst))]);
                    }
                }
            }
            impls.push(J::O(vec![("trait", s(path(tcx, *tr))), ("self", s(ty_str(st))), ("methods", J::A(ms))]));
        }
    }
    // local ADTs, whether or not they are mentioned by a body
    for id in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
            let d = id.to_def_id();
            if !tcx.generics_of(d).requires_monomorphization(tcx) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let t = tcx
                    .try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(t))
                    .unwrap_or(t);
                cx.ty(t, TypingEnv::fully_monomorphized());
            }
        }
    }
    while let Some((i, depth)) = cx.queue.pop_front() {
        match cx.body(i, false, depth) {
            Some(j) => {
                let mut o = String::new();
                j.w(&mut o);
                fns.push(o);
            }
            None => missing.push(s(inst_key(tcx, i))),
        }
    }
    let unsafe_blocks = count_unsafe(tcx);
    let mut out = String::new();
    out.push_str("{\"crate\":");
    esc(&crate_name, &mut out);
    for (k, v) in [
        ("types", std::mem::take(&mut cx.type_out)),
        ("consts", std::mem::take(&mut cx.const_out)),
        ("statics", statics),
        ("impls", impls),
        ("missing", missing),
        ("unsafe", unsafe_blocks),
    ] {
        out.push_str(",\n\"");
        out.push_str(k);
        out.push_str("\":");
        J::A(v).w(&mut out);
    }
    out.push_str(",\n\"fns\":[\n");
    out.push_str(&fns.join(",\n"));
    out.push_str("\n]}\n");
    let tmp = format!("{dir}/.{crate_name}.{}.tmp", std::process::id());
    std::fs::write(&tmp, out).expect("write dump");
    std::fs::rename(&tmp, format!("{dir}/{crate_name}.json")).expect("rename dump");
}

struct UnsafeV<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<J>,
}

impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            if !b.span.from_expansion() {
                let sm = self.tcx.sess.source_map();
                let l = sm.lookup_char_pos(b.span.lo());
                self.out.push(arr![s(l.file.name.prefer_local_unconditionally().to_string()), u(l.line)]);
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn count_unsafe(tcx: TyCtxt<'_>) -> Vec<J> {
    let mut v = UnsafeV { tcx, out: vec![] };
    tcx.hir_walk_toplevel_module(&mut v);
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder();
            if sig.skip_binder().safety().is_unsafe() {
                v.out.push(arr![s(path(tcx, d)), u(0)]);
            }
        }
    }
    v.out
}

// ------------------------------------------------------------------ overlay for absent modules

/// Supplies a stand-in for module files that the analysed tree declares but does not contain, so
/// that the remaining modules of the crate can be type-checked.  A present file is never replaced.
struct Overlay {
    dir: Option<PathBuf>,
}

impl Overlay {
    fn stand_in(&self, p: &Path) -> Option<PathBuf> {
        if p.exists() {
            return None;
        }
        let dir = self.dir.as_ref()?;
        // <crate>/src/<module>.rs  ->  <overlay>/<crate>/src/<module>.rs
        let comps: Vec<_> = p.components().map(|c| c.as_os_str().to_owned()).collect();
        for start in 0..comps.len() {
            let rel: PathBuf = comps[start..].iter().collect();
            if rel.components().count() < 3 {
                break;
            }
            let c = dir.join(&rel);
            if c.is_file() {
                return Some(c);
            }
        }
        // relative path ("keramics-compression/src/lzxpress.rs" when cargo runs from the workspace root)
        None
    }
}

impl FileLoader for Overlay {
    fn file_exists(&self, p: &Path) -> bool {
        RealFileLoader.file_exists(p) || self.stand_in(p).is_some()
    }
    fn read_file(&self, p: &Path) -> io::Result<String> {
        match self.stand_in(p) {
            Some(q) => RealFileLoader.read_file(&q),
            None => RealFileLoader.read_file(p),
        }
    }
    fn read_binary_file(&self, p: &Path) -> io::Result<Arc<[u8]>> {
        match self.stand_in(p) {
            Some(q) => RealFileLoader.read_binary_file(&q),
            None => RealFileLoader.read_binary_file(p),
        }
    }
    fn current_directory(&self) -> io::Result<PathBuf> {
        RealFileLoader.current_directory()
    }
}

struct Cb {
    dir: Option<String>,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.file_loader = Some(Box::new(Overlay { dir: std::env::var_os("KV_OVERLAY").map(PathBuf::from) }));
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(d) = &self.dir {
            dump(tcx, d);
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && Path::new(&args[1]).file_stem().map_or(false, |f| f == "rustc") {
        args.remove(0);
    }
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let want = match &crate_name {
        Some(n) => n.starts_with("keramics") || n.starts_with("kvfixture") || std::env::var("KV_ALL").is_ok() && n != "build_script_build" && n != "___",
        None => false,
    };
    let dir = if want { std::env::var("KV_DUMP_DIR").ok() } else { None };
    if want {
        for f in ["-Zmir-opt-level=0", "-Zinline-mir=no", "-Zmir-enable-passes=-CheckAlignment,-CheckNull", "-Zalways-encode-mir=yes", "-Coverflow-checks=on", "-Cdebug-assertions=on", "-Alinker_messages"] {
            args.push(f.to_string());
        }
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { dir }));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
