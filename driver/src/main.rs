//! mirdump: exports the monomorphic MIR reachable from the witness crate's public functions as JSON.
//! It is used as RUSTC_WORKSPACE_WRAPPER; for every crate but `witness` it just compiles.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
use rustc_public_bridge::IndexedVal;

mod json;
use json::J;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::CrateDef;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDefType, ItemKind};
use std::collections::HashMap;

/// Bodies we never need: the analysis models these operations or treats them as unknown.
const STOPS: &[&str] = &[
    "hashbrown::", "std::collections::hash", "std::collections::HashMap", "std::fmt", "core::fmt", "alloc::fmt",
    "std::io", "std::sys", "std::thread", "alloc::alloc", "std::alloc", "core::alloc", "core::panicking",
    "std::panicking", "std::rt", "alloc::raw_vec", "core::slice::sort", "std::slice::sort", "core::str",
    "alloc::string", "alloc::str", "core::num", "std::hash", "core::hash",
    "alloc::vec", "std::vec", "alloc::collections", "std::backtrace", "std::boxed", "alloc::boxed",
    "core::slice::index", "core::slice::rotate", "core::slice::memchr", "core::unicode", "std::string",
    "core::array", "core::ffi", "std::ffi", "fnv::", "core::iter::traits::iterator::Iterator::sort",
];

/// Bodies among those that only use modelled operations.
const PLAIN: &[&str] = &[
    "std::boxed::iter::<impl std::iter::FromIterator<T> for std::boxed::Box<[T]>>::from_iter",
    "std::boxed::iter::<impl std::iter::IntoIterator for std::boxed::Box<[T], A>>::into_iter",
    "std::boxed::iter::<impl std::iter::FromIterator<I> for std::boxed::Box<[I]>>::from_iter",
];

/// Library functions replaced by the reference bodies in witness::models (resolved name, model).
const REDIRECT: &[(&str, &str)] = &[
    ("<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter", "vec_from_iter"),
    ("<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend", "vec_extend"),
    ("<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend", "vec_extend_copy"),
    ("std::vec::Vec::<T, A>::resize_with", "vec_resize_with"),
    ("std::vec::Vec::<T, A>::retain", "vec_retain"),
    ("std::vec::Vec::<T, A>::retain_mut", "vec_retain_mut"),
    ("std::vec::Vec::<T, A>::resize", "vec_resize"),
    ("std::vec::Vec::<T, A>::extend_from_slice", "vec_extend_from_slice"),
    ("std::vec::Vec::<T, A>::dedup", "vec_dedup"),
    ("std::vec::Vec::<T, A>::dedup_by", "vec_dedup_by"),
    ("std::vec::Vec::<T, A>::dedup_by_key", "vec_dedup_by_key"),
    ("std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::eq", "vec_eq"),
    ("<std::vec::Vec<T, A1> as std::cmp::PartialOrd<std::vec::Vec<T, A2>>>::partial_cmp", "vec_partial_cmp"),
    ("<std::vec::Vec<T, A> as std::cmp::Ord>::cmp", "vec_cmp"),
    ("<T as std::slice::<impl [T]>::to_vec_in::ConvertVec>::to_vec", "slice_to_vec"),
    ("core::slice::<impl [T]>::fill", "slice_fill"),
    ("core::slice::<impl [T]>::fill_with", "slice_fill_with"),
    ("std::boxed::convert::<impl std::convert::From<&[T]> for std::boxed::Box<[T]>>::from", "box_from_slice"),
    ("std::iter::Iterator::unzip", "it_unzip"),
    ("core::slice::<impl [T]>::sort_unstable_by_key", "sort_by_key"),
    ("core::slice::<impl [T]>::sort_unstable_by", "sort_by"),
    ("core::slice::<impl [T]>::sort_unstable", "sort"),
    ("alloc::slice::<impl [T]>::sort_by_key", "sort_by_key"),
    ("alloc::slice::<impl [T]>::sort_by_cached_key", "sort_by_key"),
    ("alloc::slice::<impl [T]>::sort_by", "sort_by"),
    ("alloc::slice::<impl [T]>::sort", "sort"),
    ("std::slice::<impl [T]>::sort_by_key", "sort_by_key"),
    ("std::slice::<impl [T]>::sort_by_cached_key", "sort_by_key"),
    ("std::slice::<impl [T]>::sort_by", "sort_by"),
    ("std::slice::<impl [T]>::sort", "sort"),
    ("core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq", "slice_eq"),
    ("core::slice::cmp::<impl std::cmp::Ord for [T]>::cmp", "slice_cmp"),
    ("core::slice::cmp::<impl std::cmp::PartialOrd for [T]>::partial_cmp", "slice_partial_cmp"),
    ("std::collections::hash_map::Entry::<'a, K, V, A>::or_insert_with", "entry_or_insert_with"),
    ("std::collections::hash_map::Entry::<'a, K, V, A>::or_insert", "entry_or_insert"),
    ("std::collections::hash_map::Entry::<'a, K, V, A>::or_default", "entry_or_default"),
    ("std::collections::hash_map::Entry::<'a, K, V>::or_default", "entry_or_default_global"),
    ("std::collections::hash_map::Entry::<'a, K, V, A>::or_insert_with_key", "entry_or_insert_with_key"),
    ("std::collections::hash_map::Entry::<'a, K, V, A>::and_modify", "entry_and_modify"),
    ("<std::collections::HashMap<K, V, S> as std::iter::FromIterator<(K, V)>>::from_iter", "map_from_iter"),
    ("<std::collections::HashMap<K, V, S, A> as std::iter::Extend<(K, V)>>::extend", "map_extend"),
    ("std::collections::HashMap::<K, V, S, A>::retain", "map_retain"),
    ("<std::collections::HashMap<K, V, S, A> as std::cmp::PartialEq>::eq", "map_eq"),
];
/// Iterator methods overridden by leaf iterators, replaced by plain loops over next.
const LEAF: &[&str] = &[
    "<std::slice::Iter", "<core::slice::iter", "<std::vec::IntoIter", "<std::vec::Drain", "<std::collections::hash_map",
    "<hashbrown", "<core::iter::range", "std::iter::range::", "core::iter::range::", "core::slice::iter",
];
const LEAFM: &[(&str, &str)] = &[
    ("std::iter::Iterator::fold", "it_fold"), ("std::iter::Iterator::try_fold", "it_try_fold"),
    ("std::iter::Iterator::for_each", "it_for_each"), ("std::iter::Iterator::all", "it_all"),
    ("std::iter::Iterator::any", "it_any"), ("std::iter::Iterator::find", "it_find"),
    ("std::iter::Iterator::find_map", "it_find_map"), ("std::iter::Iterator::position", "it_position"),
    ("std::iter::Iterator::rposition", "it_rposition"), ("std::iter::Iterator::is_sorted_by", "it_is_sorted_by"),
    ("std::iter::Iterator::count", "it_count"), ("std::iter::Iterator::last", "it_last"),
    ("std::iter::DoubleEndedIterator::rfold", "it_rfold"), ("std::iter::DoubleEndedIterator::rfind", "it_rfind"),
];

struct Ctx {
    models: HashMap<String, FnDef>,
    funcs: Vec<Instance>,
    fidx: HashMap<Instance, usize>,
    types: Vec<Ty>,
    tidx: HashMap<Ty, usize>,
    tdone: Vec<J>,
    allocs: usize,
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_witness = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "witness");
    if !is_witness {
        let rustc = std::env::var("VP_RUSTC").unwrap_or_else(|_| "rustc".into());
        let st = std::process::Command::new(rustc).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = rustc_public::run!(&args, || -> std::ops::ControlFlow<(), ()> {
        export();
        std::ops::ControlFlow::Continue(())
    });
    match r {
        Ok(_) => {}
        Err(_) => std::process::exit(1),
    }
}

fn export() {
    let out = match std::env::var("VP_OUT") {
        Ok(o) => o,
        Err(_) => return,
    };
    let mut cx = Ctx { models: HashMap::new(), funcs: vec![], fidx: HashMap::new(), types: vec![], tidx: HashMap::new(), tdone: vec![], allocs: 0 };
    let mut entries = vec![];
    for it in rustc_public::all_local_items() {
        if it.kind() != ItemKind::Fn {
            continue;
        }
        let nm = it.name().to_string();
        if let Some(m) = nm.strip_prefix("witness::models::").or(nm.strip_prefix("models::")) {
            if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = it.ty().kind() {
                cx.models.insert(m.to_string(), d);
            }
            continue;
        }
        if it.requires_monomorphization() {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let k = cx.func(i);
            entries.push((it.name().to_string(), J::N(k as i128)));
        }
    }
    let mut fns = vec![];
    let mut n = 0;
    while n < cx.funcs.len() {
        let i = cx.funcs[n];
        fns.push(cx.export_fn(i));
        n += 1;
        if n > 20000 {
            panic!("too many functions");
        }
    }
    let mut t = 0;
    while t < cx.types.len() {
        let ty = cx.types[t];
        let j = cx.export_ty(ty);
        cx.tdone.push(j);
        t += 1;
        // types may add functions (drop glue, closures)
        while n < cx.funcs.len() {
            let i = cx.funcs[n];
            fns.push(cx.export_fn(i));
            n += 1;
        }
    }
    let types = std::mem::take(&mut cx.tdone);
    let j = J::O(vec![("entries".into(), J::O(entries)), ("fns".into(), J::A(fns)), ("types".into(), J::A(types))]);
    let mut s = String::new();
    j.write(&mut s);
    let tmp = format!("{}.tmp", out);
    std::fs::write(&tmp, s).expect("write");
    std::fs::rename(&tmp, &out).expect("rename");
}

fn s(x: &str) -> J { J::S(x.to_string()) }
fn n(x: usize) -> J { J::N(x as i128) }
fn a(v: Vec<J>) -> J { J::A(v) }
fn o(v: Vec<(&str, J)>) -> J { J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }

impl Ctx {
    fn func(&mut self, i: Instance) -> usize {
        if let Some(&k) = self.fidx.get(&i) {
            return k;
        }
        let k = self.funcs.len();
        self.funcs.push(i);
        self.fidx.insert(i, k);
        k
    }
    /// The function a call of d really reaches, or its reference body.
    fn resolve(&mut self, d: FnDef, args: &GenericArgs) -> Option<Instance> {
        let i = Instance::resolve(d, args).ok()?;
        let pre = d.name().to_string();
        let post = i.def.name().to_string();
        let mut m = None;
        if let Some((_, x)) = REDIRECT.iter().find(|(k, _)| *k == post) {
            m = Some((*x, i.args()));
        } else if let Some((_, x)) = LEAFM.iter().find(|(k, _)| *k == pre) {
            if LEAF.iter().any(|p| post.starts_with(p)) {
                m = Some((*x, args.clone()));
            }
        }
        if let Some((x, ga)) = m {
            let types: Vec<GenericArgKind> = ga.0.iter().filter(|g| !matches!(g, GenericArgKind::Lifetime(_))).cloned().collect();
            if let Some(md) = self.models.get(x) {
                if let Ok(mi) = Instance::resolve(*md, &GenericArgs(types)) {
                    return Some(mi);
                }
            }
        }
        Some(i)
    }
    fn ty(&mut self, t: Ty) -> J {
        if let Some(&k) = self.tidx.get(&t) {
            return n(k);
        }
        let k = self.types.len();
        self.types.push(t);
        self.tidx.insert(t, k);
        n(k)
    }

    fn export_fn(&mut self, i: Instance) -> J {
        let name = i.name().to_string();
        let def = i.def.name().to_string();
        let krate = i.def.krate().name.to_string();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let mut args = vec![];
        for g in i.args().0.iter() {
            if let GenericArgKind::Type(t) = g {
                args.push(self.ty(*t));
            }
            if let GenericArgKind::Const(c) = g {
                args.push(o(vec![("const", c.eval_target_usize().map(|x| J::N(x as i128)).unwrap_or(J::Null))]));
            }
        }
        let mut f = vec![
            ("name", J::S(name.clone())), ("def", J::S(def.clone())), ("crate", J::S(krate.clone())),
            ("kind", s(kind)), ("mangled", J::S(i.mangled_name().to_string())), ("args", a(args)),
        ];
        if let Some(x) = i.intrinsic_name() {
            f.push(("intrinsic", J::S(x.to_string())));
        }
        f.push(("foreign", J::B(i.is_foreign_item())));
        let local = krate == "advanced_collections" || krate == "witness";
        let stopped = !local && kind != "shim" && kind != "intrinsic" && STOPS.iter().any(|p| def.starts_with(p))
            && !PLAIN.contains(&def.as_str());
        if kind == "shim" {
            f.push(("empty_shim", J::B(i.is_empty_shim())));
        }
        if stopped || i.is_foreign_item() || kind == "virtual" || kind == "llvm" {
            f.push(("body", J::Null));
            return o(f);
        }
        match i.body() {
            None => f.push(("body", J::Null)),
            Some(b) => {
                let j = self.body(&b);
                f.push(("body", j));
            }
        }
        o(f)
    }

    fn body(&mut self, b: &Body) -> J {
        let locals: Vec<J> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let Some(l) = v.local() {
                names.push((l.to_string(), J::S(v.name.to_string())));
            }
        }
        let blocks: Vec<J> = b
            .blocks
            .iter()
            .map(|bb| {
                let mut st = vec![];
                for x in bb.statements.iter() {
                    if let Some(j) = self.stmt(x, b) {
                        st.push(j);
                    }
                }
                a(vec![a(st), self.term(&bb.terminator, b)])
            })
            .collect();
        let sp = &b.span;
        let li = sp.get_lines();
        o(vec![
            ("locals", a(locals)), ("argc", n(b.arg_locals().len())), ("names", J::O(names)),
            ("spread", b.spread_arg().map(|x| n(x)).unwrap_or(J::Null)),
            ("file", J::S(sp.get_filename().to_string())), ("line", n(li.start_line)), ("blocks", a(blocks)),
        ])
    }

    fn place(&mut self, p: &Place) -> J {
        let pr: Vec<J> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => a(vec![s("f"), n(*f), self.ty(*t)]),
                ProjectionElem::Index(l) => a(vec![s("i"), n(*l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    a(vec![s("ci"), n(*offset as usize), n(*min_length as usize), J::B(*from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    a(vec![s("ss"), n(*from as usize), n(*to as usize), J::B(*from_end)])
                }
                ProjectionElem::Downcast(v) => a(vec![s("d"), n(v.to_index())]),
                ProjectionElem::OpaqueCast(t) => a(vec![s("oc"), self.ty(*t)]),
            })
            .collect();
        a(vec![n(p.local), a(pr)])
    }

    fn operand(&mut self, p: &Operand) -> J {
        match p {
            Operand::Copy(p) => a(vec![s("c"), self.place(p)]),
            Operand::Move(p) => a(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                a(vec![s("k"), self.ty(t), self.constant(&c.const_)])
            }
            Operand::RuntimeChecks(r) => {
                let v = matches!(r, RuntimeChecks::OverflowChecks);
                let t = self.ty(Ty::bool_ty());
                a(vec![s("k"), t, o(vec![("int", J::N(v as i128))])])
            }
        }
    }

    fn constant(&mut self, c: &MirConst) -> J {
        match c.kind() {
            ConstantKind::ZeroSized => o(vec![("zst", J::B(true))]),
            ConstantKind::Allocated(al) => self.decode(al, 0, c.ty(), 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, al) => self.decode(al, 0, *t, 0),
                TyConstKind::ZSTValue(_) => o(vec![("zst", J::B(true))]),
                _ => o(vec![("unknown", s("tyconst"))]),
            },
            k => o(vec![("unknown", J::S(format!("{:?}", k).chars().take(80).collect()))]),
        }
    }

    fn uint(&self, al: &Allocation, off: usize, size: usize) -> Option<u128> {
        if size == 0 || off + size > al.bytes.len() {
            return None;
        }
        al.read_partial_uint(off..off + size).ok()
    }

    fn decode(&mut self, al: &Allocation, off: usize, ty: Ty, depth: usize) -> J {
        let unk = |w: &str| o(vec![("unknown", s(w))]);
        if depth > 12 {
            return unk("depth");
        }
        let shape = match ty.layout() {
            Ok(l) => l.shape(),
            Err(_) => return unk("layout"),
        };
        let size = shape.size.bytes();
        let k = match ty.kind() {
            TyKind::RigidTy(r) => r,
            _ => return unk("kind"),
        };
        match k {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => match self.uint(al, off, size) {
                Some(v) if v <= i128::MAX as u128 => o(vec![("int", J::N(v as i128))]),
                Some(v) => o(vec![("int", J::Raw(v.to_string()))]),
                None => unk("uninit"),
            },
            RigidTy::Int(_) => match self.uint(al, off, size) {
                Some(v) => {
                    let sh = 128 - 8 * size as u32;
                    let x = ((v << sh) as i128) >> sh;
                    o(vec![("int", J::N(x))])
                }
                None => unk("uninit"),
            },
            RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => {
                let prov = al.provenance.ptrs.iter().find(|(x, _)| *x == off).map(|(_, p)| p.0);
                let base = self.uint(al, off, 8).unwrap_or(0) as usize;
                let meta = if size == 16 { self.uint(al, off + 8, 8) } else { None };
                match prov {
                    None => o(vec![("addr", J::N(base as i128)), ("meta", meta.map(|m| J::N(m as i128)).unwrap_or(J::Null))]),
                    Some(id) => match GlobalAlloc::from(id) {
                        GlobalAlloc::Memory(inner) => {
                            self.allocs += 1;
                            match t.kind() {
                                TyKind::RigidTy(RigidTy::Str) => {
                                    let len = meta.unwrap_or(0) as usize;
                                    let b = inner.bytes.get(base..base + len).map(|x| x.iter().map(|y| y.unwrap_or(0)).collect::<Vec<u8>>());
                                    match b {
                                        Some(b) => o(vec![("str", a(b.iter().map(|x| n(*x as usize)).collect()))]),
                                        None => unk("str"),
                                    }
                                }
                                TyKind::RigidTy(RigidTy::Slice(e)) => {
                                    let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                    let len = meta.unwrap_or(0) as usize;
                                    if len > 256 { return unk("long"); }
                                    let v = (0..len).map(|i| self.decode(&inner, base + i * es, e, depth + 1)).collect();
                                    let et = self.ty(e);
                                    o(vec![("refslice", a(v)), ("elem", et)])
                                }
                                _ => {
                                    if inner.bytes.len() > 512 { return unk("long"); }
                                    let v = self.decode(&inner, base, t, depth + 1);
                                    let tt = self.ty(t);
                                    o(vec![("ref", v), ("ty", tt)])
                                }
                            }
                        }
                        GlobalAlloc::Function(i) => { let k = self.func(i); o(vec![("fnptr", n(k))]) }
                        GlobalAlloc::Static(d) => {
                            let nm = rustc_public::CrateItem::from(d).name().to_string();
                            let t = d.ty();
                            let tt = self.ty(t);
                            let v = match d.eval_initializer() {
                                Ok(al) if al.bytes.len() <= 512 => self.decode(&al, 0, t, depth + 1),
                                _ => unk("static"),
                            };
                            o(vec![("static", J::S(nm)), ("val", v), ("ty", tt), ("off", n(base))])
                        }
                        _ => unk("galloc"),
                    },
                }
            }
            RigidTy::FnPtr(_) => {
                let prov = al.provenance.ptrs.iter().find(|(x, _)| *x == off).map(|(_, p)| p.0);
                match prov.map(GlobalAlloc::from) {
                    Some(GlobalAlloc::Function(i)) => { let k = self.func(i); o(vec![("fnptr", n(k))]) }
                    _ => unk("fnptr"),
                }
            }
            RigidTy::Tuple(ts) => {
                let offs = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.clone(), _ => vec![] };
                let v = ts.iter().enumerate().map(|(i, t)| self.decode(al, off + offs.get(i).map(|x| x.bytes()).unwrap_or(0), *t, depth + 1)).collect();
                o(vec![("adt", n(0)), ("fields", a(v))])
            }
            RigidTy::Array(e, c) => {
                let len = c.eval_target_usize().unwrap_or(9999) as usize;
                if len > 256 { return unk("long"); }
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let v = (0..len).map(|i| self.decode(al, off + i * es, e, depth + 1)).collect();
                o(vec![("array", a(v))])
            }
            RigidTy::Adt(def, args) => {
                if def.kind() == AdtKind::Union {
                    return unk("union");
                }
                match &shape.variants {
                    VariantsShape::Empty => unk("empty"),
                    VariantsShape::Single { index } => {
                        let offs = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.clone(), _ => vec![] };
                        self.variant(al, off, def, &args, *index, &offs.iter().map(|x| x.bytes()).collect::<Vec<_>>(), depth)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                        let tsize = tag_size(tag);
                        let has_prov = al.provenance.ptrs.iter().any(|(x, _)| *x == off + toff);
                        let tv = self.uint(al, off + toff, tsize);
                        let idx = match tag_encoding {
                            TagEncoding::Direct => {
                                let tv = match tv { Some(t) => t, None => return unk("tag") };
                                let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (8 * tsize)) - 1 };
                                def.variants().iter().map(|v| v.idx()).find(|v| def.discriminant_for_variant(*v).val & mask == tv & mask)
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_prov { Some(*untagged_variant) } else {
                                    let tv = match tv { Some(t) => t, None => return unk("tag") };
                                    let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (8 * tsize)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    let lo = niche_variants.start().to_index();
                                    let hi = niche_variants.end().to_index();
                                    if rel <= (hi - lo) as u128 {
                                        def.variants().iter().map(|v| v.idx()).find(|v| v.to_index() == lo + rel as usize)
                                    } else { Some(*untagged_variant) }
                                }
                            }
                        };
                        match idx {
                            None => unk("variant"),
                            Some(v) => {
                                let offs: Vec<usize> = variants[v.to_index()].offsets.iter().map(|x| x.bytes()).collect();
                                self.variant(al, off, def, &args, v, &offs, depth)
                            }
                        }
                    }
                }
            }
            RigidTy::Pat(t, _) => self.decode(al, off, t, depth + 1),
            RigidTy::FnDef(..) | RigidTy::Never => o(vec![("zst", J::B(true))]),
            RigidTy::Closure(..) if size == 0 => o(vec![("zst", J::B(true))]),
            _ => unk("type"),
        }
    }

    fn variant(&mut self, al: &Allocation, off: usize, def: AdtDef, args: &GenericArgs, v: VariantIdx, offs: &[usize], depth: usize) -> J {
        let vd = match def.variant(v) { Some(x) => x, None => return o(vec![("unknown", s("variant"))]) };
        let fs = vd.fields().iter().enumerate().map(|(i, f)| self.decode(al, off + offs.get(i).copied().unwrap_or(0), f.ty_with_args(args), depth + 1)).collect();
        o(vec![("adt", n(v.to_index())), ("fields", a(fs))])
    }

    fn stmt(&mut self, x: &Statement, b: &Body) -> Option<J> {
        let line = n(x.source_info.span.get_lines().start_line);
        Some(match &x.kind {
            StatementKind::Assign(p, r) => { let pj = self.place(p); let rj = self.rvalue(r, b); a(vec![s("="), pj, rj, line]) }
            StatementKind::SetDiscriminant { place, variant_index } => a(vec![s("sd"), self.place(place), n(variant_index.to_index()), line]),
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                let v = vec![s("cno"), self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count), line];
                a(v)
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(op)) => a(vec![s("assume"), self.operand(op), line]),
            StatementKind::StorageDead(l) => a(vec![s("dead"), n(*l)]),
            StatementKind::StorageLive(l) => a(vec![s("live"), n(*l)]),
            _ => return None,
        })
    }

    fn rvalue(&mut self, r: &Rvalue, _b: &Body) -> J {
        match r {
            Rvalue::AddressOf(k, p) => a(vec![s("addr"), J::S(format!("{:?}", k)), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let kj = match k {
                    AggregateKind::Array(t) => a(vec![s("array"), self.ty(*t)]),
                    AggregateKind::Tuple => a(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = d.ty_with_args(args);
                        a(vec![s("adt"), self.ty(t), n(v.to_index()), f.map(|x| n(x)).unwrap_or(J::Null)])
                    }
                    AggregateKind::Closure(d, args) => { let t = Ty::new_closure(*d, args.clone()); a(vec![s("closure"), self.ty(t)]) }
                    AggregateKind::RawPtr(t, _) => a(vec![s("rawptr"), self.ty(*t)]),
                    _ => a(vec![s("other")]),
                };
                let v: Vec<J> = ops.iter().map(|x| self.operand(x)).collect();
                a(vec![s("agg"), kj, a(v)])
            }
            Rvalue::BinaryOp(op, x, y) => a(vec![s("bin"), J::S(format!("{:?}", op)), self.operand(x), self.operand(y)]),
            Rvalue::CheckedBinaryOp(op, x, y) => a(vec![s("cbin"), J::S(format!("{:?}", op)), self.operand(x), self.operand(y)]),
            Rvalue::Cast(k, x, t) => a(vec![s("cast"), J::S(format!("{:?}", k)), self.operand(x), self.ty(*t)]),
            Rvalue::CopyForDeref(p) => { let pj = self.place(p); a(vec![s("use"), a(vec![s("c"), pj])]) }
            Rvalue::Discriminant(p) => a(vec![s("discr"), self.place(p)]),
            Rvalue::Len(p) => a(vec![s("len"), self.place(p)]),
            Rvalue::Ref(_, k, p) => a(vec![s("ref"), J::S(format!("{:?}", k.to_mutable_lossy())), self.place(p)]),
            Rvalue::Repeat(x, c) => a(vec![s("repeat"), self.operand(x), c.eval_target_usize().map(|v| J::N(v as i128)).unwrap_or(J::Null)]),
            Rvalue::UnaryOp(op, x) => a(vec![s("un"), J::S(format!("{:?}", op)), self.operand(x)]),
            Rvalue::Use(x, _) => a(vec![s("use"), self.operand(x)]),
            Rvalue::Reborrow(_, m, p) => a(vec![s("ref"), J::S(format!("{:?}", m)), self.place(p)]),
            Rvalue::ThreadLocalRef(_) => a(vec![s("tls")]),
        }
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Continue => s("cont"),
            UnwindAction::Unreachable => s("unreach"),
            UnwindAction::Terminate => s("term"),
            UnwindAction::Cleanup(b) => n(*b),
        }
    }

    fn callee(&mut self, op: &Operand, b: &Body) -> J {
        let t = match op.ty(b.locals()) { Ok(t) => t, Err(_) => return J::Null };
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, args)) => match self.resolve(d, &args) {
                Some(i) => { let k = self.func(i); a(vec![s("fn"), n(k), J::S(d.name().to_string())]) }
                None => a(vec![s("unresolved"), J::S(d.name().to_string())]),
            },
            _ => { let x = self.operand(op); a(vec![s("ptr"), x]) }
        }
    }

    fn term(&mut self, t: &Terminator, b: &Body) -> J {
        let line = n(t.source_info.span.get_lines().start_line);
        match &t.kind {
            TerminatorKind::Goto { target } => a(vec![s("goto"), n(*target)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let br: Vec<J> = targets.branches().map(|(v, t)| a(vec![J::Raw(v.to_string()), n(t)])).collect();
                a(vec![s("switch"), self.operand(discr), a(br), n(targets.otherwise()), line])
            }
            TerminatorKind::Resume => a(vec![s("resume")]),
            TerminatorKind::Abort => a(vec![s("abort")]),
            TerminatorKind::Return => a(vec![s("return")]),
            TerminatorKind::Unreachable => a(vec![s("unreachable")]),
            TerminatorKind::Drop { place, target, unwind } => {
                let ty = place.ty(b.locals()).ok();
                let f = match ty {
                    Some(ty) => {
                        let i = Instance::resolve_drop_in_place(ty);
                        if i.is_empty_shim() { J::Null } else { n(self.func(i)) }
                    }
                    None => J::Null,
                };
                a(vec![s("drop"), self.place(place), f, n(*target), self.unwind(unwind), line])
            }
            TerminatorKind::Call { func, args, destination, target, unwind } => {
                let f = self.callee(func, b);
                let v: Vec<J> = args.iter().map(|x| self.operand(x)).collect();
                a(vec![s("call"), f, a(v), self.place(destination), target.map(|x| n(x)).unwrap_or(J::Null), self.unwind(unwind), line])
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let m = match msg {
                    AssertMessage::BoundsCheck { .. } => "bounds",
                    AssertMessage::Overflow(..) | AssertMessage::OverflowNeg(_) => "overflow",
                    AssertMessage::DivisionByZero(_) | AssertMessage::RemainderByZero(_) => "divzero",
                    _ => "ub",
                };
                a(vec![s("assert"), self.operand(cond), J::B(*expected), s(m), n(*target), self.unwind(unwind), line])
            }
            TerminatorKind::InlineAsm { .. } => a(vec![s("asm")]),
        }
    }

    fn export_ty(&mut self, t: Ty) -> J {
        let mut f: Vec<(&str, J)> = vec![("s", J::S(format!("{}", t)))];
        let r = match t.kind() {
            TyKind::RigidTy(r) => r,
            _ => { f.push(("k", s("other"))); return o(f); }
        };
        if let Ok(l) = t.layout() {
            f.push(("size", n(l.shape().size.bytes())));
        }
        match r {
            RigidTy::Bool => f.push(("k", s("bool"))),
            RigidTy::Char => f.push(("k", s("char"))),
            RigidTy::Int(i) => { f.push(("k", s("int"))); f.push(("bits", n(i.num_bytes() * 8))); }
            RigidTy::Uint(i) => { f.push(("k", s("uint"))); f.push(("bits", n(i.num_bytes() * 8))); }
            RigidTy::Float(_) => f.push(("k", s("float"))),
            RigidTy::Str => f.push(("k", s("str"))),
            RigidTy::Never => f.push(("k", s("never"))),
            RigidTy::Array(e, c) => { f.push(("k", s("array"))); let e = self.ty(e); f.push(("elem", e)); f.push(("len", c.eval_target_usize().map(|v| J::N(v as i128)).unwrap_or(J::Null))); }
            RigidTy::Slice(e) => { f.push(("k", s("slice"))); let e = self.ty(e); f.push(("elem", e)); }
            RigidTy::Ref(_, e, m) => { f.push(("k", s("ref"))); let e = self.ty(e); f.push(("elem", e)); f.push(("mut", J::B(m == Mutability::Mut))); }
            RigidTy::RawPtr(e, m) => { f.push(("k", s("ptr"))); let e = self.ty(e); f.push(("elem", e)); f.push(("mut", J::B(m == Mutability::Mut))); }
            RigidTy::Tuple(ts) => { f.push(("k", s("tuple"))); let v = ts.iter().map(|t| self.ty(*t)).collect(); f.push(("fields", a(v))); }
            RigidTy::Adt(d, args) => {
                f.push(("k", s(match d.kind() { AdtKind::Enum => "enum", AdtKind::Union => "union", AdtKind::Struct => "struct" })));
                f.push(("def", J::S(d.name().to_string())));
                f.push(("crate", J::S(d.krate().name.to_string())));
                f.push(("box", J::B(d.is_box())));
                let targs: Vec<J> = args.0.iter().filter_map(|g| g.ty().map(|t| *t)).collect::<Vec<_>>().into_iter().map(|t| self.ty(t)).collect();
                f.push(("targs", a(targs)));
                let mut vs = vec![];
                for v in d.variants() {
                    let mut fs = vec![];
                    for fd in v.fields() {
                        let ft = fd.ty_with_args(&args);
                        fs.push(a(vec![J::S(fd.name.to_string()), self.ty(ft)]));
                    }
                    let dv = if d.kind() == AdtKind::Enum { d.discriminant_for_variant(v.idx()).val } else { 0 };
                    vs.push(o(vec![("name", J::S(v.name().to_string())), ("discr", J::Raw(dv.to_string())), ("fields", a(fs))]));
                }
                f.push(("variants", a(vs)));
            }
            RigidTy::Closure(d, args) => {
                f.push(("k", s("closure")));
                f.push(("def", J::S(d.name().to_string())));
                let tys: Vec<Ty> = args.0.iter().filter_map(|g| g.ty().copied()).collect();
                let l = tys.len();
                if l >= 3 {
                    let kind = match tys[l - 3].kind() {
                        TyKind::RigidTy(RigidTy::Int(IntTy::I8)) => ClosureKind::Fn,
                        TyKind::RigidTy(RigidTy::Int(IntTy::I16)) => ClosureKind::FnMut,
                        _ => ClosureKind::FnOnce,
                    };
                    f.push(("ckind", s(match kind { ClosureKind::Fn => "fn", ClosureKind::FnMut => "fnmut", ClosureKind::FnOnce => "fnonce" })));
                    if let Ok(i) = Instance::resolve_closure(d, &args, kind) {
                        f.push(("call", n(self.func(i))));
                    }
                    if let TyKind::RigidTy(RigidTy::Tuple(up)) = tys[l - 1].kind() {
                        let v = up.iter().map(|t| self.ty(*t)).collect();
                        f.push(("fields", a(v)));
                    }
                }
            }
            RigidTy::FnDef(d, args) => {
                f.push(("k", s("fndef")));
                f.push(("def", J::S(d.name().to_string())));
                if let Some(i) = self.resolve(d, &args) {
                    f.push(("call", n(self.func(i))));
                }
            }
            RigidTy::FnPtr(_) => f.push(("k", s("fnptr"))),
            RigidTy::Dynamic(..) => f.push(("k", s("dyn"))),
            RigidTy::Pat(b, _) => { f.push(("k", s("pat"))); let e = self.ty(b); f.push(("elem", e)); }
            _ => f.push(("k", s("other"))),
        }
        // drop glue, unless trivially empty
        if !matches!(t.kind(), TyKind::RigidTy(RigidTy::Never | RigidTy::Foreign(_) | RigidTy::FnPtr(_) | RigidTy::FnDef(..) | RigidTy::Dynamic(..))) {
            let i = Instance::resolve_drop_in_place(t);
            if !i.is_empty_shim() {
                f.push(("drop", n(self.func(i))));
            }
        }
        o(f)
    }
}

fn tag_size(tag: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::{Primitive, Scalar};
    let p = match tag { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
    match p {
        Primitive::Int { length, .. } => match format!("{:?}", length).as_str() { "I8" => 1, "I16" => 2, "I32" => 4, "I64" => 8, _ => 16 },
        Primitive::Pointer(_) => 8,
        _ => 8,
    }
}
