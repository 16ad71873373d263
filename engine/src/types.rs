//! Type queries and decoding of compile-time constants.
use crate::val::*;
use rustc_public::CrateDef;
use rustc_public::abi::{FieldsShape, LayoutShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::ty::{
    AdtDef, AdtKind, Allocation, FloatTy, GenericArgKind, GenericArgs, IntTy, RigidTy, Ty, TyKind, UintTy,
    VariantIdx,
};
use rustc_public_bridge::IndexedVal;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Default)]
struct Cache {
    kinds: HashMap<Ty, Rc<TyKind>>,
    layouts: HashMap<Ty, Option<Rc<LayoutShape>>>,
    adt_names: HashMap<AdtDef, Rc<str>>,
    fields: HashMap<(AdtDef, usize, Ty), Rc<Vec<Ty>>>,
    discrs: HashMap<(AdtDef, usize), u128>,
    consts: HashMap<(AllocId, Ty), Rc<Value>>,
}
thread_local! {
    static C: RefCell<Cache> = RefCell::new(Cache::default());
}

pub fn kind(t: Ty) -> Rc<TyKind> {
    C.with(|c| c.borrow_mut().kinds.entry(t).or_insert_with(|| Rc::new(t.kind())).clone())
}
pub fn layout(t: Ty) -> Option<Rc<LayoutShape>> {
    if let Some(l) = C.with(|c| c.borrow().layouts.get(&t).cloned()) {
        return l;
    }
    let l = t.layout().ok().map(|l| Rc::new(l.shape()));
    C.with(|c| c.borrow_mut().layouts.insert(t, l.clone()));
    l
}
pub fn size_of(t: Ty) -> Option<usize> {
    layout(t).filter(|l| l.is_sized()).map(|l| l.size.bytes())
}
pub fn is_zst(t: Ty) -> bool {
    size_of(t) == Some(0)
}
pub fn adt_name(d: &AdtDef) -> Rc<str> {
    C.with(|c| {
        c.borrow_mut().adt_names.entry(*d).or_insert_with(|| canon(&d.name()).into()).clone()
    })
}
/// `alloc::…`/`core::…` paths are shown as `std::…` or not depending on the
/// re-export that is visible; normalise them to the last two segments' owner.
pub fn canon(n: &str) -> String {
    let mut s = n.to_string();
    if s.starts_with("ur20_clients::") {
        s = s["ur20_clients::".len()..].to_string();
    }
    for c in ["alloc::", "core::"] {
        if s.starts_with(c) {
            s = format!("std::{}", &s[c.len()..]);
        }
    }
    s.replace("<alloc::", "<std::")
        .replace("<core::", "<std::")
        .replace(" core::", " std::")
        .replace(" alloc::", " std::")
        .replace("&core::", "&std::")
}
pub fn adt(t: Ty) -> Option<(AdtDef, GenericArgs)> {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Adt(d, a)) => Some((*d, a.clone())),
        _ => None,
    }
}
pub fn adt_is(t: Ty, name: &str) -> bool {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => &*adt_name(d) == name,
        _ => false,
    }
}
pub fn adt_named(t: Ty, name: &str) -> bool {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => adt_name(d).rsplit("::").next() == Some(name),
        _ => false,
    }
}
pub fn ty_args(a: &GenericArgs) -> Vec<Ty> {
    a.0.iter()
        .filter_map(|x| match x {
            GenericArgKind::Type(t) => Some(*t),
            _ => None,
        })
        .collect()
}
pub fn var_idx(v: VariantIdx) -> usize {
    v.to_index()
}
pub fn variant_fields(t: Ty, v: usize) -> Rc<Vec<Ty>> {
    let (d, a) = adt(t).expect("adt");
    if let Some(f) = C.with(|c| c.borrow().fields.get(&(d, v, t)).cloned()) {
        return f;
    }
    let vs = d.variants();
    let r: Rc<Vec<Ty>> = Rc::new(vs[v].fields().iter().map(|f| field_ty(f, &a)).collect());
    C.with(|c| c.borrow_mut().fields.insert((d, v, t), r.clone()));
    r
}
fn field_ty(f: &rustc_public::ty::FieldDef, a: &GenericArgs) -> Ty {
    use rustc_public::crate_def::CrateDefType;
    f.ty_with_args(a)
}
pub fn discr_of(d: &AdtDef, v: usize) -> u128 {
    C.with(|c| {
        *c.borrow_mut()
            .discrs
            .entry((*d, v))
            .or_insert_with(|| d.discriminant_for_variant(VariantIdx::to_val(v)).val)
    })
}
pub fn discr_ty_width(t: Ty) -> u32 {
    match kind(t).discriminant_ty() {
        Some(d) => int_info(d).map(|x| x.0).unwrap_or(64),
        None => 64,
    }
}
/// (width, signed)
pub fn int_info(t: Ty) -> Option<(u32, bool)> {
    match &*kind(t) {
        TyKind::RigidTy(r) => match r {
            RigidTy::Bool => Some((1, false)),
            RigidTy::Char => Some((32, false)),
            RigidTy::Int(i) => Some((
                match i {
                    IntTy::Isize => 64,
                    x => x.num_bytes() as u32 * 8,
                },
                true,
            )),
            RigidTy::Uint(i) => Some((
                match i {
                    UintTy::Usize => 64,
                    x => x.num_bytes() as u32 * 8,
                },
                false,
            )),
            RigidTy::Pat(i, _) => int_info(*i),
            _ => None,
        },
        _ => None,
    }
}
pub fn float_info(t: Ty) -> Option<u32> {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Float(FloatTy::F32)) => Some(32),
        TyKind::RigidTy(RigidTy::Float(FloatTy::F64)) => Some(64),
        _ => None,
    }
}
pub fn pointee(t: Ty) -> Option<Ty> {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::RawPtr(p, _)) | TyKind::RigidTy(RigidTy::Ref(_, p, _)) => Some(*p),
        TyKind::RigidTy(RigidTy::Pat(i, _)) => pointee(*i),
        _ => None,
    }
}
pub fn is_slice_like(t: Ty) -> bool {
    matches!(&*kind(t), TyKind::RigidTy(RigidTy::Slice(_)) | TyKind::RigidTy(RigidTy::Str))
}
pub fn is_dyn(t: Ty) -> bool {
    matches!(&*kind(t), TyKind::RigidTy(RigidTy::Dynamic(..)))
}
pub fn elem_ty(t: Ty) -> Option<Ty> {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Slice(e)) | TyKind::RigidTy(RigidTy::Array(e, _)) => Some(*e),
        TyKind::RigidTy(RigidTy::Str) => Some(Ty::unsigned_ty(UintTy::U8)),
        _ => None,
    }
}
pub fn array_len(t: Ty) -> Option<usize> {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Array(_, n)) => n.eval_target_usize().ok().map(|n| n as usize),
        _ => None,
    }
}
pub fn is_box(t: Ty) -> bool {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => d.is_box(),
        _ => false,
    }
}
pub fn is_union(t: Ty) -> bool {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => d.kind() == AdtKind::Union,
        _ => false,
    }
}
/// The single non-zero-sized field of a struct, if there is exactly one.
pub fn sole_field(t: Ty) -> Option<(usize, Ty)> {
    let (d, _) = adt(t)?;
    if d.kind() != AdtKind::Struct || d.is_box() {
        return None;
    }
    let f = variant_fields(t, 0);
    let nz: Vec<_> = f.iter().enumerate().filter(|(_, t)| !is_zst(**t)).collect();
    if nz.len() == 1 {
        return Some((nz[0].0, *nz[0].1));
    }
    None
}
pub fn union_field(t: Ty) -> Option<Ty> {
    // the largest field
    variant_fields(t, 0).iter().max_by_key(|t| size_of(**t).unwrap_or(0)).copied()
}
/// native containers whose contents live inline in the abstract value
pub fn container(t: Ty) -> bool {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => matches!(
            &*adt_name(d),
            "std::vec::Vec"
                | "std::vec::IntoIter"
                | "std::array::IntoIter"
                | "std::vec::Drain"
                | "std::vec::Splice"
                | "std::collections::HashMap"
                | "std::collections::HashSet"
                | "std::collections::VecDeque"
                | "std::collections::BTreeMap"
                | "std::collections::BTreeSet"
                | "std::collections::vec_deque::IntoIter"
                | "std::collections::vec_deque::Drain"
                | "std::collections::hash_map::IntoIter"
                | "std::collections::hash_map::IntoKeys"
                | "std::collections::hash_map::IntoValues"
                | "std::collections::hash_map::Drain"
                | "std::collections::btree_map::IntoIter"
                | "std::collections::btree_map::IntoKeys"
                | "std::collections::btree_map::IntoValues"
                | "std::collections::hash_set::IntoIter"
                | "std::collections::hash_set::Drain"
                | "std::collections::btree_set::IntoIter"
        ),
        _ => false,
    }
}

fn inhabited(t: Ty) -> bool {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Never) => false,
        TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.iter().all(|t| inhabited(*t)),
        TyKind::RigidTy(RigidTy::Adt(d, _)) => match d.kind() {
            AdtKind::Struct => variant_fields(t, 0).iter().all(|f| inhabited(*f)),
            AdtKind::Enum => (0..d.num_variants()).any(|i| variant_fields(t, i).iter().all(|f| inhabited(*f))),
            AdtKind::Union => true,
        },
        _ => true,
    }
}
/// A value of a zero-sized type.
pub fn zst(t: Ty) -> Value {
    match &*kind(t) {
        TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Struct => {
            Value::agg(variant_fields(t, 0).iter().map(|f| zst(*f)).collect())
        }
        TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Enum => {
            // the only inhabited variant
            let n = d.num_variants();
            let i = (0..n).find(|i| variant_fields(t, *i).iter().all(|f| inhabited(*f))).unwrap_or(0);
            let mut vars = vec![None; n];
            if n > 0 {
                vars[i] = Some(Rc::new(variant_fields(t, i).iter().map(|f| zst(*f)).collect()));
            }
            Value::Enum(Rc::new(EnumV { discr: Int::c(discr_ty_width(t), if n > 0 { discr_of(d, i) } else { 0 }), vars }))
        }
        TyKind::RigidTy(RigidTy::Tuple(ts)) => Value::agg(ts.iter().map(|t| zst(*t)).collect()),
        // the captured variables are the last type argument
        TyKind::RigidTy(RigidTy::Closure(_, a)) => match ty_args(a).last() {
            Some(u) => zst(*u),
            None => Value::unit(),
        },
        TyKind::RigidTy(RigidTy::Array(e, n)) => {
            let n = n.eval_target_usize().unwrap_or(0);
            Value::agg((0..n).map(|_| zst(*e)).collect())
        }
        _ => Value::unit(),
    }
}

fn rd(b: &[Option<u8>], off: usize, n: usize) -> Result<u128, String> {
    let mut v = 0u128;
    for i in (0..n).rev() {
        let x = b.get(off + i).copied().flatten().ok_or("uninitialised constant bytes")?;
        v = (v << 8) | x as u128;
    }
    Ok(v)
}
pub trait Statics {
    fn static_root(&mut self, d: rustc_public::mir::mono::StaticDef) -> Result<usize, String>;
}

pub fn decode_alloc(s: &mut dyn Statics, t: Ty, a: &Allocation) -> Result<Value, String> {
    decode(s, t, a, 0)
}
fn decode(s: &mut dyn Statics, t: Ty, a: &Allocation, off: usize) -> Result<Value, String> {
    if let Some((w, _)) = int_info(t) {
        let n = (w as usize).div_ceil(8);
        return Ok(Value::Int(Int::c(w, rd(&a.bytes, off, n)?)));
    }
    if let Some(k) = float_info(t) {
        let r = rd(&a.bytes, off, k as usize / 8)?;
        let v = if k == 32 { f32::from_bits(r as u32) as f64 } else { f64::from_bits(r as u64) };
        return Ok(Value::Float(Rc::new(FloatV::c(k, v))));
    }
    if let Some(p) = pointee(t) {
        return decode_ptr(s, p, a, off);
    }
    if is_zst(t) {
        return Ok(zst(t));
    }
    let k = kind(t);
    let TyKind::RigidTy(r) = &*k else { return Err(format!("constant of type {t}")) };
    let lay = layout(t).ok_or("no layout")?;
    match r {
        RigidTy::Array(e, n) => {
            let n = n.eval_target_usize().map_err(|_| "array length")? as usize;
            let sz = size_of(*e).ok_or("size")?;
            let mut v = Vec::with_capacity(n);
            for i in 0..n {
                v.push(decode(s, *e, a, off + i * sz)?);
            }
            Ok(Value::agg(v))
        }
        RigidTy::Tuple(ts) => {
            let FieldsShape::Arbitrary { offsets } = &lay.fields else { return Err("tuple layout".into()) };
            let mut v = vec![];
            for (i, f) in ts.iter().enumerate() {
                v.push(decode(s, *f, a, off + offsets[i].bytes())?);
            }
            Ok(Value::agg(v))
        }
        RigidTy::FnPtr(_) => {
            for (o, p) in &a.provenance.ptrs {
                if *o == off {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) {
                        return Ok(Value::FnPtr(i.ty()));
                    }
                }
            }
            Err("constant function pointer".into())
        }
        RigidTy::Adt(d, _) if d.is_box() => Err("constant box".into()),
        RigidTy::Adt(d, _) if container(t) => {
            let n = adt_name(d);
            if matches!(&*n, "std::vec::Vec" | "std::collections::VecDeque") {
                return Ok(Value::vec(vec![]));
            }
            Err(format!("constant {n}"))
        }
        RigidTy::Adt(d, _) if d.kind() == AdtKind::Struct => {
            let fs = variant_fields(t, 0);
            let mut v = vec![];
            match &lay.fields {
                FieldsShape::Arbitrary { offsets } => {
                    for (i, f) in fs.iter().enumerate() {
                        v.push(decode(s, *f, a, off + offsets[i].bytes())?);
                    }
                }
                _ => return Err("struct layout".into()),
            }
            Ok(Value::agg(v))
        }
        RigidTy::Adt(d, _) if d.kind() == AdtKind::Union => {
            match union_field(t) {
                Some(f) => decode(s, f, a, off).or(Ok(Value::Uninit)),
                None => Ok(Value::Uninit),
            }
        }
        RigidTy::Adt(d, _) => {
            let w = discr_ty_width(t);
            let nv = d.num_variants();
            let (idx, offs): (usize, Vec<usize>) = match &lay.variants {
                VariantsShape::Empty => return Err("empty enum".into()),
                VariantsShape::Single { index } => {
                    let FieldsShape::Arbitrary { offsets } = &lay.fields else {
                        return Err("enum layout".into());
                    };
                    (index.to_index(), offsets.iter().map(|o| o.bytes()).collect())
                }
                VariantsShape::Multiple { tag_encoding, tag_field, variants, tag } => {
                    let FieldsShape::Arbitrary { offsets } = &lay.fields else {
                        return Err("enum layout".into());
                    };
                    let to = off + offsets[*tag_field].bytes();
                    let tw = scalar_bytes(tag);
                    let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == to);
                    let idx = match tag_encoding {
                        TagEncoding::Direct => {
                            let raw = rd(&a.bytes, to, tw)?;
                            (0..nv)
                                .find(|v| {
                                    discr_of(d, *v) & mask(tw as u32 * 8) == raw & mask(tw as u32 * 8)
                                })
                                .ok_or("tag")?
                        }
                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                            if has_prov {
                                untagged_variant.to_index()
                            } else {
                                let raw = rd(&a.bytes, to, tw)?;
                                let m = mask(tw as u32 * 8);
                                let rel = raw.wrapping_sub(*niche_start) & m;
                                let (lo, hi) =
                                    (niche_variants.start().to_index(), niche_variants.end().to_index());
                                if rel <= (hi - lo) as u128 {
                                    lo + rel as usize
                                } else {
                                    untagged_variant.to_index()
                                }
                            }
                        }
                    };
                    (idx, variants[idx].offsets.iter().map(|o| o.bytes()).collect())
                }
            };
            let fs = variant_fields(t, idx);
            let mut v = vec![];
            for (i, f) in fs.iter().enumerate() {
                v.push(decode(s, *f, a, off + offs[i])?);
            }
            Ok(mk_enum(w, discr_of(d, idx), nv, idx, v))
        }
        _ => Err(format!("constant of type {t}")),
    }
}
fn scalar_bytes(s: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::{Primitive, Scalar};
    let p = match s {
        Scalar::Initialized { value, .. } | Scalar::Union { value } => value,
    };
    match p {
        Primitive::Int { length, .. } => length.bits() / 8,
        Primitive::Pointer(_) => 8,
        Primitive::Float { .. } => 8,
    }
}
pub fn mk_enum(w: u32, discr: u128, nv: usize, idx: usize, fields: Vec<Value>) -> Value {
    let mut vars = vec![None; nv];
    vars[idx] = Some(Rc::new(fields));
    Value::Enum(Rc::new(EnumV { discr: Int::c(w, discr), vars }))
}
fn decode_ptr(s: &mut dyn Statics, p: Ty, a: &Allocation, off: usize) -> Result<Value, String> {
    let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
    let inner = rd(&a.bytes, off, 8)? as usize;
    let meta = if is_slice_like(p) {
        Meta::Len(Int::usize(rd(&a.bytes, off + 8, 8)? as usize))
    } else if is_dyn(p) {
        let vt = a.provenance.ptrs.iter().find(|(o, _)| *o == off + 8).map(|(_, p)| p.0);
        match vt.map(GlobalAlloc::from) {
            Some(GlobalAlloc::VTable(t, _)) => Meta::Vt(t),
            _ => return Err("constant trait object without vtable".into()),
        }
    } else {
        Meta::None
    };
    let Some(id) = prov else {
        // dangling (zero-sized or empty)
        let v = match &meta {
            Meta::Len(_) => Value::unit(),
            Meta::Vt(t) => zst(*t),
            Meta::None => zst(p),
        };
        let path = if let Meta::Len(_) = meta { vec![Elem::Index(0)] } else { vec![] };
        return Ok(Value::ptr(Target { root: Root::Const(Rc::new(v)), path, meta }));
    };
    match GlobalAlloc::from(id) {
        GlobalAlloc::Memory(m) => {
            if is_slice_like(p) {
                let e = elem_ty(p).unwrap();
                let sz = size_of(e).ok_or("size")?;
                let key = (id, p);
                let root = match C.with(|c| c.borrow().consts.get(&key).cloned()) {
                    Some(r) => r,
                    None => {
                        let n = if sz == 0 { 0 } else { m.bytes.len() / sz };
                        let mut v = vec![];
                        for i in 0..n {
                            v.push(decode(s, e, &m, i * sz)?);
                        }
                        let r = Rc::new(Value::agg(v));
                        C.with(|c| c.borrow_mut().consts.insert(key, r.clone()));
                        r
                    }
                };
                let i = if sz == 0 { 0 } else { inner / sz };
                return Ok(Value::ptr(Target {
                    root: Root::Const(root),
                    path: vec![Elem::Index(i)],
                    meta,
                }));
            }
            let t = match &meta {
                Meta::Vt(t) => *t,
                _ => p,
            };
            let key = (id, t);
            let cached = if inner == 0 { C.with(|c| c.borrow().consts.get(&key).cloned()) } else { None };
            let root = match cached {
                Some(r) => r,
                None => {
                    let r = Rc::new(decode(s, t, &m, inner)?);
                    if inner == 0 {
                        C.with(|c| c.borrow_mut().consts.insert(key, r.clone()));
                    }
                    r
                }
            };
            Ok(Value::ptr(Target { root: Root::Const(root), path: vec![], meta }))
        }
        GlobalAlloc::Static(d) => {
            let i = s.static_root(d)?;
            if inner != 0 {
                return Err("pointer into a static".into());
            }
            let path = if let Meta::Len(_) = meta { vec![Elem::Index(0)] } else { vec![] };
            Ok(Value::ptr(Target { root: Root::Static(i), path, meta }))
        }
        GlobalAlloc::Function(i) => Ok(Value::FnPtr(i.ty())),
        g => Err(format!("constant pointer to {g:?}")),
    }
}
