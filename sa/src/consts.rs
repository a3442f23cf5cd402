//! Constants of the program as abstract values.
use crate::lin::*;
use crate::mem::*;
use crate::val::*;
use rustc_public_bridge::IndexedVal;
use rustc_public::abi::{FieldsShape, Primitive, Scalar, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDefType;
use std::cell::RefCell;
use std::collections::*;

thread_local! {
    static CONSTS: RefCell<Vec<Val>> = RefCell::new(vec![]);
    static KEYS: RefCell<HashMap<(AllocId, usize, Ty, u64), u32>> = RefCell::new(HashMap::new());
    static BUFS: RefCell<HashMap<Vec<u8>, u32>> = RefCell::new(HashMap::new());
}
pub fn const_val(i: u32) -> Val {
    CONSTS.with(|c| c.borrow()[i as usize].clone())
}
pub fn new_const(v: Val) -> u32 {
    CONSTS.with(|c| {
        let mut c = c.borrow_mut();
        c.push(v);
        c.len() as u32 - 1
    })
}
/// A constant byte string (shared by content).
pub fn const_bytes(b: &[u8]) -> u32 {
    if let Some(i) = BUFS.with(|m| m.borrow().get(b).copied()) {
        return i;
    }
    let i = new_const(Val::elems(b.iter().map(|x| Val::Int(Lin::k(*x as i128), It::U8)).collect()));
    BUFS.with(|m| m.borrow_mut().insert(b.to_vec(), i));
    i
}
pub fn str_val(s: &str) -> Val {
    Val::ptr(Cell::Const(const_bytes(s.as_bytes())), vec![Step::Index(Lin::k(0))], Meta::Len(Lin::k(s.len() as i128)))
}
pub const DANGLING: Cell = Cell::Heap(0);

fn prov(al: &Allocation, off: usize) -> Option<AllocId> {
    al.provenance.ptrs.iter().find(|p| p.0 == off).map(|p| p.1 .0)
}
fn uint(al: &Allocation, off: usize, size: usize) -> Option<u128> {
    let mut r = 0u128;
    for i in (0..size).rev() {
        r = (r << 8) | (*al.bytes.get(off + i)?)? as u128;
    }
    Some(r)
}
fn size_of(t: Ty) -> usize {
    t.layout().map(|l| l.shape().size.bytes()).unwrap_or(0)
}

pub fn decode(al: &Allocation, off: usize, ty: Ty) -> R<Val> {
    if is_zst(ty) {
        return Ok(Val::Zst);
    }
    if let Some(it) = int_ty(ty) {
        let sz = size_of(ty);
        return Ok(match uint(al, off, sz) {
            Some(u) => {
                let v = if it.signed && it.bits < 128 && u >> (it.bits - 1) == 1 { u as i128 - (1i128 << it.bits) } else { u as i128 };
                Val::Int(Lin::k(v), it)
            }
            None => Val::Uninit,
        });
    }
    let TyKind::RigidTy(r) = ty.kind() else { return uns("constant type") };
    match r {
        RigidTy::Bool => Ok(match uint(al, off, 1) {
            Some(b) => Val::bool(b != 0),
            None => Val::Uninit,
        }),
        RigidTy::Float(FloatTy::F64) => {
            let x = f64::from_bits(uint(al, off, 8).unwrap_or(0) as u64);
            Ok(Val::Float(crate::float::konst(x)))
        }
        RigidTy::Float(FloatTy::F32) => {
            let x = f32::from_bits(uint(al, off, 4).unwrap_or(0) as u32) as f64;
            Ok(Val::Float(crate::float::konst(x)))
        }
        RigidTy::Array(e, _) => {
            let n = arr_len(ty).map(|x| x.1).unwrap_or(0) as usize;
            let s = size_of(e);
            let mut v = Vec::with_capacity(n);
            for i in 0..n {
                v.push(decode(al, off + i * s, e)?);
            }
            Ok(Val::elems(v))
        }
        RigidTy::Tuple(ts) => {
            let offs = offsets(ty)?;
            let mut v = vec![];
            for (i, t) in ts.iter().enumerate() {
                v.push(decode(al, off + offs[i], *t)?);
            }
            Ok(Val::tup(v))
        }
        RigidTy::Closure(..) => {
            let ts = upvar_tys(ty);
            let offs = offsets(ty)?;
            let mut v = vec![];
            for (i, t) in ts.iter().enumerate() {
                v.push(decode(al, off + offs[i], *t)?);
            }
            Ok(Val::tup(v))
        }
        RigidTy::Adt(d, a) => {
            let name = adt_name(ty);
            if name.ends_with("LazyLock") || name.ends_with("LazyCell") || name.ends_with("OnceLock") {
                for (_, p) in &al.provenance.ptrs {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) {
                        return Ok(Val::tup(vec![Val::Fn(i)]));
                    }
                }
                return uns("lazy static without initialiser");
            }
            if name.ends_with("RawVecInner") {
                return Ok(Val::tup(vec![Val::ptr(DANGLING, vec![Step::Index(Lin::k(0))], Meta::None), Val::Int(Lin::k(0), It::USIZE), Val::Zst]));
            }
            match d.kind() {
                AdtKind::Union => {
                    // first non-zero-sized field that can be decoded
                    let f = d.variants()[0].fields();
                    for x in f {
                        let t = x.ty_with_args(&a);
                        if !is_zst(t) {
                            return decode(al, off, t);
                        }
                    }
                    uns("union constant")
                }
                AdtKind::Struct => {
                    let f: Vec<Ty> = d.variants()[0].fields().iter().map(|x| x.ty_with_args(&a)).collect();
                    let offs = offsets(ty)?;
                    if let Some(j) = erased(ty) {
                        return decode(al, off + offs[j], f[j]);
                    }
                    let mut v = vec![];
                    for (i, t) in f.iter().enumerate() {
                        v.push(decode(al, off + offs[i], *t)?);
                    }
                    Ok(Val::tup(v))
                }
                AdtKind::Enum => {
                    let sh = ty.layout().map_err(|e| Stop::Unsupported(format!("{e:?}")))?.shape();
                    let (var, offs) = match &sh.variants {
                        VariantsShape::Single { index } => {
                            let o = match &sh.fields {
                                FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(),
                                _ => vec![],
                            };
                            (index.to_index(), o)
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let FieldsShape::Arbitrary { offsets } = &sh.fields else { return uns("enum layout") };
                            let to = off + offsets[*tag_field].bytes();
                            let prim = match tag {
                                Scalar::Initialized { value, .. } | Scalar::Union { value } => value.clone(),
                            };
                            let tsz = match prim {
                                Primitive::Int { length, .. } => match length {
                                    rustc_public::abi::IntegerLength::I8 => 1,
                                    rustc_public::abi::IntegerLength::I16 => 2,
                                    rustc_public::abi::IntegerLength::I32 => 4,
                                    rustc_public::abi::IntegerLength::I64 => 8,
                                    rustc_public::abi::IntegerLength::I128 => 16,
                                },
                                _ => 8,
                            };
                            let v = match tag_encoding {
                                TagEncoding::Direct => {
                                    let Some(t) = uint(al, to, tsz) else { return Ok(Val::Uninit) };
                                    let mut found = None;
                                    for i in 0..d.num_variants() {
                                        let dv = d.discriminant_for_variant(VariantIdx::to_val(i)).val;
                                        let mask = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        if dv & mask == t {
                                            found = Some(i);
                                        }
                                    }
                                    match found {
                                        Some(i) => i,
                                        None => return uns("enum tag"),
                                    }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    if prov(al, to).is_some() {
                                        untagged_variant.to_index()
                                    } else {
                                        let Some(t) = uint(al, to, tsz) else { return Ok(Val::Uninit) };
                                        let mask = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        let rel = t.wrapping_sub(*niche_start) & mask;
                                        let (a, b) = (niche_variants.start().to_index(), niche_variants.end().to_index());
                                        if rel <= (b - a) as u128 {
                                            a + rel as usize
                                        } else {
                                            untagged_variant.to_index()
                                        }
                                    }
                                }
                            };
                            (v, variants[v].offsets.iter().map(|x| x.bytes()).collect::<Vec<_>>())
                        }
                        VariantsShape::Empty => return uns("value of an empty enum"),
                    };
                    let f = field_tys(ty, var).unwrap_or_default();
                    let mut v = vec![];
                    for (i, t) in f.iter().enumerate() {
                        v.push(decode(al, off + offs[i], *t)?);
                    }
                    Ok(Val::agg(var as u32, v))
                }
            }
        }
        RigidTy::FnPtr(_) => match prov(al, off).map(GlobalAlloc::from) {
            Some(GlobalAlloc::Function(i)) => Ok(Val::Fn(i)),
            _ => uns("function pointer constant"),
        },
        RigidTy::Ref(..) | RigidTy::RawPtr(..) | RigidTy::Pat(..) => {
            let Some(p) = pointee(ty) else { return uns("pattern type") };
            decode_ptr(al, off, p)
        }
        _ => uns(format!("constant of type {ty}")),
    }
}
pub fn offsets(ty: Ty) -> R<Vec<usize>> {
    match ty.layout().map_err(|e| Stop::Unsupported(format!("{e:?}")))?.shape().fields {
        FieldsShape::Arbitrary { offsets } => Ok(offsets.iter().map(|x| x.bytes()).collect()),
        FieldsShape::Primitive => Ok(vec![]),
        _ => uns("layout"),
    }
}
pub fn upvar_tys(ty: Ty) -> Vec<Ty> {
    if let TyKind::RigidTy(RigidTy::Closure(_, a)) = ty.kind() {
        // the last generic argument is the tuple of captured types
        if let Some(GenericArgKind::Type(t)) = a.0.last() {
            if let TyKind::RigidTy(RigidTy::Tuple(v)) = t.kind() {
                return v;
            }
        }
    }
    vec![]
}

fn decode_ptr(al: &Allocation, off: usize, p: Ty) -> R<Val> {
    let add = uint(al, off, 8).unwrap_or(0) as usize;
    let tl = tail(p);
    let meta = match tl.kind() {
        TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str) => Meta::Len(Lin::k(uint(al, off + 8, 8).unwrap_or(0) as i128)),
        TyKind::RigidTy(RigidTy::Dynamic(..)) => match prov(al, off + 8).map(GlobalAlloc::from) {
            Some(GlobalAlloc::VTable(t, _)) => Meta::Dyn(t),
            _ => return uns("vtable constant"),
        },
        _ => Meta::None,
    };
    let Some(id) = prov(al, off) else {
        let path = if matches!(meta, Meta::Len(_)) { vec![Step::Index(Lin::k(0))] } else { vec![] };
        if add == 0 && !matches!(meta, Meta::Len(_)) {
            return Ok(Val::Int(Lin::k(0), It::USIZE)); // null
        }
        return Ok(Val::ptr(DANGLING, path, meta));
    };
    let (n, elem) = match (&meta, tl.kind()) {
        (Meta::Len(l), TyKind::RigidTy(RigidTy::Slice(e))) => (l.c as u64, Some(e)),
        (Meta::Len(l), _) => (l.c as u64, Some(Ty::unsigned_ty(UintTy::U8))),
        _ => (0, None),
    };
    let concrete = if let Meta::Dyn(t) = &meta { *t } else { p };
    match GlobalAlloc::from(id) {
        GlobalAlloc::Memory(a2) => pointer_into(&a2, id, add, concrete, elem, n, meta),
        GlobalAlloc::Static(s) => {
            let a2 = s.eval_initializer().map_err(|e| Stop::Unsupported(format!("{e:?}")))?;
            pointer_into(&a2, id, add, concrete, elem, n, meta)
        }
        GlobalAlloc::Function(i) => Ok(Val::Fn(i)),
        _ => uns("pointer constant"),
    }
}
fn pointer_into(a2: &Allocation, id: AllocId, add: usize, p: Ty, elem: Option<Ty>, n: u64, meta: Meta) -> R<Val> {
    if is_zst(p) && elem.is_none() {
        return Ok(Val::ptr(DANGLING, vec![], meta));
    }
    // integers: the whole allocation as an array
    let (et, count, base) = match elem {
        Some(e) if !is_zst(e) => {
            let s = size_of(e);
            let whole = int_ty(e).is_some() && a2.bytes.len() % s == 0 && add % s == 0 && a2.provenance.ptrs.is_empty();
            if whole { (Some(e), a2.bytes.len() / s, 0) } else { (Some(e), n as usize, add) }
        }
        Some(_) => return Ok(Val::ptr(DANGLING, vec![Step::Index(Lin::k(0))], meta)),
        None => {
            let s = size_of(p);
            if int_ty(p).is_some() && a2.bytes.len() > s && a2.bytes.len() % s == 0 && a2.provenance.ptrs.is_empty() {
                (Some(p), a2.bytes.len() / s, 0)
            } else {
                (None, 0, add)
            }
        }
    };
    let key = (id, base, et.unwrap_or(p), if et.is_some() { count as u64 + 1 } else { 0 });
    let cell = match KEYS.with(|k| k.borrow().get(&key).copied()) {
        Some(c) => c,
        None => {
            let v = match et {
                Some(e) => {
                    let s = size_of(e);
                    let mut v = vec![];
                    for i in 0..count {
                        v.push(decode(a2, base + i * s, e)?);
                    }
                    Val::elems(v)
                }
                None => decode(a2, base, p)?,
            };
            let c = new_const(v);
            KEYS.with(|k| k.borrow_mut().insert(key, c));
            c
        }
    };
    let path = match et {
        Some(e) => vec![Step::Index(Lin::k(((add - base) / size_of(e)) as i128))],
        None => vec![],
    };
    Ok(Val::ptr(Cell::Const(cell), path, meta))
}
pub fn vtable_method(t: Ty, dynty: Ty, idx: usize) -> Option<Instance> {
    let p = dynty.kind().trait_principal()?;
    let tr = p.skip_binder().with_self_ty(t);
    // types with bound lifetimes are not handled by the compiler's interface
    let entries = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| tr.vtable_entries())).ok()?;
    match entries.get(idx)? {
        VtblEntry::Method(i) => Some(*i),
        _ => None,
    }
}
