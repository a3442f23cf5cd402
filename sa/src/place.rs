//! Places: from MIR places to locations in the abstract memory, reading and
//! writing them.
use crate::consts;
use crate::lin::*;
use crate::mem::*;
use crate::val::*;
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::collections::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Loc {
    pub cell: Cell,
    pub path: Vec<Step>,
    pub meta: Meta,
    pub ty: Ty,
    pub variant: Option<u32>,
    pub zst: bool,
}
impl Loc {
    pub fn ptr(&self) -> Ptr {
        Ptr { cell: self.cell, path: self.path.clone(), meta: self.meta.clone() }
    }
}

pub fn push_index(path: &mut Vec<Step>, l: Lin) {
    match path.last_mut() {
        Some(Step::Window(w)) => {
            let n = w.add(&l);
            path.pop();
            path.push(Step::Index(n));
        }
        _ => path.push(Step::Index(l)),
    }
}
/// Move an element pointer.
pub fn advance(path: &mut Vec<Step>, l: &Lin) {
    if l.as_const() == Some(0) {
        return;
    }
    match path.last_mut() {
        Some(Step::Index(i)) => *i = i.add(l),
        Some(Step::Window(i)) => *i = i.add(l),
        _ => path.push(Step::Index(l.clone())),
    }
}

pub fn upvars(t: Ty) -> Option<Vec<Ty>> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Closure(..)) => Some(consts::upvar_tys(t)),
        _ => None,
    }
}

pub fn resolve(st: &State, locals: &[LocalDecl], depth: u16, place: &Place) -> R<Loc> {
    let mut l = Loc {
        cell: Cell::Local(depth, place.local as u16),
        path: vec![],
        meta: Meta::None,
        ty: locals[place.local].ty,
        variant: None,
        zst: false,
    };
    for p in &place.projection {
        match p {
            ProjectionElem::Deref => {
                let v = read(st, &l)?;
                if let Val::Any(..) | Val::Alt(_) = v {
                    return Err(Stop::Alt(l.ptr()));
                }
                let Some(t) = pointee(l.ty).or_else(|| box_pointee(l.ty)) else { return uns(format!("deref of {}", l.ty)) };
                l = deref(&v, t)?;
            }
            ProjectionElem::Field(i, ft) => {
                if l.zst || is_zst(*ft) {
                    l.zst = true;
                } else if let (Some(j), None) = (erased(l.ty), l.variant) {
                    let union = matches!(l.ty.kind(), TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Union);
                    if !union && j != *i {
                        return uns("field of a wrapper");
                    }
                } else {
                    l.path.push(Step::Field(*i as u32));
                }
                if !is_unsized(*ft) {
                    l.meta = Meta::None;
                } else if matches!(ft.kind(), TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str)) && matches!(l.path.last(), Some(Step::Field(_))) {
                    l.path.push(Step::Index(Lin::k(0)));
                }
                l.ty = *ft;
                l.variant = None;
            }
            ProjectionElem::Downcast(v) => l.variant = Some(v.to_index() as u32),
            ProjectionElem::Index(loc) => {
                let i = read(st, &Loc { cell: Cell::Local(depth, *loc as u16), path: vec![], meta: Meta::None, ty: locals[*loc].ty, variant: None, zst: false })?;
                let Val::Int(i, _) = i else { return uns("index") };
                index(&mut l, i)?;
            }
            ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                let n = length(&l)?;
                let i = if *from_end { n.addk(-(*offset as i128)) } else { Lin::k(*offset as i128) };
                index(&mut l, i)?;
            }
            ProjectionElem::Subslice { from, to, from_end } => {
                let n = length(&l)?;
                let len = if *from_end { n.addk(-(*from as i128) - *to as i128) } else { Lin::k(*to as i128 - *from as i128) };
                match l.ty.kind() {
                    TyKind::RigidTy(RigidTy::Slice(_)) => {
                        advance(&mut l.path, &Lin::k(*from as i128));
                        l.meta = Meta::Len(len);
                    }
                    _ => return uns("subarray"),
                }
            }
            ProjectionElem::OpaqueCast(t) => l.ty = *t,
        }
    }
    Ok(l)
}
pub fn box_pointee(t: Ty) -> Option<Ty> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, a)) if d.is_box() => match a.0.first() {
            Some(GenericArgKind::Type(t)) => Some(*t),
            _ => None,
        },
        _ => None,
    }
}
pub fn deref(v: &Val, t: Ty) -> R<Loc> {
    match v {
        Val::Ptr(p) => Ok(Loc { cell: p.cell, path: p.path.clone(), meta: p.meta.clone(), ty: t, variant: None, zst: is_zst(t) }),
        Val::Fn(_) => uns("deref of a function"),
        Val::Int(..) if is_zst(t) => Ok(Loc { cell: consts::DANGLING, path: vec![], meta: Meta::None, ty: t, variant: None, zst: true }),
        Val::Int(..) => Err(Stop::Infeasible),
        v => uns(format!("deref of {}", short(v))),
    }
}
pub fn short(v: &Val) -> String {
    let s = format!("{v:?}");
    s.chars().take(60).collect()
}
fn length(l: &Loc) -> R<Lin> {
    if let Some((_, n)) = arr_len(l.ty) {
        return Ok(Lin::k(n as i128));
    }
    match &l.meta {
        Meta::Len(n) => Ok(n.clone()),
        _ => uns("length"),
    }
}
fn index(l: &mut Loc, i: Lin) -> R<()> {
    match l.ty.kind() {
        TyKind::RigidTy(RigidTy::Array(e, _)) => {
            push_index(&mut l.path, i);
            l.ty = e;
        }
        TyKind::RigidTy(RigidTy::Slice(e)) => {
            advance(&mut l.path, &i);
            l.ty = e;
        }
        _ => return uns("indexing"),
    }
    if is_zst(l.ty) {
        l.zst = true;
    }
    l.meta = Meta::None;
    l.variant = None;
    Ok(())
}

pub fn fetch(st: &State, cell: Cell) -> R<Val> {
    match cell {
        Cell::Const(i) => Ok(consts::const_val(i)),
        c => match st.cell(c) {
            Some(v) => Ok(v.clone()),
            None if c == consts::DANGLING => Ok(Val::Arr(Rc::new(vec![]))),
            None => uns("dangling pointer"),
        },
    }
}

pub fn read(st: &State, l: &Loc) -> R<Val> {
    if l.zst || is_zst(l.ty) {
        return Ok(Val::Zst);
    }
    let v = match l.path.last() {
        Some(Step::Window(w)) => {
            let Some((_, n)) = arr_len(l.ty) else { return uns("window") };
            let arr = read_path(st, l.cell, &l.path[..l.path.len() - 1])?;
            match arr {
                Val::Arr(s) => {
                    let v = arr_slice(&st.facts, &s, w, &Lin::k(n as i128))?;
                    // exact elements when the length is known
                    let mut out = vec![];
                    for i in 0..n.min(64) {
                        match arr_get(&st.facts, &v, &Lin::k(i as i128)) {
                            Ok(x) => out.push(x),
                            Err(e) => return Err(e),
                        }
                    }
                    if n <= 64 {
                        Val::elems(out)
                    } else {
                        Val::Arr(Rc::new(v))
                    }
                }
                v if n == 1 => Val::elems(vec![v]),
                _ => return uns("window of a scalar"),
            }
        }
        _ => read_path(st, l.cell, &l.path)?,
    };
    coerce(st, v, l.ty)
}
pub fn read_path(st: &State, cell: Cell, path: &[Step]) -> R<Val> {
    let v = fetch(st, cell)?;
    walk(&st.facts, v, path, 0, cell)
}
fn walk(f: &Facts, mut v: Val, path: &[Step], from: usize, cell: Cell) -> R<Val> {
    for i in from..path.len() {
        let here = || Ptr { cell, path: path[..i].to_vec(), meta: Meta::None };
        v = match (&v, &path[i]) {
            (Val::Alt(_), _) | (Val::Any(..), _) => return Err(Stop::Alt(here())),
            (Val::Agg(_, fs), Step::Field(k)) => match fs.get(*k as usize) {
                Some(x) => x.clone(),
                None => Val::Uninit,
            },
            (Val::Arr(s), Step::Index(l)) => {
                if s.is_empty() {
                    // the check that precedes it holds in no execution
                    if f.implies_ge(&l.neg().addk(-1)) {
                        return Err(Stop::Infeasible);
                    }
                    return uns("read of an empty array");
                }
                arr_get(f, s, l)?
            }
            (Val::Arr(s), Step::Window(l)) => {
                let t = total(s);
                Val::Arr(Rc::new(arr_slice(f, s, l, &t.sub(l))?))
            }
            (Val::Uninit, _) => Val::Uninit,
            (_, Step::Index(l)) => {
                if f.konst(l) == Some(0) || f.implies_eq(l) {
                    v
                } else {
                    return uns("element of a scalar");
                }
            }
            (x, s) => return uns(format!("{s:?} of {}", short(x))),
        };
    }
    Ok(v)
}

pub fn write(st: &mut State, l: &Loc, v: Val) -> R<()> {
    if l.zst || is_zst(l.ty) {
        return Ok(());
    }
    write_path(st, l.cell, &l.path, v, l.variant)
}
pub fn write_path(st: &mut State, cell: Cell, path: &[Step], v: Val, variant: Option<u32>) -> R<()> {
    let f = st.facts.clone();
    if matches!(cell, Cell::Const(_)) {
        return uns("write to a constant");
    }
    let Some(cur) = st.cell_mut(cell) else {
        if cell == consts::DANGLING {
            return uns("write through a dangling pointer");
        }
        return uns("write to a dead cell");
    };
    put(&f, cur, path, 0, v, variant, cell)
}
fn put(f: &Facts, cur: &mut Val, path: &[Step], i: usize, v: Val, variant: Option<u32>, cell: Cell) -> R<()> {
    if i == path.len() {
        *cur = v;
        return Ok(());
    }
    let here = || Ptr { cell, path: path[..i].to_vec(), meta: Meta::None };
    match (&mut *cur, &path[i]) {
        (Val::Alt(_), _) | (Val::Any(..), _) => Err(Stop::Alt(here())),
        (Val::Agg(_, fs), Step::Field(k)) => {
            let k = *k as usize;
            let fs = Rc::make_mut(fs);
            while fs.len() <= k {
                fs.push(Val::Uninit);
            }
            put(f, &mut fs[k], path, i + 1, v, None, cell)
        }
        (Val::Uninit, Step::Field(k)) => {
            let mut fs = vec![Val::Uninit; *k as usize + 1];
            put(f, &mut fs[*k as usize], path, i + 1, v, None, cell)?;
            let var = if i + 1 == path.len() { variant.unwrap_or(ST) } else { ST };
            *cur = Val::agg(var, fs);
            Ok(())
        }
        (Val::Arr(s), Step::Index(l)) => {
            if i + 1 == path.len() {
                let n = arr_set(f, s, l, v)?;
                *s = Rc::new(n);
            } else {
                // in place when the element is known
                if let (Some(c), [Seg { k: SegK::Elems(_), .. }]) = (f.konst(l), &s[..]) {
                    let segs = Rc::make_mut(s);
                    if let SegK::Elems(e) = &mut segs[0].k {
                        if (c as usize) < e.len() {
                            let e = Rc::make_mut(e);
                            return put(f, &mut e[c as usize], path, i + 1, v, variant, cell);
                        }
                    }
                    return uns("write outside of an array");
                }
                let mut e = arr_get(f, s, l)?;
                put(f, &mut e, path, i + 1, v, variant, cell)?;
                let n = arr_set(f, s, l, e)?;
                *s = Rc::new(n);
            }
            Ok(())
        }
        (Val::Uninit, Step::Index(l)) if f.konst(l) == Some(0) => {
            let mut e = Val::Uninit;
            put(f, &mut e, path, i + 1, v, variant, cell)?;
            *cur = Val::elems(vec![e]);
            Ok(())
        }
        (Val::Arr(s), Step::Window(l)) => {
            if i + 1 == path.len() {
                let Val::Arr(x) = &v else { return uns("window write") };
                let n = arr_splice(f, s, l, &total(x), x)?;
                *s = Rc::new(n);
                Ok(())
            } else {
                uns("write below a window")
            }
        }
        (Val::Uninit, Step::Window(l)) if f.konst(l) == Some(0) && i + 1 == path.len() => {
            *cur = v;
            Ok(())
        }
        (x, Step::Index(l)) if !matches!(x, Val::Arr(_)) => {
            if f.konst(l) == Some(0) {
                put(f, x, path, i + 1, v, variant, cell)
            } else {
                uns("write to an element of a scalar")
            }
        }
        (x, s) => {
            let m = format!("write {s:?} of {}", short(x));
            uns(m)
        }
    }
}

fn c_like(t: Ty) -> bool {
    matches!(t.kind(), TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Enum && d.variants().iter().all(|v| v.fields().is_empty()))
}
pub fn discr_of(t: Ty, v: u32) -> i128 {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => {
            let x = d.discriminant_for_variant(VariantIdx::to_val(v as usize));
            match int_ty(x.ty) {
                Some(it) => to_signed(x.val, it),
                None => x.val as i128,
            }
        }
        _ => v as i128,
    }
}
pub fn to_signed(v: u128, it: It) -> i128 {
    if it.bits < 128 {
        let v = v & ((1u128 << it.bits) - 1);
        if it.signed && v >> (it.bits - 1) == 1 {
            return v as i128 - (1i128 << it.bits);
        }
        return v as i128;
    }
    v as i128
}
/// Discriminant of a field-less enum with variant index `l`.
pub fn discr_lin(st: &State, t: Ty, l: &Lin) -> R<Lin> {
    if let Some(c) = st.facts.konst(l) {
        return Ok(Lin::k(discr_of(t, c as u32)));
    }
    let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.kind() else { return uns("discriminant") };
    let n = d.num_variants();
    let ds: Vec<i128> = (0..n).map(|i| discr_of(t, i as u32)).collect();
    if n >= 1 && (1..n).all(|i| ds[i] - ds[0] == i as i128) {
        return Ok(l.addk(ds[0]));
    }
    let (lo, _) = st.facts.range(l);
    Err(Stop::Fork(Cond::eq(l, &Lin::k(lo))))
}

/// View a value read from memory at a type.
pub fn coerce(st: &State, v: Val, t: Ty) -> R<Val> {
    match &v {
        Val::Uninit | Val::Zst | Val::Fn(_) | Val::Alt(_) | Val::Float(_) => return Ok(v),
        Val::Agg(k, f) => {
            if let (true, Some(it)) = (f.is_empty() && *k != ST, int_ty(t)) {
                return Ok(Val::Int(Lin::k(*k as i128), it)); // only for field-less enums with plain numbering
            }
            return Ok(v);
        }
        Val::Any(u, id) => {
            if *u != t && int_ty(t).is_some() && int_ty(*u).is_none() {
                return uns(format!("opaque {u} read as {t}"));
            }
            if int_ty(t).is_some() || t == Ty::bool_ty() || matches!(t.kind(), TyKind::RigidTy(RigidTy::Float(_))) {
                return Ok(any_scalar(t, *id));
            }
            return Ok(v);
        }
        Val::Ptr(_) => return Ok(v),
        Val::Int(l, it) => {
            if let Some(x) = int_ty(t) {
                if x.bits == it.bits {
                    return Ok(v);
                }
                return uns("integer of another size");
            }
            if t == Ty::bool_ty() {
                return Ok(Val::Bool(Cond::ge(l, &Lin::k(1))));
            }
            if let Some((e, n)) = arr_len(t) {
                if int_ty(e) == Some(It::U8) && n as u8 * 8 == it.bits {
                    let u = if it.signed { st.facts.mod_const(l, 1i128 << it.bits.min(100)) } else { l.clone() };
                    let mut b = vec![];
                    for i in 0..n {
                        b.push(Val::Int(st.facts.mod_const(&st.facts.div_const(&u, 1i128 << (8 * i)), 256), It::U8));
                    }
                    return Ok(Val::elems(b));
                }
                if n == 1 {
                    return Ok(Val::elems(vec![v]));
                }
                return uns("integer as an array");
            }
            if c_like(t) {
                let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.kind() else { unreachable!() };
                let ds: Vec<i128> = (0..d.num_variants()).map(|i| discr_of(t, i as u32)).collect();
                if let Some(c) = st.facts.konst(l) {
                    return match ds.iter().position(|x| *x == c) {
                        Some(i) => Ok(Val::agg(i as u32, vec![])),
                        None => Err(Stop::Infeasible),
                    };
                }
                if (1..ds.len()).all(|i| ds[i] - ds[0] == i as i128) {
                    return Ok(Val::Enum(l.addk(-ds[0])));
                }
                for x in ds {
                    return Err(Stop::Fork(Cond::eq(l, &Lin::k(x))));
                }
            }
            return Ok(v);
        }
        Val::Bool(c) => {
            if let Some(it) = int_ty(t) {
                return match c.as_bit() {
                    Some(l) => Ok(Val::Int(l, it)),
                    None => match decide(&st.facts, c) {
                        Some(b) => Ok(Val::Int(Lin::k(b as i128), it)),
                        None => Err(Stop::Fork(c.clone())),
                    },
                };
            }
            Ok(v)
        }
        Val::Enum(l) => {
            if let Some(it) = int_ty(t) {
                return Ok(Val::Int(l.clone(), it));
            }
            Ok(v)
        }
        Val::Arr(s) => {
            if let Some(it) = int_ty(t) {
                let n = it.bits as i128 / 8;
                if n == 1 {
                    return arr_get(&st.facts, s, &Lin::k(0));
                }
                let mut r = Lin::k(0);
                for i in 0..n {
                    match arr_get(&st.facts, s, &Lin::k(i))? {
                        Val::Int(l, x) if x.bits == 8 => r = r.add(&l.scale(1 << (8 * i))),
                        Val::Uninit => return Ok(Val::Uninit),
                        _ => return uns("bytes as an integer"),
                    }
                }
                if it.signed {
                    r = wrap(&st.facts, &r, it);
                }
                return Ok(Val::Int(r, it));
            }
            if arr_len(t).is_none() {
                if let TyKind::RigidTy(RigidTy::Adt(..) | RigidTy::Ref(..) | RigidTy::RawPtr(..) | RigidTy::Tuple(_)) = t.kind() {
                    if erased(t).is_none() {
                        // one-element array of these
                        return arr_get(&st.facts, s, &Lin::k(0));
                    }
                }
            }
            Ok(v)
        }
    }
}
pub fn wrap(f: &Facts, l: &Lin, it: It) -> Lin {
    let (lo, hi) = it.range();
    let (a, b) = f.range(l);
    if a >= lo && b <= hi {
        return l.clone();
    }
    if it.bits >= 120 {
        return Lin::s(fresh("wide", lo, hi));
    }
    let m = 1i128 << it.bits;
    if it.signed {
        f.mod_const(&l.addk(m / 2), m).addk(-(m / 2))
    } else {
        f.mod_const(l, m)
    }
}

pub fn derive(id: u32, part: u32) -> u32 {
    thread_local! {
        static M: std::cell::RefCell<HashMap<(u32, u32), u32>> = Default::default();
    }
    M.with(|m| *m.borrow_mut().entry((id, part)).or_insert_with(new_id))
}
/// The element at an index of a sequence of opaque values.
pub fn derive_at(id: u32, at: &Lin) -> u32 {
    thread_local! {
        static M: std::cell::RefCell<HashMap<(u32, Lin), u32>> = Default::default();
    }
    M.with(|m| *m.borrow_mut().entry((id, at.clone())).or_insert_with(new_id))
}
pub fn any_scalar(t: Ty, id: u32) -> Val {
    let s = |lo, hi| Lin::s(mk_sym(Def::Op(format!("any{id}"), vec![]), lo, hi));
    if let Some(it) = int_ty(t) {
        let (lo, mut hi) = it.range();
        if t == Ty::from_rigid_kind(RigidTy::Char) {
            hi = 0x10FFFF;
        }
        return Val::Int(s(lo, hi), it);
    }
    if t == Ty::bool_ty() {
        return Val::Bool(Cond::ge(&s(0, 1), &Lin::k(1)));
    }
    let mut f = crate::float::any();
    f.expr = Some(Rc::new(("#".into(), vec![s(0, 1)])));
    Val::Float(f)
}

/// Expand the parts of a value that have one shape.
pub fn expand_deep(st: &mut State, v: Val, depth: u32) -> Val {
    if depth == 0 {
        return v;
    }
    match v {
        Val::Any(t, id) => match expand(st, t, id) {
            Ok(mut x) if x.len() == 1 => {
                let x = x.pop().unwrap();
                if let Val::Ptr(p) = &x {
                    if let (Cell::Heap(_), true, Ok(y)) = (p.cell, p.path.is_empty(), fetch(st, p.cell)) {
                        let y = expand_deep(st, y, depth - 1);
                        let _ = write_path(st, p.cell, &[], y, None);
                    }
                }
                expand_deep(st, x, depth - 1)
            }
            _ => Val::Any(t, id),
        },
        Val::Agg(k, f) => Val::agg(k, f.iter().map(|x| expand_deep(st, x.clone(), depth - 1)).collect()),
        v => v,
    }
}
/// Expand an opaque value by one level, if it has one shape and no memory.
pub fn expand_plain(t: Ty, id: u32) -> Option<Val> {
    if int_ty(t).is_some() || t == Ty::bool_ty() {
        return Some(any_scalar(t, id));
    }
    match t.kind() {
        TyKind::RigidTy(RigidTy::Tuple(..)) => expand(&mut State::new(), t, id).ok()?.pop(),
        TyKind::RigidTy(RigidTy::Array(e, _)) => {
            let n = arr_len(t)?.1;
            if n > 16 {
                return None;
            }
            if int_ty(e) == Some(It::U8) {
                return Some(Val::elems((0..n).map(|i| Val::Int(byte(id, &Lin::k(i as i128)), It::U8)).collect()));
            }
            expand(&mut State::new(), t, id).ok()?.pop()
        }
        TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Struct && !adt_name(t).ends_with("vec::Vec") => {
            let f = field_tys(t, 0)?;
            match erased(t) {
                Some(j) => expand_plain(f[j], id),
                None => expand(&mut State::new(), t, id).ok()?.pop(),
            }
        }
        _ => None,
    }
}
/// Expand an opaque value by one level.
pub fn expand(st: &mut State, t: Ty, id: u32) -> R<Vec<Val>> {
    if is_zst(t) {
        return Ok(vec![Val::Zst]);
    }
    if int_ty(t).is_some() || t == Ty::bool_ty() {
        return Ok(vec![any_scalar(t, id)]);
    }
    let TyKind::RigidTy(r) = t.kind() else { return uns("opaque type") };
    match r {
        RigidTy::Float(_) => Ok(vec![any_scalar(t, id)]),
        RigidTy::Tuple(ts) => Ok(vec![Val::tup(ts.iter().enumerate().map(|(i, t)| Val::Any(*t, derive(id, i as u32))).collect())]),
        RigidTy::Array(e, _) => {
            let n = arr_len(t).unwrap().1;
            if int_ty(e) == Some(It::U8) {
                return Ok(vec![Val::Arr(Rc::new(vec![Seg { len: Lin::k(n as i128), k: SegK::Bytes { buf: id, base: Lin::k(0) } }]))]);
            }
            if n > 64 {
                return uns("large opaque array");
            }
            Ok(vec![Val::elems((0..n).map(|i| Val::Any(e, derive(id, i as u32))).collect())])
        }
        RigidTy::Ref(_, p, _) => Ok(vec![any_ref(st, p, id)?]),
        RigidTy::Adt(d, a) => {
            let name = adt_name(t);
            if name.ends_with("vec::Vec") {
                let Some(GenericArgKind::Type(e)) = a.0.first() else { return uns("vec") };
                return Ok(vec![any_vec(st, *e, id)?]);
            }
            match d.kind() {
                AdtKind::Struct => {
                    let f = field_tys(t, 0).unwrap();
                    if let Some(j) = erased(t) {
                        return expand(st, f[j], id);
                    }
                    Ok(vec![Val::tup(f.iter().enumerate().map(|(i, t)| if is_zst(*t) { Val::Zst } else { Val::Any(*t, derive(id, i as u32)) }).collect())])
                }
                AdtKind::Enum => {
                    let n = d.num_variants();
                    if c_like(t) {
                        return Ok(vec![Val::Enum(Lin::s(mk_sym(Def::Op(format!("any{id}"), vec![]), 0, n as i128 - 1)))]);
                    }
                    let mut out = vec![];
                    for v in 0..n {
                        let f = field_tys(t, v).unwrap_or_default();
                        if f.iter().any(|t| matches!(t.kind(), TyKind::RigidTy(RigidTy::Never))) {
                            continue;
                        }
                        out.push(Val::agg(v as u32, f.iter().enumerate().map(|(i, t)| if is_zst(*t) { Val::Zst } else { Val::Any(*t, derive(id, (v as u32 + 1) * 1000 + i as u32)) }).collect()));
                    }
                    Ok(out)
                }
                AdtKind::Union => match erased(t) {
                    Some(j) => {
                        let f = field_tys(t, 0).unwrap();
                        expand(st, f[j], id)
                    }
                    None => uns("opaque union"),
                },
            }
        }
        _ => uns(format!("opaque {t}")),
    }
}
thread_local! {
    static REFS: std::cell::RefCell<HashMap<u32, u32>> = Default::default();
}
/// No object is larger than the address space of x86-64 user programs.
pub const MAXLEN: i128 = 1 << 47;
pub fn len_sym(id: u32) -> Lin {
    Lin::s(mk_sym(Def::Op(format!("len{id}"), vec![]), 0, MAXLEN))
}
fn any_ref(st: &mut State, p: Ty, id: u32) -> R<Val> {
    let cell = REFS.with(|m| *m.borrow_mut().entry(id).or_insert_with(new_id));
    let (v, path, meta) = match p.kind() {
        TyKind::RigidTy(RigidTy::Slice(e)) => (any_seq(e, id), vec![Step::Index(Lin::k(0))], Meta::Len(len_sym(id))),
        TyKind::RigidTy(RigidTy::Str) => (any_seq(Ty::unsigned_ty(UintTy::U8), id), vec![Step::Index(Lin::k(0))], Meta::Len(len_sym(id))),
        TyKind::RigidTy(RigidTy::Dynamic(..)) => return uns("opaque trait object"),
        _ if is_unsized(p) => {
            if adt_name(p).ends_with("Path") || adt_name(p).ends_with("OsStr") {
                (any_seq(Ty::unsigned_ty(UintTy::U8), id), vec![Step::Index(Lin::k(0))], Meta::Len(len_sym(id)))
            } else {
                return uns(format!("opaque {p}"));
            }
        }
        _ => (Val::Any(p, derive(id, 77)), vec![], Meta::None),
    };
    if !st.heap.contains_key(&cell) {
        Rc::make_mut(&mut st.heap).insert(cell, v);
    }
    Ok(Val::ptr(Cell::Heap(cell), path, meta))
}
/// Any value made of integers only, with a symbol for each of them.
fn template(t: Ty, bound: &mut Vec<Sym>) -> Option<Val> {
    if is_zst(t) {
        return Some(Val::Zst);
    }
    if let Some(it) = int_ty(t) {
        let Val::Int(_, it2) = any_scalar(t, 0) else { return None };
        let (lo, mut hi) = it.range();
        if t == Ty::from_rigid_kind(RigidTy::Char) {
            hi = 0x10FFFF;
        }
        let b = fresh("e", lo, hi);
        bound.push(b);
        return Some(Val::Int(Lin::s(b), it2));
    }
    match t.kind() {
        TyKind::RigidTy(RigidTy::Tuple(ts)) => Some(Val::tup(ts.iter().map(|t| template(*t, bound)).collect::<Option<_>>()?)),
        TyKind::RigidTy(RigidTy::Array(e, _)) => {
            let n = arr_len(t)?.1;
            if n > 8 {
                return None;
            }
            Some(Val::elems((0..n).map(|_| template(e, bound)).collect::<Option<_>>()?))
        }
        TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Struct => {
            let f = field_tys(t, 0)?;
            if let Some(j) = erased(t) {
                return template(f[j], bound);
            }
            Some(Val::tup(f.iter().map(|t| template(*t, bound)).collect::<Option<_>>()?))
        }
        _ => None,
    }
}
pub fn any_seq(e: Ty, id: u32) -> Val {
    let k = if int_ty(e) == Some(It::U8) {
        SegK::Bytes { buf: id, base: Lin::k(0) }
    } else if let Some(it) = int_ty(e) {
        let (lo, hi) = it.range();
        let b = fresh("e", lo, hi);
        SegK::Rep(Rc::new(Rep { id: new_id(), val: Val::Int(Lin::s(b), it), bound: vec![b], facts: vec![] }))
    } else {
        let mut bound = vec![];
        let val = template(e, &mut bound).unwrap_or_else(|| {
            bound.clear();
            Val::Any(e, derive(id, 78))
        });
        SegK::Rep(Rc::new(Rep { id: new_id(), val, bound, facts: vec![] }))
    };
    Val::Arr(Rc::new(vec![Seg { len: len_sym(id), k }]))
}
pub const CAP: i128 = 1 << 63;
/// Vec value over a buffer cell.
pub fn vec_val(cell: Cell, len: Lin) -> Val {
    // Vec { buf: RawVec { inner: RawVecInner { ptr, cap, alloc } }, len }
    Val::tup(vec![raw_vec(cell), Val::usize(len)])
}
/// RawVecInner: ptr, cap, alloc (RawVec is represented by it).
pub fn raw_vec(cell: Cell) -> Val {
    Val::tup(vec![Val::ptr(cell, vec![Step::Index(Lin::k(0))], Meta::None), Val::Int(Lin::k(CAP), It::USIZE), Val::Zst])
}
pub fn any_vec(st: &mut State, e: Ty, id: u32) -> R<Val> {
    if is_zst(e) {
        return uns("vector of nothing");
    }
    let cell = REFS.with(|m| *m.borrow_mut().entry(id).or_insert_with(new_id));
    if !st.heap.contains_key(&cell) {
        Rc::make_mut(&mut st.heap).insert(cell, any_seq(e, id));
    }
    Ok(vec_val(Cell::Heap(cell), len_sym(id)))
}
