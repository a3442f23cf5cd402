//! Abstract values, memory and states.
use crate::lin::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDefType;
use std::cell::RefCell;
use std::collections::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct It {
    pub bits: u8,
    pub signed: bool,
}
impl It {
    pub const U8: It = It { bits: 8, signed: false };
    pub const USIZE: It = It { bits: 64, signed: false };
    pub const I32: It = It { bits: 32, signed: true };
    pub fn range(self) -> (i128, i128) {
        if self.bits >= 120 {
            return if self.signed { (-INF, INF) } else { (0, INF) };
        }
        if self.signed {
            (-(1i128 << (self.bits - 1)), (1i128 << (self.bits - 1)) - 1)
        } else {
            (0, (1i128 << self.bits) - 1)
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Cond {
    T,
    F,
    Ge(Lin),
    Eq(Lin),
    Ne(Lin),
    And(Rc<(Cond, Cond)>),
    Or(Rc<(Cond, Cond)>),
}
impl Cond {
    pub fn not(&self) -> Cond {
        match self {
            Cond::T => Cond::F,
            Cond::F => Cond::T,
            Cond::Ge(l) => Cond::Ge(l.neg().addk(-1)),
            Cond::Eq(l) => Cond::Ne(l.clone()),
            Cond::Ne(l) => Cond::Eq(l.clone()),
            Cond::And(p) => Cond::Or(Rc::new((p.0.not(), p.1.not()))),
            Cond::Or(p) => Cond::And(Rc::new((p.0.not(), p.1.not()))),
        }
    }
    pub fn and(a: Cond, b: Cond) -> Cond {
        match (&a, &b) {
            (Cond::F, _) | (_, Cond::F) => Cond::F,
            (Cond::T, _) => b,
            (_, Cond::T) => a,
            _ => Cond::And(Rc::new((a, b))),
        }
    }
    pub fn or(a: Cond, b: Cond) -> Cond {
        match (&a, &b) {
            (Cond::T, _) | (_, Cond::T) => Cond::T,
            (Cond::F, _) => b,
            (_, Cond::F) => a,
            _ => Cond::Or(Rc::new((a, b))),
        }
    }
    pub fn eq(a: &Lin, b: &Lin) -> Cond {
        let d = a.sub(b);
        match d.as_const() {
            Some(0) => Cond::T,
            Some(_) => Cond::F,
            None => Cond::Eq(d),
        }
    }
    pub fn ge(a: &Lin, b: &Lin) -> Cond {
        let d = a.sub(b);
        match d.as_const() {
            Some(c) if c >= 0 => Cond::T,
            Some(_) => Cond::F,
            None => Cond::Ge(d),
        }
    }
    pub fn bit(s: Sym) -> Cond {
        Cond::Ge(Lin::s(s).addk(-1))
    }
    pub fn fresh(label: &str) -> Cond {
        Cond::bit(fresh(label, 0, 1))
    }
    pub fn lins(&self, out: &mut Vec<Lin>) {
        match self {
            Cond::T | Cond::F => {}
            Cond::Ge(l) | Cond::Eq(l) | Cond::Ne(l) => out.push(l.clone()),
            Cond::And(p) | Cond::Or(p) => {
                p.0.lins(out);
                p.1.lins(out);
            }
        }
    }
    /// The 0/1 symbol a condition stands for.
    pub fn as_bit(&self) -> Option<Lin> {
        match self {
            Cond::T => Some(Lin::k(1)),
            Cond::F => Some(Lin::k(0)),
            Cond::Ge(l) if l.c == -1 && l.t.len() == 1 && l.t[0].1 == 1 && sym_static(l.t[0].0) == (0, 1) => Some(Lin::s(l.t[0].0)),
            Cond::Ge(l) if l.c == 0 && l.t.len() == 1 && l.t[0].1 == -1 && sym_static(l.t[0].0) == (0, 1) => Some(Lin::s(l.t[0].0).neg().addk(1)),
            _ => None,
        }
    }
}
pub fn decide(f: &Facts, c: &Cond) -> Option<bool> {
    match c {
        Cond::T => Some(true),
        Cond::F => Some(false),
        Cond::Ge(l) => {
            if f.implies_ge(l) {
                Some(true)
            } else if f.implies_ge(&l.neg().addk(-1)) {
                Some(false)
            } else {
                None
            }
        }
        Cond::Eq(l) => {
            if f.implies_ne(l) {
                Some(false)
            } else if f.implies_eq(l) {
                Some(true)
            } else {
                None
            }
        }
        Cond::Ne(l) => decide(f, &Cond::Eq(l.clone())).map(|b| !b),
        Cond::And(p) => match (decide(f, &p.0), decide(f, &p.1)) {
            (Some(false), _) | (_, Some(false)) => Some(false),
            (Some(true), Some(true)) => Some(true),
            _ => None,
        },
        Cond::Or(p) => match (decide(f, &p.0), decide(f, &p.1)) {
            (Some(true), _) | (_, Some(true)) => Some(true),
            (Some(false), Some(false)) => Some(false),
            _ => None,
        },
    }
}
/// Add the condition; false when contradictory.
pub fn assume(f: &mut Facts, c: &Cond) -> bool {
    match c {
        Cond::T => true,
        Cond::F => false,
        Cond::Ge(l) => {
            if f.implies_ge(&l.neg().addk(-1)) {
                return false;
            }
            f.add_ge(l)
        }
        Cond::Eq(l) => {
            if f.implies_ne(l) {
                return false;
            }
            f.add_eq(l)
        }
        Cond::Ne(l) => {
            if f.implies_eq(l) {
                return false;
            }
            f.add_ne(l)
        }
        Cond::And(p) => assume(f, &p.0) && assume(f, &p.1),
        Cond::Or(p) => match (decide(f, &p.0), decide(f, &p.1)) {
            (Some(true), _) | (_, Some(true)) => true,
            (Some(false), _) => assume(f, &p.1),
            (_, Some(false)) => assume(f, &p.0),
            _ => {
                // what holds of one number in either case
                let mut s = vec![];
                if cond_syms(c, &mut s) {
                    for x in s {
                        let Some((lo, hi)) = hull(f, c, x) else { return false };
                        if !f.add_ge(&Lin::s(x).addk(-lo)) || !f.add_ge(&Lin::s(x).neg().addk(hi)) {
                            return false;
                        }
                    }
                }
                true
            }
        },
    }
}
/// The few symbols of a condition.
fn cond_syms(c: &Cond, out: &mut Vec<Sym>) -> bool {
    match c {
        Cond::T | Cond::F => true,
        Cond::Ge(l) | Cond::Eq(l) | Cond::Ne(l) => {
            for (s, _) in &l.t {
                if !out.contains(s) {
                    out.push(*s);
                }
            }
            out.len() <= 2
        }
        Cond::And(p) | Cond::Or(p) => cond_syms(&p.0, out) && cond_syms(&p.1, out),
    }
}
/// Interval of a symbol where the condition holds.
fn hull(f: &Facts, c: &Cond, x: Sym) -> Option<(i128, i128)> {
    let all = f.range(&Lin::s(x));
    match c {
        Cond::T => Some(all),
        Cond::F => None,
        Cond::Ge(l) | Cond::Eq(l) if l.t.len() == 1 && l.t[0].0 == x && (l.t[0].1 == 1 || l.t[0].1 == -1) => {
            let eq = matches!(c, Cond::Eq(_));
            let (mut lo, mut hi) = all;
            if l.t[0].1 == 1 {
                lo = lo.max(-l.c);
                if eq {
                    hi = hi.min(-l.c);
                }
            } else {
                hi = hi.min(l.c);
                if eq {
                    lo = lo.max(l.c);
                }
            }
            (lo <= hi).then_some((lo, hi))
        }
        Cond::Ge(_) | Cond::Eq(_) | Cond::Ne(_) => Some(all),
        Cond::And(p) => {
            let (a, b) = (hull(f, &p.0, x)?, hull(f, &p.1, x)?);
            let r = (a.0.max(b.0), a.1.min(b.1));
            (r.0 <= r.1).then_some(r)
        }
        Cond::Or(p) => match (hull(f, &p.0, x), hull(f, &p.1, x)) {
            (Some(a), Some(b)) => Some((a.0.min(b.0), a.1.max(b.1))),
            (a, b) => a.or(b),
        },
    }
}

/// Floating-point value: interval, and the exact rational form it rounds.
#[derive(Clone, PartialEq, Debug)]
pub struct Fl {
    pub lo: f64,
    pub hi: f64,
    pub nan: bool,
    /// sum of (num/den)*sym + constant, or nothing known
    pub form: Option<Rc<FForm>>,
    /// How it was computed, for straight-line code: operations over integers.
    pub expr: Option<Rc<(String, Vec<Lin>)>>,
}
#[derive(Clone, PartialEq, Debug)]
pub struct FForm {
    pub c: (i128, i128),
    pub t: Vec<(Sym, (i128, i128))>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Cell {
    Local(u16, u16),
    Heap(u32),
    Const(u32),
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Step {
    Field(u32),
    Index(Lin),
    /// The elements from here on, seen as an array value.
    Window(Lin),
}
#[derive(Clone, PartialEq, Debug)]
pub enum Meta {
    None,
    Len(Lin),
    Dyn(Ty),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Ptr {
    pub cell: Cell,
    pub path: Vec<Step>,
    pub meta: Meta,
}

#[derive(Clone, PartialEq, Debug)]
pub enum SegK {
    Elems(Rc<Vec<Val>>),
    /// Elements base, base+1, .. of an immutable unknown buffer.
    Bytes { buf: u32, base: Lin },
    /// Every element is an instance of the template; `bound` symbols differ
    /// between elements.
    Rep(Rc<Rep>),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Rep {
    pub id: u32,
    pub val: Val,
    pub bound: Vec<Sym>,
    pub facts: Vec<Lin>,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Seg {
    pub len: Lin,
    pub k: SegK,
}
/// Variant index of structs, tuples and closures.
pub const ST: u32 = u32::MAX;

#[derive(Clone, PartialEq, Debug)]
pub struct Case {
    pub val: Val,
    pub facts: Vec<Lin>,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    Uninit,
    Zst,
    Int(Lin, It),
    Bool(Cond),
    Float(Fl),
    /// Variant index and fields.
    Agg(u32, Rc<Vec<Val>>),
    /// Field-less enum with a symbolic variant index.
    Enum(Lin),
    Arr(Rc<Vec<Seg>>),
    Ptr(Rc<Ptr>),
    Fn(Instance),
    /// Opaque value of a type; parts are derived from the identity.
    Any(Ty, u32),
    /// One of several.
    Alt(Rc<Vec<Case>>),
}
impl Val {
    pub fn agg(v: u32, f: Vec<Val>) -> Val {
        Val::Agg(v, Rc::new(f))
    }
    pub fn tup(f: Vec<Val>) -> Val {
        Val::Agg(ST, Rc::new(f))
    }
    pub fn usize(l: Lin) -> Val {
        Val::Int(l, It::USIZE)
    }
    pub fn bool(b: bool) -> Val {
        Val::Bool(if b { Cond::T } else { Cond::F })
    }
    pub fn ptr(cell: Cell, path: Vec<Step>, meta: Meta) -> Val {
        Val::Ptr(Rc::new(Ptr { cell, path, meta }))
    }
    pub fn elems(v: Vec<Val>) -> Val {
        Val::Arr(Rc::new(vec![Seg { len: Lin::k(v.len() as i128), k: SegK::Elems(Rc::new(v)) }]))
    }
    pub fn syms(&self, out: &mut BTreeSet<Sym>) {
        match self {
            Val::Uninit | Val::Zst | Val::Fn(_) | Val::Any(..) => {}
            Val::Int(l, _) | Val::Enum(l) => deep_syms(l, out),
            Val::Bool(c) => {
                let mut v = vec![];
                c.lins(&mut v);
                for l in v {
                    deep_syms(&l, out);
                }
            }
            Val::Float(f) => {
                if let Some(f) = &f.form {
                    for (s, _) in &f.t {
                        deep_sym(*s, out);
                    }
                }
            }
            Val::Agg(_, f) => f.iter().for_each(|v| v.syms(out)),
            Val::Arr(s) => {
                for s in s.iter() {
                    deep_syms(&s.len, out);
                    match &s.k {
                        SegK::Elems(v) => v.iter().for_each(|v| v.syms(out)),
                        SegK::Bytes { base, .. } => deep_syms(base, out),
                        SegK::Rep(r) => {
                            let mut o = BTreeSet::new();
                            r.val.syms(&mut o);
                            for f in &r.facts {
                                deep_syms(f, &mut o);
                            }
                            for b in &r.bound {
                                o.remove(b);
                            }
                            out.extend(o);
                        }
                    }
                }
            }
            Val::Ptr(p) => {
                for s in &p.path {
                    if let Step::Index(l) | Step::Window(l) = s {
                        deep_syms(l, out);
                    }
                }
                if let Meta::Len(l) = &p.meta {
                    deep_syms(l, out);
                }
            }
            Val::Alt(c) => {
                for c in c.iter() {
                    c.val.syms(out);
                    for f in &c.facts {
                        deep_syms(f, out);
                    }
                }
            }
        }
    }
    /// Replace symbols.
    pub fn subst(&self, m: &BTreeMap<Sym, Lin>, memo: &mut HashMap<Sym, Lin>) -> Val {
        match self {
            Val::Uninit | Val::Zst | Val::Fn(_) | Val::Any(..) => self.clone(),
            Val::Int(l, t) => Val::Int(subst(l, m, memo), *t),
            Val::Enum(l) => Val::Enum(subst(l, m, memo)),
            Val::Bool(c) => Val::Bool(subst_cond(c, m, memo)),
            Val::Float(f) => {
                let mut r = f.clone();
                if let Some(fm) = &f.form {
                    if fm.t.iter().any(|x| m.contains_key(&x.0)) {
                        r.form = None;
                    }
                }
                r.expr = f.expr.as_ref().map(|e| Rc::new((e.0.clone(), e.1.iter().map(|l| subst(l, m, memo)).collect())));
                Val::Float(r)
            }
            Val::Agg(v, f) => Val::agg(*v, f.iter().map(|x| x.subst(m, memo)).collect()),
            Val::Arr(s) => Val::Arr(Rc::new(
                s.iter()
                    .map(|s| Seg {
                        len: subst(&s.len, m, memo),
                        k: match &s.k {
                            SegK::Elems(v) => SegK::Elems(Rc::new(v.iter().map(|x| x.subst(m, memo)).collect())),
                            SegK::Bytes { buf, base } => SegK::Bytes { buf: *buf, base: subst(base, m, memo) },
                            SegK::Rep(r) => SegK::Rep(Rc::new(Rep {
                                id: new_id(),
                                val: r.val.subst(m, memo),
                                bound: r.bound.clone(),
                                facts: r.facts.iter().map(|f| subst(f, m, memo)).collect(),
                            })),
                        },
                    })
                    .collect(),
            )),
            Val::Ptr(p) => Val::Ptr(Rc::new(Ptr {
                cell: p.cell,
                path: p
                    .path
                    .iter()
                    .map(|s| match s {
                        Step::Field(i) => Step::Field(*i),
                        Step::Index(l) => Step::Index(subst(l, m, memo)),
                        Step::Window(l) => Step::Window(subst(l, m, memo)),
                    })
                    .collect(),
                meta: match &p.meta {
                    Meta::Len(l) => Meta::Len(subst(l, m, memo)),
                    x => x.clone(),
                },
            })),
            Val::Alt(c) => Val::Alt(Rc::new(
                c.iter().map(|c| Case { val: c.val.subst(m, memo), facts: c.facts.iter().map(|f| subst(f, m, memo)).collect() }).collect(),
            )),
        }
    }
}
pub fn subst_cond(c: &Cond, m: &BTreeMap<Sym, Lin>, memo: &mut HashMap<Sym, Lin>) -> Cond {
    match c {
        Cond::T | Cond::F => c.clone(),
        Cond::Ge(l) => Cond::ge(&subst(l, m, memo), &Lin::k(0)),
        Cond::Eq(l) => Cond::eq(&subst(l, m, memo), &Lin::k(0)),
        Cond::Ne(l) => Cond::eq(&subst(l, m, memo), &Lin::k(0)).not(),
        Cond::And(p) => Cond::and(subst_cond(&p.0, m, memo), subst_cond(&p.1, m, memo)),
        Cond::Or(p) => Cond::or(subst_cond(&p.0, m, memo), subst_cond(&p.1, m, memo)),
    }
}

thread_local! {
    static NEXT: RefCell<u32> = RefCell::new(1);
}
pub fn new_id() -> u32 {
    NEXT.with(|n| {
        *n.borrow_mut() += 1;
        *n.borrow()
    })
}

#[derive(Clone, PartialEq)]
pub struct Frame {
    pub locals: Rc<Vec<Val>>,
}
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub heap: Rc<BTreeMap<u32, Val>>,
    pub facts: Facts,
    /// An operation of the environment has failed.
    pub failed: bool,
}
impl State {
    pub fn new() -> State {
        State { frames: vec![], heap: Rc::new(BTreeMap::new()), facts: Facts::default(), failed: false }
    }
    pub fn alloc(&mut self, v: Val) -> Cell {
        let id = new_id();
        Rc::make_mut(&mut self.heap).insert(id, v);
        Cell::Heap(id)
    }
    pub fn cell(&self, c: Cell) -> Option<&Val> {
        match c {
            Cell::Local(d, i) => self.frames.get(d as usize).and_then(|f| f.locals.get(i as usize)),
            Cell::Heap(h) => self.heap.get(&h),
            Cell::Const(_) => None,
        }
    }
    pub fn cell_mut(&mut self, c: Cell) -> Option<&mut Val> {
        match c {
            Cell::Local(d, i) => {
                let f = self.frames.get_mut(d as usize)?;
                Rc::make_mut(&mut f.locals).get_mut(i as usize)
            }
            Cell::Heap(h) => Rc::make_mut(&mut self.heap).get_mut(&h),
            Cell::Const(_) => None,
        }
    }
}

// ------------------------------------------------------------------ types

thread_local! {
    static ZST: RefCell<HashMap<Ty, bool>> = RefCell::new(HashMap::new());
    static ERASED: RefCell<HashMap<Ty, Option<usize>>> = RefCell::new(HashMap::new());
}
pub fn is_zst(t: Ty) -> bool {
    if let Some(r) = ZST.with(|z| z.borrow().get(&t).copied()) {
        return r;
    }
    let r = match t.kind() {
        TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str | RigidTy::Dynamic(..) | RigidTy::Foreign(_)) => false,
        TyKind::RigidTy(RigidTy::FnDef(..)) => true,
        TyKind::RigidTy(RigidTy::Never) => true,
        _ => match t.layout() {
            Ok(l) => {
                let s = l.shape();
                s.is_sized() && s.size.bytes() == 0
            }
            Err(_) => false,
        },
    };
    ZST.with(|z| z.borrow_mut().insert(t, r));
    r
}
/// The variant a value of a zero-sized enum has.
pub fn only_variant(t: Ty) -> u32 {
    use rustc_public_bridge::IndexedVal;
    match t.layout().map(|l| l.shape().variants) {
        Ok(rustc_public::abi::VariantsShape::Single { index }) => index.to_index() as u32,
        _ => 0,
    }
}
/// The field a wrapper type is represented by.
pub fn erased(t: Ty) -> Option<usize> {
    if let Some(r) = ERASED.with(|z| z.borrow().get(&t).copied()) {
        return r;
    }
    let r = match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, a)) if !is_zst(t) => match d.kind() {
            AdtKind::Struct => {
                let f = d.variants()[0].fields();
                let nz: Vec<usize> = (0..f.len()).filter(|&i| !is_zst(f[i].ty_with_args(&a))).collect();
                if nz.len() == 1 {
                    Some(nz[0])
                } else {
                    None
                }
            }
            AdtKind::Union => {
                let f = d.variants()[0].fields();
                (0..f.len()).find(|&i| !is_zst(f[i].ty_with_args(&a)))
            }
            AdtKind::Enum => None,
        },
        _ => None,
    };
    ERASED.with(|z| z.borrow_mut().insert(t, r));
    r
}
pub fn int_ty(t: Ty) -> Option<It> {
    let TyKind::RigidTy(r) = t.kind() else { return None };
    Some(match r {
        RigidTy::Int(i) => It { bits: match i { IntTy::I8 => 8, IntTy::I16 => 16, IntTy::I32 => 32, IntTy::I64 | IntTy::Isize => 64, IntTy::I128 => 128 }, signed: true },
        RigidTy::Uint(i) => It { bits: match i { UintTy::U8 => 8, UintTy::U16 => 16, UintTy::U32 => 32, UintTy::U64 | UintTy::Usize => 64, UintTy::U128 => 128 }, signed: false },
        RigidTy::Char => It { bits: 32, signed: false },
        RigidTy::Pat(t, _) => return int_ty(t),
        _ => return None,
    })
}
pub fn pointee(t: Ty) -> Option<Ty> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(t),
        TyKind::RigidTy(RigidTy::Pat(t, _)) => pointee(t),
        _ => None,
    }
}
pub fn field_tys(t: Ty, variant: usize) -> Option<Vec<Ty>> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, a)) => Some(d.variants().get(variant)?.fields().iter().map(|f| f.ty_with_args(&a)).collect()),
        TyKind::RigidTy(RigidTy::Tuple(v)) => Some(v),
        _ => None,
    }
}
pub fn is_enum(t: Ty) -> bool {
    matches!(t.kind(), TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Enum)
}
pub fn arr_len(t: Ty) -> Option<(Ty, u64)> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Array(e, n)) => Some((e, n.eval_target_usize().ok()?)),
        _ => None,
    }
}
pub fn adt_name(t: Ty) -> String {
    use rustc_public::CrateDef;
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => d.name().to_string(),
        _ => String::new(),
    }
}
/// Tail pointee kind: does a pointer to it carry a length or a vtable?
pub fn tail(t: Ty) -> Ty {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, a)) if d.kind() == AdtKind::Struct => {
            if let Ok(l) = t.layout() {
                if l.shape().is_sized() {
                    return t;
                }
            }
            match d.variants()[0].fields().last() {
                Some(f) => tail(f.ty_with_args(&a)),
                None => t,
            }
        }
        _ => t,
    }
}
pub fn is_unsized(t: Ty) -> bool {
    matches!(tail(t).kind(), TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str | RigidTy::Dynamic(..)))
}
