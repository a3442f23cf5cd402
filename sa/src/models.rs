//! Meaning of compiler intrinsics, of the allocator, and of library
//! functions used by contract rather than by interpretation.
use crate::consts;
use crate::interp::*;
use crate::lin::*;
use crate::mem::*;
use crate::ops;
use crate::place::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::rc::Rc;

/// Functions entered by a contract of roots/src/model.rs.
const TEXT: &[&str] = &["C07", "C14", "C15", "C22"];
const REDIRECT: &[(&str, &str, &[&str])] = &[
    ("std::fs::read", "fs_read", &[]),
    ("std::fs::File::open", "file_open", &[]),
    ("<std::fs::File as std::io::Read>::read", "file_read", &[]),
    ("<std::fs::File as std::io::Read>::read_exact", "file_read_exact", &[]),
    ("std::io::BufRead::read_line", "read_line", &["C05", "C06", "C07", "C18", "C26", "C30"]),
    ("<std::io::BufReader as std::io::BufRead>::read_line", "read_line", &["C05", "C06", "C07", "C18", "C26", "C30"]),
    ("core::str::trim_end", "trim_end", &["C05", "C06", "C07", "C18", "C26", "C30"]),
    ("core::str::trim_start", "trim_start", &["C05", "C06", "C07", "C18", "C26", "C30"]),
    ("core::str::trim", "trim", &["C05", "C06", "C07", "C18", "C26", "C30"]),
    ("std::path::PathBuf::_push", "path_push", &[]),
    ("std::path::Path::is_dir", "is_dir", &[]),
    ("std::path::Path::exists", "exists", &[]),
    ("std::path::Path::is_file", "exists", &[]),
    ("std::path::Path::try_exists", "exists_at", &[]),
    ("std::fs::exists", "exists_at", &[]),
    ("core::slice::eq_ignore_ascii_case", "same_ignoring_case", &[]),
    ("core::slice::ascii::eq_ignore_ascii_case", "same_ignoring_case", &[]),
    ("std::fs::create_dir_all", "create_dir_all", &[]),
    ("std::fs::create_dir", "create_dir", &[]),
    ("image::ImageBuffer::save", "save", &[]),
    ("image::ImageBuffer::save_with_format", "save_with_format", &[]),
    ("image::ImageBuffer::from_fn", "from_fn", &[]),
    ("subtile::vobsub::VobSubIndexedImage::new", "vobsub_image", &["C08"]),
    ("subtile::vobsub::img::VobSubIndexedImage::new", "vobsub_image", &["C08"]),
];

/// Functions without effects whose results a property does not depend on:
/// any value of the result type stands for them.
const ANY_RESULT: &[(&str, &[&str])] = &[("subtile::vobsub::sub::subtitle", &["C28", "C29"]), ("subtile::vobsub::img::decompress", &["C32", "C24"])];

thread_local! {
    static DECIMAL: std::cell::RefCell<Vec<(Lin, u32)>> = Default::default();
}
#[derive(Debug)]
pub enum Piece {
    Byte(Lin),
    /// Part of a buffer: from where, how many.
    Part(u32, Lin, Lin),
}
impl Piece {
    pub fn byte(&self) -> Option<&Lin> {
        match self {
            Piece::Byte(l) => Some(l),
            _ => None,
        }
    }
}
fn same_text(f: &Facts, a: &[Piece], b: &[Piece]) -> R<Cond> {
    let len = |x: &[Piece]| x.iter().fold(Lin::k(0), |n, p| match p {
        Piece::Byte(_) => n.addk(1),
        Piece::Part(_, _, l) => n.add(l),
    });
    if std::env::var("SA_TEXT").is_ok() {
        eprintln!("texts {a:?}\n      {b:?}");
    }
    if decide(f, &Cond::eq(&len(a), &len(b))) == Some(false) {
        return Ok(Cond::F);
    }
    let mut c = Cond::T;
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(Piece::Byte(x)), Some(Piece::Byte(y))) => c = Cond::and(c, Cond::eq(x, y)),
            (Some(Piece::Part(p, x, n)), Some(Piece::Part(q, y, m))) => {
                if p != q && DECIMAL.with(|d| d.borrow().iter().any(|k| k.1 == *p) && d.borrow().iter().any(|k| k.1 == *q)) {
                    // the digits of two numbers not known to be equal
                    return Ok(Cond::F);
                }
                if p != q || decide(f, &Cond::eq(n, m)) != Some(true) || decide(f, &Cond::eq(x, y)) != Some(true) {
                    return uns("texts of other parts");
                }
            }
            (Some(Piece::Byte(x)), Some(Piece::Part(q, ..))) | (Some(Piece::Part(q, ..)), Some(Piece::Byte(x))) if DECIMAL.with(|d| d.borrow().iter().any(|k| k.1 == *q)) && x.as_const().map_or(false, |x| !(48..58).contains(&x)) => return Ok(Cond::F),
            _ => return uns("texts of other parts"),
        }
    }
    Ok(c)
}

fn arguments_str(v: &Val) -> Val {
    if let Val::Agg(_, f) = v {
        if let [Val::Ptr(t), Val::Int(n, _)] = &f[..] {
            return some(Val::Ptr(Rc::new(Ptr { meta: Meta::Len(n.as_const().map(|n| Lin::k(n / 2)).unwrap_or_else(|| Lin::k(0))), ..(**t).clone() })));
        }
    }
    none()
}

pub type Rets = R<Vec<(State, Val)>>;

fn targ(inst: Instance, i: usize) -> R<Ty> {
    let mut n = 0;
    for a in &inst.args().0 {
        if let GenericArgKind::Type(t) = a {
            if n == i {
                return Ok(*t);
            }
            n += 1;
        }
    }
    uns("type argument")
}
pub fn one(st: State, v: Val) -> Rets {
    Ok(vec![(st, v)])
}
fn int(v: &Val) -> R<(Lin, It)> {
    match v {
        Val::Int(l, t) => Ok((l.clone(), *t)),
        v => uns(format!("integer argument: {}", short(v))),
    }
}
pub fn some(v: Val) -> Val {
    Val::agg(1, vec![v])
}
pub fn none() -> Val {
    Val::agg(0, vec![])
}
pub fn ok(v: Val) -> Val {
    Val::agg(0, vec![v])
}
pub fn err(v: Val) -> Val {
    Val::agg(1, vec![v])
}
pub fn any_of(t: Ty) -> Val {
    if is_zst(t) {
        Val::Zst
    } else {
        Val::Any(t, new_id())
    }
}
fn var_tys(t: Ty, v: usize) -> Ty {
    field_tys(t, v).and_then(|f| f.first().copied()).unwrap_or(Ty::bool_ty())
}
/// Pointer and length of a slice or string argument.
fn slice_arg(v: &Val) -> R<(Rc<Ptr>, Lin)> {
    match v {
        Val::Ptr(p) => match &p.meta {
            Meta::Len(n) => Ok((p.clone(), n.clone())),
            _ => uns("slice argument"),
        },
        v => uns(format!("slice argument: {}", short(v))),
    }
}
fn with_alt(st: State, vals: Vec<Val>) -> Rets {
    Ok(vals.into_iter().map(|v| (st.clone(), v)).collect())
}

/// The number in `n` bits, `off` bits after the start of a byte.
pub fn bits_at(st: &State, p: &Ptr, off: &Lin, n: i128) -> R<Lin> {
    let get = |i: i128| -> R<Lin> {
        let mut path = p.path.clone();
        advance(&mut path, &Lin::k(i));
        if !matches!(path.last(), Some(Step::Index(_))) {
            path.push(Step::Index(Lin::k(i)));
        }
        match read_path(st, p.cell, &path)? {
            Val::Int(l, _) => Ok(l),
            v => uns(format!("byte {}", short(&v))),
        }
    };
    if let Some(o) = st.facts.konst(off) {
        return crate::mem::bits_of(&st.facts, &get, o, n);
    }
    if let Some(Def::Byte(b, pos)) = get(0)?.as_sym().map(sym_def) {
        return Ok(Lin::s(mk_sym(Def::Op(format!("bits{n}@{b}"), vec![pos, off.clone()]), 0, (1 << n) - 1)));
    }
    // Bytes without a name of their own: any value of that many bits.
    Ok(Lin::s(fresh("bits", 0, (1 << n) - 1)))
}

impl Ix {
    /// `nom::bits::complete::take(count)`: by contract, if the offset is
    /// known to stay below 8.
    pub fn bits_take(&mut self, args: &[Val], st: &State, rt: Ty) -> Option<Rets> {
        let count = match &args[0] {
            Val::Ptr(p) => read_path(st, p.cell, &p.path).ok()?,
            v => v.clone(),
        };
        let count = match &count {
            Val::Agg(_, f) => f[0].clone(),
            v => v.clone(),
        };
        let Val::Int(n, _) = count else { return None };
        let n = st.facts.konst(&n)?;
        let Val::Agg(_, f) = &args[1] else { return None };
        let [Val::Ptr(p), Val::Int(off, _)] = &f[..] else { return None };
        let Meta::Len(len) = &p.meta else { return None };
        let okt = field_tys(rt, 0)?[0];
        let TyKind::RigidTy(RigidTy::Tuple(ot)) = okt.kind() else { return None };
        let it = int_ty(ot[1])?;
        let errt = field_tys(rt, 1)?[0];
        let e = field_tys(errt, 1)?[0];
        if !adt_name(e).ends_with("nom::error::Error") || n < 1 || n > it.bits as i128 || it.signed {
            return None;
        }
        let (lo, hi) = st.facts.range(off);
        if lo < 0 || hi > 7 {
            return None;
        }
        let short_ = Cond::ge(&off.addk(n - 1), &len.scale(8));
        match need(&st.facts, short_) {
            Err(e) => return Some(Err(e)),
            Ok(true) => {
                let TyKind::RigidTy(RigidTy::Adt(d, _)) = field_tys(e, 0)?[1].kind() else { return None };
                let eof = d.variants().iter().position(|v| v.name() == "Eof")? as u32;
                let ev = Val::tup(vec![args[1].clone(), Val::agg(eof, vec![])]);
                return Some(one(st.clone(), err(Val::agg(1, vec![ev]))));
            }
            Ok(false) => {}
        }
        let v = match bits_at(st, p, off, n) {
            Ok(v) => v,
            Err(e) => return Some(Err(e)),
        };
        let sum = off.addk(n);
        let cnt = st.facts.div_const(&sum, 8);
        let end = st.facts.mod_const(&sum, 8);
        let mut path = p.path.clone();
        advance(&mut path, &cnt);
        let rest = Val::Ptr(Rc::new(Ptr { cell: p.cell, path, meta: Meta::Len(len.sub(&cnt)) }));
        one(st.clone(), ok(Val::tup(vec![Val::tup(vec![rest, Val::usize(end)]), Val::Int(v, it)]))).into()
    }
    pub fn intrinsic(&mut self, n: &str, inst: Instance, args: Vec<Val>, tys: &[Ty], mut st: State, rt: Ty) -> Rets {
        let _ = tys;
        match n {
            "size_of" | "min_align_of" | "align_of" | "pref_align_of" => {
                let l = targ(inst, 0)?.layout().map_err(|e| Stop::Unsupported(format!("{e:?}")))?.shape();
                let v = if n == "size_of" { l.size.bytes() as i128 } else { l.abi_align as i128 };
                one(st, Val::usize(Lin::k(v)))
            }
            "size_of_val" | "align_of_val" | "min_align_of_val" => {
                let t = targ(inst, 0)?;
                match (&args[0], tail(t).kind()) {
                    (Val::Ptr(p), TyKind::RigidTy(RigidTy::Slice(e))) if n == "size_of_val" => {
                        let s = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(1) as i128;
                        match &p.meta {
                            Meta::Len(n) => one(st, Val::usize(n.scale(s))),
                            _ => uns("size"),
                        }
                    }
                    (Val::Ptr(p), TyKind::RigidTy(RigidTy::Str)) if n == "size_of_val" => match &p.meta {
                        Meta::Len(n) => {
                            let v = Val::usize(n.clone());
                            one(st, v)
                        }
                        _ => uns("size"),
                    },
                    _ => one(st, Val::usize(Lin::s(fresh("size", 0, 1 << 40)))),
                }
            }
            "needs_drop" => one(st, Val::bool(self.needs_drop_run(targ(inst, 0)?))),
            "likely" | "unlikely" | "black_box" | "copy_for_deref" => one(st, args[0].clone()),
            "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "forget" | "contract_check_ensures" | "contract_check_requires" | "prefetch_read_data" | "prefetch_write_data" => one(st, Val::Zst),
            "ub_checks" | "contract_checks" | "is_val_statically_known" => one(st, Val::bool(false)),
            "overflow_checks" => one(st, Val::bool(true)),
            "abort" | "breakpoint" => {
                self.report("panic", "possible abort", false);
                Ok(vec![])
            }
            "unreachable" => Ok(vec![]),
            "assume" => {
                if let Val::Bool(c) = &args[0] {
                    if !assume(&mut st.facts, c) {
                        return Err(Stop::Infeasible);
                    }
                }
                one(st, Val::Zst)
            }
            "caller_location" => one(st, Val::ptr(consts::DANGLING, vec![], Meta::None)),
            "type_id" | "type_name" => one(st, any_of(rt)),
            "transmute" | "transmute_unchecked" => {
                let (a, b) = (targ(inst, 0)?, targ(inst, 1)?);
                let v = transmute(&st, args[0].clone(), a, b)?;
                one(st, v)
            }
            "const_eval_select" => {
                // (args, const fn, runtime fn)
                let f = targ(inst, 2)?;
                let TyKind::RigidTy(RigidTy::FnDef(d, a)) = f.kind() else { return uns("const_eval_select") };
                let i = Instance::resolve(d, &a).map_err(|e| Stop::Unsupported(format!("{e:?}")))?;
                let v: Vec<Val> = match &args[0] {
                    Val::Agg(_, f) => f.to_vec(),
                    Val::Zst => vec![],
                    v => vec![v.clone()],
                };
                let ts = field_tys(targ(inst, 0)?, 0).unwrap_or_default();
                let mut v2 = v;
                if v2.is_empty() {
                    v2 = ts.iter().map(|_| Val::Zst).collect();
                }
                self.call(i, v2, &ts, false, &st, rt, false)
            }
            "copy" | "copy_nonoverlapping" | "volatile_copy_nonoverlapping_memory" => {
                let t = targ(inst, 0)?;
                self.copy(&mut st, &args[0], &args[1], &args[2], t)?;
                one(st, Val::Zst)
            }
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
                let t = targ(inst, 0)?;
                let v = read(&st, &deref(&args[0], t)?)?;
                one(st, v)
            }
            "write_via_move" | "volatile_store" => {
                let t = targ(inst, 0)?;
                write(&mut st, &deref(&args[0], t)?, args[1].clone())?;
                one(st, Val::Zst)
            }
            "typed_swap_nonoverlapping" => {
                let t = targ(inst, 0)?;
                let (a, b) = (deref(&args[0], t)?, deref(&args[1], t)?);
                let (x, y) = (read(&st, &a)?, read(&st, &b)?);
                write(&mut st, &a, y)?;
                write(&mut st, &b, x)?;
                one(st, Val::Zst)
            }
            "write_bytes" => {
                let t = targ(inst, 0)?;
                let Val::Int(n, _) = &args[2] else { return uns("write_bytes") };
                if st.facts.konst(n) == Some(0) || is_zst(t) {
                    return one(st, Val::Zst);
                }
                let (b, _) = int(&args[1])?;
                let e = match int_ty(t) {
                    Some(it) if it.bits == 8 => Val::Int(b, it),
                    Some(it) if b.as_const() == Some(0) => Val::Int(Lin::k(0), it),
                    _ => return uns("write_bytes of a type"),
                };
                let Val::Ptr(p) = &args[0] else { return uns("write_bytes") };
                let k = Val::Arr(Rc::new(vec![Seg { len: n.clone(), k: SegK::Rep(Rc::new(Rep { id: new_id(), val: e, bound: vec![], facts: vec![] })) }]));
                let id = st.alloc(k);
                let src = Val::ptr(id, vec![Step::Index(Lin::k(0))], Meta::None);
                let d = Val::Ptr(p.clone());
                self.copy(&mut st, &src, &d, &args[2], t)?;
                one(st, Val::Zst)
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let it = It { bits: 64, signed: n == "ptr_offset_from" };
                match (&args[0], &args[1]) {
                    (Val::Ptr(a), Val::Ptr(b)) => match ops::ptr_pair(&st.facts, a, b) {
                        Some((x, y)) => one(st, Val::Int(x.sub(&y), it)),
                        None => uns("distance of unrelated pointers"),
                    },
                    (Val::Int(a, _), Val::Int(b, _)) => {
                        let d = a.sub(b);
                        one(st, Val::Int(d, it))
                    }
                    _ => uns("pointer distance"),
                }
            }
            "offset" | "arith_offset" => {
                let t = targ(inst, 0)?;
                let p = pointee(t).unwrap_or(t);
                if is_zst(p) {
                    return one(st, args[0].clone());
                }
                let v = ops::bin(&mut st, BinOp::Offset, &args[0], &args[1])?;
                one(st, v)
            }
            "slice_get_unchecked" => {
                // (slice pointer, index) -> element pointer
                let (Val::Ptr(p), (i, _)) = (&args[0], int(&args[1])?) else { return uns("slice_get_unchecked") };
                let mut q = (**p).clone();
                q.meta = Meta::None;
                advance(&mut q.path, &i);
                one(st, Val::Ptr(Rc::new(q)))
            }
            "aggregate_raw_ptr" => {
                let p = targ(inst, 0)?;
                let v = raw_ptr(pointee(p).ok_or(Stop::Unsupported("pointer".into()))?, &args[0], &args[1])?;
                one(st, v)
            }
            "ptr_metadata" => match &args[0] {
                Val::Ptr(p) => match &p.meta {
                    Meta::Len(n) => one(st, Val::usize(n.clone())),
                    Meta::None => one(st, Val::Zst),
                    _ => uns("vtable"),
                },
                _ => uns("metadata"),
            },
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let ((a, it), (b, _)) = (int(&args[0])?, int(&args[1])?);
                let l = match &n[..3] {
                    "add" => a.add(&b),
                    "sub" => a.sub(&b),
                    _ => a.mul(&b),
                };
                let (lo, hi) = it.range();
                let f = &st.facts;
                let over = !need(f, Cond::ge(&Lin::k(hi), &l))? || !need(f, Cond::ge(&l, &Lin::k(lo)))?;
                let v = if over { wrap(f, &l, it) } else { l };
                one(st, Val::tup(vec![Val::Int(v, it), Val::bool(over)]))
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "unchecked_div" | "unchecked_rem" | "unchecked_shl" | "unchecked_shr" | "exact_div" | "disjoint_bitor" => {
                if let (Val::Bool(_), _) = (&args[0], &args[1]) {
                    let v = ops::bin(&mut st, BinOp::BitOr, &args[0], &args[1])?;
                    return one(st, v);
                }
                let ((a, it), (b, _)) = (int(&args[0])?, int(&args[1])?);
                let op = match n {
                    "wrapping_add" => BinOp::Add,
                    "wrapping_sub" => BinOp::Sub,
                    "wrapping_mul" => BinOp::Mul,
                    "unchecked_add" => BinOp::AddUnchecked,
                    "unchecked_sub" => BinOp::SubUnchecked,
                    "unchecked_mul" => BinOp::MulUnchecked,
                    "unchecked_div" | "exact_div" => BinOp::Div,
                    "unchecked_rem" => BinOp::Rem,
                    "unchecked_shl" => BinOp::Shl,
                    "disjoint_bitor" => BinOp::BitOr,
                    _ => BinOp::Shr,
                };
                let v = ops::int_op(&mut st, op, &a, &b, it)?;
                one(st, Val::Int(v, it))
            }
            "saturating_add" | "saturating_sub" => {
                let ((a, it), (b, _)) = (int(&args[0])?, int(&args[1])?);
                let l = if n == "saturating_add" { a.add(&b) } else { a.sub(&b) };
                let (lo, hi) = it.range();
                let v = if !need(&st.facts, Cond::ge(&Lin::k(hi), &l))? {
                    Lin::k(hi)
                } else if !need(&st.facts, Cond::ge(&l, &Lin::k(lo)))? {
                    Lin::k(lo)
                } else {
                    l
                };
                one(st, Val::Int(v, it))
            }
            "three_way_compare" => {
                let v = ops::bin(&mut st, BinOp::Cmp, &args[0], &args[1])?;
                one(st, v)
            }
            "discriminant_value" => {
                let t = targ(inst, 0)?;
                let it = int_ty(rt).unwrap_or(It { bits: 64, signed: true });
                let l = deref(&args[0], t)?;
                if is_zst(t) {
                    let d = if is_enum(t) { discr_of(t, only_variant(t)) } else { 0 };
                    return one(st, Val::Int(Lin::k(d), it));
                }
                match read(&st, &l)? {
                    Val::Agg(v, _) if v != ST => one(st, Val::Int(Lin::k(discr_of(t, v)), it)),
                    Val::Enum(x) => {
                        let d = discr_lin(&st, t, &x)?;
                        one(st, Val::Int(d, it))
                    }
                    Val::Alt(_) | Val::Any(..) => Err(Stop::Alt(l.ptr())),
                    v => uns(format!("discriminant of {}", short(&v))),
                }
            }
            "bswap" => {
                let (a, it) = int(&args[0])?;
                let f = &st.facts;
                let n = it.bits as i128 / 8;
                let a = if it.signed { f.mod_const(&a, 1 << it.bits) } else { a };
                let mut r = Lin::k(0);
                for i in 0..n {
                    let b = f.mod_const(&f.div_const(&a, 1 << (8 * i)), 256);
                    r = r.add(&b.scale(1 << (8 * (n - 1 - i))));
                }
                let r = if it.signed { wrap(f, &r, it) } else { r };
                one(st, Val::Int(r, it))
            }
            "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" | "bitreverse" | "rotate_left" | "rotate_right" => {
                let (a, it) = int(&args[0])?;
                let rit = int_ty(rt).unwrap_or(it);
                if let (Some(c), 1) = (st.facts.konst(&a), args.len()) {
                    let u = if it.bits < 128 { (c as u128) & ((1u128 << it.bits) - 1) } else { c as u128 };
                    let w = it.bits as u32;
                    let r = match n {
                        "ctpop" => u.count_ones() as i128,
                        "ctlz" | "ctlz_nonzero" => (u.leading_zeros() - (128 - w)) as i128,
                        "cttz" | "cttz_nonzero" => u.trailing_zeros().min(w) as i128,
                        _ => (u.reverse_bits() >> (128 - w)) as i128,
                    };
                    return one(st, Val::Int(Lin::k(r), rit));
                }
                let (lo, hi) = if n.starts_with('c') { (0, it.bits as i128) } else { rit.range() };
                let mut key = vec![a];
                for x in &args[1..] {
                    key.push(int(x)?.0);
                }
                one(st, Val::Int(Lin::s(mk_sym(Def::Op(format!("{n}{}", it.bits), key), lo, hi)), rit))
            }
            "compare_bytes" => {
                let (Val::Ptr(a), Val::Ptr(b), (cnt, _)) = (&args[0], &args[1], int(&args[2])?) else { return uns("compare_bytes") };
                match st.facts.konst(&cnt) {
                    Some(k) if k <= 64 => {
                        let mut undecided = false;
                        for i in 0..k {
                            let c = Cond::eq(&self.elem(&st, a, i)?, &self.elem(&st, b, i)?);
                            match decide(&st.facts, &c) {
                                Some(false) if undecided => {
                                    // they differ, in whatever order
                                    return Ok([-1, 1].iter().map(|x| (st.clone(), Val::Int(Lin::k(*x), It::I32))).collect());
                                }
                                Some(false) => break,
                                Some(true) => {}
                                None => undecided = true,
                            }
                        }
                        for i in 0..k {
                            let x = self.elem(&st, a, i)?;
                            let y = self.elem(&st, b, i)?;
                            if !need(&st.facts, Cond::eq(&x, &y))? {
                                let lt = need(&st.facts, Cond::ge(&y, &x))?;
                                return one(st, Val::Int(Lin::k(if lt { -1 } else { 1 }), It::I32));
                            }
                        }
                        one(st, Val::Int(Lin::k(0), It::I32))
                    }
                    _ => one(st, Val::Int(Lin::s(fresh("memcmp", -1, 1)), It::I32)),
                }
            }
            "raw_eq" => {
                let t = targ(inst, 0)?;
                let x = read(&st, &deref(&args[0], t)?)?;
                let y = read(&st, &deref(&args[1], t)?)?;
                let plain = |v: Val| match v {
                    Val::Any(t, id) => expand_plain(t, id).unwrap_or(Val::Any(t, id)),
                    v => v,
                };
                let (x, y) = (plain(x), plain(y));
                match (&x, &y) {
                    (Val::Arr(a), Val::Arr(b)) => {
                        let n = arr_len(t).map(|x| x.1).unwrap_or(0);
                        if n > 32 {
                            return one(st, Val::Bool(Cond::fresh("raw_eq")));
                        }
                        let mut c = Cond::T;
                        for i in 0..n {
                            let u = arr_get(&st.facts, a, &Lin::k(i as i128))?;
                            let v = arr_get(&st.facts, b, &Lin::k(i as i128))?;
                            let Val::Bool(e) = ops::bin(&mut st, BinOp::Eq, &u, &v)? else { return uns("raw_eq") };
                            c = Cond::and(c, e);
                        }
                        one(st, Val::Bool(c))
                    }
                    _ => {
                        let v = ops::bin(&mut st, BinOp::Eq, &x, &y)?;
                        one(st, v)
                    }
                }
            }
            "select_unpredictable" => {
                let Val::Bool(c) = &args[0] else { return uns("select") };
                let b = need(&st.facts, c.clone())?;
                one(st, if b { args[1].clone() } else { args[2].clone() })
            }
            "ptr_mask" => one(st, args[0].clone()),
            "vtable_size" | "vtable_align" => one(st, Val::usize(Lin::s(fresh("size", 1, 1 << 40)))),
            "box_new" => {
                let t = targ(inst, 0)?;
                if is_zst(t) {
                    return one(st, Val::ptr(consts::DANGLING, vec![], Meta::None));
                }
                let c = st.alloc(args[0].clone());
                one(st, Val::ptr(c, vec![], Meta::None))
            }
            "drop_in_place" => one(st, Val::Zst),
            "atomic_load" => {
                let t = targ(inst, 0)?;
                match read(&st, &deref(&args[0], t)?) {
                    Ok(v) if !matches!(v, Val::Uninit) => one(st, v),
                    _ => one(st, any_of(rt)),
                }
            }
            "atomic_xadd" | "atomic_xsub" | "atomic_store" | "atomic_xchg" | "atomic_fence" | "atomic_singlethreadfence" => one(st, any_of(rt)),
            "fabs" | "fabsf64" => match &args[0] {
                Val::Float(f) => {
                    let v = if f.lo >= 0.0 {
                        f.clone()
                    } else if f.hi <= 0.0 {
                        crate::float::neg(f)
                    } else {
                        Fl { lo: 0.0, hi: f.hi.max(-f.lo), nan: f.nan, form: None, expr: None }
                    };
                    one(st, Val::Float(v))
                }
                _ => uns("float"),
            },
            "floorf64" | "ceilf64" | "truncf64" | "roundf64" | "round_ties_even_f64" | "nearbyintf64" | "rintf64" => match &args[0] {
                Val::Float(f) => one(st, Val::Float(crate::float::round(n, f))),
                _ => uns("float"),
            },
            "maxnumf64" | "minnumf64" | "maximumf64" | "minimumf64" | "maximum_number_nsz_f64" | "minimum_number_nsz_f64" => match (&args[0], &args[1]) {
                (Val::Float(a), Val::Float(b)) => {
                    let mx = n.starts_with("max");
                    let (lo, hi) = if mx { (a.lo.max(b.lo), a.hi.max(b.hi)) } else { (a.lo.min(b.lo), a.hi.min(b.hi)) };
                    let form = if mx && a.lo >= b.hi || !mx && a.hi <= b.lo { a.form.clone() } else if mx && b.lo >= a.hi || !mx && b.hi <= a.lo { b.form.clone() } else { None };
                    one(st, Val::Float(Fl { lo, hi, nan: a.nan && b.nan, form, expr: None }))
                }
                _ => uns("float"),
            },
            "float_to_int_unchecked" => {
                let (Val::Float(f), Some(it)) = (&args[0], int_ty(rt)) else { return uns("float") };
                let v = crate::float::trunc(&mut st.facts, f, it);
                one(st, Val::Int(v, it))
            }
            _ => {
                if matches!(rt.kind(), TyKind::RigidTy(RigidTy::Float(_))) {
                    return one(st, Val::Float(crate::float::any()));
                }
                // intrinsics with a fallback body
                if inst.has_body() {
                    return Ok(self.exec_fn(inst, args, st));
                }
                uns(format!("intrinsic {n}"))
            }
        }
    }
    fn elem(&self, st: &State, p: &Ptr, i: i128) -> R<Lin> {
        let mut path = p.path.clone();
        advance(&mut path, &Lin::k(i));
        if !matches!(path.last(), Some(Step::Index(_))) {
            path.push(Step::Index(Lin::k(i)));
        }
        match read_path(st, p.cell, &path)? {
            Val::Int(l, _) => Ok(l),
            v => uns(format!("byte {}", short(&v))),
        }
    }

    /// Library functions by contract. `None`: interpret the body.
    pub fn model(&mut self, name: &str, inst: Instance, args: &[Val], tys: &[Ty], st0: &State, rt: Ty, never: bool) -> Option<Rets> {
        let _ = (tys, never);
        let n = name;
        // markers of the roots crate
        if let Some(m) = n.strip_prefix("roots::sa::").or_else(|| n.strip_prefix("sa::")) {
            return self.marker(m, inst, args, st0, rt);
        }
        if let Some(m) = n.strip_prefix("alloc::raw_vec::RawVecInner::").or_else(|| n.strip_prefix("std::raw_vec::RawVecInner::")) {
            return self.raw_vec_fn(m, args, st0, rt);
        }
        if n.contains("raw_vec::") && !n.contains("RawVec::") {
            if n.ends_with("do_reserve_and_handle") {
                return self.raw_vec_fn("reserve", args, st0, rt);
            }
        }
        if n.starts_with("core::panicking::") || n.starts_with("std::rt::") {
            return None;
        }
        if ANY_RESULT.iter().any(|(f, modes)| *f == n && modes.contains(&self.mode.as_str())) && !tys.iter().any(|t| matches!(t.kind(), TyKind::RigidTy(RigidTy::Ref(_, _, Mutability::Mut) | RigidTy::RawPtr(..)))) {
            return Some(one(st0.clone(), any_of(rt)));
        }
        // integers as texts
        if self.text() && (n == "core::fmt::num::imp::fmt" || n.ends_with(" as std::string::SpecToString>::spec_to_string")) {
            let int = inst.body().and_then(|b| b.arg_locals().first().map(|l| l.ty)).and_then(pointee).filter(|t| int_ty(*t).is_some() && matches!(t.kind(), TyKind::RigidTy(RigidTy::Int(_) | RigidTy::Uint(_))));
            if let Some(t) = int {
                let f = format!("model::{}_{t}", if n.contains("SpecToString") { "str" } else { "fmt" });
                let Some(j) = crate::modes::local_fn(&f, inst) else { return Some(uns(f)) };
                return Some(Ok(self.exec_fn(j, args.to_vec(), st0.clone())));
            }
        }
        let from_model = self.chain.last().map_or(false, |c| c.name.contains("model::"));
        if let Some((_, to, _)) = REDIRECT.iter().find(|r| r.0 == n && !from_model && (r.2.is_empty() || r.2.contains(&self.mode.as_str()))) {
            let Some(j) = crate::modes::local_fn(&format!("model::{to}"), inst) else { return Some(uns(format!("model::{to}"))) };
            return Some(Ok(self.exec_fn(j, args.to_vec(), st0.clone())));
        }
        if let Some(m) = n.strip_prefix("roots::model::").or_else(|| n.strip_prefix("model::")) {
            if let Some(r) = self.world(m, args, tys, st0, rt) {
                return Some(r);
            }
        }
        if let Some(r) = self.text_model(n, inst, args, tys, st0, rt) {
            return Some(r);
        }
        // messages of other crates
        if self.mode == "C18" && inst.def.krate().name != "subtile" && ((n.starts_with("std::fmt::Formatter::") || n.starts_with("std::fmt::Debug") || n.starts_with("std::fmt::builders::")) && adt_name(rt).ends_with("Result") || n.contains(" as std::fmt::") && n.ends_with(">::fmt")) {
            return Some(one(st0.clone(), Val::Enum(Lin::s(fresh("fmt result", 0, 1)))));
        }
        let st = st0.clone();
        // `<dyn Error>::is::<T>`, by the type in the fat pointer
        if n.ends_with("::is") && n.contains("Error") || n == "std::error::Error::is" {
            if let (Some(Val::Ptr(p)), Some(t)) = (args.first(), inst.args().0.iter().find_map(|a| if let GenericArgKind::Type(t) = a { Some(*t) } else { None })) {
                if let Meta::Dyn(d) = &p.meta {
                    let b = *d == t;
                    return Some(one(st, Val::Bool(if b { Cond::T } else { Cond::F })));
                }
            }
        }
        Some(match n {
            "std::vec::Vec::push" | "alloc::vec::Vec::push" | "std::vec::Vec::push_mut" => {
                // a vector never holds more elements than the address space
                let mut st = st;
                if let Ok(v) = read(&st, &match deref(&args[0], pointee(tys[0])?) {
                    Ok(l) => l,
                    Err(e) => return Some(Err(e)),
                }) {
                    if let Val::Agg(_, f) = &v {
                        if let Some(Val::Int(l, _)) = f.get(1) {
                            if !assume(&mut st.facts, &Cond::ge(&Lin::k(MAXLEN), l)) {
                                return Some(Err(Stop::Infeasible));
                            }
                        }
                    }
                    if let Val::Any(..) | Val::Alt(_) = v {
                        if let Val::Ptr(p) = &args[0] {
                            return Some(Err(Stop::Alt((**p).clone())));
                        }
                    }
                }
                Ok(self.exec_fn(inst, args.to_vec(), st))
            }
            "std::boxed::Box::new" | "alloc::boxed::Box::new" => {
                let t = match targ(inst, 0) {
                    Ok(t) => t,
                    Err(e) => return Some(Err(e)),
                };
                let mut st = st;
                if is_zst(t) {
                    return Some(one(st, Val::ptr(consts::DANGLING, vec![], Meta::None)));
                }
                let c = st.alloc(args[0].clone());
                one(st, Val::ptr(c, vec![], Meta::None))
            }
            "std::boxed::Box::new_uninit" | "alloc::boxed::Box::new_uninit" | "alloc::boxed::box_new_uninit" | "std::boxed::box_new_uninit" => {
                let mut st = st;
                let c = st.alloc(Val::Uninit);
                one(st, Val::ptr(c, vec![], Meta::None))
            }
            "std::vec::from_elem" | "alloc::vec::from_elem" => {
                let t = targ(inst, 0).ok()?;
                let simple = int_ty(t).is_some() || t == Ty::bool_ty() || self.plain(&args[0]);
                if !simple || is_zst(t) {
                    return None;
                }
                let Val::Int(len, _) = &args[1] else { return None };
                let mut st = st;
                self.allocation(&mut st, len, "vec![_; n]", t.layout().map(|l| l.shape().size.bytes() as i128).unwrap_or(1));
                let id = st.alloc(Val::Arr(Rc::new(if st.facts.konst(len) == Some(0) {
                    vec![]
                } else {
                    vec![Seg { len: len.clone(), k: SegK::Rep(Rc::new(Rep { id: new_id(), val: args[0].clone(), bound: vec![], facts: vec![] })) }]
                })));
                let Cell::Heap(_) = id else { return None };
                if st.facts.konst(len).map_or(false, |k| k <= 64) {
                    let k = st.facts.konst(len).unwrap();
                    *st.cell_mut(id).unwrap() = Val::elems(vec![args[0].clone(); k as usize]);
                }
                let v = vec_val(id, len.clone());
                one(st, v)
            }
            "log::max_level" => one(st, Val::agg(5, vec![])),
            "log::__private_api::log" | "log::__private_api::log_impl" => one(st, Val::Zst),
            "log::__private_api::loc" => one(st, Val::ptr(consts::DANGLING, vec![], Meta::None)),
            "log::__private_api::enabled" => one(st, Val::Bool(Cond::fresh("log enabled"))),
            "core::slice::memchr::memchr" | "std::slice::memchr::memchr" | "memchr::memchr" | "memchr::memchr::memchr" | "core::slice::memchr::memchr_naive" | "memchr::memchr::memrchr" | "memchr::memrchr" | "core::slice::memchr::memrchr" => {
                let (p, len) = match slice_arg(&args[1]) {
                    Ok(x) => x,
                    Err(e) => return Some(Err(e)),
                };
                let Val::Int(x, _) = &args[0] else { return None };
                self.find(st, &p, &len, x)
            }
            "std::io::Error::kind" | "std::io::error::Error::kind" => match self.read_ref(&st, &args[0], tys[0]) {
                Ok(Val::Int(l, _)) => one(st, Val::Enum(l)),
                Ok(_) => one(st, Val::Enum(Lin::s(fresh("kind", 0, 42)))),
                Err(e) => Err(e),
            },
            "std::io::Error::is_interrupted" | "std::io::error::Error::is_interrupted" => match self.read_ref(&st, &args[0], tys[0]) {
                Ok(Val::Int(l, _)) => one(st, Val::Bool(Cond::eq(&l, &Lin::k(self.kind_index("Interrupted"))))),
                Ok(_) => one(st, Val::Bool(Cond::fresh("interrupted"))),
                Err(e) => Err(e),
            },
            "std::io::Error::from_static_message" | "std::io::error::Error::from_static_message" => match self.read_ref(&st, &args[0], tys[0]) {
                Ok(Val::Agg(_, f)) => match f.iter().find_map(|v| enum_lin(v)) {
                    Some(l) => one(st, Val::Int(l, It::USIZE)),
                    None => one(st, Val::Int(Lin::s(fresh("kind", 0, 42)), It::USIZE)),
                },
                _ => one(st, Val::Int(Lin::s(fresh("kind", 0, 42)), It::USIZE)),
            },
            "std::io::Error::new" | "std::io::error::Error::new" | "std::io::Error::_new" | "<std::io::Error as std::convert::From>::from" | "std::io::Error::new_const" => {
                let l = match (&args[0], enum_lin(&args[0])) {
                    // the conversion of an `io::Error` to itself
                    (Val::Int(l, _), _) if args.len() == 1 && tys[0] == rt => l.clone(),
                    (_, Some(l)) => l,
                    _ => Lin::s(fresh("kind", 0, 42)),
                };
                one(st, Val::Int(l, It::USIZE))
            }
            "std::io::Error::other" | "std::io::error::Error::other" => one(st, Val::Int(Lin::k(self.kind_index("Other")), It::USIZE)),
            "core::str::from_utf8" | "std::str::from_utf8" | "core::str::converts::from_utf8" => {
                let e = var_tys(rt, 1);
                let ascii = |l: &Lin| {
                    let (lo, hi) = st.facts.range(l);
                    lo >= 0 && hi < 128 || decide(&st.facts, &Cond::ge(&Lin::k(127), l)) == Some(true)
                };
                if std::env::var("SA_TEXT").is_ok() {
                    eprintln!("from_utf8 {:?} {:?}", self.texts(&st, &args[0]).ok().map(|t| t.iter().map(|p| p.byte().map(|l| (l.clone(), st.facts.range(l)))).collect::<Vec<_>>()), args[0]);
                }
                let lossless = self.const_str(&st, &args[0]).is_some() || self.texts(&st, &args[0]).map_or(false, |t| t.iter().all(|p| p.byte().map_or(false, ascii)));
                let mut v = vec![ok(args[0].clone())];
                if !lossless {
                    v.push(err(any_of(e)));
                }
                with_alt(st, v)
            }
            "std::string::String::from_utf8" | "alloc::string::String::from_utf8" => {
                let e = var_tys(rt, 1);
                with_alt(st, vec![ok(args[0].clone()), err(any_of(e))])
            }
            // no case distinction where the sign is known
            n if n.ends_with("::abs") && (n.starts_with("core::num::") || n.starts_with("std::num::")) => {
                let Val::Int(l, it) = &args[0] else { return None };
                match (decide(&st.facts, &Cond::ge(l, &Lin::k(0))), decide(&st.facts, &Cond::ge(&Lin::k(0), l))) {
                    (Some(true), _) => one(st, args[0].clone()),
                    (_, Some(true)) if st.facts.range(l).0 > it.range().0 => {
                        let v = Val::Int(l.neg(), *it);
                        one(st, v)
                    }
                    _ => return None,
                }
            }
            "std::fmt::Arguments::as_str" | "std::fmt::Arguments::as_statically_known_str" if self.text() => match &args[0] {
                // `from_str` puts a number where `new` puts the arguments
                Val::Ptr(p) => match read_path(&st, p.cell, &p.path) {
                    Ok(v) => one(st, arguments_str(&v)),
                    Err(e) => Err(e),
                },
                v => one(st, arguments_str(v)),
            },
            "std::fmt::Arguments::estimated_capacity" if self.text() => one(st, Val::usize(Lin::k(16))),
            "core::fmt::write" | "std::fmt::write" if self.text() => return None,
            "std::fmt::format" | "alloc::fmt::format" | "std::fmt::format::format_inner" | "alloc::fmt::format::format_inner" if self.text() && self.mode != "C07" => return None,
            "std::fmt::Formatter::write_fmt" | "std::fmt::Formatter::write_str" | "<std::fmt::Formatter as std::fmt::Write>::write_str" if self.text() => return None,
            "std::fmt::format" | "alloc::fmt::format" | "std::fmt::format::format_inner" | "alloc::fmt::format::format_inner" => {
                let mut st = st;
                match any_vec(&mut st, Ty::unsigned_ty(UintTy::U8), new_id()) {
                    Ok(v) => one(st, v),
                    Err(e) => Err(e),
                }
            }
            "core::fmt::write" | "std::fmt::write" | "std::fmt::Formatter::write_fmt" | "std::fmt::Formatter::write_str" | "<std::fmt::Formatter as std::fmt::Write>::write_str" => one(st, Val::Enum(Lin::s(fresh("fmt result", 0, 1)))),
            // ControlFlow<bool> seen as a number: 0 and 1 for Break, anything else for Continue
            "core::slice::cmp::as_underlying" => match &args[0] {
                Val::Agg(1, f) => match f.first() {
                    Some(Val::Bool(c)) => match need(&st.facts, c.clone()) {
                        Ok(b) => one(st, Val::Int(Lin::k(b as i128), It::U8)),
                        Err(e) => Err(e),
                    },
                    _ => return None,
                },
                Val::Agg(0, _) => one(st, Val::Int(Lin::k(2), It::U8)),
                _ => return None,
            },
            "std::ptr::const_ptr::is_null" | "std::ptr::mut_ptr::is_null" => one(st, Val::bool(false)),
            "std::mem::drop" | "std::mem::forget" | "core::mem::drop" | "core::mem::forget" => one(st, Val::Zst),
            _ => {
                if n.starts_with("std::thread::") || n.starts_with("std::backtrace::") {
                    return Some(uns(format!("model {n}")));
                }
                return None;
            }
        })
    }
    fn plain(&self, v: &Val) -> bool {
        match v {
            Val::Int(..) | Val::Bool(_) | Val::Float(_) | Val::Zst | Val::Enum(_) => true,
            Val::Agg(_, f) => f.iter().all(|x| self.plain(x)),
            Val::Arr(s) => s.iter().all(|s| match &s.k {
                SegK::Elems(v) => v.iter().all(|x| self.plain(x)),
                _ => false,
            }),
            _ => false,
        }
    }
    fn read_ref(&self, st: &State, v: &Val, t: Ty) -> R<Val> {
        let p = pointee(t).ok_or(Stop::Unsupported("reference".into()))?;
        read(st, &deref(v, p)?)
    }
    pub fn kind_index(&self, k: &str) -> i128 {
        // std::io::ErrorKind in declaration order
        const KINDS: &[&str] = &[
            "NotFound", "PermissionDenied", "ConnectionRefused", "ConnectionReset", "HostUnreachable", "NetworkUnreachable", "ConnectionAborted", "NotConnected", "AddrInUse", "AddrNotAvailable", "NetworkDown", "BrokenPipe",
            "AlreadyExists", "WouldBlock", "NotADirectory", "IsADirectory", "DirectoryNotEmpty", "ReadOnlyFilesystem", "FilesystemLoop", "StaleNetworkFileHandle", "InvalidInput", "InvalidData", "TimedOut", "WriteZero",
            "StorageFull", "NotSeekable", "QuotaExceeded", "FileTooLarge", "ResourceBusy", "ExecutableFileBusy", "Deadlock", "CrossesDevices", "TooManyLinks", "InvalidFilename", "ArgumentListTooLong", "Interrupted", "Unsupported",
            "UnexpectedEof", "OutOfMemory", "InProgress", "Other", "Uncategorized",
        ];
        KINDS.iter().position(|x| *x == k).unwrap_or(0) as i128
    }
    /// First position of a byte.
    fn find(&mut self, st: State, p: &Ptr, len: &Lin, x: &Lin) -> Rets {
        let mut out = vec![(st.clone(), none())];
        let mut s = st;
        let i = fresh("found", 0, MAXLEN);
        if assume(&mut s.facts, &Cond::ge(len, &Lin::s(i).addk(1))) {
            let mut path = p.path.clone();
            advance(&mut path, &Lin::s(i));
            if let Ok(Val::Int(b, _)) = read_path(&s, p.cell, &path) {
                if !assume(&mut s.facts, &Cond::eq(&b, x)) {
                    return Ok(out);
                }
            }
            if !s.facts.infeasible() {
                out.push((s, some(Val::usize(Lin::s(i)))));
            }
        }
        Ok(out)
    }
    /// A request for memory for `n` elements of `size` bytes.
    pub fn allocation(&mut self, st: &mut State, n: &Lin, what: &str, size: i128) {
        if self.alloc_log {
            self.allocs.insert(format!("{what} @ {}", self.where_()));
            if decide(&st.facts, &Cond::ge(&Lin::k(16 << 20), &n.scale(size))) != Some(true) {
                let (_, hi) = st.facts.range(n);
                self.report("alloc", &format!("{what} asks for more than 16 MiB: up to {hi} x {size} bytes"), false);
            }
        }
        let _ = assume(&mut st.facts, &Cond::ge(&Lin::k(MAXLEN), n));
    }
    fn raw_vec_fn(&mut self, m: &str, args: &[Val], st0: &State, rt: Ty) -> Option<Rets> {
        let mut st = st0.clone();
        let elem = args.iter().find_map(|a| match a {
            Val::Agg(_, f) => match f.first() {
                Some(Val::Int(l, _)) => st0.facts.konst(l),
                _ => None,
            },
            _ => None,
        });
        let elem = elem.unwrap_or(1);
        Some(match m {
            "with_capacity_in" | "with_capacity_zeroed_in" | "try_with_capacity_in" | "try_allocate_in" => {
                let Val::Int(n, _) = &args[0] else { return None };
                let zero = m == "with_capacity_zeroed_in";
                // too large a request panics
                let c = Cond::ge(&Lin::k(MAXLEN), n);
                if !m.starts_with("try") && decide(&st.facts, &c) != Some(true) {
                    self.report("panic", "possible panic: capacity overflow", false);
                }
                if !assume(&mut st.facts, &c) {
                    return Some(Ok(vec![]));
                }
                self.allocation(&mut st, n, "a vector of given capacity", elem);
                let content = if zero && st.facts.konst(n) != Some(0) {
                    vec![Seg { len: n.clone(), k: SegK::Rep(Rc::new(Rep { id: new_id(), val: Val::Int(Lin::k(0), It::U8), bound: vec![], facts: vec![] })) }]
                } else {
                    vec![]
                };
                let c = st.alloc(Val::Arr(Rc::new(content)));
                let v = raw_vec(c);
                one(st, if m.starts_with("try") { ok(v) } else { v })
            }
            "new_in" => {
                let c = st.alloc(Val::Arr(Rc::new(vec![])));
                one(st, raw_vec(c))
            }
            "grow_one" | "reserve" | "reserve_exact" | "try_reserve" | "try_reserve_exact" | "grow_amortized" | "grow_exact" => {
                let Val::Ptr(p) = &args[0] else { return None };
                if args.len() > 3 {
                    if let (Val::Int(l, _), Val::Int(a, _)) = (&args[1], &args[2]) {
                        let c = Cond::ge(&Lin::k(MAXLEN), &l.add(a));
                        let (_, hi) = st.facts.range(a);
                        if hi > MAXLEN && !m.starts_with("try") {
                            self.report("panic", "possible panic: capacity overflow", false);
                        }
                        let a2 = a.clone();
                        if !assume(&mut st.facts, &c) {
                            return Some(Ok(vec![]));
                        }
                        // growing doubles the capacity
                        let l2 = l.add(&a2);
                        self.allocation(&mut st, &if m.ends_with("exact") { l2 } else { l2.scale(2) }, "a growing vector", elem);
                    }
                }
                let mut path = p.path.clone();
                path.push(Step::Field(0));
                if m == "grow_one" && self.alloc_log {
                    // the length stands beside the buffer
                    let mut v = p.path.clone();
                    let len = v.pop().and_then(|_| {
                        v.push(Step::Field(1));
                        read_path(&st, p.cell, &v).ok()
                    });
                    match len {
                        Some(Val::Int(l, _)) => self.allocation(&mut st, &l.addk(1).scale(2), "a vector that grows by one", elem),
                        _ => self.fail("growth of what is no vector"),
                    }
                }
                match read_path(&st, p.cell, &path) {
                    Ok(Val::Ptr(q)) if q.cell == consts::DANGLING => {
                        let c = st.alloc(Val::Arr(Rc::new(vec![])));
                        if let Err(e) = write_path(&mut st, p.cell, &p.path, raw_vec(c), None) {
                            return Some(Err(e));
                        }
                    }
                    Ok(_) => {}
                    Err(e) => return Some(Err(e)),
                }
                one(st, if is_zst(rt) { Val::Zst } else if is_enum(rt) { ok_unit(rt) } else { Val::Zst })
            }
            "shrink_to_fit" | "shrink" | "shrink_unchecked" | "try_shrink_to_fit" => one(st, if is_zst(rt) { Val::Zst } else { ok_unit(rt) }),
            "deallocate" => one(st, Val::Zst),
            "capacity" => {
                let Val::Ptr(p) = &args[0] else { return None };
                let mut path = p.path.clone();
                path.push(Step::Field(1));
                match read_path(&st, p.cell, &path) {
                    Ok(v) => one(st, v),
                    Err(e) => Err(e),
                }
            }
            "needs_to_grow" => {
                let Val::Ptr(p) = &args[0] else { return None };
                let mut path = p.path.clone();
                path.push(Step::Field(0));
                match read_path(&st, p.cell, &path) {
                    Ok(Val::Ptr(q)) => one(st, Val::bool(q.cell == consts::DANGLING)),
                    Ok(_) => return None,
                    Err(e) => Err(e),
                }
            }
            _ => return None,
        })
    }
    /// What the contracts in roots/src/model.rs are made of.
    /// Formatted texts matter.
    fn text(&self) -> bool {
        TEXT.contains(&self.mode.as_str())
    }
    /// The bytes a slice or string refers to; those of short pieces one by one.
    pub fn texts(&self, st: &State, v: &Val) -> R<Vec<Piece>> {
        let Val::Ptr(p) = v else { return uns("text") };
        let (Some(Step::Index(o)), Meta::Len(n)) = (p.path.last(), &p.meta) else { return uns("text") };
        let few = match st.facts.konst(n) {
            None => (0..8).map(Lin::k).find(|k| decide(&st.facts, &Cond::eq(n, k)) == Some(true)),
            _ => None,
        };
        let n = few.as_ref().unwrap_or(n);
        let segs = if st.facts.konst(n) == Some(0) {
            vec![]
        } else {
            let Val::Arr(a) = read_path(st, p.cell, &p.path[..p.path.len() - 1])? else { return uns("text") };
            arr_slice(&st.facts, &a, o, n)?
        };
        let mut out = vec![];
        for s in segs {
            match st.facts.konst(&s.len) {
                Some(n) if n <= 4096 => {
                    for i in 0..n {
                        match crate::mem::seg_get(&s, &Lin::k(i)) {
                            Some(Val::Int(l, _)) => out.push(Piece::Byte(st.facts.fold(&l))),
                            _ => return uns("text"),
                        }
                    }
                }
                _ => match &s.k {
                    SegK::Bytes { buf, base } => out.push(Piece::Part(*buf, base.clone(), s.len.clone())),
                    _ => return uns("text of unknown bytes"),
                },
            }
        }
        Ok(out)
    }
    fn world(&mut self, m: &str, args: &[Val], tys: &[Ty], st0: &State, _rt: Ty) -> Option<Rets> {
        let mut st = st0.clone();
        let slot = |p: &Val| match p {
            Val::Ptr(p) => Some((p.cell, p.path.clone())),
            _ => None,
        };
        Some(match m {
            "mark_failed" => {
                st.failed = true;
                one(st, Val::Zst)
            }
            "has_failed" => {
                let v = Val::Bool(if st.failed { Cond::T } else { Cond::F });
                one(st, v)
            }
            "env" => {
                let root = self.chain.first()?.inst;
                let fi = self.info(root)?;
                let k = fi.body.locals().iter().enumerate().position(|(i, l)| adt_name(l.ty).ends_with("model::Env") && !matches!(st.frames[0].locals[i], Val::Uninit));
                match k {
                    Some(k) => one(st, some(Val::ptr(Cell::Local(0, k as u16), vec![], Meta::None))),
                    None => one(st, none()),
                }
            }
            // the decimal digits of a number: one unknown text per value
            "decimal" => {
                let (Val::Int(v, _), Some(b)) = (&args[0], Some(())) else { return None };
                let _ = b;
                let v = st.facts.fold(v);
                let known: Vec<(Lin, u32)> = DECIMAL.with(|d| d.borrow().clone());
                let id = match known.iter().find(|(x, _)| *x == v || decide(&st.facts, &Cond::eq(x, &v)) == Some(true)) {
                    Some((_, id)) => *id,
                    None => {
                        let id = new_id();
                        DECIMAL.with(|d| d.borrow_mut().push((v, id)));
                        id
                    }
                };
                let n = len_sym(id);
                if !assume(&mut st.facts, &Cond::ge(&n, &Lin::k(1))) || !assume(&mut st.facts, &Cond::ge(&Lin::k(20), &n)) {
                    return Some(Err(Stop::Infeasible));
                }
                let c = st.alloc(Val::Arr(Rc::new(vec![Seg { len: n.clone(), k: SegK::Bytes { buf: id, base: Lin::k(0) } }])));
                one(st, Val::ptr(c, vec![Step::Index(Lin::k(0))], Meta::Len(n)))
            }
            "same_text" => match self.texts(&st, &args[0]).and_then(|a| Ok((a, self.texts(&st, &args[1])?))).and_then(|(a, b)| same_text(&st.facts, &a, &b)) {
                Ok(c) => one(st, Val::Bool(c)),
                Err(e) => Err(e),
            },
            "same_each_time" => {
                let t = pointee(*tys.first()?)?;
                if let TyKind::RigidTy(RigidTy::Closure(_, a)) = t.kind() {
                    let up = a.0.iter().rev().find_map(|x| if let GenericArgKind::Type(t) = x { Some(*t) } else { None });
                    if let Some(TyKind::RigidTy(RigidTy::Tuple(v))) = up.map(|t| t.kind()) {
                        if !v.iter().any(|t| matches!(t.kind(), TyKind::RigidTy(RigidTy::Ref(_, _, Mutability::Mut)))) {
                            return Some(one(st, Val::Zst));
                        }
                    }
                }
                uns("a closure with a state makes the pixels")
            }
            "put" => {
                let (c, path) = slot(&args[0])?;
                match write_path(&mut st, c, &path, args[1].clone(), None) {
                    Ok(()) => one(st, Val::Zst),
                    Err(e) => Err(e),
                }
            }
            "got" => {
                let (c, path) = slot(&args[0])?;
                match read_path(&st, c, &path) {
                    Ok(v) => one(st, v),
                    Err(e) => Err(e),
                }
            }
            _ => return None,
        })
    }
    fn marker(&mut self, m: &str, inst: Instance, args: &[Val], st0: &State, rt: Ty) -> Option<Rets> {
        let mut st = st0.clone();
        Some(match m {
            "any" => {
                let v = any_of(targ(inst, 0).ok()?);
                let v = if matches!(v, Val::Zst) { v } else { crate::place::expand_deep(&mut st, v, 8) };
                one(st, v)
            }
            "any_bytes" => {
                let id = new_id();
                let c = st.alloc(any_seq(Ty::unsigned_ty(UintTy::U8), id));
                one(st, Val::ptr(c, vec![Step::Index(Lin::k(0))], Meta::Len(len_sym(id))))
            }
            "any_vec_below" => {
                let (Val::Int(n, _), Val::Int(m, _)) = (&args[0], &args[1]) else { return None };
                let b = fresh("e", 0, m.as_const()?);
                let k = SegK::Rep(Rc::new(Rep { id: new_id(), val: Val::Int(Lin::s(b), It::U8), bound: vec![b], facts: vec![] }));
                let c = st.alloc(Val::Arr(Rc::new(vec![Seg { len: n.clone(), k }])));
                one(st, vec_val(c, n.clone()))
            }
            "unknown" => {
                let what = self.const_str(&st, &args[0]).unwrap_or_default();
                uns(what)
            }
            "assume" => {
                let Val::Bool(c) = &args[0] else { return Some(uns("assume")) };
                // alternatives are split by the branch that computed them
                match need(&st.facts, c.clone()) {
                    Ok(true) => one(st, Val::Zst),
                    Ok(false) => Err(Stop::Infeasible),
                    Err(e) => Err(e),
                }
            }
            "check" => {
                let what = self.const_str(&st, &args[1]).unwrap_or_default();
                let Val::Bool(c) = &args[0] else {
                    self.checks.entry(what.clone()).or_default().1 += 1;
                    *self.unsupported.entry(format!("condition of `{what}` is unknown")).or_default() += 1;
                    return Some(one(st, Val::Zst));
                };
                let e = self.checks.entry(what.clone()).or_default();
                if decide(&st.facts, c) == Some(true) {
                    e.0 += 1;
                    return Some(one(st, Val::Zst));
                }
                if let (None, Cond::Or(p)) = (decide(&st.facts, c), c) {
                    if decide(&st.facts, &p.0).is_none() {
                        return Some(Err(Stop::Fork(p.0.clone())));
                    }
                }
                e.1 += 1;
                if self.trace > 0 {
                    eprintln!("check `{what}` fails: {c:?}\n  facts {}", show_facts(&st.facts));
                }
                let vague = self.vague(c) || !self.unsupported.is_empty();
                self.reps.push(Rep1 { kind: "check", key: format!("check: {what}"), text: what, vague });
                if !assume(&mut st.facts, c) {
                    return Some(Ok(vec![]));
                }
                one(st, Val::Zst)
            }
            _ => return None,
        })
        .map(|r| {
            let _ = rt;
            r
        })
    }
}
fn ok_unit(t: Ty) -> Val {
    // Result<(), E>
    let _ = t;
    Val::agg(0, vec![Val::Zst])
}
pub fn enum_lin(v: &Val) -> Option<Lin> {
    match v {
        Val::Enum(l) => Some(l.clone()),
        Val::Agg(k, f) if *k != ST && f.is_empty() => Some(Lin::k(*k as i128)),
        _ => None,
    }
}
