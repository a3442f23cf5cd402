//! Arithmetic, comparisons and casts on abstract values.
use crate::lin::*;
use crate::mem::*;
use crate::place::{short, wrap};
use crate::val::*;
use rustc_public::mir::BinOp;
use std::rc::Rc;

fn fits(l: &Lin, it: It) -> Cond {
    let (lo, hi) = it.range();
    Cond::and(Cond::ge(l, &Lin::k(lo)), Cond::ge(&Lin::k(hi), l))
}
/// Condition without the parts that are known.
pub fn simp(f: &Facts, c: Cond) -> Cond {
    match &c {
        Cond::And(p) => Cond::and(simp(f, p.0.clone()), simp(f, p.1.clone())),
        Cond::Or(p) => Cond::or(simp(f, p.0.clone()), simp(f, p.1.clone())),
        _ => match decide(f, &c) {
            Some(true) => Cond::T,
            Some(false) => Cond::F,
            None => c,
        },
    }
}
/// In-range value, deciding on which side it wraps.
pub fn wrap_fork(f: &Facts, l: &Lin, it: It) -> R<Lin> {
    let (lo, hi) = it.range();
    if it.bits >= 120 {
        return Ok(l.clone());
    }
    let m = 1i128 << it.bits;
    if !need(f, Cond::ge(&Lin::k(hi), l))? {
        let w = l.addk(-m);
        if f.implies_ge(&Lin::k(hi).sub(&w)) {
            return Ok(w);
        }
        return Ok(wrap(f, l, it));
    }
    if !need(f, Cond::ge(l, &Lin::k(lo)))? {
        let w = l.addk(m);
        if f.implies_ge(&w.addk(-lo)) {
            return Ok(w);
        }
        return Ok(wrap(f, l, it));
    }
    Ok(l.clone())
}

/// x & mask for a non-negative constant mask.
pub fn and_const(f: &Facts, x: &Lin, mask: i128) -> Lin {
    let mut r = Lin::k(0);
    let mut m = mask;
    let mut pos = 0;
    while m > 0 {
        let z = m.trailing_zeros() as i128;
        pos += z;
        m >>= z;
        let o = (!m).trailing_zeros() as i128;
        // bits pos .. pos+o
        let d = f.div_const(x, 1 << pos);
        let b = f.mod_const(&d, 1 << o);
        r = r.add(&b.scale(1 << pos));
        m >>= o;
        pos += o;
    }
    r
}
fn pow2(l: &Lin) -> i128 {
    // largest power of two dividing every coefficient
    let mut g = l.c;
    for (_, a) in &l.t {
        g = gcd(g, *a);
    }
    if g == 0 {
        return 1 << 100;
    }
    g & -g
}
fn bit_and(f: &mut Facts, a: &Lin, b: &Lin) -> Lin {
    match (a.as_const(), b.as_const()) {
        (Some(x), Some(y)) => Lin::k(x & y),
        (_, Some(m)) if m >= 0 => and_const(f, a, m),
        (_, Some(m)) => a.sub(&and_const(f, a, !m)),
        (Some(_), None) => bit_and(f, b, a),
        _ => {
            if a == b {
                return a.clone();
            }
            let (al, ah) = f.range(a);
            let (bl, bh) = f.range(b);
            // disjoint fields
            if al >= 0 && bl >= 0 && (ah < pow2(b) || bh < pow2(a)) {
                return Lin::k(0);
            }
            let (a, b) = if a <= b { (a, b) } else { (b, a) };
            let r = Lin::s(op_sym("and", vec![a.clone(), b.clone()], 0, 0));
            if al >= 0 || bl >= 0 {
                f.add_ge(&r);
            }
            if al >= 0 {
                f.add_ge(&if a == b { Lin::k(0) } else { a.sub(&r) });
            }
            if bl >= 0 {
                f.add_ge(&b.sub(&r));
            }
            r
        }
    }
}
fn bit_or(f: &mut Facts, a: &Lin, b: &Lin) -> Lin {
    let (al, ah) = f.range(a);
    let (bl, bh) = f.range(b);
    if al >= 0 && bl >= 0 && (ah < pow2(b) || bh < pow2(a)) {
        return a.add(b);
    }
    if a == b {
        return a.clone();
    }
    if a.as_const().is_some() || b.as_const().is_some() {
        let x = bit_and(f, a, b);
        return a.add(b).sub(&x);
    }
    let x = bit_and(f, a, b);
    a.add(b).sub(&x)
}
fn bit_xor(f: &mut Facts, a: &Lin, b: &Lin) -> Lin {
    let x = bit_and(f, a, b);
    a.add(b).sub(&x.scale(2))
}

/// Quotient (towards zero) and remainder.
pub fn div_rem(f: &mut Facts, a: &Lin, b: &Lin, it: It) -> R<(Lin, Lin)> {
    if let Some(0) = f.konst(b) {
        return Err(Stop::Infeasible);
    }
    if let Some(k) = f.konst(b) {
        if k > 0 {
            if !it.signed || need(f, Cond::ge(a, &Lin::k(0)))? {
                let q = f.div_const(a, k);
                let r = a.sub(&q.scale(k));
                let m = f.mod_const(a, k);
                return Ok((q, if m.t.len() <= r.t.len() { m } else { r }));
            }
            let n = a.neg();
            return Ok((f.div_const(&n, k).neg(), f.mod_const(&n, k).neg()));
        }
        if k == i128::MIN {
            return uns("division");
        }
        let (q, r) = div_rem(f, a, &Lin::k(-k), it)?;
        return Ok((q.neg(), r));
    }
    if it.signed {
        if !need(f, Cond::ge(b, &Lin::k(1)))? {
            if need(f, Cond::eq(b, &Lin::k(0)))? {
                return Err(Stop::Infeasible);
            }
            let (q, r) = div_rem(f, a, &b.neg(), it)?;
            return Ok((q.neg(), r));
        }
        if !need(f, Cond::ge(a, &Lin::k(0)))? {
            let (q, r) = div_rem(f, &a.neg(), b, it)?;
            return Ok((q.neg(), r.neg()));
        }
    }
    let q = Lin::s(op_sym("div", vec![a.clone(), b.clone()], 0, 0));
    let r = Lin::s(op_sym("rem", vec![a.clone(), b.clone()], 0, 0));
    f.add_ge(&q);
    f.add_ge(&r);
    let e = q.mul(b).add(&r).sub(a);
    f.add_ge(&e);
    f.add_ge(&e.neg());
    f.add_ge(&b.sub(&r).addk(-1));
    f.add_ge(&a.sub(&r));
    f.add_ge(&a.sub(&q));
    Ok((q, r))
}

pub fn as_int(st: &State, v: &Val) -> R<(Lin, It)> {
    match v {
        Val::Int(l, it) => Ok((l.clone(), *it)),
        Val::Bool(c) => match c.as_bit() {
            Some(l) => Ok((l, It::U8)),
            None => match decide(&st.facts, c) {
                Some(b) => Ok((Lin::k(b as i128), It::U8)),
                None => Err(Stop::Fork(c.clone())),
            },
        },
        v => uns(format!("integer expected: {}", short(v))),
    }
}

pub fn int_op(st: &mut State, op: BinOp, a: &Lin, b: &Lin, it: It) -> R<Lin> {
    let f = &mut st.facts;
    use BinOp::*;
    Ok(match op {
        Add => wrap_fork(f, &a.add(b), it)?,
        Sub => wrap_fork(f, &a.sub(b), it)?,
        AddUnchecked => a.add(b),
        SubUnchecked => a.sub(b),
        MulUnchecked => a.mul(b),
        Mul => {
            let m = a.mul(b);
            if decide(f, &fits(&m, it)) == Some(true) {
                m
            } else {
                wrap(f, &m, it)
            }
        }
        Div => div_rem(f, a, b, it)?.0,
        Rem => div_rem(f, a, b, it)?.1,
        BitAnd => bit_and(f, a, b),
        BitOr => bit_or(f, a, b),
        BitXor => bit_xor(f, a, b),
        Shl | ShlUnchecked => {
            let k = shift(f, b, it)?;
            let m = a.scale(1i128 << k);
            if decide(f, &fits(&m, it)) == Some(true) {
                m
            } else {
                wrap(f, &m, it)
            }
        }
        Shr | ShrUnchecked => {
            let k = shift(f, b, it)?;
            f.div_const(a, 1i128 << k)
        }
        _ => return uns(format!("{op:?}")),
    })
}
fn shift(f: &Facts, b: &Lin, it: It) -> R<i128> {
    match f.konst(b) {
        Some(k) => {
            let k = k.rem_euclid(it.bits as i128);
            if k > 100 {
                return uns("wide shift");
            }
            Ok(k)
        }
        None => {
            let (lo, hi) = f.range(b);
            if hi - lo > 64 {
                let m = f.mod_const(b, it.bits as i128);
                if m != *b {
                    return shift(f, &m, it);
                }
                return uns("unbounded shift");
            }
            Err(Stop::Fork(Cond::eq(b, &Lin::k(lo))))
        }
    }
}

pub fn cmp_cond(op: BinOp, a: &Lin, b: &Lin) -> Option<Cond> {
    use BinOp::*;
    Some(match op {
        Eq => Cond::eq(a, b),
        Ne => Cond::eq(a, b).not(),
        Lt => Cond::ge(b, &a.addk(1)),
        Le => Cond::ge(b, a),
        Gt => Cond::ge(a, &b.addk(1)),
        Ge => Cond::ge(a, b),
        _ => return None,
    })
}
fn ptr_index(p: &Ptr, n: usize) -> Option<Lin> {
    if p.path.len() == n {
        return Some(Lin::k(0));
    }
    if p.path.len() == n + 1 {
        if let Some(Step::Index(l) | Step::Window(l)) = p.path.last() {
            return Some(l.clone());
        }
    }
    None
}
/// Offsets of two pointers into the same object.
pub fn ptr_pair(f: &Facts, a: &Ptr, b: &Ptr) -> Option<(Lin, Lin)> {
    if a.cell != b.cell {
        return None;
    }
    let strip = |p: &Ptr| match p.path.last() {
        Some(Step::Index(_) | Step::Window(_)) => p.path.len() - 1,
        _ => p.path.len(),
    };
    for n in [strip(a), strip(b)] {
        if n <= a.path.len() && n <= b.path.len() {
            let same = a.path[..n].iter().zip(&b.path[..n]).all(|(x, y)| match (x, y) {
                (Step::Field(i), Step::Field(j)) => i == j,
                (Step::Index(i), Step::Index(j)) | (Step::Window(i), Step::Window(j)) => f.implies_eq(&i.sub(j)),
                _ => false,
            });
            if same {
                if let (Some(x), Some(y)) = (ptr_index(a, n), ptr_index(b, n)) {
                    return Some((x, y));
                }
            }
        }
    }
    None
}

pub fn bin(st: &mut State, op: BinOp, a: &Val, b: &Val) -> R<Val> {
    use BinOp::*;
    match (a, b) {
        (Val::Int(x, it), Val::Int(y, _)) => {
            if let Some(c) = cmp_cond(op, x, y) {
                return Ok(Val::Bool(c));
            }
            if op == Cmp {
                return three_way(&st.facts, x, y);
            }
            Ok(Val::Int(int_op(st, op, x, y, *it)?, *it))
        }
        (Val::Bool(x), Val::Bool(y)) => match op {
            BitAnd => Ok(Val::Bool(Cond::and(x.clone(), y.clone()))),
            BitOr => Ok(Val::Bool(Cond::or(x.clone(), y.clone()))),
            BitXor | Ne | Eq => {
                let xor = Cond::or(Cond::and(x.clone(), y.not()), Cond::and(x.not(), y.clone()));
                Ok(Val::Bool(if op == Eq { xor.not() } else { xor }))
            }
            _ => {
                let (x, _) = as_int(st, a)?;
                let (y, _) = as_int(st, b)?;
                match cmp_cond(op, &x, &y) {
                    Some(c) => Ok(Val::Bool(c)),
                    None if op == Cmp => three_way(&st.facts, &x, &y),
                    None => uns("bool operation"),
                }
            }
        },
        (Val::Float(x), Val::Float(y)) => {
            let c = |o: &str, x: &Fl, y: &Fl, neg: bool| {
                Val::Bool(match crate::float::cmp(o, x, y) {
                    Some(b) => {
                        if b != neg {
                            Cond::T
                        } else {
                            Cond::F
                        }
                    }
                    None => fl_cond(o, x, y, neg),
                })
            };
            Ok(match op {
                Add => Val::Float(crate::float::bin('+', x, y)),
                Sub => Val::Float(crate::float::bin('-', x, y)),
                Mul => Val::Float(crate::float::bin('*', x, y)),
                Div => Val::Float(crate::float::bin('/', x, y)),
                Eq => c("eq", x, y, false),
                Ne => c("eq", x, y, true),
                Lt => c("lt", x, y, false),
                Le => c("le", x, y, false),
                Gt => c("lt", y, x, false),
                Ge => c("le", y, x, false),
                Rem => Val::Float(crate::float::any()),
                _ => return uns("float operation"),
            })
        }
        (Val::Ptr(p), Val::Int(n, _)) if op == Offset => {
            let mut q = (**p).clone();
            crate::place::advance(&mut q.path, n);
            Ok(Val::Ptr(Rc::new(q)))
        }
        (Val::Ptr(p), Val::Ptr(q)) => {
            if let Some((x, y)) = ptr_pair(&st.facts, p, q) {
                if op == Cmp {
                    return three_way(&st.facts, &x, &y);
                }
                let mut c = cmp_cond(op, &x, &y).ok_or(Stop::Unsupported("pointer operation".into()))?;
                if let (Meta::Len(m), Meta::Len(n), Eq) = (&p.meta, &q.meta, op) {
                    c = Cond::and(c, Cond::eq(m, n));
                }
                return Ok(Val::Bool(c));
            }
            match op {
                Eq if p.cell != q.cell => Ok(Val::bool(false)),
                Ne if p.cell != q.cell => Ok(Val::bool(true)),
                Eq | Ne => Ok(Val::bool(op == Ne)),
                _ => uns("pointers to different objects"),
            }
        }
        (Val::Ptr(_) | Val::Fn(_), Val::Int(..)) | (Val::Int(..), Val::Ptr(_) | Val::Fn(_)) => match op {
            Eq => Ok(Val::bool(false)),
            Ne => Ok(Val::bool(true)),
            _ => uns("pointer and address"),
        },
        (Val::Enum(_) | Val::Agg(..), Val::Enum(_) | Val::Agg(..)) => {
            let l = |v: &Val| match v {
                Val::Enum(l) => Some(l.clone()),
                Val::Agg(k, f) if f.is_empty() => Some(Lin::k(*k as i128)),
                _ => None,
            };
            match (l(a), l(b)) {
                (Some(x), Some(y)) => cmp_cond(op, &x, &y).map(Val::Bool).ok_or(Stop::Unsupported("enum operation".into())),
                _ => uns("enum operation"),
            }
        }
        (Val::Zst, Val::Zst) => match op {
            Eq => Ok(Val::bool(true)),
            _ => uns("unit operation"),
        },
        _ => uns(format!("{op:?} of {} and {}", short(a), short(b))),
    }
}
/// Undecided comparison of floats: exact forms over integers are compared exactly
/// when no rounding is possible; otherwise an unknown truth value.
fn fl_cond(_o: &str, _x: &Fl, _y: &Fl, _neg: bool) -> Cond {
    Cond::fresh("float comparison")
}
pub fn three_way(f: &Facts, x: &Lin, y: &Lin) -> R<Val> {
    // Ordering: Less, Equal, Greater
    let d = x.sub(y);
    if need(f, Cond::ge(&d, &Lin::k(0)))? {
        if need(f, Cond::ge(&Lin::k(0), &d))? {
            Ok(Val::agg(1, vec![]))
        } else {
            Ok(Val::agg(2, vec![]))
        }
    } else {
        Ok(Val::agg(0, vec![]))
    }
}
pub fn checked(st: &mut State, op: BinOp, a: &Val, b: &Val) -> R<Val> {
    let (x, it) = as_int(st, a)?;
    let (y, _) = as_int(st, b)?;
    let l = match op {
        BinOp::Add => x.add(&y),
        BinOp::Sub => x.sub(&y),
        BinOp::Mul => x.mul(&y),
        BinOp::Shl | BinOp::Shr => {
            let c = Cond::and(Cond::ge(&y, &Lin::k(0)), Cond::ge(&Lin::k(it.bits as i128 - 1), &y));
            if decide(&st.facts, &c) == Some(true) {
                let v = int_op(st, op, &x, &y, it)?;
                return Ok(Val::tup(vec![Val::Int(v, it), Val::bool(false)]));
            }
            return Ok(Val::tup(vec![Val::Int(Lin::s(fresh("shifted", it.range().0, it.range().1)), it), Val::Bool(c.not())]));
        }
        _ => return uns("checked operation"),
    };
    let ok = simp(&st.facts, fits(&l, it));
    Ok(Val::tup(vec![Val::Int(l, it), Val::Bool(ok.not())]))
}

pub fn int_cast(st: &mut State, l: &Lin, it: It) -> Lin {
    let (lo, hi) = it.range();
    let (a, b) = st.facts.range(l);
    if a >= lo && b <= hi {
        return l.clone();
    }
    if st.facts.implies_ge(&l.addk(-lo)) && st.facts.implies_ge(&Lin::k(hi).sub(l)) {
        return l.clone();
    }
    wrap(&st.facts, l, it)
}
