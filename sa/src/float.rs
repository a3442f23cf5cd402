//! Floating-point values: intervals plus the exact rational they approximate.
use crate::lin::*;
use crate::val::*;
use std::rc::Rc;

type Q = (i128, i128);
fn norm(q: Q) -> Q {
    let g = gcd(q.0, q.1).max(1);
    let s = if q.1 < 0 { -1 } else { 1 };
    (s * q.0 / g, s * q.1 / g)
}
fn qadd(a: Q, b: Q) -> Option<Q> {
    Some(norm((a.0.checked_mul(b.1)?.checked_add(b.0.checked_mul(a.1)?)?, a.1.checked_mul(b.1)?)))
}
fn qmul(a: Q, b: Q) -> Option<Q> {
    Some(norm((a.0.checked_mul(b.0)?, a.1.checked_mul(b.1)?)))
}
pub fn konst(x: f64) -> Fl {
    let mut form = None;
    if x.is_finite() && x.abs() < 1e15 {
        for d in [1i128, 2, 4, 8, 16, 1024, 1 << 20, 1 << 30] {
            let y = x * d as f64;
            if y.fract() == 0.0 && y.abs() < 1e17 {
                form = Some(Rc::new(FForm { c: norm((y as i128, d)), t: vec![] }));
                break;
            }
        }
        if form.is_none() {
            // decimal fractions
            for d in [10i128, 100, 1000, 10000, 100000, 1000000] {
                let y = (x * d as f64).round();
                if (y / d as f64) == x && y.abs() < 1e12 {
                    form = Some(Rc::new(FForm { c: norm((y as i128, d)), t: vec![] }));
                    break;
                }
            }
        }
    }
    Fl { lo: x, hi: x, nan: x.is_nan(), form, expr: Some(Rc::new((format!("{:x}", x.to_bits()), vec![]))) }
}
pub fn any() -> Fl {
    Fl { lo: f64::NEG_INFINITY, hi: f64::INFINITY, nan: true, form: None, expr: None }
}
pub fn from_int(f: &Facts, l: &Lin) -> Fl {
    let (lo, hi) = f.range(l);
    if lo == hi {
        let x = lo as f64;
        return Fl { lo: x, hi: x, nan: false, form: Some(Rc::new(FForm { c: (lo, 1), t: vec![] })), expr: Some(Rc::new((format!("{:x}", x.to_bits()), vec![]))) };
    }
    let form = FForm { c: (l.c, 1), t: l.t.iter().map(|&(s, a)| (s, (a, 1))).collect() };
    Fl { lo: down(lo as f64), hi: up(hi as f64), nan: false, form: Some(Rc::new(form)), expr: Some(Rc::new(("#".into(), vec![l.clone()]))) }
}
fn down(x: f64) -> f64 {
    if x == 0.0 || !x.is_finite() || x.fract() == 0.0 && x.abs() < 9e15 { x } else { x - x.abs() * 1e-15 }
}
fn up(x: f64) -> f64 {
    if x == 0.0 || !x.is_finite() || x.fract() == 0.0 && x.abs() < 9e15 { x } else { x + x.abs() * 1e-15 }
}
fn comb(a: &FForm, b: &FForm, kb: i128) -> Option<FForm> {
    let kb = (kb, 1);
    let mut t = a.t.clone();
    for (s, q) in &b.t {
        let q = qmul(*q, kb)?;
        match t.iter_mut().find(|x| x.0 == *s) {
            Some(x) => x.1 = qadd(x.1, q)?,
            None => t.push((*s, q)),
        }
    }
    t.retain(|x| x.1 .0 != 0);
    t.sort();
    Some(FForm { c: qadd(a.c, qmul(b.c, kb)?)?, t })
}
fn scale(a: &FForm, k: Q) -> Option<FForm> {
    Some(FForm { c: qmul(a.c, k)?, t: a.t.iter().map(|(s, q)| Some((*s, qmul(*q, k)?))).collect::<Option<Vec<_>>>()? })
}
fn join_expr(op: char, a: &Fl, b: &Fl) -> Option<Rc<(String, Vec<Lin>)>> {
    let (x, y) = (a.expr.as_ref()?, b.expr.as_ref()?);
    if x.0.len() + y.0.len() > 200 {
        return None;
    }
    // '+' and '*' commute exactly
    let (x, y) = if matches!(op, '+' | '*') && (&x.0, &x.1) > (&y.0, &y.1) { (y, x) } else { (x, y) };
    Some(Rc::new((format!("({}{op}{})", x.0, y.0), x.1.iter().chain(&y.1).cloned().collect())))
}
pub fn bin(op: char, a: &Fl, b: &Fl) -> Fl {
    Fl { expr: join_expr(op, a, b), ..bin0(op, a, b) }
}
fn bin0(op: char, a: &Fl, b: &Fl) -> Fl {
    let nan = a.nan || b.nan;
    let fm = |f: &dyn Fn(&FForm, &FForm) -> Option<FForm>| match (&a.form, &b.form) {
        (Some(x), Some(y)) => f(x, y).map(Rc::new),
        _ => None,
    };
    let (lo, hi, form) = match op {
        '+' => (a.lo + b.lo, a.hi + b.hi, fm(&|x, y| comb(x, y, 1))),
        '-' => (a.lo - b.hi, a.hi - b.lo, fm(&|x, y| comb(x, y, -1))),
        '*' => {
            let c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi];
            (
                c.iter().cloned().fold(f64::INFINITY, f64::min),
                c.iter().cloned().fold(f64::NEG_INFINITY, f64::max),
                fm(&|x, y| {
                    if y.t.is_empty() {
                        scale(x, y.c)
                    } else if x.t.is_empty() {
                        scale(y, x.c)
                    } else {
                        None
                    }
                }),
            )
        }
        '/' => {
            if b.lo <= 0.0 && b.hi >= 0.0 {
                return any();
            }
            let c = [a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi];
            (
                c.iter().cloned().fold(f64::INFINITY, f64::min),
                c.iter().cloned().fold(f64::NEG_INFINITY, f64::max),
                fm(&|x, y| if y.t.is_empty() && y.c.0 != 0 { scale(x, norm((y.c.1, y.c.0))) } else { None }),
            )
        }
        _ => return any(),
    };
    if lo.is_nan() || hi.is_nan() {
        return any();
    }
    let inf = lo.is_infinite() || hi.is_infinite();
    Fl { lo: down(lo), hi: up(hi), nan: nan || (inf && (op == '-' || op == '*')), form, expr: None }
}
pub fn neg(a: &Fl) -> Fl {
    Fl { lo: -a.hi, hi: -a.lo, nan: a.nan, form: a.form.as_ref().and_then(|f| scale(f, (-1, 1))).map(Rc::new), expr: a.expr.as_ref().map(|e| Rc::new((format!("-{}", e.0), e.1.clone()))) }
}
/// lt / le / eq when the intervals decide.
pub fn cmp(op: &str, a: &Fl, b: &Fl) -> Option<bool> {
    if a.nan || b.nan {
        return None;
    }
    if op != "lt" && a.expr.is_some() && a.expr == b.expr {
        return Some(true);
    }
    match op {
        "lt" => {
            if a.hi < b.lo {
                Some(true)
            } else if a.lo >= b.hi {
                Some(false)
            } else {
                None
            }
        }
        "le" => {
            if a.hi <= b.lo {
                Some(true)
            } else if a.lo > b.hi {
                Some(false)
            } else {
                None
            }
        }
        "eq" => {
            if a.lo == a.hi && b.lo == b.hi {
                Some(a.lo == b.lo)
            } else if a.hi < b.lo || b.hi < a.lo {
                Some(false)
            } else {
                None
            }
        }
        _ => None,
    }
}
/// Truncation to an integer: a symbol within one unit of the exact rational.
pub fn trunc(facts: &mut Facts, a: &Fl, it: It) -> Lin {
    let (tlo, thi) = it.range();
    let cl = |x: f64| -> i128 {
        if x.is_nan() {
            0
        } else if x <= tlo as f64 {
            tlo
        } else if x >= thi as f64 {
            thi
        } else {
            x.trunc() as i128
        }
    };
    let (mut lo, mut hi) = (cl(a.lo), cl(a.hi));
    if a.nan {
        lo = lo.min(0);
        hi = hi.max(0);
    }
    if let (Some(f), false) = (&a.form, a.nan) {
        let mut d = f.c.1;
        for (_, q) in &f.t {
            d = d / gcd(d, q.1).max(1) * q.1;
        }
        if d < 1 << 40 && a.lo >= tlo as f64 && a.hi <= thi as f64 && a.lo.abs() < 1e12 && a.hi.abs() < 1e12 {
            let n = Lin { c: f.c.0 * (d / f.c.1), t: f.t.iter().map(|(s, q)| (*s, q.0 * (d / q.1))).collect() };
            if n.t.is_empty() && n.c % d == 0 {
                return Lin::k(n.c / d);
            }
            let s = match &a.expr {
                Some(e) => mk_sym(Def::Op(format!("trunc/{d}:{}", e.0), e.1.clone()), tlo, thi),
                None => mk_sym(Def::Op(format!("trunc/{d}"), vec![n.clone()]), tlo, thi),
            };
            let slack = d / 1000 + 1;
            // bounds of this path, not of the symbol
            facts.add_ge(&Lin::s(s).addk(-lo.min(cl(a.lo))));
            facts.add_ge(&Lin::k(hi).sub(&Lin::s(s)));
            let t = Lin::s(s).scale(d);
            // |t - n/d| <= 1, up to rounding
            facts.add_ge(&t.sub(&n).addk(d + slack));
            if a.lo >= 0.0 {
                facts.add_ge(&n.sub(&t).addk(slack));
            } else {
                facts.add_ge(&n.sub(&t).addk(d + slack));
            }
            return Lin::s(s);
        }
    }
    if lo == hi {
        return Lin::k(lo);
    }
    if let Some(e) = &a.expr {
        let s = mk_sym(Def::Op(format!("trunc:{}", e.0), e.1.clone()), tlo, thi);
        facts.add_ge(&Lin::s(s).addk(-lo));
        facts.add_ge(&Lin::k(hi).sub(&Lin::s(s)));
        return Lin::s(s);
    }
    Lin::s(fresh("trunc", lo, hi))
}
pub fn round(op: &str, a: &Fl) -> Fl {
    let g = |x: f64| match &op[..4] {
        "floo" => x.floor(),
        "ceil" => x.ceil(),
        "trun" => x.trunc(),
        _ => x.round(),
    };
    Fl { lo: g(a.lo), hi: g(a.hi), nan: a.nan, form: None, expr: a.expr.as_ref().map(|e| Rc::new((format!("{op}{}", e.0), e.1.clone()))) }
}
