//! Symbols, linear terms and entailment between linear facts.
//!
//! A symbol stands for one integer value of the analysed program.  Symbols
//! with the same definition are the same symbol (hash-consing), so that two
//! computations of the same quantity are syntactically equal.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type Sym = u32;
pub const INF: i128 = 1 << 120;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Lin {
    pub c: i128,
    pub t: Vec<(Sym, i128)>,
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Def {
    /// Unconstrained quantity (label for reports).
    Fresh(u32, String),
    /// Element `pos` of immutable buffer `buf`.
    Byte(u32, Lin),
    /// Euclidean division / remainder by a positive constant.
    Div(Lin, i128),
    Mod(Lin, i128),
    /// Product of at least two symbols (sorted).
    Prod(Vec<Sym>),
    /// Value of a leaf at a loop head.
    Phi(u32, u32, u32),
    /// Deterministic function of integer arguments, without theory.
    Op(String, Vec<Lin>),
}

pub struct SymInfo {
    pub def: Def,
    pub lo: i128,
    pub hi: i128,
}

#[derive(Default)]
pub struct SymTab {
    pub syms: Vec<SymInfo>,
    map: HashMap<Def, Sym>,
    fresh: u32,
}

thread_local! {
    pub static TAB: RefCell<SymTab> = RefCell::new(SymTab::default());
}

pub fn mk_sym(def: Def, lo: i128, hi: i128) -> Sym {
    TAB.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(&s) = t.map.get(&def) {
            let i = &mut t.syms[s as usize];
            // Same definition, possibly better static bounds.
            i.lo = i.lo.max(lo);
            i.hi = i.hi.min(hi);
            return s;
        }
        let s = t.syms.len() as Sym;
        t.syms.push(SymInfo { def: def.clone(), lo, hi });
        t.map.insert(def, s);
        s
    })
}
/// Widen the static bounds of a loop-head symbol.
pub fn set_bounds(s: Sym, lo: i128, hi: i128) {
    TAB.with(|t| {
        let mut t = t.borrow_mut();
        let i = &mut t.syms[s as usize];
        i.lo = lo;
        i.hi = hi;
    })
}
pub fn fresh(label: &str, lo: i128, hi: i128) -> Sym {
    let n = TAB.with(|t| {
        let mut t = t.borrow_mut();
        t.fresh += 1;
        t.fresh
    });
    mk_sym(Def::Fresh(n, label.to_string()), lo, hi)
}
pub fn sym_count() -> u32 {
    TAB.with(|t| t.borrow().syms.len() as u32)
}
pub fn sym_def(s: Sym) -> Def {
    TAB.with(|t| t.borrow().syms[s as usize].def.clone())
}
pub fn sym_static(s: Sym) -> (i128, i128) {
    TAB.with(|t| {
        let t = t.borrow();
        let i = &t.syms[s as usize];
        (i.lo, i.hi)
    })
}

fn sat_add(a: i128, b: i128) -> i128 {
    a.saturating_add(b).clamp(-INF, INF)
}
fn sat_mul(a: i128, b: i128) -> i128 {
    if a == 0 || b == 0 {
        return 0;
    }
    match a.checked_mul(b) {
        Some(v) => v.clamp(-INF, INF),
        None => {
            if (a < 0) == (b < 0) {
                INF
            } else {
                -INF
            }
        }
    }
}

impl Lin {
    pub fn k(c: i128) -> Lin {
        Lin { c, t: vec![] }
    }
    pub fn s(s: Sym) -> Lin {
        Lin { c: 0, t: vec![(s, 1)] }
    }
    pub fn as_const(&self) -> Option<i128> {
        if self.t.is_empty() {
            Some(self.c)
        } else {
            None
        }
    }
    pub fn as_sym(&self) -> Option<Sym> {
        if self.c == 0 && self.t.len() == 1 && self.t[0].1 == 1 {
            Some(self.t[0].0)
        } else {
            None
        }
    }
    pub fn add(&self, o: &Lin) -> Lin {
        self.comb(1, o, 1)
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.comb(1, o, -1)
    }
    pub fn addk(&self, k: i128) -> Lin {
        Lin { c: self.c + k, t: self.t.clone() }
    }
    pub fn neg(&self) -> Lin {
        self.scale(-1)
    }
    pub fn scale(&self, k: i128) -> Lin {
        if k == 0 {
            return Lin::k(0);
        }
        Lin { c: sat_mul(self.c, k), t: self.t.iter().map(|&(s, a)| (s, sat_mul(a, k))).collect() }
    }
    pub fn comb(&self, ka: i128, o: &Lin, kb: i128) -> Lin {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push((self.t[i].0, sat_mul(self.t[i].1, ka)));
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push((o.t[j].0, sat_mul(o.t[j].1, kb)));
                j += 1;
            } else {
                let v = sat_add(sat_mul(self.t[i].1, ka), sat_mul(o.t[j].1, kb));
                if v != 0 {
                    t.push((self.t[i].0, v));
                }
                i += 1;
                j += 1;
            }
        }
        Lin { c: sat_add(sat_mul(self.c, ka), sat_mul(o.c, kb)), t }
    }
    pub fn mul(&self, o: &Lin) -> Lin {
        if let Some(k) = self.as_const() {
            return o.scale(k);
        }
        if let Some(k) = o.as_const() {
            return self.scale(k);
        }
        let mut r = Lin::k(sat_mul(self.c, o.c));
        r = r.add(&Lin { c: 0, t: self.t.clone() }.scale(o.c));
        r = r.add(&Lin { c: 0, t: o.t.clone() }.scale(self.c));
        for &(a, ka) in &self.t {
            for &(b, kb) in &o.t {
                let m = prod_sym(a, b);
                r = r.add(&Lin { c: 0, t: vec![(m, sat_mul(ka, kb))] });
            }
        }
        r
    }
    pub fn syms(&self) -> impl Iterator<Item = Sym> + '_ {
        self.t.iter().map(|x| x.0)
    }
    /// Divide by the gcd of the coefficients, tightening the constant
    /// (valid for a fact `self >= 0` over integers).
    pub fn normalize_ge(&self) -> Lin {
        let mut g: i128 = 0;
        for &(_, a) in &self.t {
            g = gcd(g, a.abs());
        }
        if g <= 1 {
            return self.clone();
        }
        Lin { c: self.c.div_euclid(g), t: self.t.iter().map(|&(s, a)| (s, a / g)).collect() }
    }
}

pub fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

pub fn factors(s: Sym) -> Vec<Sym> {
    match sym_def(s) {
        Def::Prod(v) => v,
        _ => vec![s],
    }
}
fn prod_sym(a: Sym, b: Sym) -> Sym {
    let mut v = factors(a);
    v.extend(factors(b));
    v.sort();
    let (mut lo, mut hi) = (1, 1);
    for &x in &v {
        let (l, h) = sym_static(x);
        let c = [sat_mul(lo, l), sat_mul(lo, h), sat_mul(hi, l), sat_mul(hi, h)];
        lo = *c.iter().min().unwrap();
        hi = *c.iter().max().unwrap();
    }
    mk_sym(Def::Prod(v), lo, hi)
}

/// Bounds of an operation from the static bounds of its arguments: bounds of
/// a symbol must hold wherever the symbol is used, on any path.
pub fn op_sym(n: &str, v: Vec<Lin>, lo: i128, hi: i128) -> Sym {
    let (mut lo, mut hi) = (lo, hi);
    if let ("and" | "div" | "rem", [a, b]) = (n, &v[..]) {
        let (al, ah) = range_with(a, &|s| sym_static(s));
        let (bl, bh) = range_with(b, &|s| sym_static(s));
        (lo, hi) = match n {
            "and" => (if al >= 0 || bl >= 0 { 0 } else { -INF }, if al >= 0 && bl >= 0 { ah.min(bh) } else if al >= 0 { ah } else if bl >= 0 { bh } else { INF }),
            _ if al < 0 || bl < 1 => (-INF, INF),
            "div" => (0, ah.max(0)),
            _ => (0, (bh - 1).max(0)),
        };
    }
    mk_sym(Def::Op(n.to_string(), v), lo, hi)
}
/// Replace symbols (also inside definitions).
pub fn subst(l: &Lin, m: &BTreeMap<Sym, Lin>, memo: &mut HashMap<Sym, Lin>) -> Lin {
    let mut r = Lin::k(l.c);
    for &(s, a) in &l.t {
        r = r.add(&subst_sym(s, m, memo).scale(a));
    }
    r
}
fn subst_sym(s: Sym, m: &BTreeMap<Sym, Lin>, memo: &mut HashMap<Sym, Lin>) -> Lin {
    if let Some(l) = m.get(&s) {
        return l.clone();
    }
    if let Some(l) = memo.get(&s) {
        return l.clone();
    }
    let (lo, hi) = sym_static(s);
    let r = match sym_def(s) {
        Def::Fresh(..) | Def::Phi(..) => Lin::s(s),
        Def::Byte(b, p) => Lin::s(mk_sym(Def::Byte(b, subst(&p, m, memo)), lo, hi)),
        Def::Div(l, k) => {
            let l2 = subst(&l, m, memo);
            if l2 == l { Lin::s(s) } else { div_const(&l2, k, &|x| sym_static(x)) }
        }
        Def::Mod(l, k) => {
            let l2 = subst(&l, m, memo);
            if l2 == l { Lin::s(s) } else { mod_const(&l2, k, &|x| sym_static(x)) }
        }
        Def::Prod(v) => {
            let mut r = Lin::k(1);
            for x in v {
                r = r.mul(&subst_sym(x, m, memo));
            }
            r
        }
        Def::Op(n, v) => {
            let v2: Vec<Lin> = v.iter().map(|l| subst(l, m, memo)).collect();
            if v2 == v { Lin::s(s) } else { Lin::s(op_sym(&n, v2, lo, hi)) }
        }
    };
    memo.insert(s, r.clone());
    r
}

/// All symbols a symbol's definition mentions, transitively, itself included.
pub fn deep_syms(l: &Lin, out: &mut BTreeSet<Sym>) {
    for s in l.syms() {
        deep_sym(s, out);
    }
}
pub fn deep_sym(s: Sym, out: &mut BTreeSet<Sym>) {
    if !out.insert(s) {
        return;
    }
    match sym_def(s) {
        Def::Fresh(..) | Def::Phi(..) => {}
        Def::Byte(_, p) => deep_syms(&p, out),
        Def::Div(l, _) | Def::Mod(l, _) => deep_syms(&l, out),
        Def::Prod(v) => {
            for x in v {
                deep_sym(x, out)
            }
        }
        Def::Op(_, v) => {
            for l in v {
                deep_syms(&l, out)
            }
        }
    }
}

pub fn range_with(l: &Lin, b: &dyn Fn(Sym) -> (i128, i128)) -> (i128, i128) {
    let (mut lo, mut hi) = (l.c, l.c);
    for &(s, a) in &l.t {
        let (x, y) = b(s);
        let (p, q) = (sat_mul(x, a), sat_mul(y, a));
        lo = if lo <= -INF || p.min(q) <= -INF { -INF } else { sat_add(lo, p.min(q)) };
        hi = if hi >= INF || p.max(q) >= INF { INF } else { sat_add(hi, p.max(q)) };
    }
    (lo, hi)
}

thread_local! {
    /// Take bytes apart into base 4 digits, not into a quotient and a rest.
    pub static DIGITS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// The digits of a byte, the highest one first.
fn digits(l: &Lin, k: i128) -> Option<[Lin; 4]> {
    if !matches!(k, 4 | 16 | 64) || l.c != 0 || !DIGITS.with(|d| d.get()) {
        return None;
    }
    let s = l.as_sym()?;
    if sym_static(s) != (0, 255) || matches!(sym_def(s), Def::Div(..) | Def::Mod(..)) {
        return None;
    }
    let q = |k| Lin::s(mk_sym(Def::Div(l.clone(), k), 0, 255 / k));
    let r = |x| Lin::s(mk_sym(Def::Mod(x, 4), 0, 3));
    Some([q(64), r(q(16)), r(q(4)), r(l.clone())])
}
fn join_digits(d: &[Lin]) -> Lin {
    d.iter().fold(Lin::k(0), |a, x| a.scale(4).add(x))
}

/// Euclidean (floor) division by a positive constant.
pub fn div_const(l: &Lin, k: i128, b: &dyn Fn(Sym) -> (i128, i128)) -> Lin {
    assert!(k > 0);
    if k == 1 {
        return l.clone();
    }
    let (q, r) = split_div(l, k);
    let (lo, hi) = range_with(&r, b);
    if lo >= 0 && hi < k {
        return q;
    }
    if let Some(c) = r.as_const() {
        return q.addk(c.div_euclid(k));
    }
    if let Some(d) = digits(&r, k) {
        return q.add(&join_digits(&d[..4 - k.ilog2() as usize / 2]));
    }
    // floor(floor(x/a)/b) = floor(x/(ab))
    if let Some(s) = r.as_sym() {
        if let Def::Div(l2, k2) = sym_def(s) {
            return q.add(&div_const(&l2, k2 * k, b));
        }
        // floor((x mod ak)/k) = floor(x/k) mod a
        if let Def::Mod(l2, k2) = sym_def(s) {
            if k2 % k == 0 {
                return q.add(&mod_const(&div_const(&l2, k, b), k2 / k, b));
            }
        }
    }
    let (slo, shi) = range_with(&r, &|s| sym_static(s));
    let d = mk_sym(
        Def::Div(r, k),
        if slo <= -INF { -INF } else { slo.div_euclid(k) },
        if shi >= INF { INF } else { shi.div_euclid(k) },
    );
    q.add(&Lin::s(d))
}
pub fn mod_const(l: &Lin, k: i128, b: &dyn Fn(Sym) -> (i128, i128)) -> Lin {
    assert!(k > 0);
    if k == 1 {
        return Lin::k(0);
    }
    let (_, r) = split_div(l, k);
    let (lo, hi) = range_with(&r, b);
    if lo >= 0 && hi < k {
        return r;
    }
    if let Some(c) = r.as_const() {
        return Lin::k(c.rem_euclid(k));
    }
    if let Some(d) = digits(&r, k) {
        return join_digits(&d[4 - k.ilog2() as usize / 2..]);
    }
    if let Some(s) = r.as_sym() {
        if let Def::Mod(l2, k2) = sym_def(s) {
            if k2 % k == 0 {
                return mod_const(&l2, k, b);
            }
        }
    }
    Lin::s(mk_sym(Def::Mod(r, k), 0, k - 1))
}
/// l = k*q + r with the divisible part in q.
fn split_div(l: &Lin, k: i128) -> (Lin, Lin) {
    let mut q = Lin::k(l.c.div_euclid(k));
    let mut r = Lin::k(l.c.rem_euclid(k));
    for &(s, a) in &l.t {
        if a % k == 0 {
            q.t.push((s, a / k));
        } else {
            r.t.push((s, a));
        }
    }
    // keep r's constant non-negative and below k: done by rem_euclid
    (q, r)
}

// ---------------------------------------------------------------- facts

#[derive(Clone, Default)]
pub struct Facts {
    pub ge: Rc<Vec<Lin>>,
    pub ne: Rc<Vec<Lin>>,
    pub bounds: Rc<BTreeMap<Sym, (i128, i128)>>,
}

thread_local! {
    static NESTED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static CACHE: RefCell<HashMap<(Vec<Lin>, Vec<(Sym,i128,i128)>), bool>> = RefCell::new(HashMap::new());
    pub static STATS: RefCell<[u64; 8]> = RefCell::new([0; 8]);
}

impl Facts {
    pub fn bound(&self, s: Sym) -> (i128, i128) {
        let (mut lo, mut hi) = sym_static(s);
        if let Some(&(l, h)) = self.bounds.get(&s) {
            lo = lo.max(l);
            hi = hi.min(h);
        }
        match sym_def(s) {
            Def::Prod(v) => {
                let (mut a, mut b) = (1i128, 1i128);
                for x in v {
                    let (l, h) = self.bound(x);
                    let c = [sat_mul(a, l), sat_mul(a, h), sat_mul(b, l), sat_mul(b, h)];
                    a = *c.iter().min().unwrap();
                    b = *c.iter().max().unwrap();
                }
                lo = lo.max(a);
                hi = hi.min(b);
            }
            Def::Div(l, k) => {
                let (a, b) = self.range(&l);
                if a > -INF {
                    lo = lo.max(a.div_euclid(k));
                }
                if b < INF {
                    hi = hi.min(b.div_euclid(k));
                }
            }
            Def::Mod(l, k) => {
                let (a, b) = self.range(&l);
                if a > -INF && b < INF && a.div_euclid(k) == b.div_euclid(k) {
                    lo = lo.max(a.rem_euclid(k));
                    hi = hi.min(b.rem_euclid(k));
                } else if a >= 0 && b < INF {
                    hi = hi.min(b);
                }
            }
            _ => {}
        }
        (lo, hi)
    }
    pub fn range(&self, l: &Lin) -> (i128, i128) {
        range_with(l, &|s| self.bound(s))
    }
    /// Symbols known to have a single value become that value.
    pub fn fold(&self, l: &Lin) -> Lin {
        let mut r = Lin::k(l.c);
        for &(s, a) in &l.t {
            let (lo, hi) = self.bound(s);
            if lo == hi {
                r.c += a * lo;
            } else {
                r.t.push((s, a));
            }
        }
        r
    }
    pub fn div_const(&self, l: &Lin, k: i128) -> Lin {
        div_const(&self.fold(l), k, &|s| self.bound(s))
    }
    pub fn mod_const(&self, l: &Lin, k: i128) -> Lin {
        mod_const(&self.fold(l), k, &|s| self.bound(s))
    }
    /// Tight range of a term: interval, then LP to confirm simple bounds.
    pub fn konst(&self, l: &Lin) -> Option<i128> {
        if let Some(c) = l.as_const() {
            return Some(c);
        }
        let (a, b) = self.range(l);
        if a == b {
            return Some(a);
        }
        None
    }
    /// Add `l >= 0`. Returns false if that is contradictory (by intervals).
    pub fn add_ge(&mut self, l: &Lin) -> bool {
        let l = l.normalize_ge();
        if let Some(c) = l.as_const() {
            return c >= 0;
        }
        let (lo, hi) = self.range(&l);
        if lo >= 0 {
            return true;
        }
        if hi < 0 {
            return false;
        }
        if l.t.len() == 1 {
            let (s, a) = l.t[0];
            let (blo, bhi) = self.bound(s);
            // a*s + c >= 0
            let (mut nlo, mut nhi) = (blo, bhi);
            if a > 0 {
                nlo = nlo.max((-l.c + a - 1).div_euclid(a));
            } else {
                nhi = nhi.min(l.c.div_euclid(-a));
            }
            if nlo > nhi {
                return false;
            }
            Rc::make_mut(&mut self.bounds).insert(s, (nlo, nhi));
            return self.tighten_ne(s);
        }
        if self.ge.contains(&l) {
            return true;
        }
        Rc::make_mut(&mut self.ge).push(l.clone());
        // one round of bound propagation
        for &(s, a) in &l.t {
            let rest = Lin { c: l.c, t: l.t.iter().filter(|x| x.0 != s).cloned().collect() };
            let (_, rhi) = self.range(&rest);
            if rhi >= INF {
                continue;
            }
            let (blo, bhi) = self.bound(s);
            // a*s >= -rest >= -rhi
            if a > 0 {
                let n = (-rhi + a - 1).div_euclid(a);
                if n > blo {
                    if n > bhi {
                        return false;
                    }
                    Rc::make_mut(&mut self.bounds).insert(s, (n, bhi));
                }
            } else {
                let n = rhi.div_euclid(-a);
                if n < bhi {
                    if n < blo {
                        return false;
                    }
                    Rc::make_mut(&mut self.bounds).insert(s, (blo, n));
                }
            }
        }
        true
    }
    fn tighten_ne(&mut self, s: Sym) -> bool {
        loop {
            let (lo, hi) = self.bound(s);
            if lo > hi {
                return false;
            }
            let mut ch = None;
            for n in self.ne.iter() {
                if n.t.len() == 1 && n.t[0].0 == s {
                    let a = n.t[0].1;
                    if (-n.c) % a == 0 {
                        let v = -n.c / a;
                        if v == lo {
                            ch = Some((lo + 1, hi));
                        } else if v == hi {
                            ch = Some((lo, hi - 1));
                        }
                        if ch.is_some() {
                            break;
                        }
                    }
                }
            }
            match ch {
                Some((l, h)) => {
                    if l > h {
                        return false;
                    }
                    Rc::make_mut(&mut self.bounds).insert(s, (l, h));
                }
                None => return true,
            }
        }
    }
    pub fn add_eq(&mut self, l: &Lin) -> bool {
        self.add_ge(l) && self.add_ge(&l.neg())
    }
    pub fn add_ne(&mut self, l: &Lin) -> bool {
        if let Some(c) = l.as_const() {
            return c != 0;
        }
        let (lo, hi) = self.range(l);
        if lo > 0 || hi < 0 {
            return true;
        }
        if lo == 0 && hi == 0 {
            return false;
        }
        if lo == 0 {
            return self.add_ge(&l.addk(-1));
        }
        if hi == 0 {
            return self.add_ge(&l.neg().addk(-1));
        }
        let n = if l.t[0].1 < 0 { l.neg() } else { l.clone() };
        if !self.ne.contains(&n) {
            Rc::make_mut(&mut self.ne).push(n.clone());
        }
        if n.t.len() == 1 {
            return self.tighten_ne(n.t[0].0);
        }
        // l >= 0 known? then l >= 1
        if self.implies_ge(l) {
            return self.add_ge(&l.addk(-1));
        }
        if self.implies_ge(&l.neg()) {
            return self.add_ge(&l.neg().addk(-1));
        }
        true
    }
    pub fn implies_eq(&self, l: &Lin) -> bool {
        if let Some(c) = l.as_const() {
            return c == 0;
        }
        self.implies_ge(l) && self.implies_ge(&l.neg())
    }
    pub fn implies_ne(&self, l: &Lin) -> bool {
        if let Some(c) = l.as_const() {
            return c != 0;
        }
        let (lo, hi) = self.range(l);
        if lo > 0 || hi < 0 {
            return true;
        }
        let n = if l.t[0].1 < 0 { l.neg() } else { l.clone() };
        if self.ne.contains(&n) {
            return true;
        }
        self.implies_ge(&l.addk(-1)) || self.implies_ge(&l.neg().addk(-1))
    }
    /// Do the facts entail `l >= 0`?
    pub fn implies_ge(&self, l: &Lin) -> bool {
        let l = l.normalize_ge();
        if let Some(c) = l.as_const() {
            return c >= 0;
        }
        let (lo, hi) = self.range(&l);
        if lo >= 0 {
            return true;
        }
        if hi < 0 {
            // Only entailed if the facts are contradictory.
            return false;
        }
        for f in self.ge.iter() {
            let d = l.sub(f);
            if d.c >= 0 && d.t.is_empty() {
                return true;
            }
            if !d.t.is_empty() && d.t.len() <= l.t.len() && self.range(&d).0 >= 0 {
                return true;
            }
        }
        // l < 0, i.e. -l - 1 >= 0, must be infeasible
        self.infeasible_with(&l.neg().addk(-1))
    }
    /// Is the system facts + `extra >= 0` infeasible (over the rationals)?
    pub fn infeasible_with(&self, extra: &Lin) -> bool {
        // few products of facts first: enough as a rule
        let (rows, bounds, more) = self.relevant(extra, 0);
        if Self::solve(rows, bounds) {
            return true;
        }
        if more && Self::solve_all(self.relevant(extra, 1)) {
            return true;
        }
        // then products which only have bounds
        self.near_products() && Self::solve_all(self.relevant(extra, 2))
    }
    fn near_products(&self) -> bool {
        self.bounds.keys().any(|s| matches!(sym_def(*s), Def::Prod(_)))
    }
    fn solve_all(r: (Vec<Lin>, BTreeMap<Sym, (i128, i128)>, bool)) -> bool {
        Self::solve(r.0, r.1)
    }
    fn solve(rows: Vec<Lin>, bounds: BTreeMap<Sym, (i128, i128)>) -> bool {
        let key = (rows.clone(), bounds.iter().map(|(s, b)| (*s, b.0, b.1)).collect::<Vec<_>>());
        if let Some(r) = CACHE.with(|c| c.borrow().get(&key).copied()) {
            return r;
        }
        STATS.with(|s| s.borrow_mut()[0] += 1);
        let r = crate::simplex::infeasible(&rows, &bounds);
        CACHE.with(|c| {
            let mut c = c.borrow_mut();
            if c.len() > 200_000 {
                c.clear();
            }
            c.insert(key, r);
        });
        r
    }
    pub fn infeasible(&self) -> bool {
        for (s, _) in self.bounds.iter() {
            let (lo, hi) = self.bound(*s);
            if lo > hi {
                return true;
            }
        }
        false
    }

    /// Facts connected with `extra`, with definitional facts of the symbols.
    fn relevant(&self, extra: &Lin, level: u8) -> (Vec<Lin>, BTreeMap<Sym, (i128, i128)>, bool) {
        let all = level > 0;
        let mut more = false;
        const MAX_SYMS: usize = 36;
        let mut rows: Vec<Lin> = vec![extra.clone()];
        let mut syms: BTreeSet<Sym> = BTreeSet::new();
        let mut todo: Vec<Sym> = vec![];
        let mut used = vec![false; self.ge.len()];
        let add_syms = |l: &Lin, syms: &mut BTreeSet<Sym>, todo: &mut Vec<Sym>| {
            for s in l.syms() {
                if syms.insert(s) {
                    todo.push(s);
                }
            }
        };
        add_syms(extra, &mut syms, &mut todo);
        let mut qi = 0;
        while qi < todo.len() {
            let s = todo[qi];
            qi += 1;
            match sym_def(s) {
                Def::Div(l, k) => {
                    // l = k*div + mod
                    let m = mod_const(&l, k, &|x| self.bound(x));
                    let e = l.sub(&Lin::s(s).scale(k)).sub(&m);
                    push_row(&mut rows, e.clone());
                    push_row(&mut rows, e.neg());
                    add_syms(&e, &mut syms, &mut todo);
                }
                Def::Mod(l, k) => {
                    let d = div_const(&l, k, &|x| self.bound(x));
                    let e = l.sub(&d.scale(k)).sub(&Lin::s(s));
                    push_row(&mut rows, e.clone());
                    push_row(&mut rows, e.neg());
                    add_syms(&e, &mut syms, &mut todo);
                }
                _ => {}
            }
            if syms.len() > MAX_SYMS {
                continue;
            }
            for (i, f) in self.ge.iter().enumerate() {
                if !used[i] && f.t.iter().any(|x| x.0 == s) {
                    used[i] = true;
                    rows.push(f.clone());
                    add_syms(f, &mut syms, &mut todo);
                }
            }
        }
        // products: multiply facts pairwise when a monomial is present
        let mut prods: Vec<Sym> =
            syms.iter().copied().filter(|&s| matches!(sym_def(s), Def::Prod(_))).collect();
        if !prods.is_empty() {
            let mut fs: BTreeSet<Sym> = BTreeSet::new();
            for &p in &prods {
                fs.extend(factors(p));
            }
            // products of these factors with bounds of their own
            let near: Vec<Sym> = if level < 2 { vec![] } else { self.bounds.keys().copied().filter(|s| !syms.contains(s) && factors(*s).len() > 1 && factors(*s).iter().any(|f| fs.contains(f))).take(4).collect() };
            for p in near {
                fs.extend(factors(p));
                syms.insert(p);
                prods.push(p);
            }
            // candidate linear facts over factor symbols
            let mut base: Vec<Lin> = vec![];
            for f in self.ge.iter() {
                if f.t.iter().any(|x| fs.contains(&x.0))
                    && f.t.iter().all(|x| !matches!(sym_def(x.0), Def::Prod(_)))
                    && f.t.len() <= 4
                {
                    base.push(f.clone());
                }
            }
            for &f in &fs {
                let (mut lo, hi) = self.bound(f);
                // a factor which is not zero
                if lo == 0 && !NESTED.with(|n| n.replace(true)) {
                    if self.infeasible_with(&Lin::s(f).neg()) {
                        lo = 1;
                    }
                    NESTED.with(|n| n.set(false));
                }
                if lo > -INF {
                    base.push(Lin::s(f).addk(-lo));
                }
                if hi < INF {
                    base.push(Lin::s(f).neg().addk(hi));
                }
            }
            for &f in &fs {
                if syms.insert(f) {
                    todo.push(f);
                }
            }
            for f in base.iter() {
                if f.t.len() > 1 {
                    push_row(&mut rows, f.clone());
                    for s in f.syms() {
                        syms.insert(s);
                    }
                }
            }
            base.truncate(28);
            let known: BTreeSet<Sym> = prods.iter().copied().collect();
            let mut extra_rows = vec![];
            for i in 0..base.len() {
                for j in i..base.len() {
                    if !all && (base[i].t.len() < 2 || base[j].t.len() < 2) && fs.len() > 3 {
                        more = true;
                        continue;
                    }
                    let p = base[i].mul(&base[j]);
                    if p.t.iter().all(|x| !matches!(sym_def(x.0), Def::Prod(_)) || known.contains(&x.0))
                        && p.t.iter().any(|x| known.contains(&x.0))
                    {
                        extra_rows.push(p);
                    }
                }
            }
            extra_rows.truncate(160);
            for p in extra_rows {
                for s in p.syms() {
                    syms.insert(s);
                }
                push_row(&mut rows, p);
            }
        }
        for r in &rows {
            for s in r.syms() {
                syms.insert(s);
            }
        }
        rows[1..].sort();
        let bounds = syms.into_iter().map(|s| (s, self.bound(s))).collect();
        (rows, bounds, more)
    }
}
fn push_row(rows: &mut Vec<Lin>, l: Lin) {
    if l.t.is_empty() {
        return;
    }
    if !rows.contains(&l) {
        rows.push(l);
    }
}

pub fn show_sym(s: Sym) -> String {
    match sym_def(s) {
        Def::Fresh(n, l) => format!("{l}#{n}"),
        Def::Byte(b, p) => format!("B{b}[{}]", show(&p)),
        Def::Div(l, k) => format!("({})/{k}", show(&l)),
        Def::Mod(l, k) => format!("({})%{k}", show(&l)),
        Def::Prod(v) => v.iter().map(|&x| show_sym(x)).collect::<Vec<_>>().join("*"),
        Def::Phi(a, b, c) => format!("phi{a}.{b}.{c}"),
        Def::Op(n, v) => format!("{n}({})", v.iter().map(show).collect::<Vec<_>>().join(", ")),
    }
}
pub fn show(l: &Lin) -> String {
    let mut r = String::new();
    for &(s, a) in &l.t {
        if !r.is_empty() {
            r.push_str(" + ");
        }
        if a == 1 {
            r.push_str(&show_sym(s));
        } else {
            r.push_str(&format!("{a}*{}", show_sym(s)));
        }
    }
    if r.is_empty() {
        return format!("{}", l.c);
    }
    if l.c != 0 {
        r.push_str(&format!(" + {}", l.c));
    }
    r
}
