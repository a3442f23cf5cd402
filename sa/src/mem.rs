//! Reading and writing abstract memory; arrays as sequences of segments.
use crate::lin::*;
use crate::val::*;
use std::collections::*;
use std::rc::Rc;

/// Why an evaluation stopped before changing anything.
#[derive(Debug)]
pub enum Stop {
    /// Decide this condition first.
    Fork(Cond),
    /// Pick one of the alternatives stored there first.
    Alt(Ptr),
    /// The same for the i-th argument of the call.
    Arg(usize),
    Infeasible,
    Unsupported(String),
}
pub type R<T> = Result<T, Stop>;
pub fn uns<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Unsupported(s.into()))
}

pub fn need(f: &Facts, c: Cond) -> R<bool> {
    match decide(f, &c) {
        Some(b) => Ok(b),
        None => Err(Stop::Fork(c)),
    }
}

pub fn total(s: &[Seg]) -> Lin {
    s.iter().fold(Lin::k(0), |a, x| a.add(&x.len))
}

pub fn byte(buf: u32, pos: &Lin) -> Lin {
    Lin::s(mk_sym(Def::Byte(buf, pos.clone()), 0, 255))
}

/// The element of a repeated segment at an index.
pub fn instantiate(r: &Rep, idx: &Lin) -> Val {
    if r.bound.is_empty() {
        if let Val::Any(t, id) = &r.val {
            return Val::Any(*t, crate::place::derive_at(*id, idx));
        }
        return r.val.clone();
    }
    let mut m = BTreeMap::new();
    for b in &r.bound {
        let (lo, hi) = sym_static(*b);
        m.insert(*b, Lin::s(mk_sym(Def::Op(format!("elem{}.{}", r.id, b), vec![idx.clone()]), lo, hi)));
    }
    r.val.subst(&m, &mut HashMap::new())
}

pub fn seg_get(s: &Seg, i: &Lin) -> Option<Val> {
    match &s.k {
        SegK::Elems(v) => i.as_const().and_then(|c| v.get(c as usize).cloned()),
        SegK::Bytes { buf, base } => Some(Val::Int(byte(*buf, &base.add(i)), It::U8)),
        SegK::Rep(r) => Some(instantiate(r, i)),
    }
}

thread_local! {
    /// Replace what is known to have one value by that value.
    pub static FOLD: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn arr_get(f: &Facts, segs: &[Seg], idx: &Lin) -> R<Val> {
    if FOLD.with(|x| x.get()) {
        return match arr_get1(f, segs, &f.fold(idx))? {
            Val::Int(l, t) => Ok(Val::Int(f.fold(&l), t)),
            v => Ok(v),
        };
    }
    arr_get1(f, segs, idx)
}
fn arr_get1(f: &Facts, segs: &[Seg], idx: &Lin) -> R<Val> {
    let idx = match f.konst(idx) {
        Some(c) => Lin::k(c),
        None => idx.clone(),
    };
    let mut off = Lin::k(0);
    for (n, s) in segs.iter().enumerate() {
        let rel = idx.sub(&off);
        let end = s.len.sub(&rel).addk(-1); // >= 0 iff before the end of this segment
        let inside = if n + 1 == segs.len() { true } else { need(f, Cond::ge(&end, &Lin::k(0)))? };
        if inside {
            if let (SegK::Bytes { buf, base }, true) = (&s.k, FOLD.with(|x| x.get())) {
                return Ok(Val::Int(byte(*buf, &f.fold(&base.add(&rel))), It::U8));
            }
            if let Some(v) = seg_get(s, &rel) {
                return Ok(v);
            }
            if let SegK::Elems(v) = &s.k {
                let (lo, hi) = f.range(&rel);
                let lo = lo.max(0) as usize;
                let hi = hi.min(v.len() as i128 - 1);
                if hi < lo as i128 {
                    return Err(Stop::Infeasible);
                }
                let cand: Vec<Val> = v[lo..=hi as usize].to_vec();
                if cand.len() == 1 {
                    return Ok(cand[0].clone());
                }
                if let Some(Val::Int(_, t)) = cand.first() {
                    // table of integers
                    if cand.windows(2).all(|w| w[0] == w[1]) {
                        return Ok(cand[0].clone());
                    }
                    if cand.iter().all(|x| matches!(x, Val::Int(l, _) if l.as_const().is_some())) {
                        // affine tables are read exactly
                        let c: Vec<i128> = cand.iter().map(|x| if let Val::Int(l, _) = x { l.c } else { 0 }).collect();
                        let d = c[1] - c[0];
                        if c.windows(2).all(|w| w[1] - w[0] == d) {
                            return Ok(Val::Int(rel.addk(-(lo as i128)).scale(d).addk(c[0]), *t));
                        }
                        let (a, b) = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
                        let key = format!("table{:x}", hash(&c));
                        return Ok(Val::Int(Lin::s(mk_sym(Def::Op(key, vec![rel.addk(-(lo as i128))]), a, b)), *t));
                    }
                }
                if cand.len() <= 20 {
                    return Err(Stop::Fork(Cond::eq(&rel, &Lin::k(lo as i128))));
                }
                let rep = crate::join::rep_of(f, &cand);
                return Ok(instantiate(&rep, &rel));
            }
        }
        off = off.add(&s.len);
    }
    uns("read outside of an array")
}
pub fn hash<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Elements o .. o+n.
pub fn arr_slice(f: &Facts, segs: &[Seg], o: &Lin, n: &Lin) -> R<Vec<Seg>> {
    let mut out = vec![];
    if f.konst(n) == Some(0) {
        return Ok(out);
    }
    let tot = total(segs);
    if f.konst(o) == Some(0) && *n == tot {
        return Ok(segs.to_vec());
    }
    let mut off = Lin::k(0);
    let end = o.add(n);
    for (i, s) in segs.iter().enumerate() {
        let send = off.add(&s.len);
        let last = i + 1 == segs.len();
        // does the region start before the end of this segment, and end after its start?
        if !last && !need(f, Cond::ge(&send.addk(-1), o))? {
            off = send;
            continue;
        }
        if i > 0 && !need(f, Cond::ge(&end.addk(-1), &off))? {
            break;
        }
        let a = if need(f, Cond::ge(o, &off))? { o.sub(&off) } else { Lin::k(0) };
        let b = if last || need(f, Cond::ge(&send, &end))? { end.sub(&off) } else { s.len.clone() };
        let l = b.sub(&a);
        let k = match &s.k {
            SegK::Bytes { buf, base } => SegK::Bytes { buf: *buf, base: base.add(&a) },
            SegK::Rep(r) => {
                if f.konst(&a) == Some(0) || r.bound.is_empty() {
                    SegK::Rep(r.clone())
                } else {
                    SegK::Rep(Rc::new(Rep { id: new_id(), ..(**r).clone() }))
                }
            }
            SegK::Elems(v) => match (f.konst(&a), f.konst(&b)) {
                (Some(x), Some(y)) if x >= 0 && y >= x && y <= v.len() as i128 => SegK::Elems(Rc::new(v[x as usize..y as usize].to_vec())),
                (Some(x), Some(y)) if x < 0 || y < x || y > v.len() as i128 => return uns("region outside of an array"),
                _ => SegK::Rep(Rc::new(crate::join::rep_of(f, v))),
            },
        };
        let l = match &k {
            SegK::Elems(v) => Lin::k(v.len() as i128),
            _ => l,
        };
        if l.as_const() != Some(0) {
            out.push(Seg { len: l, k });
        }
        off = send;
    }
    Ok(out)
}

pub fn push_seg(out: &mut Vec<Seg>, s: Seg) {
    if s.len.as_const() == Some(0) {
        return;
    }
    if let Some(l) = out.last_mut() {
        match (&mut l.k, &s.k) {
            (SegK::Elems(a), SegK::Elems(b)) => {
                Rc::make_mut(a).extend(b.iter().cloned());
                l.len = l.len.add(&s.len);
                return;
            }
            (SegK::Bytes { buf, base }, SegK::Bytes { buf: b2, base: p2 }) if buf == b2 && base.add(&l.len) == *p2 => {
                l.len = l.len.add(&s.len);
                return;
            }
            _ => {}
        }
    }
    out.push(s);
}

/// Replace the elements o .. o+n (or append there).
pub fn arr_splice(f: &Facts, dst: &[Seg], o: &Lin, n: &Lin, src: &[Seg]) -> R<Vec<Seg>> {
    if f.konst(n) == Some(0) {
        return Ok(dst.to_vec());
    }
    let tot = total(dst);
    let mut out = vec![];
    if *o == tot || f.implies_eq(&o.sub(&tot)) {
        for s in dst.iter().chain(src.iter()) {
            push_seg(&mut out, s.clone());
        }
        return Ok(out);
    }
    let end = o.add(n);
    for s in arr_slice(f, dst, &Lin::k(0), o)? {
        push_seg(&mut out, s);
    }
    for s in src {
        push_seg(&mut out, s.clone());
    }
    if end != tot && !f.implies_ge(&end.sub(&tot)) {
        for s in arr_slice(f, dst, &end, &tot.sub(&end))? {
            push_seg(&mut out, s);
        }
    }
    Ok(out)
}
pub fn arr_set(f: &Facts, segs: &[Seg], idx: &Lin, v: Val) -> R<Vec<Seg>> {
    let idx = match f.konst(idx) {
        Some(c) => Lin::k(c),
        None => idx.clone(),
    };
    // fast path: one segment of known elements
    if let [Seg { k: SegK::Elems(e), .. }] = segs {
        if let Some(c) = idx.as_const() {
            let mut e = (**e).clone();
            if (c as usize) < e.len() {
                e[c as usize] = v;
            } else if c as usize == e.len() {
                e.push(v);
            } else {
                return uns("write outside of an array");
            }
            return Ok(vec![Seg { len: Lin::k(e.len() as i128), k: SegK::Elems(Rc::new(e)) }]);
        }
        if !e.is_empty() {
            let mut all = (**e).clone();
            all.push(v);
            return Ok(vec![Seg { len: Lin::k(e.len() as i128), k: SegK::Rep(Rc::new(crate::join::rep_of(f, &all))) }]);
        }
    }
    if segs.len() > 24 {
        let (l, rep) = collapse(f, segs);
        return arr_set(f, &[Seg { len: l, k: SegK::Rep(Rc::new(rep)) }], &idx, v);
    }
    let one = Seg { len: Lin::k(1), k: SegK::Elems(Rc::new(vec![v])) };
    arr_splice(f, segs, &idx, &Lin::k(1), &[one])
}
/// Forget positions: every element is an instance of one template.
pub fn collapse(f: &Facts, segs: &[Seg]) -> (Lin, Rep) {
    let mut vals = vec![];
    for s in segs {
        match &s.k {
            SegK::Elems(v) => vals.extend(v.iter().cloned()),
            SegK::Bytes { .. } => vals.push(Val::Int(Lin::s(fresh("byte", 0, 255)), It::U8)),
            SegK::Rep(r) => {
                let mut r2 = (**r).clone();
                // rename the bound symbols
                let mut m = BTreeMap::new();
                for b in &r.bound {
                    let (lo, hi) = sym_static(*b);
                    m.insert(*b, Lin::s(fresh("e", lo, hi)));
                }
                r2.val = r2.val.subst(&m, &mut HashMap::new());
                vals.push(r2.val);
            }
        }
    }
    (total(segs), crate::join::rep_of(f, &vals))
}

/// Value of n bits at a bit position of consecutive bytes, most significant first.
pub fn bits_of(f: &Facts, get: &dyn Fn(i128) -> R<Lin>, bit: i128, n: i128) -> R<Lin> {
    let mut r = Lin::k(0);
    let mut pos = bit;
    let end = bit + n;
    while pos < end {
        let b = pos.div_euclid(8);
        let lo = pos - b * 8;
        let hi = (end - b * 8).min(8);
        // bits lo..hi of byte b (from the most significant)
        let x = get(b)?;
        let v = f.mod_const(&f.div_const(&x, 1 << (8 - hi)), 1 << (hi - lo));
        r = r.scale(1 << (hi - lo)).add(&v);
        pos = b * 8 + hi;
    }
    Ok(r)
}
