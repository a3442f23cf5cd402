//! Exact rational feasibility of a conjunction of linear inequalities
//! (general simplex with Bland's rule).  Any arithmetic overflow or an
//! excessive number of pivots gives "not shown infeasible".

use crate::lin::{Lin, Sym, INF};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Q {
    n: i128,
    d: i128,
}
const Z: Q = Q { n: 0, d: 1 };
struct Ovf;
type R<T> = Result<T, Ovf>;

impl Q {
    fn int(n: i128) -> Q {
        Q { n, d: 1 }
    }
    fn mk(n: i128, d: i128) -> R<Q> {
        const LIM: i128 = 1 << 100;
        if n == 0 {
            return Ok(Z);
        }
        let g = crate::lin::gcd(n, d);
        let (mut n, mut d) = (n / g, d / g);
        if d < 0 {
            n = -n;
            d = -d;
        }
        if n.abs() > LIM || d > LIM {
            return Err(Ovf);
        }
        Ok(Q { n, d })
    }
    fn add(self, o: Q) -> R<Q> {
        if self.d == 1 && o.d == 1 {
            return self.n.checked_add(o.n).map(Q::int).ok_or(Ovf);
        }
        let a = self.n.checked_mul(o.d).ok_or(Ovf)?;
        let b = o.n.checked_mul(self.d).ok_or(Ovf)?;
        Q::mk(a.checked_add(b).ok_or(Ovf)?, self.d.checked_mul(o.d).ok_or(Ovf)?)
    }
    fn neg(self) -> Q {
        Q { n: -self.n, d: self.d }
    }
    fn sub(self, o: Q) -> R<Q> {
        self.add(o.neg())
    }
    fn mul(self, o: Q) -> R<Q> {
        if self.n == 0 || o.n == 0 {
            return Ok(Z);
        }
        let n = self.n.checked_mul(o.n).ok_or(Ovf)?;
        if self.d == 1 && o.d == 1 {
            return Ok(Q::int(n));
        }
        Q::mk(n, self.d.checked_mul(o.d).ok_or(Ovf)?)
    }
    fn inv(self) -> R<Q> {
        Q::mk(self.d, self.n)
    }
    fn lt(self, o: Q) -> R<bool> {
        if self.d == 1 && o.d == 1 {
            return Ok(self.n < o.n);
        }
        let a = self.n.checked_mul(o.d).ok_or(Ovf)?;
        let b = o.n.checked_mul(self.d).ok_or(Ovf)?;
        Ok(a < b)
    }
}

pub fn infeasible(rows: &[Lin], bounds: &BTreeMap<Sym, (i128, i128)>) -> bool {
    match run(rows, bounds) {
        Ok(r) => r,
        Err(Ovf) => {
            // again, without the facts that have large numbers
            const BIG: i128 = 1 << 24;
            let small = |k: i128| -BIG < k && k < BIG;
            let rows: Vec<Lin> = rows.iter().filter(|r| small(r.c) && r.t.iter().all(|x| small(x.1))).cloned().collect();
            let b = bounds.iter().map(|(s, b)| (*s, (if small(b.0) { b.0 } else { -INF }, if small(b.1) { b.1 } else { INF }))).collect();
            matches!(run(&rows, &b), Ok(true))
        }
    }
}

fn run(rows: &[Lin], bounds: &BTreeMap<Sym, (i128, i128)>) -> R<bool> {
    let idx: BTreeMap<Sym, usize> = bounds.keys().enumerate().map(|(i, &s)| (s, i)).collect();
    let n = idx.len();
    let m = rows.len();
    let tot = n + m;
    let mut lo: Vec<Option<Q>> = Vec::with_capacity(tot);
    let mut hi: Vec<Option<Q>> = Vec::with_capacity(tot);
    for (_, &(l, h)) in bounds {
        if l > h {
            return Ok(true);
        }
        lo.push(if l <= -INF { None } else { Some(Q::int(l)) });
        hi.push(if h >= INF { None } else { Some(Q::int(h)) });
    }
    for r in rows {
        lo.push(Some(Q::int(-r.c)));
        hi.push(None);
    }
    // value of nonbasic variables; tableau row i: basic var = sum tab[i][j]*nonbasic[j]
    let mut nonbasic: Vec<usize> = (0..n).collect();
    let mut basic: Vec<usize> = (n..tot).collect();
    let mut tab: Vec<Vec<Q>> = vec![];
    for r in rows {
        let mut v = vec![Z; n];
        for &(s, a) in &r.t {
            v[idx[&s]] = Q::int(a);
        }
        tab.push(v);
    }
    let mut val: Vec<Q> = vec![Z; tot];
    for i in 0..n {
        val[i] = lo[i].or(hi[i]).unwrap_or(Z);
    }
    for i in 0..m {
        let mut v = Z;
        for j in 0..n {
            if tab[i][j].n != 0 {
                v = v.add(tab[i][j].mul(val[j])?)?;
            }
        }
        val[n + i] = v;
    }
    for _ in 0..400 {
        // violated basic variable with the smallest index
        let mut pick: Option<(usize, bool)> = None;
        for i in 0..m {
            let b = basic[i];
            let below = match lo[b] {
                Some(l) => val[b].lt(l)?,
                None => false,
            };
            let above = match hi[b] {
                Some(h) => h.lt(val[b])?,
                None => false,
            };
            if below || above {
                if pick.map_or(true, |(k, _)| basic[k] > b) {
                    pick = Some((i, below));
                }
            }
        }
        let Some((i, below)) = pick else { return Ok(false) };
        let b = basic[i];
        let target = if below { lo[b].unwrap() } else { hi[b].unwrap() };
        let mut ent: Option<usize> = None;
        for j in 0..n {
            let a = tab[i][j];
            if a.n == 0 {
                continue;
            }
            let x = nonbasic[j];
            let inc = (a.n > 0) == below; // need x to increase?
            let ok = if inc {
                match hi[x] {
                    Some(h) => val[x].lt(h)?,
                    None => true,
                }
            } else {
                match lo[x] {
                    Some(l) => l.lt(val[x])?,
                    None => true,
                }
            };
            if ok && ent.map_or(true, |k: usize| nonbasic[k] > x) {
                ent = Some(j);
            }
        }
        let Some(j) = ent else { return Ok(true) };
        // pivot b <-> x
        let x = nonbasic[j];
        let a = tab[i][j];
        let theta = target.sub(val[b])?.mul(a.inv()?)?;
        val[b] = target;
        val[x] = val[x].add(theta)?;
        for k in 0..m {
            if k != i && tab[k][j].n != 0 {
                let bk = basic[k];
                val[bk] = val[bk].add(tab[k][j].mul(theta)?)?;
            }
        }
        // row i: b = a*x + rest  =>  x = (1/a) b - rest/a
        let ia = a.inv()?;
        let mut newrow = vec![Z; n];
        for k in 0..n {
            if k == j {
                newrow[k] = ia;
            } else if tab[i][k].n != 0 {
                newrow[k] = tab[i][k].mul(ia)?.neg();
            }
        }
        for k in 0..m {
            if k == i {
                continue;
            }
            let f = tab[k][j];
            if f.n == 0 {
                continue;
            }
            for l in 0..n {
                if l == j {
                    tab[k][l] = f.mul(newrow[l])?;
                } else if newrow[l].n != 0 {
                    tab[k][l] = tab[k][l].add(f.mul(newrow[l])?)?;
                }
            }
        }
        tab[i] = newrow;
        basic[i] = x;
        nonbasic[j] = b;
    }
    Ok(false)
}
