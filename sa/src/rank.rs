//! Progress of loops: a lexicographic measure over the numbers of the state
//! at the loop head, or an iteration that may change nothing.
use crate::lin::*;
use crate::val::*;
use std::collections::*;

/// The numbers of a state by where they stand.
pub type Numbers = BTreeMap<String, Lin>;

pub fn numbers(st: &State) -> Numbers {
    let mut w = Walk { st, out: BTreeMap::new(), seen: BTreeSet::new() };
    for (i, f) in st.frames.iter().enumerate() {
        for (k, v) in f.locals.iter().enumerate() {
            w.val(&format!("{i}.{k}"), v);
        }
    }
    w.out
}
struct Walk<'a> {
    st: &'a State,
    out: Numbers,
    seen: BTreeSet<u32>,
}
impl Walk<'_> {
    fn put(&mut self, p: String, l: &Lin) {
        if self.out.len() < 6000 {
            self.out.insert(p, l.clone());
        }
    }
    fn val(&mut self, p: &str, v: &Val) {
        match v {
            Val::Int(l, _) | Val::Enum(l) => self.put(p.to_string(), l),
            Val::Bool(c) => match c.as_bit() {
                Some(l) => self.put(p.to_string(), &l),
                None => match c {
                    Cond::T => self.put(p.to_string(), &Lin::k(1)),
                    Cond::F => self.put(p.to_string(), &Lin::k(0)),
                    _ => {}
                },
            },
            Val::Agg(k, f) => {
                if *k != ST {
                    self.put(format!("{p}:"), &Lin::k(*k as i128));
                }
                for (i, x) in f.iter().enumerate() {
                    self.val(&format!("{p}.{i}"), x);
                }
            }
            Val::Arr(s) => self.arr(p, s),
            Val::Ptr(q) => {
                for (i, s) in q.path.iter().enumerate() {
                    if let Step::Index(l) | Step::Window(l) = s {
                        self.put(format!("{p}@{i}"), l);
                    }
                }
                if let Meta::Len(l) = &q.meta {
                    self.put(format!("{p}#"), l);
                }
                if let Cell::Heap(h) = q.cell {
                    if h != 0 && self.seen.insert(h) {
                        if let Some(v) = self.st.heap.get(&h) {
                            self.val(&format!("{p}*"), v);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn arr(&mut self, p: &str, s: &[Seg]) {
        self.put(format!("{p}#"), &crate::mem::total(s));
        if let [Seg { k: SegK::Elems(e), .. }] = s {
            if e.len() <= 32 {
                for (i, x) in e.iter().enumerate() {
                    self.val(&format!("{p}[{i}]"), x);
                }
            }
        }
    }
}

/// One way back to the head: where from, where to, and what it changes.
pub struct Edge<'a> {
    pub from: usize,
    pub to: usize,
    pub head: &'a Numbers,
    pub next: Numbers,
    pub facts: &'a Facts,
}
pub enum Verdict {
    Progress,
    /// An iteration may leave everything as it was.
    Stuck(String),
    Unknown,
}
const BIG: i128 = 1 << 48;

fn combos(e: &[&Edge]) -> Vec<Vec<(String, i128)>> {
    let mut changed: BTreeSet<&String> = BTreeSet::new();
    for x in e {
        for (p, l) in x.head {
            if x.next.get(p).map_or(false, |n| n != l) {
                changed.insert(p);
            }
        }
    }
    let v: Vec<&String> = changed.into_iter().collect();
    let mut out = vec![];
    for p in &v {
        out.push(vec![(p.to_string(), 1)]);
        out.push(vec![(p.to_string(), -1)]);
    }
    if v.len() <= 24 {
        for (i, p) in v.iter().enumerate() {
            for q in &v[i + 1..] {
                for (a, b) in [(1, 1), (-1, -1), (1, -1), (-1, 1)] {
                    out.push(vec![(p.to_string(), a), (q.to_string(), b)]);
                }
            }
        }
    }
    out
}
fn eval(n: &Numbers, c: &[(String, i128)]) -> Option<Lin> {
    let mut r = Lin::k(0);
    for (p, a) in c {
        r = r.add(&n.get(p)?.scale(*a));
    }
    Some(r)
}
/// Is each edge on a cycle of classes?
fn cyclic<'a, 'b>(e: Vec<&'a Edge<'b>>) -> Vec<&'a Edge<'b>> {
    let reach = |a: usize, b: usize| {
        let mut seen = BTreeSet::from([a]);
        let mut todo = vec![a];
        while let Some(x) = todo.pop() {
            if x == b {
                return true;
            }
            for y in &e {
                if y.from == x && seen.insert(y.to) {
                    todo.push(y.to);
                }
            }
        }
        false
    };
    let keep: Vec<bool> = e.iter().map(|x| reach(x.to, x.from)).collect();
    e.into_iter().zip(keep).filter(|x| x.1).map(|x| x.0).collect()
}
pub fn judge(edges: &[Edge]) -> Verdict {
    let mut left = cyclic(edges.iter().collect());
    'next: while !left.is_empty() {
        for c in combos(&left) {
            let mut rest = vec![];
            let mut ok = true;
            for x in &left {
                let (Some(a), Some(b)) = (eval(x.head, &c), eval(&x.next, &c)) else {
                    ok = false;
                    break;
                };
                // the measure falls, and could not be far below zero
                if x.facts.implies_ge(&a.sub(&b).addk(-1)) && x.facts.implies_ge(&a.addk(BIG)) {
                    continue;
                }
                if !x.facts.implies_ge(&a.sub(&b)) {
                    ok = false;
                    break;
                }
                rest.push(*x);
            }
            if ok && rest.len() < left.len() {
                left = cyclic(rest);
                continue 'next;
            }
        }
        // nothing found: may an iteration change nothing at all?
        for x in &left {
            if x.from != x.to || x.head.keys().ne(x.next.keys()) {
                continue;
            }
            let mut f = x.facts.clone();
            let mut same = true;
            for (p, a) in x.head {
                let b = &x.next[p];
                if a != b && (f.implies_ne(&a.sub(b)) || !f.add_eq(&a.sub(b)) || f.infeasible()) {
                    same = false;
                    break;
                }
            }
            if same {
                let d: Vec<String> = x.head.iter().filter(|(p, a)| x.next[*p] != **a).take(6).map(|(p, a)| format!("{p}: {} to {}", show(a), show(&x.next[p]))).collect();
                return Verdict::Stuck(d.join(", "));
            }
        }
        // may two iterations take everything back to where it was?
        for x in &left {
            for y in &left {
                if x.to == y.from && y.to == x.from {
                    if let Some(d) = round_trip(x, y) {
                        return Verdict::Stuck(d);
                    }
                }
            }
        }
        return Verdict::Unknown;
    }
    Verdict::Progress
}
/// Can `y` follow `x` and lead back to where `x` started?
fn round_trip(x: &Edge, y: &Edge) -> Option<String> {
    if y.head.keys().ne(x.next.keys()) || x.head.keys().ne(y.next.keys()) {
        return None;
    }
    // the symbols of the second iteration
    let mut m: BTreeMap<Sym, Lin> = BTreeMap::new();
    let mut known = BTreeSet::new();
    for (p, l) in y.head {
        deep_syms(l, &mut known);
        if let (Some(s), true) = (l.as_sym(), x.next[p] != *l) {
            m.entry(s).or_insert_with(|| x.next[p].clone());
        }
    }
    let mut used = BTreeSet::new();
    y.next.values().chain(y.facts.ge.iter()).chain(y.facts.ne.iter()).for_each(|l| deep_syms(l, &mut used));
    y.facts.bounds.keys().for_each(|s| deep_sym(*s, &mut used));
    for s in used {
        if !known.contains(&s) && matches!(sym_def(s), Def::Fresh(..) | Def::Phi(..)) && !m.contains_key(&s) {
            let (lo, hi) = sym_static(s);
            m.insert(s, Lin::s(fresh("again", lo, hi)));
        }
    }
    let mut memo = HashMap::new();
    let mut f = x.facts.clone();
    for l in y.facts.ge.iter() {
        if !f.add_ge(&subst(l, &m, &mut memo)) {
            return None;
        }
    }
    for l in y.facts.ne.iter() {
        if !f.add_ne(&subst(l, &m, &mut memo)) {
            return None;
        }
    }
    for (s, (lo, hi)) in y.facts.bounds.iter() {
        let l = subst(&Lin::s(*s), &m, &mut memo);
        if !f.add_ge(&l.addk(-lo)) || !f.add_ge(&l.neg().addk(*hi)) {
            return None;
        }
    }
    for (p, l) in y.head {
        if !f.add_eq(&subst(l, &m, &mut memo).sub(&x.next[p])) {
            return None;
        }
    }
    for (p, a) in x.head {
        let b = subst(&y.next[p], &m, &mut memo);
        if *a != b && (f.implies_ne(&a.sub(&b)) || !f.add_eq(&a.sub(&b))) {
            return None;
        }
    }
    if f.infeasible() {
        return None;
    }
    let d: Vec<String> = x.head.iter().filter(|(p, a)| x.next[*p] != **a).take(6).map(|(p, a)| format!("{p}: {} to {} and back", show(a), show(&x.next[p]))).collect();
    Some(d.join(", "))
}
