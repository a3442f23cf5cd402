//! Joining states: at loop heads (with induction over the head's symbols)
//! and where too many states meet.
use crate::lin::*;
use crate::place::MAXLEN;
use crate::val::*;
use std::collections::*;
use std::rc::Rc;

pub struct LoopCtx {
    pub inv: u32,
    pub class: u32,
    /// Symbols and identities below these existed before the loop.
    pub mark: u32,
    pub idmark: u32,
    pub round: u32,
    /// How many of the states enter the loop from outside.
    pub entries: usize,
}
#[derive(Clone)]
pub struct Head {
    pub st: State,
    pub phis: Vec<(Sym, u32)>,
    pub forced: BTreeSet<u32>,
}

pub fn id_mark() -> u32 {
    new_id()
}

/// Does the term mean the same thing in every iteration?
pub fn stable(l: &Lin, lc: &LoopCtx) -> bool {
    l.syms().all(|s| stable_sym(s, lc))
}
fn stable_sym(s: Sym, lc: &LoopCtx) -> bool {
    match sym_def(s) {
        Def::Fresh(..) | Def::Phi(..) => s < lc.mark,
        Def::Byte(b, p) => b < lc.idmark && stable(&p, lc),
        Def::Div(l, _) | Def::Mod(l, _) => stable(&l, lc),
        Def::Prod(v) => v.iter().all(|x| stable_sym(*x, lc)),
        Def::Op(n, v) => {
            if let Some(Ok(id)) = n.strip_prefix("any").or(n.strip_prefix("len")).map(|x| x.parse::<u32>()) {
                return id < lc.idmark;
            }
            if let (true, Some((_, b))) = (n.starts_with("bits"), n.split_once('@')) {
                if b.parse::<u32>().map_or(false, |b| b >= lc.idmark) {
                    return false;
                }
            }
            if let Some(r) = n.strip_prefix("elem") {
                if let Some(id) = r.split('.').next().and_then(|x| x.parse::<u32>().ok()) {
                    if id >= lc.idmark {
                        return false;
                    }
                }
            }
            v.iter().all(|l| stable(l, lc))
        }
    }
}

struct J<'a> {
    cs: &'a [&'a State],
    lc: Option<&'a LoopCtx>,
    prev: Option<&'a Head>,
    npos: u32,
    tuples: HashMap<Vec<Lin>, Sym>,
    leaves: Vec<(Sym, Vec<Lin>, u32)>,
    orig: Vec<(Sym, Lin)>,
    loose: Vec<(Sym, Vec<(usize, Lin)>)>,
    cells: HashMap<Vec<(usize, Cell)>, Cell>,
    inv: Vec<HashMap<Cell, Cell>>,
    todo: Vec<(Vec<(usize, Cell)>, Cell, bool)>,
    err: Option<String>,
}
type Items<'a> = Vec<(usize, &'a Val)>;

impl<'a> J<'a> {
    fn fail(&mut self, s: &str) {
        if self.err.is_none() {
            self.err = Some(s.to_string());
        }
    }
    fn is_stable(&self, l: &Lin) -> bool {
        self.lc.map_or(true, |lc| stable(l, lc))
    }
    fn phi(&mut self, pos: u32, lo: i128, hi: i128) -> Sym {
        match self.lc {
            Some(lc) => mk_sym(Def::Phi(lc.inv, lc.class, pos), lo, hi),
            None => fresh("j", lo, hi),
        }
    }
    fn leaf(&mut self, vals: Vec<(usize, Lin)>, rng: (i128, i128), loose: bool) -> Lin {
        let pos = self.npos;
        self.npos += 1;
        // numbers where every contribution knows one; otherwise the terms,
        // which say more
        let ks: Vec<Option<i128>> = vals.iter().map(|(c, l)| self.cs[*c].facts.konst(l)).collect();
        let mut orig: Vec<Lin> = vec![];
        if ks.iter().all(|k| k.is_some()) {
            for (_, l) in &vals {
                if !l.t.is_empty() && l.t.len() <= 3 && orig.len() < 2 && !orig.contains(l) {
                    orig.push(l.clone());
                }
            }
        }
        let vals: Vec<(usize, Lin)> = if ks.iter().all(|k| k.is_some()) { vals.iter().zip(&ks).map(|((c, _), k)| (*c, Lin::k(k.unwrap()))).collect() } else { vals };
        let forced = self.prev.map_or(false, |p| p.forced.contains(&pos)) && self.lc.map_or(false, |l| l.round >= 2);
        if !forced {
            if vals.windows(2).all(|w| w[0].1 == w[1].1) && self.is_stable(&vals[0].1) {
                return vals[0].1.clone();
            }
            let mut tried: Vec<&Lin> = vec![];
            for (_, l) in &vals {
                if tried.contains(&l) || l.t.is_empty() || tried.len() > 2 || !self.is_stable(l) {
                    continue;
                }
                tried.push(l);
                if vals.iter().all(|(c, m)| m == l || self.cs[*c].facts.implies_eq(&m.sub(l))) {
                    return l.clone();
                }
            }
        }
        if loose {
            let (mut lo, mut hi) = (INF, -INF);
            for (c, l) in &vals {
                let (a, b) = self.cs[*c].facts.range(l);
                lo = lo.min(a);
                hi = hi.max(b);
            }
            lo = lo.max(rng.0);
            hi = hi.min(rng.1);
            if let Some(lc) = self.lc {
                if lc.round >= 2 {
                    lo = if lo >= 0 { 0.max(rng.0) } else { rng.0 };
                    hi = widen_hi(hi, rng.1);
                }
                // bounds are part of the identity
                let h = crate::mem::hash(&(lc.inv, lc.class, pos, lo, hi)) as u32 | 0x8000_0000;
                let s = mk_sym(Def::Phi(lc.inv, h, pos), lo, hi);
                self.loose.push((s, vals));
                return Lin::s(s);
            }
            let s = fresh("c", lo, hi);
            self.loose.push((s, vals));
            return Lin::s(s);
        }
        let tuple: Vec<Lin> = vals.into_iter().map(|x| x.1).collect();
        if let Some(s) = self.tuples.get(&tuple) {
            return Lin::s(*s);
        }
        let s = self.phi(pos, rng.0, rng.1);
        self.orig.extend(orig.into_iter().map(|l| (s, l)));
        self.tuples.insert(tuple.clone(), s);
        self.leaves.push((s, tuple, pos));
        Lin::s(s)
    }
    fn cell(&mut self, cs: Vec<(usize, Cell)>, loose: bool) -> Option<Cell> {
        let first = cs[0].1;
        if cs.iter().all(|c| c.1 == first) {
            match first {
                Cell::Heap(0) | Cell::Local(..) | Cell::Const(_) => return Some(first),
                Cell::Heap(_) => {}
            }
            // identity by number is only meaningful for cells older than the loop
            let old = match (self.lc, first) {
                (Some(lc), Cell::Heap(h)) => h < lc.idmark || cs.len() == self.cs.len(),
                _ => true,
            };
            if old {
                for (c, x) in &cs {
                    if let Some(o) = self.inv[*c].insert(*x, first) {
                        if o != first {
                            self.fail("aliasing");
                            return None;
                        }
                    }
                }
                if !self.cells.contains_key(&cs) {
                    self.cells.insert(cs.clone(), first);
                    // content from every state that has the cell
                    let all: Vec<(usize, Cell)> = (0..self.cs.len()).filter(|i| self.cs[*i].cell(first).is_some()).map(|i| (i, first)).collect();
                    self.todo.push((all, first, loose && cs.len() != self.cs.len()));
                }
                return Some(first);
            }
        }
        if cs.iter().any(|c| !matches!(c.1, Cell::Heap(_))) {
            self.fail("pointers to different places");
            return None;
        }
        if let Some(c) = self.cells.get(&cs) {
            return Some(*c);
        }
        let pos = self.npos;
        self.npos += 1;
        let n = match self.lc {
            Some(lc) => Cell::Heap(named_cell(lc.inv, lc.class, pos)),
            None => Cell::Heap(new_id()),
        };
        for (c, x) in &cs {
            if *x == Cell::Heap(0) {
                continue;
            }
            if let Some(o) = self.inv[*c].insert(*x, n) {
                if o != n {
                    self.fail("aliasing");
                    return None;
                }
            }
        }
        self.cells.insert(cs.clone(), n);
        self.todo.push((cs, n, loose));
        Some(n)
    }
    fn join(&mut self, items: &Items, loose: bool) -> Val {
        if self.err.is_some() {
            return Val::Uninit;
        }
        let v0 = items[0].1;
        if items.iter().any(|x| matches!(x.1, Val::Uninit)) {
            return Val::Uninit;
        }
        // an opaque value and one taken apart
        let opaque = items.iter().filter(|x| matches!(x.1, Val::Any(..))).count();
        if opaque > 0 && opaque < items.len() {
            let open: Option<Vec<Val>> = items
                .iter()
                .map(|(_, v)| match v {
                    Val::Any(t, id) => crate::place::expand_plain(*t, *id),
                    v => Some((*v).clone()),
                })
                .collect();
            if let Some(o) = open {
                let it: Items = items.iter().zip(&o).map(|(x, v)| (x.0, v)).collect();
                return self.join(&it, loose);
            }
        }
        // several cases
        let alt = items.iter().any(|x| matches!(x.1, Val::Alt(_)));
        let variants: BTreeSet<u32> = items.iter().filter_map(|x| if let Val::Agg(v, _) = x.1 { Some(*v) } else { None }).collect();
        let fieldless = items.iter().all(|x| matches!(x.1, Val::Enum(_)) || matches!(x.1, Val::Agg(v, f) if *v != ST && f.is_empty()));
        if fieldless && (variants.len() > 1 || items.iter().any(|x| matches!(x.1, Val::Enum(_)))) {
            let v = items
                .iter()
                .map(|(c, v)| {
                    (
                        *c,
                        match v {
                            Val::Enum(l) => (*l).clone(),
                            Val::Agg(k, _) => Lin::k(*k as i128),
                            _ => unreachable!(),
                        },
                    )
                })
                .collect();
            return Val::Enum(self.leaf(v, (0, 255), loose));
        }
        if alt || variants.len() > 1 {
            let mut groups: BTreeMap<String, Vec<(usize, Val, Vec<Lin>)>> = BTreeMap::new();
            for (c, v) in items {
                match v {
                    Val::Alt(cs) => {
                        for k in cs.iter() {
                            groups.entry(case_key(&k.val)).or_default().push((*c, k.val.clone(), k.facts.clone()));
                        }
                    }
                    v => groups.entry(case_key(v)).or_default().push((*c, (*v).clone(), vec![])),
                }
            }
            let mut cases = vec![];
            for (_, g) in groups {
                let it: Items = g.iter().map(|(c, v, _)| (*c, v)).collect();
                let outer = std::mem::take(&mut self.loose);
                let v = self.join(&it, true);
                let mine = std::mem::replace(&mut self.loose, outer);
                // facts shared by all
                let mut facts = vec![];
                if self.lc.is_none() || true {
                    for f in &g[0].2 {
                        if self.is_stable(f) && g.iter().all(|x| x.2.contains(f) || self.cs[x.0].facts.implies_ge(f)) {
                            facts.push(f.clone());
                        }
                    }
                }
                // what is known about older symbols in this case only
                let mut here = mine.clone();
                let mut old = BTreeSet::new();
                v.syms(&mut old);
                if old.len() <= 8 {
                    for s in old {
                        if !here.iter().any(|x| x.0 == s) && self.is_stable(&Lin::s(s)) {
                            here.push((s, g.iter().map(|x| (x.0, Lin::s(s))).collect()));
                        }
                    }
                }
                self.case_facts(&g, &here, &mut facts);
                self.loose.extend(mine);
                cases.push(Case { val: v, facts });
            }
            if cases.len() == 1 {
                return cases.pop().unwrap().val;
            }
            return Val::Alt(Rc::new(cases));
        }
        match v0 {
            Val::Zst => Val::Zst,
            Val::Fn(_) => {
                if items.iter().all(|x| x.1 == v0) {
                    v0.clone()
                } else {
                    self.fail("different functions");
                    Val::Uninit
                }
            }
            Val::Int(_, it) => {
                let mut v = vec![];
                for (c, x) in items {
                    match x {
                        Val::Int(l, _) => v.push((*c, l.clone())),
                        _ => {
                            self.fail("integer and something else");
                            return Val::Uninit;
                        }
                    }
                }
                Val::Int(self.leaf(v, it.range(), loose), *it)
            }
            Val::Bool(c0) => {
                if items.iter().all(|x| x.1 == v0) {
                    let mut ls = vec![];
                    c0.lins(&mut ls);
                    if ls.iter().all(|l| self.is_stable(l)) {
                        return v0.clone();
                    }
                }
                let mut v = vec![];
                for (c, x) in items {
                    let Val::Bool(b) = x else {
                        self.fail("bool and something else");
                        return Val::Uninit;
                    };
                    let l = match b.as_bit() {
                        Some(l) => l,
                        None => match decide(&self.cs[*c].facts, b) {
                            Some(b) => Lin::k(b as i128),
                            None => Lin::s(fresh("b", 0, 1)),
                        },
                    };
                    v.push((*c, l));
                }
                let l = self.leaf(v, (0, 1), loose);
                Val::Bool(match l.as_const() {
                    Some(k) => {
                        if k == 0 {
                            Cond::F
                        } else {
                            Cond::T
                        }
                    }
                    None => Cond::Ge(l.addk(-1)),
                })
            }
            Val::Float(_) => {
                let mut r: Option<Fl> = None;
                for (_, x) in items {
                    let Val::Float(f) = x else {
                        self.fail("float and something else");
                        return Val::Uninit;
                    };
                    let f = &Fl { expr: None, ..f.clone() };
                    r = Some(match r {
                        None => f.clone(),
                        Some(p) => {
                            if p == *f {
                                p
                            } else {
                                Fl { lo: p.lo.min(f.lo), hi: p.hi.max(f.hi), nan: p.nan || f.nan, form: None, expr: None }
                            }
                        }
                    });
                }
                let mut r = r.unwrap();
                if let Some(fm) = &r.form {
                    if !fm.t.iter().all(|x| self.is_stable(&Lin::s(x.0))) {
                        r.form = None;
                    }
                }
                if let (Some(lc), true) = (self.lc, r.form.is_none()) {
                    if lc.round >= 2 && items.len() > 1 && items.iter().any(|x| x.1 != items[0].1) {
                        r.lo = if r.lo >= 0.0 { 0.0 } else { f64::NEG_INFINITY };
                        r.hi = if r.hi <= 1e15 { 1e15 } else { f64::INFINITY };
                    }
                }
                Val::Float(r)
            }
            Val::Agg(v, f0) => {
                let mut cols: Vec<Items> = vec![vec![]; f0.len()];
                for (c, x) in items {
                    let Val::Agg(_, f) = x else {
                        self.fail("aggregate and something else");
                        return Val::Uninit;
                    };
                    if f.len() != f0.len() {
                        // partially written aggregates
                        if f.len() < f0.len() {
                            cols.truncate(f.len());
                        }
                    }
                    for (i, y) in f.iter().enumerate() {
                        if i < cols.len() {
                            cols[i].push((*c, y));
                        }
                    }
                }
                let out = cols.iter().map(|c| self.join(c, loose)).collect();
                Val::Agg(*v, Rc::new(out))
            }
            Val::Enum(_) => unreachable!(),
            Val::Any(t, id) => {
                if items.iter().all(|x| x.1 == v0) && self.lc.map_or(true, |l| *id < l.idmark) {
                    return v0.clone();
                }
                if items.iter().all(|x| matches!(x.1, Val::Any(u, _) if u == t)) {
                    let pos = self.npos;
                    self.npos += 1;
                    let n = match self.lc {
                        Some(lc) => named_cell(lc.inv, lc.class, pos),
                        None => new_id(),
                    };
                    return Val::Any(*t, n);
                }
                if std::env::var("SA_JOIN").is_ok() { eprintln!("OPAQUE {}", items.iter().map(|x| crate::place::short(x.1)).collect::<Vec<_>>().join(" / ")); }
                self.fail("opaque and something else");
                Val::Uninit
            }
            Val::Ptr(p0) => {
                let mut ps = vec![];
                for (c, x) in items {
                    let Val::Ptr(p) = x else {
                        self.fail("pointer and something else");
                        return Val::Uninit;
                    };
                    ps.push((*c, p));
                }
                let Some(cell) = self.cell(ps.iter().map(|(c, p)| (*c, p.cell)).collect(), loose) else { return Val::Uninit };
                let n = ps.iter().map(|p| p.1.path.len()).max().unwrap();
                let mut path = vec![];
                for i in 0..n {
                    let steps: Vec<(usize, Step)> =
                        ps.iter().map(|(c, p)| (*c, p.path.get(i).cloned().unwrap_or(Step::Index(Lin::k(0))))).collect();
                    if ps.iter().any(|p| p.1.path.len() <= i) && i + 1 < n {
                        self.fail("pointers of different depth");
                        return Val::Uninit;
                    }
                    match &steps[0].1 {
                        Step::Field(f) => {
                            if !steps.iter().all(|s| s.1 == Step::Field(*f)) {
                                self.fail("pointers to different fields");
                                return Val::Uninit;
                            }
                            path.push(Step::Field(*f));
                        }
                        k => {
                            let win = matches!(k, Step::Window(_));
                            let mut v = vec![];
                            for (c, s) in &steps {
                                match s {
                                    Step::Index(l) if !win => v.push((*c, l.clone())),
                                    Step::Window(l) if win => v.push((*c, l.clone())),
                                    _ => {
                                        self.fail("pointer steps");
                                        return Val::Uninit;
                                    }
                                }
                            }
                            let l = self.leaf(v, (0, MAXLEN), loose);
                            path.push(if win { Step::Window(l) } else { Step::Index(l) });
                        }
                    }
                }
                let meta = match &p0.meta {
                    Meta::Len(_) => {
                        let mut v = vec![];
                        for (c, p) in &ps {
                            match &p.meta {
                                Meta::Len(l) => v.push((*c, l.clone())),
                                _ => {
                                    self.fail("metadata");
                                    return Val::Uninit;
                                }
                            }
                        }
                        Meta::Len(self.leaf(v, (0, MAXLEN), loose))
                    }
                    m => {
                        if !ps.iter().all(|p| p.1.meta == *m) {
                            self.fail("different dynamic types");
                            return Val::Uninit;
                        }
                        m.clone()
                    }
                };
                Val::Ptr(Rc::new(Ptr { cell, path, meta }))
            }
            Val::Arr(_) => {
                let mut v = vec![];
                for (c, x) in items {
                    let Val::Arr(s) = x else {
                        self.fail("array and something else");
                        return Val::Uninit;
                    };
                    v.push((*c, s));
                }
                self.join_arr(v, loose)
            }
            Val::Alt(_) | Val::Uninit => unreachable!(),
        }
    }
    /// Relations between the symbols of one case which hold wherever it comes from.
    fn case_facts(&self, g: &[(usize, Val, Vec<Lin>)], mine: &[(Sym, Vec<(usize, Lin)>)], out: &mut Vec<Lin>) {
        let mut ls: Vec<&(Sym, Vec<(usize, Lin)>)> = vec![];
        for m in mine {
            if m.1.len() == g.len() && m.1.iter().zip(g).all(|(a, b)| a.0 == b.0) && !ls.iter().any(|x| x.0 == m.0) {
                ls.push(m);
            }
        }
        if std::env::var("SA_JOIN").is_ok() {
            eprintln!("   case {} contributions, {} of {} leaves, round {:?} mark {:?} {}", g.len(), ls.len(), mine.len(), self.lc.map(|l| l.round), self.lc.map(|l| l.mark), g.iter().map(|x| format!("{}:{:?}", x.0, x.1)).collect::<Vec<_>>().join(" / "));
            for (s, v) in mine {
                eprintln!("      {} = {}", show(&Lin::s(*s)), v.iter().map(|x| format!("{}:{}", x.0, show(&x.1))).collect::<Vec<_>>().join(" | "));
            }
        }
        if ls.is_empty() || ls.len() > 16 {
            return;
        }
        let fs: Vec<Facts> = g
            .iter()
            .map(|x| {
                let mut f = self.cs[x.0].facts.clone();
                for l in &x.2 {
                    f.add_ge(l);
                }
                f
            })
            .collect();
        let mine: BTreeSet<Sym> = ls.iter().map(|x| x.0).collect();
        let mut cands: BTreeSet<Lin> = BTreeSet::new();
        for i in 0..ls.len() {
            for j in 0..ls.len() {
                if i != j && ls.len() <= 8 {
                    let d = Lin::s(ls[i].0).sub(&Lin::s(ls[j].0));
                    cands.insert(d.addk(-1));
                    cands.insert(d);
                }
            }
        }
        for ci in 0..g.len().min(3) {
            let mut e: BTreeMap<Sym, Lin> = BTreeMap::new();
            for (s, v) in &ls {
                let l = &v[ci].1;
                if l.t.len() == 1 && l.t[0].1 == 1 {
                    e.entry(l.t[0].0).or_insert_with(|| Lin::s(*s).addk(-l.c));
                }
            }
            if e.is_empty() {
                continue;
            }
            for f in fs[ci].ge.iter() {
                if f.t.len() <= 3 && f.syms().any(|s| e.contains_key(&s)) && f.syms().all(|s| e.contains_key(&s) || self.is_stable(&Lin::s(s))) {
                    let mut r = Lin::k(f.c);
                    for (s, a) in &f.t {
                        r = r.add(&e.get(s).cloned().unwrap_or_else(|| Lin::s(*s)).scale(*a));
                    }
                    if r.t.len() > 1 && r.syms().any(|s| mine.contains(&s)) {
                        cands.insert(r);
                    }
                }
            }
        }
        let mut kept: Vec<Lin> = vec![];
        for f in cands {
            let ok = (0..g.len()).all(|c| {
                let mut r = Lin::k(f.c);
                for (s, a) in &f.t {
                    let v = ls.iter().find(|x| x.0 == *s).map(|x| x.1[c].1.clone()).unwrap_or_else(|| Lin::s(*s));
                    r = r.add(&v.scale(*a));
                }
                fs[c].implies_ge(&r)
            });
            if ok && crate::lin::range_with(&f, &|s| sym_static(s)).0 < 0 {
                kept.push(f);
            }
        }
        if std::env::var("SA_JOIN").is_ok() {
            for (c, f) in fs.iter().enumerate() {
                eprintln!("      facts {c}: {}", f.ge.iter().map(show).collect::<Vec<_>>().join(" ; "));
            }
            eprintln!("      kept {}", kept.iter().map(show).collect::<Vec<_>>().join(" ; "));
        }
        // drop the weaker of two facts that differ in the constant
        let weak: Vec<bool> = kept.iter().map(|f| kept.iter().any(|h| h.t == f.t && h.c < f.c)).collect();
        for (f, w) in kept.into_iter().zip(weak) {
            if !w && !out.contains(&f) && out.len() < 20 {
                out.push(f);
            }
        }
    }
    fn join_arr(&mut self, v: Vec<(usize, &Rc<Vec<Seg>>)>, loose: bool) -> Val {
        let s0 = v[0].1;
        if v.iter().all(|x| Rc::ptr_eq(x.1, s0)) && self.seg_stable(s0) {
            return Val::Arr(s0.clone());
        }
        // the same segmentation everywhere?
        let same = v.iter().all(|x| {
            x.1.len() == s0.len()
                && x.1.iter().zip(s0.iter()).all(|(a, b)| match (&a.k, &b.k) {
                    (SegK::Elems(a), SegK::Elems(b)) => a.len() == b.len(),
                    (SegK::Bytes { buf: a, .. }, SegK::Bytes { buf: b, .. }) => a == b && self.lc.map_or(true, |l| *a < l.idmark),
                    (SegK::Rep(_), SegK::Rep(_)) => true,
                    _ => false,
                })
        });
        if same {
            let mut out = vec![];
            for i in 0..s0.len() {
                match &s0[i].k {
                    SegK::Elems(e) => {
                        let mut r = vec![];
                        for j in 0..e.len() {
                            let it: Items = v.iter().map(|(c, s)| if let SegK::Elems(e) = &s[i].k { (*c, &e[j]) } else { unreachable!() }).collect();
                            r.push(self.join(&it, loose));
                        }
                        out.push(Seg { len: s0[i].len.clone(), k: SegK::Elems(Rc::new(r)) });
                    }
                    SegK::Bytes { buf, .. } => {
                        let bs = v.iter().map(|(c, s)| if let SegK::Bytes { base, .. } = &s[i].k { (*c, base.clone()) } else { unreachable!() }).collect();
                        let ls = v.iter().map(|(c, s)| (*c, s[i].len.clone())).collect();
                        let base = self.leaf(bs, (0, MAXLEN), loose);
                        let len = self.leaf(ls, (0, MAXLEN), loose);
                        out.push(Seg { len, k: SegK::Bytes { buf: *buf, base } });
                    }
                    SegK::Rep(_) => {
                        let ls = v.iter().map(|(c, s)| (*c, s[i].len.clone())).collect();
                        let len = self.leaf(ls, (0, MAXLEN), loose);
                        let vals: Vec<(usize, Val)> = v.iter().map(|(c, s)| if let SegK::Rep(r) = &s[i].k { (*c, open_rep(r)) } else { unreachable!() }).collect();
                        let all_same = v.iter().all(|x| if let (SegK::Rep(a), SegK::Rep(b)) = (&x.1[i].k, &s0[i].k) { Rc::ptr_eq(a, b) || a == b } else { false });
                        if all_same && self.rep_stable(&s0[i]) {
                            out.push(Seg { len, k: s0[i].k.clone() });
                        } else {
                            let r = self.rep(vals);
                            out.push(Seg { len, k: SegK::Rep(r) });
                        }
                    }
                }
            }
            return Val::Arr(Rc::new(out));
        }
        // one repeated segment
        let ls = v.iter().map(|(c, s)| (*c, crate::mem::total(s))).collect();
        let len = self.leaf(ls, (0, MAXLEN), loose);
        let mut vals = vec![];
        for (c, s) in &v {
            for x in s.iter() {
                match &x.k {
                    SegK::Elems(e) => vals.extend(e.iter().map(|y| (*c, y.clone()))),
                    SegK::Bytes { .. } => vals.push((*c, Val::Int(Lin::s(fresh("byte", 0, 255)), It::U8))),
                    SegK::Rep(r) => vals.push((*c, open_rep(r))),
                }
            }
        }
        if len.as_const() == Some(0) || vals.is_empty() {
            return Val::Arr(Rc::new(vec![]));
        }
        let r = self.rep(vals);
        Val::Arr(Rc::new(vec![Seg { len, k: SegK::Rep(r) }]))
    }
    fn seg_stable(&self, s: &[Seg]) -> bool {
        let Some(lc) = self.lc else { return true };
        let mut o = BTreeSet::new();
        Val::Arr(Rc::new(s.to_vec())).syms(&mut o);
        o.iter().all(|x| stable_sym(*x, lc))
            && s.iter().all(|s| match &s.k {
                SegK::Bytes { buf, .. } => *buf < lc.idmark,
                SegK::Rep(_) => self.rep_stable(s),
                SegK::Elems(e) => e.iter().all(|v| !matches!(v, Val::Ptr(_) | Val::Agg(..) | Val::Alt(_))),
            })
    }
    fn rep_stable(&self, s: &Seg) -> bool {
        let Some(lc) = self.lc else { return true };
        let SegK::Rep(r) = &s.k else { return false };
        if REUSED.with(|m| m.borrow().contains(&(lc.inv, r.id))) {
            return true;
        }
        let mut o = BTreeSet::new();
        Val::Arr(Rc::new(vec![Seg { len: Lin::k(1), k: s.k.clone() }])).syms(&mut o);
        o.iter().all(|x| stable_sym(*x, lc))
    }
    /// Template covering all the values.
    fn rep(&mut self, vals: Vec<(usize, Val)>) -> Rc<Rep> {
        let pos = self.npos;
        self.npos += 1;
        let Some(lc) = self.lc else {
            let v: Vec<Val> = vals.iter().map(|x| x.1.clone()).collect();
            let f: Vec<&Facts> = vals.iter().map(|x| &self.cs[x.0].facts).collect();
            return Rc::new(build_rep(&f, &v, &|_| true, false));
        };
        let st = |l: &Lin| stable(l, lc);
        let f: Vec<&Facts> = vals.iter().map(|x| &self.cs[x.0].facts).collect();
        let v: Vec<Val> = vals.iter().map(|x| x.1.clone()).collect();
        let key = (lc.inv, lc.class, pos);
        let old = REPS.with(|m| m.borrow().get(&key).cloned());
        if let Some(o) = &old {
            if v.iter().zip(&f).all(|(x, f)| covers(&o.val, &o.bound, x, f)) {
                return o.clone();
            }
        }
        let r = Rc::new(build_rep(&f, &v, &st, lc.round >= 2));
        REUSED.with(|m| m.borrow_mut().insert((lc.inv, r.id)));
        REPS.with(|m| m.borrow_mut().insert(key, r.clone()));
        r
    }
}
thread_local! {
    static REPS: std::cell::RefCell<HashMap<(u32, u32, u32), Rc<Rep>>> = Default::default();
    static REUSED: std::cell::RefCell<HashSet<(u32, u32)>> = Default::default();
    static NAMED: std::cell::RefCell<HashMap<(u32, u32, u32), u32>> = Default::default();
}
fn named_cell(a: u32, b: u32, c: u32) -> u32 {
    NAMED.with(|m| *m.borrow_mut().entry((a, b, c)).or_insert_with(new_id))
}
fn widen_hi(h: i128, max: i128) -> i128 {
    for t in [1, 3, 7, 15, 255, 4095, 65535, (1 << 24) - 1, (1 << 32) - 1] {
        if h <= t && t <= max {
            return t;
        }
    }
    max
}
/// An arbitrary element of a repeated segment.
pub fn open_rep(r: &Rep) -> Val {
    if r.bound.is_empty() {
        return r.val.clone();
    }
    let mut m = BTreeMap::new();
    for b in &r.bound {
        let (lo, hi) = sym_static(*b);
        m.insert(*b, Lin::s(fresh("e", lo, hi)));
    }
    r.val.subst(&m, &mut HashMap::new())
}
pub fn rep_of(f: &Facts, vals: &[Val]) -> Rep {
    let fs: Vec<&Facts> = vals.iter().map(|_| f).collect();
    build_rep(&fs, vals, &|_| true, false)
}
fn build_rep(fs: &[&Facts], vals: &[Val], st: &dyn Fn(&Lin) -> bool, widen: bool) -> Rep {
    let mut bound = vec![];
    let val = rep_val(fs, &vals.iter().collect::<Vec<_>>(), st, widen, &mut bound);
    Rep { id: new_id(), val, bound, facts: vec![] }
}
fn rep_leaf(fs: &[&Facts], ls: &[Lin], rng: (i128, i128), st: &dyn Fn(&Lin) -> bool, widen: bool, bound: &mut Vec<Sym>) -> Lin {
    if ls.windows(2).all(|w| w[0] == w[1]) && st(&ls[0]) {
        return ls[0].clone();
    }
    let (mut lo, mut hi) = (INF, -INF);
    for (f, l) in fs.iter().zip(ls) {
        let (a, b) = f.range(l);
        lo = lo.min(a);
        hi = hi.max(b);
    }
    lo = lo.max(rng.0);
    hi = hi.min(rng.1);
    if widen {
        lo = if lo >= 0 { 0.max(rng.0) } else { rng.0 };
        hi = widen_hi(hi, rng.1);
    }
    let s = fresh("r", lo, hi);
    bound.push(s);
    Lin::s(s)
}
fn rep_val(fs: &[&Facts], vals: &[&Val], st: &dyn Fn(&Lin) -> bool, widen: bool, bound: &mut Vec<Sym>) -> Val {
    let v0 = vals[0];
    if vals.iter().any(|v| std::mem::discriminant(*v) != std::mem::discriminant(v0)) {
        if vals.iter().any(|v| matches!(v, Val::Alt(_))) {
            return rep_cases(fs, vals, st, widen, bound);
        }
        if vals.iter().all(|v| matches!(v, Val::Enum(_) | Val::Agg(..))) {
            return rep_cases(fs, vals, st, widen, bound);
        }
        return Val::Uninit;
    }
    match v0 {
        Val::Uninit | Val::Zst => v0.clone(),
        Val::Fn(_) | Val::Ptr(_) | Val::Any(..) if vals.iter().all(|v| *v == v0) => v0.clone(),
        Val::Any(t, _) if vals.iter().all(|v| matches!(v, Val::Any(u, _) if u == t)) => Val::Any(*t, new_id()),
        Val::Int(_, it) => {
            let ls: Vec<Lin> = vals.iter().map(|v| if let Val::Int(l, _) = v { l.clone() } else { unreachable!() }).collect();
            Val::Int(rep_leaf(fs, &ls, it.range(), st, widen, bound), *it)
        }
        Val::Enum(_) => {
            let ls: Vec<Lin> = vals.iter().map(|v| if let Val::Enum(l) = v { l.clone() } else { unreachable!() }).collect();
            Val::Enum(rep_leaf(fs, &ls, (0, 255), st, widen, bound))
        }
        Val::Bool(c) => {
            if vals.iter().all(|v| *v == v0) {
                let mut ls = vec![];
                c.lins(&mut ls);
                if ls.iter().all(|l| st(l)) {
                    return v0.clone();
                }
            }
            let s = fresh("r", 0, 1);
            bound.push(s);
            Val::Bool(Cond::bit(s))
        }
        Val::Float(_) => {
            let mut r: Option<Fl> = None;
            for v in vals {
                let Val::Float(f) = v else { unreachable!() };
                r = Some(match r {
                    None => Fl { form: None, expr: None, ..f.clone() },
                    Some(p) => Fl { lo: p.lo.min(f.lo), hi: p.hi.max(f.hi), nan: p.nan || f.nan, form: None, expr: None },
                });
            }
            Val::Float(r.unwrap())
        }
        Val::Agg(k, f0) => {
            if vals.iter().any(|v| !matches!(v, Val::Agg(j, f) if j == k && f.len() == f0.len())) {
                return rep_cases(fs, vals, st, widen, bound);
            }
            let mut out = vec![];
            for i in 0..f0.len() {
                let col: Vec<&Val> = vals.iter().map(|v| if let Val::Agg(_, f) = v { &f[i] } else { unreachable!() }).collect();
                out.push(rep_val(fs, &col, st, widen, bound));
            }
            Val::Agg(*k, Rc::new(out))
        }
        Val::Arr(s0) => {
            if let [Seg { k: SegK::Elems(e0), .. }] = &s0[..] {
                if vals.iter().all(|v| matches!(v, Val::Arr(s) if matches!(&s[..], [Seg{k: SegK::Elems(e), ..}] if e.len() == e0.len()))) {
                    let mut out = vec![];
                    for i in 0..e0.len() {
                        let col: Vec<&Val> = vals
                            .iter()
                            .map(|v| if let Val::Arr(s) = v { if let SegK::Elems(e) = &s[0].k { &e[i] } else { unreachable!() } } else { unreachable!() })
                            .collect();
                        out.push(rep_val(fs, &col, st, widen, bound));
                    }
                    return Val::elems(out);
                }
            }
            if vals.iter().all(|v| *v == v0) {
                return v0.clone();
            }
            Val::Uninit
        }
        Val::Alt(_) => rep_cases(fs, vals, st, widen, bound),
        Val::Ptr(_) => rep_ptr(fs, vals, st, widen, bound),
        _ => Val::Uninit,
    }
}
fn rep_ptr(fs: &[&Facts], vals: &[&Val], st: &dyn Fn(&Lin) -> bool, widen: bool, bound: &mut Vec<Sym>) -> Val {
    let ps: Vec<&Rc<Ptr>> = vals.iter().map(|v| if let Val::Ptr(p) = v { p } else { unreachable!() }).collect();
    let p0 = ps[0];
    if ps.iter().any(|p| p.cell != p0.cell || p.path.len() != p0.path.len()) {
        return Val::Uninit;
    }
    let mut path = vec![];
    for i in 0..p0.path.len() {
        match &p0.path[i] {
            Step::Field(k) => {
                if ps.iter().any(|p| p.path[i] != Step::Field(*k)) {
                    return Val::Uninit;
                }
                path.push(Step::Field(*k));
            }
            k => {
                let win = matches!(k, Step::Window(_));
                let mut ls = vec![];
                for p in &ps {
                    match &p.path[i] {
                        Step::Index(l) if !win => ls.push(l.clone()),
                        Step::Window(l) if win => ls.push(l.clone()),
                        _ => return Val::Uninit,
                    }
                }
                let l = rep_leaf(fs, &ls, (0, MAXLEN), st, widen, bound);
                path.push(if win { Step::Window(l) } else { Step::Index(l) });
            }
        }
    }
    let meta = match &p0.meta {
        Meta::Len(_) => {
            let mut ls = vec![];
            for p in &ps {
                match &p.meta {
                    Meta::Len(l) => ls.push(l.clone()),
                    _ => return Val::Uninit,
                }
            }
            Meta::Len(rep_leaf(fs, &ls, (0, MAXLEN), st, widen, bound))
        }
        m => {
            if ps.iter().any(|p| p.meta != *m) {
                return Val::Uninit;
            }
            m.clone()
        }
    };
    Val::ptr(p0.cell, path, meta)
}
fn rep_cases(fs: &[&Facts], vals: &[&Val], st: &dyn Fn(&Lin) -> bool, widen: bool, bound: &mut Vec<Sym>) -> Val {
    let mut groups: BTreeMap<String, Vec<(&Facts, &Val)>> = BTreeMap::new();
    for (f, v) in fs.iter().zip(vals) {
        match v {
            Val::Alt(cs) => {
                for c in cs.iter() {
                    groups.entry(case_key(&c.val)).or_default().push((f, &c.val));
                }
            }
            v => groups.entry(case_key(v)).or_default().push((f, v)),
        }
    }
    let mut cases = vec![];
    for (_, g) in groups {
        let f: Vec<&Facts> = g.iter().map(|x| x.0).collect();
        let v: Vec<&Val> = g.iter().map(|x| x.1).collect();
        cases.push(Case { val: rep_val(&f, &v, st, widen, bound), facts: vec![] });
    }
    if cases.len() == 1 {
        return cases.pop().unwrap().val;
    }
    Val::Alt(Rc::new(cases))
}
/// Is the value an instance of the template?
fn covers(t: &Val, bound: &[Sym], v: &Val, f: &Facts) -> bool {
    let lin = |a: &Lin, b: &Lin| -> bool {
        if let Some(s) = a.as_sym() {
            if bound.contains(&s) {
                let (lo, hi) = sym_static(s);
                let (x, y) = f.range(b);
                return lo <= x && y <= hi;
            }
        }
        a == b
    };
    match (t, v) {
        (Val::Uninit, _) => true,
        (Val::Alt(c), Val::Alt(d)) => d.iter().all(|x| c.iter().any(|y| covers(&y.val, bound, &x.val, f))),
        (Val::Alt(c), v) => c.iter().any(|y| covers(&y.val, bound, v, f)),
        (Val::Zst, Val::Zst) => true,
        (Val::Int(a, _), Val::Int(b, _)) => lin(a, b),
        (Val::Enum(a), Val::Enum(b)) => lin(a, b),
        (Val::Enum(a), Val::Agg(k, x)) if x.is_empty() => lin(a, &Lin::k(*k as i128)),
        (Val::Bool(a), Val::Bool(b)) => {
            a == b || matches!(a, Cond::Ge(l) if l.t.len() == 1 && bound.contains(&l.t[0].0))
        }
        (Val::Float(a), Val::Float(b)) => a.lo <= b.lo && b.hi <= a.hi && (a.nan || !b.nan),
        (Val::Agg(a, x), Val::Agg(b, y)) => a == b && x.len() == y.len() && x.iter().zip(y.iter()).all(|(x, y)| covers(x, bound, y, f)),
        (Val::Arr(a), Val::Arr(b)) => {
            a == b
                || match (&a[..], &b[..]) {
                    ([Seg { k: SegK::Elems(x), .. }], [Seg { k: SegK::Elems(y), .. }]) => {
                        x.len() == y.len() && x.iter().zip(y.iter()).all(|(x, y)| covers(x, bound, y, f))
                    }
                    _ => false,
                }
        }
        (Val::Ptr(a), Val::Ptr(b)) => {
            a.cell == b.cell
                && a.path.len() == b.path.len()
                && a.path.iter().zip(&b.path).all(|(x, y)| match (x, y) {
                    (Step::Field(i), Step::Field(j)) => i == j,
                    (Step::Index(i), Step::Index(j)) | (Step::Window(i), Step::Window(j)) => lin(i, j),
                    _ => false,
                })
                && match (&a.meta, &b.meta) {
                    (Meta::Len(i), Meta::Len(j)) => lin(i, j),
                    (x, y) => x == y,
                }
        }
        (Val::Any(a, _), Val::Any(b, _)) => a == b,
        (a, b) => a == b,
    }
}

pub fn case_key(v: &Val) -> String {
    match v {
        Val::Agg(k, f) => format!("A{k}:{}", f.iter().map(shallow).collect::<String>()),
        v => shallow(v),
    }
}
fn shallow(v: &Val) -> String {
    match v {
        Val::Uninit => "U".into(),
        Val::Zst => "Z".into(),
        Val::Int(..) => "i".into(),
        Val::Bool(_) => "b".into(),
        Val::Float(_) => "f".into(),
        Val::Agg(k, f) if *k == ST => format!("({})", f.iter().map(shallow).collect::<String>()),
        Val::Agg(..) | Val::Enum(_) | Val::Alt(_) => "E".into(),
        Val::Arr(_) => "a".into(),
        Val::Ptr(p) => match p.cell {
            Cell::Heap(_) => format!("h{}", if let Meta::Dyn(t) = &p.meta { format!("{t}") } else { String::new() }),
            Cell::Const(i) => format!("c{i}"),
            Cell::Local(a, b) => format!("l{a}.{b}"),
        },
        Val::Fn(i) => format!("F{}", crate::mem::hash(i)),
        Val::Any(t, _) => format!("?{t}"),
    }
}

/// Control-relevant shape of the memory: states of different shape are kept
/// apart (0: finest).
pub fn shape(st: &State, from: usize, coarse: u8) -> String {
    let mut o = String::from(if st.failed { "!" } else { "" });
    let mut cells: Vec<Cell> = vec![];
    for (i, f) in st.frames.iter().enumerate().skip(from) {
        o.push_str(&format!("|{i}:"));
        for v in f.locals.iter() {
            shape_val(v, coarse, &mut cells, &mut o);
        }
    }
    let mut i = 0;
    while i < cells.len() {
        if let Cell::Heap(h) = cells[i] {
            if let Some(v) = st.heap.get(&h) {
                o.push_str(&format!("#{i}:"));
                let v = v.clone();
                shape_val(&v, coarse, &mut cells, &mut o);
            }
        }
        i += 1;
    }
    o
}
fn shape_val(v: &Val, coarse: u8, cells: &mut Vec<Cell>, o: &mut String) {
    match v {
        Val::Bool(c) if coarse == 0 => o.push_str(match c {
            Cond::T => "T",
            Cond::F => "F",
            _ => "b",
        }),
        Val::Agg(k, f) => {
            if coarse >= 2 && *k != ST {
                o.push('E');
                return;
            }
            if *k != ST {
                o.push_str(&format!("A{k}"));
            }
            o.push('(');
            for x in f.iter() {
                shape_val(x, coarse, cells, o);
            }
            o.push(')');
        }
        Val::Enum(_) => o.push('E'),
        Val::Alt(c) => {
            o.push('E');
            if coarse < 2 {
                for x in c.iter() {
                    o.push_str(&case_key(&x.val));
                }
            }
        }
        Val::Ptr(p) => {
            match p.cell {
                Cell::Heap(h) => {
                    if h == 0 {
                        // dangling: may be anything empty
                        o.push_str("p*");
                    } else {
                        let n = match cells.iter().position(|c| *c == p.cell) {
                            Some(n) => n,
                            None => {
                                cells.push(p.cell);
                                cells.len() - 1
                            }
                        };
                        o.push_str(&format!("p{n}"));
                    }
                }
                Cell::Const(i) => o.push_str(&format!("k{i}")),
                Cell::Local(a, b) => o.push_str(&format!("l{a}.{b}")),
            }
            for (i, s) in p.path.iter().enumerate() {
                match s {
                    Step::Field(k) => o.push_str(&format!(".{k}")),
                    Step::Index(_) if i + 1 == p.path.len() => {}
                    Step::Index(_) => o.push('['),
                    Step::Window(_) => o.push('w'),
                }
            }
            match &p.meta {
                Meta::Dyn(t) => o.push_str(&format!("{t}")),
                _ => {}
            }
        }
        v => o.push_str(&shallow(v)),
    }
}

/// Forget heap cells nothing points to.
pub fn gc(st: &mut State) {
    let mut seen: BTreeSet<u32> = BTreeSet::new();
    let mut todo: Vec<u32> = vec![];
    fn visit(v: &Val, todo: &mut Vec<u32>) {
        match v {
            Val::Ptr(p) => {
                if let Cell::Heap(h) = p.cell {
                    todo.push(h)
                }
            }
            Val::Agg(_, f) => f.iter().for_each(|x| visit(x, todo)),
            Val::Arr(s) => {
                for s in s.iter() {
                    match &s.k {
                        SegK::Elems(v) => v.iter().for_each(|x| visit(x, todo)),
                        SegK::Rep(r) => visit(&r.val, todo),
                        SegK::Bytes { .. } => {}
                    }
                }
            }
            Val::Alt(c) => c.iter().for_each(|x| visit(&x.val, todo)),
            _ => {}
        }
    }
    for f in &st.frames {
        for v in f.locals.iter() {
            visit(v, &mut todo);
        }
    }
    while let Some(h) = todo.pop() {
        if seen.insert(h) {
            if let Some(v) = st.heap.get(&h) {
                visit(v, &mut todo);
            }
        }
    }
    if st.heap.keys().any(|k| !seen.contains(k) && *k != 0) {
        let m = Rc::make_mut(&mut st.heap);
        m.retain(|k, _| *k == 0 || seen.contains(k));
    }
}

/// Join states of one shape.
pub fn join_states(cs: &[&State], lc: Option<&LoopCtx>, prev: Option<&Head>) -> Result<Head, String> {
    let n = cs.len();
    let mut j = J {
        cs,
        lc,
        prev,
        npos: 0,
        tuples: HashMap::new(),
        leaves: vec![],
        orig: vec![],
        loose: vec![],
        cells: HashMap::new(),
        inv: vec![HashMap::new(); n],
        todo: vec![],
        err: None,
    };
    let mut frames = vec![];
    for i in 0..cs[0].frames.len() {
        let f0 = &cs[0].frames[i].locals;
        if cs.iter().all(|s| Rc::ptr_eq(&s.frames[i].locals, f0)) {
            // shared: only pre-existing values; still reach its cells
            let mut ok = true;
            if lc.is_some() {
                // values in untouched outer frames are older than the loop, or heads of this loop
                let mut o = BTreeSet::new();
                f0.iter().for_each(|v| v.syms(&mut o));
                ok = o.iter().all(|s| stable_sym(*s, lc.unwrap()));
            }
            if ok {
                let mut ptrs = vec![];
                for v in f0.iter() {
                    collect_cells(v, &mut ptrs);
                }
                for h in ptrs {
                    j.cell((0..n).map(|i| (i, Cell::Heap(h))).collect(), false);
                }
                frames.push(Frame { locals: f0.clone() });
                continue;
            }
        }
        let mut locals = vec![];
        for k in 0..f0.len() {
            let items: Items = cs.iter().enumerate().map(|(c, s)| (c, &s.frames[i].locals[k])).collect();
            locals.push(j.join(&items, false));
        }
        frames.push(Frame { locals: Rc::new(locals) });
    }
    let mut heap: BTreeMap<u32, Val> = BTreeMap::new();
    heap.insert(0, Val::Arr(Rc::new(vec![])));
    let mut done: BTreeSet<Cell> = BTreeSet::new();
    while let Some((cells, to, loose)) = j.todo.pop() {
        if !done.insert(to) {
            continue;
        }
        let empty = Val::Arr(Rc::new(vec![]));
        let mut items: Items = vec![];
        for (c, x) in &cells {
            match cs[*c].cell(*x) {
                Some(v) => items.push((*c, v)),
                None => items.push((*c, &empty)),
            }
        }
        if items.is_empty() {
            continue;
        }
        // a dangling pointer stands for an empty buffer
        let v = j.join(&items, loose || items.len() != n);
        if let Cell::Heap(h) = to {
            heap.insert(h, v);
        }
    }
    if let Some(e) = j.err {
        return Err(e);
    }
    let leaves = j.leaves;
    let npos_forced: BTreeSet<u32> = leaves.iter().map(|l| l.2).chain(prev.into_iter().flat_map(|p| p.forced.iter().copied())).collect();
    let mut st = State { frames, heap: Rc::new(heap), facts: Facts::default(), failed: cs[0].failed };
    st.facts = join_facts(cs, lc, prev, &leaves, &j.orig, &st);
    Ok(Head { st, phis: leaves.iter().map(|l| (l.0, l.2)).collect(), forced: npos_forced })
}
fn collect_cells(v: &Val, out: &mut Vec<u32>) {
    match v {
        Val::Ptr(p) => {
            if let Cell::Heap(h) = p.cell {
                if h != 0 {
                    out.push(h)
                }
            }
        }
        Val::Agg(_, f) => f.iter().for_each(|x| collect_cells(x, out)),
        Val::Arr(s) => {
            for s in s.iter() {
                match &s.k {
                    SegK::Elems(v) => v.iter().for_each(|x| collect_cells(x, out)),
                    SegK::Rep(r) => collect_cells(&r.val, out),
                    SegK::Bytes { .. } => {}
                }
            }
        }
        Val::Alt(c) => c.iter().for_each(|x| collect_cells(&x.val, out)),
        _ => {}
    }
}

/// All symbols a memory mentions.
pub fn mem_syms(st: &State) -> BTreeSet<Sym> {
    let mut r = BTreeSet::new();
    for f in &st.frames {
        for v in f.locals.iter() {
            v.syms(&mut r);
        }
    }
    for v in st.heap.values() {
        v.syms(&mut r);
    }
    r
}

fn join_facts(cs: &[&State], lc: Option<&LoopCtx>, prev: Option<&Head>, leaves: &[(Sym, Vec<Lin>, u32)], orig: &[(Sym, Lin)], st: &State) -> Facts {
    let stab = |l: &Lin| lc.map_or(true, |lc| stable(l, lc));
    let n = cs.len();
    let phis: BTreeSet<Sym> = leaves.iter().map(|l| l.0).collect();
    // primed names during generation
    let mut prime: BTreeMap<Sym, Sym> = BTreeMap::new();
    let mut unprime: BTreeMap<Sym, Lin> = BTreeMap::new();
    for (i, (s, _, pos)) in leaves.iter().enumerate() {
        let (lo, hi) = sym_static(*s);
        let p = match lc {
            Some(lc) => mk_sym(Def::Phi(lc.inv, lc.class, pos + 1_000_000), lo, hi),
            None => {
                let _ = i;
                *s
            }
        };
        prime.insert(*s, p);
        if p != *s {
            unprime.insert(p, Lin::s(*s));
        }
    }
    let primes: BTreeSet<Sym> = prime.values().copied().collect();
    let mut maps: Vec<BTreeMap<Sym, Lin>> = vec![BTreeMap::new(); n];
    for (s, t, _) in leaves {
        for c in 0..n {
            maps[c].insert(*s, t[c].clone());
        }
    }
    let mut memos: Vec<HashMap<Sym, Lin>> = vec![HashMap::new(); n];
    let clean = |l: &Lin| l.syms().all(|s| primes.contains(&s) || deep_clean(s, &primes, lc));
    let mut cands: Vec<Lin> = vec![];
    let mut tries: Vec<Lin> = vec![];
    let mut nes: Vec<Lin> = vec![];
    let mut reach = mem_syms(st);
    reach.extend(phis.iter().copied());
    let gen = lc.map_or(true, |l| l.round <= 4);
    if let (Some(p), Some(_)) = (prev, lc) {
        for f in p.st.facts.ge.iter() {
            if f.syms().all(|s| phis.contains(&s) || stab(&Lin::s(s)) || deep_clean(s, &phis, lc)) {
                cands.push(f.clone());
            }
        }
        nes.extend(p.st.facts.ne.iter().cloned());
    }
    if gen {
        for (s, l) in orig {
            if stab(l) {
                let f = Lin::s(*s).sub(l);
                cands.push(f.clone());
                cands.push(f.neg());
            }
        }
        for (ci, c) in cs.iter().enumerate() {
            // eliminate local symbols in favour of the new head symbols
            let mut e: BTreeMap<Sym, Lin> = BTreeMap::new();
            let mut eqs: Vec<Lin> = vec![];
            for (s, t, _) in leaves {
                let v = &t[ci];
                if v.t.is_empty() {
                    continue;
                }
                let v2 = subst(&open_mods(v), &e, &mut HashMap::new());
                let p = Lin::s(prime[s]);
                if clean(&v2) {
                    eqs.push(p.sub(&v2));
                    continue;
                }
                let pick = v2.t.iter().find(|(x, a)| a.abs() == 1 && !primes.contains(x) && !deep_clean(*x, &primes, lc) && !e.contains_key(x));
                if let Some(&(x, a)) = pick {
                    let rest = v2.sub(&Lin { c: 0, t: vec![(x, a)] });
                    let rep = p.sub(&rest).scale(a);
                    let one: BTreeMap<Sym, Lin> = [(x, rep.clone())].into_iter().collect();
                    for v in e.values_mut() {
                        *v = subst(v, &one, &mut HashMap::new());
                    }
                    e.insert(x, rep);
                }
            }
            let mut memo = HashMap::new();
            let unp = |l: &Lin| if unprime.is_empty() { l.clone() } else { subst(l, &unprime, &mut HashMap::new()) };
            for f in &eqs {
                let g = unp(f);
                cands.push(g.clone());
                cands.push(g.neg());
            }
            let useful = |l: &Lin| l.syms().any(|s| reach.contains(&s));
            for f in c.facts.ge.iter() {
                let g = subst(f, &e, &mut memo);
                if !g.t.is_empty() && clean(&g) {
                    let g = unp(&g);
                    if useful(&g) {
                        cands.push(g);
                    }
                }
            }
            for f in c.facts.ne.iter() {
                let g = subst(f, &e, &mut memo);
                if !g.t.is_empty() && clean(&g) {
                    let g = unp(&g);
                    if useful(&g) {
                        nes.push(g);
                    }
                }
            }
            for (s, (lo, hi)) in c.facts.bounds.iter() {
                if e.contains_key(s) || !stab(&Lin::s(*s)) {
                    let g = subst(&Lin::s(*s), &e, &mut memo);
                    if g.t.len() > 1 && clean(&g) {
                        if *lo > -INF {
                            cands.push(unp(&g.addk(-lo)));
                        }
                        if *hi < INF {
                            cands.push(unp(&g.neg().addk(*hi)));
                        }
                    }
                }
            }
            // static bounds of eliminated symbols
            for (x, l) in &e {
                if l.t.len() > 1 && clean(l) {
                    let (lo, hi) = c.facts.bound(*x);
                    if lo > -INF {
                        cands.push(unp(&l.addk(-lo)));
                    }
                    if hi < INF {
                        cands.push(unp(&l.neg().addk(hi)));
                    }
                }
            }
        }
        // relations between head symbols
        let m = leaves.len().min(24);
        for a in 0..m {
            for b in a + 1..m {
                let (sa, ta, _) = &leaves[a];
                let (sb, tb, _) = &leaves[b];
                let d: Vec<Lin> = (0..n).map(|c| ta[c].sub(&tb[c])).collect();
                if d.windows(2).all(|w| w[0] == w[1]) && stab(&d[0]) {
                    let f = Lin::s(*sa).sub(&Lin::s(*sb)).sub(&d[0]);
                    cands.push(f.clone());
                    cands.push(f.neg());
                    continue;
                }
                // position plus remaining length: a sum most agree on (the
                // others may know one of the terms as a number)
                let d: Vec<Lin> = (0..n).map(|c| ta[c].add(&tb[c])).collect();
                let score = |i: usize| d.iter().filter(|x| **x == d[i]).count();
                let most = (0..n).filter(|&i| stab(&d[i])).max_by_key(|&i| score(i));
                let full = (0..n).filter(|&i| stab(&d[i]) && d[i].t.len() + 2 <= ta[i].t.len() + tb[i].t.len() + usize::from(n <= 4)).max_by_key(|&i| (d[i].t.len(), score(i)));
                let mut all = false;
                for k in most.into_iter().chain(full.filter(|&f| most.map_or(true, |m| d[m] != d[f]))) {
                    if score(k) < 2 && n > 4 || d[k].t.is_empty() {
                        continue;
                    }
                    let f = Lin::s(*sa).add(&Lin::s(*sb)).sub(&d[k]);
                    cands.push(f.clone());
                    cands.push(f.neg());
                    all |= score(k) == n;
                }
                if all {
                    continue;
                }
                if lc.is_some() {
                    // proportional change
                    let olda = Lin::s(*sa);
                    let oldb = Lin::s(*sb);
                    let mut ratio: Option<(i128, i128)> = None;
                    let mut entry: Option<Lin> = None;
                    let mut ok = true;
                    for c in 0..n {
                        let kk = |l: Lin| cs[c].facts.konst(&l).map(Lin::k).unwrap_or(l);
                        let (da, db) = (kk(ta[c].sub(&olda)), kk(tb[c].sub(&oldb)));
                        match (da.as_const(), db.as_const()) {
                            (Some(x), Some(y)) => {
                                if x == 0 && y == 0 {
                                    continue;
                                }
                                let g = gcd(x, y).max(1);
                                let r = if x < 0 || (x == 0 && y < 0) { (-x / g, -y / g) } else { (x / g, y / g) };
                                if ratio.map_or(false, |q| q != r) {
                                    ok = false;
                                }
                                ratio = Some(r);
                            }
                            _ => {
                                let base = entry.as_ref().map(|e| e.c as usize);
                                if stab(&ta[c]) && stab(&tb[c]) && base.map_or(true, |e| ta[c] == ta[e] && tb[c] == tb[e]) {
                                    // entry: value of y*a - x*b, checked below
                                    entry = Some(Lin::k(c as i128));
                                } else if let (Some(e), true) = (base, stab(&ta[c]) && stab(&tb[c])) {
                                    let (da, db) = (kk(ta[c].sub(&ta[e])), kk(tb[c].sub(&tb[e])));
                                    if da.as_const() == Some(0) && db.as_const() == Some(0) {
                                        continue;
                                    }
                                    let r = match (da.as_const(), db.as_const()) {
                                        (Some(x), Some(y)) => {
                                            let g = gcd(x, y).max(1);
                                            Some(if x < 0 || (x == 0 && y < 0) { (-x / g, -y / g) } else { (x / g, y / g) })
                                        }
                                        _ => lin_ratio(&da, &db),
                                    };
                                    match r {
                                        Some(r) if ratio.map_or(true, |q| q == r) => ratio = Some(r),
                                        _ => ok = false,
                                    }
                                } else if let (Some((x, y)), true) = (lin_ratio(&da, &db), true) {
                                    if ratio.map_or(false, |q| q != (x, y)) {
                                        ok = false;
                                    }
                                    ratio = Some((x, y));
                                } else {
                                    ok = false;
                                }
                            }
                        }
                    }
                    if let (true, Some((x, y)), Some(c)) = (ok, ratio, entry) {
                        let c = c.c as usize;
                        let k = ta[c].scale(y).sub(&tb[c].scale(x));
                        let f = Lin::s(*sa).scale(y).sub(&Lin::s(*sb).scale(x)).sub(&k);
                        // tried on the entry states alone; the next round
                        // has to show that the loop preserves it
                        if lc.unwrap().round <= 3 {
                            tries.push(f.normalize_ge());
                            tries.push(f.neg().normalize_ge());
                        }
                        cands.push(f.clone());
                        cands.push(f.neg());
                    }
                }
                if m <= 10 {
                    let f = Lin::s(*sa).sub(&Lin::s(*sb));
                    cands.push(f.clone());
                    cands.push(f.neg());
                }
            }
        }
    }
    // order against terms that stay the same: lengths
    if gen && leaves.len() <= 12 {
        let mut terms: BTreeSet<Lin> = BTreeSet::new();
        let mut add = |l: &Lin| {
            if !l.t.is_empty() && l.t.len() <= 2 && l.syms().all(|s| !phis.contains(&s)) && stab(l) {
                terms.insert(l.clone());
            }
        };
        for f in st.frames.last().iter() {
            for v in f.locals.iter() {
                lens(v, &mut add);
            }
        }
        for t in terms.iter().take(8) {
            for (s, _, _) in leaves {
                cands.push(t.sub(&Lin::s(*s)));
            }
        }
    }
    let mut out = Facts::default();
    // bounds of unchanged symbols
    let mut b: BTreeMap<Sym, (i128, i128)> = BTreeMap::new();
    for (s, (lo, hi)) in cs[0].facts.bounds.iter() {
        let fixed = matches!(sym_def(*s), Def::Byte(_, p) if p.as_const().is_some());
        if !(reach.contains(s) || fixed) || !stab(&Lin::s(*s)) || phis.contains(s) {
            continue;
        }
        let (mut l, mut h) = (*lo, *hi);
        for c in &cs[1..] {
            let (x, y) = c.facts.bound(*s);
            l = l.min(x);
            h = h.max(y);
        }
        b.insert(*s, (l, h));
    }
    for (s, t, _) in leaves {
        let (mut lo, mut hi) = (INF, -INF);
        for (c, v) in t.iter().enumerate() {
            let (x, y) = cs[c].facts.range(v);
            lo = lo.min(x);
            hi = hi.max(y);
        }
        let (slo, shi) = sym_static(*s);
        if let (Some(lc), Some(p)) = (lc, prev) {
            if p.phis.iter().any(|x| x.0 == *s) {
                let (pl, ph) = p.st.facts.bound(*s);
                if lo < pl && lc.round >= 2 {
                    lo = if lo >= 0 && lc.round < 5 { 0 } else { slo };
                } else {
                    lo = lo.min(pl);
                }
                if hi > ph && lc.round >= 2 {
                    hi = if lc.round < 5 { widen_hi(hi, shi) } else { shi };
                } else {
                    hi = hi.max(ph);
                }
            }
        }
        b.insert(*s, (lo.max(slo), hi.min(shi)));
    }
    out.bounds = Rc::new(b);
    if std::env::var("SA_JOIN").is_ok() {
        for (s, t, p) in leaves {
            eprintln!("   leaf {} @{p}: {}", show(&Lin::s(*s)), t.iter().map(show).collect::<Vec<_>>().join(" | "));
        }
    }
    cands.iter_mut().for_each(|f| *f = f.normalize_ge());
    let mut seen: HashSet<Lin> = HashSet::new();
    cands.retain(|f| seen.insert(f.clone()));
    // candidates that mention unreachable symbols only are useless
    let mut kept = vec![];
    for f in cands {
        if f.t.is_empty() {
            continue;
        }
        let touches = f.syms().any(|s| phis.contains(&s)) || { f.syms().any(|s| deep_has(s, &phis)) };
        if lc.is_some() && !touches && !stab(&f) {
            continue;
        }
        let new = tries.contains(&f) && prev.map_or(false, |p| !p.st.facts.ge.contains(&f));
        let need = if new { lc.map_or(n, |l| l.entries) } else { n };
        let ok = (0..need).all(|c| {
            let g = if touches { subst(&f, &maps[c], &mut memos[c]) } else { f.clone() };
            if g == f && cs[c].facts.ge.contains(&f) && !touches {
                return true;
            }
            cs[c].facts.implies_ge(&g)
        });
        if std::env::var("SA_JOIN").is_ok() && touches && f.t.iter().filter(|x| phis.contains(&x.0)).count() > 1 {
            let mut bad = vec![]; for c in 0..n { let g = subst(&f, &maps[c], &mut memos[c]); if !cs[c].facts.implies_ge(&g) { bad.push(format!("{c}:{}", show(&g))); } }
            eprintln!("   cand {} ok {ok} {}", show(&f), bad.join(" ; "));
        }
        if ok && out.range(&f).0 < 0 {
            kept.push(f);
        }
    }
    kept.sort();
    // drop what simpler facts already say
    out.ge = Rc::new(kept);
    nes.sort();
    nes.dedup();
    let mut kn = vec![];
    for f in nes {
        let touches = f.syms().any(|s| deep_has(s, &phis));
        if lc.is_some() && !touches && !stab(&f) {
            continue;
        }
        if (0..n).all(|c| {
            let g = if touches { subst(&f, &maps[c], &mut memos[c]) } else { f.clone() };
            cs[c].facts.implies_ne(&g)
        }) {
            kn.push(f);
        }
    }
    out.ne = Rc::new(kn);
    out
}
/// Remainders written with the quotient.
fn open_mods(l: &Lin) -> Lin {
    let mut r = Lin::k(l.c);
    for &(s, a) in &l.t {
        match sym_def(s) {
            Def::Mod(x, k) => {
                let q = div_const(&x, k, &|y| sym_static(y));
                r = r.add(&x.sub(&q.scale(k)).scale(a));
            }
            _ => r = r.add(&Lin { c: 0, t: vec![(s, a)] }),
        }
    }
    r
}
fn lens(v: &Val, add: &mut dyn FnMut(&Lin)) {
    match v {
        Val::Ptr(p) => {
            if let Meta::Len(l) = &p.meta {
                add(l)
            }
            if let Some(Step::Index(l)) = p.path.last() {
                add(l)
            }
        }
        Val::Int(l, t) if !t.signed => add(l),
        Val::Agg(_, f) => f.iter().for_each(|x| lens(x, add)),
        _ => {}
    }
}
fn lin_ratio(a: &Lin, b: &Lin) -> Option<(i128, i128)> {
    let (&(s, x), y) = (a.t.first()?, b.t.iter().find(|t| t.0 == a.t[0].0)?.1);
    let _ = s;
    let g = gcd(x, y).max(1);
    let (p, q) = if x < 0 { (-x / g, -y / g) } else { (x / g, y / g) };
    if a.scale(q) == b.scale(p) {
        Some((p, q))
    } else {
        None
    }
}
fn deep_has(s: Sym, set: &BTreeSet<Sym>) -> bool {
    if set.is_empty() {
        return false;
    }
    let mut o = BTreeSet::new();
    deep_sym(s, &mut o);
    o.iter().any(|x| set.contains(x))
}
/// Only primed head symbols and unchanging symbols inside.
fn deep_clean(s: Sym, primes: &BTreeSet<Sym>, lc: Option<&LoopCtx>) -> bool {
    if primes.contains(&s) {
        return true;
    }
    let Some(lc) = lc else { return true };
    match sym_def(s) {
        Def::Fresh(..) | Def::Phi(..) => s < lc.mark,
        Def::Byte(b, p) => b < lc.idmark && p.syms().all(|x| deep_clean(x, primes, Some(lc))),
        Def::Div(l, _) | Def::Mod(l, _) => l.syms().all(|x| deep_clean(x, primes, Some(lc))),
        Def::Prod(v) => v.iter().all(|x| deep_clean(*x, primes, Some(lc))),
        Def::Op(..) => stable_sym(s, lc),
    }
}
