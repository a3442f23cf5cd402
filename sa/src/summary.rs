//! Summaries of functions that read one byte slice: analysed once for any
//! content and any length, then used wherever the function is called.
use crate::interp::*;
use crate::lin::*;
use crate::mem::*;
use crate::place::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::collections::*;
use std::rc::Rc;

pub struct Summary {
    buf: u32,
    cell: u32,
    idmark: u32,
    params: Vec<Sym>,
    rets: Vec<(State, Val)>,
}
#[derive(Default)]
struct Skel {
    key: String,
    slice: Option<(Rc<Ptr>, Lin)>,
    ints: Vec<(Lin, It)>,
}
fn skel(f: &Facts, v: &Val, t: Ty, s: &mut Skel) -> bool {
    match v {
        Val::Zst => s.key.push('z'),
        Val::Fn(i) => s.key.push_str(&format!("f{}", i.name())),
        Val::Bool(Cond::T) => s.key.push('T'),
        Val::Bool(Cond::F) => s.key.push('F'),
        Val::Int(l, it) => match f.konst(l) {
            Some(c) => s.key.push_str(&format!("i{c}")),
            None => {
                s.ints.push((l.clone(), *it));
                s.key.push('n');
            }
        },
        Val::Agg(k, vs) => {
            s.key.push_str(&format!("({k}"));
            let ts: Vec<Ty> = match t.kind() {
                TyKind::RigidTy(RigidTy::Tuple(ts)) => ts,
                _ => return false,
            };
            if ts.len() != vs.len() {
                return false;
            }
            for (v, t) in vs.iter().zip(ts) {
                if !skel(f, v, t, s) {
                    return false;
                }
            }
            s.key.push(')');
        }
        Val::Ptr(p) => {
            let TyKind::RigidTy(RigidTy::Ref(_, e, m)) = t.kind() else { return false };
            let TyKind::RigidTy(RigidTy::Slice(e)) = e.kind() else { return false };
            let Meta::Len(n) = &p.meta else { return false };
            if s.slice.is_some() || m == rustc_public::mir::Mutability::Mut || int_ty(e) != Some(It::U8) || f.konst(n).is_some() {
                return false;
            }
            s.slice = Some((p.clone(), n.clone()));
            s.key.push('s');
        }
        _ => return false,
    }
    true
}
fn generic(f: &Facts, v: &Val, cell: Cell, len: &Lin, params: &mut Vec<Sym>) -> Val {
    match v {
        Val::Int(l, it) => match f.konst(l) {
            Some(c) => Val::Int(Lin::k(c), *it),
            None => {
                let (lo, hi) = it.range();
                let s = fresh("param", lo, hi);
                params.push(s);
                Val::Int(Lin::s(s), *it)
            }
        },
        Val::Agg(k, vs) => Val::agg(*k, vs.iter().map(|v| generic(f, v, cell, len, params)).collect()),
        Val::Ptr(_) => Val::ptr(cell, vec![Step::Index(Lin::k(0))], Meta::Len(len.clone())),
        v => v.clone(),
    }
}

struct Map<'a> {
    s: &'a Summary,
    st: &'a State,
    at: &'a Ptr,
    len: Lin,
    syms: HashMap<Sym, Lin>,
    ids: HashMap<u32, u32>,
}
impl<'a> Map<'a> {
    fn id(&mut self, i: u32) -> u32 {
        if i < self.s.idmark {
            return i;
        }
        *self.ids.entry(i).or_insert_with(new_id)
    }
    fn lin(&mut self, l: &Lin) -> Lin {
        let mut r = Lin::k(l.c);
        for &(s, a) in &l.t {
            r = r.add(&self.sym(s).scale(a));
        }
        r
    }
    fn sym(&mut self, s: Sym) -> Lin {
        if let Some(l) = self.syms.get(&s) {
            return l.clone();
        }
        let (lo, hi) = sym_static(s);
        let r = match sym_def(s) {
            Def::Fresh(..) | Def::Phi(..) => Lin::s(fresh("s", lo, hi)),
            Def::Byte(b, p) => {
                let p = self.lin(&p);
                if b == self.s.buf {
                    let mut path = self.at.path.clone();
                    advance(&mut path, &p);
                    match read_path(self.st, self.at.cell, &path) {
                        Ok(Val::Int(l, _)) => l,
                        _ => Lin::s(fresh("b", 0, 255)),
                    }
                } else {
                    byte(b, &p)
                }
            }
            Def::Div(l, k) => {
                let l = self.lin(&l);
                self.st.facts.div_const(&l, k)
            }
            Def::Mod(l, k) => {
                let l = self.lin(&l);
                self.st.facts.mod_const(&l, k)
            }
            Def::Prod(v) => v.iter().fold(Lin::k(1), |a, x| a.mul(&self.sym(*x))),
            Def::Op(n, v) => {
                if n == format!("len{}", self.s.buf) {
                    self.len.clone()
                } else if let Some((k, b)) = n.strip_prefix("bits").and_then(|x| x.split_once('@')) {
                    let (p, o) = (self.lin(&v[0]), self.lin(&v[1]));
                    if b == self.s.buf.to_string() {
                        let mut path = self.at.path.clone();
                        advance(&mut path, &p);
                        match crate::models::bits_at(self.st, &Ptr { cell: self.at.cell, path, meta: Meta::None }, &o, k.parse().unwrap_or(0)) {
                            Ok(l) => l,
                            _ => Lin::s(fresh("b", lo, hi)),
                        }
                    } else {
                        Lin::s(mk_sym(Def::Op(n, vec![p, o]), lo, hi))
                    }
                } else {
                    let v: Vec<Lin> = v.iter().map(|l| self.lin(l)).collect();
                    let n = self.op(&n);
                    Lin::s(op_sym(&n, v, lo, hi))
                }
            }
        };
        self.syms.insert(s, r.clone());
        r
    }
    /// Identities inside names.
    fn op(&mut self, n: &str) -> String {
        for p in ["any", "len"] {
            if let Some(i) = n.strip_prefix(p).and_then(|x| x.parse::<u32>().ok()) {
                return format!("{p}{}", self.id(i));
            }
        }
        if let Some((i, b)) = n.strip_prefix("elem").and_then(|x| x.split_once('.')) {
            if let (Ok(i), Ok(b)) = (i.parse::<u32>(), b.parse::<u32>()) {
                let b = self.sym(b).as_sym().unwrap_or(b);
                return format!("elem{}.{b}", self.id(i));
            }
        }
        n.to_string()
    }
    fn cond(&mut self, c: &Cond) -> Cond {
        match c {
            Cond::T | Cond::F => c.clone(),
            Cond::Ge(l) => Cond::ge(&self.lin(l), &Lin::k(0)),
            Cond::Eq(l) => Cond::eq(&self.lin(l), &Lin::k(0)),
            Cond::Ne(l) => Cond::eq(&self.lin(l), &Lin::k(0)).not(),
            Cond::And(p) => Cond::and(self.cond(&p.0), self.cond(&p.1)),
            Cond::Or(p) => Cond::or(self.cond(&p.0), self.cond(&p.1)),
        }
    }
    fn seg(&mut self, s: &Seg) -> Option<Seg> {
        let len = self.lin(&s.len);
        Some(Seg {
            len,
            k: match &s.k {
                SegK::Elems(v) => SegK::Elems(Rc::new(v.iter().map(|x| self.val(x)).collect::<Option<Vec<_>>>()?)),
                SegK::Bytes { buf, base } if *buf == self.s.buf => {
                    // bytes copied from the argument
                    let o = self.lin(base);
                    let mut path = self.at.path.clone();
                    advance(&mut path, &o);
                    let Some(Step::Index(i)) = path.pop() else { return None };
                    let Ok(Val::Arr(segs)) = read_path(self.st, self.at.cell, &path) else { return None };
                    let [one] = &segs[..] else { return None };
                    match &one.k {
                        SegK::Bytes { buf, base } => SegK::Bytes { buf: *buf, base: base.add(&i) },
                        _ => return None,
                    }
                }
                SegK::Bytes { buf, base } => SegK::Bytes { buf: *buf, base: self.lin(base) },
                SegK::Rep(r) => {
                    let bound: Vec<Sym> = r.bound.iter().map(|b| self.sym(*b).as_sym()).collect::<Option<Vec<_>>>()?;
                    let val = self.val(&r.val)?;
                    let facts = r.facts.iter().map(|f| self.lin(f)).collect();
                    SegK::Rep(Rc::new(Rep { id: self.id(r.id), val, bound, facts }))
                }
            },
        })
    }
    fn val(&mut self, v: &Val) -> Option<Val> {
        Some(match v {
            Val::Uninit | Val::Zst | Val::Fn(_) => v.clone(),
            Val::Int(l, t) => Val::Int(self.lin(l), *t),
            Val::Bool(c) => Val::Bool(self.cond(c)),
            Val::Enum(l) => Val::Enum(self.lin(l)),
            Val::Float(f) => {
                let form = match &f.form {
                    None => None,
                    Some(fm) => {
                        let mut t = vec![];
                        let mut ok = true;
                        for (s, k) in &fm.t {
                            match self.sym(*s).as_sym() {
                                Some(x) => t.push((x, *k)),
                                None => ok = false,
                            }
                        }
                        t.sort();
                        if ok && t.windows(2).all(|w| w[0].0 != w[1].0) {
                            Some(Rc::new(FForm { c: fm.c, t }))
                        } else {
                            None
                        }
                    }
                };
                let expr = f.expr.as_ref().map(|e| Rc::new((e.0.clone(), e.1.iter().map(|l| self.lin(l)).collect())));
                Val::Float(Fl { form, expr, ..f.clone() })
            }
            Val::Agg(k, f) => Val::Agg(*k, Rc::new(f.iter().map(|x| self.val(x)).collect::<Option<Vec<_>>>()?)),
            Val::Arr(s) => Val::Arr(Rc::new(s.iter().map(|s| self.seg(s)).collect::<Option<Vec<_>>>()?)),
            Val::Any(t, i) => Val::Any(*t, self.id(*i)),
            Val::Alt(c) => Val::Alt(Rc::new(
                c.iter()
                    .map(|c| {
                        let val = self.val(&c.val)?;
                        Some(Case { val, facts: c.facts.iter().map(|f| self.lin(f)).collect() })
                    })
                    .collect::<Option<Vec<_>>>()?,
            )),
            Val::Ptr(p) => {
                let mut path: Vec<Step> = p
                    .path
                    .iter()
                    .map(|s| match s {
                        Step::Field(i) => Step::Field(*i),
                        Step::Index(l) => Step::Index(self.lin(l)),
                        Step::Window(l) => Step::Window(self.lin(l)),
                    })
                    .collect();
                let meta = match &p.meta {
                    Meta::Len(l) => Meta::Len(self.lin(l)),
                    x => x.clone(),
                };
                let cell = match p.cell {
                    Cell::Heap(h) if h == self.s.cell => {
                        let mut at = self.at.path.clone();
                        match path.first() {
                            Some(Step::Index(l)) => advance(&mut at, l),
                            _ => return None,
                        }
                        at.extend(path.drain(1..));
                        path = at;
                        self.at.cell
                    }
                    Cell::Heap(h) if h != 0 => Cell::Heap(self.id(h)),
                    Cell::Local(..) => return None,
                    c => c,
                };
                Val::Ptr(Rc::new(Ptr { cell, path, meta }))
            }
        })
    }
}

impl Ix {
    /// The results of a call, from the function's summary.
    pub fn summarised(&mut self, fi: &FnInfo, inst: Instance, args: &[Val], st: &State) -> Option<Vec<(State, Val)>> {
        if !fi.in_crate || self.no_summary {
            return None;
        }
        let locals = fi.body.locals();
        let mut sk = Skel::default();
        for (i, a) in args.iter().enumerate() {
            if !skel(&st.facts, a, locals[i + 1].ty, &mut sk) {
                return None;
            }
            sk.key.push(',');
        }
        let (at, len) = sk.slice.clone()?;
        let key = (inst, sk.key.clone());
        if !self.summaries.contains_key(&key) {
            self.summaries.insert(key.clone(), None);
            let buf = new_id();
            let mut s0 = State::new();
            let cell = s0.alloc(any_seq(Ty::unsigned_ty(UintTy::U8), buf));
            let Cell::Heap(c) = cell else { return None };
            let l = len_sym(buf);
            let mut params = vec![];
            let gargs: Vec<Val> = args.iter().map(|a| generic(&st.facts, a, cell, &l, &mut params)).collect();
            let saved = std::mem::take(&mut self.reps);
            let (f0, u0) = (self.fails.len(), self.unsupported.len());
            let rets = self.exec_body(inst, gargs, s0);
            let reps = std::mem::replace(&mut self.reps, saved);
            if self.dead {
                self.summaries.remove(&key);
                return None;
            }
            if reps.is_empty() && self.fails.len() == f0 && self.unsupported.len() == u0 {
                self.summaries.insert(key.clone(), Some(Rc::new(Summary { buf, cell: c, idmark: buf, params, rets })));
            } else if self.trace == 9 {
                eprintln!("no summary of {} [{}]: {}", fi.name, sk.key, reps.iter().map(|r| r.text.clone()).collect::<Vec<_>>().join("; "));
            }
        }
        let s = self.summaries.get(&key)?.clone()?;
        let mut out = vec![];
        let mut m = Map { s: &s, st, at: &at, len, syms: HashMap::new(), ids: HashMap::new() };
        for (p, (l, _)) in s.params.iter().zip(&sk.ints) {
            m.syms.insert(*p, l.clone());
        }
        for (r, v) in &s.rets {
            let mut n = st.clone();
            n.failed |= r.failed;
            let mut ok = true;
            for (b, (lo, hi)) in r.facts.bounds.iter() {
                let l = m.lin(&Lin::s(*b));
                let (a, z) = sym_static(*b);
                if *lo > a {
                    ok = ok && assume(&mut n.facts, &Cond::ge(&l, &Lin::k(*lo)));
                }
                if *hi < z {
                    ok = ok && assume(&mut n.facts, &Cond::ge(&Lin::k(*hi), &l));
                }
            }
            for f in r.facts.ge.iter() {
                let l = m.lin(f);
                ok = ok && assume(&mut n.facts, &Cond::ge(&l, &Lin::k(0)));
            }
            for f in r.facts.ne.iter() {
                let l = m.lin(f);
                ok = ok && assume(&mut n.facts, &Cond::eq(&l, &Lin::k(0)).not());
            }
            if !ok || n.facts.infeasible() {
                continue;
            }
            let v = m.val(v)?;
            for (h, c) in r.heap.iter() {
                if *h != 0 && *h != s.cell {
                    let c = m.val(c)?;
                    let h = m.id(*h);
                    Rc::make_mut(&mut n.heap).insert(h, c);
                }
            }
            out.push((n, v));
        }
        Some(out)
    }
}
