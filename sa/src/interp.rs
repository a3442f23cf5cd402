//! Abstract interpretation of the compiler's intermediate representation.
//!
//! Functions are interpreted in the context of their callers, over the
//! linear domain of `lin` and the memory model of `val`; loops are iterated
//! to a fixpoint (`fixpoint`).
use crate::consts;
use crate::join::*;
use crate::lin::*;
use crate::mem::*;
use crate::ops;
use crate::place::*;
use crate::val::*;
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::*;
use std::rc::Rc;
use std::time::Instant;

pub struct Loop {
    pub header: usize,
    pub body: HashSet<usize>,
}
pub struct FnInfo {
    pub inst: Instance,
    pub name: String,
    pub body: Body,
    pub pos: Vec<usize>,
    pub order: Vec<usize>,
    pub loops: Vec<Loop>,
    pub header: HashMap<usize, usize>,
    pub live_in: Vec<Rc<Vec<bool>>>,
    pub addr: Vec<bool>,
    pub in_crate: bool,
}
fn succs(t: &TerminatorKind) -> Vec<usize> {
    match t {
        TerminatorKind::Goto { target } | TerminatorKind::Drop { target, .. } | TerminatorKind::Assert { target, .. } => vec![*target],
        TerminatorKind::SwitchInt { targets, .. } => targets.all_targets(),
        TerminatorKind::Call { target, .. } => target.iter().copied().collect(),
        _ => vec![],
    }
}
fn operand_uses(o: &Operand, f: &mut dyn FnMut(usize)) {
    if let Operand::Copy(p) | Operand::Move(p) = o {
        place_uses(p, f)
    }
}
fn place_uses(p: &Place, f: &mut dyn FnMut(usize)) {
    f(p.local);
    for e in &p.projection {
        if let ProjectionElem::Index(l) = e {
            f(*l)
        }
    }
}
fn rvalue_uses(r: &Rvalue, f: &mut dyn FnMut(usize)) {
    match r {
        Rvalue::AddressOf(_, p) | Rvalue::CopyForDeref(p) | Rvalue::Discriminant(p) | Rvalue::Len(p) | Rvalue::Ref(_, _, p) => place_uses(p, f),
        Rvalue::Reborrow(_, _, p) => place_uses(p, f),
        Rvalue::Aggregate(_, v) => v.iter().for_each(|o| operand_uses(o, f)),
        Rvalue::BinaryOp(_, a, b) | Rvalue::CheckedBinaryOp(_, a, b) => {
            operand_uses(a, f);
            operand_uses(b, f);
        }
        Rvalue::Cast(_, o, _) | Rvalue::Repeat(o, _) | Rvalue::UnaryOp(_, o) | Rvalue::Use(o, ..) => operand_uses(o, f),
        Rvalue::ThreadLocalRef(_) => {}
    }
}
impl FnInfo {
    fn new(inst: Instance, body: Body) -> FnInfo {
        let n = body.blocks.len();
        let sc: Vec<Vec<usize>> = body.blocks.iter().map(|b| succs(&b.terminator.kind)).collect();
        // reverse postorder
        let mut seen = vec![false; n];
        let mut post = vec![];
        let mut stack = vec![(0usize, 0usize)];
        seen[0] = true;
        while let Some((b, i)) = stack.pop() {
            if i < sc[b].len() {
                stack.push((b, i + 1));
                let t = sc[b][i];
                if !seen[t] {
                    seen[t] = true;
                    stack.push((t, 0));
                }
            } else {
                post.push(b);
            }
        }
        post.reverse();
        let mut pos = vec![usize::MAX; n];
        for (i, b) in post.iter().enumerate() {
            pos[*b] = i;
        }
        // dominators (simple iteration)
        let mut preds = vec![vec![]; n];
        for &b in &post {
            for &t in &sc[b] {
                preds[t].push(b);
            }
        }
        let mut idom = vec![usize::MAX; n];
        idom[0] = 0;
        let mut ch = true;
        while ch {
            ch = false;
            for &b in post.iter().skip(1) {
                let mut d = usize::MAX;
                for &p in &preds[b] {
                    if idom[p] == usize::MAX {
                        continue;
                    }
                    if d == usize::MAX {
                        d = p;
                    } else {
                        let (mut x, mut y) = (p, d);
                        while x != y {
                            while pos[x] > pos[y] {
                                x = idom[x];
                            }
                            while pos[y] > pos[x] {
                                y = idom[y];
                            }
                        }
                        d = x;
                    }
                }
                if d != idom[b] {
                    idom[b] = d;
                    ch = true;
                }
            }
        }
        let dom = |a: usize, mut b: usize| loop {
            if a == b {
                return true;
            }
            if b == 0 || idom[b] == usize::MAX {
                return false;
            }
            b = idom[b];
        };
        let mut loops: Vec<Loop> = vec![];
        let mut header = HashMap::new();
        for &b in &post {
            for &t in &sc[b] {
                if dom(t, b) {
                    let i = *header.entry(t).or_insert_with(|| {
                        loops.push(Loop { header: t, body: HashSet::from([t]) });
                        loops.len() - 1
                    });
                    let mut todo = vec![b];
                    while let Some(x) = todo.pop() {
                        if loops[i].body.insert(x) {
                            todo.extend(preds[x].iter().copied());
                        }
                    }
                }
            }
        }
        // locals whose address is taken
        let nl = body.locals().len();
        let mut addr = vec![false; nl];
        for b in &body.blocks {
            for s in &b.statements {
                if let StatementKind::Assign(_, Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p)) = &s.kind {
                    if !p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) {
                        addr[p.local] = true;
                    }
                }
            }
            if let TerminatorKind::Drop { place, .. } = &b.terminator.kind {
                if !place.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) {
                    // only during the drop
                    let _ = place;
                }
            }
        }
        // liveness
        let mut live_in: Vec<Vec<bool>> = vec![vec![false; nl]; n];
        let mut ch = true;
        while ch {
            ch = false;
            for &b in post.iter().rev() {
                let mut l = vec![false; nl];
                for &t in &sc[b] {
                    for i in 0..nl {
                        l[i] |= live_in[t][i];
                    }
                }
                let blk = &body.blocks[b];
                match &blk.terminator.kind {
                    TerminatorKind::Return => l[0] = true,
                    TerminatorKind::SwitchInt { discr, .. } => operand_uses(discr, &mut |x| l[x] = true),
                    TerminatorKind::Assert { cond, .. } => operand_uses(cond, &mut |x| l[x] = true),
                    TerminatorKind::Drop { place, .. } => place_uses(place, &mut |x| l[x] = true),
                    TerminatorKind::Call { func, args, destination, .. } => {
                        if destination.projection.is_empty() {
                            l[destination.local] = false;
                        } else {
                            place_uses(destination, &mut |x| l[x] = true);
                        }
                        operand_uses(func, &mut |x| l[x] = true);
                        for a in args {
                            operand_uses(a, &mut |x| l[x] = true);
                        }
                    }
                    _ => {}
                }
                for s in blk.statements.iter().rev() {
                    match &s.kind {
                        StatementKind::Assign(p, r) => {
                            if p.projection.is_empty() {
                                l[p.local] = false;
                            } else {
                                place_uses(p, &mut |x| l[x] = true);
                            }
                            rvalue_uses(r, &mut |x| l[x] = true);
                        }
                        StatementKind::SetDiscriminant { place, .. } => place_uses(place, &mut |x| l[x] = true),
                        StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => operand_uses(o, &mut |x| l[x] = true),
                        StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                            for o in [&c.src, &c.dst, &c.count] {
                                operand_uses(o, &mut |x| l[x] = true);
                            }
                        }
                        StatementKind::StorageLive(x) | StatementKind::StorageDead(x) => l[*x] = false,
                        _ => {}
                    }
                }
                if l != live_in[b] {
                    live_in[b] = l;
                    ch = true;
                }
            }
        }
        let name = norm(&inst.name());
        let in_crate = inst.def.krate().name == "subtile";
        FnInfo { inst, name, body, pos, order: post, loops, header, live_in: live_in.into_iter().map(Rc::new).collect(), addr, in_crate }
    }
}
/// Path without generic arguments.
pub fn norm(n: &str) -> String {
    let b: Vec<char> = n.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    let mut depth = 0usize;
    while i < b.len() {
        let c = b[i];
        if c == '<' {
            let prev = out.chars().last();
            if depth > 0 {
                depth += 1;
            } else if prev == Some(':') || prev.map_or(false, |p| p.is_alphanumeric() || p == '_') {
                depth = 1;
                if out.ends_with("::") {
                    out.truncate(out.len() - 2);
                }
            } else {
                out.push(c);
            }
        } else if c == '>' && depth > 0 && b.get(i.wrapping_sub(1)) != Some(&'-') {
            depth -= 1;
        } else if depth == 0 {
            out.push(c);
        }
        i += 1;
    }
    out.replace("r#", "")
}

#[derive(Clone)]
pub struct Ctx {
    pub inst: Instance,
    pub name: String,
    pub in_crate: bool,
    pub span: Option<Span>,
    pub block: usize,
}
#[derive(Clone, Debug)]
pub struct Rep1 {
    pub kind: &'static str,
    pub key: String,
    pub text: String,
    /// The state involved values the analysis knows nothing about.
    pub vague: bool,
}
pub enum Next {
    Goto(usize),
    Ret,
}
#[derive(Default)]
pub struct Out {
    pub back: Vec<State>,
    pub exits: BTreeMap<usize, Vec<State>>,
    pub rets: Vec<State>,
}
impl Out {
    fn absorb(&mut self, o: Out) {
        for (k, v) in o.exits {
            self.exits.entry(k).or_default().extend(v);
        }
        self.rets.extend(o.rets);
    }
}
pub struct Ix {
    pub cur: (usize, usize),
    pub infos: HashMap<Instance, Option<Rc<FnInfo>>>,
    pub chain: Vec<Ctx>,
    pub reps: Vec<Rep1>,
    pub checks: BTreeMap<String, (u64, u64)>,
    pub fails: BTreeMap<String, u64>,
    pub unsupported: BTreeMap<String, u64>,
    pub seen_fns: BTreeSet<String>,
    pub no_trial: HashSet<u64>,
    pub steps: u64,
    pub blocks: u64,
    pub joins: u64,
    pub loops: u64,
    pub start: Instant,
    pub limit: f64,
    pub trace: u8,
    pub dead: bool,
    pub prop: String,
    pub alloc_log: bool,
    pub ranked: BTreeSet<String>,
    pub allocs: BTreeSet<String>,
    pub mode: String,
    pub no_summary: bool,
    pub summaries: HashMap<(Instance, String), Option<Rc<crate::summary::Summary>>>,
    pub prof: HashMap<String, u64>,
    /// Blocks reached in functions of the library.
    pub cover: BTreeMap<String, (Rc<FnInfo>, BTreeSet<usize>)>,
    /// Run-time assertions decided, in functions of the library.
    pub asserts: HashSet<(Instance, usize)>,
}
const CAP_STATES: usize = 24;
const CAP_RETS: usize = 14;

impl Ix {
    pub fn new(prop: &str) -> Ix {
        Ix {
            infos: HashMap::new(),
            chain: vec![],
            reps: vec![],
            checks: BTreeMap::new(),
            fails: BTreeMap::new(),
            unsupported: BTreeMap::new(),
            seen_fns: BTreeSet::new(),
            no_trial: HashSet::new(),
            steps: 0,
            cur: (0, 0),
            blocks: 0,
            joins: 0,
            loops: 0,
            start: Instant::now(),
            limit: std::env::var("SA_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(600.0),
            trace: if std::env::var("SA_PROF").is_ok() { 9 } else { 0 } | std::env::var("SA_TRACE").ok().and_then(|x| x.parse().ok()).unwrap_or(0),
            dead: false,
            prop: prop.to_string(),
            alloc_log: prop == "C30",
            allocs: BTreeSet::new(),
            ranked: BTreeSet::new(),
            mode: prop.to_string(),
            no_summary: std::env::var("SA_NOSUM").is_ok(),
            summaries: HashMap::new(),
            prof: HashMap::new(),
            cover: BTreeMap::new(),
            asserts: HashSet::new(),
        }
    }
    pub fn fail(&mut self, m: impl Into<String>) {
        let m = m.into();
        if self.trace > 0 && self.trace < 9 {
            eprintln!("FAIL {m}\n   in {}", self.where_());
        }
        *self.fails.entry(m).or_default() += 1;
    }
    pub fn where_(&self) -> String {
        self.chain.iter().rev().take(6).map(|c| format!("{}@bb{}", c.name, c.block)).collect::<Vec<_>>().join(" < ")
    }
    fn out_of_time(&mut self) -> bool {
        if self.dead {
            return true;
        }
        if self.start.elapsed().as_secs_f64() > self.limit {
            self.dead = true;
            self.fail("time limit");
        }
        self.dead
    }
    pub fn info(&mut self, i: Instance) -> Option<Rc<FnInfo>> {
        if let Some(x) = self.infos.get(&i) {
            return x.clone();
        }
        let r = i.body().map(|b| Rc::new(FnInfo::new(i, b)));
        self.infos.insert(i, r.clone());
        r
    }
    /// Report at the innermost frame of the library.
    pub fn report(&mut self, kind: &'static str, what: &str, vague: bool) {
        let vague = vague || !self.unsupported.is_empty();
        let mut via = vec![];
        let mut at = None;
        for c in self.chain.iter().rev() {
            if c.in_crate {
                at = Some(c);
                break;
            }
            via.push(c.name.clone());
        }
        let at = at.or(self.chain.first());
        let (f, loc) = match at {
            Some(c) => (c.name.clone(), c.span.as_ref().map(crate::calls::loc).unwrap_or_default()),
            None => (String::new(), String::new()),
        };
        let callee = via.last().cloned().unwrap_or_default();
        let key = format!("{kind} in {f}: {what} [{callee}]");
        let text = format!("{loc}: in `{f}`: {what}{}", if via.is_empty() { String::new() } else { format!(" (through {})", via.iter().rev().cloned().collect::<Vec<_>>().join(" > ")) });
        if self.trace > 1 && self.trace < 9 {
            eprintln!("REPORT {text}");
        }
        if !self.reps.iter().any(|r| r.key == key && r.vague == vague) {
            self.reps.push(Rep1 { kind, key, text, vague });
        }
    }

    // ------------------------------------------------------------ calls
    pub fn exec_fn(&mut self, inst: Instance, args: Vec<Val>, st: State) -> Vec<(State, Val)> {
        if self.out_of_time() {
            return vec![];
        }
        let Some(fi) = self.info(inst) else {
            self.fail(format!("no body: {}", inst.name()));
            return vec![];
        };
        if self.chain.len() > 140 {
            self.fail(format!("deep recursion: {}", fi.name));
            return vec![];
        }
        if self.trace == 9 {
            *self.prof.entry(format!("call {}", fi.name)).or_default() += 1;
        }
        if fi.in_crate {
            self.seen_fns.insert(fi.name.clone());
        }
        if let Some(r) = self.summarised(&fi, inst, &args, &st) {
            return r;
        }
        self.exec_body(inst, args, st)
    }
    pub fn exec_body(&mut self, inst: Instance, args: Vec<Val>, mut st: State) -> Vec<(State, Val)> {
        let Some(fi) = self.info(inst) else { return vec![] };
        let depth = st.frames.len();
        let mut locals = vec![Val::Uninit; fi.body.locals().len()];
        let n = fi.body.arg_locals().len();
        if n != args.len() {
            self.fail(format!("argument count of {}: {} for {}", fi.name, args.len(), n));
            return vec![];
        }
        for (i, a) in args.into_iter().enumerate() {
            locals[i + 1] = a;
        }
        st.frames.push(Frame { locals: Rc::new(locals) });
        self.chain.push(Ctx { inst, name: fi.name.clone(), in_crate: fi.in_crate, span: None, block: 0 });
        if self.trace > 2 && self.trace < 9 {
            if self.trace == 4 {
                let l: Vec<String> = st.frames[depth].locals[1..=n].iter().map(short).collect();
                eprintln!("{}> {} {}", " ".repeat(self.chain.len()), fi.name, l.join(", "));
            } else {
                eprintln!("{}> {}", " ".repeat(self.chain.len()), fi.name);
            }
        }
        let o = self.region(&fi, None, vec![(0, vec![st])]);
        let mut rets = o.rets;
        for s in rets.iter_mut() {
            let l = Rc::make_mut(&mut s.frames[depth].locals);
            for (i, v) in l.iter_mut().enumerate() {
                if i != 0 {
                    *v = Val::Uninit;
                }
            }
        }
        if self.trace == 9 {
            *self.prof.entry(format!("rets {}", fi.name)).or_default() += rets.len() as u64;
        }
        let rets = self.limit(rets, CAP_RETS * WIDE.with(|w| w.get()));
        if self.trace > 2 && self.trace < 9 {
            eprintln!("{}< {} ({}) {}", " ".repeat(self.chain.len()), fi.name, rets.len(), rets.iter().map(|r| format!("{:.90}", format!("{:?}", r.frames.last().unwrap().locals[0]))).collect::<Vec<_>>().join(" | "));
        }
        self.chain.pop();
        let rt = fi.body.locals()[0].ty;
        rets.into_iter()
            .map(|mut s| {
                let f = s.frames.pop().unwrap();
                let v = if is_zst(rt) { Val::Zst } else { f.locals[0].clone() };
                (s, v)
            })
            .collect()
    }
    /// Merge equal states, and join when there are too many.
    fn limit(&mut self, mut v: Vec<State>, cap: usize) -> Vec<State> {
        if v.len() <= 1 {
            return v;
        }
        for s in v.iter_mut() {
            gc(s);
        }
        // equal memories with the same facts
        let mut out: Vec<State> = vec![];
        for s in v {
            if !out.iter().any(|o| same_state(o, &s)) {
                out.push(s);
            }
        }
        if out.len() <= cap {
            return out;
        }
        self.joins += 1;
        for coarse in 0..3u8 {
            let mut groups: BTreeMap<String, Vec<State>> = BTreeMap::new();
            for s in &out {
                groups.entry(shape(s, 0, coarse)).or_default().push(s.clone());
            }
            if groups.len() > cap && coarse < 2 {
                continue;
            }
            let mut r = vec![];
            for (_, g) in groups {
                if g.len() == 1 {
                    r.extend(g);
                    continue;
                }
                let refs: Vec<&State> = g.iter().collect();
                match join_states(&refs, None, None) {
                    Ok(h) => r.push(h.st),
                    Err(e) => {
                        if self.trace > 1 && self.trace < 9 {
                            eprintln!("join failed: {e}");
                        }
                        r.extend(g);
                    }
                }
            }
            if r.len() > 6 * cap {
                self.fail("too many states");
            }
            return r;
        }
        out
    }

    // ---------------------------------------------------------- control
    fn region(&mut self, fi: &Rc<FnInfo>, within: Option<usize>, entry: Vec<(usize, Vec<State>)>) -> Out {
        let mut out = Out::default();
        let mut pending: BTreeMap<usize, Vec<State>> = BTreeMap::new();
        for (b, s) in entry {
            pending.entry(fi.pos[b]).or_default().extend(s);
        }
        let mut first = true;
        while let Some((p, states)) = pending.pop_first() {
            if self.out_of_time() {
                return Out::default();
            }
            let b = fi.order[p];
            let mut states = states;
            for s in states.iter_mut() {
                kill_dead(fi, b, s);
            }
            let states = self.limit(states, CAP_STATES * WIDE.with(|w| w.get()));
            let route = |t: usize, s: State, pending: &mut BTreeMap<usize, Vec<State>>, out: &mut Out| {
                if let Some(l) = within {
                    if t == fi.loops[l].header {
                        out.back.push(s);
                        return;
                    }
                    if !fi.loops[l].body.contains(&t) {
                        out.exits.entry(t).or_default().push(s);
                        return;
                    }
                }
                pending.entry(fi.pos[t]).or_default().push(s);
            };
            if let Some(&l) = fi.header.get(&b) {
                if within != Some(l) || !first {
                    let o = self.run_loop(fi, l, states);
                    for (t, v) in o.exits {
                        for s in v {
                            route(t, s, &mut pending, &mut out);
                        }
                    }
                    out.rets.extend(o.rets);
                    first = false;
                    continue;
                }
            }
            first = false;
            for s in states {
                for (n, s) in self.run_block(fi, b, s) {
                    match n {
                        Next::Goto(t) => route(t, s, &mut pending, &mut out),
                        Next::Ret => out.rets.push(s),
                    }
                }
            }
        }
        out
    }

    fn run_loop(&mut self, fi: &Rc<FnInfo>, l: usize, entries: Vec<State>) -> Out {
        self.loops += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        use std::hash::{Hash, Hasher};
        for c in &self.chain {
            c.name.hash(&mut h);
            c.block.hash(&mut h);
        }
        l.hash(&mut h);
        let key = h.finish();
        if !self.no_trial.contains(&key) {
            if let Some(o) = self.trial(fi, l, &entries) {
                return o;
            }
            self.no_trial.insert(key);
        }
        self.fixpoint(fi, l, entries)
    }
    /// Follow the iterations one by one, when there are only few.
    fn trial(&mut self, fi: &Rc<FnInfo>, l: usize, entries: &[State]) -> Option<Out> {
        let mark = self.reps.len();
        let fmark = self.fails.clone();
        let umark = self.unsupported.clone();
        let hd = fi.loops[l].header;
        let mut out = Out::default();
        let mut cur = entries.to_vec();
        let mut undecided = 0;
        let mut single = cur.len() == 1;
        let (rounds, open) = if crate::mem::FOLD.with(|f| f.get()) { (64, 40) } else { (20, 9) };
        for it in 0..700 {
            let o = self.region(fi, Some(l), vec![(hd, cur)]);
            let both = !o.back.is_empty() && (!o.exits.is_empty() || !o.rets.is_empty());
            cur = o.back.clone();
            out.absorb(o);
            if cur.is_empty() {
                return Some(out);
            }
            if both {
                undecided += 1;
            }
            for s in cur.iter_mut() {
                kill_dead(fi, hd, s);
            }
            cur = self.limit(cur, 16);
            single &= cur.len() == 1 && undecided == 0;
            if (it > rounds && !single) || undecided > open || cur.len() > 12 || self.dead {
                break;
            }
        }
        if self.trace > 1 && self.trace < 9 {
            eprintln!("trial given up in {} loop {l}", fi.name);
        }
        self.reps.truncate(mark);
        self.fails = fmark;
        self.unsupported = umark;
        if self.dead {
            self.fail("time limit");
        }
        None
    }
    fn fixpoint(&mut self, fi: &Rc<FnInfo>, l: usize, entries: Vec<State>) -> Out {
        // nothing is known about the content any loop that is not unrolled reads
        let saved = std::mem::replace(&mut self.no_summary, false);
        // a small loop is analysed for each way into it, which keeps what
        // the states disagree about but the loop does not touch
        let o = if (2..=8).contains(&entries.len()) && !self.dead && self.small_loop(fi, l) {
            let mut o = Out::default();
            for e in entries {
                o.absorb(self.fixpoint1(fi, l, vec![e]));
            }
            o
        } else {
            self.fixpoint1(fi, l, entries)
        };
        self.no_summary = saved;
        o
    }
    /// A loop with no loop in it that calls only the standard library.
    fn small_loop(&self, fi: &Rc<FnInfo>, l: usize) -> bool {
        let b = &fi.loops[l].body;
        if b.len() > 12 || fi.loops.iter().enumerate().any(|(k, o)| k != l && b.contains(&o.header)) {
            return false;
        }
        b.iter().all(|x| match &fi.body.blocks[*x].terminator.kind {
            TerminatorKind::Call { func, .. } => func.ty(fi.body.locals()).ok().is_some_and(|t| match t.kind() {
                rustc_public::ty::TyKind::RigidTy(rustc_public::ty::RigidTy::FnDef(d, a)) => Instance::resolve(d, &a).is_ok_and(|i| matches!(i.def.krate().name.as_str(), "core" | "alloc" | "std")),
                _ => false,
            }),
            _ => true,
        })
    }
    fn fixpoint1(&mut self, fi: &Rc<FnInfo>, l: usize, entries: Vec<State>) -> Out {
        let hd = fi.loops[l].header;
        let mut entries = entries;
        for s in entries.iter_mut() {
            kill_dead(fi, hd, s);
            gc(s);
        }
        struct Class {
            head: Option<Head>,
            round: u32,
            entry: Vec<State>,
            contrib: BTreeMap<usize, Vec<State>>,
            dirty: bool,
            out: Out,
            reps: Vec<Rep1>,
        }
        'restart: for coarse in COARSE.with(|c| *c)..4u8 {
            if self.dead {
                return Out::default();
            }
            let inv = new_id();
            let mark = sym_count();
            let idmark = id_mark();
            let mut keys: BTreeMap<String, usize> = BTreeMap::new();
            let mut cl: Vec<Class> = vec![];
            let class_of = |s: &State, keys: &mut BTreeMap<String, usize>, cl: &mut Vec<Class>| -> usize {
                let k = if coarse == 3 { if s.failed { "!".to_string() } else { String::new() } } else { shape(s, 0, coarse) };
                *keys.entry(k).or_insert_with(|| {
                    cl.push(Class { head: None, round: 0, entry: vec![], contrib: BTreeMap::new(), dirty: true, out: Out::default(), reps: vec![] });
                    cl.len() - 1
                })
            };
            for e in &entries {
                let c = class_of(e, &mut keys, &mut cl);
                cl[c].entry.push(e.clone());
            }
            let rep_mark = self.reps.len();
            let mut iters = 0;
            while let Some(c) = cl.iter().position(|c| c.dirty) {
                if self.out_of_time() {
                    return Out::default();
                }
                iters += 1;
                if iters > 60 {
                    if self.trace > 0 && self.trace < 9 {
                        eprintln!("no fixpoint ({coarse}) in {} loop {l}", self.where_());
                    }
                    if coarse < 3 {
                        self.reps.truncate(rep_mark);
                        continue 'restart;
                    }
                    self.fail(format!("no fixpoint for a loop of {}", fi.name));
                    return Out::default();
                }
                let all: Vec<&State> = cl[c].entry.iter().chain(cl[c].contrib.values().flatten()).collect();
                let lc = LoopCtx { inv, class: c as u32, mark, idmark, round: cl[c].round, entries: cl[c].entry.len() };
                let h = match join_states(&all, Some(&lc), cl[c].head.as_ref()) {
                    Ok(h) => h,
                    Err(e) => {
                        if self.trace > 0 && self.trace < 9 {
                            eprintln!("loop join ({coarse}) failed: {e} in {}", self.where_());
                        }
                        if coarse < 3 {
                            self.reps.truncate(rep_mark);
                            continue 'restart;
                        }
                        self.fail(format!("loop of {}: {e}", fi.name));
                        return Out::default();
                    }
                };
                cl[c].dirty = false;
                if let Some(o) = &cl[c].head {
                    if same_state(&o.st, &h.st) {
                        cl[c].head = Some(h);
                        continue;
                    }
                }
                if self.trace > 1 && self.trace < 9 {
                    eprintln!("loop {} bb{hd} class {c} round {} [{}]", fi.name, cl[c].round, h.st.facts.ge.iter().map(show).collect::<Vec<_>>().join("; "));
                }
                cl[c].round += 1;
                let st = h.st.clone();
                cl[c].head = Some(h);
                let saved = std::mem::take(&mut self.reps);
                let mut o = self.region(fi, Some(l), vec![(hd, vec![st])]);
                let reps = std::mem::replace(&mut self.reps, saved);
                cl[c].reps = reps;
                let back = std::mem::take(&mut o.back);
                cl[c].out = o;
                for k in cl.iter_mut() {
                    if k.contrib.remove(&c).is_some() {
                        k.dirty = true;
                    }
                }
                for mut s in back {
                    kill_dead(fi, hd, &mut s);
                    gc(&mut s);
                    let k = class_of(&s, &mut keys, &mut cl);
                    let v = cl[k].contrib.entry(c).or_default();
                    if !v.iter().any(|o| same_state(o, &s)) {
                        v.push(s);
                    }
                    cl[k].dirty = true;
                }
                if cl.len() > 10 && coarse < 3 {
                    self.reps.truncate(rep_mark);
                    continue 'restart;
                }
            }
            if self.mode == "C06" {
                self.progress(fi, l, &cl.iter().map(|c| (c.head.as_ref().map(|h| &h.st), &c.contrib)).collect::<Vec<_>>());
            }
            let mut out = Out::default();
            for c in cl {
                for r in c.reps {
                    if !self.reps.iter().any(|x| x.key == r.key && x.vague == r.vague) {
                        self.reps.push(r);
                    }
                }
                // a class nothing reaches any more contributes nothing
                if c.entry.is_empty() && c.contrib.is_empty() {
                    continue;
                }
                out.absorb(c.out);
            }
            return out;
        }
        Out::default()
    }

    /// Does the loop make progress on every way back to its head?
    fn progress(&mut self, fi: &Rc<FnInfo>, l: usize, cl: &[(Option<&State>, &BTreeMap<usize, Vec<State>>)]) {
        if fi.inst.def.krate().name.to_string() == rustc_public::local_crate().name.to_string() {
            return;
        }
        let heads: Vec<crate::rank::Numbers> = cl.iter().map(|c| c.0.map(crate::rank::numbers).unwrap_or_default()).collect();
        let mut edges = vec![];
        for (to, c) in cl.iter().enumerate() {
            for (from, v) in c.1 {
                for s in v {
                    edges.push(crate::rank::Edge { from: *from, to, head: &heads[*from], next: crate::rank::numbers(s), facts: &s.facts });
                }
            }
        }
        let at = crate::modes::where_(&fi.body.blocks[fi.loops[l].header].terminator.source_info.span);
        self.ranked.insert(format!("{} {at}", fi.name));
        match crate::rank::judge(&edges) {
            crate::rank::Verdict::Progress => {}
            crate::rank::Verdict::Stuck(d) => self.report("loop", &format!("an iteration of the loop of {} at {at} may lead back to where it started ({d})", fi.name), false),
            crate::rank::Verdict::Unknown => self.fail(format!("no measure for the loop of {} at {at}", fi.name)),
        }
    }
    fn run_block(&mut self, fi: &Rc<FnInfo>, b: usize, st: State) -> Vec<(Next, State)> {
        self.blocks += 1;
        if self.trace == 9 {
            for c in &self.chain {
                if c.in_crate {
                    *self.prof.entry(c.name.clone()).or_default() += 1;
                }
            }
            *self.prof.entry(format!("self {}", fi.name)).or_default() += 1;
        }
        if fi.in_crate {
            self.cover.entry(fi.name.clone()).or_insert_with(|| (fi.clone(), BTreeSet::new())).1.insert(b);
        }
        let blk = &fi.body.blocks[b];
        let n = blk.statements.len();
        let mut work = vec![(st, 0usize)];
        let mut out = vec![];
        let mut forks = 0;
        while let Some((mut st, mut i)) = work.pop() {
            loop {
                self.steps += 1;
                let stop = if i < n {
                    let s = &blk.statements[i];
                    let c = self.chain.last_mut().unwrap();
                    c.span = Some(s.source_info.span);
                    c.block = b;
                    self.cur = (b, i);
                    match self.stmt(fi, &mut st, s) {
                        Ok(()) => {
                            i += 1;
                            continue;
                        }
                        Err(e) => e,
                    }
                } else {
                    let c = self.chain.last_mut().unwrap();
                    c.span = Some(blk.terminator.source_info.span);
                    c.block = b;
                    match self.term(fi, b, &st, &blk.terminator.kind) {
                        Ok(v) => {
                            out.extend(v);
                            break;
                        }
                        Err(e) => e,
                    }
                };
                forks += 1;
                if forks > 1500 * WIDE.with(|w| w.get()) {
                    self.fail(format!("too many cases in {}", fi.name));
                    return out;
                }
                match stop {
                    Stop::Infeasible => break,
                    Stop::Fork(c) => {
                        for s in self.split(st, &c) {
                            work.push((s, i));
                        }
                        break;
                    }
                    Stop::Alt(p) => match self.split_alt(&st, &p) {
                        Ok(v) => {
                            for s in v {
                                work.push((s, i));
                            }
                            break;
                        }
                        Err(m) => {
                            match self.give_up(fi, &st, b, i, &m) {
                                Some(v) if i >= n => out.extend(v),
                                Some(v) => work.extend(v.into_iter().map(|x| (x.1, i + 1))),
                                None => {}
                            }
                            break;
                        }
                    },
                    Stop::Arg(_) => unreachable!(),
                    Stop::Unsupported(m) => {
                        match self.give_up(fi, &st, b, i, &m) {
                            Some(v) if i >= n => out.extend(v),
                            Some(v) => work.extend(v.into_iter().map(|x| (x.1, i + 1))),
                            None => {}
                        }
                        break;
                    }
                }
            }
        }
        out
    }
    pub fn split(&mut self, st: State, c: &Cond) -> Vec<State> {
        // decide atoms first
        match c {
            Cond::And(p) | Cond::Or(p) => {
                if decide(&st.facts, &p.0).is_none() {
                    return self.split(st, &p.0);
                }
                return self.split(st, &p.1);
            }
            _ => {}
        }
        let mut out = vec![];
        let mut a = st.clone();
        let mut b = st;
        if assume(&mut b.facts, &c.not()) && !b.facts.infeasible() {
            out.push(b);
        }
        if assume(&mut a.facts, c) && !a.facts.infeasible() {
            out.push(a);
        }
        out
    }
    pub fn split_alt(&mut self, st: &State, p: &Ptr) -> Result<Vec<State>, String> {
        let v = match read_path(st, p.cell, &p.path) {
            Ok(v) => v,
            Err(Stop::Fork(c)) => return Ok(self.split(st.clone(), &c)),
            Err(e) => return Err(format!("{e:?}")),
        };
        let mut out = vec![];
        match v {
            Val::Alt(cs) => {
                for c in cs.iter() {
                    let mut s = st.clone();
                    let mut ok = true;
                    for f in &c.facts {
                        ok &= assume(&mut s.facts, &Cond::ge(f, &Lin::k(0)));
                    }
                    if !ok {
                        continue;
                    }
                    write_path(&mut s, p.cell, &p.path, c.val.clone(), None).map_err(|e| format!("{e:?}"))?;
                    out.push(s);
                }
            }
            Val::Any(t, id) => {
                let mut s0 = st.clone();
                let vs = match expand(&mut s0, t, id) {
                    Ok(v) => v,
                    Err(Stop::Unsupported(m)) => return Err(m),
                    Err(e) => return Err(format!("{e:?}")),
                };
                for v in vs {
                    let mut s = s0.clone();
                    write_path(&mut s, p.cell, &p.path, v, None).map_err(|e| format!("{e:?}"))?;
                    out.push(s);
                }
            }
            v => return Err(format!("not alternatives: {}", short(&v))),
        }
        Ok(out)
    }
    /// Continue with an unknown result.
    fn give_up(&mut self, fi: &Rc<FnInfo>, st: &State, b: usize, i: usize, m: &str) -> Option<Vec<(Next, State)>> {
        let what = format!("{m} @ {} bb{b}", fi.name);
        if self.trace > 0 && !self.unsupported.contains_key(&what) {
            eprintln!("UNSUPPORTED {what}\n   in {}", self.where_());
        }
        *self.unsupported.entry(what).or_default() += 1;
        let mut st = st.clone();
        let depth = st.frames.len() as u16 - 1;
        let blk = &fi.body.blocks[b];
        let havoc_dest = |st: &mut State, p: &Place| {
            let t = p.ty(fi.body.locals()).ok()?;
            if let Ok(l) = resolve(st, fi.body.locals(), depth, p) {
                let _ = write(st, &l, if is_zst(t) { Val::Zst } else { Val::Any(t, new_id()) });
            }
            Some(())
        };
        if i < blk.statements.len() {
            if let StatementKind::Assign(p, _) = &blk.statements[i].kind {
                havoc_dest(&mut st, p);
            }
            return Some(vec![(Next::Ret, st)]);
        }
        match &blk.terminator.kind {
            TerminatorKind::Call { args, destination, target, .. } => {
                let t = (*target)?;
                for a in args {
                    if let Ok(Val::Ptr(p)) = self.operand(&st, fi, depth, a) {
                        if let Some(pt) = a.ty(fi.body.locals()).ok().and_then(pointee) {
                            if !is_unsized(pt) && !matches!(p.cell, Cell::Const(_)) {
                                let _ = write_path(&mut st, p.cell, &p.path, Val::Any(pt, new_id()), None);
                            }
                        }
                    }
                }
                havoc_dest(&mut st, destination);
                Some(vec![(Next::Goto(t), st)])
            }
            TerminatorKind::Drop { target, .. } | TerminatorKind::Assert { target, .. } => Some(vec![(Next::Goto(*target), st)]),
            TerminatorKind::SwitchInt { targets, .. } => Some(targets.all_targets().into_iter().map(|t| (Next::Goto(t), st.clone())).collect()),
            _ => None,
        }
    }

    // ------------------------------------------------------- statements
    fn stmt(&mut self, fi: &Rc<FnInfo>, st: &mut State, s: &Statement) -> R<()> {
        let depth = st.frames.len() as u16 - 1;
        match &s.kind {
            StatementKind::Assign(p, r) => {
                let t = p.ty(fi.body.locals()).map_err(|e| Stop::Unsupported(format!("{e:?}")))?;
                if is_zst(t) {
                    return Ok(());
                }
                let v = self.rvalue(fi, st, depth, r, t)?;
                let l = resolve(st, fi.body.locals(), depth, p)?;
                write(st, &l, v)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let l = resolve(st, fi.body.locals(), depth, place)?;
                let v = read(st, &l)?;
                let fields = match v {
                    Val::Agg(_, f) => f,
                    _ => Rc::new(vec![]),
                };
                write(st, &l, Val::Agg(variant_index.to_index() as u32, fields))
            }
            StatementKind::StorageDead(x) | StatementKind::StorageLive(x) => {
                let f = st.frames.last_mut().unwrap();
                if !matches!(f.locals[*x], Val::Uninit) {
                    Rc::make_mut(&mut f.locals)[*x] = Val::Uninit;
                }
                Ok(())
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                if let Val::Bool(c) = self.operand(st, fi, depth, o)? {
                    if !assume(&mut st.facts, &c) {
                        return Err(Stop::Infeasible);
                    }
                }
                Ok(())
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                let src = self.operand(st, fi, depth, &c.src)?;
                let dst = self.operand(st, fi, depth, &c.dst)?;
                let n = self.operand(st, fi, depth, &c.count)?;
                let t = c.src.ty(fi.body.locals()).ok().and_then(pointee).ok_or(Stop::Unsupported("copy".into()))?;
                self.copy(st, &src, &dst, &n, t)
            }
            _ => Ok(()),
        }
    }
    pub fn copy(&mut self, st: &mut State, src: &Val, dst: &Val, n: &Val, t: Ty) -> R<()> {
        let Val::Int(n, _) = n else { return uns("copy count") };
        if is_zst(t) || st.facts.konst(n) == Some(0) {
            return Ok(());
        }
        let (Val::Ptr(s), Val::Ptr(d)) = (src, dst) else { return uns("copy of non-pointers") };
        if st.facts.konst(n) == Some(1) {
            let v = read(st, &deref(src, t)?)?;
            return write(st, &deref(dst, t)?, v);
        }
        if s.cell == consts::DANGLING || d.cell == consts::DANGLING {
            // only an empty region
            return if need(&st.facts, Cond::eq(n, &Lin::k(0)))? { Ok(()) } else { Err(Stop::Infeasible) };
        }
        let split = |p: &Ptr| -> (Vec<Step>, Lin) {
            match p.path.last() {
                Some(Step::Index(l) | Step::Window(l)) => (p.path[..p.path.len() - 1].to_vec(), l.clone()),
                _ => (p.path.clone(), Lin::k(0)),
            }
        };
        let (sp, so) = split(s);
        let (dp, dof) = split(d);
        let as_arr = |v: Val| match v {
            Val::Arr(s) => Ok((*s).clone()),
            Val::Uninit => Ok(vec![]),
            Val::Alt(_) | Val::Any(..) => Err(()),
            v => Ok(vec![Seg { len: Lin::k(1), k: SegK::Elems(Rc::new(vec![v])) }]),
        };
        let sv = read_path(st, s.cell, &sp)?;
        let sv = as_arr(sv).map_err(|_| Stop::Alt(Ptr { cell: s.cell, path: sp.clone(), meta: Meta::None }))?;
        let part = arr_slice(&st.facts, &sv, &so, n)?;
        let dv = read_path(st, d.cell, &dp)?;
        let dv = as_arr(dv).map_err(|_| Stop::Alt(Ptr { cell: d.cell, path: dp.clone(), meta: Meta::None }))?;
        let r = arr_splice(&st.facts, &dv, &dof, n, &part)?;
        write_path(st, d.cell, &dp, Val::Arr(Rc::new(r)), None)
    }

    pub fn operand(&mut self, st: &State, fi: &FnInfo, depth: u16, o: &Operand) -> R<Val> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let l = resolve(st, fi.body.locals(), depth, p)?;
                let v = read(st, &l)?;
                if let Val::Any(t, _) = &v {
                    if matches!(t.kind(), TyKind::RigidTy(RigidTy::Ref(..))) {
                        return Err(Stop::Alt(l.ptr()));
                    }
                }
                Ok(v)
            }
            Operand::Constant(c) => self.constant(c),
            Operand::RuntimeChecks(r) => Ok(Val::bool(matches!(r, RuntimeChecks::OverflowChecks))),
        }
    }
    pub fn constant(&mut self, c: &ConstOperand) -> R<Val> {
        let t = c.const_.ty();
        match c.const_.kind() {
            ConstantKind::ZeroSized => Ok(Val::Zst),
            ConstantKind::Allocated(a) => consts::decode(a, 0, t),
            ConstantKind::Ty(_) => match c.const_.eval_target_usize() {
                Ok(n) => Ok(Val::Int(Lin::k(n as i128), int_ty(t).unwrap_or(It::USIZE))),
                Err(_) => uns("constant"),
            },
            _ if is_zst(t) => Ok(Val::Zst),
            k => uns(format!("constant {k:?}")),
        }
    }
    fn rvalue(&mut self, fi: &Rc<FnInfo>, st: &mut State, depth: u16, r: &Rvalue, t: Ty) -> R<Val> {
        let locals = fi.body.locals();
        match r {
            Rvalue::Use(o, ..) => self.operand(st, fi, depth, o),
            Rvalue::CopyForDeref(p) => read(st, &resolve(st, locals, depth, p)?),
            Rvalue::Repeat(o, n) => {
                let v = self.operand(st, fi, depth, o)?;
                let n = n.eval_target_usize().map_err(|e| Stop::Unsupported(format!("{e:?}")))?;
                Ok(repeat(v, n))
            }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => {
                let l = resolve(st, locals, depth, p)?;
                if l.zst {
                    return Ok(Val::ptr(consts::DANGLING, vec![], Meta::None));
                }
                Ok(Val::Ptr(Rc::new(l.ptr())))
            }
            Rvalue::Len(p) => {
                let l = resolve(st, locals, depth, p)?;
                if let Some((_, n)) = arr_len(l.ty) {
                    return Ok(Val::usize(Lin::k(n as i128)));
                }
                match l.meta {
                    Meta::Len(n) => Ok(Val::usize(n)),
                    _ => uns("len"),
                }
            }
            Rvalue::Discriminant(p) => {
                let l = resolve(st, locals, depth, p)?;
                let it = int_ty(t).unwrap_or(It { bits: 64, signed: true });
                if is_zst(l.ty) {
                    return Ok(Val::Int(Lin::k(if is_enum(l.ty) { discr_of(l.ty, only_variant(l.ty)) } else { 0 }), it));
                }
                match read(st, &l)? {
                    Val::Agg(v, _) if v != ST => Ok(Val::Int(Lin::k(discr_of(l.ty, v)), it)),
                    Val::Enum(x) => Ok(Val::Int(discr_lin(st, l.ty, &x)?, it)),
                    Val::Alt(_) | Val::Any(..) => Err(Stop::Alt(l.ptr())),
                    // an error value is represented by its kind
                    v => uns(format!("discriminant of {} ({})", short(&v), l.ty)),
                }
            }
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![];
                for o in ops {
                    let ot = o.ty(locals).map_err(|e| Stop::Unsupported(format!("{e:?}")))?;
                    v.push(if is_zst(ot) { Val::Zst } else { self.operand(st, fi, depth, o)? });
                }
                match k {
                    AggregateKind::Array(_) => Ok(Val::elems(v)),
                    AggregateKind::Tuple | AggregateKind::Closure(..) => Ok(Val::tup(v)),
                    AggregateKind::Adt(d, var, _, _, active) => match d.kind() {
                        AdtKind::Enum => Ok(Val::agg(var.to_index() as u32, v)),
                        AdtKind::Union => {
                            let _ = active;
                            // an uninitialised union holds nothing
                            Ok(v.into_iter().next().map(|x| if let Val::Zst = x { Val::Uninit } else { x }).unwrap_or(Val::Uninit))
                        }
                        AdtKind::Struct => match erased(t) {
                            Some(j) => Ok(v[j].clone()),
                            None => Ok(Val::tup(v)),
                        },
                    },
                    AggregateKind::RawPtr(pt, _) => raw_ptr(*pt, &v[0], &v[1]),
                    _ => uns("aggregate"),
                }
            }
            Rvalue::BinaryOp(op, a, b) => {
                let ta = a.ty(locals).map_err(|e| Stop::Unsupported(format!("{e:?}")))?;
                let x = self.operand(st, fi, depth, a)?;
                let y = self.operand(st, fi, depth, b)?;
                for (v, o) in [(&x, a), (&y, b)] {
                    if let (Val::Any(t, _), Operand::Copy(p) | Operand::Move(p)) = (v, o) {
                        if inner_pointee(*t).is_some() {
                            return Err(Stop::Alt(resolve(st, locals, depth, p)?.ptr()));
                        }
                    }
                }
                if let (BinOp::Offset, Some(p)) = (op, pointee(ta)) {
                    if is_zst(p) {
                        return Ok(x);
                    }
                }
                if let (Val::Float(v), BinOp::Eq | BinOp::Ne) = (&x, op) {
                    // a value compared with itself
                    if !v.nan && same_source(&fi.body.blocks[self.cur.0].statements[..self.cur.1], a, b) {
                        return Ok(Val::Bool(if *op == BinOp::Eq { Cond::T } else { Cond::F }));
                    }
                }
                self.binop(st, *op, x, y, ta)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let x = self.operand(st, fi, depth, a)?;
                let y = self.operand(st, fi, depth, b)?;
                ops::checked(st, *op, &x, &y)
            }
            Rvalue::UnaryOp(op, o) => {
                let v = self.operand(st, fi, depth, o)?;
                let ot = o.ty(locals).map_err(|e| Stop::Unsupported(format!("{e:?}")))?;
                match (op, v) {
                    (UnOp::Not, Val::Bool(c)) => Ok(Val::Bool(c.not())),
                    (UnOp::Not, Val::Int(l, it)) => {
                        let m = if it.signed { -1 } else { it.range().1 };
                        Ok(Val::Int(Lin::k(m).sub(&l), it))
                    }
                    (UnOp::Neg, Val::Int(l, it)) => Ok(Val::Int(ops::wrap_fork(&st.facts, &l.neg(), it)?, it)),
                    (UnOp::Neg, Val::Float(f)) => Ok(Val::Float(crate::float::neg(&f))),
                    (UnOp::PtrMetadata, Val::Ptr(p)) => match &p.meta {
                        Meta::Len(n) => Ok(Val::usize(n.clone())),
                        Meta::None => Ok(Val::Zst),
                        Meta::Dyn(_) => uns("vtable"),
                    },
                    (o2, v) => {
                        if let (Val::Any(..) | Val::Alt(_), Operand::Copy(p) | Operand::Move(p)) = (&v, o) {
                            return Err(Stop::Alt(resolve(st, locals, depth, p)?.ptr()));
                        }
                        uns(format!("{o2:?} of {} {ot}", short(&v)))
                    }
                }
            }
            Rvalue::Cast(k, o, to) => {
                let from = o.ty(locals).map_err(|e| Stop::Unsupported(format!("{e:?}")))?;
                if let CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(..)) = k {
                    if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = from.kind() {
                        return match Instance::resolve_for_fn_ptr(d, &a) {
                            Ok(i) => Ok(Val::Fn(i)),
                            Err(e) => uns(format!("{e:?}")),
                        };
                    }
                }
                if let CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) = k {
                    if let TyKind::RigidTy(RigidTy::Closure(d, a)) = from.kind() {
                        return match Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                            Ok(i) => Ok(Val::Fn(i)),
                            Err(e) => uns(format!("{e:?}")),
                        };
                    }
                }
                let v = if is_zst(from) { Val::Zst } else { self.operand(st, fi, depth, o)? };
                if let (Val::Alt(_) | Val::Any(..), Operand::Copy(p) | Operand::Move(p)) = (&v, o) {
                    if !matches!(k, CastKind::Transmute | CastKind::Subtype) || (matches!(v, Val::Any(..)) && inner_pointee(from).is_some()) {
                        let l = resolve(st, locals, depth, p)?;
                        return Err(Stop::Alt(l.ptr()));
                    }
                }
                self.cast(st, k, v, from, *to)
            }
            Rvalue::ThreadLocalRef(_) => uns("thread local"),
        }
    }
    fn binop(&mut self, st: &mut State, op: BinOp, x: Val, y: Val, t: Ty) -> R<Val> {
        let x = if matches!(x, Val::Any(..)) { coerce(st, x, t)? } else { x };
        ops::bin(st, op, &x, &y)
    }
    pub fn cast(&mut self, st: &mut State, k: &CastKind, v: Val, from: Ty, to: Ty) -> R<Val> {
        match k {
            CastKind::IntToInt => {
                let Some(it) = int_ty(to) else {
                    return uns(format!("cast to {to}"));
                };
                match &v {
                    Val::Int(l, _) => Ok(Val::Int(ops::int_cast(st, l, it), it)),
                    Val::Bool(_) => {
                        let (l, _) = ops::as_int(st, &v)?;
                        Ok(Val::Int(l, it))
                    }
                    Val::Enum(l) => {
                        let d = discr_lin(st, from, l)?;
                        Ok(Val::Int(ops::int_cast(st, &d, it), it))
                    }
                    Val::Agg(k, _) => Ok(Val::Int(ops::int_cast(st, &Lin::k(discr_of(from, *k)), it), it)),
                    Val::Zst => Ok(Val::Int(Lin::k(if is_enum(from) { discr_of(from, 0) } else { 0 }), it)),
                    v => uns(format!("cast of {}", short(v))),
                }
            }
            CastKind::IntToFloat => {
                let (l, _) = ops::as_int(st, &v)?;
                Ok(Val::Float(crate::float::from_int(&st.facts, &l)))
            }
            CastKind::FloatToInt => {
                let (Val::Float(f), Some(it)) = (&v, int_ty(to)) else { return uns("float cast") };
                Ok(Val::Int(crate::float::trunc(&mut st.facts, f, it), it))
            }
            CastKind::FloatToFloat => match v {
                Val::Float(f) => Ok(Val::Float(Fl { form: None, expr: None, ..f })),
                _ => uns("float cast"),
            },
            CastKind::PtrToPtr | CastKind::FnPtrToPtr => ptr_cast(v, from, to),
            CastKind::PointerCoercion(c) => match c {
                PointerCoercion::UnsafeFnPointer | PointerCoercion::MutToConstPointer => Ok(v),
                PointerCoercion::ArrayToPointer => ptr_cast(v, from, to),
                PointerCoercion::Unsize => unsize(v, from, to),
                _ => uns("coercion"),
            },
            CastKind::Transmute | CastKind::BoxDerefTransmute => transmute(st, v, from, to),
            CastKind::Subtype => Ok(v),
            CastKind::PointerExposeAddress => match v {
                Val::Ptr(_) => Ok(Val::usize(Lin::s(fresh("address", 1, 1 << 62)))),
                v => Ok(v),
            },
            CastKind::PointerWithExposedProvenance => Ok(v),
        }
    }

    // ------------------------------------------------------ terminators
    fn term(&mut self, fi: &Rc<FnInfo>, b: usize, st: &State, t: &TerminatorKind) -> R<Vec<(Next, State)>> {
        let depth = st.frames.len() as u16 - 1;
        let locals = fi.body.locals();
        match t {
            TerminatorKind::Goto { target } => Ok(vec![(Next::Goto(*target), st.clone())]),
            TerminatorKind::Return => Ok(vec![(Next::Ret, st.clone())]),
            TerminatorKind::Unreachable | TerminatorKind::Resume | TerminatorKind::Abort => Ok(vec![]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = self.operand(st, fi, depth, discr)?;
                match &v {
                    Val::Int(l, it) => {
                        if let Some(c) = st.facts.konst(l) {
                            for (x, t) in targets.branches() {
                                if to_signed(x, *it) == c {
                                    return Ok(vec![(Next::Goto(t), st.clone())]);
                                }
                            }
                            return Ok(vec![(Next::Goto(targets.otherwise()), st.clone())]);
                        }
                        let mut out = vec![];
                        let mut rest = st.clone();
                        for (x, t) in targets.branches() {
                            let c = Cond::eq(l, &Lin::k(to_signed(x, *it)));
                            match decide(&rest.facts, &c) {
                                Some(true) => {
                                    out.push((Next::Goto(t), rest));
                                    return Ok(out);
                                }
                                Some(false) => {}
                                None => {
                                    let mut s = rest.clone();
                                    if assume(&mut s.facts, &c) && !s.facts.infeasible() {
                                        out.push((Next::Goto(t), s));
                                    }
                                    if !assume(&mut rest.facts, &c.not()) || rest.facts.infeasible() {
                                        return Ok(out);
                                    }
                                }
                            }
                        }
                        out.push((Next::Goto(targets.otherwise()), rest));
                        Ok(out)
                    }
                    Val::Bool(c) => {
                        let b = need(&st.facts, c.clone())?;
                        for (x, t) in targets.branches() {
                            if (x != 0) == b {
                                return Ok(vec![(Next::Goto(t), st.clone())]);
                            }
                        }
                        Ok(vec![(Next::Goto(targets.otherwise()), st.clone())])
                    }
                    Val::Any(..) | Val::Alt(_) => match discr {
                        Operand::Copy(p) | Operand::Move(p) => Err(Stop::Alt(resolve(st, locals, depth, p)?.ptr())),
                        _ => uns("switch"),
                    },
                    v => uns(format!("switch on {}", short(v))),
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                if fi.in_crate {
                    self.asserts.insert((fi.inst, b));
                }
                let v = self.operand(st, fi, depth, cond)?;
                let Val::Bool(c) = v else { return uns("assert") };
                let c = if *expected { c } else { c.not() };
                match decide(&st.facts, &c) {
                    Some(true) => Ok(vec![(Next::Goto(*target), st.clone())]),
                    d => {
                        // decide disjunctions case by case
                        if d.is_none() {
                            if let Cond::Or(p) = &c {
                                if decide(&st.facts, &p.0).is_none() {
                                    return Err(Stop::Fork(p.0.clone()));
                                }
                            }
                        }
                        let text = match msg {
                            AssertMessage::BoundsCheck { .. } => "index out of bounds",
                            m => m.description().unwrap_or("assertion"),
                        };
                        let vague = self.vague(&c);
                        if self.trace > 1 && self.trace < 9 {
                            eprintln!("assert {} : {:?}\n  facts {}", text, c, show_facts(&st.facts));
                        }
                        self.report("panic", &format!("possible panic: {text}"), vague);
                        let mut s = st.clone();
                        if d == Some(false) || !assume(&mut s.facts, &c) || s.facts.infeasible() {
                            return Ok(vec![]);
                        }
                        Ok(vec![(Next::Goto(*target), s)])
                    }
                }
            }
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(locals).map_err(|e| Stop::Unsupported(format!("{e:?}")))?;
                if !self.needs_drop_run(ty) {
                    return Ok(vec![(Next::Goto(*target), st.clone())]);
                }
                let l = resolve(st, locals, depth, place)?;
                let inst = Instance::resolve_drop_in_place(ty);
                let ptr = if l.zst { Val::ptr(consts::DANGLING, vec![], Meta::None) } else { Val::Ptr(Rc::new(l.ptr())) };
                let r = self.exec_fn(inst, vec![ptr], st.clone());
                Ok(r.into_iter().map(|(s, _)| (Next::Goto(*target), s)).collect())
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(locals).map_err(|e| Stop::Unsupported(format!("{e:?}")))?;
                let mut vals = vec![];
                for a in args {
                    let at = a.ty(locals).map_err(|e| Stop::Unsupported(format!("{e:?}")))?;
                    vals.push(if is_zst(at) { Val::Zst } else { self.operand(st, fi, depth, a)? });
                }
                let rt = destination.ty(locals).map_err(|e| Stop::Unsupported(format!("{e:?}")))?;
                let never = target.is_none();
                let tys: Vec<Ty> = args.iter().filter_map(|a| a.ty(locals).ok()).collect();
                let (inst, vals, untuple) = match fty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                        let i = Instance::resolve(d, &a).map_err(|e| Stop::Unsupported(format!("{e:?}")))?;
                        (i, vals, true)
                    }
                    TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                        let i = Instance::resolve_closure(d, &a, ClosureKind::FnOnce).map_err(|e| Stop::Unsupported(format!("{e:?}")))?;
                        (i, vals, false)
                    }
                    TyKind::RigidTy(RigidTy::FnPtr(_)) => match self.operand(st, fi, depth, func)? {
                        Val::Fn(i) => {
                            let mut v = vals;
                            if matches!(i.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..))) {
                                v.insert(0, Val::Zst);
                            }
                            (i, v, false)
                        }
                        // a function of the caller: any result
                        Val::Any(t, _) if matches!(t.kind(), TyKind::RigidTy(RigidTy::FnPtr(_))) => {
                            if never || tys.iter().any(|t| matches!(t.kind(), TyKind::RigidTy(RigidTy::Ref(_, _, Mutability::Mut) | RigidTy::RawPtr(..)))) {
                                return uns("call of an unknown function");
                            }
                            let mut s = st.clone();
                            let l = resolve(&s, locals, depth, destination)?;
                            write(&mut s, &l, crate::models::any_of(rt))?;
                            return Ok(vec![(Next::Goto(target.unwrap()), s)]);
                        }
                        Val::Alt(_) | Val::Any(..) => match func {
                            Operand::Copy(p) | Operand::Move(p) => return Err(Stop::Alt(resolve(st, locals, depth, p)?.ptr())),
                            _ => return uns("function value"),
                        },
                        v => return uns(format!("call of {}", short(&v))),
                    },
                    _ => return uns("callee"),
                };
                let r = self.call(inst, vals, &tys, untuple, st, rt, never);
                let r = match r {
                    Err(Stop::Arg(i)) => {
                        return match &args[i] {
                            Operand::Copy(p) | Operand::Move(p) => Err(Stop::Alt(resolve(st, locals, depth, p)?.ptr())),
                            _ => uns("alternative constant"),
                        }
                    }
                    r => r?,
                };
                let Some(target) = target else { return Ok(vec![]) };
                let mut out = vec![];
                for (mut s, v) in r {
                    let l = resolve(&s, locals, depth, destination)?;
                    write(&mut s, &l, v)?;
                    out.push((Next::Goto(*target), s));
                }
                let _ = b;
                Ok(out)
            }
            TerminatorKind::InlineAsm { .. } => uns("inline assembly"),
        }
    }
    /// Does a condition depend on values the analysis knows nothing about?
    pub fn vague(&self, _c: &Cond) -> bool {
        false
    }
    pub fn call(&mut self, inst: Instance, mut args: Vec<Val>, tys: &[Ty], untuple: bool, st: &State, rt: Ty, never: bool) -> R<Vec<(State, Val)>> {
        let mut inst = inst;
        if let InstanceKind::Virtual { idx } = inst.kind {
            let Val::Ptr(p) = &args[0] else { return uns("virtual call") };
            let Meta::Dyn(t) = &p.meta else { return uns("virtual call without a type") };
            let mut dt = tys[0];
            while pointee(dt).is_none() {
                match (box_pointee(dt), erased(dt)) {
                    (Some(x), _) => {
                        dt = x;
                        break;
                    }
                    (None, Some(j)) => dt = field_tys(dt, 0).unwrap()[j],
                    _ => return uns("virtual receiver"),
                }
            }
            let dt = pointee(dt).unwrap_or(dt);
            let Some(i) = consts::vtable_method(*t, dt, idx) else { return uns("vtable entry") };
            let q = Ptr { meta: Meta::None, ..(**p).clone() };
            // trait objects of unsized-tail types do not occur
            args[0] = Val::Ptr(Rc::new(q));
            inst = i;
        }
        if let Some(n) = inst.intrinsic_name() {
            if matches!(inst.kind, InstanceKind::Intrinsic) || !inst.has_body() {
                return self.intrinsic(&n.to_string(), inst, args, tys, st.clone(), rt);
            }
        }
        let name = norm(&inst.name());
        if let Some(r) = self.model(&name, inst, &args, tys, st, rt, never) {
            return r;
        }
        if never || matches!(rt.kind(), TyKind::RigidTy(RigidTy::Never)) {
            let mut msg = String::new();
            for a in &args {
                if let Some(s) = self.const_str(st, a) {
                    msg = s;
                }
            }
            let what = format!("possible panic: {}{}", name, if msg.is_empty() { String::new() } else { format!(" ({msg})") });
            if self.trace > 1 && self.trace < 9 {
                eprintln!("panic call {name} {msg}\n  facts {}", show_facts(&st.facts));
            }
            self.report("panic", &what, false);
            return Ok(vec![]);
        }
        if let InstanceKind::Shim = inst.kind {
            if inst.is_empty_shim() {
                return Ok(vec![(st.clone(), Val::Zst)]);
            }
        }
        let Some(fi) = self.info(inst) else {
            // constructor functions
            if let TyKind::RigidTy(RigidTy::Adt(d, _)) = rt.kind() {
                if is_zst(rt) {
                    return Ok(vec![(st.clone(), Val::Zst)]);
                }
                let last = name.rsplit("::").next().unwrap_or("").to_string();
                if d.kind() == AdtKind::Enum {
                    if let Some(k) = d.variants().iter().position(|v| v.name() == last) {
                        if field_tys(rt, k).map_or(false, |f| f.len() == args.len()) {
                            return Ok(vec![(st.clone(), Val::agg(k as u32, args))]);
                        }
                    }
                } else if field_tys(rt, 0).map_or(false, |f| f.len() == args.len()) {
                    return Ok(vec![(st.clone(), match erased(rt) {
                        Some(j) => args[j].clone(),
                        None => Val::tup(args),
                    })]);
                }
            }
            return uns(format!("no body: {name}"));
        };
        let closure = matches!(inst.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
        let n = fi.body.arg_locals().len();
        if (closure && untuple && fi.body.spread_arg().is_none()) || args.len() != n {
            let last = args.pop();
            match last {
                Some(Val::Agg(_, f)) => args.extend(f.iter().cloned()),
                Some(Val::Zst) => {
                    // a tuple without content: pass as many empty values
                    while args.len() < n {
                        args.push(Val::Zst);
                    }
                }
                Some(Val::Any(t, id)) => {
                    let mut s = st.clone();
                    let v = expand(&mut s, t, id)?;
                    match v.into_iter().next() {
                        Some(Val::Agg(_, f)) => args.extend(f.iter().cloned()),
                        _ => return uns("closure arguments"),
                    }
                }
                Some(v) => args.push(v),
                None => {}
            }
        }
        if name == "nom::bits::complete::take::{closure#0}" {
            if let Some(r) = self.bits_take(&args, st, rt) {
                return r;
            }
        }
        Ok(self.exec_fn(inst, args, st.clone()))
    }
    pub fn const_str(&self, st: &State, v: &Val) -> Option<String> {
        let Val::Ptr(p) = v else { return None };
        let Meta::Len(n) = &p.meta else { return None };
        let n = st.facts.konst(n)?;
        if n > 200 {
            return None;
        }
        let Some(Step::Index(o)) = p.path.last() else { return None };
        let o = st.facts.konst(o)?;
        let a = read_path(st, p.cell, &p.path[..p.path.len() - 1]).ok()?;
        let Val::Arr(s) = a else { return None };
        let mut b = vec![];
        for i in 0..n {
            match arr_get(&st.facts, &s, &Lin::k(o + i)).ok()? {
                Val::Int(l, x) if x.bits == 8 => b.push(l.as_const()? as u8),
                _ => return None,
            }
        }
        String::from_utf8(b).ok()
    }
    /// Only destructors that do more than give memory back are run.
    pub fn needs_drop_run(&mut self, t: Ty) -> bool {
        thread_local! {
            static M: std::cell::RefCell<HashMap<Ty, bool>> = Default::default();
        }
        if let Some(b) = M.with(|m| m.borrow().get(&t).copied()) {
            return b;
        }
        M.with(|m| m.borrow_mut().insert(t, false));
        let r = match t.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, a)) => {
                let n = d.name().to_string();
                const FREE: &[&str] = &[
                    "vec::Vec", "boxed::Box", "rc::Rc", "sync::Arc", "string::String", "raw_vec::RawVec", "raw_vec::RawVecInner", "io::Error", "io::error::Error", "fs::File", "OwnedFd",
                    "into_iter::IntoIter", "vec::IntoIter", "CompactString", "LazyLock", "Regex", "regex", "PathBuf", "OsString", "collections", "hashbrown", "hash_map", "fmt::", "CString", "repr::Repr", "array::IntoIter",
                ];
                if FREE.iter().any(|f| n.contains(f)) {
                    // what it owns
                    a.0.iter().any(|x| if let GenericArgKind::Type(x) = x { self.needs_drop_run(*x) } else { false }) && false
                } else if n.starts_with("image::") || n.starts_with("regex") || n.starts_with("png::") {
                    false
                } else {
                    let own = has_drop_impl(t);
                    own || (0..d.num_variants()).any(|v| field_tys(t, v).unwrap_or_default().iter().any(|x| self.needs_drop_run(*x)))
                }
            }
            TyKind::RigidTy(RigidTy::Tuple(v)) => v.iter().any(|x| self.needs_drop_run(*x)),
            TyKind::RigidTy(RigidTy::Closure(..)) => consts::upvar_tys(t).iter().any(|x| self.needs_drop_run(*x)),
            TyKind::RigidTy(RigidTy::Array(e, _)) => self.needs_drop_run(e),
            _ => false,
        };
        M.with(|m| m.borrow_mut().insert(t, r));
        r
    }
}
fn has_drop_impl(t: Ty) -> bool {
    // the drop glue calls `<T as Drop>::drop` when the type has one
    let i = Instance::resolve_drop_in_place(t);
    if i.is_empty_shim() {
        return false;
    }
    let Some(b) = i.body() else { return false };
    b.blocks.iter().any(|blk| match &blk.terminator.kind {
        TerminatorKind::Call { func, .. } => match func.ty(b.locals()).map(|t| t.kind()) {
            Ok(TyKind::RigidTy(RigidTy::FnDef(d, a))) => {
                let n = d.name().to_string();
                n.ends_with("Drop::drop") && matches!(a.0.first(), Some(GenericArgKind::Type(x)) if *x == t)
            }
            _ => false,
        },
        _ => false,
    })
}

pub fn repeat(v: Val, n: u64) -> Val {
    if n <= 300 {
        return Val::elems(vec![v; n as usize]);
    }
    Val::Arr(Rc::new(vec![Seg { len: Lin::k(n as i128), k: SegK::Rep(Rc::new(Rep { id: new_id(), val: v, bound: vec![], facts: vec![] })) }]))
}
pub fn show_facts(f: &Facts) -> String {
    let mut s = f.ge.iter().map(|l| format!("{} >= 0", show(l))).collect::<Vec<_>>();
    s.extend(f.ne.iter().map(|l| format!("{} != 0", show(l))));
    s.extend(f.bounds.iter().map(|(s, b)| format!("{} in {}..{}", show_sym(*s), b.0, b.1)));
    s.join("; ")
}
pub fn same_state(a: &State, b: &State) -> bool {
    (Rc::ptr_eq(&a.facts.ge, &b.facts.ge) || a.facts.ge == b.facts.ge)
        && (Rc::ptr_eq(&a.facts.bounds, &b.facts.bounds) || a.facts.bounds == b.facts.bounds)
        && (Rc::ptr_eq(&a.facts.ne, &b.facts.ne) || a.facts.ne == b.facts.ne)
        && a.failed == b.failed
        && a.frames.len() == b.frames.len()
        && a.frames.iter().zip(&b.frames).all(|(x, y)| Rc::ptr_eq(&x.locals, &y.locals) || x.locals == y.locals)
        && (Rc::ptr_eq(&a.heap, &b.heap) || a.heap == b.heap)
}
fn kill_dead(fi: &FnInfo, b: usize, s: &mut State) {
    let f = s.frames.last_mut().unwrap();
    let live = &fi.live_in[b];
    let dead = |i: usize, v: &Val| !live[i] && !fi.addr[i] && !matches!(v, Val::Uninit);
    if f.locals.iter().enumerate().any(|(i, v)| dead(i, v)) {
        for (i, v) in Rc::make_mut(&mut f.locals).iter_mut().enumerate() {
            if dead(i, v) {
                *v = Val::Uninit;
            }
        }
    }
}
pub fn raw_ptr(pt: Ty, data: &Val, meta: &Val) -> R<Val> {
    let m = match (tail(pt).kind(), meta) {
        (TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str), Val::Int(n, _)) => Meta::Len(n.clone()),
        (TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str), _) => return uns("slice metadata"),
        _ => Meta::None,
    };
    match data {
        Val::Ptr(p) => {
            let mut q = (**p).clone();
            q.meta = m;
            if let (Meta::Len(_), true) = (&q.meta, !matches!(q.path.last(), Some(Step::Index(_)))) {
                push_index(&mut q.path, Lin::k(0));
            }
            Ok(Val::Ptr(Rc::new(q)))
        }
        Val::Int(..) => Ok(Val::ptr(consts::DANGLING, if matches!(m, Meta::Len(_)) { vec![Step::Index(Lin::k(0))] } else { vec![] }, m)),
        v => uns(format!("pointer from {}", short(v))),
    }
}
/// Through wrappers to the pointee type.
pub fn inner_pointee(mut t: Ty) -> Option<Ty> {
    for _ in 0..12 {
        if let Some(p) = pointee(t) {
            return Some(p);
        }
        if let Some(p) = box_pointee(t) {
            return Some(p);
        }
        match erased(t) {
            Some(j) => t = field_tys(t, 0)?[j],
            None => return None,
        }
    }
    None
}
pub fn ptr_cast(v: Val, from: Ty, to: Ty) -> R<Val> {
    let Val::Ptr(p) = &v else { return Ok(v) };
    let (Some(a), Some(b)) = (inner_pointee(from), inner_pointee(to)) else { return Ok(v) };
    let mut q = (**p).clone();
    // an array in wrappers is that array
    let (mut a, ua, ub) = (a, is_unsized(a), is_unsized(b));
    while let (false, Some(t)) = (ua, erased(a).and_then(|j| Some(field_tys(a, 0)?[j]))) {
        a = t;
    }
    if ua && !ub {
        q.meta = Meta::None;
        // slice pointer to array pointer
        if let (TyKind::RigidTy(RigidTy::Slice(_)), Some(_)) = (a.kind(), arr_len(b)) {
            if let Some(Step::Index(l)) = q.path.last().cloned() {
                *q.path.last_mut().unwrap() = Step::Window(l);
            }
        }
        return Ok(Val::Ptr(Rc::new(q)));
    }
    if !ua && !ub {
        match (arr_len(a), arr_len(b)) {
            (Some((e, _)), None) if !matches!(b.kind(), TyKind::RigidTy(RigidTy::Adt(..))) || same_layout(e, b) => {
                // to the first element
                push_index(&mut q.path, Lin::k(0));
            }
            (None, Some((e, _))) if same_layout(e, a) => match q.path.last().cloned() {
                Some(Step::Index(l)) => *q.path.last_mut().unwrap() = Step::Window(l),
                Some(Step::Window(_)) => {}
                _ => q.path.push(Step::Window(Lin::k(0))),
            },
            _ => {}
        }
    }
    Ok(Val::Ptr(Rc::new(q)))
}
/// Do both types have the same abstract representation?
pub fn same_layout(a: Ty, b: Ty) -> bool {
    let strip = |mut t: Ty| {
        for _ in 0..8 {
            match erased(t) {
                Some(j) => match field_tys(t, 0) {
                    Some(f) => t = f[j],
                    None => break,
                },
                None => break,
            }
        }
        t
    };
    strip(a) == strip(b)
}
/// Both operands are copies of one place, with no write in between.
fn same_source(before: &[Statement], a: &Operand, b: &Operand) -> bool {
    let src = |o: &Operand| -> Option<(usize, Place)> {
        let (Operand::Copy(p) | Operand::Move(p)) = o else { return None };
        if !p.projection.is_empty() {
            return Some((before.len(), p.clone()));
        }
        for (i, s) in before.iter().enumerate().rev() {
            if let StatementKind::Assign(q, r) = &s.kind {
                if q.local == p.local {
                    return match (q.projection.is_empty(), r) {
                        (true, Rvalue::Use(Operand::Copy(z), ..)) => Some((i, z.clone())),
                        _ => None,
                    };
                }
            }
        }
        Some((before.len(), p.clone()))
    };
    let (Some((i, p)), Some((j, q))) = (src(a), src(b)) else { return false };
    p == q
        && before[i.min(j).min(before.len())..i.max(j).min(before.len())].iter().all(|s| match &s.kind {
            StatementKind::Assign(z, _) => z.local != p.local && !z.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)),
            StatementKind::StorageLive(_) | StatementKind::StorageDead(_) => true,
            _ => true,
        })
}
pub fn unsize(v: Val, from: Ty, to: Ty) -> R<Val> {
    let Val::Ptr(p) = &v else { return uns(format!("unsizing {}", short(&v))) };
    let (Some(a), Some(b)) = (inner_pointee(from), inner_pointee(to)) else { return uns(format!("unsizing {from}")) };
    let mut q = (**p).clone();
    let (mut ta, mut tb) = (a, b);
    while let (TyKind::RigidTy(RigidTy::Adt(x, _)), TyKind::RigidTy(RigidTy::Adt(y, _))) = (ta.kind(), tb.kind()) {
        if x != y {
            break;
        }
        let (Some(fa), Some(fb)) = (field_tys(ta, 0).and_then(|f| f.last().copied()), field_tys(tb, 0).and_then(|f| f.last().copied())) else { break };
        ta = fa;
        tb = fb;
    }
    match (ta.kind(), tb.kind()) {
        (TyKind::RigidTy(RigidTy::Array(..)), TyKind::RigidTy(RigidTy::Slice(_))) => {
            let n = arr_len(ta).unwrap().1;
            if arr_len(a).is_some() {
                push_index(&mut q.path, Lin::k(0));
            }
            q.meta = Meta::Len(Lin::k(n as i128));
        }
        (_, TyKind::RigidTy(RigidTy::Dynamic(..))) => {
            if !matches!(q.meta, Meta::Dyn(_)) {
                q.meta = Meta::Dyn(a);
            }
        }
        _ => return uns(format!("unsizing {from} to {to}")),
    }
    Ok(Val::Ptr(Rc::new(q)))
}
pub fn transmute(st: &State, v: Val, from: Ty, to: Ty) -> R<Val> {
    if from == to || same_layout(from, to) {
        return Ok(v);
    }
    if is_zst(to) {
        return Ok(Val::Zst);
    }
    // through wrappers
    let mut t = to;
    for _ in 0..8 {
        match erased(t) {
            Some(j) => match field_tys(t, 0) {
                Some(f) => t = f[j],
                None => break,
            },
            None => break,
        }
    }
    let opt = |x: Ty| match x.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Enum && adt_name(x).ends_with("Option") => field_tys(x, 1).and_then(|f| f.first().copied()),
        _ => None,
    };
    match &v {
        Val::Int(l, it) if opt(to).is_some() => {
            // optional non-zero integers
            let inner = opt(to).unwrap();
            if !need(&st.facts, Cond::eq(l, &Lin::k(0)).not())? {
                return Ok(Val::agg(0, vec![]));
            }
            let x = coerce(st, Val::Int(l.clone(), *it), inner)?;
            Ok(Val::agg(1, vec![x]))
        }
        Val::Agg(0, f) if f.is_empty() && opt(from).is_some() && int_ty(t).is_some() => Ok(Val::Int(Lin::k(0), int_ty(t).unwrap())),
        Val::Agg(1, f) if f.len() == 1 && opt(from).is_some() && int_ty(t).is_some() && matches!(f[0], Val::Int(..)) => Ok(f[0].clone()),
        Val::Ptr(_) if inner_pointee(to).is_some() => ptr_cast(v, from, t),
        Val::Ptr(_) if int_ty(t).is_some() => Ok(Val::Int(Lin::s(fresh("address", 1, 1 << 62)), int_ty(t).unwrap())),
        Val::Int(l, it) => {
            if let TyKind::RigidTy(RigidTy::Float(_)) = t.kind() {
                return Ok(Val::Float(match st.facts.konst(l) {
                    Some(k) if it.bits == 64 => crate::float::konst(f64::from_bits(k as u64)),
                    _ => crate::float::any(),
                }));
            }
            if let Some(x) = int_ty(t) {
                if x.bits == it.bits {
                    return Ok(Val::Int(wrap(&st.facts, l, x), x));
                }
            }
            coerce(st, v.clone(), t)
        }
        Val::Float(f) if int_ty(t).is_some() => {
            let it = int_ty(t).unwrap();
            if f.lo == f.hi && !f.nan && f.lo != 0.0 && it.bits == 64 {
                return Ok(Val::Int(wrap(&st.facts, &Lin::k(f.lo.to_bits() as i128), it), it));
            }
            Ok(Val::Int(Lin::s(fresh("bits", it.range().0, it.range().1)), it))
        }
        // optional references
        Val::Ptr(_) => match to.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Enum && adt_name(to).ends_with("Option") => Ok(Val::agg(1, vec![v.clone()])),
            _ => Ok(v),
        },
        Val::Agg(0, f) if f.is_empty() && adt_name(from).ends_with("Option") => Ok(Val::Int(Lin::k(0), It::USIZE)),
        Val::Agg(1, f) if f.len() == 1 && adt_name(from).ends_with("Option") && inner_pointee(to).is_some() => Ok(f[0].clone()),
        _ => coerce(st, v, t),
    }
}
thread_local! {
    /// How many more cases than usual are kept apart.
    pub static WIDE: std::cell::Cell<usize> = const { std::cell::Cell::new(1) };
    static COARSE: u8 = std::env::var("SA_COARSE").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
}
