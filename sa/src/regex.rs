//! Regular expressions: patterns are constants of the program, so what they
//! match in a known text is decided, and for an unknown text which groups
//! always take part.
use crate::interp::*;
use crate::lin::*;
use crate::mem::*;
use crate::place::*;
use crate::models::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;

#[derive(Debug)]
enum Re {
    /// Byte ranges; whether characters above ASCII belong to it.
    Set(Vec<(u8, u8)>, bool),
    Start,
    End,
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, usize, Option<usize>, bool),
    Grp(usize, Box<Re>),
}
struct Parser<'a> {
    s: &'a [u8],
    i: usize,
    groups: usize,
    names: Vec<(String, usize)>,
}
fn not(v: Vec<(u8, u8)>) -> Vec<(u8, u8)> {
    let mut out = vec![];
    let mut from: Option<u8> = None;
    for b in 0..128u8 {
        if v.iter().any(|r| r.0 <= b && b <= r.1) {
            if let Some(f) = from.take() {
                out.push((f, b - 1));
            }
        } else if from.is_none() {
            from = Some(b);
        }
    }
    if let Some(f) = from {
        out.push((f, 127));
    }
    out
}
impl Parser<'_> {
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).copied()
    }
    fn alt(&mut self) -> Option<Re> {
        let mut v = vec![self.cat()?];
        while self.peek() == Some(b'|') {
            self.i += 1;
            v.push(self.cat()?);
        }
        Some(if v.len() == 1 { v.pop().unwrap() } else { Re::Alt(v) })
    }
    fn cat(&mut self) -> Option<Re> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == b'|' || c == b')' {
                break;
            }
            let a = self.atom()?;
            v.push(self.repeat(a)?);
        }
        Some(Re::Cat(v))
    }
    fn repeat(&mut self, a: Re) -> Option<Re> {
        let (lo, hi) = match self.peek() {
            Some(b'*') => (0, None),
            Some(b'+') => (1, None),
            Some(b'?') => (0, Some(1)),
            Some(b'{') => {
                let end = self.s[self.i..].iter().position(|c| *c == b'}')? + self.i;
                let t = std::str::from_utf8(&self.s[self.i + 1..end]).ok()?;
                self.i = end;
                match t.split_once(',') {
                    None => {
                        let n = t.parse().ok()?;
                        (n, Some(n))
                    }
                    Some((a, "")) => (a.parse().ok()?, None),
                    Some((a, b)) => (a.parse().ok()?, Some(b.parse().ok()?)),
                }
            }
            _ => return Some(a),
        };
        self.i += 1;
        let lazy = self.peek() == Some(b'?');
        if lazy {
            self.i += 1;
        }
        if matches!(self.peek(), Some(b'*' | b'+' | b'?' | b'{')) {
            return None;
        }
        Some(Re::Rep(Box::new(a), lo, hi, !lazy))
    }
    fn class(c: u8) -> Option<(Vec<(u8, u8)>, bool)> {
        // characters above ASCII: only whether all or none belong to it
        Some(match c {
            b'n' => (vec![(b'\n', b'\n')], false),
            b't' => (vec![(b'\t', b'\t')], false),
            b'r' => (vec![(b'\r', b'\r')], false),
            c if c.is_ascii_punctuation() || c == b' ' => (vec![(c, c)], false),
            _ => return None,
        })
    }
    fn ascii(c: u8) -> Option<Vec<(u8, u8)>> {
        Some(match c {
            b'd' => vec![(b'0', b'9')],
            b's' => vec![(9, 13), (32, 32)],
            b'w' => vec![(b'0', b'9'), (b'A', b'Z'), (b'_', b'_'), (b'a', b'z')],
            b'D' => not(vec![(b'0', b'9')]),
            b'S' => not(vec![(9, 13), (32, 32)]),
            b'W' => not(vec![(b'0', b'9'), (b'A', b'Z'), (b'_', b'_'), (b'a', b'z')]),
            _ => return None,
        })
    }
    fn atom(&mut self) -> Option<Re> {
        let c = self.peek()?;
        self.i += 1;
        Some(match c {
            b'^' => Re::Start,
            b'$' => Re::End,
            b'.' => Re::Set(not(vec![(b'\n', b'\n')]), true),
            b'(' => {
                let mut g = None;
                if self.peek() == Some(b'?') {
                    let rest = &self.s[self.i..];
                    if rest.starts_with(b"?:") {
                        self.i += 2;
                    } else if rest.starts_with(b"?P<") || rest.starts_with(b"?<") {
                        let a = self.i + rest.iter().position(|c| *c == b'<')? + 1;
                        let b = a + self.s[a..].iter().position(|c| *c == b'>')?;
                        self.groups += 1;
                        g = Some(self.groups);
                        self.names.push((String::from_utf8(self.s[a..b].to_vec()).ok()?, self.groups));
                        self.i = b + 1;
                    } else {
                        return None;
                    }
                } else {
                    self.groups += 1;
                    g = Some(self.groups);
                }
                let r = self.alt()?;
                if self.peek() != Some(b')') {
                    return None;
                }
                self.i += 1;
                match g {
                    Some(g) => Re::Grp(g, Box::new(r)),
                    None => r,
                }
            }
            b'[' => {
                let neg = self.peek() == Some(b'^');
                if neg {
                    self.i += 1;
                }
                let mut v = vec![];
                let mut first = true;
                loop {
                    let c = self.peek()?;
                    self.i += 1;
                    if c == b']' && !first {
                        break;
                    }
                    first = false;
                    if c == b'[' || c == b'&' || c == b'~' || c >= 128 {
                        return None;
                    }
                    let mut lo = c;
                    if c == b'\\' {
                        let e = self.peek()?;
                        self.i += 1;
                        if Self::ascii(e).is_some() {
                            return None;
                        }
                        lo = Self::class(e)?.0[0].0;
                    }
                    if self.peek() == Some(b'-') && self.s.get(self.i + 1).map_or(false, |c| *c != b']') {
                        let hi = self.s[self.i + 1];
                        if hi == b'\\' || hi >= 128 || hi < lo {
                            return None;
                        }
                        self.i += 2;
                        v.push((lo, hi));
                    } else {
                        v.push((lo, lo));
                    }
                }
                if neg {
                    Re::Set(not(v), true)
                } else {
                    Re::Set(v, false)
                }
            }
            b'\\' => {
                let e = self.peek()?;
                self.i += 1;
                match e {
                    b'A' => Re::Start,
                    b'z' => Re::End,
                    e => match Self::class(e) {
                        Some((v, n)) => Re::Set(v, n),
                        // what they contain above ASCII is not decided here
                        None => Re::Set(Self::ascii(e)?, e.is_ascii_uppercase()),
                    },
                }
            }
            b'*' | b'+' | b'?' | b'{' | b')' => return None,
            c if c < 128 => Re::Set(vec![(c, c)], false),
            _ => return None,
        })
    }
}
pub struct Pattern {
    re: Re,
    groups: usize,
    names: Vec<(String, usize)>,
}
fn parse(s: &str) -> Option<Pattern> {
    let mut p = Parser { s: s.as_bytes(), i: 0, groups: 0, names: vec![] };
    let re = p.alt()?;
    (p.i == s.len()).then_some(Pattern { re, groups: p.groups, names: p.names })
}
fn always(re: &Re, g: usize) -> bool {
    match re {
        Re::Cat(v) => v.iter().any(|r| always(r, g)),
        Re::Alt(v) => v.iter().all(|r| always(r, g)),
        Re::Rep(r, lo, _, _) => *lo > 0 && always(r, g),
        Re::Grp(i, r) => *i == g || always(r, g),
        _ => false,
    }
}
struct Undecided;
type Caps = Vec<Option<(usize, usize)>>;
struct Matcher<'a> {
    f: &'a Facts,
    t: &'a [Lin],
}
impl Matcher<'_> {
    fn member(&self, l: &Lin, v: &[(u8, u8)]) -> Result<bool, Undecided> {
        let (lo, hi) = self.f.range(l);
        if lo < 0 || hi >= 128 {
            return Err(Undecided);
        }
        let (mut yes, mut no) = (false, false);
        for b in lo..=hi {
            let inside = v.iter().any(|r| r.0 as i128 <= b && b <= r.1 as i128);
            if (if inside { yes } else { no }) || decide(self.f, &Cond::eq(l, &Lin::k(b))) == Some(false) {
                continue;
            }
            if inside {
                yes = true;
            } else {
                no = true;
            }
        }
        if yes && no { Err(Undecided) } else { Ok(yes) }
    }
    fn go(&self, re: &Re, at: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> Result<bool, Undecided>) -> Result<bool, Undecided> {
        match re {
            Re::Start => if at == 0 { k(at, caps) } else { Ok(false) },
            Re::End => if at == self.t.len() { k(at, caps) } else { Ok(false) },
            Re::Set(v, _) => {
                if at < self.t.len() && self.member(&self.t[at], v)? { k(at + 1, caps) } else { Ok(false) }
            }
            Re::Cat(v) => self.seq(v, at, caps, k),
            Re::Alt(v) => {
                for r in v {
                    if self.go(r, at, caps, k)? {
                        return Ok(true);
                    }
                }
                Ok(false)
            }
            Re::Grp(g, r) => {
                let old = caps[*g];
                let done = self.go(r, at, caps, &mut |end, caps| {
                    let inner = caps[*g];
                    caps[*g] = Some((at, end));
                    let ok = k(end, caps)?;
                    if !ok {
                        caps[*g] = inner;
                    }
                    Ok(ok)
                })?;
                if !done {
                    caps[*g] = old;
                }
                Ok(done)
            }
            Re::Rep(r, lo, hi, greedy) => self.rep(r, *lo, *hi, *greedy, at, caps, k),
        }
    }
    fn seq(&self, v: &[Re], at: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> Result<bool, Undecided>) -> Result<bool, Undecided> {
        match v.split_first() {
            None => k(at, caps),
            Some((r, rest)) => self.go(r, at, caps, &mut |p, caps| self.seq(rest, p, caps, k)),
        }
    }
    fn rep(&self, r: &Re, lo: usize, hi: Option<usize>, greedy: bool, at: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> Result<bool, Undecided>) -> Result<bool, Undecided> {
        let more = hi.map_or(true, |h| h > 0);
        if lo == 0 && !greedy && k(at, caps)? {
            return Ok(true);
        }
        if more && self.go(r, at, caps, &mut |p, caps| {
            if p == at {
                return Ok(false);
            }
            self.rep(r, lo.saturating_sub(1), hi.map(|h| h - 1), greedy, p, caps, k)
        })? {
            return Ok(true);
        }
        if lo == 0 && greedy { k(at, caps) } else { Ok(false) }
    }
    fn find(&self, p: &Pattern) -> Result<Option<Caps>, Undecided> {
        for s in 0..=self.t.len() {
            let mut caps: Caps = vec![None; p.groups + 1];
            let mut got = None;
            if self.go(&p.re, s, &mut caps, &mut |e, caps| {
                caps[0] = Some((s, e));
                got = Some(caps.clone());
                Ok(true)
            })? {
                return Ok(got);
            }
        }
        Ok(None)
    }
}

fn part(hay: &Val, s: &Lin, e: &Lin) -> R<Val> {
    let Val::Ptr(p) = hay else { return uns("text") };
    let mut q = (**p).clone();
    let Some(Step::Index(o)) = q.path.last_mut() else { return uns("text") };
    *o = o.add(s);
    q.meta = Meta::Len(e.sub(s));
    Ok(Val::Ptr(std::rc::Rc::new(q)))
}

impl Ix {
    /// Models of `regex`, lazily initialised statics and `CompactString`.
    pub fn text_model(&mut self, n: &str, _inst: Instance, args: &[Val], tys: &[Ty], st0: &State, rt: Ty) -> Option<Rets> {
        let st = st0.clone();
        let short = n.trim_start_matches('<');
        if short.starts_with("std::sync::LazyLock") && (n.ends_with("::deref") || n.ends_with("::force")) {
            let v = match deref(&args[0], pointee(tys[0])?).and_then(|l| read(&st, &l)) {
                Ok(v) => v,
                Err(e) => return Some(Err(e)),
            };
            let Val::Agg(_, f) = v else { return Some(uns("lazy value")) };
            let Some(Val::Fn(i)) = f.first() else { return Some(uns("lazy value")) };
            let a = vec![Val::Zst; i.body().map_or(0, |b| b.arg_locals().len())];
            let i = *i;
            return Some(Ok(self
                .exec_fn(i, a, st)
                .into_iter()
                .map(|(mut s, v)| {
                    let c = s.alloc(v);
                    (s, Val::ptr(c, vec![], Meta::None))
                })
                .collect()));
        }
        if n.contains("compact_str::CompactString") {
            if n.ends_with("std::convert::From>::from") || n.ends_with("CompactString::new") || n.ends_with("From<&str>>::from") {
                return Some(one(st, Val::tup(vec![args[0].clone()])));
            }
            if n.ends_with("::deref") || n.ends_with("::as_str") || n.ends_with("::as_ref") || n.ends_with("::borrow") {
                let v = match deref(&args[0], pointee(tys[0])?).and_then(|l| read(&st, &l)) {
                    Ok(v) => v,
                    Err(e) => return Some(Err(e)),
                };
                return Some(match v {
                    Val::Agg(_, f) if f.len() == 1 => one(st, f[0].clone()),
                    _ => uns("compact string"),
                });
            }
            return None;
        }
        let short = short.trim_start_matches("regex::regex::string::").trim_start_matches("regex::");
        if !n.contains("regex::") {
            return None;
        }
        let value = |st: &State| -> R<Val> { deref(&args[0], pointee(tys[0]).ok_or(Stop::Unsupported("reference".into()))?).and_then(|l| read(st, &l)) };
        let usize_of = |v: &Val| match v {
            Val::Int(l, _) => st0.facts.konst(l).map(|k| k as usize),
            _ => None,
        };
        let unwrap = |r: R<Rets>| Some(r.unwrap_or_else(Err));
        match short {
            "Regex::new" => {
                let Some(p) = self.const_str(&st, &args[0]) else { return Some(uns("regular expression that is not constant")) };
                if parse(&p).is_none() {
                    return Some(uns(format!("regular expression {p}")));
                }
                Some(one(st, ok(Val::tup(vec![args[0].clone()]))))
            }
            "Regex::captures" | "Regex::is_match" | "Regex::find" => unwrap((|| {
                let Val::Agg(_, f) = value(&st)? else { return uns("regular expression") };
                let Some(p) = self.const_str(&st, &f[0]).and_then(|p| parse(&p)) else { return uns("regular expression") };
                let hay = args[1].clone();
                let Val::Ptr(hp) = &hay else { return uns("text") };
                let Meta::Len(len) = hp.meta.clone() else { return uns("text") };
                let known = self.texts(&st, &hay).ok().and_then(|t| t.iter().map(|p| p.byte().cloned()).collect::<Option<Vec<Lin>>>());
                let found = match &known {
                    Some(t) => Matcher { f: &st.facts, t }.find(&p).ok(),
                    None => None,
                };
                // per group: may be absent, start, end
                let result = |groups: Vec<(bool, Option<(Lin, Lin)>)>| -> R<Val> {
                    Ok(match short {
                        "Regex::is_match" => Val::bool(true),
                        "Regex::find" => {
                            let (a, b) = groups[0].1.clone().unwrap();
                            some(Val::tup(vec![hay.clone(), Val::usize(a), Val::usize(b)]))
                        }
                        _ => {
                            let g = groups.into_iter().map(|(opt, g)| match g {
                                None => Val::tup(vec![]),
                                Some((a, b)) => Val::tup(vec![Val::bool(opt), Val::usize(a), Val::usize(b)]),
                            });
                            some(Val::tup(vec![hay.clone(), f[0].clone(), Val::tup(g.collect())]))
                        }
                    })
                };
                let nothing = if short == "Regex::is_match" { Val::bool(false) } else { none() };
                if let Some(found) = found {
                    let v = match found {
                        None => nothing,
                        Some(c) => result(c.iter().map(|g| (false, g.map(|(a, b)| (Lin::k(a as i128), Lin::k(b as i128))))).collect())?,
                    };
                    return Ok(one(st.clone(), v));
                }
                if !GENERAL.contains(&self.mode.as_str()) {
                    return uns("regular expression on an unknown text");
                }
                let mut s2 = st.clone();
                let mut groups = vec![];
                for g in 0..=p.groups {
                    let (a, b) = (Lin::s(fresh("group start", 0, MAXLEN)), Lin::s(fresh("group end", 0, MAXLEN)));
                    if !assume(&mut s2.facts, &Cond::ge(&b, &a)) || !assume(&mut s2.facts, &Cond::ge(&len, &b)) {
                        return Err(Stop::Infeasible);
                    }
                    groups.push((g > 0 && !always(&p.re, g), Some((a, b))));
                }
                let v = result(groups)?;
                Ok(Ok(vec![(st.clone(), nothing), (s2, v)]))
            })()),
            "Captures::get" | "Captures::name" | "Captures as std::ops::Index>::index" | "Captures::len" => unwrap((|| {
                let Val::Agg(_, f) = value(&st)? else { return uns("captures") };
                let Val::Agg(_, g) = &f[2] else { return uns("captures") };
                if short == "Captures::len" {
                    return Ok(one(st.clone(), Val::usize(Lin::k(g.len() as i128))));
                }
                let i = match &args[1] {
                    Val::Ptr(_) => {
                        let Some(p) = self.const_str(&st, &f[1]).and_then(|p| parse(&p)) else { return uns("regular expression") };
                        let Some(name) = self.const_str(&st, &args[1]) else { return uns("group name") };
                        p.names.iter().find(|x| x.0 == name).map_or(usize::MAX, |x| x.1)
                    }
                    v => match usize_of(v) {
                        Some(i) => i,
                        None => return uns("group number"),
                    },
                };
                let index = short.ends_with("index");
                let (may_lack, m) = match g.get(i) {
                    Some(Val::Agg(_, x)) if x.len() == 3 => {
                        let (Val::Int(a, _), Val::Int(b, _)) = (&x[1], &x[2]) else { return uns("captures") };
                        (x[0] == Val::bool(true), Some((a.clone(), b.clone())))
                    }
                    _ => (true, None),
                };
                if index {
                    let Some((a, b)) = m.filter(|_| !may_lack) else {
                        self.report("panic", "group that may not take part in the match", false);
                        return Ok(Ok(vec![]));
                    };
                    return Ok(one(st.clone(), part(&f[0], &a, &b)?));
                }
                let mut out = vec![];
                if may_lack {
                    out.push((st.clone(), none()));
                }
                if let Some((a, b)) = m {
                    out.push((st.clone(), some(Val::tup(vec![f[0].clone(), Val::usize(a), Val::usize(b)]))));
                }
                let _ = rt;
                Ok(Ok(out))
            })()),
            "Match::as_str" => unwrap((|| {
                let Val::Agg(_, f) = value(&st)? else { return uns("match") };
                let (Val::Int(a, _), Val::Int(b, _)) = (&f[1], &f[2]) else { return uns("match") };
                Ok(one(st.clone(), part(&f[0], a, b)?))
            })()),
            _ => None,
        }
    }
}
/// Modes that judge what happens on any text.
const GENERAL: &[&str] = &["C05", "C06", "C07", "C18", "C30"];
