//! What each property analyses: which roots, and which reports break it.
use crate::interp::*;
use crate::out;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::CrateDef;

pub fn roots(pred: &dyn Fn(&str) -> bool) -> Vec<(String, Instance)> {
    let mut v = vec![];
    for f in rustc_public::local_crate().fn_defs() {
        let n = f.name().to_string();
        if pred(&n) {
            if let Ok(i) = Instance::try_from(rustc_public::CrateItem(f.def_id())) {
                v.push((n, i));
            }
        }
    }
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}
/// A function of the roots crate, with the generic arguments of `like`.
pub fn local_fn(name: &str, like: Instance) -> Option<Instance> {
    let me = rustc_public::local_crate();
    let full = format!("{}::{name}", me.name);
    let f = me.fn_defs().into_iter().find(|f| { let n = f.name().to_string(); n == full || n == name })?;
    Instance::resolve(f, &like.args()).ok()
}
/// Functions of the library without type parameters, by name.
pub fn lib_fns(pred: &dyn Fn(&str) -> bool) -> Vec<(String, Instance)> {
    let mut v = vec![];
    for c in rustc_public::find_crates("subtile") {
        for f in c.fn_defs() {
            let n = norm(&f.name().to_string());
            if pred(&n) {
                if let Ok(i) = Instance::try_from(rustc_public::CrateItem(f.def_id())) {
                    v.push((n, i));
                }
            }
        }
    }
    v
}
/// Instances reachable through the call graph.
pub fn reachable(i: &Instance) -> Vec<Instance> {
    let mut seen: std::collections::HashSet<Instance> = [*i].into_iter().collect();
    let mut todo = vec![*i];
    let mut out = vec![*i];
    while let Some(i) = todo.pop() {
        if matches!(i.kind, rustc_public::mir::mono::InstanceKind::Virtual { .. } | rustc_public::mir::mono::InstanceKind::Intrinsic) || !i.has_body() {
            continue;
        }
        let Some(b) = i.body() else { continue };
        for c in crate::calls::callees(&b, true) {
            if let Some(j) = c.inst {
                if seen.insert(j) {
                    out.push(j);
                    todo.push(j);
                }
            }
        }
    }
    out
}
pub fn run(mode: &str) {
    let only = std::env::var("SA_ROOT").ok().filter(|s| !s.is_empty());
    let pre = mode.to_lowercase();
    let mut rs = roots(&|n| match &only {
        Some(o) => n.ends_with(o.as_str()),
        None => n.contains(&format!("::{pre}::")),
    });
    if let Some(o) = only.as_ref().filter(|o| o.starts_with("subtile::")) {
        rs = lib_fns(&|n| n == o);
    }
    // debugging: an instance reachable from a root
    if let Some((r, f)) = only.as_ref().and_then(|o| o.strip_prefix("via:")).and_then(|o| o.split_once('>')) {
        let start = roots(&|n| n.ends_with(r));
        rs = reachable(&start[0].1).into_iter().filter(|i| norm(&i.name()).ends_with(f)).map(|i| (f.to_string(), i)).take(1).collect();
    }
    if only.is_none() {
        // functions with parameters are helpers of the roots
        rs.retain(|(_, i)| i.body().map_or(false, |b| b.arg_locals().is_empty()) && !i.ty().kind().is_closure());
        return decide_prop(mode, rs);
    }
    for (n, i) in rs {
        let mut ix = Ix::new(mode);
        ix.no_summary |= shaped(&n);
        crate::mem::FOLD.with(|f| f.set(shaped(&n)));
        crate::lin::DIGITS.with(|f| f.set(digits(&n)));
    crate::interp::WIDE.with(|w| w.set(if n.contains("::c20::") { 10 } else if n.contains("::p1::c1") { 6 } else { 1 }));
        let args = i.body().map(|b| b.arg_locals().iter().map(|a| crate::models::any_of(a.ty)).collect()).unwrap_or_default();
        let r = ix.exec_fn(i, args, State::new());
        eprintln!("{n}: {} end states, {} steps, {} blocks, {} loops, {} joins, {:.1}s, {} LPs", r.len(), ix.steps, ix.blocks, ix.loops, ix.joins, ix.start.elapsed().as_secs_f64(), crate::lin::STATS.with(|s| s.borrow()[0]));
        for r in &ix.reps {
            eprintln!("  {} {}", r.kind, r.text);
        }
        for (c, (a, b)) in &ix.checks {
            eprintln!("  check {c}: {a} proven, {b} not");
        }
        for a in &ix.ranked {
            eprintln!("  loop {a}");
        }
        for a in &ix.allocs {
            eprintln!("  allocation {a}");
        }
        for (f, k) in &ix.fails {
            eprintln!("  FAIL {f} x{k}");
        }
        for (f, k) in &ix.unsupported {
            eprintln!("  unsupported {f} x{k}");
        }
        if std::env::var("SA_COVER").is_ok() {
            for (n, (fi, b)) in &ix.cover {
                let reach: Vec<usize> = fi.order.iter().copied().collect();
                let miss: Vec<String> = reach.iter().filter(|x| !b.contains(x)).map(|x| format!("bb{x}@{}", where_(&fi.body.blocks[*x].terminator.source_info.span))).collect();
                eprintln!("  cover {n}: {}/{} missing {}", reach.len() - miss.len(), reach.len(), miss.join(" "));
            }
        }
        if std::env::var("SA_PROF").is_ok() {
            let mut v: Vec<_> = ix.prof.iter().collect();
            v.sort_by(|a, b| b.1.cmp(a.1));
            for (n, k) in v.iter().filter(|x| x.0.starts_with("call") || x.0.starts_with("rets")).filter(|x| x.0.contains("subtile")).take(60) {
                eprintln!("  prof {k} {n}");
            }
        }
        out::count("steps", ix.steps as i64);
    }
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
}
/// Analyse every root in a process of its own and gather their reports.
fn decide_prop(mode: &str, rs: Vec<(String, Instance)>) {
    let base = std::env::var("SA_OUT").expect("SA_OUT");
    let panics = PANICS.contains(&mode);
    let mut live: Vec<i32> = vec![];
    let begin = std::time::Instant::now();
    let wait = |live: &mut Vec<i32>| {
        let mut st = 0;
        let p = unsafe { waitpid(-1, &mut st, 0) };
        live.retain(|x| *x != p);
    };
    for (k, (n, i)) in rs.iter().enumerate() {
        while live.len() >= 6 {
            wait(&mut live);
        }
        let _ = std::fs::remove_file(format!("{base}.{k}"));
        // What is left of the time all roots have together.
        let left = ALL_ROOTS - begin.elapsed().as_secs_f64();
        if left < 5.0 {
            continue;
        }
        match unsafe { fork() } {
            0 => {
                unsafe { alarm(left as u32 + 60) };
                let s = one_root(mode, n, *i, panics, left);
                let _ = std::fs::write(format!("{base}.{k}"), s);
                unsafe { _exit(0) }
            }
            p => live.push(p),
        }
    }
    while !live.is_empty() {
        wait(&mut live);
    }
    let mut incomplete = vec![];
    let mut per = vec![];
    for (k, (n, _)) in rs.iter().enumerate() {
        let f = format!("{base}.{k}");
        let Ok(s) = std::fs::read_to_string(&f) else {
            incomplete.push(format!("{n}: no result"));
            continue;
        };
        let _ = std::fs::remove_file(&f);
        for l in s.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            match p[0] {
                "viol" => out::violation(p[1], p[2]),
                "count" => out::count(p[1], p[2].parse().unwrap_or(0)),
                "inc" => incomplete.push(format!("{n}: {}", p[1])),
                "root" => per.push(p[1].to_string()),
                _ => {}
            }
        }
    }
    out::count("roots", rs.len() as i64);
    out::count("incomplete", incomplete.len() as i64);
    out::list("analysed_roots", per);
    out::list("incomplete_notes", incomplete);
}
/// Properties decided by the absence of panics, too.
const PANICS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C14"];

/// Roots over content of a given shape: what is known about it is lost in
/// summaries for any content.
fn shaped(n: &str) -> bool {
    ["::p1::c10::", "::p1::c11::", "::p1::c12::", "::p2::", "::p3::", "::p5::", "::p6::c23::", "::p6::c14::", "::p6::c15::", "::p6::c22::", "::p6::c26::"].iter().any(|p| n.contains(p))
}

/// Seconds for all roots of a property: a check ends, complete or not, within
/// fifteen minutes.
const ALL_ROOTS: f64 = 660.0;

fn one_root(mode: &str, n: &str, i: Instance, panics: bool, left: f64) -> String {
    let line = |s: &str| s.replace(['\t', '\n'], " ");
    let mut o = String::new();
    let mut ix = Ix::new(mode);
    ix.limit = ix.limit.min(left);
    ix.no_summary |= shaped(n);
    crate::mem::FOLD.with(|f| f.set(shaped(n)));
    crate::lin::DIGITS.with(|f| f.set(digits(&n)));
    crate::interp::WIDE.with(|w| w.set(if n.contains("::c20::") { 10 } else if n.contains("::p1::c1") { 6 } else { 1 }));
    let Some(b) = i.body() else { return "inc\tno body\n".to_string() };
    let args = b.arg_locals().iter().map(|a| crate::models::any_of(a.ty)).collect();
    let r = ix.exec_fn(i, args, State::new());
    let mut npan = 0;
    for r in &ix.reps {
        if r.vague {
            o += &format!("inc\tunreliable after something not modelled: {}\n", line(&r.text));
        } else if r.kind == "check" {
            o += &format!("viol\t{}\t{}\n", line(&format!("{n}: {}", r.key)), line(&format!("{n}: cannot show: {}", r.text)));
        } else if match mode {
            "C30" => r.kind == "alloc",
            "C06" => r.kind == "loop",
            _ => panics,
        } {
            npan += 1;
            o += &format!("viol\t{}\t{}\n", line(&r.key), line(&r.text));
        }
    }
    let complete = ix.fails.is_empty() && ix.unsupported.is_empty();
    for (f, k) in ix.fails.iter().chain(&ix.unsupported) {
        o += &format!("inc\t{} (x{k})\n", line(f));
    }
    // Obligations written in the root that no path reaches.
    let want = wanted(&i);
    for w in &want {
        if complete && !ix.checks.contains_key(w) {
            o += &format!("viol\t{}\t{}\n", line(&format!("{n}: unreached: {w}")), line(&format!("{n}: no execution reaches the place where this is to be shown: {w}")));
        }
    }
    if complete && r.is_empty() && !n.ends_with("_never") {
        o += &format!("viol\t{n}: no end\t{n}: no execution of this root completes\n");
    }
    let cov: usize = ix.cover.values().map(|(_, b)| b.len()).sum();
    let tot: usize = ix.cover.values().map(|(f, _)| f.order.len()).sum();
    for (c, k) in [("obligations_shown", ix.checks.values().map(|c| c.0).sum::<u64>()), ("abstract_steps", ix.steps), ("blocks_interpreted", ix.blocks), ("loop_fixpoints", ix.loops), ("joins", ix.joins), ("library_functions_entered", ix.cover.len() as u64), ("library_blocks_reached", cov as u64), ("library_blocks_of_those", tot as u64), ("panic_sites_checked", ix.asserts.len() as u64), ("allocation_sites", ix.allocs.len() as u64), ("loops_judged", ix.ranked.len() as u64)] {
        o += &format!("count\t{c}\t{k}\n");
    }
    o += &format!("root\t{}\n", line(&format!("{n}: {} end states, {} library functions, {} obligations, {npan} alarms, {:.1}s", r.len(), ix.cover.len(), ix.checks.len(), ix.start.elapsed().as_secs_f64())));
    o
}
/// The obligations named in the body of a root and its local helpers.
fn wanted(i: &Instance) -> Vec<String> {
    let mut v = vec![];
    for j in reachable_local(i) {
        let Some(b) = j.body() else { continue };
        for bb in &b.blocks {
            let rustc_public::mir::TerminatorKind::Call { func, args, .. } = &bb.terminator.kind else { continue };
            let Ok(t) = func.ty(b.locals()) else { continue };
            let rustc_public::ty::TyKind::RigidTy(rustc_public::ty::RigidTy::FnDef(d, _)) = t.kind() else { continue };
            if d.name().to_string().ends_with("sa::check") {
                if let rustc_public::mir::Operand::Constant(k) = &args[1] {
                    if let Some(s) = Ix::new("").constant(k).ok().and_then(|v| Ix::new("").const_str(&State::new(), &v)) {
                        v.push(s);
                    }
                }
            }
        }
    }
    v
}
/// Functions and closures of the roots crate reached from a root.
fn reachable_local(i: &Instance) -> Vec<Instance> {
    let me = rustc_public::local_crate().name.to_string();
    let mut seen: std::collections::HashSet<Instance> = [*i].into_iter().collect();
    let mut todo = vec![*i];
    let mut out = vec![];
    while let Some(i) = todo.pop() {
        out.push(i);
        let Some(b) = i.body() else { continue };
        for c in crate::calls::callees(&b, true) {
            if let Some(j) = c.inst {
                if matches!(j.kind, rustc_public::mir::mono::InstanceKind::Item) && j.def.krate().name.to_string() == me && j.has_body() && seen.insert(j) {
                    todo.push(j);
                }
            }
        }
    }
    out
}
pub fn where_(s: &rustc_public::ty::Span) -> String {
    let f = s.get_filename().to_string();
    format!("{}:{}", f.rsplit('/').next().unwrap_or(""), s.get_lines().start_line)
}
/// Bytes are split into digits of two bits.
fn digits(n: &str) -> bool {
    n.contains("::c27::") || n.contains("::p3::c08::")
}
