//! Effect analysis over the resolved call graph (C16, C17).
//!
//! The reachable program is the closure of the instances the `surface`
//! roots reach.  The walk stops at functions with a documented contract
//! (`BOUNDARY`): what they do inside is not attributed to the library.
use crate::out;
use rustc_public::mir::mono::{self, Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::CrateDefType;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::*;

/// Not entered: panics, allocation, logging facade, regular expressions,
/// operating system access through std (classified by name instead).
const BOUNDARY: &[&str] = &[
    "core::panicking::", "std::panicking::", "std::rt::", "alloc::alloc::", "std::alloc::", "alloc::raw_vec::",
    "core::intrinsics::", "std::intrinsics::", "log::", "regex::", "std::fs::", "std::sys::", "std::io::error::", "std::io::Error", "std::path::",
    "std::sync::", "core::str::", "std::str::", "image::dynimage::", "image::save_buffer", "image::images::buffer::save",
    "std::thread::", "std::env::", "std::process::", "std::net::", "std::os::", "std::time::", "std::backtrace::",
    "core::num::", "std::num::", "std::ffi::", "alloc::ffi::", "core::ffi::", "std::io::stdio::", "std::io::_print", "std::io::_eprint",
    "std::io::stdout", "std::io::stderr", "std::io::stdin", "std::collections::hash_map::RandomState", "std::hash::RandomState",
    "std::hash::random::", "libc::", "compact_str::repr::", "png::", "std::any::",
    "std::ptr::drop_glue::<std::fs::", "std::ptr::drop_glue::<std::sys::", "std::ptr::drop_glue::<std::io::Error", "std::ptr::drop_glue::<std::os::",
    "std::collections::HashMap", "std::collections::HashSet", "std::collections::hash", "hashbrown::", "memchr::",
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Eff {
    Std,      // standard streams, environment, process, threads, network, hooks
    Nondet,   // clocks, randomness, thread identity, hash seeds, mutable globals
    FsRead,   // open or read a file
    FsWrite,  // create, change, remove
}

fn classify(n: &str) -> Option<Eff> {
    let n = n.trim_start_matches('<');
    const STD: &[&str] = &[
        "std::io::_print", "std::io::_eprint", "std::io::stdio::", "std::io::stdout", "std::io::stderr", "std::io::stdin",
        "std::io::Stdout", "std::io::Stderr", "std::io::Stdin", "std::io::set_output_capture", "std::io::set_print", "std::io::set_panic", "std::io::try_set_output_capture",
        "std::io::read_to_string::<std::io::Stdin", "std::io::util::print", "std::env::", "std::process::", "std::thread::spawn", "std::thread::scope",
        "std::thread::Builder", "std::thread::Scope", "std::thread::sleep", "std::thread::park", "std::thread::yield_now", "std::net::", "std::os::unix::net::", "std::os::unix::process::",
        "std::os::fd::", "std::os::unix::io::", "std::panic::set_hook", "std::panicking::set_hook", "std::panic::take_hook", "std::panicking::take_hook", "std::panic::update_hook",
        "log::set_", "log::__private_api::set", "libc::", "core::intrinsics::abort", "std::alloc::set_alloc_error_hook", "rayon::spawn", "rayon::join",
    ];
    const NONDET: &[&str] = &[
        "std::time::Instant::", "std::time::SystemTime::", "std::sys::time::", "std::thread::current", "std::thread::local::LocalKey",
        "std::thread::LocalKey", "std::thread::ThreadId", "std::thread::available_parallelism", "std::thread::panicking", "std::collections::hash_map::RandomState", "std::hash::RandomState",
        "std::hash::random::", "std::backtrace::", "std::arch::", "core::arch::", "rand::", "getrandom::",
        "std::thread::ThreadId", "std::sync::Mutex", "std::sync::RwLock", "std::sync::Once::", "std::sync::OnceLock", "std::sync::mpsc", "std::sync::poison", "std::sync::reentrant",
        "std::sync::atomic::", "core::sync::atomic::",
    ];
    const READ: &[&str] = &[
        "std::fs::File::open", "std::fs::read", "std::fs::OpenOptions::open", "std::fs::read_to_string", "std::fs::read_dir", "std::fs::metadata",
        "std::fs::symlink_metadata", "std::fs::read_link", "std::fs::canonicalize", "std::fs::exists", "std::path::Path::exists", "std::path::Path::is_file", "std::path::Path::is_dir",
        "std::path::Path::metadata", "std::path::Path::canonicalize", "std::path::Path::read_", "std::path::Path::try_exists", "std::path::Path::is_symlink", "std::path::Path::symlink_metadata", "std::path::absolute",
    ];
    const NEUTRAL: &[&str] = &[
        "std::fs::OpenOptions::new", "std::fs::OpenOptions::read", "std::fs::File as", "std::fs::File>", "std::fs::Metadata", "std::fs::FileType",
        "std::fs::File::metadata", "std::fs::File::options", "std::fs::File::try_clone", "std::io::Read for std::fs::File", "std::fs::buffer_capacity_required",
    ];
    if n.starts_with("std::collections::Hash") || n.starts_with("&std::collections::Hash") || n.starts_with("std::collections::hash_") {
        const IT: &[&str] = &["::iter", "::keys", "::values", "::drain", "::into_keys", "::into_values", "::retain", "::extract_if", "::into_iter", "Debug>::fmt", "::union", "::intersection", "::difference", "::symmetric"];
        if IT.iter().any(|p| n.contains(p)) {
            return Some(Eff::Nondet);
        }
    }
    let has = |l: &[&str]| l.iter().any(|p| n.starts_with(p));
    if has(STD) {
        return Some(Eff::Std);
    }
    if has(NONDET) {
        return Some(Eff::Nondet);
    }
    if n.starts_with("std::fs::") {
        if has(NEUTRAL) {
            if n.contains("as std::io::Write") {
                return Some(Eff::FsWrite);
            }
            return None;
        }
        if has(READ) {
            return Some(Eff::FsRead);
        }
        return Some(Eff::FsWrite);
    }
    if has(READ) {
        return Some(Eff::FsRead);
    }
    if n.starts_with("image::") && (n.contains(">::save") || n.contains("::save_buffer") || n.contains("::save_with_format")) {
        return Some(Eff::FsWrite);
    }
    if n.starts_with("image::") && (n.contains("::open") || n.contains("ImageReader")) {
        return Some(Eff::FsRead);
    }
    None
}

fn strip(n: &str) -> String {
    n.replace("r#", "")
}

pub fn loc(s: &Span) -> String {
    let l = s.get_lines();
    format!("{}:{}", s.get_filename(), l.start_line)
}

pub struct Callee {
    pub name: String,
    pub inst: Option<Instance>,
    pub span: Span,
}

/// Every function a body refers to: called, dropped, or taken as a value.
/// Generic bodies are read without resolving trait methods.
pub fn callees(body: &Body, mono: bool) -> Vec<Callee> {
    struct V<'a> {
        mono: bool,
        body: &'a Body,
        out: Vec<Callee>,
        ty_seen: HashSet<Ty>,
    }
    impl V<'_> {
        fn fndef(&mut self, ty: Ty, span: Span) {
            match ty.kind() {
                TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                    let i = if self.mono { Instance::resolve(d, &a).ok() } else { None };
                    let name = match &i {
                        Some(i) if !matches!(i.kind, InstanceKind::Virtual { .. }) => i.name(),
                        _ => d.name(),
                    };
                    self.out.push(Callee { name: strip(&name), inst: i, span });
                }
                _ => {}
            }
        }
    }
    impl MirVisitor for V<'_> {
        fn visit_const_operand(&mut self, c: &ConstOperand, l: visit::Location) {
            self.fndef(c.const_.ty(), c.span);
            self.super_const_operand(c, l);
        }
        fn visit_terminator(&mut self, t: &Terminator, l: visit::Location) {
            if let (true, TerminatorKind::Drop { place, .. }) = (self.mono, &t.kind) {
                if let Ok(ty) = place.ty(self.body.locals()) {
                    let i = Instance::resolve_drop_in_place(ty);
                    {
                        if !i.is_empty_shim() {
                            self.out.push(Callee { name: strip(&i.name()), inst: Some(i), span: t.source_info.span });
                        }
                    }
                }
            }
            self.super_terminator(t, l);
        }
        fn visit_rvalue(&mut self, r: &Rvalue, l: visit::Location) {
            // unsizing to a trait object: the methods of the vtable
            if let (true, Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::Unsize), op, to)) = (self.mono, r) {
                if let Ok(from) = op.ty(self.body.locals()) {
                    if let (Some(f), Some(t)) = (pointee(from), pointee(*to)) {
                        if let TyKind::RigidTy(RigidTy::Dynamic(..)) = t.kind() {
                            if let Some(p) = t.kind().trait_principal() {
                                if self.ty_seen.insert(f) {
                                    let tr = p.skip_binder().with_self_ty(f);
                                    let es = tr.vtable_entries();
                                    for e in es {
                                        if let VtblEntry::Method(i) = e {
                                            self.out.push(Callee { name: strip(&i.name()), inst: Some(i), span: self.body.span });
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            if let (true, Rvalue::Aggregate(AggregateKind::Closure(d, a), _)) = (self.mono, r) {
                if let Ok(i) = Instance::resolve_closure(*d, a, ClosureKind::FnOnce) {
                    self.out.push(Callee { name: strip(&i.name()), inst: Some(i), span: self.body.span });
                }
            }
            self.super_rvalue(r, l);
        }
    }
    let mut v = V { mono, body, out: vec![], ty_seen: HashSet::new() };
    v.visit_body(body);
    v.out
}
pub fn pointee(t: Ty) -> Option<Ty> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(t),
        TyKind::RigidTy(RigidTy::Adt(d, a)) if d.is_box() => a.0.first().and_then(|x| x.ty().copied()),
        _ => None,
    }
}


struct Graph {
    parent: HashMap<Instance, Option<(Instance, Span)>>,
    names: HashMap<Instance, String>,
}
fn walk(roots: &[Instance], edge: &mut dyn FnMut(&Instance, &str, &Callee, &Graph)) -> Graph {
    let mut g = Graph { parent: HashMap::new(), names: HashMap::new() };
    let mut todo: VecDeque<Instance> = VecDeque::new();
    for r in roots {
        g.parent.insert(*r, None);
        g.names.insert(*r, r.name());
        todo.push_back(*r);
    }
    while let Some(i) = todo.pop_front() {
        let Some(body) = i.body() else { continue };
        let name = g.names[&i].clone();
        for c in callees(&body, true) {
            edge(&i, &name, &c, &g);
            let Some(j) = c.inst else { continue };
            if g.parent.contains_key(&j) {
                continue;
            }
            let inner = c.name.trim_start_matches('<');
            if BOUNDARY.iter().any(|b| inner.starts_with(b)) && !c.name.contains("subtile::") && !c.name.contains("roots::") {
                continue;
            }
            if matches!(j.kind, InstanceKind::Virtual { .. }) {
                continue;
            }
            g.parent.insert(j, Some((i, c.span)));
            g.names.insert(j, c.name.clone());
            todo.push_back(j);
        }
    }
    g
}
fn path(g: &Graph, i: &Instance) -> String {
    let mut v = vec![];
    let mut c = *i;
    loop {
        v.push(cut(&g.names[&c]));
        match g.parent.get(&c).and_then(|p| p.clone()) {
            Some((p, _)) => c = p,
            None => break,
        }
    }
    v.reverse();
    v.join(" -> ")
}
pub fn cut(s: &str) -> String {
    if s.chars().count() > 160 {
        format!("{}…", s.chars().take(160).collect::<String>())
    } else {
        s.to_string()
    }
}
/// Nearest function of the library on the path.
fn blame(g: &Graph, i: &Instance) -> (String, Option<Span>) {
    let mut c = *i;
    let mut span = None;
    loop {
        let n = &g.names[&c];
        if n.contains("subtile::") && i_crate(&c) == "subtile" {
            return (n.clone(), span);
        }
        match g.parent.get(&c).and_then(|p| p.clone()) {
            Some((p, s)) => {
                span = Some(s);
                c = p
            }
            None => return (g.names[&c].clone(), span),
        }
    }
}
fn i_crate(i: &Instance) -> String {
    i.def.krate().name.to_string()
}

pub fn run(prop: &str) {
    let k = rustc_public::local_crate();
    let mut roots: BTreeMap<&str, Vec<Instance>> = BTreeMap::new();
    for f in k.fn_defs() {
        let n = f.name();
        for m in ["pure", "open", "dump"] {
            if n.starts_with(&format!("surface::{m}::")) || n.starts_with(&format!("roots::surface::{m}::")) {
                if let Ok(i) = Instance::try_from(rustc_public::CrateItem(f.def_id())) {
                    roots.entry(m).or_default().push(i);
                }
            }
        }
    }
    for (m, n) in [("pure", 7), ("open", 3), ("dump", 1)] {
        if roots.get(m).map_or(0, |r| r.len()) < n {
            out::violation(&format!("missing-root {m}"), &format!("analysis roots of group {m} are missing"));
        }
    }
    let mut reached: HashSet<rustc_public::DefId> = HashSet::new();
    let want16 = prop == "C16";
    let mut insts = 0;
    let mut edges = 0i64;
    let mut fs_ops: BTreeSet<String> = BTreeSet::new();
    for (m, rs) in &roots {
        let mut found: Vec<(Instance, String, Span, Eff)> = vec![];
        let g = walk(rs, &mut |i, _, c, _| {
            edges += 1;
            if let Some(e) = classify(&c.name) {
                found.push((*i, c.name.clone(), c.span, e));
            }
        });
        for (i, callee, span, e) in found {
            let (who, bspan) = blame(&g, &i);
            let site = bspan.unwrap_or(span);
            if matches!(e, Eff::FsRead | Eff::FsWrite) {
                fs_ops.insert(format!("{m}: {} in {}", cut(&callee), cut(&who)));
            }
            if exempt(&callee, &g.names[&i]) {
                continue;
            }
            let bad = match e {
                Eff::Std => want16,
                Eff::Nondet => !want16,
                Eff::FsRead => want16 && *m == "pure",
                Eff::FsWrite => want16 && *m != "dump",
            };
            if bad {
                out::violation(
                    &format!("{who} reaches {}", callee.split("::<").next().unwrap_or(&callee)),
                    &format!("{}: {who} reaches {} ({e:?}) which operations of group `{m}` must not; call path: {}", loc(&site), cut(&callee), path(&g, &i)),
                );
            }
        }
        insts += g.parent.len();
        for i in g.parent.keys() {
            reached.insert(i.def.def_id());
        }
    }
    // Every function of the library itself, reached or not, with generic code.
    let mut nfn = 0;
    let mut unreached = vec![];
    for c in rustc_public::find_crates("subtile") {
        for f in c.fn_defs() {
            let n = f.name();
            let Some(body) = f.body() else { continue };
            nfn += 1;
            if !reached.contains(&f.def_id()) {
                unreached.push(n.clone());
            }
            let mut bodies = vec![body];
            let mut bi = 0;
            while bi < bodies.len() {
                let b = bodies[bi].clone();
                bi += 1;
                scan_body(&n, &b, want16, &mut bodies);
            }
        }
        if !want16 {
            for s in c.statics() {
                check_static(&s.name(), s.ty(), &s);
            }
        }
    }
    out::count("surface_instances", insts as i64);
    out::count("call_edges", edges);
    out::count("library_functions", nfn);
    out::count("functions_not_reached_from_surface", unreached.len() as i64);
    out::list("functions_not_reached_from_surface", unreached);
    out::list("file_operations", fs_ops.into_iter().collect());
    if nfn < 150 {
        out::violation("low-count", &format!("only {nfn} functions of the library were analysed"));
    }
    if insts < 700 {
        out::violation("low-count-inst", &format!("only {insts} instances reached"));
    }
    // positive example: the classifier must recognise the forbidden calls
    let mut pos = 0;
    for f in k.fn_defs() {
        if f.name().ends_with("positive::forbidden") {
            let b = f.body().expect("positive body");
            pos = callees(&b, true).iter().filter(|c| matches!(classify(&c.name), Some(e) if (e == Eff::Nondet) != want16)).count();
        }
    }
    out::count("positive_example_matches", pos as i64);
    if pos < 3 {
        out::violation("positive-example", &format!("the rule matches only {pos} calls of its positive example"));
    }
}

/// Accepted occurrences, each with its reason.
fn exempt(_callee: &str, caller: &str) -> bool {
    // `LazyLock` statics are initialised once with a constant computation;
    // its atomics and Once are invisible to callers.
    (caller.contains("std::sync::LazyLock") || caller.contains("lazy_lock"))
        // Arc counters of values shared inside compact_str / regex
        || caller.contains("alloc::sync::Arc")
        || caller.contains("std::sync::Arc")
}

fn check_static(name: &str, ty: Ty, s: &mono::StaticDef) {
    out::count("statics", 1);
    if let Some(why) = interior_mut(ty, 0) {
        out::violation(
            &format!("static {name}"),
            &format!("{}: static {name} is mutable global state ({why})", loc(&s.span())),
        );
    }
}
fn interior_mut(ty: Ty, d: u32) -> Option<String> {
    if d > 12 {
        return None;
    }
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Adt(def, args)) => {
            let n = def.name();
            if n.ends_with("::LazyLock") {
                // initialised once from a constant computation; the contained
                // type must itself be immutable, or a compiled Regex
                let t = args.0.first().and_then(|x| x.ty().copied())?;
                if let TyKind::RigidTy(RigidTy::Adt(d2, _)) = t.kind() {
                    if d2.name().ends_with("Regex") {
                        return None;
                    }
                }
                return interior_mut(t, d + 1);
            }
            if n.ends_with("::UnsafeCell") || n.contains("::atomic::Atomic") || n.contains("::Mutex") || n.contains("::RwLock") || n.contains("::OnceLock") || n.contains("::OnceCell") || n.contains("::RefCell") || n.ends_with("::Cell") {
                return Some(n);
            }
            for v in def.variants() {
                for f in v.fields() {
                    if let Some(w) = interior_mut(f.ty_with_args(&args), d + 1) {
                        return Some(w);
                    }
                }
            }
            None
        }
        TyKind::RigidTy(RigidTy::Array(t, _)) | TyKind::RigidTy(RigidTy::Slice(t)) => interior_mut(t, d + 1),
        TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.into_iter().find_map(|t| interior_mut(t, d + 1)),
        TyKind::RigidTy(RigidTy::RawPtr(_, Mutability::Mut)) => Some("*mut".into()),
        _ => None,
    }
}

/// Rules on the generic code of one library function.
fn scan_body(owner: &str, b: &Body, want16: bool, more: &mut Vec<Body>) {
    for c in callees(b, false) {
        out::count("library_call_sites", 1);
        if let Some(e) = classify(&c.name) {
            let bad = match e {
                Eff::Std => want16,
                Eff::Nondet => !want16,
                // who may touch files is decided per surface group
                Eff::FsRead | Eff::FsWrite => false,
            };
            if bad && !exempt(&c.name, owner) {
                out::violation(
                    &format!("{owner} reaches {}", c.name.split("::<").next().unwrap_or(&c.name)),
                    &format!("{}: {owner} refers to {} ({e:?})", loc(&c.span), cut(&c.name)),
                );
            }
        }
    }
    for bb in &b.blocks {
        for st in &bb.statements {
            if let StatementKind::Assign(_, rv) = &st.kind {
                if let Rvalue::Aggregate(AggregateKind::Closure(d, _), _) = rv {
                    if let Some(cb) = d.body() {
                        more.push(cb);
                    }
                }
                if want16 {
                    continue;
                }
                let bad = match rv {
                    Rvalue::Cast(CastKind::PointerExposeAddress, ..) => Some("exposes the address of a pointer as an integer"),
                    Rvalue::ThreadLocalRef(_) => Some("reads a thread-local variable"),
                    Rvalue::Cast(CastKind::Transmute, op, to) => match (op.ty(b.locals()), to.kind().is_integral()) {
                        (Ok(f), true) if f.kind().is_any_ptr() => Some("turns an address into an integer"),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(w) = bad {
                    out::violation(&format!("{owner} {w}"), &format!("{}: {owner} {w}", loc(&st.source_info.span)));
                }
            }
        }
    }
    if !want16 {
        crate::logregion::check(owner, b);
    }
}
