//! Results must not depend on the log level (C17): the code that runs only
//! because logging is enabled may format and hand over a message, nothing
//! else.  Taint of values obtained from the `log` crate, and regions
//! control-dependent on them (immediate post-dominators).
use crate::calls::{cut, loc};
use crate::out;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::*;

fn callee_name(f: &Operand, b: &Body) -> String {
    match f.ty(b.locals()).map(|t| t.kind()) {
        Ok(TyKind::RigidTy(RigidTy::FnDef(d, _))) => d.name(),
        _ => "?".into(),
    }
}
fn succs(bb: &BasicBlock) -> Vec<usize> {
    use TerminatorKind::*;
    match &bb.terminator.kind {
        Goto { target } | Drop { target, .. } | Assert { target, .. } => vec![*target],
        Call { target, .. } => target.iter().copied().collect(),
        SwitchInt { targets, .. } => targets.all_targets(),
        _ => vec![],
    }
}
/// Post-dominator sets over normal edges (small bodies: plain iteration).
fn postdoms(b: &Body) -> Vec<BTreeSet<usize>> {
    let n = b.blocks.len();
    let all: BTreeSet<usize> = (0..n).collect();
    let mut pd = vec![all.clone(); n];
    // only returning blocks are exits: diverging ones do not constrain
    let ret: Vec<bool> = b.blocks.iter().map(|x| matches!(x.terminator.kind, TerminatorKind::Return)).collect();
    loop {
        let mut ch = false;
        for i in (0..n).rev() {
            let mut s: Option<BTreeSet<usize>> = None;
            if ret[i] {
                s = Some(BTreeSet::new());
            } else {
                for t in succs(&b.blocks[i]) {
                    s = Some(match s {
                        None => pd[t].clone(),
                        Some(x) => x.intersection(&pd[t]).copied().collect(),
                    });
                }
            }
            let mut s = s.unwrap_or_else(|| all.clone());
            s.insert(i);
            if s != pd[i] {
                pd[i] = s;
                ch = true;
            }
        }
        if !ch {
            return pd;
        }
    }
}

pub fn check(owner: &str, b: &Body) {
    // taint
    let mut taint: HashSet<Local> = HashSet::new();
    loop {
        let n = taint.len();
        for bb in &b.blocks {
            for st in &bb.statements {
                if let StatementKind::Assign(p, rv) = &st.kind {
                    if rv_locals(rv).iter().any(|l| taint.contains(l)) {
                        taint.insert(p.local);
                    }
                }
            }
            if let TerminatorKind::Call { func, args, destination, .. } = &bb.terminator.kind {
                let n = callee_name(func, b);
                let t = args.iter().any(|a| op_local(a).map_or(false, |l| taint.contains(&l)));
                if (t || n.starts_with("log::")) && !b.locals()[destination.local].ty.kind().is_unit() {
                    taint.insert(destination.local);
                }
            }
        }
        if taint.len() == n {
            break;
        }
    }
    if taint.is_empty() {
        return;
    }
    let bad = |what: String, s: &Span| {
        out::violation(&format!("{owner} log {what}"), &format!("{}: {owner}: {what}", loc(s)));
    };
    if taint.contains(&0) {
        bad("the result depends on the log level".into(), &b.span);
    }
    for l in &taint {
        if *l >= 1 && *l <= b.arg_locals().len() {
            bad("the log level is stored through a parameter".into(), &b.span);
        }
    }
    let pd = postdoms(b);
    let mut region: HashMap<usize, usize> = HashMap::new(); // block -> branching block
    for (i, bb) in b.blocks.iter().enumerate() {
        match &bb.terminator.kind {
            TerminatorKind::SwitchInt { discr, .. } => {
                if !op_local(discr).map_or(false, |l| taint.contains(&l)) {
                    continue;
                }
                out::count("log_level_branches", 1);
                // immediate post-dominator: the one post-dominated by all others
                let mut c: Vec<usize> = pd[i].iter().copied().filter(|&x| x != i).collect();
                c.sort_by_key(|&x| std::cmp::Reverse(pd[x].len()));
                let Some(&join) = c.first() else {
                    bad("a branch on the log level decides how the function ends".into(), &bb.terminator.source_info.span);
                    continue;
                };
                let mut todo = succs(bb);
                let mut seen: BTreeSet<usize> = BTreeSet::new();
                while let Some(x) = todo.pop() {
                    if x == join || !seen.insert(x) {
                        continue;
                    }
                    todo.extend(succs(&b.blocks[x]));
                }
                for x in seen {
                    region.insert(x, i);
                }
            }
            TerminatorKind::Call { func, args, .. } => {
                let n = callee_name(func, b);
                if args.iter().any(|a| op_local(a).map_or(false, |l| taint.contains(&l)))
                    && !(n.starts_with("log::") || n.starts_with("std::cmp::") || n.starts_with("core::cmp::") || n.contains("fmt"))
                {
                    bad(format!("a value obtained from the logger is passed to {}", cut(&n)), &bb.terminator.source_info.span);
                }
            }
            _ => {}
        }
    }
    out::count("log_only_blocks", region.len() as i64);
    // what the log-only code writes
    let mut written: HashMap<Local, Span> = HashMap::new();
    for (&x, _) in &region {
        let bb = &b.blocks[x];
        for st in &bb.statements {
            if let StatementKind::Assign(p, rv) = &st.kind {
                if p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) {
                    bad("code that runs only when logging is enabled writes through a reference".into(), &st.source_info.span);
                }
                let _ = rv;
                if !b.locals()[p.local].ty.kind().is_unit() {
                    written.insert(p.local, st.source_info.span);
                }
            }
        }
        match &bb.terminator.kind {
            TerminatorKind::Call { func, args, destination, .. } => {
                let n = callee_name(func, b);
                let fmtlike = n.starts_with("log::") || n.starts_with("std::fmt::") || n.starts_with("core::fmt::");
                if !fmtlike {
                    for a in args {
                        if a.ty(b.locals()).map_or(true, |t| has_mut_ref(t)) {
                            bad(format!("code that runs only when logging is enabled passes mutable state to {}", cut(&n)), &bb.terminator.source_info.span);
                        }
                    }
                }
                if !b.locals()[destination.local].ty.kind().is_unit() {
                    written.insert(destination.local, bb.terminator.source_info.span);
                }
                if destination.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) {
                    bad("code that runs only when logging is enabled writes through a reference".into(), &bb.terminator.source_info.span);
                }
            }
            TerminatorKind::Return => bad("code that runs only when logging is enabled returns".into(), &bb.terminator.source_info.span),
            _ => {}
        }
    }
    for (i, bb) in b.blocks.iter().enumerate() {
        if region.contains_key(&i) {
            continue;
        }
        let mut used: Vec<Local> = vec![];
        for st in &bb.statements {
            if let StatementKind::Assign(p, rv) = &st.kind {
                used.extend(rv_locals(rv));
                if !p.projection.is_empty() {
                    used.push(p.local);
                }
            }
        }
        match &bb.terminator.kind {
            TerminatorKind::Call { args, .. } => used.extend(args.iter().filter_map(op_local)),
            TerminatorKind::SwitchInt { discr, .. } => used.extend(op_local(discr)),
            TerminatorKind::Assert { cond, .. } => used.extend(op_local(cond)),
            TerminatorKind::Return => used.push(0),
            _ => {}
        }
        for u in used {
            if let Some(s) = written.get(&u) {
                // a chain of level tests (`a && b`) assigns its own flag
                if taint.contains(&u) {
                    continue;
                }
                bad("a value written only when logging is enabled is used afterwards".into(), s);
            }
        }
    }
}
fn has_mut_ref(t: Ty) -> bool {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, _, Mutability::Mut)) | TyKind::RigidTy(RigidTy::RawPtr(_, Mutability::Mut)) => true,
        TyKind::RigidTy(RigidTy::Tuple(v)) => v.into_iter().any(has_mut_ref),
        TyKind::RigidTy(RigidTy::Closure(_, a)) => format!("{a:?}").contains("mut"),
        TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().any(|x| x.ty().map_or(false, |t| has_mut_ref(*t))),
        _ => false,
    }
}
fn op_local(o: &Operand) -> Option<Local> {
    match o {
        Operand::Copy(p) | Operand::Move(p) => Some(p.local),
        _ => None,
    }
}
fn rv_locals(rv: &Rvalue) -> Vec<Local> {
    let mut v: Vec<Local> = vec![];
    let mut place = |p: &Place| {
        v.push(p.local);
        for e in &p.projection {
            if let ProjectionElem::Index(l) = e {
                v.push(*l)
            }
        }
    };
    match rv {
        Rvalue::AddressOf(_, p) | Rvalue::CopyForDeref(p) | Rvalue::Discriminant(p) | Rvalue::Len(p) | Rvalue::Ref(_, _, p) | Rvalue::Reborrow(_, _, p) => place(p),
        Rvalue::Aggregate(_, ops) => ops.iter().for_each(|o| {
            if let Operand::Copy(p) | Operand::Move(p) = o {
                place(p)
            }
        }),
        Rvalue::BinaryOp(_, a, c) | Rvalue::CheckedBinaryOp(_, a, c) => {
            for o in [a, c] {
                if let Operand::Copy(p) | Operand::Move(p) = o {
                    place(p)
                }
            }
        }
        Rvalue::Cast(_, o, _) | Rvalue::Repeat(o, _) | Rvalue::UnaryOp(_, o) | Rvalue::Use(o, _) => {
            if let Operand::Copy(p) | Operand::Move(p) = o {
                place(p)
            }
        }
        Rvalue::ThreadLocalRef(_) => {}
    }
    v
}
