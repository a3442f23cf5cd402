//! Error values: `source` of every variant, conversions, messages (C18).
use crate::interp::*;
use crate::models::any_of;
use crate::out;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDef;

/// Instances of a trait with their arguments (`Self` first).
fn impls(of: &str, local: bool) -> Vec<Vec<Ty>> {
    let list = if local { rustc_public::find_crates("subtile").iter().flat_map(|c| c.trait_impls()).collect() } else { rustc_public::all_trait_impls() };
    let mut v = vec![];
    for i in list {
        let t = i.trait_impl().value;
        let n = t.def_id.name().to_string();
        if n.strip_prefix("core::").or(n.strip_prefix("std::")) == Some(of) {
            let a: Vec<Ty> = t.args().0.iter().filter_map(|a| if let GenericArgKind::Type(t) = a { Some(*t) } else { None }).collect();
            v.push(a);
        }
    }
    v
}
fn method(of: &str, m: &str, args: Vec<Ty>) -> Option<Instance> {
    let t = rustc_public::all_trait_decls().into_iter().find(|t| path(&t.name().to_string()) == Some(of.to_string()))?;
    let a = t.associated_items().into_iter().find(|a| a.def_id.name().to_string().ends_with(&format!("::{m}")))?;
    let d = FnDef(a.def_id.def_id());
    Instance::resolve(d, &GenericArgs(args.into_iter().map(GenericArgKind::Type).collect())).ok()
}
fn path(n: &str) -> Option<String> {
    n.strip_prefix("core::").or(n.strip_prefix("std::")).map(|s| s.to_string())
}
fn concrete(t: Ty) -> bool {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().all(|a| match a {
            GenericArgKind::Type(t) => concrete(*t),
            _ => true,
        }),
        TyKind::RigidTy(_) => true,
        _ => false,
    }
}
fn variants(t: Ty) -> Vec<(String, Val, Vec<Ty>)> {
    let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.kind() else { return vec![] };
    let mut v = vec![];
    for (k, x) in d.variants().iter().enumerate() {
        let f = field_tys(t, k).unwrap_or_default();
        let vals = f.iter().map(|t| any_of(*t)).collect();
        v.push((x.name().to_string(), Val::agg(if d.kind() == AdtKind::Enum { k as u32 } else { ST }, vals), f));
    }
    v
}
pub fn run() {
    let all: Vec<String> = impls("error::Error", false).into_iter().filter_map(|a| a.first().map(|t| adt_name(*t))).filter(|n| !n.is_empty()).collect();
    let wraps = |t: &Ty| all.contains(&adt_name(*t));
    let mut notes = vec![];
    let mut done = vec![];
    let mine: Vec<Ty> = impls("error::Error", true).into_iter().filter_map(|a| a.first().copied()).collect();
    for &t in &mine {
        let n = adt_name(t);
        if !concrete(t) {
            notes.push(format!("{n}: generic"));
            continue;
        }
        let Some(src) = method("error::Error", "source", vec![t]) else {
            notes.push(format!("{n}: `source` not found"));
            continue;
        };
        for (name, val, tys) in variants(t) {
            let fields: Vec<u32> = tys.iter().enumerate().filter(|f| wraps(f.1)).map(|f| f.0 as u32).collect();
            let mut ix = Ix::new("C18");
            ix.no_summary = true;
            if std::env::var("SA_TRACE").is_ok() {
                eprintln!("{n}::{name}");
            }
            let mut st = State::new();
            let c = st.alloc(val.clone());
            let this = Val::ptr(c, vec![], Meta::None);
            let r = ix.exec_fn(src, vec![this.clone()], st.clone());
            let loc = format!("{} ({})", n, crate::modes::where_(&src.def.span()));
            for (_, v) in &r {
                let good = match v {
                    Val::Agg(1, f) => match f.first() {
                        // references to values without content are all the same
                        Some(Val::Ptr(p)) if p.cell == crate::consts::DANGLING => matches!(&p.meta, Meta::Dyn(d) if fields.iter().any(|i| tys[*i as usize] == *d)),
                        Some(Val::Ptr(p)) => p.cell == c && matches!(p.path.first(), Some(Step::Field(i)) if fields.contains(i)),
                        _ => false,
                    },
                    _ => false,
                };
                if fields.is_empty() {
                    continue;
                }
                out::count("wrapped_errors", 1);
                if !good && std::env::var("SA_TRACE").is_ok() {
                    eprintln!("  {v:?}");
                }
                if !good {
                    out::violation(&format!("{n}::{name}: source"), &format!("{loc}: `source` of variant `{name}` does not return the error it wraps"));
                }
            }
            notes.extend(ix.fails.keys().chain(ix.unsupported.keys()).map(|k| format!("{n}::{name}: {k}")));
            done.push(format!("{n}::{name}: {}", if fields.is_empty() { "wraps no error".to_string() } else { format!("wraps field {fields:?}") }));
        }
    }
    for a in impls("convert::From", true) {
        let (Some(&to), Some(&from)) = (a.first(), a.get(1)) else { continue };
        if !mine.iter().any(|t| adt_name(*t) == adt_name(to)) || !wraps(&from) || !concrete(to) || !concrete(from) {
            continue;
        }
        let Some(f) = method("convert::From", "from", vec![to, from]) else { continue };
        let n = format!("{} from {}", adt_name(to), adt_name(from));
        let mut ix = Ix::new("C18");
        ix.no_summary = true;
        let x = any_of(from);
        let r = ix.exec_fn(f, vec![x.clone()], State::new());
        for (_, v) in &r {
            let kept = matches!(v, Val::Agg(_, f) if f.contains(&x)) || matches!(x, Val::Zst);
            out::count("conversions", 1);
            if !kept {
                out::violation(&format!("{n}: lost"), &format!("{}: the conversion does not keep the error it is made from", n));
            }
        }
        notes.extend(ix.fails.keys().chain(ix.unsupported.keys()).map(|k| format!("{n}: {k}")));
        done.push(n);
    }
    // Messages are made of messages of the types in them, and of others.
    let mut parts: Vec<Ty> = mine.clone();
    let mut k = 0;
    while k < parts.len() {
        for (_, _, f) in variants(parts[k]) {
            for t in f {
                if !parts.contains(&t) {
                    parts.push(t);
                }
            }
        }
        k += 1;
        if k > 2000 {
            break;
        }
    }
    let parts: Vec<String> = parts.into_iter().map(adt_name).collect();
    for of in ["fmt::Display", "fmt::Debug"] {
        for a in impls(of, true) {
            let Some(&t) = a.first().filter(|t| concrete(**t) && parts.contains(&adt_name(**t))) else { continue };
            let Some(f) = method(of, "fmt", vec![t]) else { continue };
            let n = format!("{of} of {}", adt_name(t));
            let mut ix = Ix::new("C18");
            ix.no_summary = true;
            if std::env::var("SA_TRACE").is_ok() {
                eprintln!("{n}");
            }
            let mut st = State::new();
            let args = f.body().map(|b| b.arg_locals().iter().map(|l| any_of(l.ty)).collect::<Vec<_>>()).unwrap_or_default();
            let args = args.into_iter().map(|v| crate::place::expand_deep(&mut st, v, 2)).collect();
            let r = ix.exec_fn(f, args, st);
            out::count("messages", 1);
            if r.is_empty() && ix.fails.is_empty() && ix.unsupported.is_empty() {
                out::violation(&format!("{n}: no end"), &format!("{n}: formatting never completes"));
            }
            for r in &ix.reps {
                if !r.vague {
                    out::violation(&r.key, &format!("{n}: {}", r.text));
                }
            }
            notes.extend(ix.fails.keys().chain(ix.unsupported.keys()).map(|k| format!("{n}: {k}")));
            done.push(n);
        }
    }
    out::count("incomplete", notes.len() as i64);
    out::list("analysed_roots", done);
    out::list("incomplete_notes", notes);
}
