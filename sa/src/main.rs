#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

mod calls;
#[allow(dead_code)]
mod consts;
#[allow(dead_code)]
mod float;
#[allow(dead_code)]
mod errors;
mod interp;
#[allow(dead_code)]
mod join;
#[allow(dead_code)]
mod lin;
mod logregion;
#[allow(dead_code)]
mod mem;
mod modes;
mod models;
#[allow(dead_code)]
mod ops;
mod out;
#[allow(dead_code)]
mod place;
mod rank;
mod regex;
#[allow(dead_code)]
mod simplex;
#[allow(dead_code)]
mod summary;
#[allow(dead_code)]
mod val;

use std::ops::ControlFlow;

/// Used as RUSTC_WRAPPER: compiles every crate with the real compiler, and
/// analyses the crate `roots` (with everything it reaches) instead of
/// generating code for it.
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let rest: Vec<String> = args[1..].to_vec();
    let name = rest.iter().position(|a| a == "--crate-name").and_then(|i| rest.get(i + 1)).cloned();
    let mode = std::env::var("SA_MODE").unwrap_or_default();
    if name.as_deref() != Some("roots") || mode.is_empty() {
        let mut c = std::process::Command::new(&rest[0]);
        c.args(&rest[1..]);
        if name.as_deref() == Some("subtile") && mode == "C17" {
            c.arg("-Funsafe_code");
        }
        let st = c.status().expect("rustc");
        std::process::exit(st.code().unwrap_or(2));
    }
    let mut a = rest.clone();
    a[0] = "rustc".into();
    let r = rustc_public::run!(&a, || analyse(&mode));
    match r {
        Ok(()) | Err(rustc_public::CompilerError::Interrupted(())) => {}
        Err(e) => {
            eprintln!("compile error {e:?}");
            std::process::exit(1)
        }
    }
}

fn analyse(mode: &str) -> ControlFlow<()> {
    let path = std::env::var("SA_OUT").expect("SA_OUT");
    match mode {
        "C16" | "C17" => calls::run(mode),
        "C18" => {
            errors::run();
            modes::run(mode)
        }
        m => modes::run(m),
    }
    out::finish(&path);
    ControlFlow::Break(())
}
