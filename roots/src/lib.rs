//! Entry points ("roots") of the static analysis.  Nothing here is ever
//! run: the analyser interprets these functions abstractly, together with
//! the code of the library they call.  Only the public API is used.
#![feature(formatting_options)]
#![allow(let_underscore_lock, unused, dead_code, clippy::all)]

pub mod sa;
pub mod model;
pub mod decode;
pub mod surface;
pub mod t;
pub mod p1;
pub mod p2;
pub mod p3;
pub mod p4;
pub mod p5;
pub mod p6;
