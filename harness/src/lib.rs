//! Harnesses: each entry is one property stated over symbolic inputs.
//!
//! Compiled twice from the same source: with feature `sym` to LLVM IR that the
//! symbolic executor runs, with feature `native` into the program that replays
//! the solver's models against the real build.
#![allow(dead_code, unused_imports, unused_macros, clippy::all)]

#[macro_use]
pub mod sym;
pub mod refm;
#[macro_use]
pub mod model;
pub mod util;
pub mod hb;
pub mod anyenum;
#[cfg(any(feature = "c10", feature = "c04", feature = "c19"))]
pub mod wide;

#[cfg(derive_varint)]
mod derive_varint {
    include!(concat!(env!("OUT_DIR"), "/derive_varint.rs"));
}

macro_rules! props {
    ($($f:literal $m:ident),*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn run(name: &str, p: u64) -> bool {
            let _ = (name, p);
            $(#[cfg(feature = $f)] if $m::run(name, p) { return true; })*
            false
        }
    };
}
props!("c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07,
       "c08" c08, "c09" c09, "c10" c10, "c11" c11, "c12" c12, "c13" c13, "c14" c14,
       "c15" c15, "c16" c16, "c17" c17, "c18" c18, "c19" c19, "c20" c20, "c21" c21);
