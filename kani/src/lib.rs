//! Contract harnesses for wz_reader: each function here states a precondition (the
//! `assume`s), calls the real code of /repo, and states its postcondition (the
//! `assert`s).  Under Kani the values are symbolic and every assertion, overflow,
//! bounds and panic obligation is discharged by CBMC.
#![cfg_attr(kani, feature(allocator_api))]
#![allow(dead_code, unused_imports, unused_macros, unused_mut, clippy::all)]
pub mod common;
pub mod records;
pub mod rt;
pub mod spec;
pub mod stubs;

macro_rules! modules {
    ($($m:ident $f:literal)*) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        /// every compiled harness, for native replay
        pub fn find(name: &str) -> Option<fn()> {
            let mut all: Vec<&[(&str, fn())]> = Vec::new();
            $( #[cfg(feature = $f)] all.push($m::TABLE); )*
            all.iter().flat_map(|t| t.iter()).find(|h| h.0 == name).map(|h| h.1)
        }
    };
}
modules! {
    c01 "c01" c02 "c02" c03 "c03" c04 "c04" c05 "c05" c06 "c06" c07 "c07" c08 "c08" c09 "c09" c10 "c10" c11 "c11" c12 "c12"
}

#[cfg(kani)]
pub mod noop {
    #[kani::proof]
    fn noop() {
        kani::cover!(true);
    }
}
