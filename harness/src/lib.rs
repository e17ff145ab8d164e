#![allow(dead_code, unused_imports)]
#[macro_use]
mod entry {
    /// Declares harness entry points: exported for the symbolic engine, and listed for replay.
    macro_rules! entries {
        ($( fn $n:ident() $b:block )*) => {
            $( #[no_mangle] pub extern "C" fn $n() $b )*
            pub fn list() -> Vec<(&'static str, extern "C" fn())> {
                vec![$( (stringify!($n), $n as extern "C" fn()) ),*]
            }
        };
    }
    macro_rules! modules {
        ($( $f:literal $m:ident )*) => {
            $( #[cfg(feature = $f)] pub mod $m; )*
            pub fn entries() -> Vec<(&'static str, extern "C" fn())> {
                #[allow(unused_mut)]
                let mut v: Vec<(&'static str, extern "C" fn())> = vec![];
                $( #[cfg(feature = $f)] v.extend($m::list()); )*
                v
            }
        };
    }
}
pub mod vp;
pub mod common;
pub mod gen;

modules! {
    "c01" c01 "c02" c02 "c03" c03 "c04" c04 "c05" c05 "c06" c06 "c07" c07 "c08" c08 "c09" c09 "c10" c10 "c11" c11 "c12" c12 "c13" c13 "c14" c14 "c15" c15 "c16" c16 "c17" c17 "c18" c18 "c19" c19 "c20" c20 "c21" c21 "c22" c22 "c23" c23
}
