//! Contract harnesses for HexoDSP. See /verif/DESIGN.md.
#![allow(clippy::all)]
pub mod sym;
pub mod util;

macro_rules! props {
    ($($f:literal $m:ident $id:literal),* $(,)?) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        /// (property id, harness name, kind, iterations, function)
        #[cfg(not(kani))]
        pub fn table() -> Vec<(&'static str, &'static str, &'static str, usize, fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, &'static str, &'static str, usize, fn())> = vec![];
            $( #[cfg(feature = $f)]
               for (n, k, i, f) in $m::TABLE.iter() { v.push(($id, n, k, *i, *f)); } )*
            v
        }
    }
}
props! {
    "p01" p01 "P01",
    "p02" p02 "P02",
    "p03" p03 "P03",
    "p04" p04 "P04",
    "p05" p05 "P05",
    "p06" p06 "P06",
    "p07" p07 "P07",
    "p08" p08 "P08",
    "p09" p09 "P09",
    "p10" p10 "P10",
    "p11" p11 "P11",
    "p12" p12 "P12",
    "p13" p13 "P13",
    "p14" p14 "P14",
    "p15" p15 "P15",
}
