#![allow(clippy::all, deprecated, unused_imports, unused_macros, dead_code)]
pub mod src;
pub mod tracked;
pub mod pv;
use crate::src::Conc;

pub struct Section {
    pub property: &'static str,
    pub name: &'static str,
    pub run: fn(&mut Conc),
    /// this harness is also verified symbolically by Kani
    pub kani: bool,
    pub weight: f64,
}

/// Asserts a postcondition.
#[macro_export]
macro_rules! ck {
    ($c:expr, $m:literal) => {
        assert!($c, $m)
    };
}
/// Asserts `real == spec`.
#[macro_export]
macro_rules! eq {
    ($a:expr, $b:expr, $m:literal) => {{
        #[cfg(not(kani))]
        {
            match (&$a, &$b) {
                (a, b) => assert!(*a == *b, "{}: got {:?}, expected {:?}", $m, a, b),
            }
        }
        #[cfg(kani)]
        {
            assert!(($a) == ($b), $m);
        }
    }};
}

/// Registers the harnesses of one property: `prove` ones get a Kani proof (with the given unwind
/// bound and extra flags chosen by the runner), `test` ones are concrete only.
#[macro_export]
macro_rules! harnesses {
    ($prop:literal; prove { $($p:ident $u:literal),* $(,)? } test { $($t:ident $w:literal),* $(,)? }) => {
        #[cfg(not(kani))]
        pub fn sections() -> Vec<$crate::Section> {
            vec![
                $($crate::Section { property: $prop, name: stringify!($p), run: $p::<$crate::src::Conc>, kani: true, weight: 1.0 },)*
                $($crate::Section { property: $prop, name: stringify!($t), run: $t::<$crate::src::Conc>, kani: false, weight: $w },)*
            ]
        }
        #[cfg(kani)]
        mod proofs {
            $(#[kani::proof]
            #[kani::unwind($u)]
            fn $p() { super::$p(&mut $crate::src::Sym); kani::cover!(true, "the end of the contract is reachable"); })*
        }
    };
}

#[cfg(feature = "async")]
pub mod c23;
macro_rules! props {
    ($($m:ident),* $(,)?) => {
        $(pub mod $m;)*
        #[cfg(not(kani))]
        pub fn sections() -> Vec<Section> {
            let mut v = Vec::new();
            $(v.extend($m::sections());)*
            #[cfg(feature = "async")]
            v.extend(c23::sections());
            v
        }
        #[cfg(kani)]
        pub fn sections() -> Vec<Section> { Vec::new() }
    };
}
props!(c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c24);
