//! Every harness is an ordinary function whose inputs come from `nd::any`: Kani decides it for all
//! values, and `bin/replay.rs` runs it natively on the values of a counterexample.
pub mod decode;
pub mod challenges;
pub mod options;
pub mod work;

pub type Harness = (&'static str, fn());
pub fn all() -> Vec<Harness> {
    let mut v = vec![];
    v.extend_from_slice(decode::ALL);
    v.extend_from_slice(work::ALL);
    v.extend_from_slice(options::ALL);
    v.extend_from_slice(challenges::ALL);
    v
}

/// Declares harnesses: `harnesses! { name, unwind; ... }` for functions of the same name in this module.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident, $unwind:literal;)*) => {
        pub const ALL: &[$crate::Harness] = &[$((concat!(stringify!($name)), $name)),*];
        #[cfg(kani)]
        pub mod proofs {
            $(#[kani::proof]
            #[kani::unwind($unwind)]
            #[kani::solver(cadical)]
            pub fn $name() {
                super::$name()
            })*
        }
    };
}
