//! Every harness is an ordinary function whose inputs come from `nd::any`: the executor of tools/ll
//! decides it for all values, and `bin/replay.rs` runs it natively on the values of a counterexample.
pub mod bytes;
pub mod cairo;
pub mod inputs;
pub mod table;
pub mod trace;
// shared with the Kani crate
#[path = "../../kani/src/challenges.rs"]
pub mod challenges;
#[path = "../../kani/src/decode.rs"]
pub mod decode;
#[path = "../../kani/src/options.rs"]
pub mod options;
#[path = "../../kani/src/work.rs"]
pub mod work;

pub type Harness = (&'static str, fn());
pub fn all() -> Vec<Harness> {
    let mut v = vec![];
    v.extend_from_slice(bytes::ALL);
    v.extend_from_slice(cairo::ALL);
    v.extend_from_slice(table::ALL);
    v.extend_from_slice(trace::ALL);
    for m in [challenges::ALL, decode::ALL, options::ALL, work::ALL] {
        v.extend_from_slice(m);
    }
    v
}

/// Declares harnesses: `harnesses! { name; ... }` for functions of the same name in this module.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident $(, $unwind:literal)?;)*) => {
        pub const ALL: &[$crate::Harness] = &[$((concat!(stringify!($name)), $name)),*];
        #[cfg(ll)]
        pub mod entries {
            $(#[no_mangle]
            #[inline(never)]
            pub extern "C" fn $name() {
                super::$name()
            })*
        }
    };
}
