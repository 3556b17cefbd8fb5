//! Nondeterministic values: chosen by the solver under Kani; in a native run they are read, in the
//! same order, from the byte strings of the solver's model.
#[cfg(kani)]
mod imp {
    pub trait Nd: kani::Arbitrary {}
    impl<T: kani::Arbitrary> Nd for T {}
    #[inline(always)]
    pub fn any<T: Nd>() -> T {
        kani::any()
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    /// The harness cannot say anything about this execution.
    pub fn limit(m: &'static str) {
        panic!("harness limit: {}", m)
    }
}
/// Under the executor of tools/ll the values are symbols.
#[cfg(ll)]
mod imp {
    extern "C" {
        fn ll_any(p: *mut u8, n: usize);
        fn ll_assume(c: bool);
        fn ll_reach(p: *const u8, n: usize);
        fn ll_limit();
    }
    pub trait Nd: Sized + Copy {
        fn valid(&self) {}
    }
    macro_rules! int {
        ($($t:ty),*) => {$(impl Nd for $t {})*};
    }
    int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    impl<const N: usize> Nd for [u8; N] {}
    #[inline(never)]
    pub fn any<T: Nd>() -> T {
        let mut v = core::mem::MaybeUninit::<T>::uninit();
        unsafe {
            ll_any(v.as_mut_ptr() as *mut u8, core::mem::size_of::<T>());
            v.assume_init()
        }
    }
    #[inline(never)]
    pub fn assume(c: bool) {
        unsafe { ll_assume(c) }
    }
    #[inline(never)]
    pub fn limit(_: &'static str) {
        unsafe { ll_limit() }
    }
    #[inline(never)]
    pub fn reached(m: &'static str) {
        unsafe { ll_reach(m.as_ptr(), m.len()) }
    }
}
#[cfg(not(any(kani, ll)))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! {
        static VALUES: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new());
    }
    /// Thrown when the values violate an assumption (the model does not replay).
    pub struct Unmet;
    pub fn install(v: Vec<Vec<u8>>) {
        VALUES.with(|q| *q.borrow_mut() = v.into());
    }
    fn take(n: usize) -> Vec<u8> {
        let mut b = VALUES.with(|q| q.borrow_mut().pop_front()).unwrap_or_else(|| vec![0; n]);
        b.resize(n, 0);
        b
    }
    pub trait Nd: Sized {
        fn nd() -> Self;
    }
    macro_rules! int {
        ($($t:ty),*) => {$(
            impl Nd for $t {
                fn nd() -> Self {
                    const N: usize = core::mem::size_of::<$t>();
                    <$t>::from_le_bytes(take(N).try_into().unwrap())
                }
            }
        )*};
    }
    int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    impl Nd for bool {
        fn nd() -> Self {
            take(1)[0] & 1 == 1
        }
    }
    impl<const N: usize> Nd for [u8; N] {
        fn nd() -> Self {
            take(N).try_into().unwrap()
        }
    }
    pub fn any<T: Nd>() -> T {
        T::nd()
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Unmet)
        }
    }
    pub fn limit(_: &'static str) {
        std::panic::panic_any(Unmet)
    }
}
pub use imp::*;

/// A file with given contents.
#[cfg(ll)]
pub mod file {
    pub(crate) struct Contents(pub core::cell::UnsafeCell<Vec<u8>>);
    unsafe impl Sync for Contents {}
    pub(crate) static CONTENTS: Contents = Contents(core::cell::UnsafeCell::new(Vec::new()));
    pub const MISSING: &str = "missing";
    pub fn put(b: &[u8]) -> String {
        unsafe { *CONTENTS.0.get() = b.to_vec() }
        "file".to_string()
    }
}
#[cfg(not(any(kani, ll)))]
pub mod file {
    pub const MISSING: &str = "/nonexistent/file";
    pub fn put(b: &[u8]) -> String {
        let p = std::env::temp_dir().join(format!("verif-nd-{}", std::process::id()));
        std::fs::write(&p, b).unwrap();
        p.to_str().unwrap().to_string()
    }
    pub fn drop() {
        let _ = std::fs::remove_file(std::env::temp_dir().join(format!("verif-nd-{}", std::process::id())));
    }
}

#[cfg(any(kani, ll))]
pub mod mstd;
#[cfg(not(any(kani, ll)))]
pub use std as mstd;

/// A situation the harness must be able to reach (vacuity guard).
#[macro_export]
macro_rules! reach {
    ($c:expr, $m:literal) => {
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(ll)]
        if $c {
            $crate::reached($m);
        }
        #[cfg(not(any(kani, ll)))]
        let _ = $c;
    };
}
