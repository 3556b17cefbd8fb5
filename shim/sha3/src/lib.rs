//! Keccak-256 (and SHA3-256) with the `Digest` interface of the real crate.  Under Kani, and in the
//! replay of a Kani model, a digest is an uninterpreted function of the hashed bytes; in the
//! symbolic engine a hook may replace the digest of chosen inputs.
#[cfg(not(any(kani, ll)))]
pub use digest::{self, Digest};
#[cfg(any(kani, ll))]
pub use light::Digest;
#[cfg(not(any(kani, ll)))]
use digest::{
    consts::{U136, U32},
    core_api::BlockSizeUser,
    FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update,
};

/// What is being hashed.
#[cfg(not(any(kani, ll)))]
#[derive(Clone, Default, Debug)]
struct State {
    data: Vec<u8>,
}

#[cfg(any(kani, ll))]
#[derive(Clone, Copy, Debug)]
struct State {
    data: [u8; uninterpreted::MAX],
    len: usize,
}
#[cfg(any(kani, ll))]
impl Default for State {
    fn default() -> Self {
        State { data: [0; uninterpreted::MAX], len: 0 }
    }
}

pub mod control {
    //! How digests are obtained.
    use std::cell::RefCell;
    use std::rc::Rc;
    #[allow(dead_code)]
    type Hook = Rc<dyn Fn(&[u8]) -> Option<[u8; 32]>>;
    thread_local! {
        static HOOK: RefCell<Option<Hook>> = RefCell::new(None);
    }
    pub fn set_digest(h: Option<Hook>) {
        HOOK.with(|x| *x.borrow_mut() = h);
    }
    #[cfg(not(any(kani, ll)))]
    pub(crate) fn hooked(data: &[u8]) -> Option<[u8; 32]> {
        let h = HOOK.with(|x| x.borrow().clone());
        h.and_then(|h| h(data))
    }
}

/// An uninterpreted hash: equal inputs have equal digests, nothing else is known.
pub mod uninterpreted {
    pub const MAX: usize = 64;
    #[derive(Clone, Copy)]
    pub struct Entry {
        pub domain: u8,
        pub len: usize,
        /// the hashed bytes, eight to a word, zero-padded
        pub data: [u64; 8],
        pub digest: [u8; 32],
    }
    pub const SLOTS: usize = 8;
    pub static mut COUNT: usize = 0;
    pub static mut TABLE: [Entry; SLOTS] = [Entry { domain: 0, len: 0, data: [0; 8], digest: [0; 32] }; SLOTS];
    /// If not zero: one of these bits of the eighth byte of every digest is set.
    pub static mut LAST_BITS: u8 = 0;
    /// Switches a native run to the uninterpreted hash.
    pub static mut ON: bool = false;

    // no loops: the unwinding bound of a harness is about the code under test
    fn pack(data: &[u8]) -> [u64; 8] {
        let mut d = [0u8; MAX];
        d[..data.len()].copy_from_slice(data);
        macro_rules! w {
            ($($i:literal)*) => {
                [$(u64::from_le_bytes([d[8 * $i], d[8 * $i + 1], d[8 * $i + 2], d[8 * $i + 3],
                    d[8 * $i + 4], d[8 * $i + 5], d[8 * $i + 6], d[8 * $i + 7]])),*]
            };
        }
        w!(0 1 2 3 4 5 6 7)
    }
    fn same(a: &[u64; 8], b: &[u64; 8]) -> bool {
        a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3] && a[4] == b[4] && a[5] == b[5] && a[6] == b[6]
            && a[7] == b[7]
    }
    impl Entry {
        pub fn same_input(&self, o: &Entry) -> bool {
            self.domain == o.domain && self.len == o.len && same(&self.data, &o.data)
        }
    }
    #[allow(static_mut_refs)]
    pub fn digest(domain: u8, data: &[u8]) -> [u8; 32] {
        if !(data.len() <= MAX) {
            nd::limit("hashed input too long");
        }
        let d = pack(data);
        unsafe {
            let mut k = 0;
            while k < COUNT {
                let e = &TABLE[k];
                if e.domain == domain && e.len == data.len() && same(&e.data, &d) {
                    return e.digest;
                }
                k += 1;
            }
            if !(COUNT < SLOTS) {
            nd::limit("too many digests");
        }
            let digest: [u8; 32] = nd::any();
            if LAST_BITS != 0 {
                nd::assume(digest[7] & LAST_BITS != 0);
            }
            TABLE[COUNT] = Entry { domain, len: data.len(), data: d, digest };
            COUNT += 1;
            digest
        }
    }
    #[allow(static_mut_refs)]
    pub fn calls() -> usize {
        unsafe { COUNT }
    }
    #[allow(static_mut_refs)]
    pub fn call(i: usize) -> Entry {
        unsafe { TABLE[i] }
    }
}

#[cfg(not(any(kani, ll)))]
fn keccak_f(s: &mut [u64; 25]) {
    const ROT: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
    const PIL: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
    let mut lfsr: u8 = 1;
    for _ in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                s[x + 5 * y] ^= d;
            }
        }
        let mut last = s[1];
        for i in 0..24 {
            let t = s[PIL[i]];
            s[PIL[i]] = last.rotate_left(ROT[i]);
            last = t;
        }
        for y in 0..5 {
            let r = [s[5 * y], s[5 * y + 1], s[5 * y + 2], s[5 * y + 3], s[5 * y + 4]];
            for x in 0..5 {
                s[5 * y + x] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]);
            }
        }
        for j in 0..7 {
            if lfsr & 1 == 1 {
                s[0] ^= 1 << ((1u32 << j) - 1);
            }
            lfsr = (lfsr << 1) ^ (if lfsr & 0x80 != 0 { 0x71 } else { 0 });
        }
    }
}
#[cfg(not(any(kani, ll)))]
fn sponge(data: &[u8], pad: u8) -> [u8; 32] {
    let mut msg = data.to_vec();
    msg.push(pad);
    while msg.len() % 136 != 0 {
        msg.push(0);
    }
    *msg.last_mut().unwrap() |= 0x80;
    let mut s = [0u64; 25];
    for block in msg.chunks(136) {
        for (i, w) in block.chunks(8).enumerate() {
            s[i] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        keccak_f(&mut s);
    }
    let mut out = [0; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&s[i].to_le_bytes());
    }
    out
}
#[cfg(not(any(kani, ll)))]
fn finish(data: &[u8], pad: u8) -> [u8; 32] {
    if unsafe { uninterpreted::ON } {
        return uninterpreted::digest(pad, data);
    }
    control::hooked(data).unwrap_or_else(|| sponge(data, pad))
}

#[cfg(not(any(kani, ll)))]
macro_rules! hasher {
    ($n:ident, $pad:expr) => {
        #[derive(Clone, Default, Debug)]
        pub struct $n(State);
        impl HashMarker for $n {}
        impl OutputSizeUser for $n {
            type OutputSize = U32;
        }
        impl BlockSizeUser for $n {
            type BlockSize = U136;
        }
        impl Update for $n {
            fn update(&mut self, data: &[u8]) {
                self.0.data.extend_from_slice(data)
            }
        }
        impl Reset for $n {
            fn reset(&mut self) {
                self.0.data.clear()
            }
        }
        impl FixedOutput for $n {
            fn finalize_into(self, out: &mut Output<Self>) {
                out.copy_from_slice(&finish(&self.0.data, $pad))
            }
        }
        impl FixedOutputReset for $n {
            fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
                out.copy_from_slice(&finish(&self.0.data, $pad));
                self.0.data.clear()
            }
        }
    };
}
/// The interface of `Digest` without its generic arrays, whose loops only burden the model checker.
#[cfg(any(kani, ll))]
mod light {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
    pub struct Output(pub [u8; 32]);
    impl core::ops::Deref for Output {
        type Target = [u8];
        fn deref(&self) -> &[u8] {
            &self.0
        }
    }
    impl core::ops::DerefMut for Output {
        fn deref_mut(&mut self) -> &mut [u8] {
            &mut self.0
        }
    }
    impl AsRef<[u8]> for Output {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }
    impl From<Output> for [u8; 32] {
        fn from(o: Output) -> [u8; 32] {
            o.0
        }
    }
    impl Output {
        pub fn as_slice(&self) -> &[u8] {
            &self.0
        }
    }
    impl IntoIterator for Output {
        type Item = u8;
        type IntoIter = core::array::IntoIter<u8, 32>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.into_iter()
        }
    }
    pub trait Digest: Default + Clone {
        fn absorb(&mut self, data: &[u8]);
        fn squeeze(&self) -> Output;
        fn new() -> Self {
            Self::default()
        }
        fn new_with_prefix(data: impl AsRef<[u8]>) -> Self {
            Self::default().chain_update(data)
        }
        fn update(&mut self, data: impl AsRef<[u8]>) {
            self.absorb(data.as_ref())
        }
        fn chain_update(mut self, data: impl AsRef<[u8]>) -> Self {
            self.absorb(data.as_ref());
            self
        }
        fn finalize(self) -> Output {
            self.squeeze()
        }
        fn finalize_reset(&mut self) -> Output {
            let o = self.squeeze();
            self.reset();
            o
        }
        fn reset(&mut self) {
            *self = Self::default()
        }
        fn output_size() -> usize {
            32
        }
        fn digest(data: impl AsRef<[u8]>) -> Output {
            Self::default().chain_update(data).finalize()
        }
    }
}
#[cfg(any(kani, ll))]
macro_rules! hasher {
    ($n:ident, $pad:expr) => {
        #[derive(Clone, Default, Debug)]
        pub struct $n(State);
        impl Digest for $n {
            fn absorb(&mut self, data: &[u8]) {
                let end = self.0.len + data.len();
                if !(end <= uninterpreted::MAX) {
            nd::limit("hashed input too long");
        }
                self.0.data[self.0.len..end].copy_from_slice(data);
                self.0.len = end;
            }
            fn squeeze(&self) -> light::Output {
                light::Output(uninterpreted::digest($pad, &self.0.data[..self.0.len]))
            }
        }
    };
}
hasher!(Keccak256, 0x01);
hasher!(Sha3_256, 0x06);

#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn known_answers() {
        let hex = |b: &[u8]| b.iter().map(|x| format!("{:02x}", x)).collect::<String>();
        assert_eq!(hex(&Keccak256::digest(b"")), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
        assert_eq!(hex(&Sha3_256::digest(b"abc")), "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532");
        let long = vec![0xa3u8; 200];
        assert_eq!(hex(&Sha3_256::digest(&long)), "79f38adec5c20307a98ef76e8324afbfd46cfd81b22e3973c65fa1bd9de31787");
    }
}
