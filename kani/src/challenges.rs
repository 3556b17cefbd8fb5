//! C09: challenges drawn from the transcript.
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_math::field::element::FieldElement;
use lambdaworks_math::field::fields::montgomery_backed_prime_fields::{IsModulus, U256PrimeField};
use lambdaworks_math::unsigned_integer::element::U256;
use lambdaworks_stark::starks::transcript::{batch_sample_challenges, sample_z_ood, transcript_to_field, transcript_to_usize};
use lambdaworks_stark::{PrimeField, FE};
use nd::{any, assume, reach};

crate::harnesses! {
    c09_field_challenge, 34;
    c09_field_challenge_byte_boundary, 34;
    c09_field_challenge_full_width, 34;
    c09_field_challenge_below_a_byte, 34;
    c09_integer_challenge, 34;
    c09_batch, 34;
    c09_out_of_domain, 33;
}

/// Emits arbitrary bytes and remembers them.
pub struct Any<const K: usize> {
    pub out: [[u8; 32]; K],
    pub drawn: usize,
    pub absorbed: usize,
}
impl<const K: usize> Any<K> {
    fn new() -> Self {
        let mut out = [[0; 32]; K];
        let mut i = 0;
        while i < K {
            out[i] = any();
            i += 1;
        }
        Any { out, drawn: 0, absorbed: 0 }
    }
}
impl<const K: usize> Transcript for Any<K> {
    fn append(&mut self, _: &[u8]) {
        self.absorbed += 1;
    }
    fn challenge(&mut self) -> [u8; 32] {
        assume(self.drawn < K);
        self.drawn += 1;
        self.out[self.drawn - 1]
    }
}
/// The 256-bit number with its `clear` highest bits removed, most significant limb first.
fn low(b: &[u8; 32], clear: u32) -> [u64; 4] {
    let w = |i: usize| u64::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3], b[i + 4], b[i + 5], b[i + 6], b[i + 7]]);
    [w(0) << clear >> clear, w(8), w(16), w(24)]
}
/// Keeps exactly the low bits, for the STARK field (252 bits: 5 are cleared).
pub fn c09_field_challenge() {
    let mut t = Any::<1>::new();
    let v: FE = transcript_to_field(&mut t);
    let l = v.representative().limbs;
    assert!(l == low(&t.out[0], 5), "not the low 251 bits of the transcript bytes");
    assert!(t.drawn == 1 && t.absorbed == 0, "one challenge is drawn");
    reach!(l[0] == 0x07ff_ffff_ffff_ffff && l[3] == u64::MAX, "the largest challenge");
}
macro_rules! other_field {
    ($config:ident, $modulus:expr, $fun:ident, $clear:literal) => {
        #[derive(Clone, Debug)]
        pub struct $config;
        impl IsModulus<U256> for $config {
            const MODULUS: U256 = U256::from_hex_unchecked($modulus);
        }
        pub fn $fun() {
            let mut t = Any::<1>::new();
            let v: FieldElement<U256PrimeField<$config>> = transcript_to_field(&mut t);
            assert!(v.representative().limbs == low(&t.out[0], $clear), "not the low bits of the transcript bytes");
            reach!(true, "a challenge");
        }
    };
}
// 249 bits: exactly one byte is cleared
other_field!(M249, "1000000000000000000000000000000000000000000000000000000000000a7", c09_field_challenge_byte_boundary, 8);
// 256 bits: one bit is cleared
other_field!(M256, "8000000000000000000000000000000000000000000000000000000000000005", c09_field_challenge_full_width, 1);
// 243 bits: a byte and six bits are cleared
other_field!(M243, "4000000000000000000000000000000000000000000000000000000000005", c09_field_challenge_below_a_byte, 14);

/// The first eight bytes, big-endian.
pub fn c09_integer_challenge() {
    let mut t = Any::<1>::new();
    let v = transcript_to_usize(&mut t);
    assert!(v as u64 == low(&t.out[0], 0)[0], "not the first eight bytes");
    assert!(t.drawn == 1 && t.absorbed == 0, "one challenge is drawn");
    reach!(v == usize::MAX, "the largest integer");
}
/// A batch is the draws in order.
pub fn c09_batch() {
    let mut t = Any::<3>::new();
    let v = batch_sample_challenges::<PrimeField, _>(3, &mut t);
    assert!(v.len() == 3 && t.drawn == 3);
    let i: usize = any();
    assume(i < 3);
    assert!(v[i].representative().limbs == low(&t.out[i], 5), "not the draw");
    reach!(i == 2, "the last one");
}
fn element() -> FE {
    let l: [u64; 4] = [any(), any(), any(), any()];
    assume(l[0] < 0x0800_0000_0000_0011);
    FE::from_raw(U256::from_limbs(l))
}
/// The first draw that is in neither domain.
pub fn c09_out_of_domain() {
    let mut t = Any::<3>::new();
    let lde = [element(), element()];
    let trace = [element(), element()];
    let mut first = 3;
    let mut i = 3;
    while i > 0 {
        i -= 1;
        let d = low(&t.out[i], 5);
        let inside = |x: &FE| x.representative() == U256::from_limbs(d);
        if !inside(&lde[0]) && !inside(&lde[1]) && !inside(&trace[0]) && !inside(&trace[1]) {
            first = i;
        }
    }
    assume(first < 3);
    let z: FE = sample_z_ood(&lde, &trace, &mut t);
    assert!(z.representative() == U256::from_limbs(low(&t.out[first], 5)), "not the first draw outside the domains");
    assert!(t.drawn == first + 1, "draws after the answer");
    reach!(first == 2, "two draws are refused");
    reach!(first == 0, "the first draw");
}
