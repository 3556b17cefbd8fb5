//! C05: proof of work.  Keccak is an uninterpreted function (shim/sha3).
use lambdaworks_stark::starks::grinding::{
    generate_nonce_with_grinding, hash_transcript_with_int_and_get_leading_zeros as zeros,
};
use nd::{any, assume, reach};
use sha3::uninterpreted::{call, calls};

crate::harnesses! {
    c05_counts_the_zeros, 18;
    c05_binds_its_input, 18;
    c05_smallest_nonce, 6;
    c05_smallest_nonce_later, 8;
    c05_smallest_nonce_deep, 10;
}

/// The answer is the number of trailing zero bits of the digest's first eight bytes.
pub fn c05_counts_the_zeros() {
    let challenge: [u8; 32] = any();
    let nonce: u64 = any();
    let z = zeros(&challenge, nonce);
    assert!(calls() == 1, "one digest is taken");
    let d = call(0).digest;
    let head = u64::from_be_bytes([d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]]);
    if z < 64 {
        assert!(head & ((1u64 << z) - 1) == 0, "a counted bit is one");
        assert!(head >> z & 1 == 1, "a zero bit is not counted");
    } else {
        assert!(z == 64 && head == 0, "more bits are counted than there are");
    }
    reach!(z == 0, "no zero bit");
    reach!(z == 64, "all bits zero");
}
/// Different challenges or nonces are hashed as different byte strings; equal ones alike.
pub fn c05_binds_its_input() {
    few(3); // what is hashed does not depend on the digest
    let (c1, c2): ([u8; 32], [u8; 32]) = (any(), any());
    let (n1, n2): (u64, u64) = (any(), any());
    let z1 = zeros(&c1, n1);
    let z2 = zeros(&c2, n2);
    let i: usize = any();
    assume(i < 32);
    if c1[i] != c2[i] || n1 != n2 {
        assert!(calls() == 2 && !call(0).same_input(&call(1)), "two inputs are hashed as the same bytes");
        reach!(true, "different inputs");
    }
    if n1 == n2 && calls() == 1 {
        assert!(z1 == z2);
    }
}
fn smallest<const K: usize>() {
    let challenge: [u8; 32] = any();
    let factor: u8 = any();
    let mut first = None;
    for i in 0..K {
        let z = zeros(&challenge, i as u64);
        if first.is_none() && z >= factor {
            first = Some(i as u64);
        }
    }
    assume(first.is_some());
    let got = generate_nonce_with_grinding(&challenge, factor);
    assert!(got.is_some(), "no nonce although one satisfies the factor");
    assert!(got == first, "not the smallest nonce that satisfies the factor");
    reach!(first == Some(K as u64 - 1), "the last nonce of the bound");
    reach!(first == Some(0), "the first nonce");
}
pub fn c05_smallest_nonce() {
    smallest::<2>()
}
/// Digests with few trailing zero bits; more of them.
pub fn c05_smallest_nonce_later() {
    few(0x1f);
    smallest::<5>()
}
pub fn c05_smallest_nonce_deep() {
    few(0x1f);
    smallest::<7>()
}
fn few(last_bits: u8) {
    unsafe { sha3::uninterpreted::LAST_BITS = last_bits }
}
