#![allow(clippy::all)]
//! Symbolic execution of the real code over terms of the STARK field.
pub mod cairo;
pub mod explore;
pub mod ff;
pub mod hair;
pub mod must;
pub mod pspec;
pub mod report;
pub mod smt;
pub mod vcheck;
pub mod vm;
pub mod vspec;
pub use lambdaworks_crypto::hooks;
pub use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField as F;
pub use lambdaworks_math::field::fields::montgomery_backed_prime_fields::stark;
pub use lambdaworks_math::sym;
pub use lambdaworks_math::unsigned_integer::element::U256;
pub type FE = lambdaworks_math::field::element::FieldElement<F>;

pub fn s(name: &str) -> FE {
    sym::symbol(name)
}
pub fn c(x: u64) -> FE {
    FE::from(x)
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
/// 32 pseudo-random bytes derived from the seed and a label.
pub fn prf(label: &str, n: u64) -> [u8; 32] {
    use sha3::{Digest, Keccak256};
    let mut h = Keccak256::new();
    h.update(seed().to_be_bytes());
    h.update(label.as_bytes());
    h.update(n.to_be_bytes());
    h.finalize().into()
}
/// A pseudo-random field element.
pub fn prf_fe(label: &str, n: u64) -> FE {
    let mut b = prf(label, n);
    b[0] &= 0x07;
    <FE as lambdaworks_math::traits::ByteConversion>::from_bytes_be(&b).unwrap()
}
