//! Arbitrary values of the types of the sources.
use lambdaworks_crypto::merkle_tree::proof::Proof;
use lambdaworks_math::{field::element::FieldElement, unsigned_integer::element::U256};
use lambdaworks_stark::starks::{
    config::Commitment,
    frame::Frame,
    fri::fri_decommit::FriDecommitment,
    proof::stark::{DeepPolynomialOpenings, StarkProof},
};
use nd::{any, assume};
pub type F = lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
pub type FE = FieldElement<F>;
const P: [u64; 4] = [0x0800_0000_0000_0011, 0, 0, 1];

/// Any number up to `max`.
pub fn len(max: usize) -> usize {
    let n: u8 = any();
    assume(n as usize <= max);
    n as usize
}
/// Any field element.
pub fn fe() -> FE {
    let l: [u64; 4] = [any(), any(), any(), any()];
    let (mut below, mut same) = (false, true);
    let mut i = 0;
    while i < 4 {
        below |= same & (l[i] < P[i]);
        same &= l[i] == P[i];
        i += 1;
    }
    assume(below);
    FE::new(U256::from_limbs(l))
}
/// Any field element below 2^64.
pub fn small() -> FE {
    FE::from(any::<u64>())
}
pub fn digest() -> Commitment {
    any()
}
pub fn list<T>(n: usize, f: impl Fn() -> T) -> Vec<T> {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(f());
    }
    v
}
pub fn path(n: usize) -> Proof<Commitment> {
    Proof { merkle_path: list(n, digest) }
}
pub fn frame(rows: usize, width: usize) -> Frame<F> {
    Frame::new(list(rows * width, fe), width)
}
/// `shape` gives the length of each list in turn.
pub fn decommitment(mut shape: impl FnMut() -> usize) -> FriDecommitment<F> {
    FriDecommitment {
        layers_auth_paths_sym: { let n = shape(); (0..n).map(|_| path(shape())).collect() },
        layers_evaluations_sym: list(shape(), fe),
        layers_auth_paths: { let n = shape(); (0..n).map(|_| path(shape())).collect() },
        layers_evaluations: list(shape(), fe),
    }
}
pub fn openings(mut shape: impl FnMut() -> usize) -> DeepPolynomialOpenings<F> {
    DeepPolynomialOpenings {
        lde_composition_poly_proof: path(shape()),
        lde_composition_poly_even_evaluation: fe(),
        lde_composition_poly_odd_evaluation: fe(),
        lde_trace_merkle_proofs: { let n = shape(); (0..n).map(|_| path(shape())).collect() },
        lde_trace_evaluations: list(shape(), fe),
    }
}
pub fn proof(roots: usize, rows: usize, layers: usize, queries: usize, deep: usize, mut shape: impl FnMut() -> usize) -> StarkProof<F> {
    StarkProof {
        trace_length: any(),
        lde_trace_merkle_roots: list(roots, digest),
        trace_ood_frame_evaluations: frame(rows, 2),
        composition_poly_root: digest(),
        composition_poly_even_ood_evaluation: fe(),
        composition_poly_odd_ood_evaluation: fe(),
        fri_layers_merkle_roots: list(layers, digest),
        fri_last_value: fe(),
        query_list: (0..queries).map(|_| decommitment(&mut shape)).collect(),
        deep_poly_openings: (0..deep).map(|_| openings(&mut shape)).collect(),
        nonce: any(),
    }
}
