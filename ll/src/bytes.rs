//! C11: what is serialized is read back.  C12: reading arbitrary bytes.
use crate::inputs::*;
use lambdaworks_crypto::merkle_tree::proof::Proof;
use lambdaworks_math::traits::{Deserializable, Serializable};
use lambdaworks_stark::cairo::air::{MemorySegment, MemorySegmentMap, PublicInputs};
use lambdaworks_stark::starks::{
    config::Commitment,
    frame::Frame,
    fri::fri_decommit::FriDecommitment,
    proof::stark::{DeepPolynomialOpenings, StarkProof},
    utils::{deserialize_proof, serialize_proof},
};
use nd::mstd::collections::HashMap;
use nd::{any, assume, reach};

crate::harnesses! {
    c11_path;
    c11_frame;
    c11_decommitment;
    c11_openings;
    c11_proof_lists;
    c11_proof_parts;
    c11_public;
    c12_path;
    c12_frame;
    c12_decommitment;
    c12_openings;
    c12_public;
    c12_proof;
    c12_decommitment_window;
    c12_openings_window;
    c12_public_window;
    c12_proof_window_a;
    c12_proof_window_b;
    c12_proof_window_c;
    c12_proof_window_d;
    c12_proof_truncated;
    c12_frame_deep;
    c12_decommitment_deep;
    c12_openings_deep;
    c12_public_deep;
    c12_proof_deep;
    c12_proof_wide_a;
    c12_proof_wide_b;
    c12_proof_wide_c;
    c12_proof_wide_d;
}

fn same_list<T: PartialEq>(a: &[T], b: &[T]) {
    assert!(a.len() == b.len());
    for i in 0..a.len() {
        assert!(a[i] == b[i]);
    }
}
fn same_path(a: &Proof<Commitment>, b: &Proof<Commitment>) {
    same_list(&a.merkle_path, &b.merkle_path);
}
fn same_paths(a: &[Proof<Commitment>], b: &[Proof<Commitment>]) {
    assert!(a.len() == b.len());
    for i in 0..a.len() {
        same_path(&a[i], &b[i]);
    }
}
/// Same rows, same columns, same cells, through the public accessors.
fn same_frame(a: &Frame<F>, b: &Frame<F>) {
    assert!(a.num_rows() == b.num_rows() && a.num_columns() == b.num_columns());
    for i in 0..a.num_rows() {
        same_list(a.get_row(i), b.get_row(i));
    }
}
fn same_decommitment(a: &FriDecommitment<F>, b: &FriDecommitment<F>) {
    same_paths(&a.layers_auth_paths_sym, &b.layers_auth_paths_sym);
    same_list(&a.layers_evaluations_sym, &b.layers_evaluations_sym);
    same_paths(&a.layers_auth_paths, &b.layers_auth_paths);
    same_list(&a.layers_evaluations, &b.layers_evaluations);
}
fn same_openings(a: &DeepPolynomialOpenings<F>, b: &DeepPolynomialOpenings<F>) {
    same_path(&a.lde_composition_poly_proof, &b.lde_composition_poly_proof);
    assert!(a.lde_composition_poly_even_evaluation == b.lde_composition_poly_even_evaluation);
    assert!(a.lde_composition_poly_odd_evaluation == b.lde_composition_poly_odd_evaluation);
    same_paths(&a.lde_trace_merkle_proofs, &b.lde_trace_merkle_proofs);
    same_list(&a.lde_trace_evaluations, &b.lde_trace_evaluations);
}
fn same_proof(a: &StarkProof<F>, b: &StarkProof<F>) {
    assert!(a.trace_length == b.trace_length);
    same_list(&a.lde_trace_merkle_roots, &b.lde_trace_merkle_roots);
    same_frame(&a.trace_ood_frame_evaluations, &b.trace_ood_frame_evaluations);
    assert!(a.composition_poly_root == b.composition_poly_root);
    assert!(a.composition_poly_even_ood_evaluation == b.composition_poly_even_ood_evaluation);
    assert!(a.composition_poly_odd_ood_evaluation == b.composition_poly_odd_ood_evaluation);
    same_list(&a.fri_layers_merkle_roots, &b.fri_layers_merkle_roots);
    assert!(a.fri_last_value == b.fri_last_value);
    assert!(a.query_list.len() == b.query_list.len());
    for i in 0..a.query_list.len() {
        same_decommitment(&a.query_list[i], &b.query_list[i]);
    }
    assert!(a.deep_poly_openings.len() == b.deep_poly_openings.len());
    for i in 0..a.deep_poly_openings.len() {
        same_openings(&a.deep_poly_openings[i], &b.deep_poly_openings[i]);
    }
    assert!(a.nonce == b.nonce);
}
fn same_public(a: &PublicInputs, b: &PublicInputs) {
    assert!(a.pc_init == b.pc_init && a.ap_init == b.ap_init && a.fp_init == b.fp_init);
    assert!(a.pc_final == b.pc_final && a.ap_final == b.ap_final);
    assert!(a.range_check_min == b.range_check_min && a.range_check_max == b.range_check_max);
    assert!(a.memory_segments.len() == b.memory_segments.len());
    for (k, v) in a.memory_segments.iter() {
        assert!(b.memory_segments.get(k) == Some(v));
    }
    assert!(a.public_memory.len() == b.public_memory.len());
    for (k, v) in a.public_memory.iter() {
        assert!(b.public_memory.get(k) == Some(v));
    }
    assert!(a.num_steps == b.num_steps);
}
fn public(rc: bool, output: bool, cells: usize) -> PublicInputs {
    let mut memory_segments = MemorySegmentMap::new();
    if rc {
        memory_segments.insert(MemorySegment::RangeCheck, any()..any());
    }
    if output {
        memory_segments.insert(MemorySegment::Output, any()..any());
    }
    let mut public_memory = HashMap::new();
    for i in 0..cells {
        let k = fe();
        for (old, _) in public_memory.iter() {
            assume(*old != k);
        }
        public_memory.insert(k, fe());
        assert!(public_memory.len() == i + 1);
    }
    PublicInputs {
        pc_init: fe(),
        ap_init: fe(),
        fp_init: fe(),
        pc_final: fe(),
        ap_final: fe(),
        range_check_min: if any::<u8>() & 1 == 1 { Some(any()) } else { None },
        range_check_max: if any::<u8>() & 1 == 1 { Some(any()) } else { None },
        memory_segments,
        public_memory,
        num_steps: any(),
    }
}

pub fn c11_path() {
    let a = path(len(4));
    let mut bytes = serialize_proof(&a);
    let tail: [u8; 3] = any();
    bytes.extend_from_slice(&tail);
    let (b, rest) = deserialize_proof(&bytes).unwrap();
    same_path(&a, &b);
    same_list(rest, &tail);
    reach!(a.merkle_path.len() == 4, "four digests");
}
pub fn c11_frame() {
    let (rows, width) = (len(3), len(3));
    let a = Frame::<F>::new(list(rows * width, fe), width);
    let b = Frame::<F>::deserialize(&a.serialize()).unwrap();
    if width > 0 {
        same_frame(&a, &b);
        reach!(rows == 3 && width == 3, "three by three");
        reach!(rows == 0, "no rows");
    } else {
        assert!(b.num_columns() == 0);
    }
}
pub fn c11_decommitment() {
    let a = decommitment(|| len(2));
    let b = FriDecommitment::<F>::deserialize(&a.serialize()).unwrap();
    same_decommitment(&a, &b);
    reach!(a.layers_evaluations.is_empty(), "no evaluations");
    reach!(a.layers_evaluations.len() == 2 && a.layers_evaluations_sym.len() == 1, "two and one evaluations");
}
pub fn c11_openings() {
    let a = openings(|| len(2));
    let b = DeepPolynomialOpenings::<F>::deserialize(&a.serialize()).unwrap();
    same_openings(&a, &b);
    reach!(a.lde_trace_evaluations.len() == 2, "two evaluations");
}
/// Every number of roots, rows, layers, queries and openings up to two; the parts inside have one element each.
pub fn c11_proof_lists() {
    let a = proof(len(2), len(2), len(2), len(2), len(2), || 1);
    let b = StarkProof::<F>::deserialize(&a.serialize()).unwrap();
    same_proof(&a, &b);
    reach!(a.query_list.len() == 2 && a.deep_poly_openings.len() == 1, "two queries, one opening");
    reach!(a.query_list.is_empty() && a.deep_poly_openings.is_empty(), "no queries");
}
/// Two queries and two openings whose parts have different lengths.
pub fn c11_proof_parts() {
    let (x, y) = (len(2), len(2));
    let mut k = 0;
    let a = proof(1, 2, 2, 2, 2, || {
        k += 1;
        [x, y, 1][k % 3]
    });
    let b = StarkProof::<F>::deserialize(&a.serialize()).unwrap();
    same_proof(&a, &b);
    reach!(x == 0 && y == 2, "parts of lengths 0, 1, 2");
}
pub fn c11_public() {
    let a = public(any::<u8>() & 1 == 1, any::<u8>() & 1 == 1, len(3));
    let b = PublicInputs::deserialize(&a.serialize()).unwrap();
    same_public(&a, &b);
    reach!(a.memory_segments.len() == 2, "two segments");
    reach!(a.memory_segments.len() == 0 && a.public_memory.len() == 3, "three cells");
    reach!(a.range_check_min.is_some() && a.range_check_max.is_none(), "one bound");
}

/// A byte string of any length up to N.
fn decode<const N: usize, T>(f: impl Fn(&[u8]) -> Option<T>) {
    let b: [u8; N] = any();
    let n: usize = any();
    assume(n <= N);
    let r = f(&b[..n]).is_some();
    reach!(r, "decoded");
    reach!(!r, "refused");
}
pub fn c12_path() {
    decode::<168, _>(|b| deserialize_proof(b).ok().map(|(p, rest)| (p.merkle_path.len(), rest.len())));
}
pub fn c12_frame() {
    decode::<160, _>(|b| Frame::<F>::deserialize(b).ok());
}
pub fn c12_decommitment() {
    decode::<112, _>(|b| FriDecommitment::<F>::deserialize(b).ok());
}
pub fn c12_openings() {
    decode::<150, _>(|b| DeepPolynomialOpenings::<F>::deserialize(b).ok());
}
pub fn c12_public() {
    decode::<240, _>(|b| PublicInputs::deserialize(b).ok());
}
/// Whatever follows the beginning of a proof.
pub fn c12_proof() {
    let b: [u8; 132] = any();
    let n: usize = any();
    assume(n <= 132);
    let r = StarkProof::<F>::deserialize(&b[..n]).is_ok();
    reach!(!r, "refused");
}

/// The bytes of a value, of which a window of W arbitrary bytes starts at a multiple of STEP in from..to.
fn window<const W: usize, T>(mut bytes: Vec<u8>, step: usize, from: usize, to: usize, f: impl Fn(&[u8]) -> Option<T>) {
    let w: [u8; W] = any();
    let at: u16 = any();
    let count = (bytes.len() + step - 1) / step;
    let (first, last) = (count * from / 4, count * to / 4);
    assume(at as usize >= first && (at as usize) < last);
    let mut start = 0;
    for i in first..last {
        if at as usize == i {
            start = i * step;
        }
    }
    for i in 0..W {
        if start + i < bytes.len() {
            bytes[start + i] = w[i];
        }
    }
    let r = f(&bytes).is_some();
    reach!(r, "decoded");
    reach!(!r, "refused");
}
const fn one() -> usize {
    1
}
pub fn c12_decommitment_window() {
    window::<16, _>(concrete_decommitment().serialize(), 8, 0, 4, |b| FriDecommitment::<F>::deserialize(b).ok());
}
pub fn c12_openings_window() {
    window::<16, _>(concrete_openings().serialize(), 8, 0, 4, |b| DeepPolynomialOpenings::<F>::deserialize(b).ok());
}
pub fn c12_public_window() {
    window::<16, _>(concrete_public().serialize(), 8, 0, 4, |b| PublicInputs::deserialize(b).ok());
}
fn c12_proof_window(from: usize) {
    window::<12, _>(concrete_proof().serialize(), 8, from, from + 1, |b| StarkProof::<F>::deserialize(b).ok());
}
pub fn c12_proof_window_a() {
    c12_proof_window(0)
}
pub fn c12_proof_window_b() {
    c12_proof_window(1)
}
pub fn c12_proof_window_c() {
    c12_proof_window(2)
}
pub fn c12_proof_window_d() {
    c12_proof_window(3)
}
/// The beginnings, of every length, of the bytes of a proof.
pub fn c12_proof_truncated() {
    let b = concrete_proof().serialize();
    let n: u16 = any();
    let n = n as usize;
    assume(n <= b.len());
    let r = StarkProof::<F>::deserialize(&b[..n]).is_ok();
    reach!(r, "decoded");
    reach!(!r, "refused");
}
fn concrete_path() -> Proof<Commitment> {
    Proof { merkle_path: vec![[7; 32]; one()] }
}
fn concrete_decommitment() -> FriDecommitment<F> {
    FriDecommitment {
        layers_auth_paths_sym: vec![concrete_path()],
        layers_evaluations_sym: vec![FE::from(5)],
        layers_auth_paths: vec![concrete_path()],
        layers_evaluations: vec![FE::from(6)],
    }
}
fn concrete_openings() -> DeepPolynomialOpenings<F> {
    DeepPolynomialOpenings {
        lde_composition_poly_proof: concrete_path(),
        lde_composition_poly_even_evaluation: FE::from(1),
        lde_composition_poly_odd_evaluation: FE::from(2),
        lde_trace_merkle_proofs: vec![concrete_path()],
        lde_trace_evaluations: vec![FE::from(3)],
    }
}
fn concrete_proof() -> StarkProof<F> {
    StarkProof {
        trace_length: 8,
        lde_trace_merkle_roots: vec![[1; 32]],
        trace_ood_frame_evaluations: Frame::new(vec![FE::from(8), FE::from(9)], 1),
        composition_poly_root: [2; 32],
        composition_poly_even_ood_evaluation: FE::from(3),
        composition_poly_odd_ood_evaluation: FE::from(4),
        fri_layers_merkle_roots: vec![[3; 32]],
        fri_last_value: FE::from(5),
        query_list: vec![concrete_decommitment()],
        deep_poly_openings: vec![concrete_openings()],
        nonce: 77,
    }
}
fn concrete_public() -> PublicInputs {
    PublicInputs {
        pc_init: FE::from(1),
        ap_init: FE::from(2),
        fp_init: FE::from(3),
        pc_final: FE::from(4),
        ap_final: FE::from(5),
        range_check_min: Some(1),
        range_check_max: Some(2),
        memory_segments: MemorySegmentMap::from([(MemorySegment::RangeCheck, 1..2), (MemorySegment::Output, 3..4)]),
        public_memory: HashMap::from([(FE::from(1), FE::from(9)), (FE::from(2), FE::from(8))]),
        num_steps: 3,
    }
}

pub fn c12_frame_deep() {
    decode::<260, _>(|b| Frame::<F>::deserialize(b).ok());
}
pub fn c12_decommitment_deep() {
    decode::<144, _>(|b| FriDecommitment::<F>::deserialize(b).ok());
}
pub fn c12_openings_deep() {
    decode::<200, _>(|b| DeepPolynomialOpenings::<F>::deserialize(b).ok());
}
pub fn c12_public_deep() {
    decode::<320, _>(|b| PublicInputs::deserialize(b).ok());
}
pub fn c12_proof_deep() {
    decode::<216, _>(|b| StarkProof::<F>::deserialize(b).ok());
}
fn c12_proof_wide(from: usize) {
    window::<40, _>(concrete_proof().serialize(), 8, from, from + 1, |b| StarkProof::<F>::deserialize(b).ok());
}
pub fn c12_proof_wide_a() {
    c12_proof_wide(0)
}
pub fn c12_proof_wide_b() {
    c12_proof_wide(1)
}
pub fn c12_proof_wide_c() {
    c12_proof_wide(2)
}
pub fn c12_proof_wide_d() {
    c12_proof_wide(3)
}
