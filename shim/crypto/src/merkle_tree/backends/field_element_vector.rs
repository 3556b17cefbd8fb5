use crate::merkle_tree::traits::IsMerkleTreeBackend;
use core::marker::PhantomData;
use lambdaworks_math::field::{element::FieldElement, traits::IsField};
use lambdaworks_math::traits::ByteConversion;
use sha3::{Digest, Keccak256};

#[derive(Clone)]
pub struct FieldElementVectorBackend<F, D, const NUM_BYTES: usize> {
    phantom1: PhantomData<F>,
    phantom2: PhantomData<D>,
}
impl<F, D, const N: usize> Default for FieldElementVectorBackend<F, D, N> {
    fn default() -> Self {
        Self { phantom1: PhantomData, phantom2: PhantomData }
    }
}
impl<F> IsMerkleTreeBackend for FieldElementVectorBackend<F, Keccak256, 32>
where
    F: IsField,
    FieldElement<F>: ByteConversion,
{
    type Node = [u8; 32];
    type Data = Vec<FieldElement<F>>;
    fn leaf_bytes(leaf: &Self::Data) -> Vec<u8> {
        leaf.iter().flat_map(|e| e.to_bytes_be()).collect()
    }
    fn hash_data(leaf: &Self::Data) -> [u8; 32] {
        Keccak256::digest(Self::leaf_bytes(leaf)).into()
    }
    fn hash_new_parent(left: &[u8; 32], right: &[u8; 32]) -> [u8; 32] {
        let mut h = Keccak256::new();
        h.update(left);
        h.update(right);
        h.finalize().into()
    }
}
