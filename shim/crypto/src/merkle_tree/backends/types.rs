use super::field_element::FieldElementBackend;
use super::field_element_vector::FieldElementVectorBackend;
use sha3::Keccak256;
pub type Keccak256Tree<F> = FieldElementBackend<F, Keccak256, 32>;
pub type BatchKeccak256Tree<F> = FieldElementVectorBackend<F, Keccak256, 32>;
