use super::traits::IsMerkleTreeBackend;
use crate::hooks;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Proof<T: PartialEq + Eq> {
    pub merkle_path: Vec<T>,
}
impl<T: PartialEq + Eq> Proof<T> {
    pub fn verify<B>(&self, root_hash: &B::Node, mut index: usize, value: &B::Data) -> bool
    where
        B: IsMerkleTreeBackend<Node = T>,
    {
        if let Some(h) = hooks::merkle() {
            return h(&hooks::MerkleQuery {
                root: B::node_bytes(root_hash),
                index,
                leaf: B::leaf_bytes(value),
                path: self.merkle_path.iter().map(|n| B::node_bytes(n)).collect(),
            });
        }
        let mut hashed_value = B::hash_data(value);
        for sibling_node in self.merkle_path.iter() {
            if index % 2 == 0 {
                hashed_value = B::hash_new_parent(&hashed_value, sibling_node);
            } else {
                hashed_value = B::hash_new_parent(sibling_node, &hashed_value);
            }
            index >>= 1;
        }
        root_hash == &hashed_value
    }
}
