use core::fmt::Debug;
pub trait IsMerkleTreeBackend: Clone + Default {
    type Node: PartialEq + Eq + Clone + Default + Debug + AsRef<[u8]>;
    type Data;
    fn leaf_bytes(leaf: &Self::Data) -> Vec<u8>;
    fn node_bytes(node: &Self::Node) -> Vec<u8> {
        node.as_ref().to_vec()
    }
    fn hash_data(leaf: &Self::Data) -> Self::Node;
    fn hash_leaves(unhashed_leaves: &[Self::Data]) -> Vec<Self::Node> {
        unhashed_leaves.iter().map(|leaf| Self::hash_data(leaf)).collect()
    }
    fn hash_new_parent(child_1: &Self::Node, child_2: &Self::Node) -> Self::Node;
}
