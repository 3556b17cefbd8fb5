use super::{proof::Proof, traits::IsMerkleTreeBackend};

#[derive(Clone)]
pub struct MerkleTree<B: IsMerkleTreeBackend> {
    pub root: B::Node,
    /// levels[0] are the hashed leaves
    levels: Vec<Vec<B::Node>>,
}
impl<B: IsMerkleTreeBackend> MerkleTree<B> {
    pub fn build(unhashed_leaves: &[B::Data]) -> Self {
        let mut level = B::hash_leaves(unhashed_leaves);
        while !level.len().is_power_of_two() {
            let last = level[level.len() - 1].clone();
            level.push(last);
        }
        let mut levels = vec![level];
        while levels.last().unwrap().len() > 1 {
            let l = levels.last().unwrap();
            let next = l.chunks(2).map(|c| B::hash_new_parent(&c[0], &c[1])).collect();
            levels.push(next);
        }
        MerkleTree { root: levels.last().unwrap()[0].clone(), levels }
    }
    pub fn get_proof_by_pos(&self, pos: usize) -> Option<Proof<B::Node>> {
        if pos >= self.levels[0].len() {
            return None;
        }
        let mut p = pos;
        let mut merkle_path = vec![];
        for l in &self.levels[..self.levels.len() - 1] {
            merkle_path.push(l[p ^ 1].clone());
            p >>= 1;
        }
        Some(Proof { merkle_path })
    }
}
