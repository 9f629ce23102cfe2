use super::{proof::Proof, traits::IsMerkleTreeBackend, utils::*};

#[derive(Clone)]
pub struct MerkleTree<B: IsMerkleTreeBackend> {
    pub root: B::Node,
    nodes: Vec<B::Node>,
}

impl<B: IsMerkleTreeBackend> MerkleTree<B> {
    pub fn build(unhashed_leaves: &[B::Data]) -> Self {
        let leaves = complete_until_power_of_two(B::hash_leaves(unhashed_leaves));
        let n = leaves.len();
        // nodes[0] is the root; the leaves are the last n entries.
        let mut nodes = vec![leaves[0].clone(); n - 1];
        nodes.extend(leaves);
        for i in (0..n - 1).rev() {
            nodes[i] = B::hash_new_parent(&nodes[2 * i + 1], &nodes[2 * i + 2]);
        }
        MerkleTree {
            root: nodes[0].clone(),
            nodes,
        }
    }

    pub fn get_proof_by_pos(&self, pos: usize) -> Option<Proof<B::Node>> {
        let mut pos = pos.checked_add(self.nodes.len() / 2)?;
        if pos >= self.nodes.len() {
            return None;
        }
        let mut merkle_path = Vec::new();
        while pos != 0 {
            merkle_path.push(self.nodes.get(sibling_index(pos))?.clone());
            pos = parent_index(pos);
        }
        Some(Proof { merkle_path })
    }
}
