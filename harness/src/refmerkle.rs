//! Merkle commitments computed from their definition: leaves are Keccak-256 of the big-endian
//! bytes, nodes of the two children, and an index's bits say on which side the path is.
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::FE;
use sha3::{Digest, Keccak256};

pub type Hash = [u8; 32];

fn keccak(parts: &[&[u8]]) -> Hash {
    let mut h = Keccak256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

pub fn leaf(values: &[FE]) -> Hash {
    let b: Vec<u8> = values.iter().flat_map(|v| v.to_bytes_be()).collect();
    keccak(&[&b])
}

pub fn root(leaves: &[Hash]) -> Hash {
    let mut level = leaves.to_vec();
    assert!(level.len().is_power_of_two());
    while level.len() > 1 {
        level = level.chunks(2).map(|c| keccak(&[&c[0], &c[1]])).collect();
    }
    level[0]
}

/// Whether the path leads from the leaf at this index of a tree of this depth to the root.
pub fn opens(root: &Hash, depth: usize, index: usize, leaf: &Hash, path: &[Hash]) -> bool {
    if path.len() != depth || index >> depth != 0 {
        return false;
    }
    let mut h = *leaf;
    for (k, s) in path.iter().enumerate() {
        h = if (index >> k) & 1 == 0 { keccak(&[&h, s]) } else { keccak(&[s, &h]) };
    }
    h == *root
}
