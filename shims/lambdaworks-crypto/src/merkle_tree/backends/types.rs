use crate::{hash::keccak, merkle_tree::traits::IsMerkleTreeBackend};
use lambdaworks_math::{
    field::{element::FieldElement, traits::IsField},
    traits::ByteConversion,
};
use std::marker::PhantomData;

#[derive(Clone)]
pub struct Keccak256Tree<F>(PhantomData<F>);

impl<F> IsMerkleTreeBackend for Keccak256Tree<F>
where
    F: IsField,
    FieldElement<F>: ByteConversion,
{
    type Node = [u8; 32];
    type Data = FieldElement<F>;

    fn hash_data(leaf: &Self::Data) -> Self::Node {
        keccak(&[&leaf.to_bytes_be()])
    }
    fn hash_new_parent(l: &Self::Node, r: &Self::Node) -> Self::Node {
        keccak(&[l, r])
    }
}

#[derive(Clone)]
pub struct BatchKeccak256Tree<F>(PhantomData<F>);

impl<F> IsMerkleTreeBackend for BatchKeccak256Tree<F>
where
    F: IsField,
    FieldElement<F>: ByteConversion,
{
    type Node = [u8; 32];
    type Data = Vec<FieldElement<F>>;

    fn hash_data(leaf: &Self::Data) -> Self::Node {
        let mut bytes = Vec::new();
        for e in leaf {
            bytes.extend(e.to_bytes_be());
        }
        keccak(&[&bytes])
    }
    fn hash_new_parent(l: &Self::Node, r: &Self::Node) -> Self::Node {
        keccak(&[l, r])
    }
}
