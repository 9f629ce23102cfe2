//! Offline stand-in for `lambdaworks-crypto` (rev a17b951), which the sandbox cannot fetch.
//! Same public API and same bytes as the original for what the prover uses, plus
//! `fiat_shamir::log`: a thread-local event log of every transcript operation,
//! which the Fiat-Shamir monitors read.
pub mod fiat_shamir;
pub mod hash;
pub mod merkle_tree;
