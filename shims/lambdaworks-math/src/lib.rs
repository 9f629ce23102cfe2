//! Stand-in for `lambdaworks-math` rev a17b951 (unreachable offline): the API surface that
//! /repo/src uses, with the published semantics, written from scratch for this sandbox.
#![allow(clippy::all)]
pub mod errors;
pub mod fft;
pub mod field;
pub mod helpers;
pub mod polynomial;
pub mod traits;
pub mod unsigned_integer;
