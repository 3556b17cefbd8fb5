//! Environment model of `lambdaworks-crypto` (rev a17b951): Keccak transcript and Merkle trees.
#![allow(clippy::all)]
pub mod fiat_shamir;
pub mod merkle_tree;
/// Observation and interception points of the environment model.
pub mod hooks;
