//! Environment model of `lambdaworks-math` (rev a17b951), which cannot be fetched offline.
//! Only the API is modelled; field arithmetic is exact.  With the `sym` feature the STARK
//! field additionally carries symbolic terms (see `sym`).
#![allow(clippy::all)]
pub mod errors;
pub mod fft;
pub mod field;
pub mod helpers;
pub mod polynomial;
pub mod traits;
pub mod unsigned_integer;
#[cfg(feature = "sym")]
pub mod sym;
