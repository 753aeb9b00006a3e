//! Compiled where neither std nor alloc exists.
#![no_std]
pub use poseidon377::*;
