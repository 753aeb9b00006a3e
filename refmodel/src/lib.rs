//! Independent reference for Poseidon-377. Nothing here comes from the repository under test: field
//! arithmetic, linear algebra, parameter derivation and both permutations are written from the
//! Poseidon paper and the repository's prose documentation.
pub mod field;
pub mod linalg;
pub mod poseidon;
pub mod report;
pub mod rounds;
pub mod space;

pub use field::{Fe, Field};
