/// Group operations in affine coordinates.
pub mod affine;
/// Group operations in projective coordinates.
pub mod projective;
