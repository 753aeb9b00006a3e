use crate::EncodingError;

#[derive(Copy, Clone, Default, Eq, Ord, PartialOrd, PartialEq, Debug)]
pub struct Encoding(pub [u8; 32]);
