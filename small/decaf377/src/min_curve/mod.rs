mod constants;
pub mod element;
pub mod encoding;
mod invsqrt;
mod ops;

pub use constants::ZETA;
pub use element::Element;
pub use encoding::Encoding;
