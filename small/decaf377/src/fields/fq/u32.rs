pub mod fiat;
pub mod wrapper;

pub use wrapper::Fq;
