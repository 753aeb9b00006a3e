pub mod wrapper;

pub use wrapper::Fq;
