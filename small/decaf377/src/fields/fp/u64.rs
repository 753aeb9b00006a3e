pub mod wrapper;

pub use wrapper::Fp;
