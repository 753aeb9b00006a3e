pub mod wrapper;

pub use wrapper::Fr;
