// The same stand-in as for the 64-bit backend (this one is used without the "arkworks" feature).
include!("../u64/wrapper.rs");
