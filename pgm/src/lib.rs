//! The parameter generator with the sizes erased from its types (../erase.rs).
#![allow(non_snake_case, dead_code, unused_imports, unused_parens)]
include!(concat!(env!("OUT_DIR"), "/root.rs"));
#[path = "../../pgf/src/fields.rs"]
pub mod fields;
/// Not compiled here (see ../pgb).
pub mod poseidon_build {
    pub fn v1_compile() {}
    pub fn v2_compile() {}
}
/// What the erased sizes are in the call at hand.
pub mod sizes {
    use std::cell::Cell;
    thread_local!(static NOW: Cell<(usize, usize, usize)> = Cell::new((0, 0, 0)));
    pub fn set(t: usize, r_f: usize, r_p: usize) {
        NOW.with(|n| n.set((t, r_f, r_p)))
    }
    macro_rules! size {
        ($($n:ident $t:ident $f:ident $p:ident $e:expr;)*) => { $(pub fn $n() -> usize { let ($t, $f, $p) = NOW.with(|n| n.get()); $e })* };
    }
    size! {
        STATE_SIZE t _f _p t;
        STATE_SIZE_MINUS_1 t _f _p t - 1;
        NUM_MDS_ELEMENTS t _f _p t * t;
        NUM_STATE_SIZE_MINUS_1_ELEMENTS t _f _p (t - 1) * (t - 1);
        N_ROUNDS _t _f p p;
        NUM_PARTIAL_ROUNDS _t _f p p;
        NUM_ROUND_ROWS _t f p f + p;
        NUM_ROUND_COLS t _f _p t;
        NUM_ROUND_ELEMENTS t f p (f + p) * t;
    }
}
