//! Prime fields described by const parameters: one type per modulus.
use ark_ff::{BigInt, Fp, MontBackend, MontConfig};

macro_rules! field {
    ($c:ident, $f:ident, $n:literal, $one:expr, $($p:ident),*) => {
        pub struct $c<$(const $p: u64),*>;
        impl<$(const $p: u64),*> MontConfig<$n> for $c<$($p),*> {
            const MODULUS: BigInt<$n> = BigInt([$($p),*]);
            // only used by square roots and transforms, which nothing here calls
            const GENERATOR: Fp<MontBackend<Self, $n>, $n> = Fp::new(BigInt($one));
            const TWO_ADIC_ROOT_OF_UNITY: Fp<MontBackend<Self, $n>, $n> = Fp::new(BigInt($one));
        }
        pub type $f<$(const $p: u64),*> = Fp<MontBackend<$c<$($p),*>, $n>, $n>;
    };
}
field!(C1, F1, 1, [1], A);
field!(C2, F2, 2, [1, 0], A, B);
field!(C3, F3, 3, [1, 0, 0], A, B, C);
field!(C4, F4, 4, [1, 0, 0, 0], A, B, C, D);
field!(C5, F5, 5, [1, 0, 0, 0, 0], A, B, C, D, E);
field!(C6, F6, 6, [1, 0, 0, 0, 0, 0], A, B, C, D, E, F);
