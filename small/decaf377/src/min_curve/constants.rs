use crate::Fq;

pub const ZETA: Fq = Fq::from_montgomery_limbs([
    5947794125541564500,
    11292571455564096885,
    11814268415718120036,
    155746270000486182,
]);

pub const ZETA_TO_TRACE: Fq = Fq::from_montgomery_limbs([
    6282505393754313363,
    14378628227555923904,
    9804873068900332207,
    302335131180501866,
]);

/// COEFF_A = -1
pub const COEFF_A: Fq = Fq::from_montgomery_limbs([
    10157024534604021774,
    16668528035959406606,
    5322190058819395602,
    387181115924875961,
]);

/// COEFF_D = 3021
pub const COEFF_D: Fq = Fq::from_montgomery_limbs([
    15008245758212136496,
    17341409599856531410,
    648869460136961410,
    719771289660577536,
]);

/// -2 COEFF_D / COEFF_A = 6042
pub const COEFF_K: Fq = Fq::from_montgomery_limbs([
    10844245690243005535,
    9774967673803681700,
    12776203677742963460,
    94262208632981673,
]);
