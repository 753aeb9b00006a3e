//! Autogenerated: './fiat-crypto' word-by-word-montgomery --lang Rust fp 32 258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177 --no-prefix-fiat --public-type-case PascalCase --private-type-case PascalCase
//! curve description: fp
//! machine_wordsize = 32 (from "32")
//! requested operations: (all)
//! m = 0x1ae3a4617c510eac63b05c06ca1493b1a22d9f300f5138f1ef3622fba094800170b5d44300000008508c00000000001 (from "258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177")
//!
//! NOTE: In addition to the bounds specified above each function, all
//!   functions synthesized for this Montgomery arithmetic require the
//!   input to be strictly less than the prime modulus (m), and also
//!   require the input to be in the unique saturated representation.
//!   All functions also ensure that these two properties are true of
//!   return values.
//!
//! Computed values:
//!   eval z = z[0] + (z[1] << 32) + (z[2] << 64) + (z[3] << 96) + (z[4] << 128) + (z[5] << 160) + (z[6] << 192) + (z[7] << 224) + (z[8] << 256) + (z[9] << 0x120) + (z[10] << 0x140) + (z[11] << 0x160)
//!   bytes_eval z = z[0] + (z[1] << 8) + (z[2] << 16) + (z[3] << 24) + (z[4] << 32) + (z[5] << 40) + (z[6] << 48) + (z[7] << 56) + (z[8] << 64) + (z[9] << 72) + (z[10] << 80) + (z[11] << 88) + (z[12] << 96) + (z[13] << 104) + (z[14] << 112) + (z[15] << 120) + (z[16] << 128) + (z[17] << 136) + (z[18] << 144) + (z[19] << 152) + (z[20] << 160) + (z[21] << 168) + (z[22] << 176) + (z[23] << 184) + (z[24] << 192) + (z[25] << 200) + (z[26] << 208) + (z[27] << 216) + (z[28] << 224) + (z[29] << 232) + (z[30] << 240) + (z[31] << 248) + (z[32] << 256) + (z[33] << 0x108) + (z[34] << 0x110) + (z[35] << 0x118) + (z[36] << 0x120) + (z[37] << 0x128) + (z[38] << 0x130) + (z[39] << 0x138) + (z[40] << 0x140) + (z[41] << 0x148) + (z[42] << 0x150) + (z[43] << 0x158) + (z[44] << 0x160) + (z[45] << 0x168) + (z[46] << 0x170) + (z[47] << 0x178)
//!   twos_complement_eval z = let x1 := z[0] + (z[1] << 32) + (z[2] << 64) + (z[3] << 96) + (z[4] << 128) + (z[5] << 160) + (z[6] << 192) + (z[7] << 224) + (z[8] << 256) + (z[9] << 0x120) + (z[10] << 0x140) + (z[11] << 0x160) in
//!                            if x1 & (2^384-1) < 2^383 then x1 & (2^384-1) else (x1 & (2^384-1)) - 2^384

#![allow(unused_parens)]
#![allow(non_camel_case_types)]

/** FpU1 represents values of 1 bits, stored in one byte. */
pub type FpU1 = u8;
/** FpI1 represents values of 1 bits, stored in one byte. */
pub type FpI1 = i8;
/** FpU2 represents values of 2 bits, stored in one byte. */
pub type FpU2 = u8;
/** FpI2 represents values of 2 bits, stored in one byte. */
pub type FpI2 = i8;

/** The type FpMontgomeryDomainFieldElement is a field element in the Montgomery domain. */
/** Bounds: [[0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff]] */
#[derive(Clone, Copy)]
pub struct FpMontgomeryDomainFieldElement(pub [u32; 12]);

impl core::ops::Index<usize> for FpMontgomeryDomainFieldElement {
    type Output = u32;
    #[inline]
    fn index(&self, index: usize) -> &Self::Output {
        &self.0[index]
    }
}

impl core::ops::IndexMut<usize> for FpMontgomeryDomainFieldElement {
    #[inline]
    fn index_mut(&mut self, index: usize) -> &mut Self::Output {
        &mut self.0[index]
    }
}

/** The type FpNonMontgomeryDomainFieldElement is a field element NOT in the Montgomery domain. */
/** Bounds: [[0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff]] */
#[derive(Clone, Copy)]
pub struct FpNonMontgomeryDomainFieldElement(pub [u32; 12]);

impl core::ops::Index<usize> for FpNonMontgomeryDomainFieldElement {
    type Output = u32;
    #[inline]
    fn index(&self, index: usize) -> &Self::Output {
        &self.0[index]
    }
}

impl core::ops::IndexMut<usize> for FpNonMontgomeryDomainFieldElement {
    #[inline]
    fn index_mut(&mut self, index: usize) -> &mut Self::Output {
        &mut self.0[index]
    }
}

/// The function fp_addcarryx_u32 is an addition with carry.
///
/// Postconditions:
///   out1 = (arg1 + arg2 + arg3) mod 2^32
///   out2 = ⌊(arg1 + arg2 + arg3) / 2^32⌋
///
/// Input Bounds:
///   arg1: [0x0 ~> 0x1]
///   arg2: [0x0 ~> 0xffffffff]
///   arg3: [0x0 ~> 0xffffffff]
/// Output Bounds:
///   out1: [0x0 ~> 0xffffffff]
///   out2: [0x0 ~> 0x1]
pub fn fp_addcarryx_u32(out1: &mut u32, out2: &mut FpU1, arg1: FpU1, arg2: u32, arg3: u32) {
    let x1: u64 = (((arg1 as u64) + (arg2 as u64)) + (arg3 as u64));
    let x2: u32 = ((x1 & (0xffffffff as u64)) as u32);
    let x3: FpU1 = ((x1 >> 32) as FpU1);
    *out1 = x2;
    *out2 = x3;
}

/// The function fp_subborrowx_u32 is a subtraction with borrow.
///
/// Postconditions:
///   out1 = (-arg1 + arg2 + -arg3) mod 2^32
///   out2 = -⌊(-arg1 + arg2 + -arg3) / 2^32⌋
///
/// Input Bounds:
///   arg1: [0x0 ~> 0x1]
///   arg2: [0x0 ~> 0xffffffff]
///   arg3: [0x0 ~> 0xffffffff]
/// Output Bounds:
///   out1: [0x0 ~> 0xffffffff]
///   out2: [0x0 ~> 0x1]
pub fn fp_subborrowx_u32(out1: &mut u32, out2: &mut FpU1, arg1: FpU1, arg2: u32, arg3: u32) {
    let x1: i64 = (((arg2 as i64) - (arg1 as i64)) - (arg3 as i64));
    let x2: FpI1 = ((x1 >> 32) as FpI1);
    let x3: u32 = ((x1 & (0xffffffff as i64)) as u32);
    *out1 = x3;
    *out2 = (((0x0 as FpI2) - (x2 as FpI2)) as FpU1);
}

/// The function fp_mulx_u32 is a multiplication, returning the full double-width result.
///
/// Postconditions:
///   out1 = (arg1 * arg2) mod 2^32
///   out2 = ⌊arg1 * arg2 / 2^32⌋
///
/// Input Bounds:
///   arg1: [0x0 ~> 0xffffffff]
///   arg2: [0x0 ~> 0xffffffff]
/// Output Bounds:
///   out1: [0x0 ~> 0xffffffff]
///   out2: [0x0 ~> 0xffffffff]
pub fn fp_mulx_u32(out1: &mut u32, out2: &mut u32, arg1: u32, arg2: u32) {
    let x1: u64 = ((arg1 as u64) * (arg2 as u64));
    let x2: u32 = ((x1 & (0xffffffff as u64)) as u32);
    let x3: u32 = ((x1 >> 32) as u32);
    *out1 = x2;
    *out2 = x3;
}

/// The function fp_cmovznz_u32 is a single-word conditional move.
///
/// Postconditions:
///   out1 = (if arg1 = 0 then arg2 else arg3)
///
/// Input Bounds:
///   arg1: [0x0 ~> 0x1]
///   arg2: [0x0 ~> 0xffffffff]
///   arg3: [0x0 ~> 0xffffffff]
/// Output Bounds:
///   out1: [0x0 ~> 0xffffffff]
pub fn fp_cmovznz_u32(out1: &mut u32, arg1: FpU1, arg2: u32, arg3: u32) {
    let x1: FpU1 = (!(!arg1));
    let x2: u32 =
        ((((((0x0 as FpI2) - (x1 as FpI2)) as FpI1) as i64) & (0xffffffff as i64)) as u32);
    let x3: u32 = ((x2 & arg3) | ((!x2) & arg2));
    *out1 = x3;
}

/// The function fp_mul multiplies two field elements in the Montgomery domain.
///
/// Preconditions:
///   0 ≤ eval arg1 < m
///   0 ≤ eval arg2 < m
/// Postconditions:
///   eval (from_montgomery out1) mod m = (eval (from_montgomery arg1) * eval (from_montgomery arg2)) mod m
///   0 ≤ eval out1 < m
///
pub fn fp_mul(
    out1: &mut FpMontgomeryDomainFieldElement,
    arg1: &FpMontgomeryDomainFieldElement,
    arg2: &FpMontgomeryDomainFieldElement,
) {
    let x1: u32 = (arg1[1]);
    let x2: u32 = (arg1[2]);
    let x3: u32 = (arg1[3]);
    let x4: u32 = (arg1[4]);
    let x5: u32 = (arg1[5]);
    let x6: u32 = (arg1[6]);
    let x7: u32 = (arg1[7]);
    let x8: u32 = (arg1[8]);
    let x9: u32 = (arg1[9]);
    let x10: u32 = (arg1[10]);
    let x11: u32 = (arg1[11]);
    let x12: u32 = (arg1[0]);
    let mut x13: u32 = 0;
    let mut x14: u32 = 0;
    fp_mulx_u32(&mut x13, &mut x14, x12, (arg2[11]));
    let mut x15: u32 = 0;
    let mut x16: u32 = 0;
    fp_mulx_u32(&mut x15, &mut x16, x12, (arg2[10]));
    let mut x17: u32 = 0;
    let mut x18: u32 = 0;
    fp_mulx_u32(&mut x17, &mut x18, x12, (arg2[9]));
    let mut x19: u32 = 0;
    let mut x20: u32 = 0;
    fp_mulx_u32(&mut x19, &mut x20, x12, (arg2[8]));
    let mut x21: u32 = 0;
    let mut x22: u32 = 0;
    fp_mulx_u32(&mut x21, &mut x22, x12, (arg2[7]));
    let mut x23: u32 = 0;
    let mut x24: u32 = 0;
    fp_mulx_u32(&mut x23, &mut x24, x12, (arg2[6]));
    let mut x25: u32 = 0;
    let mut x26: u32 = 0;
    fp_mulx_u32(&mut x25, &mut x26, x12, (arg2[5]));
    let mut x27: u32 = 0;
    let mut x28: u32 = 0;
    fp_mulx_u32(&mut x27, &mut x28, x12, (arg2[4]));
    let mut x29: u32 = 0;
    let mut x30: u32 = 0;
    fp_mulx_u32(&mut x29, &mut x30, x12, (arg2[3]));
    let mut x31: u32 = 0;
    let mut x32: u32 = 0;
    fp_mulx_u32(&mut x31, &mut x32, x12, (arg2[2]));
    let mut x33: u32 = 0;
    let mut x34: u32 = 0;
    fp_mulx_u32(&mut x33, &mut x34, x12, (arg2[1]));
    let mut x35: u32 = 0;
    let mut x36: u32 = 0;
    fp_mulx_u32(&mut x35, &mut x36, x12, (arg2[0]));
    let mut x37: u32 = 0;
    let mut x38: FpU1 = 0;
    fp_addcarryx_u32(&mut x37, &mut x38, 0x0, x36, x33);
    let mut x39: u32 = 0;
    let mut x40: FpU1 = 0;
    fp_addcarryx_u32(&mut x39, &mut x40, x38, x34, x31);
    let mut x41: u32 = 0;
    let mut x42: FpU1 = 0;
    fp_addcarryx_u32(&mut x41, &mut x42, x40, x32, x29);
    let mut x43: u32 = 0;
    let mut x44: FpU1 = 0;
    fp_addcarryx_u32(&mut x43, &mut x44, x42, x30, x27);
    let mut x45: u32 = 0;
    let mut x46: FpU1 = 0;
    fp_addcarryx_u32(&mut x45, &mut x46, x44, x28, x25);
    let mut x47: u32 = 0;
    let mut x48: FpU1 = 0;
    fp_addcarryx_u32(&mut x47, &mut x48, x46, x26, x23);
    let mut x49: u32 = 0;
    let mut x50: FpU1 = 0;
    fp_addcarryx_u32(&mut x49, &mut x50, x48, x24, x21);
    let mut x51: u32 = 0;
    let mut x52: FpU1 = 0;
    fp_addcarryx_u32(&mut x51, &mut x52, x50, x22, x19);
    let mut x53: u32 = 0;
    let mut x54: FpU1 = 0;
    fp_addcarryx_u32(&mut x53, &mut x54, x52, x20, x17);
    let mut x55: u32 = 0;
    let mut x56: FpU1 = 0;
    fp_addcarryx_u32(&mut x55, &mut x56, x54, x18, x15);
    let mut x57: u32 = 0;
    let mut x58: FpU1 = 0;
    fp_addcarryx_u32(&mut x57, &mut x58, x56, x16, x13);
    let x59: u32 = ((x58 as u32) + x14);
    let mut x60: u32 = 0;
    let mut x61: u32 = 0;
    fp_mulx_u32(&mut x60, &mut x61, x35, 0xffffffff);
    let mut x62: u32 = 0;
    let mut x63: u32 = 0;
    fp_mulx_u32(&mut x62, &mut x63, x60, 0x1ae3a46);
    let mut x64: u32 = 0;
    let mut x65: u32 = 0;
    fp_mulx_u32(&mut x64, &mut x65, x60, 0x17c510ea);
    let mut x66: u32 = 0;
    let mut x67: u32 = 0;
    fp_mulx_u32(&mut x66, &mut x67, x60, 0xc63b05c0);
    let mut x68: u32 = 0;
    let mut x69: u32 = 0;
    fp_mulx_u32(&mut x68, &mut x69, x60, 0x6ca1493b);
    let mut x70: u32 = 0;
    let mut x71: u32 = 0;
    fp_mulx_u32(&mut x70, &mut x71, x60, 0x1a22d9f3);
    let mut x72: u32 = 0;
    let mut x73: u32 = 0;
    fp_mulx_u32(&mut x72, &mut x73, x60, 0xf5138f);
    let mut x74: u32 = 0;
    let mut x75: u32 = 0;
    fp_mulx_u32(&mut x74, &mut x75, x60, 0x1ef3622f);
    let mut x76: u32 = 0;
    let mut x77: u32 = 0;
    fp_mulx_u32(&mut x76, &mut x77, x60, 0xba094800);
    let mut x78: u32 = 0;
    let mut x79: u32 = 0;
    fp_mulx_u32(&mut x78, &mut x79, x60, 0x170b5d44);
    let mut x80: u32 = 0;
    let mut x81: u32 = 0;
    fp_mulx_u32(&mut x80, &mut x81, x60, 0x30000000);
    let mut x82: u32 = 0;
    let mut x83: u32 = 0;
    fp_mulx_u32(&mut x82, &mut x83, x60, 0x8508c000);
    let mut x84: u32 = 0;
    let mut x85: FpU1 = 0;
    fp_addcarryx_u32(&mut x84, &mut x85, 0x0, x83, x80);
    let mut x86: u32 = 0;
    let mut x87: FpU1 = 0;
    fp_addcarryx_u32(&mut x86, &mut x87, x85, x81, x78);
    let mut x88: u32 = 0;
    let mut x89: FpU1 = 0;
    fp_addcarryx_u32(&mut x88, &mut x89, x87, x79, x76);
    let mut x90: u32 = 0;
    let mut x91: FpU1 = 0;
    fp_addcarryx_u32(&mut x90, &mut x91, x89, x77, x74);
    let mut x92: u32 = 0;
    let mut x93: FpU1 = 0;
    fp_addcarryx_u32(&mut x92, &mut x93, x91, x75, x72);
    let mut x94: u32 = 0;
    let mut x95: FpU1 = 0;
    fp_addcarryx_u32(&mut x94, &mut x95, x93, x73, x70);
    let mut x96: u32 = 0;
    let mut x97: FpU1 = 0;
    fp_addcarryx_u32(&mut x96, &mut x97, x95, x71, x68);
    let mut x98: u32 = 0;
    let mut x99: FpU1 = 0;
    fp_addcarryx_u32(&mut x98, &mut x99, x97, x69, x66);
    let mut x100: u32 = 0;
    let mut x101: FpU1 = 0;
    fp_addcarryx_u32(&mut x100, &mut x101, x99, x67, x64);
    let mut x102: u32 = 0;
    let mut x103: FpU1 = 0;
    fp_addcarryx_u32(&mut x102, &mut x103, x101, x65, x62);
    let x104: u32 = ((x103 as u32) + x63);
    let mut x105: u32 = 0;
    let mut x106: FpU1 = 0;
    fp_addcarryx_u32(&mut x105, &mut x106, 0x0, x35, x60);
    let mut x107: u32 = 0;
    let mut x108: FpU1 = 0;
    fp_addcarryx_u32(&mut x107, &mut x108, x106, x37, x82);
    let mut x109: u32 = 0;
    let mut x110: FpU1 = 0;
    fp_addcarryx_u32(&mut x109, &mut x110, x108, x39, x84);
    let mut x111: u32 = 0;
    let mut x112: FpU1 = 0;
    fp_addcarryx_u32(&mut x111, &mut x112, x110, x41, x86);
    let mut x113: u32 = 0;
    let mut x114: FpU1 = 0;
    fp_addcarryx_u32(&mut x113, &mut x114, x112, x43, x88);
    let mut x115: u32 = 0;
    let mut x116: FpU1 = 0;
    fp_addcarryx_u32(&mut x115, &mut x116, x114, x45, x90);
    let mut x117: u32 = 0;
    let mut x118: FpU1 = 0;
    fp_addcarryx_u32(&mut x117, &mut x118, x116, x47, x92);
    let mut x119: u32 = 0;
    let mut x120: FpU1 = 0;
    fp_addcarryx_u32(&mut x119, &mut x120, x118, x49, x94);
    let mut x121: u32 = 0;
    let mut x122: FpU1 = 0;
    fp_addcarryx_u32(&mut x121, &mut x122, x120, x51, x96);
    let mut x123: u32 = 0;
    let mut x124: FpU1 = 0;
    fp_addcarryx_u32(&mut x123, &mut x124, x122, x53, x98);
    let mut x125: u32 = 0;
    let mut x126: FpU1 = 0;
    fp_addcarryx_u32(&mut x125, &mut x126, x124, x55, x100);
    let mut x127: u32 = 0;
    let mut x128: FpU1 = 0;
    fp_addcarryx_u32(&mut x127, &mut x128, x126, x57, x102);
    let mut x129: u32 = 0;
    let mut x130: FpU1 = 0;
    fp_addcarryx_u32(&mut x129, &mut x130, x128, x59, x104);
    let mut x131: u32 = 0;
    let mut x132: u32 = 0;
    fp_mulx_u32(&mut x131, &mut x132, x1, (arg2[11]));
    let mut x133: u32 = 0;
    let mut x134: u32 = 0;
    fp_mulx_u32(&mut x133, &mut x134, x1, (arg2[10]));
    let mut x135: u32 = 0;
    let mut x136: u32 = 0;
    fp_mulx_u32(&mut x135, &mut x136, x1, (arg2[9]));
    let mut x137: u32 = 0;
    let mut x138: u32 = 0;
    fp_mulx_u32(&mut x137, &mut x138, x1, (arg2[8]));
    let mut x139: u32 = 0;
    let mut x140: u32 = 0;
    fp_mulx_u32(&mut x139, &mut x140, x1, (arg2[7]));
    let mut x141: u32 = 0;
    let mut x142: u32 = 0;
    fp_mulx_u32(&mut x141, &mut x142, x1, (arg2[6]));
    let mut x143: u32 = 0;
    let mut x144: u32 = 0;
    fp_mulx_u32(&mut x143, &mut x144, x1, (arg2[5]));
    let mut x145: u32 = 0;
    let mut x146: u32 = 0;
    fp_mulx_u32(&mut x145, &mut x146, x1, (arg2[4]));
    let mut x147: u32 = 0;
    let mut x148: u32 = 0;
    fp_mulx_u32(&mut x147, &mut x148, x1, (arg2[3]));
    let mut x149: u32 = 0;
    let mut x150: u32 = 0;
    fp_mulx_u32(&mut x149, &mut x150, x1, (arg2[2]));
    let mut x151: u32 = 0;
    let mut x152: u32 = 0;
    fp_mulx_u32(&mut x151, &mut x152, x1, (arg2[1]));
    let mut x153: u32 = 0;
    let mut x154: u32 = 0;
    fp_mulx_u32(&mut x153, &mut x154, x1, (arg2[0]));
    let mut x155: u32 = 0;
    let mut x156: FpU1 = 0;
    fp_addcarryx_u32(&mut x155, &mut x156, 0x0, x154, x151);
    let mut x157: u32 = 0;
    let mut x158: FpU1 = 0;
    fp_addcarryx_u32(&mut x157, &mut x158, x156, x152, x149);
    let mut x159: u32 = 0;
    let mut x160: FpU1 = 0;
    fp_addcarryx_u32(&mut x159, &mut x160, x158, x150, x147);
    let mut x161: u32 = 0;
    let mut x162: FpU1 = 0;
    fp_addcarryx_u32(&mut x161, &mut x162, x160, x148, x145);
    let mut x163: u32 = 0;
    let mut x164: FpU1 = 0;
    fp_addcarryx_u32(&mut x163, &mut x164, x162, x146, x143);
    let mut x165: u32 = 0;
    let mut x166: FpU1 = 0;
    fp_addcarryx_u32(&mut x165, &mut x166, x164, x144, x141);
    let mut x167: u32 = 0;
    let mut x168: FpU1 = 0;
    fp_addcarryx_u32(&mut x167, &mut x168, x166, x142, x139);
    let mut x169: u32 = 0;
    let mut x170: FpU1 = 0;
    fp_addcarryx_u32(&mut x169, &mut x170, x168, x140, x137);
    let mut x171: u32 = 0;
    let mut x172: FpU1 = 0;
    fp_addcarryx_u32(&mut x171, &mut x172, x170, x138, x135);
    let mut x173: u32 = 0;
    let mut x174: FpU1 = 0;
    fp_addcarryx_u32(&mut x173, &mut x174, x172, x136, x133);
    let mut x175: u32 = 0;
    let mut x176: FpU1 = 0;
    fp_addcarryx_u32(&mut x175, &mut x176, x174, x134, x131);
    let x177: u32 = ((x176 as u32) + x132);
    let mut x178: u32 = 0;
    let mut x179: FpU1 = 0;
    fp_addcarryx_u32(&mut x178, &mut x179, 0x0, x107, x153);
    let mut x180: u32 = 0;
    let mut x181: FpU1 = 0;
    fp_addcarryx_u32(&mut x180, &mut x181, x179, x109, x155);
    let mut x182: u32 = 0;
    let mut x183: FpU1 = 0;
    fp_addcarryx_u32(&mut x182, &mut x183, x181, x111, x157);
    let mut x184: u32 = 0;
    let mut x185: FpU1 = 0;
    fp_addcarryx_u32(&mut x184, &mut x185, x183, x113, x159);
    let mut x186: u32 = 0;
    let mut x187: FpU1 = 0;
    fp_addcarryx_u32(&mut x186, &mut x187, x185, x115, x161);
    let mut x188: u32 = 0;
    let mut x189: FpU1 = 0;
    fp_addcarryx_u32(&mut x188, &mut x189, x187, x117, x163);
    let mut x190: u32 = 0;
    let mut x191: FpU1 = 0;
    fp_addcarryx_u32(&mut x190, &mut x191, x189, x119, x165);
    let mut x192: u32 = 0;
    let mut x193: FpU1 = 0;
    fp_addcarryx_u32(&mut x192, &mut x193, x191, x121, x167);
    let mut x194: u32 = 0;
    let mut x195: FpU1 = 0;
    fp_addcarryx_u32(&mut x194, &mut x195, x193, x123, x169);
    let mut x196: u32 = 0;
    let mut x197: FpU1 = 0;
    fp_addcarryx_u32(&mut x196, &mut x197, x195, x125, x171);
    let mut x198: u32 = 0;
    let mut x199: FpU1 = 0;
    fp_addcarryx_u32(&mut x198, &mut x199, x197, x127, x173);
    let mut x200: u32 = 0;
    let mut x201: FpU1 = 0;
    fp_addcarryx_u32(&mut x200, &mut x201, x199, x129, x175);
    let mut x202: u32 = 0;
    let mut x203: FpU1 = 0;
    fp_addcarryx_u32(&mut x202, &mut x203, x201, (x130 as u32), x177);
    let mut x204: u32 = 0;
    let mut x205: u32 = 0;
    fp_mulx_u32(&mut x204, &mut x205, x178, 0xffffffff);
    let mut x206: u32 = 0;
    let mut x207: u32 = 0;
    fp_mulx_u32(&mut x206, &mut x207, x204, 0x1ae3a46);
    let mut x208: u32 = 0;
    let mut x209: u32 = 0;
    fp_mulx_u32(&mut x208, &mut x209, x204, 0x17c510ea);
    let mut x210: u32 = 0;
    let mut x211: u32 = 0;
    fp_mulx_u32(&mut x210, &mut x211, x204, 0xc63b05c0);
    let mut x212: u32 = 0;
    let mut x213: u32 = 0;
    fp_mulx_u32(&mut x212, &mut x213, x204, 0x6ca1493b);
    let mut x214: u32 = 0;
    let mut x215: u32 = 0;
    fp_mulx_u32(&mut x214, &mut x215, x204, 0x1a22d9f3);
    let mut x216: u32 = 0;
    let mut x217: u32 = 0;
    fp_mulx_u32(&mut x216, &mut x217, x204, 0xf5138f);
    let mut x218: u32 = 0;
    let mut x219: u32 = 0;
    fp_mulx_u32(&mut x218, &mut x219, x204, 0x1ef3622f);
    let mut x220: u32 = 0;
    let mut x221: u32 = 0;
    fp_mulx_u32(&mut x220, &mut x221, x204, 0xba094800);
    let mut x222: u32 = 0;
    let mut x223: u32 = 0;
    fp_mulx_u32(&mut x222, &mut x223, x204, 0x170b5d44);
    let mut x224: u32 = 0;
    let mut x225: u32 = 0;
    fp_mulx_u32(&mut x224, &mut x225, x204, 0x30000000);
    let mut x226: u32 = 0;
    let mut x227: u32 = 0;
    fp_mulx_u32(&mut x226, &mut x227, x204, 0x8508c000);
    let mut x228: u32 = 0;
    let mut x229: FpU1 = 0;
    fp_addcarryx_u32(&mut x228, &mut x229, 0x0, x227, x224);
    let mut x230: u32 = 0;
    let mut x231: FpU1 = 0;
    fp_addcarryx_u32(&mut x230, &mut x231, x229, x225, x222);
    let mut x232: u32 = 0;
    let mut x233: FpU1 = 0;
    fp_addcarryx_u32(&mut x232, &mut x233, x231, x223, x220);
    let mut x234: u32 = 0;
    let mut x235: FpU1 = 0;
    fp_addcarryx_u32(&mut x234, &mut x235, x233, x221, x218);
    let mut x236: u32 = 0;
    let mut x237: FpU1 = 0;
    fp_addcarryx_u32(&mut x236, &mut x237, x235, x219, x216);
    let mut x238: u32 = 0;
    let mut x239: FpU1 = 0;
    fp_addcarryx_u32(&mut x238, &mut x239, x237, x217, x214);
    let mut x240: u32 = 0;
    let mut x241: FpU1 = 0;
    fp_addcarryx_u32(&mut x240, &mut x241, x239, x215, x212);
    let mut x242: u32 = 0;
    let mut x243: FpU1 = 0;
    fp_addcarryx_u32(&mut x242, &mut x243, x241, x213, x210);
    let mut x244: u32 = 0;
    let mut x245: FpU1 = 0;
    fp_addcarryx_u32(&mut x244, &mut x245, x243, x211, x208);
    let mut x246: u32 = 0;
    let mut x247: FpU1 = 0;
    fp_addcarryx_u32(&mut x246, &mut x247, x245, x209, x206);
    let x248: u32 = ((x247 as u32) + x207);
    let mut x249: u32 = 0;
    let mut x250: FpU1 = 0;
    fp_addcarryx_u32(&mut x249, &mut x250, 0x0, x178, x204);
    let mut x251: u32 = 0;
    let mut x252: FpU1 = 0;
    fp_addcarryx_u32(&mut x251, &mut x252, x250, x180, x226);
    let mut x253: u32 = 0;
    let mut x254: FpU1 = 0;
    fp_addcarryx_u32(&mut x253, &mut x254, x252, x182, x228);
    let mut x255: u32 = 0;
    let mut x256: FpU1 = 0;
    fp_addcarryx_u32(&mut x255, &mut x256, x254, x184, x230);
    let mut x257: u32 = 0;
    let mut x258: FpU1 = 0;
    fp_addcarryx_u32(&mut x257, &mut x258, x256, x186, x232);
    let mut x259: u32 = 0;
    let mut x260: FpU1 = 0;
    fp_addcarryx_u32(&mut x259, &mut x260, x258, x188, x234);
    let mut x261: u32 = 0;
    let mut x262: FpU1 = 0;
    fp_addcarryx_u32(&mut x261, &mut x262, x260, x190, x236);
    let mut x263: u32 = 0;
    let mut x264: FpU1 = 0;
    fp_addcarryx_u32(&mut x263, &mut x264, x262, x192, x238);
    let mut x265: u32 = 0;
    let mut x266: FpU1 = 0;
    fp_addcarryx_u32(&mut x265, &mut x266, x264, x194, x240);
    let mut x267: u32 = 0;
    let mut x268: FpU1 = 0;
    fp_addcarryx_u32(&mut x267, &mut x268, x266, x196, x242);
    let mut x269: u32 = 0;
    let mut x270: FpU1 = 0;
    fp_addcarryx_u32(&mut x269, &mut x270, x268, x198, x244);
    let mut x271: u32 = 0;
    let mut x272: FpU1 = 0;
    fp_addcarryx_u32(&mut x271, &mut x272, x270, x200, x246);
    let mut x273: u32 = 0;
    let mut x274: FpU1 = 0;
    fp_addcarryx_u32(&mut x273, &mut x274, x272, x202, x248);
    let x275: u32 = ((x274 as u32) + (x203 as u32));
    let mut x276: u32 = 0;
    let mut x277: u32 = 0;
    fp_mulx_u32(&mut x276, &mut x277, x2, (arg2[11]));
    let mut x278: u32 = 0;
    let mut x279: u32 = 0;
    fp_mulx_u32(&mut x278, &mut x279, x2, (arg2[10]));
    let mut x280: u32 = 0;
    let mut x281: u32 = 0;
    fp_mulx_u32(&mut x280, &mut x281, x2, (arg2[9]));
    let mut x282: u32 = 0;
    let mut x283: u32 = 0;
    fp_mulx_u32(&mut x282, &mut x283, x2, (arg2[8]));
    let mut x284: u32 = 0;
    let mut x285: u32 = 0;
    fp_mulx_u32(&mut x284, &mut x285, x2, (arg2[7]));
    let mut x286: u32 = 0;
    let mut x287: u32 = 0;
    fp_mulx_u32(&mut x286, &mut x287, x2, (arg2[6]));
    let mut x288: u32 = 0;
    let mut x289: u32 = 0;
    fp_mulx_u32(&mut x288, &mut x289, x2, (arg2[5]));
    let mut x290: u32 = 0;
    let mut x291: u32 = 0;
    fp_mulx_u32(&mut x290, &mut x291, x2, (arg2[4]));
    let mut x292: u32 = 0;
    let mut x293: u32 = 0;
    fp_mulx_u32(&mut x292, &mut x293, x2, (arg2[3]));
    let mut x294: u32 = 0;
    let mut x295: u32 = 0;
    fp_mulx_u32(&mut x294, &mut x295, x2, (arg2[2]));
    let mut x296: u32 = 0;
    let mut x297: u32 = 0;
    fp_mulx_u32(&mut x296, &mut x297, x2, (arg2[1]));
    let mut x298: u32 = 0;
    let mut x299: u32 = 0;
    fp_mulx_u32(&mut x298, &mut x299, x2, (arg2[0]));
    let mut x300: u32 = 0;
    let mut x301: FpU1 = 0;
    fp_addcarryx_u32(&mut x300, &mut x301, 0x0, x299, x296);
    let mut x302: u32 = 0;
    let mut x303: FpU1 = 0;
    fp_addcarryx_u32(&mut x302, &mut x303, x301, x297, x294);
    let mut x304: u32 = 0;
    let mut x305: FpU1 = 0;
    fp_addcarryx_u32(&mut x304, &mut x305, x303, x295, x292);
    let mut x306: u32 = 0;
    let mut x307: FpU1 = 0;
    fp_addcarryx_u32(&mut x306, &mut x307, x305, x293, x290);
    let mut x308: u32 = 0;
    let mut x309: FpU1 = 0;
    fp_addcarryx_u32(&mut x308, &mut x309, x307, x291, x288);
    let mut x310: u32 = 0;
    let mut x311: FpU1 = 0;
    fp_addcarryx_u32(&mut x310, &mut x311, x309, x289, x286);
    let mut x312: u32 = 0;
    let mut x313: FpU1 = 0;
    fp_addcarryx_u32(&mut x312, &mut x313, x311, x287, x284);
    let mut x314: u32 = 0;
    let mut x315: FpU1 = 0;
    fp_addcarryx_u32(&mut x314, &mut x315, x313, x285, x282);
    let mut x316: u32 = 0;
    let mut x317: FpU1 = 0;
    fp_addcarryx_u32(&mut x316, &mut x317, x315, x283, x280);
    let mut x318: u32 = 0;
    let mut x319: FpU1 = 0;
    fp_addcarryx_u32(&mut x318, &mut x319, x317, x281, x278);
    let mut x320: u32 = 0;
    let mut x321: FpU1 = 0;
    fp_addcarryx_u32(&mut x320, &mut x321, x319, x279, x276);
    let x322: u32 = ((x321 as u32) + x277);
    let mut x323: u32 = 0;
    let mut x324: FpU1 = 0;
    fp_addcarryx_u32(&mut x323, &mut x324, 0x0, x251, x298);
    let mut x325: u32 = 0;
    let mut x326: FpU1 = 0;
    fp_addcarryx_u32(&mut x325, &mut x326, x324, x253, x300);
    let mut x327: u32 = 0;
    let mut x328: FpU1 = 0;
    fp_addcarryx_u32(&mut x327, &mut x328, x326, x255, x302);
    let mut x329: u32 = 0;
    let mut x330: FpU1 = 0;
    fp_addcarryx_u32(&mut x329, &mut x330, x328, x257, x304);
    let mut x331: u32 = 0;
    let mut x332: FpU1 = 0;
    fp_addcarryx_u32(&mut x331, &mut x332, x330, x259, x306);
    let mut x333: u32 = 0;
    let mut x334: FpU1 = 0;
    fp_addcarryx_u32(&mut x333, &mut x334, x332, x261, x308);
    let mut x335: u32 = 0;
    let mut x336: FpU1 = 0;
    fp_addcarryx_u32(&mut x335, &mut x336, x334, x263, x310);
    let mut x337: u32 = 0;
    let mut x338: FpU1 = 0;
    fp_addcarryx_u32(&mut x337, &mut x338, x336, x265, x312);
    let mut x339: u32 = 0;
    let mut x340: FpU1 = 0;
    fp_addcarryx_u32(&mut x339, &mut x340, x338, x267, x314);
    let mut x341: u32 = 0;
    let mut x342: FpU1 = 0;
    fp_addcarryx_u32(&mut x341, &mut x342, x340, x269, x316);
    let mut x343: u32 = 0;
    let mut x344: FpU1 = 0;
    fp_addcarryx_u32(&mut x343, &mut x344, x342, x271, x318);
    let mut x345: u32 = 0;
    let mut x346: FpU1 = 0;
    fp_addcarryx_u32(&mut x345, &mut x346, x344, x273, x320);
    let mut x347: u32 = 0;
    let mut x348: FpU1 = 0;
    fp_addcarryx_u32(&mut x347, &mut x348, x346, x275, x322);
    let mut x349: u32 = 0;
    let mut x350: u32 = 0;
    fp_mulx_u32(&mut x349, &mut x350, x323, 0xffffffff);
    let mut x351: u32 = 0;
    let mut x352: u32 = 0;
    fp_mulx_u32(&mut x351, &mut x352, x349, 0x1ae3a46);
    let mut x353: u32 = 0;
    let mut x354: u32 = 0;
    fp_mulx_u32(&mut x353, &mut x354, x349, 0x17c510ea);
    let mut x355: u32 = 0;
    let mut x356: u32 = 0;
    fp_mulx_u32(&mut x355, &mut x356, x349, 0xc63b05c0);
    let mut x357: u32 = 0;
    let mut x358: u32 = 0;
    fp_mulx_u32(&mut x357, &mut x358, x349, 0x6ca1493b);
    let mut x359: u32 = 0;
    let mut x360: u32 = 0;
    fp_mulx_u32(&mut x359, &mut x360, x349, 0x1a22d9f3);
    let mut x361: u32 = 0;
    let mut x362: u32 = 0;
    fp_mulx_u32(&mut x361, &mut x362, x349, 0xf5138f);
    let mut x363: u32 = 0;
    let mut x364: u32 = 0;
    fp_mulx_u32(&mut x363, &mut x364, x349, 0x1ef3622f);
    let mut x365: u32 = 0;
    let mut x366: u32 = 0;
    fp_mulx_u32(&mut x365, &mut x366, x349, 0xba094800);
    let mut x367: u32 = 0;
    let mut x368: u32 = 0;
    fp_mulx_u32(&mut x367, &mut x368, x349, 0x170b5d44);
    let mut x369: u32 = 0;
    let mut x370: u32 = 0;
    fp_mulx_u32(&mut x369, &mut x370, x349, 0x30000000);
    let mut x371: u32 = 0;
    let mut x372: u32 = 0;
    fp_mulx_u32(&mut x371, &mut x372, x349, 0x8508c000);
    let mut x373: u32 = 0;
    let mut x374: FpU1 = 0;
    fp_addcarryx_u32(&mut x373, &mut x374, 0x0, x372, x369);
    let mut x375: u32 = 0;
    let mut x376: FpU1 = 0;
    fp_addcarryx_u32(&mut x375, &mut x376, x374, x370, x367);
    let mut x377: u32 = 0;
    let mut x378: FpU1 = 0;
    fp_addcarryx_u32(&mut x377, &mut x378, x376, x368, x365);
    let mut x379: u32 = 0;
    let mut x380: FpU1 = 0;
    fp_addcarryx_u32(&mut x379, &mut x380, x378, x366, x363);
    let mut x381: u32 = 0;
    let mut x382: FpU1 = 0;
    fp_addcarryx_u32(&mut x381, &mut x382, x380, x364, x361);
    let mut x383: u32 = 0;
    let mut x384: FpU1 = 0;
    fp_addcarryx_u32(&mut x383, &mut x384, x382, x362, x359);
    let mut x385: u32 = 0;
    let mut x386: FpU1 = 0;
    fp_addcarryx_u32(&mut x385, &mut x386, x384, x360, x357);
    let mut x387: u32 = 0;
    let mut x388: FpU1 = 0;
    fp_addcarryx_u32(&mut x387, &mut x388, x386, x358, x355);
    let mut x389: u32 = 0;
    let mut x390: FpU1 = 0;
    fp_addcarryx_u32(&mut x389, &mut x390, x388, x356, x353);
    let mut x391: u32 = 0;
    let mut x392: FpU1 = 0;
    fp_addcarryx_u32(&mut x391, &mut x392, x390, x354, x351);
    let x393: u32 = ((x392 as u32) + x352);
    let mut x394: u32 = 0;
    let mut x395: FpU1 = 0;
    fp_addcarryx_u32(&mut x394, &mut x395, 0x0, x323, x349);
    let mut x396: u32 = 0;
    let mut x397: FpU1 = 0;
    fp_addcarryx_u32(&mut x396, &mut x397, x395, x325, x371);
    let mut x398: u32 = 0;
    let mut x399: FpU1 = 0;
    fp_addcarryx_u32(&mut x398, &mut x399, x397, x327, x373);
    let mut x400: u32 = 0;
    let mut x401: FpU1 = 0;
    fp_addcarryx_u32(&mut x400, &mut x401, x399, x329, x375);
    let mut x402: u32 = 0;
    let mut x403: FpU1 = 0;
    fp_addcarryx_u32(&mut x402, &mut x403, x401, x331, x377);
    let mut x404: u32 = 0;
    let mut x405: FpU1 = 0;
    fp_addcarryx_u32(&mut x404, &mut x405, x403, x333, x379);
    let mut x406: u32 = 0;
    let mut x407: FpU1 = 0;
    fp_addcarryx_u32(&mut x406, &mut x407, x405, x335, x381);
    let mut x408: u32 = 0;
    let mut x409: FpU1 = 0;
    fp_addcarryx_u32(&mut x408, &mut x409, x407, x337, x383);
    let mut x410: u32 = 0;
    let mut x411: FpU1 = 0;
    fp_addcarryx_u32(&mut x410, &mut x411, x409, x339, x385);
    let mut x412: u32 = 0;
    let mut x413: FpU1 = 0;
    fp_addcarryx_u32(&mut x412, &mut x413, x411, x341, x387);
    let mut x414: u32 = 0;
    let mut x415: FpU1 = 0;
    fp_addcarryx_u32(&mut x414, &mut x415, x413, x343, x389);
    let mut x416: u32 = 0;
    let mut x417: FpU1 = 0;
    fp_addcarryx_u32(&mut x416, &mut x417, x415, x345, x391);
    let mut x418: u32 = 0;
    let mut x419: FpU1 = 0;
    fp_addcarryx_u32(&mut x418, &mut x419, x417, x347, x393);
    let x420: u32 = ((x419 as u32) + (x348 as u32));
    let mut x421: u32 = 0;
    let mut x422: u32 = 0;
    fp_mulx_u32(&mut x421, &mut x422, x3, (arg2[11]));
    let mut x423: u32 = 0;
    let mut x424: u32 = 0;
    fp_mulx_u32(&mut x423, &mut x424, x3, (arg2[10]));
    let mut x425: u32 = 0;
    let mut x426: u32 = 0;
    fp_mulx_u32(&mut x425, &mut x426, x3, (arg2[9]));
    let mut x427: u32 = 0;
    let mut x428: u32 = 0;
    fp_mulx_u32(&mut x427, &mut x428, x3, (arg2[8]));
    let mut x429: u32 = 0;
    let mut x430: u32 = 0;
    fp_mulx_u32(&mut x429, &mut x430, x3, (arg2[7]));
    let mut x431: u32 = 0;
    let mut x432: u32 = 0;
    fp_mulx_u32(&mut x431, &mut x432, x3, (arg2[6]));
    let mut x433: u32 = 0;
    let mut x434: u32 = 0;
    fp_mulx_u32(&mut x433, &mut x434, x3, (arg2[5]));
    let mut x435: u32 = 0;
    let mut x436: u32 = 0;
    fp_mulx_u32(&mut x435, &mut x436, x3, (arg2[4]));
    let mut x437: u32 = 0;
    let mut x438: u32 = 0;
    fp_mulx_u32(&mut x437, &mut x438, x3, (arg2[3]));
    let mut x439: u32 = 0;
    let mut x440: u32 = 0;
    fp_mulx_u32(&mut x439, &mut x440, x3, (arg2[2]));
    let mut x441: u32 = 0;
    let mut x442: u32 = 0;
    fp_mulx_u32(&mut x441, &mut x442, x3, (arg2[1]));
    let mut x443: u32 = 0;
    let mut x444: u32 = 0;
    fp_mulx_u32(&mut x443, &mut x444, x3, (arg2[0]));
    let mut x445: u32 = 0;
    let mut x446: FpU1 = 0;
    fp_addcarryx_u32(&mut x445, &mut x446, 0x0, x444, x441);
    let mut x447: u32 = 0;
    let mut x448: FpU1 = 0;
    fp_addcarryx_u32(&mut x447, &mut x448, x446, x442, x439);
    let mut x449: u32 = 0;
    let mut x450: FpU1 = 0;
    fp_addcarryx_u32(&mut x449, &mut x450, x448, x440, x437);
    let mut x451: u32 = 0;
    let mut x452: FpU1 = 0;
    fp_addcarryx_u32(&mut x451, &mut x452, x450, x438, x435);
    let mut x453: u32 = 0;
    let mut x454: FpU1 = 0;
    fp_addcarryx_u32(&mut x453, &mut x454, x452, x436, x433);
    let mut x455: u32 = 0;
    let mut x456: FpU1 = 0;
    fp_addcarryx_u32(&mut x455, &mut x456, x454, x434, x431);
    let mut x457: u32 = 0;
    let mut x458: FpU1 = 0;
    fp_addcarryx_u32(&mut x457, &mut x458, x456, x432, x429);
    let mut x459: u32 = 0;
    let mut x460: FpU1 = 0;
    fp_addcarryx_u32(&mut x459, &mut x460, x458, x430, x427);
    let mut x461: u32 = 0;
    let mut x462: FpU1 = 0;
    fp_addcarryx_u32(&mut x461, &mut x462, x460, x428, x425);
    let mut x463: u32 = 0;
    let mut x464: FpU1 = 0;
    fp_addcarryx_u32(&mut x463, &mut x464, x462, x426, x423);
    let mut x465: u32 = 0;
    let mut x466: FpU1 = 0;
    fp_addcarryx_u32(&mut x465, &mut x466, x464, x424, x421);
    let x467: u32 = ((x466 as u32) + x422);
    let mut x468: u32 = 0;
    let mut x469: FpU1 = 0;
    fp_addcarryx_u32(&mut x468, &mut x469, 0x0, x396, x443);
    let mut x470: u32 = 0;
    let mut x471: FpU1 = 0;
    fp_addcarryx_u32(&mut x470, &mut x471, x469, x398, x445);
    let mut x472: u32 = 0;
    let mut x473: FpU1 = 0;
    fp_addcarryx_u32(&mut x472, &mut x473, x471, x400, x447);
    let mut x474: u32 = 0;
    let mut x475: FpU1 = 0;
    fp_addcarryx_u32(&mut x474, &mut x475, x473, x402, x449);
    let mut x476: u32 = 0;
    let mut x477: FpU1 = 0;
    fp_addcarryx_u32(&mut x476, &mut x477, x475, x404, x451);
    let mut x478: u32 = 0;
    let mut x479: FpU1 = 0;
    fp_addcarryx_u32(&mut x478, &mut x479, x477, x406, x453);
    let mut x480: u32 = 0;
    let mut x481: FpU1 = 0;
    fp_addcarryx_u32(&mut x480, &mut x481, x479, x408, x455);
    let mut x482: u32 = 0;
    let mut x483: FpU1 = 0;
    fp_addcarryx_u32(&mut x482, &mut x483, x481, x410, x457);
    let mut x484: u32 = 0;
    let mut x485: FpU1 = 0;
    fp_addcarryx_u32(&mut x484, &mut x485, x483, x412, x459);
    let mut x486: u32 = 0;
    let mut x487: FpU1 = 0;
    fp_addcarryx_u32(&mut x486, &mut x487, x485, x414, x461);
    let mut x488: u32 = 0;
    let mut x489: FpU1 = 0;
    fp_addcarryx_u32(&mut x488, &mut x489, x487, x416, x463);
    let mut x490: u32 = 0;
    let mut x491: FpU1 = 0;
    fp_addcarryx_u32(&mut x490, &mut x491, x489, x418, x465);
    let mut x492: u32 = 0;
    let mut x493: FpU1 = 0;
    fp_addcarryx_u32(&mut x492, &mut x493, x491, x420, x467);
    let mut x494: u32 = 0;
    let mut x495: u32 = 0;
    fp_mulx_u32(&mut x494, &mut x495, x468, 0xffffffff);
    let mut x496: u32 = 0;
    let mut x497: u32 = 0;
    fp_mulx_u32(&mut x496, &mut x497, x494, 0x1ae3a46);
    let mut x498: u32 = 0;
    let mut x499: u32 = 0;
    fp_mulx_u32(&mut x498, &mut x499, x494, 0x17c510ea);
    let mut x500: u32 = 0;
    let mut x501: u32 = 0;
    fp_mulx_u32(&mut x500, &mut x501, x494, 0xc63b05c0);
    let mut x502: u32 = 0;
    let mut x503: u32 = 0;
    fp_mulx_u32(&mut x502, &mut x503, x494, 0x6ca1493b);
    let mut x504: u32 = 0;
    let mut x505: u32 = 0;
    fp_mulx_u32(&mut x504, &mut x505, x494, 0x1a22d9f3);
    let mut x506: u32 = 0;
    let mut x507: u32 = 0;
    fp_mulx_u32(&mut x506, &mut x507, x494, 0xf5138f);
    let mut x508: u32 = 0;
    let mut x509: u32 = 0;
    fp_mulx_u32(&mut x508, &mut x509, x494, 0x1ef3622f);
    let mut x510: u32 = 0;
    let mut x511: u32 = 0;
    fp_mulx_u32(&mut x510, &mut x511, x494, 0xba094800);
    let mut x512: u32 = 0;
    let mut x513: u32 = 0;
    fp_mulx_u32(&mut x512, &mut x513, x494, 0x170b5d44);
    let mut x514: u32 = 0;
    let mut x515: u32 = 0;
    fp_mulx_u32(&mut x514, &mut x515, x494, 0x30000000);
    let mut x516: u32 = 0;
    let mut x517: u32 = 0;
    fp_mulx_u32(&mut x516, &mut x517, x494, 0x8508c000);
    let mut x518: u32 = 0;
    let mut x519: FpU1 = 0;
    fp_addcarryx_u32(&mut x518, &mut x519, 0x0, x517, x514);
    let mut x520: u32 = 0;
    let mut x521: FpU1 = 0;
    fp_addcarryx_u32(&mut x520, &mut x521, x519, x515, x512);
    let mut x522: u32 = 0;
    let mut x523: FpU1 = 0;
    fp_addcarryx_u32(&mut x522, &mut x523, x521, x513, x510);
    let mut x524: u32 = 0;
    let mut x525: FpU1 = 0;
    fp_addcarryx_u32(&mut x524, &mut x525, x523, x511, x508);
    let mut x526: u32 = 0;
    let mut x527: FpU1 = 0;
    fp_addcarryx_u32(&mut x526, &mut x527, x525, x509, x506);
    let mut x528: u32 = 0;
    let mut x529: FpU1 = 0;
    fp_addcarryx_u32(&mut x528, &mut x529, x527, x507, x504);
    let mut x530: u32 = 0;
    let mut x531: FpU1 = 0;
    fp_addcarryx_u32(&mut x530, &mut x531, x529, x505, x502);
    let mut x532: u32 = 0;
    let mut x533: FpU1 = 0;
    fp_addcarryx_u32(&mut x532, &mut x533, x531, x503, x500);
    let mut x534: u32 = 0;
    let mut x535: FpU1 = 0;
    fp_addcarryx_u32(&mut x534, &mut x535, x533, x501, x498);
    let mut x536: u32 = 0;
    let mut x537: FpU1 = 0;
    fp_addcarryx_u32(&mut x536, &mut x537, x535, x499, x496);
    let x538: u32 = ((x537 as u32) + x497);
    let mut x539: u32 = 0;
    let mut x540: FpU1 = 0;
    fp_addcarryx_u32(&mut x539, &mut x540, 0x0, x468, x494);
    let mut x541: u32 = 0;
    let mut x542: FpU1 = 0;
    fp_addcarryx_u32(&mut x541, &mut x542, x540, x470, x516);
    let mut x543: u32 = 0;
    let mut x544: FpU1 = 0;
    fp_addcarryx_u32(&mut x543, &mut x544, x542, x472, x518);
    let mut x545: u32 = 0;
    let mut x546: FpU1 = 0;
    fp_addcarryx_u32(&mut x545, &mut x546, x544, x474, x520);
    let mut x547: u32 = 0;
    let mut x548: FpU1 = 0;
    fp_addcarryx_u32(&mut x547, &mut x548, x546, x476, x522);
    let mut x549: u32 = 0;
    let mut x550: FpU1 = 0;
    fp_addcarryx_u32(&mut x549, &mut x550, x548, x478, x524);
    let mut x551: u32 = 0;
    let mut x552: FpU1 = 0;
    fp_addcarryx_u32(&mut x551, &mut x552, x550, x480, x526);
    let mut x553: u32 = 0;
    let mut x554: FpU1 = 0;
    fp_addcarryx_u32(&mut x553, &mut x554, x552, x482, x528);
    let mut x555: u32 = 0;
    let mut x556: FpU1 = 0;
    fp_addcarryx_u32(&mut x555, &mut x556, x554, x484, x530);
    let mut x557: u32 = 0;
    let mut x558: FpU1 = 0;
    fp_addcarryx_u32(&mut x557, &mut x558, x556, x486, x532);
    let mut x559: u32 = 0;
    let mut x560: FpU1 = 0;
    fp_addcarryx_u32(&mut x559, &mut x560, x558, x488, x534);
    let mut x561: u32 = 0;
    let mut x562: FpU1 = 0;
    fp_addcarryx_u32(&mut x561, &mut x562, x560, x490, x536);
    let mut x563: u32 = 0;
    let mut x564: FpU1 = 0;
    fp_addcarryx_u32(&mut x563, &mut x564, x562, x492, x538);
    let x565: u32 = ((x564 as u32) + (x493 as u32));
    let mut x566: u32 = 0;
    let mut x567: u32 = 0;
    fp_mulx_u32(&mut x566, &mut x567, x4, (arg2[11]));
    let mut x568: u32 = 0;
    let mut x569: u32 = 0;
    fp_mulx_u32(&mut x568, &mut x569, x4, (arg2[10]));
    let mut x570: u32 = 0;
    let mut x571: u32 = 0;
    fp_mulx_u32(&mut x570, &mut x571, x4, (arg2[9]));
    let mut x572: u32 = 0;
    let mut x573: u32 = 0;
    fp_mulx_u32(&mut x572, &mut x573, x4, (arg2[8]));
    let mut x574: u32 = 0;
    let mut x575: u32 = 0;
    fp_mulx_u32(&mut x574, &mut x575, x4, (arg2[7]));
    let mut x576: u32 = 0;
    let mut x577: u32 = 0;
    fp_mulx_u32(&mut x576, &mut x577, x4, (arg2[6]));
    let mut x578: u32 = 0;
    let mut x579: u32 = 0;
    fp_mulx_u32(&mut x578, &mut x579, x4, (arg2[5]));
    let mut x580: u32 = 0;
    let mut x581: u32 = 0;
    fp_mulx_u32(&mut x580, &mut x581, x4, (arg2[4]));
    let mut x582: u32 = 0;
    let mut x583: u32 = 0;
    fp_mulx_u32(&mut x582, &mut x583, x4, (arg2[3]));
    let mut x584: u32 = 0;
    let mut x585: u32 = 0;
    fp_mulx_u32(&mut x584, &mut x585, x4, (arg2[2]));
    let mut x586: u32 = 0;
    let mut x587: u32 = 0;
    fp_mulx_u32(&mut x586, &mut x587, x4, (arg2[1]));
    let mut x588: u32 = 0;
    let mut x589: u32 = 0;
    fp_mulx_u32(&mut x588, &mut x589, x4, (arg2[0]));
    let mut x590: u32 = 0;
    let mut x591: FpU1 = 0;
    fp_addcarryx_u32(&mut x590, &mut x591, 0x0, x589, x586);
    let mut x592: u32 = 0;
    let mut x593: FpU1 = 0;
    fp_addcarryx_u32(&mut x592, &mut x593, x591, x587, x584);
    let mut x594: u32 = 0;
    let mut x595: FpU1 = 0;
    fp_addcarryx_u32(&mut x594, &mut x595, x593, x585, x582);
    let mut x596: u32 = 0;
    let mut x597: FpU1 = 0;
    fp_addcarryx_u32(&mut x596, &mut x597, x595, x583, x580);
    let mut x598: u32 = 0;
    let mut x599: FpU1 = 0;
    fp_addcarryx_u32(&mut x598, &mut x599, x597, x581, x578);
    let mut x600: u32 = 0;
    let mut x601: FpU1 = 0;
    fp_addcarryx_u32(&mut x600, &mut x601, x599, x579, x576);
    let mut x602: u32 = 0;
    let mut x603: FpU1 = 0;
    fp_addcarryx_u32(&mut x602, &mut x603, x601, x577, x574);
    let mut x604: u32 = 0;
    let mut x605: FpU1 = 0;
    fp_addcarryx_u32(&mut x604, &mut x605, x603, x575, x572);
    let mut x606: u32 = 0;
    let mut x607: FpU1 = 0;
    fp_addcarryx_u32(&mut x606, &mut x607, x605, x573, x570);
    let mut x608: u32 = 0;
    let mut x609: FpU1 = 0;
    fp_addcarryx_u32(&mut x608, &mut x609, x607, x571, x568);
    let mut x610: u32 = 0;
    let mut x611: FpU1 = 0;
    fp_addcarryx_u32(&mut x610, &mut x611, x609, x569, x566);
    let x612: u32 = ((x611 as u32) + x567);
    let mut x613: u32 = 0;
    let mut x614: FpU1 = 0;
    fp_addcarryx_u32(&mut x613, &mut x614, 0x0, x541, x588);
    let mut x615: u32 = 0;
    let mut x616: FpU1 = 0;
    fp_addcarryx_u32(&mut x615, &mut x616, x614, x543, x590);
    let mut x617: u32 = 0;
    let mut x618: FpU1 = 0;
    fp_addcarryx_u32(&mut x617, &mut x618, x616, x545, x592);
    let mut x619: u32 = 0;
    let mut x620: FpU1 = 0;
    fp_addcarryx_u32(&mut x619, &mut x620, x618, x547, x594);
    let mut x621: u32 = 0;
    let mut x622: FpU1 = 0;
    fp_addcarryx_u32(&mut x621, &mut x622, x620, x549, x596);
    let mut x623: u32 = 0;
    let mut x624: FpU1 = 0;
    fp_addcarryx_u32(&mut x623, &mut x624, x622, x551, x598);
    let mut x625: u32 = 0;
    let mut x626: FpU1 = 0;
    fp_addcarryx_u32(&mut x625, &mut x626, x624, x553, x600);
    let mut x627: u32 = 0;
    let mut x628: FpU1 = 0;
    fp_addcarryx_u32(&mut x627, &mut x628, x626, x555, x602);
    let mut x629: u32 = 0;
    let mut x630: FpU1 = 0;
    fp_addcarryx_u32(&mut x629, &mut x630, x628, x557, x604);
    let mut x631: u32 = 0;
    let mut x632: FpU1 = 0;
    fp_addcarryx_u32(&mut x631, &mut x632, x630, x559, x606);
    let mut x633: u32 = 0;
    let mut x634: FpU1 = 0;
    fp_addcarryx_u32(&mut x633, &mut x634, x632, x561, x608);
    let mut x635: u32 = 0;
    let mut x636: FpU1 = 0;
    fp_addcarryx_u32(&mut x635, &mut x636, x634, x563, x610);
    let mut x637: u32 = 0;
    let mut x638: FpU1 = 0;
    fp_addcarryx_u32(&mut x637, &mut x638, x636, x565, x612);
    let mut x639: u32 = 0;
    let mut x640: u32 = 0;
    fp_mulx_u32(&mut x639, &mut x640, x613, 0xffffffff);
    let mut x641: u32 = 0;
    let mut x642: u32 = 0;
    fp_mulx_u32(&mut x641, &mut x642, x639, 0x1ae3a46);
    let mut x643: u32 = 0;
    let mut x644: u32 = 0;
    fp_mulx_u32(&mut x643, &mut x644, x639, 0x17c510ea);
    let mut x645: u32 = 0;
    let mut x646: u32 = 0;
    fp_mulx_u32(&mut x645, &mut x646, x639, 0xc63b05c0);
    let mut x647: u32 = 0;
    let mut x648: u32 = 0;
    fp_mulx_u32(&mut x647, &mut x648, x639, 0x6ca1493b);
    let mut x649: u32 = 0;
    let mut x650: u32 = 0;
    fp_mulx_u32(&mut x649, &mut x650, x639, 0x1a22d9f3);
    let mut x651: u32 = 0;
    let mut x652: u32 = 0;
    fp_mulx_u32(&mut x651, &mut x652, x639, 0xf5138f);
    let mut x653: u32 = 0;
    let mut x654: u32 = 0;
    fp_mulx_u32(&mut x653, &mut x654, x639, 0x1ef3622f);
    let mut x655: u32 = 0;
    let mut x656: u32 = 0;
    fp_mulx_u32(&mut x655, &mut x656, x639, 0xba094800);
    let mut x657: u32 = 0;
    let mut x658: u32 = 0;
    fp_mulx_u32(&mut x657, &mut x658, x639, 0x170b5d44);
    let mut x659: u32 = 0;
    let mut x660: u32 = 0;
    fp_mulx_u32(&mut x659, &mut x660, x639, 0x30000000);
    let mut x661: u32 = 0;
    let mut x662: u32 = 0;
    fp_mulx_u32(&mut x661, &mut x662, x639, 0x8508c000);
    let mut x663: u32 = 0;
    let mut x664: FpU1 = 0;
    fp_addcarryx_u32(&mut x663, &mut x664, 0x0, x662, x659);
    let mut x665: u32 = 0;
    let mut x666: FpU1 = 0;
    fp_addcarryx_u32(&mut x665, &mut x666, x664, x660, x657);
    let mut x667: u32 = 0;
    let mut x668: FpU1 = 0;
    fp_addcarryx_u32(&mut x667, &mut x668, x666, x658, x655);
    let mut x669: u32 = 0;
    let mut x670: FpU1 = 0;
    fp_addcarryx_u32(&mut x669, &mut x670, x668, x656, x653);
    let mut x671: u32 = 0;
    let mut x672: FpU1 = 0;
    fp_addcarryx_u32(&mut x671, &mut x672, x670, x654, x651);
    let mut x673: u32 = 0;
    let mut x674: FpU1 = 0;
    fp_addcarryx_u32(&mut x673, &mut x674, x672, x652, x649);
    let mut x675: u32 = 0;
    let mut x676: FpU1 = 0;
    fp_addcarryx_u32(&mut x675, &mut x676, x674, x650, x647);
    let mut x677: u32 = 0;
    let mut x678: FpU1 = 0;
    fp_addcarryx_u32(&mut x677, &mut x678, x676, x648, x645);
    let mut x679: u32 = 0;
    let mut x680: FpU1 = 0;
    fp_addcarryx_u32(&mut x679, &mut x680, x678, x646, x643);
    let mut x681: u32 = 0;
    let mut x682: FpU1 = 0;
    fp_addcarryx_u32(&mut x681, &mut x682, x680, x644, x641);
    let x683: u32 = ((x682 as u32) + x642);
    let mut x684: u32 = 0;
    let mut x685: FpU1 = 0;
    fp_addcarryx_u32(&mut x684, &mut x685, 0x0, x613, x639);
    let mut x686: u32 = 0;
    let mut x687: FpU1 = 0;
    fp_addcarryx_u32(&mut x686, &mut x687, x685, x615, x661);
    let mut x688: u32 = 0;
    let mut x689: FpU1 = 0;
    fp_addcarryx_u32(&mut x688, &mut x689, x687, x617, x663);
    let mut x690: u32 = 0;
    let mut x691: FpU1 = 0;
    fp_addcarryx_u32(&mut x690, &mut x691, x689, x619, x665);
    let mut x692: u32 = 0;
    let mut x693: FpU1 = 0;
    fp_addcarryx_u32(&mut x692, &mut x693, x691, x621, x667);
    let mut x694: u32 = 0;
    let mut x695: FpU1 = 0;
    fp_addcarryx_u32(&mut x694, &mut x695, x693, x623, x669);
    let mut x696: u32 = 0;
    let mut x697: FpU1 = 0;
    fp_addcarryx_u32(&mut x696, &mut x697, x695, x625, x671);
    let mut x698: u32 = 0;
    let mut x699: FpU1 = 0;
    fp_addcarryx_u32(&mut x698, &mut x699, x697, x627, x673);
    let mut x700: u32 = 0;
    let mut x701: FpU1 = 0;
    fp_addcarryx_u32(&mut x700, &mut x701, x699, x629, x675);
    let mut x702: u32 = 0;
    let mut x703: FpU1 = 0;
    fp_addcarryx_u32(&mut x702, &mut x703, x701, x631, x677);
    let mut x704: u32 = 0;
    let mut x705: FpU1 = 0;
    fp_addcarryx_u32(&mut x704, &mut x705, x703, x633, x679);
    let mut x706: u32 = 0;
    let mut x707: FpU1 = 0;
    fp_addcarryx_u32(&mut x706, &mut x707, x705, x635, x681);
    let mut x708: u32 = 0;
    let mut x709: FpU1 = 0;
    fp_addcarryx_u32(&mut x708, &mut x709, x707, x637, x683);
    let x710: u32 = ((x709 as u32) + (x638 as u32));
    let mut x711: u32 = 0;
    let mut x712: u32 = 0;
    fp_mulx_u32(&mut x711, &mut x712, x5, (arg2[11]));
    let mut x713: u32 = 0;
    let mut x714: u32 = 0;
    fp_mulx_u32(&mut x713, &mut x714, x5, (arg2[10]));
    let mut x715: u32 = 0;
    let mut x716: u32 = 0;
    fp_mulx_u32(&mut x715, &mut x716, x5, (arg2[9]));
    let mut x717: u32 = 0;
    let mut x718: u32 = 0;
    fp_mulx_u32(&mut x717, &mut x718, x5, (arg2[8]));
    let mut x719: u32 = 0;
    let mut x720: u32 = 0;
    fp_mulx_u32(&mut x719, &mut x720, x5, (arg2[7]));
    let mut x721: u32 = 0;
    let mut x722: u32 = 0;
    fp_mulx_u32(&mut x721, &mut x722, x5, (arg2[6]));
    let mut x723: u32 = 0;
    let mut x724: u32 = 0;
    fp_mulx_u32(&mut x723, &mut x724, x5, (arg2[5]));
    let mut x725: u32 = 0;
    let mut x726: u32 = 0;
    fp_mulx_u32(&mut x725, &mut x726, x5, (arg2[4]));
    let mut x727: u32 = 0;
    let mut x728: u32 = 0;
    fp_mulx_u32(&mut x727, &mut x728, x5, (arg2[3]));
    let mut x729: u32 = 0;
    let mut x730: u32 = 0;
    fp_mulx_u32(&mut x729, &mut x730, x5, (arg2[2]));
    let mut x731: u32 = 0;
    let mut x732: u32 = 0;
    fp_mulx_u32(&mut x731, &mut x732, x5, (arg2[1]));
    let mut x733: u32 = 0;
    let mut x734: u32 = 0;
    fp_mulx_u32(&mut x733, &mut x734, x5, (arg2[0]));
    let mut x735: u32 = 0;
    let mut x736: FpU1 = 0;
    fp_addcarryx_u32(&mut x735, &mut x736, 0x0, x734, x731);
    let mut x737: u32 = 0;
    let mut x738: FpU1 = 0;
    fp_addcarryx_u32(&mut x737, &mut x738, x736, x732, x729);
    let mut x739: u32 = 0;
    let mut x740: FpU1 = 0;
    fp_addcarryx_u32(&mut x739, &mut x740, x738, x730, x727);
    let mut x741: u32 = 0;
    let mut x742: FpU1 = 0;
    fp_addcarryx_u32(&mut x741, &mut x742, x740, x728, x725);
    let mut x743: u32 = 0;
    let mut x744: FpU1 = 0;
    fp_addcarryx_u32(&mut x743, &mut x744, x742, x726, x723);
    let mut x745: u32 = 0;
    let mut x746: FpU1 = 0;
    fp_addcarryx_u32(&mut x745, &mut x746, x744, x724, x721);
    let mut x747: u32 = 0;
    let mut x748: FpU1 = 0;
    fp_addcarryx_u32(&mut x747, &mut x748, x746, x722, x719);
    let mut x749: u32 = 0;
    let mut x750: FpU1 = 0;
    fp_addcarryx_u32(&mut x749, &mut x750, x748, x720, x717);
    let mut x751: u32 = 0;
    let mut x752: FpU1 = 0;
    fp_addcarryx_u32(&mut x751, &mut x752, x750, x718, x715);
    let mut x753: u32 = 0;
    let mut x754: FpU1 = 0;
    fp_addcarryx_u32(&mut x753, &mut x754, x752, x716, x713);
    let mut x755: u32 = 0;
    let mut x756: FpU1 = 0;
    fp_addcarryx_u32(&mut x755, &mut x756, x754, x714, x711);
    let x757: u32 = ((x756 as u32) + x712);
    let mut x758: u32 = 0;
    let mut x759: FpU1 = 0;
    fp_addcarryx_u32(&mut x758, &mut x759, 0x0, x686, x733);
    let mut x760: u32 = 0;
    let mut x761: FpU1 = 0;
    fp_addcarryx_u32(&mut x760, &mut x761, x759, x688, x735);
    let mut x762: u32 = 0;
    let mut x763: FpU1 = 0;
    fp_addcarryx_u32(&mut x762, &mut x763, x761, x690, x737);
    let mut x764: u32 = 0;
    let mut x765: FpU1 = 0;
    fp_addcarryx_u32(&mut x764, &mut x765, x763, x692, x739);
    let mut x766: u32 = 0;
    let mut x767: FpU1 = 0;
    fp_addcarryx_u32(&mut x766, &mut x767, x765, x694, x741);
    let mut x768: u32 = 0;
    let mut x769: FpU1 = 0;
    fp_addcarryx_u32(&mut x768, &mut x769, x767, x696, x743);
    let mut x770: u32 = 0;
    let mut x771: FpU1 = 0;
    fp_addcarryx_u32(&mut x770, &mut x771, x769, x698, x745);
    let mut x772: u32 = 0;
    let mut x773: FpU1 = 0;
    fp_addcarryx_u32(&mut x772, &mut x773, x771, x700, x747);
    let mut x774: u32 = 0;
    let mut x775: FpU1 = 0;
    fp_addcarryx_u32(&mut x774, &mut x775, x773, x702, x749);
    let mut x776: u32 = 0;
    let mut x777: FpU1 = 0;
    fp_addcarryx_u32(&mut x776, &mut x777, x775, x704, x751);
    let mut x778: u32 = 0;
    let mut x779: FpU1 = 0;
    fp_addcarryx_u32(&mut x778, &mut x779, x777, x706, x753);
    let mut x780: u32 = 0;
    let mut x781: FpU1 = 0;
    fp_addcarryx_u32(&mut x780, &mut x781, x779, x708, x755);
    let mut x782: u32 = 0;
    let mut x783: FpU1 = 0;
    fp_addcarryx_u32(&mut x782, &mut x783, x781, x710, x757);
    let mut x784: u32 = 0;
    let mut x785: u32 = 0;
    fp_mulx_u32(&mut x784, &mut x785, x758, 0xffffffff);
    let mut x786: u32 = 0;
    let mut x787: u32 = 0;
    fp_mulx_u32(&mut x786, &mut x787, x784, 0x1ae3a46);
    let mut x788: u32 = 0;
    let mut x789: u32 = 0;
    fp_mulx_u32(&mut x788, &mut x789, x784, 0x17c510ea);
    let mut x790: u32 = 0;
    let mut x791: u32 = 0;
    fp_mulx_u32(&mut x790, &mut x791, x784, 0xc63b05c0);
    let mut x792: u32 = 0;
    let mut x793: u32 = 0;
    fp_mulx_u32(&mut x792, &mut x793, x784, 0x6ca1493b);
    let mut x794: u32 = 0;
    let mut x795: u32 = 0;
    fp_mulx_u32(&mut x794, &mut x795, x784, 0x1a22d9f3);
    let mut x796: u32 = 0;
    let mut x797: u32 = 0;
    fp_mulx_u32(&mut x796, &mut x797, x784, 0xf5138f);
    let mut x798: u32 = 0;
    let mut x799: u32 = 0;
    fp_mulx_u32(&mut x798, &mut x799, x784, 0x1ef3622f);
    let mut x800: u32 = 0;
    let mut x801: u32 = 0;
    fp_mulx_u32(&mut x800, &mut x801, x784, 0xba094800);
    let mut x802: u32 = 0;
    let mut x803: u32 = 0;
    fp_mulx_u32(&mut x802, &mut x803, x784, 0x170b5d44);
    let mut x804: u32 = 0;
    let mut x805: u32 = 0;
    fp_mulx_u32(&mut x804, &mut x805, x784, 0x30000000);
    let mut x806: u32 = 0;
    let mut x807: u32 = 0;
    fp_mulx_u32(&mut x806, &mut x807, x784, 0x8508c000);
    let mut x808: u32 = 0;
    let mut x809: FpU1 = 0;
    fp_addcarryx_u32(&mut x808, &mut x809, 0x0, x807, x804);
    let mut x810: u32 = 0;
    let mut x811: FpU1 = 0;
    fp_addcarryx_u32(&mut x810, &mut x811, x809, x805, x802);
    let mut x812: u32 = 0;
    let mut x813: FpU1 = 0;
    fp_addcarryx_u32(&mut x812, &mut x813, x811, x803, x800);
    let mut x814: u32 = 0;
    let mut x815: FpU1 = 0;
    fp_addcarryx_u32(&mut x814, &mut x815, x813, x801, x798);
    let mut x816: u32 = 0;
    let mut x817: FpU1 = 0;
    fp_addcarryx_u32(&mut x816, &mut x817, x815, x799, x796);
    let mut x818: u32 = 0;
    let mut x819: FpU1 = 0;
    fp_addcarryx_u32(&mut x818, &mut x819, x817, x797, x794);
    let mut x820: u32 = 0;
    let mut x821: FpU1 = 0;
    fp_addcarryx_u32(&mut x820, &mut x821, x819, x795, x792);
    let mut x822: u32 = 0;
    let mut x823: FpU1 = 0;
    fp_addcarryx_u32(&mut x822, &mut x823, x821, x793, x790);
    let mut x824: u32 = 0;
    let mut x825: FpU1 = 0;
    fp_addcarryx_u32(&mut x824, &mut x825, x823, x791, x788);
    let mut x826: u32 = 0;
    let mut x827: FpU1 = 0;
    fp_addcarryx_u32(&mut x826, &mut x827, x825, x789, x786);
    let x828: u32 = ((x827 as u32) + x787);
    let mut x829: u32 = 0;
    let mut x830: FpU1 = 0;
    fp_addcarryx_u32(&mut x829, &mut x830, 0x0, x758, x784);
    let mut x831: u32 = 0;
    let mut x832: FpU1 = 0;
    fp_addcarryx_u32(&mut x831, &mut x832, x830, x760, x806);
    let mut x833: u32 = 0;
    let mut x834: FpU1 = 0;
    fp_addcarryx_u32(&mut x833, &mut x834, x832, x762, x808);
    let mut x835: u32 = 0;
    let mut x836: FpU1 = 0;
    fp_addcarryx_u32(&mut x835, &mut x836, x834, x764, x810);
    let mut x837: u32 = 0;
    let mut x838: FpU1 = 0;
    fp_addcarryx_u32(&mut x837, &mut x838, x836, x766, x812);
    let mut x839: u32 = 0;
    let mut x840: FpU1 = 0;
    fp_addcarryx_u32(&mut x839, &mut x840, x838, x768, x814);
    let mut x841: u32 = 0;
    let mut x842: FpU1 = 0;
    fp_addcarryx_u32(&mut x841, &mut x842, x840, x770, x816);
    let mut x843: u32 = 0;
    let mut x844: FpU1 = 0;
    fp_addcarryx_u32(&mut x843, &mut x844, x842, x772, x818);
    let mut x845: u32 = 0;
    let mut x846: FpU1 = 0;
    fp_addcarryx_u32(&mut x845, &mut x846, x844, x774, x820);
    let mut x847: u32 = 0;
    let mut x848: FpU1 = 0;
    fp_addcarryx_u32(&mut x847, &mut x848, x846, x776, x822);
    let mut x849: u32 = 0;
    let mut x850: FpU1 = 0;
    fp_addcarryx_u32(&mut x849, &mut x850, x848, x778, x824);
    let mut x851: u32 = 0;
    let mut x852: FpU1 = 0;
    fp_addcarryx_u32(&mut x851, &mut x852, x850, x780, x826);
    let mut x853: u32 = 0;
    let mut x854: FpU1 = 0;
    fp_addcarryx_u32(&mut x853, &mut x854, x852, x782, x828);
    let x855: u32 = ((x854 as u32) + (x783 as u32));
    let mut x856: u32 = 0;
    let mut x857: u32 = 0;
    fp_mulx_u32(&mut x856, &mut x857, x6, (arg2[11]));
    let mut x858: u32 = 0;
    let mut x859: u32 = 0;
    fp_mulx_u32(&mut x858, &mut x859, x6, (arg2[10]));
    let mut x860: u32 = 0;
    let mut x861: u32 = 0;
    fp_mulx_u32(&mut x860, &mut x861, x6, (arg2[9]));
    let mut x862: u32 = 0;
    let mut x863: u32 = 0;
    fp_mulx_u32(&mut x862, &mut x863, x6, (arg2[8]));
    let mut x864: u32 = 0;
    let mut x865: u32 = 0;
    fp_mulx_u32(&mut x864, &mut x865, x6, (arg2[7]));
    let mut x866: u32 = 0;
    let mut x867: u32 = 0;
    fp_mulx_u32(&mut x866, &mut x867, x6, (arg2[6]));
    let mut x868: u32 = 0;
    let mut x869: u32 = 0;
    fp_mulx_u32(&mut x868, &mut x869, x6, (arg2[5]));
    let mut x870: u32 = 0;
    let mut x871: u32 = 0;
    fp_mulx_u32(&mut x870, &mut x871, x6, (arg2[4]));
    let mut x872: u32 = 0;
    let mut x873: u32 = 0;
    fp_mulx_u32(&mut x872, &mut x873, x6, (arg2[3]));
    let mut x874: u32 = 0;
    let mut x875: u32 = 0;
    fp_mulx_u32(&mut x874, &mut x875, x6, (arg2[2]));
    let mut x876: u32 = 0;
    let mut x877: u32 = 0;
    fp_mulx_u32(&mut x876, &mut x877, x6, (arg2[1]));
    let mut x878: u32 = 0;
    let mut x879: u32 = 0;
    fp_mulx_u32(&mut x878, &mut x879, x6, (arg2[0]));
    let mut x880: u32 = 0;
    let mut x881: FpU1 = 0;
    fp_addcarryx_u32(&mut x880, &mut x881, 0x0, x879, x876);
    let mut x882: u32 = 0;
    let mut x883: FpU1 = 0;
    fp_addcarryx_u32(&mut x882, &mut x883, x881, x877, x874);
    let mut x884: u32 = 0;
    let mut x885: FpU1 = 0;
    fp_addcarryx_u32(&mut x884, &mut x885, x883, x875, x872);
    let mut x886: u32 = 0;
    let mut x887: FpU1 = 0;
    fp_addcarryx_u32(&mut x886, &mut x887, x885, x873, x870);
    let mut x888: u32 = 0;
    let mut x889: FpU1 = 0;
    fp_addcarryx_u32(&mut x888, &mut x889, x887, x871, x868);
    let mut x890: u32 = 0;
    let mut x891: FpU1 = 0;
    fp_addcarryx_u32(&mut x890, &mut x891, x889, x869, x866);
    let mut x892: u32 = 0;
    let mut x893: FpU1 = 0;
    fp_addcarryx_u32(&mut x892, &mut x893, x891, x867, x864);
    let mut x894: u32 = 0;
    let mut x895: FpU1 = 0;
    fp_addcarryx_u32(&mut x894, &mut x895, x893, x865, x862);
    let mut x896: u32 = 0;
    let mut x897: FpU1 = 0;
    fp_addcarryx_u32(&mut x896, &mut x897, x895, x863, x860);
    let mut x898: u32 = 0;
    let mut x899: FpU1 = 0;
    fp_addcarryx_u32(&mut x898, &mut x899, x897, x861, x858);
    let mut x900: u32 = 0;
    let mut x901: FpU1 = 0;
    fp_addcarryx_u32(&mut x900, &mut x901, x899, x859, x856);
    let x902: u32 = ((x901 as u32) + x857);
    let mut x903: u32 = 0;
    let mut x904: FpU1 = 0;
    fp_addcarryx_u32(&mut x903, &mut x904, 0x0, x831, x878);
    let mut x905: u32 = 0;
    let mut x906: FpU1 = 0;
    fp_addcarryx_u32(&mut x905, &mut x906, x904, x833, x880);
    let mut x907: u32 = 0;
    let mut x908: FpU1 = 0;
    fp_addcarryx_u32(&mut x907, &mut x908, x906, x835, x882);
    let mut x909: u32 = 0;
    let mut x910: FpU1 = 0;
    fp_addcarryx_u32(&mut x909, &mut x910, x908, x837, x884);
    let mut x911: u32 = 0;
    let mut x912: FpU1 = 0;
    fp_addcarryx_u32(&mut x911, &mut x912, x910, x839, x886);
    let mut x913: u32 = 0;
    let mut x914: FpU1 = 0;
    fp_addcarryx_u32(&mut x913, &mut x914, x912, x841, x888);
    let mut x915: u32 = 0;
    let mut x916: FpU1 = 0;
    fp_addcarryx_u32(&mut x915, &mut x916, x914, x843, x890);
    let mut x917: u32 = 0;
    let mut x918: FpU1 = 0;
    fp_addcarryx_u32(&mut x917, &mut x918, x916, x845, x892);
    let mut x919: u32 = 0;
    let mut x920: FpU1 = 0;
    fp_addcarryx_u32(&mut x919, &mut x920, x918, x847, x894);
    let mut x921: u32 = 0;
    let mut x922: FpU1 = 0;
    fp_addcarryx_u32(&mut x921, &mut x922, x920, x849, x896);
    let mut x923: u32 = 0;
    let mut x924: FpU1 = 0;
    fp_addcarryx_u32(&mut x923, &mut x924, x922, x851, x898);
    let mut x925: u32 = 0;
    let mut x926: FpU1 = 0;
    fp_addcarryx_u32(&mut x925, &mut x926, x924, x853, x900);
    let mut x927: u32 = 0;
    let mut x928: FpU1 = 0;
    fp_addcarryx_u32(&mut x927, &mut x928, x926, x855, x902);
    let mut x929: u32 = 0;
    let mut x930: u32 = 0;
    fp_mulx_u32(&mut x929, &mut x930, x903, 0xffffffff);
    let mut x931: u32 = 0;
    let mut x932: u32 = 0;
    fp_mulx_u32(&mut x931, &mut x932, x929, 0x1ae3a46);
    let mut x933: u32 = 0;
    let mut x934: u32 = 0;
    fp_mulx_u32(&mut x933, &mut x934, x929, 0x17c510ea);
    let mut x935: u32 = 0;
    let mut x936: u32 = 0;
    fp_mulx_u32(&mut x935, &mut x936, x929, 0xc63b05c0);
    let mut x937: u32 = 0;
    let mut x938: u32 = 0;
    fp_mulx_u32(&mut x937, &mut x938, x929, 0x6ca1493b);
    let mut x939: u32 = 0;
    let mut x940: u32 = 0;
    fp_mulx_u32(&mut x939, &mut x940, x929, 0x1a22d9f3);
    let mut x941: u32 = 0;
    let mut x942: u32 = 0;
    fp_mulx_u32(&mut x941, &mut x942, x929, 0xf5138f);
    let mut x943: u32 = 0;
    let mut x944: u32 = 0;
    fp_mulx_u32(&mut x943, &mut x944, x929, 0x1ef3622f);
    let mut x945: u32 = 0;
    let mut x946: u32 = 0;
    fp_mulx_u32(&mut x945, &mut x946, x929, 0xba094800);
    let mut x947: u32 = 0;
    let mut x948: u32 = 0;
    fp_mulx_u32(&mut x947, &mut x948, x929, 0x170b5d44);
    let mut x949: u32 = 0;
    let mut x950: u32 = 0;
    fp_mulx_u32(&mut x949, &mut x950, x929, 0x30000000);
    let mut x951: u32 = 0;
    let mut x952: u32 = 0;
    fp_mulx_u32(&mut x951, &mut x952, x929, 0x8508c000);
    let mut x953: u32 = 0;
    let mut x954: FpU1 = 0;
    fp_addcarryx_u32(&mut x953, &mut x954, 0x0, x952, x949);
    let mut x955: u32 = 0;
    let mut x956: FpU1 = 0;
    fp_addcarryx_u32(&mut x955, &mut x956, x954, x950, x947);
    let mut x957: u32 = 0;
    let mut x958: FpU1 = 0;
    fp_addcarryx_u32(&mut x957, &mut x958, x956, x948, x945);
    let mut x959: u32 = 0;
    let mut x960: FpU1 = 0;
    fp_addcarryx_u32(&mut x959, &mut x960, x958, x946, x943);
    let mut x961: u32 = 0;
    let mut x962: FpU1 = 0;
    fp_addcarryx_u32(&mut x961, &mut x962, x960, x944, x941);
    let mut x963: u32 = 0;
    let mut x964: FpU1 = 0;
    fp_addcarryx_u32(&mut x963, &mut x964, x962, x942, x939);
    let mut x965: u32 = 0;
    let mut x966: FpU1 = 0;
    fp_addcarryx_u32(&mut x965, &mut x966, x964, x940, x937);
    let mut x967: u32 = 0;
    let mut x968: FpU1 = 0;
    fp_addcarryx_u32(&mut x967, &mut x968, x966, x938, x935);
    let mut x969: u32 = 0;
    let mut x970: FpU1 = 0;
    fp_addcarryx_u32(&mut x969, &mut x970, x968, x936, x933);
    let mut x971: u32 = 0;
    let mut x972: FpU1 = 0;
    fp_addcarryx_u32(&mut x971, &mut x972, x970, x934, x931);
    let x973: u32 = ((x972 as u32) + x932);
    let mut x974: u32 = 0;
    let mut x975: FpU1 = 0;
    fp_addcarryx_u32(&mut x974, &mut x975, 0x0, x903, x929);
    let mut x976: u32 = 0;
    let mut x977: FpU1 = 0;
    fp_addcarryx_u32(&mut x976, &mut x977, x975, x905, x951);
    let mut x978: u32 = 0;
    let mut x979: FpU1 = 0;
    fp_addcarryx_u32(&mut x978, &mut x979, x977, x907, x953);
    let mut x980: u32 = 0;
    let mut x981: FpU1 = 0;
    fp_addcarryx_u32(&mut x980, &mut x981, x979, x909, x955);
    let mut x982: u32 = 0;
    let mut x983: FpU1 = 0;
    fp_addcarryx_u32(&mut x982, &mut x983, x981, x911, x957);
    let mut x984: u32 = 0;
    let mut x985: FpU1 = 0;
    fp_addcarryx_u32(&mut x984, &mut x985, x983, x913, x959);
    let mut x986: u32 = 0;
    let mut x987: FpU1 = 0;
    fp_addcarryx_u32(&mut x986, &mut x987, x985, x915, x961);
    let mut x988: u32 = 0;
    let mut x989: FpU1 = 0;
    fp_addcarryx_u32(&mut x988, &mut x989, x987, x917, x963);
    let mut x990: u32 = 0;
    let mut x991: FpU1 = 0;
    fp_addcarryx_u32(&mut x990, &mut x991, x989, x919, x965);
    let mut x992: u32 = 0;
    let mut x993: FpU1 = 0;
    fp_addcarryx_u32(&mut x992, &mut x993, x991, x921, x967);
    let mut x994: u32 = 0;
    let mut x995: FpU1 = 0;
    fp_addcarryx_u32(&mut x994, &mut x995, x993, x923, x969);
    let mut x996: u32 = 0;
    let mut x997: FpU1 = 0;
    fp_addcarryx_u32(&mut x996, &mut x997, x995, x925, x971);
    let mut x998: u32 = 0;
    let mut x999: FpU1 = 0;
    fp_addcarryx_u32(&mut x998, &mut x999, x997, x927, x973);
    let x1000: u32 = ((x999 as u32) + (x928 as u32));
    let mut x1001: u32 = 0;
    let mut x1002: u32 = 0;
    fp_mulx_u32(&mut x1001, &mut x1002, x7, (arg2[11]));
    let mut x1003: u32 = 0;
    let mut x1004: u32 = 0;
    fp_mulx_u32(&mut x1003, &mut x1004, x7, (arg2[10]));
    let mut x1005: u32 = 0;
    let mut x1006: u32 = 0;
    fp_mulx_u32(&mut x1005, &mut x1006, x7, (arg2[9]));
    let mut x1007: u32 = 0;
    let mut x1008: u32 = 0;
    fp_mulx_u32(&mut x1007, &mut x1008, x7, (arg2[8]));
    let mut x1009: u32 = 0;
    let mut x1010: u32 = 0;
    fp_mulx_u32(&mut x1009, &mut x1010, x7, (arg2[7]));
    let mut x1011: u32 = 0;
    let mut x1012: u32 = 0;
    fp_mulx_u32(&mut x1011, &mut x1012, x7, (arg2[6]));
    let mut x1013: u32 = 0;
    let mut x1014: u32 = 0;
    fp_mulx_u32(&mut x1013, &mut x1014, x7, (arg2[5]));
    let mut x1015: u32 = 0;
    let mut x1016: u32 = 0;
    fp_mulx_u32(&mut x1015, &mut x1016, x7, (arg2[4]));
    let mut x1017: u32 = 0;
    let mut x1018: u32 = 0;
    fp_mulx_u32(&mut x1017, &mut x1018, x7, (arg2[3]));
    let mut x1019: u32 = 0;
    let mut x1020: u32 = 0;
    fp_mulx_u32(&mut x1019, &mut x1020, x7, (arg2[2]));
    let mut x1021: u32 = 0;
    let mut x1022: u32 = 0;
    fp_mulx_u32(&mut x1021, &mut x1022, x7, (arg2[1]));
    let mut x1023: u32 = 0;
    let mut x1024: u32 = 0;
    fp_mulx_u32(&mut x1023, &mut x1024, x7, (arg2[0]));
    let mut x1025: u32 = 0;
    let mut x1026: FpU1 = 0;
    fp_addcarryx_u32(&mut x1025, &mut x1026, 0x0, x1024, x1021);
    let mut x1027: u32 = 0;
    let mut x1028: FpU1 = 0;
    fp_addcarryx_u32(&mut x1027, &mut x1028, x1026, x1022, x1019);
    let mut x1029: u32 = 0;
    let mut x1030: FpU1 = 0;
    fp_addcarryx_u32(&mut x1029, &mut x1030, x1028, x1020, x1017);
    let mut x1031: u32 = 0;
    let mut x1032: FpU1 = 0;
    fp_addcarryx_u32(&mut x1031, &mut x1032, x1030, x1018, x1015);
    let mut x1033: u32 = 0;
    let mut x1034: FpU1 = 0;
    fp_addcarryx_u32(&mut x1033, &mut x1034, x1032, x1016, x1013);
    let mut x1035: u32 = 0;
    let mut x1036: FpU1 = 0;
    fp_addcarryx_u32(&mut x1035, &mut x1036, x1034, x1014, x1011);
    let mut x1037: u32 = 0;
    let mut x1038: FpU1 = 0;
    fp_addcarryx_u32(&mut x1037, &mut x1038, x1036, x1012, x1009);
    let mut x1039: u32 = 0;
    let mut x1040: FpU1 = 0;
    fp_addcarryx_u32(&mut x1039, &mut x1040, x1038, x1010, x1007);
    let mut x1041: u32 = 0;
    let mut x1042: FpU1 = 0;
    fp_addcarryx_u32(&mut x1041, &mut x1042, x1040, x1008, x1005);
    let mut x1043: u32 = 0;
    let mut x1044: FpU1 = 0;
    fp_addcarryx_u32(&mut x1043, &mut x1044, x1042, x1006, x1003);
    let mut x1045: u32 = 0;
    let mut x1046: FpU1 = 0;
    fp_addcarryx_u32(&mut x1045, &mut x1046, x1044, x1004, x1001);
    let x1047: u32 = ((x1046 as u32) + x1002);
    let mut x1048: u32 = 0;
    let mut x1049: FpU1 = 0;
    fp_addcarryx_u32(&mut x1048, &mut x1049, 0x0, x976, x1023);
    let mut x1050: u32 = 0;
    let mut x1051: FpU1 = 0;
    fp_addcarryx_u32(&mut x1050, &mut x1051, x1049, x978, x1025);
    let mut x1052: u32 = 0;
    let mut x1053: FpU1 = 0;
    fp_addcarryx_u32(&mut x1052, &mut x1053, x1051, x980, x1027);
    let mut x1054: u32 = 0;
    let mut x1055: FpU1 = 0;
    fp_addcarryx_u32(&mut x1054, &mut x1055, x1053, x982, x1029);
    let mut x1056: u32 = 0;
    let mut x1057: FpU1 = 0;
    fp_addcarryx_u32(&mut x1056, &mut x1057, x1055, x984, x1031);
    let mut x1058: u32 = 0;
    let mut x1059: FpU1 = 0;
    fp_addcarryx_u32(&mut x1058, &mut x1059, x1057, x986, x1033);
    let mut x1060: u32 = 0;
    let mut x1061: FpU1 = 0;
    fp_addcarryx_u32(&mut x1060, &mut x1061, x1059, x988, x1035);
    let mut x1062: u32 = 0;
    let mut x1063: FpU1 = 0;
    fp_addcarryx_u32(&mut x1062, &mut x1063, x1061, x990, x1037);
    let mut x1064: u32 = 0;
    let mut x1065: FpU1 = 0;
    fp_addcarryx_u32(&mut x1064, &mut x1065, x1063, x992, x1039);
    let mut x1066: u32 = 0;
    let mut x1067: FpU1 = 0;
    fp_addcarryx_u32(&mut x1066, &mut x1067, x1065, x994, x1041);
    let mut x1068: u32 = 0;
    let mut x1069: FpU1 = 0;
    fp_addcarryx_u32(&mut x1068, &mut x1069, x1067, x996, x1043);
    let mut x1070: u32 = 0;
    let mut x1071: FpU1 = 0;
    fp_addcarryx_u32(&mut x1070, &mut x1071, x1069, x998, x1045);
    let mut x1072: u32 = 0;
    let mut x1073: FpU1 = 0;
    fp_addcarryx_u32(&mut x1072, &mut x1073, x1071, x1000, x1047);
    let mut x1074: u32 = 0;
    let mut x1075: u32 = 0;
    fp_mulx_u32(&mut x1074, &mut x1075, x1048, 0xffffffff);
    let mut x1076: u32 = 0;
    let mut x1077: u32 = 0;
    fp_mulx_u32(&mut x1076, &mut x1077, x1074, 0x1ae3a46);
    let mut x1078: u32 = 0;
    let mut x1079: u32 = 0;
    fp_mulx_u32(&mut x1078, &mut x1079, x1074, 0x17c510ea);
    let mut x1080: u32 = 0;
    let mut x1081: u32 = 0;
    fp_mulx_u32(&mut x1080, &mut x1081, x1074, 0xc63b05c0);
    let mut x1082: u32 = 0;
    let mut x1083: u32 = 0;
    fp_mulx_u32(&mut x1082, &mut x1083, x1074, 0x6ca1493b);
    let mut x1084: u32 = 0;
    let mut x1085: u32 = 0;
    fp_mulx_u32(&mut x1084, &mut x1085, x1074, 0x1a22d9f3);
    let mut x1086: u32 = 0;
    let mut x1087: u32 = 0;
    fp_mulx_u32(&mut x1086, &mut x1087, x1074, 0xf5138f);
    let mut x1088: u32 = 0;
    let mut x1089: u32 = 0;
    fp_mulx_u32(&mut x1088, &mut x1089, x1074, 0x1ef3622f);
    let mut x1090: u32 = 0;
    let mut x1091: u32 = 0;
    fp_mulx_u32(&mut x1090, &mut x1091, x1074, 0xba094800);
    let mut x1092: u32 = 0;
    let mut x1093: u32 = 0;
    fp_mulx_u32(&mut x1092, &mut x1093, x1074, 0x170b5d44);
    let mut x1094: u32 = 0;
    let mut x1095: u32 = 0;
    fp_mulx_u32(&mut x1094, &mut x1095, x1074, 0x30000000);
    let mut x1096: u32 = 0;
    let mut x1097: u32 = 0;
    fp_mulx_u32(&mut x1096, &mut x1097, x1074, 0x8508c000);
    let mut x1098: u32 = 0;
    let mut x1099: FpU1 = 0;
    fp_addcarryx_u32(&mut x1098, &mut x1099, 0x0, x1097, x1094);
    let mut x1100: u32 = 0;
    let mut x1101: FpU1 = 0;
    fp_addcarryx_u32(&mut x1100, &mut x1101, x1099, x1095, x1092);
    let mut x1102: u32 = 0;
    let mut x1103: FpU1 = 0;
    fp_addcarryx_u32(&mut x1102, &mut x1103, x1101, x1093, x1090);
    let mut x1104: u32 = 0;
    let mut x1105: FpU1 = 0;
    fp_addcarryx_u32(&mut x1104, &mut x1105, x1103, x1091, x1088);
    let mut x1106: u32 = 0;
    let mut x1107: FpU1 = 0;
    fp_addcarryx_u32(&mut x1106, &mut x1107, x1105, x1089, x1086);
    let mut x1108: u32 = 0;
    let mut x1109: FpU1 = 0;
    fp_addcarryx_u32(&mut x1108, &mut x1109, x1107, x1087, x1084);
    let mut x1110: u32 = 0;
    let mut x1111: FpU1 = 0;
    fp_addcarryx_u32(&mut x1110, &mut x1111, x1109, x1085, x1082);
    let mut x1112: u32 = 0;
    let mut x1113: FpU1 = 0;
    fp_addcarryx_u32(&mut x1112, &mut x1113, x1111, x1083, x1080);
    let mut x1114: u32 = 0;
    let mut x1115: FpU1 = 0;
    fp_addcarryx_u32(&mut x1114, &mut x1115, x1113, x1081, x1078);
    let mut x1116: u32 = 0;
    let mut x1117: FpU1 = 0;
    fp_addcarryx_u32(&mut x1116, &mut x1117, x1115, x1079, x1076);
    let x1118: u32 = ((x1117 as u32) + x1077);
    let mut x1119: u32 = 0;
    let mut x1120: FpU1 = 0;
    fp_addcarryx_u32(&mut x1119, &mut x1120, 0x0, x1048, x1074);
    let mut x1121: u32 = 0;
    let mut x1122: FpU1 = 0;
    fp_addcarryx_u32(&mut x1121, &mut x1122, x1120, x1050, x1096);
    let mut x1123: u32 = 0;
    let mut x1124: FpU1 = 0;
    fp_addcarryx_u32(&mut x1123, &mut x1124, x1122, x1052, x1098);
    let mut x1125: u32 = 0;
    let mut x1126: FpU1 = 0;
    fp_addcarryx_u32(&mut x1125, &mut x1126, x1124, x1054, x1100);
    let mut x1127: u32 = 0;
    let mut x1128: FpU1 = 0;
    fp_addcarryx_u32(&mut x1127, &mut x1128, x1126, x1056, x1102);
    let mut x1129: u32 = 0;
    let mut x1130: FpU1 = 0;
    fp_addcarryx_u32(&mut x1129, &mut x1130, x1128, x1058, x1104);
    let mut x1131: u32 = 0;
    let mut x1132: FpU1 = 0;
    fp_addcarryx_u32(&mut x1131, &mut x1132, x1130, x1060, x1106);
    let mut x1133: u32 = 0;
    let mut x1134: FpU1 = 0;
    fp_addcarryx_u32(&mut x1133, &mut x1134, x1132, x1062, x1108);
    let mut x1135: u32 = 0;
    let mut x1136: FpU1 = 0;
    fp_addcarryx_u32(&mut x1135, &mut x1136, x1134, x1064, x1110);
    let mut x1137: u32 = 0;
    let mut x1138: FpU1 = 0;
    fp_addcarryx_u32(&mut x1137, &mut x1138, x1136, x1066, x1112);
    let mut x1139: u32 = 0;
    let mut x1140: FpU1 = 0;
    fp_addcarryx_u32(&mut x1139, &mut x1140, x1138, x1068, x1114);
    let mut x1141: u32 = 0;
    let mut x1142: FpU1 = 0;
    fp_addcarryx_u32(&mut x1141, &mut x1142, x1140, x1070, x1116);
    let mut x1143: u32 = 0;
    let mut x1144: FpU1 = 0;
    fp_addcarryx_u32(&mut x1143, &mut x1144, x1142, x1072, x1118);
    let x1145: u32 = ((x1144 as u32) + (x1073 as u32));
    let mut x1146: u32 = 0;
    let mut x1147: u32 = 0;
    fp_mulx_u32(&mut x1146, &mut x1147, x8, (arg2[11]));
    let mut x1148: u32 = 0;
    let mut x1149: u32 = 0;
    fp_mulx_u32(&mut x1148, &mut x1149, x8, (arg2[10]));
    let mut x1150: u32 = 0;
    let mut x1151: u32 = 0;
    fp_mulx_u32(&mut x1150, &mut x1151, x8, (arg2[9]));
    let mut x1152: u32 = 0;
    let mut x1153: u32 = 0;
    fp_mulx_u32(&mut x1152, &mut x1153, x8, (arg2[8]));
    let mut x1154: u32 = 0;
    let mut x1155: u32 = 0;
    fp_mulx_u32(&mut x1154, &mut x1155, x8, (arg2[7]));
    let mut x1156: u32 = 0;
    let mut x1157: u32 = 0;
    fp_mulx_u32(&mut x1156, &mut x1157, x8, (arg2[6]));
    let mut x1158: u32 = 0;
    let mut x1159: u32 = 0;
    fp_mulx_u32(&mut x1158, &mut x1159, x8, (arg2[5]));
    let mut x1160: u32 = 0;
    let mut x1161: u32 = 0;
    fp_mulx_u32(&mut x1160, &mut x1161, x8, (arg2[4]));
    let mut x1162: u32 = 0;
    let mut x1163: u32 = 0;
    fp_mulx_u32(&mut x1162, &mut x1163, x8, (arg2[3]));
    let mut x1164: u32 = 0;
    let mut x1165: u32 = 0;
    fp_mulx_u32(&mut x1164, &mut x1165, x8, (arg2[2]));
    let mut x1166: u32 = 0;
    let mut x1167: u32 = 0;
    fp_mulx_u32(&mut x1166, &mut x1167, x8, (arg2[1]));
    let mut x1168: u32 = 0;
    let mut x1169: u32 = 0;
    fp_mulx_u32(&mut x1168, &mut x1169, x8, (arg2[0]));
    let mut x1170: u32 = 0;
    let mut x1171: FpU1 = 0;
    fp_addcarryx_u32(&mut x1170, &mut x1171, 0x0, x1169, x1166);
    let mut x1172: u32 = 0;
    let mut x1173: FpU1 = 0;
    fp_addcarryx_u32(&mut x1172, &mut x1173, x1171, x1167, x1164);
    let mut x1174: u32 = 0;
    let mut x1175: FpU1 = 0;
    fp_addcarryx_u32(&mut x1174, &mut x1175, x1173, x1165, x1162);
    let mut x1176: u32 = 0;
    let mut x1177: FpU1 = 0;
    fp_addcarryx_u32(&mut x1176, &mut x1177, x1175, x1163, x1160);
    let mut x1178: u32 = 0;
    let mut x1179: FpU1 = 0;
    fp_addcarryx_u32(&mut x1178, &mut x1179, x1177, x1161, x1158);
    let mut x1180: u32 = 0;
    let mut x1181: FpU1 = 0;
    fp_addcarryx_u32(&mut x1180, &mut x1181, x1179, x1159, x1156);
    let mut x1182: u32 = 0;
    let mut x1183: FpU1 = 0;
    fp_addcarryx_u32(&mut x1182, &mut x1183, x1181, x1157, x1154);
    let mut x1184: u32 = 0;
    let mut x1185: FpU1 = 0;
    fp_addcarryx_u32(&mut x1184, &mut x1185, x1183, x1155, x1152);
    let mut x1186: u32 = 0;
    let mut x1187: FpU1 = 0;
    fp_addcarryx_u32(&mut x1186, &mut x1187, x1185, x1153, x1150);
    let mut x1188: u32 = 0;
    let mut x1189: FpU1 = 0;
    fp_addcarryx_u32(&mut x1188, &mut x1189, x1187, x1151, x1148);
    let mut x1190: u32 = 0;
    let mut x1191: FpU1 = 0;
    fp_addcarryx_u32(&mut x1190, &mut x1191, x1189, x1149, x1146);
    let x1192: u32 = ((x1191 as u32) + x1147);
    let mut x1193: u32 = 0;
    let mut x1194: FpU1 = 0;
    fp_addcarryx_u32(&mut x1193, &mut x1194, 0x0, x1121, x1168);
    let mut x1195: u32 = 0;
    let mut x1196: FpU1 = 0;
    fp_addcarryx_u32(&mut x1195, &mut x1196, x1194, x1123, x1170);
    let mut x1197: u32 = 0;
    let mut x1198: FpU1 = 0;
    fp_addcarryx_u32(&mut x1197, &mut x1198, x1196, x1125, x1172);
    let mut x1199: u32 = 0;
    let mut x1200: FpU1 = 0;
    fp_addcarryx_u32(&mut x1199, &mut x1200, x1198, x1127, x1174);
    let mut x1201: u32 = 0;
    let mut x1202: FpU1 = 0;
    fp_addcarryx_u32(&mut x1201, &mut x1202, x1200, x1129, x1176);
    let mut x1203: u32 = 0;
    let mut x1204: FpU1 = 0;
    fp_addcarryx_u32(&mut x1203, &mut x1204, x1202, x1131, x1178);
    let mut x1205: u32 = 0;
    let mut x1206: FpU1 = 0;
    fp_addcarryx_u32(&mut x1205, &mut x1206, x1204, x1133, x1180);
    let mut x1207: u32 = 0;
    let mut x1208: FpU1 = 0;
    fp_addcarryx_u32(&mut x1207, &mut x1208, x1206, x1135, x1182);
    let mut x1209: u32 = 0;
    let mut x1210: FpU1 = 0;
    fp_addcarryx_u32(&mut x1209, &mut x1210, x1208, x1137, x1184);
    let mut x1211: u32 = 0;
    let mut x1212: FpU1 = 0;
    fp_addcarryx_u32(&mut x1211, &mut x1212, x1210, x1139, x1186);
    let mut x1213: u32 = 0;
    let mut x1214: FpU1 = 0;
    fp_addcarryx_u32(&mut x1213, &mut x1214, x1212, x1141, x1188);
    let mut x1215: u32 = 0;
    let mut x1216: FpU1 = 0;
    fp_addcarryx_u32(&mut x1215, &mut x1216, x1214, x1143, x1190);
    let mut x1217: u32 = 0;
    let mut x1218: FpU1 = 0;
    fp_addcarryx_u32(&mut x1217, &mut x1218, x1216, x1145, x1192);
    let mut x1219: u32 = 0;
    let mut x1220: u32 = 0;
    fp_mulx_u32(&mut x1219, &mut x1220, x1193, 0xffffffff);
    let mut x1221: u32 = 0;
    let mut x1222: u32 = 0;
    fp_mulx_u32(&mut x1221, &mut x1222, x1219, 0x1ae3a46);
    let mut x1223: u32 = 0;
    let mut x1224: u32 = 0;
    fp_mulx_u32(&mut x1223, &mut x1224, x1219, 0x17c510ea);
    let mut x1225: u32 = 0;
    let mut x1226: u32 = 0;
    fp_mulx_u32(&mut x1225, &mut x1226, x1219, 0xc63b05c0);
    let mut x1227: u32 = 0;
    let mut x1228: u32 = 0;
    fp_mulx_u32(&mut x1227, &mut x1228, x1219, 0x6ca1493b);
    let mut x1229: u32 = 0;
    let mut x1230: u32 = 0;
    fp_mulx_u32(&mut x1229, &mut x1230, x1219, 0x1a22d9f3);
    let mut x1231: u32 = 0;
    let mut x1232: u32 = 0;
    fp_mulx_u32(&mut x1231, &mut x1232, x1219, 0xf5138f);
    let mut x1233: u32 = 0;
    let mut x1234: u32 = 0;
    fp_mulx_u32(&mut x1233, &mut x1234, x1219, 0x1ef3622f);
    let mut x1235: u32 = 0;
    let mut x1236: u32 = 0;
    fp_mulx_u32(&mut x1235, &mut x1236, x1219, 0xba094800);
    let mut x1237: u32 = 0;
    let mut x1238: u32 = 0;
    fp_mulx_u32(&mut x1237, &mut x1238, x1219, 0x170b5d44);
    let mut x1239: u32 = 0;
    let mut x1240: u32 = 0;
    fp_mulx_u32(&mut x1239, &mut x1240, x1219, 0x30000000);
    let mut x1241: u32 = 0;
    let mut x1242: u32 = 0;
    fp_mulx_u32(&mut x1241, &mut x1242, x1219, 0x8508c000);
    let mut x1243: u32 = 0;
    let mut x1244: FpU1 = 0;
    fp_addcarryx_u32(&mut x1243, &mut x1244, 0x0, x1242, x1239);
    let mut x1245: u32 = 0;
    let mut x1246: FpU1 = 0;
    fp_addcarryx_u32(&mut x1245, &mut x1246, x1244, x1240, x1237);
    let mut x1247: u32 = 0;
    let mut x1248: FpU1 = 0;
    fp_addcarryx_u32(&mut x1247, &mut x1248, x1246, x1238, x1235);
    let mut x1249: u32 = 0;
    let mut x1250: FpU1 = 0;
    fp_addcarryx_u32(&mut x1249, &mut x1250, x1248, x1236, x1233);
    let mut x1251: u32 = 0;
    let mut x1252: FpU1 = 0;
    fp_addcarryx_u32(&mut x1251, &mut x1252, x1250, x1234, x1231);
    let mut x1253: u32 = 0;
    let mut x1254: FpU1 = 0;
    fp_addcarryx_u32(&mut x1253, &mut x1254, x1252, x1232, x1229);
    let mut x1255: u32 = 0;
    let mut x1256: FpU1 = 0;
    fp_addcarryx_u32(&mut x1255, &mut x1256, x1254, x1230, x1227);
    let mut x1257: u32 = 0;
    let mut x1258: FpU1 = 0;
    fp_addcarryx_u32(&mut x1257, &mut x1258, x1256, x1228, x1225);
    let mut x1259: u32 = 0;
    let mut x1260: FpU1 = 0;
    fp_addcarryx_u32(&mut x1259, &mut x1260, x1258, x1226, x1223);
    let mut x1261: u32 = 0;
    let mut x1262: FpU1 = 0;
    fp_addcarryx_u32(&mut x1261, &mut x1262, x1260, x1224, x1221);
    let x1263: u32 = ((x1262 as u32) + x1222);
    let mut x1264: u32 = 0;
    let mut x1265: FpU1 = 0;
    fp_addcarryx_u32(&mut x1264, &mut x1265, 0x0, x1193, x1219);
    let mut x1266: u32 = 0;
    let mut x1267: FpU1 = 0;
    fp_addcarryx_u32(&mut x1266, &mut x1267, x1265, x1195, x1241);
    let mut x1268: u32 = 0;
    let mut x1269: FpU1 = 0;
    fp_addcarryx_u32(&mut x1268, &mut x1269, x1267, x1197, x1243);
    let mut x1270: u32 = 0;
    let mut x1271: FpU1 = 0;
    fp_addcarryx_u32(&mut x1270, &mut x1271, x1269, x1199, x1245);
    let mut x1272: u32 = 0;
    let mut x1273: FpU1 = 0;
    fp_addcarryx_u32(&mut x1272, &mut x1273, x1271, x1201, x1247);
    let mut x1274: u32 = 0;
    let mut x1275: FpU1 = 0;
    fp_addcarryx_u32(&mut x1274, &mut x1275, x1273, x1203, x1249);
    let mut x1276: u32 = 0;
    let mut x1277: FpU1 = 0;
    fp_addcarryx_u32(&mut x1276, &mut x1277, x1275, x1205, x1251);
    let mut x1278: u32 = 0;
    let mut x1279: FpU1 = 0;
    fp_addcarryx_u32(&mut x1278, &mut x1279, x1277, x1207, x1253);
    let mut x1280: u32 = 0;
    let mut x1281: FpU1 = 0;
    fp_addcarryx_u32(&mut x1280, &mut x1281, x1279, x1209, x1255);
    let mut x1282: u32 = 0;
    let mut x1283: FpU1 = 0;
    fp_addcarryx_u32(&mut x1282, &mut x1283, x1281, x1211, x1257);
    let mut x1284: u32 = 0;
    let mut x1285: FpU1 = 0;
    fp_addcarryx_u32(&mut x1284, &mut x1285, x1283, x1213, x1259);
    let mut x1286: u32 = 0;
    let mut x1287: FpU1 = 0;
    fp_addcarryx_u32(&mut x1286, &mut x1287, x1285, x1215, x1261);
    let mut x1288: u32 = 0;
    let mut x1289: FpU1 = 0;
    fp_addcarryx_u32(&mut x1288, &mut x1289, x1287, x1217, x1263);
    let x1290: u32 = ((x1289 as u32) + (x1218 as u32));
    let mut x1291: u32 = 0;
    let mut x1292: u32 = 0;
    fp_mulx_u32(&mut x1291, &mut x1292, x9, (arg2[11]));
    let mut x1293: u32 = 0;
    let mut x1294: u32 = 0;
    fp_mulx_u32(&mut x1293, &mut x1294, x9, (arg2[10]));
    let mut x1295: u32 = 0;
    let mut x1296: u32 = 0;
    fp_mulx_u32(&mut x1295, &mut x1296, x9, (arg2[9]));
    let mut x1297: u32 = 0;
    let mut x1298: u32 = 0;
    fp_mulx_u32(&mut x1297, &mut x1298, x9, (arg2[8]));
    let mut x1299: u32 = 0;
    let mut x1300: u32 = 0;
    fp_mulx_u32(&mut x1299, &mut x1300, x9, (arg2[7]));
    let mut x1301: u32 = 0;
    let mut x1302: u32 = 0;
    fp_mulx_u32(&mut x1301, &mut x1302, x9, (arg2[6]));
    let mut x1303: u32 = 0;
    let mut x1304: u32 = 0;
    fp_mulx_u32(&mut x1303, &mut x1304, x9, (arg2[5]));
    let mut x1305: u32 = 0;
    let mut x1306: u32 = 0;
    fp_mulx_u32(&mut x1305, &mut x1306, x9, (arg2[4]));
    let mut x1307: u32 = 0;
    let mut x1308: u32 = 0;
    fp_mulx_u32(&mut x1307, &mut x1308, x9, (arg2[3]));
    let mut x1309: u32 = 0;
    let mut x1310: u32 = 0;
    fp_mulx_u32(&mut x1309, &mut x1310, x9, (arg2[2]));
    let mut x1311: u32 = 0;
    let mut x1312: u32 = 0;
    fp_mulx_u32(&mut x1311, &mut x1312, x9, (arg2[1]));
    let mut x1313: u32 = 0;
    let mut x1314: u32 = 0;
    fp_mulx_u32(&mut x1313, &mut x1314, x9, (arg2[0]));
    let mut x1315: u32 = 0;
    let mut x1316: FpU1 = 0;
    fp_addcarryx_u32(&mut x1315, &mut x1316, 0x0, x1314, x1311);
    let mut x1317: u32 = 0;
    let mut x1318: FpU1 = 0;
    fp_addcarryx_u32(&mut x1317, &mut x1318, x1316, x1312, x1309);
    let mut x1319: u32 = 0;
    let mut x1320: FpU1 = 0;
    fp_addcarryx_u32(&mut x1319, &mut x1320, x1318, x1310, x1307);
    let mut x1321: u32 = 0;
    let mut x1322: FpU1 = 0;
    fp_addcarryx_u32(&mut x1321, &mut x1322, x1320, x1308, x1305);
    let mut x1323: u32 = 0;
    let mut x1324: FpU1 = 0;
    fp_addcarryx_u32(&mut x1323, &mut x1324, x1322, x1306, x1303);
    let mut x1325: u32 = 0;
    let mut x1326: FpU1 = 0;
    fp_addcarryx_u32(&mut x1325, &mut x1326, x1324, x1304, x1301);
    let mut x1327: u32 = 0;
    let mut x1328: FpU1 = 0;
    fp_addcarryx_u32(&mut x1327, &mut x1328, x1326, x1302, x1299);
    let mut x1329: u32 = 0;
    let mut x1330: FpU1 = 0;
    fp_addcarryx_u32(&mut x1329, &mut x1330, x1328, x1300, x1297);
    let mut x1331: u32 = 0;
    let mut x1332: FpU1 = 0;
    fp_addcarryx_u32(&mut x1331, &mut x1332, x1330, x1298, x1295);
    let mut x1333: u32 = 0;
    let mut x1334: FpU1 = 0;
    fp_addcarryx_u32(&mut x1333, &mut x1334, x1332, x1296, x1293);
    let mut x1335: u32 = 0;
    let mut x1336: FpU1 = 0;
    fp_addcarryx_u32(&mut x1335, &mut x1336, x1334, x1294, x1291);
    let x1337: u32 = ((x1336 as u32) + x1292);
    let mut x1338: u32 = 0;
    let mut x1339: FpU1 = 0;
    fp_addcarryx_u32(&mut x1338, &mut x1339, 0x0, x1266, x1313);
    let mut x1340: u32 = 0;
    let mut x1341: FpU1 = 0;
    fp_addcarryx_u32(&mut x1340, &mut x1341, x1339, x1268, x1315);
    let mut x1342: u32 = 0;
    let mut x1343: FpU1 = 0;
    fp_addcarryx_u32(&mut x1342, &mut x1343, x1341, x1270, x1317);
    let mut x1344: u32 = 0;
    let mut x1345: FpU1 = 0;
    fp_addcarryx_u32(&mut x1344, &mut x1345, x1343, x1272, x1319);
    let mut x1346: u32 = 0;
    let mut x1347: FpU1 = 0;
    fp_addcarryx_u32(&mut x1346, &mut x1347, x1345, x1274, x1321);
    let mut x1348: u32 = 0;
    let mut x1349: FpU1 = 0;
    fp_addcarryx_u32(&mut x1348, &mut x1349, x1347, x1276, x1323);
    let mut x1350: u32 = 0;
    let mut x1351: FpU1 = 0;
    fp_addcarryx_u32(&mut x1350, &mut x1351, x1349, x1278, x1325);
    let mut x1352: u32 = 0;
    let mut x1353: FpU1 = 0;
    fp_addcarryx_u32(&mut x1352, &mut x1353, x1351, x1280, x1327);
    let mut x1354: u32 = 0;
    let mut x1355: FpU1 = 0;
    fp_addcarryx_u32(&mut x1354, &mut x1355, x1353, x1282, x1329);
    let mut x1356: u32 = 0;
    let mut x1357: FpU1 = 0;
    fp_addcarryx_u32(&mut x1356, &mut x1357, x1355, x1284, x1331);
    let mut x1358: u32 = 0;
    let mut x1359: FpU1 = 0;
    fp_addcarryx_u32(&mut x1358, &mut x1359, x1357, x1286, x1333);
    let mut x1360: u32 = 0;
    let mut x1361: FpU1 = 0;
    fp_addcarryx_u32(&mut x1360, &mut x1361, x1359, x1288, x1335);
    let mut x1362: u32 = 0;
    let mut x1363: FpU1 = 0;
    fp_addcarryx_u32(&mut x1362, &mut x1363, x1361, x1290, x1337);
    let mut x1364: u32 = 0;
    let mut x1365: u32 = 0;
    fp_mulx_u32(&mut x1364, &mut x1365, x1338, 0xffffffff);
    let mut x1366: u32 = 0;
    let mut x1367: u32 = 0;
    fp_mulx_u32(&mut x1366, &mut x1367, x1364, 0x1ae3a46);
    let mut x1368: u32 = 0;
    let mut x1369: u32 = 0;
    fp_mulx_u32(&mut x1368, &mut x1369, x1364, 0x17c510ea);
    let mut x1370: u32 = 0;
    let mut x1371: u32 = 0;
    fp_mulx_u32(&mut x1370, &mut x1371, x1364, 0xc63b05c0);
    let mut x1372: u32 = 0;
    let mut x1373: u32 = 0;
    fp_mulx_u32(&mut x1372, &mut x1373, x1364, 0x6ca1493b);
    let mut x1374: u32 = 0;
    let mut x1375: u32 = 0;
    fp_mulx_u32(&mut x1374, &mut x1375, x1364, 0x1a22d9f3);
    let mut x1376: u32 = 0;
    let mut x1377: u32 = 0;
    fp_mulx_u32(&mut x1376, &mut x1377, x1364, 0xf5138f);
    let mut x1378: u32 = 0;
    let mut x1379: u32 = 0;
    fp_mulx_u32(&mut x1378, &mut x1379, x1364, 0x1ef3622f);
    let mut x1380: u32 = 0;
    let mut x1381: u32 = 0;
    fp_mulx_u32(&mut x1380, &mut x1381, x1364, 0xba094800);
    let mut x1382: u32 = 0;
    let mut x1383: u32 = 0;
    fp_mulx_u32(&mut x1382, &mut x1383, x1364, 0x170b5d44);
    let mut x1384: u32 = 0;
    let mut x1385: u32 = 0;
    fp_mulx_u32(&mut x1384, &mut x1385, x1364, 0x30000000);
    let mut x1386: u32 = 0;
    let mut x1387: u32 = 0;
    fp_mulx_u32(&mut x1386, &mut x1387, x1364, 0x8508c000);
    let mut x1388: u32 = 0;
    let mut x1389: FpU1 = 0;
    fp_addcarryx_u32(&mut x1388, &mut x1389, 0x0, x1387, x1384);
    let mut x1390: u32 = 0;
    let mut x1391: FpU1 = 0;
    fp_addcarryx_u32(&mut x1390, &mut x1391, x1389, x1385, x1382);
    let mut x1392: u32 = 0;
    let mut x1393: FpU1 = 0;
    fp_addcarryx_u32(&mut x1392, &mut x1393, x1391, x1383, x1380);
    let mut x1394: u32 = 0;
    let mut x1395: FpU1 = 0;
    fp_addcarryx_u32(&mut x1394, &mut x1395, x1393, x1381, x1378);
    let mut x1396: u32 = 0;
    let mut x1397: FpU1 = 0;
    fp_addcarryx_u32(&mut x1396, &mut x1397, x1395, x1379, x1376);
    let mut x1398: u32 = 0;
    let mut x1399: FpU1 = 0;
    fp_addcarryx_u32(&mut x1398, &mut x1399, x1397, x1377, x1374);
    let mut x1400: u32 = 0;
    let mut x1401: FpU1 = 0;
    fp_addcarryx_u32(&mut x1400, &mut x1401, x1399, x1375, x1372);
    let mut x1402: u32 = 0;
    let mut x1403: FpU1 = 0;
    fp_addcarryx_u32(&mut x1402, &mut x1403, x1401, x1373, x1370);
    let mut x1404: u32 = 0;
    let mut x1405: FpU1 = 0;
    fp_addcarryx_u32(&mut x1404, &mut x1405, x1403, x1371, x1368);
    let mut x1406: u32 = 0;
    let mut x1407: FpU1 = 0;
    fp_addcarryx_u32(&mut x1406, &mut x1407, x1405, x1369, x1366);
    let x1408: u32 = ((x1407 as u32) + x1367);
    let mut x1409: u32 = 0;
    let mut x1410: FpU1 = 0;
    fp_addcarryx_u32(&mut x1409, &mut x1410, 0x0, x1338, x1364);
    let mut x1411: u32 = 0;
    let mut x1412: FpU1 = 0;
    fp_addcarryx_u32(&mut x1411, &mut x1412, x1410, x1340, x1386);
    let mut x1413: u32 = 0;
    let mut x1414: FpU1 = 0;
    fp_addcarryx_u32(&mut x1413, &mut x1414, x1412, x1342, x1388);
    let mut x1415: u32 = 0;
    let mut x1416: FpU1 = 0;
    fp_addcarryx_u32(&mut x1415, &mut x1416, x1414, x1344, x1390);
    let mut x1417: u32 = 0;
    let mut x1418: FpU1 = 0;
    fp_addcarryx_u32(&mut x1417, &mut x1418, x1416, x1346, x1392);
    let mut x1419: u32 = 0;
    let mut x1420: FpU1 = 0;
    fp_addcarryx_u32(&mut x1419, &mut x1420, x1418, x1348, x1394);
    let mut x1421: u32 = 0;
    let mut x1422: FpU1 = 0;
    fp_addcarryx_u32(&mut x1421, &mut x1422, x1420, x1350, x1396);
    let mut x1423: u32 = 0;
    let mut x1424: FpU1 = 0;
    fp_addcarryx_u32(&mut x1423, &mut x1424, x1422, x1352, x1398);
    let mut x1425: u32 = 0;
    let mut x1426: FpU1 = 0;
    fp_addcarryx_u32(&mut x1425, &mut x1426, x1424, x1354, x1400);
    let mut x1427: u32 = 0;
    let mut x1428: FpU1 = 0;
    fp_addcarryx_u32(&mut x1427, &mut x1428, x1426, x1356, x1402);
    let mut x1429: u32 = 0;
    let mut x1430: FpU1 = 0;
    fp_addcarryx_u32(&mut x1429, &mut x1430, x1428, x1358, x1404);
    let mut x1431: u32 = 0;
    let mut x1432: FpU1 = 0;
    fp_addcarryx_u32(&mut x1431, &mut x1432, x1430, x1360, x1406);
    let mut x1433: u32 = 0;
    let mut x1434: FpU1 = 0;
    fp_addcarryx_u32(&mut x1433, &mut x1434, x1432, x1362, x1408);
    let x1435: u32 = ((x1434 as u32) + (x1363 as u32));
    let mut x1436: u32 = 0;
    let mut x1437: u32 = 0;
    fp_mulx_u32(&mut x1436, &mut x1437, x10, (arg2[11]));
    let mut x1438: u32 = 0;
    let mut x1439: u32 = 0;
    fp_mulx_u32(&mut x1438, &mut x1439, x10, (arg2[10]));
    let mut x1440: u32 = 0;
    let mut x1441: u32 = 0;
    fp_mulx_u32(&mut x1440, &mut x1441, x10, (arg2[9]));
    let mut x1442: u32 = 0;
    let mut x1443: u32 = 0;
    fp_mulx_u32(&mut x1442, &mut x1443, x10, (arg2[8]));
    let mut x1444: u32 = 0;
    let mut x1445: u32 = 0;
    fp_mulx_u32(&mut x1444, &mut x1445, x10, (arg2[7]));
    let mut x1446: u32 = 0;
    let mut x1447: u32 = 0;
    fp_mulx_u32(&mut x1446, &mut x1447, x10, (arg2[6]));
    let mut x1448: u32 = 0;
    let mut x1449: u32 = 0;
    fp_mulx_u32(&mut x1448, &mut x1449, x10, (arg2[5]));
    let mut x1450: u32 = 0;
    let mut x1451: u32 = 0;
    fp_mulx_u32(&mut x1450, &mut x1451, x10, (arg2[4]));
    let mut x1452: u32 = 0;
    let mut x1453: u32 = 0;
    fp_mulx_u32(&mut x1452, &mut x1453, x10, (arg2[3]));
    let mut x1454: u32 = 0;
    let mut x1455: u32 = 0;
    fp_mulx_u32(&mut x1454, &mut x1455, x10, (arg2[2]));
    let mut x1456: u32 = 0;
    let mut x1457: u32 = 0;
    fp_mulx_u32(&mut x1456, &mut x1457, x10, (arg2[1]));
    let mut x1458: u32 = 0;
    let mut x1459: u32 = 0;
    fp_mulx_u32(&mut x1458, &mut x1459, x10, (arg2[0]));
    let mut x1460: u32 = 0;
    let mut x1461: FpU1 = 0;
    fp_addcarryx_u32(&mut x1460, &mut x1461, 0x0, x1459, x1456);
    let mut x1462: u32 = 0;
    let mut x1463: FpU1 = 0;
    fp_addcarryx_u32(&mut x1462, &mut x1463, x1461, x1457, x1454);
    let mut x1464: u32 = 0;
    let mut x1465: FpU1 = 0;
    fp_addcarryx_u32(&mut x1464, &mut x1465, x1463, x1455, x1452);
    let mut x1466: u32 = 0;
    let mut x1467: FpU1 = 0;
    fp_addcarryx_u32(&mut x1466, &mut x1467, x1465, x1453, x1450);
    let mut x1468: u32 = 0;
    let mut x1469: FpU1 = 0;
    fp_addcarryx_u32(&mut x1468, &mut x1469, x1467, x1451, x1448);
    let mut x1470: u32 = 0;
    let mut x1471: FpU1 = 0;
    fp_addcarryx_u32(&mut x1470, &mut x1471, x1469, x1449, x1446);
    let mut x1472: u32 = 0;
    let mut x1473: FpU1 = 0;
    fp_addcarryx_u32(&mut x1472, &mut x1473, x1471, x1447, x1444);
    let mut x1474: u32 = 0;
    let mut x1475: FpU1 = 0;
    fp_addcarryx_u32(&mut x1474, &mut x1475, x1473, x1445, x1442);
    let mut x1476: u32 = 0;
    let mut x1477: FpU1 = 0;
    fp_addcarryx_u32(&mut x1476, &mut x1477, x1475, x1443, x1440);
    let mut x1478: u32 = 0;
    let mut x1479: FpU1 = 0;
    fp_addcarryx_u32(&mut x1478, &mut x1479, x1477, x1441, x1438);
    let mut x1480: u32 = 0;
    let mut x1481: FpU1 = 0;
    fp_addcarryx_u32(&mut x1480, &mut x1481, x1479, x1439, x1436);
    let x1482: u32 = ((x1481 as u32) + x1437);
    let mut x1483: u32 = 0;
    let mut x1484: FpU1 = 0;
    fp_addcarryx_u32(&mut x1483, &mut x1484, 0x0, x1411, x1458);
    let mut x1485: u32 = 0;
    let mut x1486: FpU1 = 0;
    fp_addcarryx_u32(&mut x1485, &mut x1486, x1484, x1413, x1460);
    let mut x1487: u32 = 0;
    let mut x1488: FpU1 = 0;
    fp_addcarryx_u32(&mut x1487, &mut x1488, x1486, x1415, x1462);
    let mut x1489: u32 = 0;
    let mut x1490: FpU1 = 0;
    fp_addcarryx_u32(&mut x1489, &mut x1490, x1488, x1417, x1464);
    let mut x1491: u32 = 0;
    let mut x1492: FpU1 = 0;
    fp_addcarryx_u32(&mut x1491, &mut x1492, x1490, x1419, x1466);
    let mut x1493: u32 = 0;
    let mut x1494: FpU1 = 0;
    fp_addcarryx_u32(&mut x1493, &mut x1494, x1492, x1421, x1468);
    let mut x1495: u32 = 0;
    let mut x1496: FpU1 = 0;
    fp_addcarryx_u32(&mut x1495, &mut x1496, x1494, x1423, x1470);
    let mut x1497: u32 = 0;
    let mut x1498: FpU1 = 0;
    fp_addcarryx_u32(&mut x1497, &mut x1498, x1496, x1425, x1472);
    let mut x1499: u32 = 0;
    let mut x1500: FpU1 = 0;
    fp_addcarryx_u32(&mut x1499, &mut x1500, x1498, x1427, x1474);
    let mut x1501: u32 = 0;
    let mut x1502: FpU1 = 0;
    fp_addcarryx_u32(&mut x1501, &mut x1502, x1500, x1429, x1476);
    let mut x1503: u32 = 0;
    let mut x1504: FpU1 = 0;
    fp_addcarryx_u32(&mut x1503, &mut x1504, x1502, x1431, x1478);
    let mut x1505: u32 = 0;
    let mut x1506: FpU1 = 0;
    fp_addcarryx_u32(&mut x1505, &mut x1506, x1504, x1433, x1480);
    let mut x1507: u32 = 0;
    let mut x1508: FpU1 = 0;
    fp_addcarryx_u32(&mut x1507, &mut x1508, x1506, x1435, x1482);
    let mut x1509: u32 = 0;
    let mut x1510: u32 = 0;
    fp_mulx_u32(&mut x1509, &mut x1510, x1483, 0xffffffff);
    let mut x1511: u32 = 0;
    let mut x1512: u32 = 0;
    fp_mulx_u32(&mut x1511, &mut x1512, x1509, 0x1ae3a46);
    let mut x1513: u32 = 0;
    let mut x1514: u32 = 0;
    fp_mulx_u32(&mut x1513, &mut x1514, x1509, 0x17c510ea);
    let mut x1515: u32 = 0;
    let mut x1516: u32 = 0;
    fp_mulx_u32(&mut x1515, &mut x1516, x1509, 0xc63b05c0);
    let mut x1517: u32 = 0;
    let mut x1518: u32 = 0;
    fp_mulx_u32(&mut x1517, &mut x1518, x1509, 0x6ca1493b);
    let mut x1519: u32 = 0;
    let mut x1520: u32 = 0;
    fp_mulx_u32(&mut x1519, &mut x1520, x1509, 0x1a22d9f3);
    let mut x1521: u32 = 0;
    let mut x1522: u32 = 0;
    fp_mulx_u32(&mut x1521, &mut x1522, x1509, 0xf5138f);
    let mut x1523: u32 = 0;
    let mut x1524: u32 = 0;
    fp_mulx_u32(&mut x1523, &mut x1524, x1509, 0x1ef3622f);
    let mut x1525: u32 = 0;
    let mut x1526: u32 = 0;
    fp_mulx_u32(&mut x1525, &mut x1526, x1509, 0xba094800);
    let mut x1527: u32 = 0;
    let mut x1528: u32 = 0;
    fp_mulx_u32(&mut x1527, &mut x1528, x1509, 0x170b5d44);
    let mut x1529: u32 = 0;
    let mut x1530: u32 = 0;
    fp_mulx_u32(&mut x1529, &mut x1530, x1509, 0x30000000);
    let mut x1531: u32 = 0;
    let mut x1532: u32 = 0;
    fp_mulx_u32(&mut x1531, &mut x1532, x1509, 0x8508c000);
    let mut x1533: u32 = 0;
    let mut x1534: FpU1 = 0;
    fp_addcarryx_u32(&mut x1533, &mut x1534, 0x0, x1532, x1529);
    let mut x1535: u32 = 0;
    let mut x1536: FpU1 = 0;
    fp_addcarryx_u32(&mut x1535, &mut x1536, x1534, x1530, x1527);
    let mut x1537: u32 = 0;
    let mut x1538: FpU1 = 0;
    fp_addcarryx_u32(&mut x1537, &mut x1538, x1536, x1528, x1525);
    let mut x1539: u32 = 0;
    let mut x1540: FpU1 = 0;
    fp_addcarryx_u32(&mut x1539, &mut x1540, x1538, x1526, x1523);
    let mut x1541: u32 = 0;
    let mut x1542: FpU1 = 0;
    fp_addcarryx_u32(&mut x1541, &mut x1542, x1540, x1524, x1521);
    let mut x1543: u32 = 0;
    let mut x1544: FpU1 = 0;
    fp_addcarryx_u32(&mut x1543, &mut x1544, x1542, x1522, x1519);
    let mut x1545: u32 = 0;
    let mut x1546: FpU1 = 0;
    fp_addcarryx_u32(&mut x1545, &mut x1546, x1544, x1520, x1517);
    let mut x1547: u32 = 0;
    let mut x1548: FpU1 = 0;
    fp_addcarryx_u32(&mut x1547, &mut x1548, x1546, x1518, x1515);
    let mut x1549: u32 = 0;
    let mut x1550: FpU1 = 0;
    fp_addcarryx_u32(&mut x1549, &mut x1550, x1548, x1516, x1513);
    let mut x1551: u32 = 0;
    let mut x1552: FpU1 = 0;
    fp_addcarryx_u32(&mut x1551, &mut x1552, x1550, x1514, x1511);
    let x1553: u32 = ((x1552 as u32) + x1512);
    let mut x1554: u32 = 0;
    let mut x1555: FpU1 = 0;
    fp_addcarryx_u32(&mut x1554, &mut x1555, 0x0, x1483, x1509);
    let mut x1556: u32 = 0;
    let mut x1557: FpU1 = 0;
    fp_addcarryx_u32(&mut x1556, &mut x1557, x1555, x1485, x1531);
    let mut x1558: u32 = 0;
    let mut x1559: FpU1 = 0;
    fp_addcarryx_u32(&mut x1558, &mut x1559, x1557, x1487, x1533);
    let mut x1560: u32 = 0;
    let mut x1561: FpU1 = 0;
    fp_addcarryx_u32(&mut x1560, &mut x1561, x1559, x1489, x1535);
    let mut x1562: u32 = 0;
    let mut x1563: FpU1 = 0;
    fp_addcarryx_u32(&mut x1562, &mut x1563, x1561, x1491, x1537);
    let mut x1564: u32 = 0;
    let mut x1565: FpU1 = 0;
    fp_addcarryx_u32(&mut x1564, &mut x1565, x1563, x1493, x1539);
    let mut x1566: u32 = 0;
    let mut x1567: FpU1 = 0;
    fp_addcarryx_u32(&mut x1566, &mut x1567, x1565, x1495, x1541);
    let mut x1568: u32 = 0;
    let mut x1569: FpU1 = 0;
    fp_addcarryx_u32(&mut x1568, &mut x1569, x1567, x1497, x1543);
    let mut x1570: u32 = 0;
    let mut x1571: FpU1 = 0;
    fp_addcarryx_u32(&mut x1570, &mut x1571, x1569, x1499, x1545);
    let mut x1572: u32 = 0;
    let mut x1573: FpU1 = 0;
    fp_addcarryx_u32(&mut x1572, &mut x1573, x1571, x1501, x1547);
    let mut x1574: u32 = 0;
    let mut x1575: FpU1 = 0;
    fp_addcarryx_u32(&mut x1574, &mut x1575, x1573, x1503, x1549);
    let mut x1576: u32 = 0;
    let mut x1577: FpU1 = 0;
    fp_addcarryx_u32(&mut x1576, &mut x1577, x1575, x1505, x1551);
    let mut x1578: u32 = 0;
    let mut x1579: FpU1 = 0;
    fp_addcarryx_u32(&mut x1578, &mut x1579, x1577, x1507, x1553);
    let x1580: u32 = ((x1579 as u32) + (x1508 as u32));
    let mut x1581: u32 = 0;
    let mut x1582: u32 = 0;
    fp_mulx_u32(&mut x1581, &mut x1582, x11, (arg2[11]));
    let mut x1583: u32 = 0;
    let mut x1584: u32 = 0;
    fp_mulx_u32(&mut x1583, &mut x1584, x11, (arg2[10]));
    let mut x1585: u32 = 0;
    let mut x1586: u32 = 0;
    fp_mulx_u32(&mut x1585, &mut x1586, x11, (arg2[9]));
    let mut x1587: u32 = 0;
    let mut x1588: u32 = 0;
    fp_mulx_u32(&mut x1587, &mut x1588, x11, (arg2[8]));
    let mut x1589: u32 = 0;
    let mut x1590: u32 = 0;
    fp_mulx_u32(&mut x1589, &mut x1590, x11, (arg2[7]));
    let mut x1591: u32 = 0;
    let mut x1592: u32 = 0;
    fp_mulx_u32(&mut x1591, &mut x1592, x11, (arg2[6]));
    let mut x1593: u32 = 0;
    let mut x1594: u32 = 0;
    fp_mulx_u32(&mut x1593, &mut x1594, x11, (arg2[5]));
    let mut x1595: u32 = 0;
    let mut x1596: u32 = 0;
    fp_mulx_u32(&mut x1595, &mut x1596, x11, (arg2[4]));
    let mut x1597: u32 = 0;
    let mut x1598: u32 = 0;
    fp_mulx_u32(&mut x1597, &mut x1598, x11, (arg2[3]));
    let mut x1599: u32 = 0;
    let mut x1600: u32 = 0;
    fp_mulx_u32(&mut x1599, &mut x1600, x11, (arg2[2]));
    let mut x1601: u32 = 0;
    let mut x1602: u32 = 0;
    fp_mulx_u32(&mut x1601, &mut x1602, x11, (arg2[1]));
    let mut x1603: u32 = 0;
    let mut x1604: u32 = 0;
    fp_mulx_u32(&mut x1603, &mut x1604, x11, (arg2[0]));
    let mut x1605: u32 = 0;
    let mut x1606: FpU1 = 0;
    fp_addcarryx_u32(&mut x1605, &mut x1606, 0x0, x1604, x1601);
    let mut x1607: u32 = 0;
    let mut x1608: FpU1 = 0;
    fp_addcarryx_u32(&mut x1607, &mut x1608, x1606, x1602, x1599);
    let mut x1609: u32 = 0;
    let mut x1610: FpU1 = 0;
    fp_addcarryx_u32(&mut x1609, &mut x1610, x1608, x1600, x1597);
    let mut x1611: u32 = 0;
    let mut x1612: FpU1 = 0;
    fp_addcarryx_u32(&mut x1611, &mut x1612, x1610, x1598, x1595);
    let mut x1613: u32 = 0;
    let mut x1614: FpU1 = 0;
    fp_addcarryx_u32(&mut x1613, &mut x1614, x1612, x1596, x1593);
    let mut x1615: u32 = 0;
    let mut x1616: FpU1 = 0;
    fp_addcarryx_u32(&mut x1615, &mut x1616, x1614, x1594, x1591);
    let mut x1617: u32 = 0;
    let mut x1618: FpU1 = 0;
    fp_addcarryx_u32(&mut x1617, &mut x1618, x1616, x1592, x1589);
    let mut x1619: u32 = 0;
    let mut x1620: FpU1 = 0;
    fp_addcarryx_u32(&mut x1619, &mut x1620, x1618, x1590, x1587);
    let mut x1621: u32 = 0;
    let mut x1622: FpU1 = 0;
    fp_addcarryx_u32(&mut x1621, &mut x1622, x1620, x1588, x1585);
    let mut x1623: u32 = 0;
    let mut x1624: FpU1 = 0;
    fp_addcarryx_u32(&mut x1623, &mut x1624, x1622, x1586, x1583);
    let mut x1625: u32 = 0;
    let mut x1626: FpU1 = 0;
    fp_addcarryx_u32(&mut x1625, &mut x1626, x1624, x1584, x1581);
    let x1627: u32 = ((x1626 as u32) + x1582);
    let mut x1628: u32 = 0;
    let mut x1629: FpU1 = 0;
    fp_addcarryx_u32(&mut x1628, &mut x1629, 0x0, x1556, x1603);
    let mut x1630: u32 = 0;
    let mut x1631: FpU1 = 0;
    fp_addcarryx_u32(&mut x1630, &mut x1631, x1629, x1558, x1605);
    let mut x1632: u32 = 0;
    let mut x1633: FpU1 = 0;
    fp_addcarryx_u32(&mut x1632, &mut x1633, x1631, x1560, x1607);
    let mut x1634: u32 = 0;
    let mut x1635: FpU1 = 0;
    fp_addcarryx_u32(&mut x1634, &mut x1635, x1633, x1562, x1609);
    let mut x1636: u32 = 0;
    let mut x1637: FpU1 = 0;
    fp_addcarryx_u32(&mut x1636, &mut x1637, x1635, x1564, x1611);
    let mut x1638: u32 = 0;
    let mut x1639: FpU1 = 0;
    fp_addcarryx_u32(&mut x1638, &mut x1639, x1637, x1566, x1613);
    let mut x1640: u32 = 0;
    let mut x1641: FpU1 = 0;
    fp_addcarryx_u32(&mut x1640, &mut x1641, x1639, x1568, x1615);
    let mut x1642: u32 = 0;
    let mut x1643: FpU1 = 0;
    fp_addcarryx_u32(&mut x1642, &mut x1643, x1641, x1570, x1617);
    let mut x1644: u32 = 0;
    let mut x1645: FpU1 = 0;
    fp_addcarryx_u32(&mut x1644, &mut x1645, x1643, x1572, x1619);
    let mut x1646: u32 = 0;
    let mut x1647: FpU1 = 0;
    fp_addcarryx_u32(&mut x1646, &mut x1647, x1645, x1574, x1621);
    let mut x1648: u32 = 0;
    let mut x1649: FpU1 = 0;
    fp_addcarryx_u32(&mut x1648, &mut x1649, x1647, x1576, x1623);
    let mut x1650: u32 = 0;
    let mut x1651: FpU1 = 0;
    fp_addcarryx_u32(&mut x1650, &mut x1651, x1649, x1578, x1625);
    let mut x1652: u32 = 0;
    let mut x1653: FpU1 = 0;
    fp_addcarryx_u32(&mut x1652, &mut x1653, x1651, x1580, x1627);
    let mut x1654: u32 = 0;
    let mut x1655: u32 = 0;
    fp_mulx_u32(&mut x1654, &mut x1655, x1628, 0xffffffff);
    let mut x1656: u32 = 0;
    let mut x1657: u32 = 0;
    fp_mulx_u32(&mut x1656, &mut x1657, x1654, 0x1ae3a46);
    let mut x1658: u32 = 0;
    let mut x1659: u32 = 0;
    fp_mulx_u32(&mut x1658, &mut x1659, x1654, 0x17c510ea);
    let mut x1660: u32 = 0;
    let mut x1661: u32 = 0;
    fp_mulx_u32(&mut x1660, &mut x1661, x1654, 0xc63b05c0);
    let mut x1662: u32 = 0;
    let mut x1663: u32 = 0;
    fp_mulx_u32(&mut x1662, &mut x1663, x1654, 0x6ca1493b);
    let mut x1664: u32 = 0;
    let mut x1665: u32 = 0;
    fp_mulx_u32(&mut x1664, &mut x1665, x1654, 0x1a22d9f3);
    let mut x1666: u32 = 0;
    let mut x1667: u32 = 0;
    fp_mulx_u32(&mut x1666, &mut x1667, x1654, 0xf5138f);
    let mut x1668: u32 = 0;
    let mut x1669: u32 = 0;
    fp_mulx_u32(&mut x1668, &mut x1669, x1654, 0x1ef3622f);
    let mut x1670: u32 = 0;
    let mut x1671: u32 = 0;
    fp_mulx_u32(&mut x1670, &mut x1671, x1654, 0xba094800);
    let mut x1672: u32 = 0;
    let mut x1673: u32 = 0;
    fp_mulx_u32(&mut x1672, &mut x1673, x1654, 0x170b5d44);
    let mut x1674: u32 = 0;
    let mut x1675: u32 = 0;
    fp_mulx_u32(&mut x1674, &mut x1675, x1654, 0x30000000);
    let mut x1676: u32 = 0;
    let mut x1677: u32 = 0;
    fp_mulx_u32(&mut x1676, &mut x1677, x1654, 0x8508c000);
    let mut x1678: u32 = 0;
    let mut x1679: FpU1 = 0;
    fp_addcarryx_u32(&mut x1678, &mut x1679, 0x0, x1677, x1674);
    let mut x1680: u32 = 0;
    let mut x1681: FpU1 = 0;
    fp_addcarryx_u32(&mut x1680, &mut x1681, x1679, x1675, x1672);
    let mut x1682: u32 = 0;
    let mut x1683: FpU1 = 0;
    fp_addcarryx_u32(&mut x1682, &mut x1683, x1681, x1673, x1670);
    let mut x1684: u32 = 0;
    let mut x1685: FpU1 = 0;
    fp_addcarryx_u32(&mut x1684, &mut x1685, x1683, x1671, x1668);
    let mut x1686: u32 = 0;
    let mut x1687: FpU1 = 0;
    fp_addcarryx_u32(&mut x1686, &mut x1687, x1685, x1669, x1666);
    let mut x1688: u32 = 0;
    let mut x1689: FpU1 = 0;
    fp_addcarryx_u32(&mut x1688, &mut x1689, x1687, x1667, x1664);
    let mut x1690: u32 = 0;
    let mut x1691: FpU1 = 0;
    fp_addcarryx_u32(&mut x1690, &mut x1691, x1689, x1665, x1662);
    let mut x1692: u32 = 0;
    let mut x1693: FpU1 = 0;
    fp_addcarryx_u32(&mut x1692, &mut x1693, x1691, x1663, x1660);
    let mut x1694: u32 = 0;
    let mut x1695: FpU1 = 0;
    fp_addcarryx_u32(&mut x1694, &mut x1695, x1693, x1661, x1658);
    let mut x1696: u32 = 0;
    let mut x1697: FpU1 = 0;
    fp_addcarryx_u32(&mut x1696, &mut x1697, x1695, x1659, x1656);
    let x1698: u32 = ((x1697 as u32) + x1657);
    let mut x1699: u32 = 0;
    let mut x1700: FpU1 = 0;
    fp_addcarryx_u32(&mut x1699, &mut x1700, 0x0, x1628, x1654);
    let mut x1701: u32 = 0;
    let mut x1702: FpU1 = 0;
    fp_addcarryx_u32(&mut x1701, &mut x1702, x1700, x1630, x1676);
    let mut x1703: u32 = 0;
    let mut x1704: FpU1 = 0;
    fp_addcarryx_u32(&mut x1703, &mut x1704, x1702, x1632, x1678);
    let mut x1705: u32 = 0;
    let mut x1706: FpU1 = 0;
    fp_addcarryx_u32(&mut x1705, &mut x1706, x1704, x1634, x1680);
    let mut x1707: u32 = 0;
    let mut x1708: FpU1 = 0;
    fp_addcarryx_u32(&mut x1707, &mut x1708, x1706, x1636, x1682);
    let mut x1709: u32 = 0;
    let mut x1710: FpU1 = 0;
    fp_addcarryx_u32(&mut x1709, &mut x1710, x1708, x1638, x1684);
    let mut x1711: u32 = 0;
    let mut x1712: FpU1 = 0;
    fp_addcarryx_u32(&mut x1711, &mut x1712, x1710, x1640, x1686);
    let mut x1713: u32 = 0;
    let mut x1714: FpU1 = 0;
    fp_addcarryx_u32(&mut x1713, &mut x1714, x1712, x1642, x1688);
    let mut x1715: u32 = 0;
    let mut x1716: FpU1 = 0;
    fp_addcarryx_u32(&mut x1715, &mut x1716, x1714, x1644, x1690);
    let mut x1717: u32 = 0;
    let mut x1718: FpU1 = 0;
    fp_addcarryx_u32(&mut x1717, &mut x1718, x1716, x1646, x1692);
    let mut x1719: u32 = 0;
    let mut x1720: FpU1 = 0;
    fp_addcarryx_u32(&mut x1719, &mut x1720, x1718, x1648, x1694);
    let mut x1721: u32 = 0;
    let mut x1722: FpU1 = 0;
    fp_addcarryx_u32(&mut x1721, &mut x1722, x1720, x1650, x1696);
    let mut x1723: u32 = 0;
    let mut x1724: FpU1 = 0;
    fp_addcarryx_u32(&mut x1723, &mut x1724, x1722, x1652, x1698);
    let x1725: u32 = ((x1724 as u32) + (x1653 as u32));
    let mut x1726: u32 = 0;
    let mut x1727: FpU1 = 0;
    fp_subborrowx_u32(&mut x1726, &mut x1727, 0x0, x1701, (0x1 as u32));
    let mut x1728: u32 = 0;
    let mut x1729: FpU1 = 0;
    fp_subborrowx_u32(&mut x1728, &mut x1729, x1727, x1703, 0x8508c000);
    let mut x1730: u32 = 0;
    let mut x1731: FpU1 = 0;
    fp_subborrowx_u32(&mut x1730, &mut x1731, x1729, x1705, 0x30000000);
    let mut x1732: u32 = 0;
    let mut x1733: FpU1 = 0;
    fp_subborrowx_u32(&mut x1732, &mut x1733, x1731, x1707, 0x170b5d44);
    let mut x1734: u32 = 0;
    let mut x1735: FpU1 = 0;
    fp_subborrowx_u32(&mut x1734, &mut x1735, x1733, x1709, 0xba094800);
    let mut x1736: u32 = 0;
    let mut x1737: FpU1 = 0;
    fp_subborrowx_u32(&mut x1736, &mut x1737, x1735, x1711, 0x1ef3622f);
    let mut x1738: u32 = 0;
    let mut x1739: FpU1 = 0;
    fp_subborrowx_u32(&mut x1738, &mut x1739, x1737, x1713, 0xf5138f);
    let mut x1740: u32 = 0;
    let mut x1741: FpU1 = 0;
    fp_subborrowx_u32(&mut x1740, &mut x1741, x1739, x1715, 0x1a22d9f3);
    let mut x1742: u32 = 0;
    let mut x1743: FpU1 = 0;
    fp_subborrowx_u32(&mut x1742, &mut x1743, x1741, x1717, 0x6ca1493b);
    let mut x1744: u32 = 0;
    let mut x1745: FpU1 = 0;
    fp_subborrowx_u32(&mut x1744, &mut x1745, x1743, x1719, 0xc63b05c0);
    let mut x1746: u32 = 0;
    let mut x1747: FpU1 = 0;
    fp_subborrowx_u32(&mut x1746, &mut x1747, x1745, x1721, 0x17c510ea);
    let mut x1748: u32 = 0;
    let mut x1749: FpU1 = 0;
    fp_subborrowx_u32(&mut x1748, &mut x1749, x1747, x1723, 0x1ae3a46);
    let mut x1750: u32 = 0;
    let mut x1751: FpU1 = 0;
    fp_subborrowx_u32(&mut x1750, &mut x1751, x1749, x1725, (0x0 as u32));
    let mut x1752: u32 = 0;
    fp_cmovznz_u32(&mut x1752, x1751, x1726, x1701);
    let mut x1753: u32 = 0;
    fp_cmovznz_u32(&mut x1753, x1751, x1728, x1703);
    let mut x1754: u32 = 0;
    fp_cmovznz_u32(&mut x1754, x1751, x1730, x1705);
    let mut x1755: u32 = 0;
    fp_cmovznz_u32(&mut x1755, x1751, x1732, x1707);
    let mut x1756: u32 = 0;
    fp_cmovznz_u32(&mut x1756, x1751, x1734, x1709);
    let mut x1757: u32 = 0;
    fp_cmovznz_u32(&mut x1757, x1751, x1736, x1711);
    let mut x1758: u32 = 0;
    fp_cmovznz_u32(&mut x1758, x1751, x1738, x1713);
    let mut x1759: u32 = 0;
    fp_cmovznz_u32(&mut x1759, x1751, x1740, x1715);
    let mut x1760: u32 = 0;
    fp_cmovznz_u32(&mut x1760, x1751, x1742, x1717);
    let mut x1761: u32 = 0;
    fp_cmovznz_u32(&mut x1761, x1751, x1744, x1719);
    let mut x1762: u32 = 0;
    fp_cmovznz_u32(&mut x1762, x1751, x1746, x1721);
    let mut x1763: u32 = 0;
    fp_cmovznz_u32(&mut x1763, x1751, x1748, x1723);
    out1[0] = x1752;
    out1[1] = x1753;
    out1[2] = x1754;
    out1[3] = x1755;
    out1[4] = x1756;
    out1[5] = x1757;
    out1[6] = x1758;
    out1[7] = x1759;
    out1[8] = x1760;
    out1[9] = x1761;
    out1[10] = x1762;
    out1[11] = x1763;
}

/// The function fp_square squares a field element in the Montgomery domain.
///
/// Preconditions:
///   0 ≤ eval arg1 < m
/// Postconditions:
///   eval (from_montgomery out1) mod m = (eval (from_montgomery arg1) * eval (from_montgomery arg1)) mod m
///   0 ≤ eval out1 < m
///
pub fn fp_square(out1: &mut FpMontgomeryDomainFieldElement, arg1: &FpMontgomeryDomainFieldElement) {
    let x1: u32 = (arg1[1]);
    let x2: u32 = (arg1[2]);
    let x3: u32 = (arg1[3]);
    let x4: u32 = (arg1[4]);
    let x5: u32 = (arg1[5]);
    let x6: u32 = (arg1[6]);
    let x7: u32 = (arg1[7]);
    let x8: u32 = (arg1[8]);
    let x9: u32 = (arg1[9]);
    let x10: u32 = (arg1[10]);
    let x11: u32 = (arg1[11]);
    let x12: u32 = (arg1[0]);
    let mut x13: u32 = 0;
    let mut x14: u32 = 0;
    fp_mulx_u32(&mut x13, &mut x14, x12, (arg1[11]));
    let mut x15: u32 = 0;
    let mut x16: u32 = 0;
    fp_mulx_u32(&mut x15, &mut x16, x12, (arg1[10]));
    let mut x17: u32 = 0;
    let mut x18: u32 = 0;
    fp_mulx_u32(&mut x17, &mut x18, x12, (arg1[9]));
    let mut x19: u32 = 0;
    let mut x20: u32 = 0;
    fp_mulx_u32(&mut x19, &mut x20, x12, (arg1[8]));
    let mut x21: u32 = 0;
    let mut x22: u32 = 0;
    fp_mulx_u32(&mut x21, &mut x22, x12, (arg1[7]));
    let mut x23: u32 = 0;
    let mut x24: u32 = 0;
    fp_mulx_u32(&mut x23, &mut x24, x12, (arg1[6]));
    let mut x25: u32 = 0;
    let mut x26: u32 = 0;
    fp_mulx_u32(&mut x25, &mut x26, x12, (arg1[5]));
    let mut x27: u32 = 0;
    let mut x28: u32 = 0;
    fp_mulx_u32(&mut x27, &mut x28, x12, (arg1[4]));
    let mut x29: u32 = 0;
    let mut x30: u32 = 0;
    fp_mulx_u32(&mut x29, &mut x30, x12, (arg1[3]));
    let mut x31: u32 = 0;
    let mut x32: u32 = 0;
    fp_mulx_u32(&mut x31, &mut x32, x12, (arg1[2]));
    let mut x33: u32 = 0;
    let mut x34: u32 = 0;
    fp_mulx_u32(&mut x33, &mut x34, x12, (arg1[1]));
    let mut x35: u32 = 0;
    let mut x36: u32 = 0;
    fp_mulx_u32(&mut x35, &mut x36, x12, (arg1[0]));
    let mut x37: u32 = 0;
    let mut x38: FpU1 = 0;
    fp_addcarryx_u32(&mut x37, &mut x38, 0x0, x36, x33);
    let mut x39: u32 = 0;
    let mut x40: FpU1 = 0;
    fp_addcarryx_u32(&mut x39, &mut x40, x38, x34, x31);
    let mut x41: u32 = 0;
    let mut x42: FpU1 = 0;
    fp_addcarryx_u32(&mut x41, &mut x42, x40, x32, x29);
    let mut x43: u32 = 0;
    let mut x44: FpU1 = 0;
    fp_addcarryx_u32(&mut x43, &mut x44, x42, x30, x27);
    let mut x45: u32 = 0;
    let mut x46: FpU1 = 0;
    fp_addcarryx_u32(&mut x45, &mut x46, x44, x28, x25);
    let mut x47: u32 = 0;
    let mut x48: FpU1 = 0;
    fp_addcarryx_u32(&mut x47, &mut x48, x46, x26, x23);
    let mut x49: u32 = 0;
    let mut x50: FpU1 = 0;
    fp_addcarryx_u32(&mut x49, &mut x50, x48, x24, x21);
    let mut x51: u32 = 0;
    let mut x52: FpU1 = 0;
    fp_addcarryx_u32(&mut x51, &mut x52, x50, x22, x19);
    let mut x53: u32 = 0;
    let mut x54: FpU1 = 0;
    fp_addcarryx_u32(&mut x53, &mut x54, x52, x20, x17);
    let mut x55: u32 = 0;
    let mut x56: FpU1 = 0;
    fp_addcarryx_u32(&mut x55, &mut x56, x54, x18, x15);
    let mut x57: u32 = 0;
    let mut x58: FpU1 = 0;
    fp_addcarryx_u32(&mut x57, &mut x58, x56, x16, x13);
    let x59: u32 = ((x58 as u32) + x14);
    let mut x60: u32 = 0;
    let mut x61: u32 = 0;
    fp_mulx_u32(&mut x60, &mut x61, x35, 0xffffffff);
    let mut x62: u32 = 0;
    let mut x63: u32 = 0;
    fp_mulx_u32(&mut x62, &mut x63, x60, 0x1ae3a46);
    let mut x64: u32 = 0;
    let mut x65: u32 = 0;
    fp_mulx_u32(&mut x64, &mut x65, x60, 0x17c510ea);
    let mut x66: u32 = 0;
    let mut x67: u32 = 0;
    fp_mulx_u32(&mut x66, &mut x67, x60, 0xc63b05c0);
    let mut x68: u32 = 0;
    let mut x69: u32 = 0;
    fp_mulx_u32(&mut x68, &mut x69, x60, 0x6ca1493b);
    let mut x70: u32 = 0;
    let mut x71: u32 = 0;
    fp_mulx_u32(&mut x70, &mut x71, x60, 0x1a22d9f3);
    let mut x72: u32 = 0;
    let mut x73: u32 = 0;
    fp_mulx_u32(&mut x72, &mut x73, x60, 0xf5138f);
    let mut x74: u32 = 0;
    let mut x75: u32 = 0;
    fp_mulx_u32(&mut x74, &mut x75, x60, 0x1ef3622f);
    let mut x76: u32 = 0;
    let mut x77: u32 = 0;
    fp_mulx_u32(&mut x76, &mut x77, x60, 0xba094800);
    let mut x78: u32 = 0;
    let mut x79: u32 = 0;
    fp_mulx_u32(&mut x78, &mut x79, x60, 0x170b5d44);
    let mut x80: u32 = 0;
    let mut x81: u32 = 0;
    fp_mulx_u32(&mut x80, &mut x81, x60, 0x30000000);
    let mut x82: u32 = 0;
    let mut x83: u32 = 0;
    fp_mulx_u32(&mut x82, &mut x83, x60, 0x8508c000);
    let mut x84: u32 = 0;
    let mut x85: FpU1 = 0;
    fp_addcarryx_u32(&mut x84, &mut x85, 0x0, x83, x80);
    let mut x86: u32 = 0;
    let mut x87: FpU1 = 0;
    fp_addcarryx_u32(&mut x86, &mut x87, x85, x81, x78);
    let mut x88: u32 = 0;
    let mut x89: FpU1 = 0;
    fp_addcarryx_u32(&mut x88, &mut x89, x87, x79, x76);
    let mut x90: u32 = 0;
    let mut x91: FpU1 = 0;
    fp_addcarryx_u32(&mut x90, &mut x91, x89, x77, x74);
    let mut x92: u32 = 0;
    let mut x93: FpU1 = 0;
    fp_addcarryx_u32(&mut x92, &mut x93, x91, x75, x72);
    let mut x94: u32 = 0;
    let mut x95: FpU1 = 0;
    fp_addcarryx_u32(&mut x94, &mut x95, x93, x73, x70);
    let mut x96: u32 = 0;
    let mut x97: FpU1 = 0;
    fp_addcarryx_u32(&mut x96, &mut x97, x95, x71, x68);
    let mut x98: u32 = 0;
    let mut x99: FpU1 = 0;
    fp_addcarryx_u32(&mut x98, &mut x99, x97, x69, x66);
    let mut x100: u32 = 0;
    let mut x101: FpU1 = 0;
    fp_addcarryx_u32(&mut x100, &mut x101, x99, x67, x64);
    let mut x102: u32 = 0;
    let mut x103: FpU1 = 0;
    fp_addcarryx_u32(&mut x102, &mut x103, x101, x65, x62);
    let x104: u32 = ((x103 as u32) + x63);
    let mut x105: u32 = 0;
    let mut x106: FpU1 = 0;
    fp_addcarryx_u32(&mut x105, &mut x106, 0x0, x35, x60);
    let mut x107: u32 = 0;
    let mut x108: FpU1 = 0;
    fp_addcarryx_u32(&mut x107, &mut x108, x106, x37, x82);
    let mut x109: u32 = 0;
    let mut x110: FpU1 = 0;
    fp_addcarryx_u32(&mut x109, &mut x110, x108, x39, x84);
    let mut x111: u32 = 0;
    let mut x112: FpU1 = 0;
    fp_addcarryx_u32(&mut x111, &mut x112, x110, x41, x86);
    let mut x113: u32 = 0;
    let mut x114: FpU1 = 0;
    fp_addcarryx_u32(&mut x113, &mut x114, x112, x43, x88);
    let mut x115: u32 = 0;
    let mut x116: FpU1 = 0;
    fp_addcarryx_u32(&mut x115, &mut x116, x114, x45, x90);
    let mut x117: u32 = 0;
    let mut x118: FpU1 = 0;
    fp_addcarryx_u32(&mut x117, &mut x118, x116, x47, x92);
    let mut x119: u32 = 0;
    let mut x120: FpU1 = 0;
    fp_addcarryx_u32(&mut x119, &mut x120, x118, x49, x94);
    let mut x121: u32 = 0;
    let mut x122: FpU1 = 0;
    fp_addcarryx_u32(&mut x121, &mut x122, x120, x51, x96);
    let mut x123: u32 = 0;
    let mut x124: FpU1 = 0;
    fp_addcarryx_u32(&mut x123, &mut x124, x122, x53, x98);
    let mut x125: u32 = 0;
    let mut x126: FpU1 = 0;
    fp_addcarryx_u32(&mut x125, &mut x126, x124, x55, x100);
    let mut x127: u32 = 0;
    let mut x128: FpU1 = 0;
    fp_addcarryx_u32(&mut x127, &mut x128, x126, x57, x102);
    let mut x129: u32 = 0;
    let mut x130: FpU1 = 0;
    fp_addcarryx_u32(&mut x129, &mut x130, x128, x59, x104);
    let mut x131: u32 = 0;
    let mut x132: u32 = 0;
    fp_mulx_u32(&mut x131, &mut x132, x1, (arg1[11]));
    let mut x133: u32 = 0;
    let mut x134: u32 = 0;
    fp_mulx_u32(&mut x133, &mut x134, x1, (arg1[10]));
    let mut x135: u32 = 0;
    let mut x136: u32 = 0;
    fp_mulx_u32(&mut x135, &mut x136, x1, (arg1[9]));
    let mut x137: u32 = 0;
    let mut x138: u32 = 0;
    fp_mulx_u32(&mut x137, &mut x138, x1, (arg1[8]));
    let mut x139: u32 = 0;
    let mut x140: u32 = 0;
    fp_mulx_u32(&mut x139, &mut x140, x1, (arg1[7]));
    let mut x141: u32 = 0;
    let mut x142: u32 = 0;
    fp_mulx_u32(&mut x141, &mut x142, x1, (arg1[6]));
    let mut x143: u32 = 0;
    let mut x144: u32 = 0;
    fp_mulx_u32(&mut x143, &mut x144, x1, (arg1[5]));
    let mut x145: u32 = 0;
    let mut x146: u32 = 0;
    fp_mulx_u32(&mut x145, &mut x146, x1, (arg1[4]));
    let mut x147: u32 = 0;
    let mut x148: u32 = 0;
    fp_mulx_u32(&mut x147, &mut x148, x1, (arg1[3]));
    let mut x149: u32 = 0;
    let mut x150: u32 = 0;
    fp_mulx_u32(&mut x149, &mut x150, x1, (arg1[2]));
    let mut x151: u32 = 0;
    let mut x152: u32 = 0;
    fp_mulx_u32(&mut x151, &mut x152, x1, (arg1[1]));
    let mut x153: u32 = 0;
    let mut x154: u32 = 0;
    fp_mulx_u32(&mut x153, &mut x154, x1, (arg1[0]));
    let mut x155: u32 = 0;
    let mut x156: FpU1 = 0;
    fp_addcarryx_u32(&mut x155, &mut x156, 0x0, x154, x151);
    let mut x157: u32 = 0;
    let mut x158: FpU1 = 0;
    fp_addcarryx_u32(&mut x157, &mut x158, x156, x152, x149);
    let mut x159: u32 = 0;
    let mut x160: FpU1 = 0;
    fp_addcarryx_u32(&mut x159, &mut x160, x158, x150, x147);
    let mut x161: u32 = 0;
    let mut x162: FpU1 = 0;
    fp_addcarryx_u32(&mut x161, &mut x162, x160, x148, x145);
    let mut x163: u32 = 0;
    let mut x164: FpU1 = 0;
    fp_addcarryx_u32(&mut x163, &mut x164, x162, x146, x143);
    let mut x165: u32 = 0;
    let mut x166: FpU1 = 0;
    fp_addcarryx_u32(&mut x165, &mut x166, x164, x144, x141);
    let mut x167: u32 = 0;
    let mut x168: FpU1 = 0;
    fp_addcarryx_u32(&mut x167, &mut x168, x166, x142, x139);
    let mut x169: u32 = 0;
    let mut x170: FpU1 = 0;
    fp_addcarryx_u32(&mut x169, &mut x170, x168, x140, x137);
    let mut x171: u32 = 0;
    let mut x172: FpU1 = 0;
    fp_addcarryx_u32(&mut x171, &mut x172, x170, x138, x135);
    let mut x173: u32 = 0;
    let mut x174: FpU1 = 0;
    fp_addcarryx_u32(&mut x173, &mut x174, x172, x136, x133);
    let mut x175: u32 = 0;
    let mut x176: FpU1 = 0;
    fp_addcarryx_u32(&mut x175, &mut x176, x174, x134, x131);
    let x177: u32 = ((x176 as u32) + x132);
    let mut x178: u32 = 0;
    let mut x179: FpU1 = 0;
    fp_addcarryx_u32(&mut x178, &mut x179, 0x0, x107, x153);
    let mut x180: u32 = 0;
    let mut x181: FpU1 = 0;
    fp_addcarryx_u32(&mut x180, &mut x181, x179, x109, x155);
    let mut x182: u32 = 0;
    let mut x183: FpU1 = 0;
    fp_addcarryx_u32(&mut x182, &mut x183, x181, x111, x157);
    let mut x184: u32 = 0;
    let mut x185: FpU1 = 0;
    fp_addcarryx_u32(&mut x184, &mut x185, x183, x113, x159);
    let mut x186: u32 = 0;
    let mut x187: FpU1 = 0;
    fp_addcarryx_u32(&mut x186, &mut x187, x185, x115, x161);
    let mut x188: u32 = 0;
    let mut x189: FpU1 = 0;
    fp_addcarryx_u32(&mut x188, &mut x189, x187, x117, x163);
    let mut x190: u32 = 0;
    let mut x191: FpU1 = 0;
    fp_addcarryx_u32(&mut x190, &mut x191, x189, x119, x165);
    let mut x192: u32 = 0;
    let mut x193: FpU1 = 0;
    fp_addcarryx_u32(&mut x192, &mut x193, x191, x121, x167);
    let mut x194: u32 = 0;
    let mut x195: FpU1 = 0;
    fp_addcarryx_u32(&mut x194, &mut x195, x193, x123, x169);
    let mut x196: u32 = 0;
    let mut x197: FpU1 = 0;
    fp_addcarryx_u32(&mut x196, &mut x197, x195, x125, x171);
    let mut x198: u32 = 0;
    let mut x199: FpU1 = 0;
    fp_addcarryx_u32(&mut x198, &mut x199, x197, x127, x173);
    let mut x200: u32 = 0;
    let mut x201: FpU1 = 0;
    fp_addcarryx_u32(&mut x200, &mut x201, x199, x129, x175);
    let mut x202: u32 = 0;
    let mut x203: FpU1 = 0;
    fp_addcarryx_u32(&mut x202, &mut x203, x201, (x130 as u32), x177);
    let mut x204: u32 = 0;
    let mut x205: u32 = 0;
    fp_mulx_u32(&mut x204, &mut x205, x178, 0xffffffff);
    let mut x206: u32 = 0;
    let mut x207: u32 = 0;
    fp_mulx_u32(&mut x206, &mut x207, x204, 0x1ae3a46);
    let mut x208: u32 = 0;
    let mut x209: u32 = 0;
    fp_mulx_u32(&mut x208, &mut x209, x204, 0x17c510ea);
    let mut x210: u32 = 0;
    let mut x211: u32 = 0;
    fp_mulx_u32(&mut x210, &mut x211, x204, 0xc63b05c0);
    let mut x212: u32 = 0;
    let mut x213: u32 = 0;
    fp_mulx_u32(&mut x212, &mut x213, x204, 0x6ca1493b);
    let mut x214: u32 = 0;
    let mut x215: u32 = 0;
    fp_mulx_u32(&mut x214, &mut x215, x204, 0x1a22d9f3);
    let mut x216: u32 = 0;
    let mut x217: u32 = 0;
    fp_mulx_u32(&mut x216, &mut x217, x204, 0xf5138f);
    let mut x218: u32 = 0;
    let mut x219: u32 = 0;
    fp_mulx_u32(&mut x218, &mut x219, x204, 0x1ef3622f);
    let mut x220: u32 = 0;
    let mut x221: u32 = 0;
    fp_mulx_u32(&mut x220, &mut x221, x204, 0xba094800);
    let mut x222: u32 = 0;
    let mut x223: u32 = 0;
    fp_mulx_u32(&mut x222, &mut x223, x204, 0x170b5d44);
    let mut x224: u32 = 0;
    let mut x225: u32 = 0;
    fp_mulx_u32(&mut x224, &mut x225, x204, 0x30000000);
    let mut x226: u32 = 0;
    let mut x227: u32 = 0;
    fp_mulx_u32(&mut x226, &mut x227, x204, 0x8508c000);
    let mut x228: u32 = 0;
    let mut x229: FpU1 = 0;
    fp_addcarryx_u32(&mut x228, &mut x229, 0x0, x227, x224);
    let mut x230: u32 = 0;
    let mut x231: FpU1 = 0;
    fp_addcarryx_u32(&mut x230, &mut x231, x229, x225, x222);
    let mut x232: u32 = 0;
    let mut x233: FpU1 = 0;
    fp_addcarryx_u32(&mut x232, &mut x233, x231, x223, x220);
    let mut x234: u32 = 0;
    let mut x235: FpU1 = 0;
    fp_addcarryx_u32(&mut x234, &mut x235, x233, x221, x218);
    let mut x236: u32 = 0;
    let mut x237: FpU1 = 0;
    fp_addcarryx_u32(&mut x236, &mut x237, x235, x219, x216);
    let mut x238: u32 = 0;
    let mut x239: FpU1 = 0;
    fp_addcarryx_u32(&mut x238, &mut x239, x237, x217, x214);
    let mut x240: u32 = 0;
    let mut x241: FpU1 = 0;
    fp_addcarryx_u32(&mut x240, &mut x241, x239, x215, x212);
    let mut x242: u32 = 0;
    let mut x243: FpU1 = 0;
    fp_addcarryx_u32(&mut x242, &mut x243, x241, x213, x210);
    let mut x244: u32 = 0;
    let mut x245: FpU1 = 0;
    fp_addcarryx_u32(&mut x244, &mut x245, x243, x211, x208);
    let mut x246: u32 = 0;
    let mut x247: FpU1 = 0;
    fp_addcarryx_u32(&mut x246, &mut x247, x245, x209, x206);
    let x248: u32 = ((x247 as u32) + x207);
    let mut x249: u32 = 0;
    let mut x250: FpU1 = 0;
    fp_addcarryx_u32(&mut x249, &mut x250, 0x0, x178, x204);
    let mut x251: u32 = 0;
    let mut x252: FpU1 = 0;
    fp_addcarryx_u32(&mut x251, &mut x252, x250, x180, x226);
    let mut x253: u32 = 0;
    let mut x254: FpU1 = 0;
    fp_addcarryx_u32(&mut x253, &mut x254, x252, x182, x228);
    let mut x255: u32 = 0;
    let mut x256: FpU1 = 0;
    fp_addcarryx_u32(&mut x255, &mut x256, x254, x184, x230);
    let mut x257: u32 = 0;
    let mut x258: FpU1 = 0;
    fp_addcarryx_u32(&mut x257, &mut x258, x256, x186, x232);
    let mut x259: u32 = 0;
    let mut x260: FpU1 = 0;
    fp_addcarryx_u32(&mut x259, &mut x260, x258, x188, x234);
    let mut x261: u32 = 0;
    let mut x262: FpU1 = 0;
    fp_addcarryx_u32(&mut x261, &mut x262, x260, x190, x236);
    let mut x263: u32 = 0;
    let mut x264: FpU1 = 0;
    fp_addcarryx_u32(&mut x263, &mut x264, x262, x192, x238);
    let mut x265: u32 = 0;
    let mut x266: FpU1 = 0;
    fp_addcarryx_u32(&mut x265, &mut x266, x264, x194, x240);
    let mut x267: u32 = 0;
    let mut x268: FpU1 = 0;
    fp_addcarryx_u32(&mut x267, &mut x268, x266, x196, x242);
    let mut x269: u32 = 0;
    let mut x270: FpU1 = 0;
    fp_addcarryx_u32(&mut x269, &mut x270, x268, x198, x244);
    let mut x271: u32 = 0;
    let mut x272: FpU1 = 0;
    fp_addcarryx_u32(&mut x271, &mut x272, x270, x200, x246);
    let mut x273: u32 = 0;
    let mut x274: FpU1 = 0;
    fp_addcarryx_u32(&mut x273, &mut x274, x272, x202, x248);
    let x275: u32 = ((x274 as u32) + (x203 as u32));
    let mut x276: u32 = 0;
    let mut x277: u32 = 0;
    fp_mulx_u32(&mut x276, &mut x277, x2, (arg1[11]));
    let mut x278: u32 = 0;
    let mut x279: u32 = 0;
    fp_mulx_u32(&mut x278, &mut x279, x2, (arg1[10]));
    let mut x280: u32 = 0;
    let mut x281: u32 = 0;
    fp_mulx_u32(&mut x280, &mut x281, x2, (arg1[9]));
    let mut x282: u32 = 0;
    let mut x283: u32 = 0;
    fp_mulx_u32(&mut x282, &mut x283, x2, (arg1[8]));
    let mut x284: u32 = 0;
    let mut x285: u32 = 0;
    fp_mulx_u32(&mut x284, &mut x285, x2, (arg1[7]));
    let mut x286: u32 = 0;
    let mut x287: u32 = 0;
    fp_mulx_u32(&mut x286, &mut x287, x2, (arg1[6]));
    let mut x288: u32 = 0;
    let mut x289: u32 = 0;
    fp_mulx_u32(&mut x288, &mut x289, x2, (arg1[5]));
    let mut x290: u32 = 0;
    let mut x291: u32 = 0;
    fp_mulx_u32(&mut x290, &mut x291, x2, (arg1[4]));
    let mut x292: u32 = 0;
    let mut x293: u32 = 0;
    fp_mulx_u32(&mut x292, &mut x293, x2, (arg1[3]));
    let mut x294: u32 = 0;
    let mut x295: u32 = 0;
    fp_mulx_u32(&mut x294, &mut x295, x2, (arg1[2]));
    let mut x296: u32 = 0;
    let mut x297: u32 = 0;
    fp_mulx_u32(&mut x296, &mut x297, x2, (arg1[1]));
    let mut x298: u32 = 0;
    let mut x299: u32 = 0;
    fp_mulx_u32(&mut x298, &mut x299, x2, (arg1[0]));
    let mut x300: u32 = 0;
    let mut x301: FpU1 = 0;
    fp_addcarryx_u32(&mut x300, &mut x301, 0x0, x299, x296);
    let mut x302: u32 = 0;
    let mut x303: FpU1 = 0;
    fp_addcarryx_u32(&mut x302, &mut x303, x301, x297, x294);
    let mut x304: u32 = 0;
    let mut x305: FpU1 = 0;
    fp_addcarryx_u32(&mut x304, &mut x305, x303, x295, x292);
    let mut x306: u32 = 0;
    let mut x307: FpU1 = 0;
    fp_addcarryx_u32(&mut x306, &mut x307, x305, x293, x290);
    let mut x308: u32 = 0;
    let mut x309: FpU1 = 0;
    fp_addcarryx_u32(&mut x308, &mut x309, x307, x291, x288);
    let mut x310: u32 = 0;
    let mut x311: FpU1 = 0;
    fp_addcarryx_u32(&mut x310, &mut x311, x309, x289, x286);
    let mut x312: u32 = 0;
    let mut x313: FpU1 = 0;
    fp_addcarryx_u32(&mut x312, &mut x313, x311, x287, x284);
    let mut x314: u32 = 0;
    let mut x315: FpU1 = 0;
    fp_addcarryx_u32(&mut x314, &mut x315, x313, x285, x282);
    let mut x316: u32 = 0;
    let mut x317: FpU1 = 0;
    fp_addcarryx_u32(&mut x316, &mut x317, x315, x283, x280);
    let mut x318: u32 = 0;
    let mut x319: FpU1 = 0;
    fp_addcarryx_u32(&mut x318, &mut x319, x317, x281, x278);
    let mut x320: u32 = 0;
    let mut x321: FpU1 = 0;
    fp_addcarryx_u32(&mut x320, &mut x321, x319, x279, x276);
    let x322: u32 = ((x321 as u32) + x277);
    let mut x323: u32 = 0;
    let mut x324: FpU1 = 0;
    fp_addcarryx_u32(&mut x323, &mut x324, 0x0, x251, x298);
    let mut x325: u32 = 0;
    let mut x326: FpU1 = 0;
    fp_addcarryx_u32(&mut x325, &mut x326, x324, x253, x300);
    let mut x327: u32 = 0;
    let mut x328: FpU1 = 0;
    fp_addcarryx_u32(&mut x327, &mut x328, x326, x255, x302);
    let mut x329: u32 = 0;
    let mut x330: FpU1 = 0;
    fp_addcarryx_u32(&mut x329, &mut x330, x328, x257, x304);
    let mut x331: u32 = 0;
    let mut x332: FpU1 = 0;
    fp_addcarryx_u32(&mut x331, &mut x332, x330, x259, x306);
    let mut x333: u32 = 0;
    let mut x334: FpU1 = 0;
    fp_addcarryx_u32(&mut x333, &mut x334, x332, x261, x308);
    let mut x335: u32 = 0;
    let mut x336: FpU1 = 0;
    fp_addcarryx_u32(&mut x335, &mut x336, x334, x263, x310);
    let mut x337: u32 = 0;
    let mut x338: FpU1 = 0;
    fp_addcarryx_u32(&mut x337, &mut x338, x336, x265, x312);
    let mut x339: u32 = 0;
    let mut x340: FpU1 = 0;
    fp_addcarryx_u32(&mut x339, &mut x340, x338, x267, x314);
    let mut x341: u32 = 0;
    let mut x342: FpU1 = 0;
    fp_addcarryx_u32(&mut x341, &mut x342, x340, x269, x316);
    let mut x343: u32 = 0;
    let mut x344: FpU1 = 0;
    fp_addcarryx_u32(&mut x343, &mut x344, x342, x271, x318);
    let mut x345: u32 = 0;
    let mut x346: FpU1 = 0;
    fp_addcarryx_u32(&mut x345, &mut x346, x344, x273, x320);
    let mut x347: u32 = 0;
    let mut x348: FpU1 = 0;
    fp_addcarryx_u32(&mut x347, &mut x348, x346, x275, x322);
    let mut x349: u32 = 0;
    let mut x350: u32 = 0;
    fp_mulx_u32(&mut x349, &mut x350, x323, 0xffffffff);
    let mut x351: u32 = 0;
    let mut x352: u32 = 0;
    fp_mulx_u32(&mut x351, &mut x352, x349, 0x1ae3a46);
    let mut x353: u32 = 0;
    let mut x354: u32 = 0;
    fp_mulx_u32(&mut x353, &mut x354, x349, 0x17c510ea);
    let mut x355: u32 = 0;
    let mut x356: u32 = 0;
    fp_mulx_u32(&mut x355, &mut x356, x349, 0xc63b05c0);
    let mut x357: u32 = 0;
    let mut x358: u32 = 0;
    fp_mulx_u32(&mut x357, &mut x358, x349, 0x6ca1493b);
    let mut x359: u32 = 0;
    let mut x360: u32 = 0;
    fp_mulx_u32(&mut x359, &mut x360, x349, 0x1a22d9f3);
    let mut x361: u32 = 0;
    let mut x362: u32 = 0;
    fp_mulx_u32(&mut x361, &mut x362, x349, 0xf5138f);
    let mut x363: u32 = 0;
    let mut x364: u32 = 0;
    fp_mulx_u32(&mut x363, &mut x364, x349, 0x1ef3622f);
    let mut x365: u32 = 0;
    let mut x366: u32 = 0;
    fp_mulx_u32(&mut x365, &mut x366, x349, 0xba094800);
    let mut x367: u32 = 0;
    let mut x368: u32 = 0;
    fp_mulx_u32(&mut x367, &mut x368, x349, 0x170b5d44);
    let mut x369: u32 = 0;
    let mut x370: u32 = 0;
    fp_mulx_u32(&mut x369, &mut x370, x349, 0x30000000);
    let mut x371: u32 = 0;
    let mut x372: u32 = 0;
    fp_mulx_u32(&mut x371, &mut x372, x349, 0x8508c000);
    let mut x373: u32 = 0;
    let mut x374: FpU1 = 0;
    fp_addcarryx_u32(&mut x373, &mut x374, 0x0, x372, x369);
    let mut x375: u32 = 0;
    let mut x376: FpU1 = 0;
    fp_addcarryx_u32(&mut x375, &mut x376, x374, x370, x367);
    let mut x377: u32 = 0;
    let mut x378: FpU1 = 0;
    fp_addcarryx_u32(&mut x377, &mut x378, x376, x368, x365);
    let mut x379: u32 = 0;
    let mut x380: FpU1 = 0;
    fp_addcarryx_u32(&mut x379, &mut x380, x378, x366, x363);
    let mut x381: u32 = 0;
    let mut x382: FpU1 = 0;
    fp_addcarryx_u32(&mut x381, &mut x382, x380, x364, x361);
    let mut x383: u32 = 0;
    let mut x384: FpU1 = 0;
    fp_addcarryx_u32(&mut x383, &mut x384, x382, x362, x359);
    let mut x385: u32 = 0;
    let mut x386: FpU1 = 0;
    fp_addcarryx_u32(&mut x385, &mut x386, x384, x360, x357);
    let mut x387: u32 = 0;
    let mut x388: FpU1 = 0;
    fp_addcarryx_u32(&mut x387, &mut x388, x386, x358, x355);
    let mut x389: u32 = 0;
    let mut x390: FpU1 = 0;
    fp_addcarryx_u32(&mut x389, &mut x390, x388, x356, x353);
    let mut x391: u32 = 0;
    let mut x392: FpU1 = 0;
    fp_addcarryx_u32(&mut x391, &mut x392, x390, x354, x351);
    let x393: u32 = ((x392 as u32) + x352);
    let mut x394: u32 = 0;
    let mut x395: FpU1 = 0;
    fp_addcarryx_u32(&mut x394, &mut x395, 0x0, x323, x349);
    let mut x396: u32 = 0;
    let mut x397: FpU1 = 0;
    fp_addcarryx_u32(&mut x396, &mut x397, x395, x325, x371);
    let mut x398: u32 = 0;
    let mut x399: FpU1 = 0;
    fp_addcarryx_u32(&mut x398, &mut x399, x397, x327, x373);
    let mut x400: u32 = 0;
    let mut x401: FpU1 = 0;
    fp_addcarryx_u32(&mut x400, &mut x401, x399, x329, x375);
    let mut x402: u32 = 0;
    let mut x403: FpU1 = 0;
    fp_addcarryx_u32(&mut x402, &mut x403, x401, x331, x377);
    let mut x404: u32 = 0;
    let mut x405: FpU1 = 0;
    fp_addcarryx_u32(&mut x404, &mut x405, x403, x333, x379);
    let mut x406: u32 = 0;
    let mut x407: FpU1 = 0;
    fp_addcarryx_u32(&mut x406, &mut x407, x405, x335, x381);
    let mut x408: u32 = 0;
    let mut x409: FpU1 = 0;
    fp_addcarryx_u32(&mut x408, &mut x409, x407, x337, x383);
    let mut x410: u32 = 0;
    let mut x411: FpU1 = 0;
    fp_addcarryx_u32(&mut x410, &mut x411, x409, x339, x385);
    let mut x412: u32 = 0;
    let mut x413: FpU1 = 0;
    fp_addcarryx_u32(&mut x412, &mut x413, x411, x341, x387);
    let mut x414: u32 = 0;
    let mut x415: FpU1 = 0;
    fp_addcarryx_u32(&mut x414, &mut x415, x413, x343, x389);
    let mut x416: u32 = 0;
    let mut x417: FpU1 = 0;
    fp_addcarryx_u32(&mut x416, &mut x417, x415, x345, x391);
    let mut x418: u32 = 0;
    let mut x419: FpU1 = 0;
    fp_addcarryx_u32(&mut x418, &mut x419, x417, x347, x393);
    let x420: u32 = ((x419 as u32) + (x348 as u32));
    let mut x421: u32 = 0;
    let mut x422: u32 = 0;
    fp_mulx_u32(&mut x421, &mut x422, x3, (arg1[11]));
    let mut x423: u32 = 0;
    let mut x424: u32 = 0;
    fp_mulx_u32(&mut x423, &mut x424, x3, (arg1[10]));
    let mut x425: u32 = 0;
    let mut x426: u32 = 0;
    fp_mulx_u32(&mut x425, &mut x426, x3, (arg1[9]));
    let mut x427: u32 = 0;
    let mut x428: u32 = 0;
    fp_mulx_u32(&mut x427, &mut x428, x3, (arg1[8]));
    let mut x429: u32 = 0;
    let mut x430: u32 = 0;
    fp_mulx_u32(&mut x429, &mut x430, x3, (arg1[7]));
    let mut x431: u32 = 0;
    let mut x432: u32 = 0;
    fp_mulx_u32(&mut x431, &mut x432, x3, (arg1[6]));
    let mut x433: u32 = 0;
    let mut x434: u32 = 0;
    fp_mulx_u32(&mut x433, &mut x434, x3, (arg1[5]));
    let mut x435: u32 = 0;
    let mut x436: u32 = 0;
    fp_mulx_u32(&mut x435, &mut x436, x3, (arg1[4]));
    let mut x437: u32 = 0;
    let mut x438: u32 = 0;
    fp_mulx_u32(&mut x437, &mut x438, x3, (arg1[3]));
    let mut x439: u32 = 0;
    let mut x440: u32 = 0;
    fp_mulx_u32(&mut x439, &mut x440, x3, (arg1[2]));
    let mut x441: u32 = 0;
    let mut x442: u32 = 0;
    fp_mulx_u32(&mut x441, &mut x442, x3, (arg1[1]));
    let mut x443: u32 = 0;
    let mut x444: u32 = 0;
    fp_mulx_u32(&mut x443, &mut x444, x3, (arg1[0]));
    let mut x445: u32 = 0;
    let mut x446: FpU1 = 0;
    fp_addcarryx_u32(&mut x445, &mut x446, 0x0, x444, x441);
    let mut x447: u32 = 0;
    let mut x448: FpU1 = 0;
    fp_addcarryx_u32(&mut x447, &mut x448, x446, x442, x439);
    let mut x449: u32 = 0;
    let mut x450: FpU1 = 0;
    fp_addcarryx_u32(&mut x449, &mut x450, x448, x440, x437);
    let mut x451: u32 = 0;
    let mut x452: FpU1 = 0;
    fp_addcarryx_u32(&mut x451, &mut x452, x450, x438, x435);
    let mut x453: u32 = 0;
    let mut x454: FpU1 = 0;
    fp_addcarryx_u32(&mut x453, &mut x454, x452, x436, x433);
    let mut x455: u32 = 0;
    let mut x456: FpU1 = 0;
    fp_addcarryx_u32(&mut x455, &mut x456, x454, x434, x431);
    let mut x457: u32 = 0;
    let mut x458: FpU1 = 0;
    fp_addcarryx_u32(&mut x457, &mut x458, x456, x432, x429);
    let mut x459: u32 = 0;
    let mut x460: FpU1 = 0;
    fp_addcarryx_u32(&mut x459, &mut x460, x458, x430, x427);
    let mut x461: u32 = 0;
    let mut x462: FpU1 = 0;
    fp_addcarryx_u32(&mut x461, &mut x462, x460, x428, x425);
    let mut x463: u32 = 0;
    let mut x464: FpU1 = 0;
    fp_addcarryx_u32(&mut x463, &mut x464, x462, x426, x423);
    let mut x465: u32 = 0;
    let mut x466: FpU1 = 0;
    fp_addcarryx_u32(&mut x465, &mut x466, x464, x424, x421);
    let x467: u32 = ((x466 as u32) + x422);
    let mut x468: u32 = 0;
    let mut x469: FpU1 = 0;
    fp_addcarryx_u32(&mut x468, &mut x469, 0x0, x396, x443);
    let mut x470: u32 = 0;
    let mut x471: FpU1 = 0;
    fp_addcarryx_u32(&mut x470, &mut x471, x469, x398, x445);
    let mut x472: u32 = 0;
    let mut x473: FpU1 = 0;
    fp_addcarryx_u32(&mut x472, &mut x473, x471, x400, x447);
    let mut x474: u32 = 0;
    let mut x475: FpU1 = 0;
    fp_addcarryx_u32(&mut x474, &mut x475, x473, x402, x449);
    let mut x476: u32 = 0;
    let mut x477: FpU1 = 0;
    fp_addcarryx_u32(&mut x476, &mut x477, x475, x404, x451);
    let mut x478: u32 = 0;
    let mut x479: FpU1 = 0;
    fp_addcarryx_u32(&mut x478, &mut x479, x477, x406, x453);
    let mut x480: u32 = 0;
    let mut x481: FpU1 = 0;
    fp_addcarryx_u32(&mut x480, &mut x481, x479, x408, x455);
    let mut x482: u32 = 0;
    let mut x483: FpU1 = 0;
    fp_addcarryx_u32(&mut x482, &mut x483, x481, x410, x457);
    let mut x484: u32 = 0;
    let mut x485: FpU1 = 0;
    fp_addcarryx_u32(&mut x484, &mut x485, x483, x412, x459);
    let mut x486: u32 = 0;
    let mut x487: FpU1 = 0;
    fp_addcarryx_u32(&mut x486, &mut x487, x485, x414, x461);
    let mut x488: u32 = 0;
    let mut x489: FpU1 = 0;
    fp_addcarryx_u32(&mut x488, &mut x489, x487, x416, x463);
    let mut x490: u32 = 0;
    let mut x491: FpU1 = 0;
    fp_addcarryx_u32(&mut x490, &mut x491, x489, x418, x465);
    let mut x492: u32 = 0;
    let mut x493: FpU1 = 0;
    fp_addcarryx_u32(&mut x492, &mut x493, x491, x420, x467);
    let mut x494: u32 = 0;
    let mut x495: u32 = 0;
    fp_mulx_u32(&mut x494, &mut x495, x468, 0xffffffff);
    let mut x496: u32 = 0;
    let mut x497: u32 = 0;
    fp_mulx_u32(&mut x496, &mut x497, x494, 0x1ae3a46);
    let mut x498: u32 = 0;
    let mut x499: u32 = 0;
    fp_mulx_u32(&mut x498, &mut x499, x494, 0x17c510ea);
    let mut x500: u32 = 0;
    let mut x501: u32 = 0;
    fp_mulx_u32(&mut x500, &mut x501, x494, 0xc63b05c0);
    let mut x502: u32 = 0;
    let mut x503: u32 = 0;
    fp_mulx_u32(&mut x502, &mut x503, x494, 0x6ca1493b);
    let mut x504: u32 = 0;
    let mut x505: u32 = 0;
    fp_mulx_u32(&mut x504, &mut x505, x494, 0x1a22d9f3);
    let mut x506: u32 = 0;
    let mut x507: u32 = 0;
    fp_mulx_u32(&mut x506, &mut x507, x494, 0xf5138f);
    let mut x508: u32 = 0;
    let mut x509: u32 = 0;
    fp_mulx_u32(&mut x508, &mut x509, x494, 0x1ef3622f);
    let mut x510: u32 = 0;
    let mut x511: u32 = 0;
    fp_mulx_u32(&mut x510, &mut x511, x494, 0xba094800);
    let mut x512: u32 = 0;
    let mut x513: u32 = 0;
    fp_mulx_u32(&mut x512, &mut x513, x494, 0x170b5d44);
    let mut x514: u32 = 0;
    let mut x515: u32 = 0;
    fp_mulx_u32(&mut x514, &mut x515, x494, 0x30000000);
    let mut x516: u32 = 0;
    let mut x517: u32 = 0;
    fp_mulx_u32(&mut x516, &mut x517, x494, 0x8508c000);
    let mut x518: u32 = 0;
    let mut x519: FpU1 = 0;
    fp_addcarryx_u32(&mut x518, &mut x519, 0x0, x517, x514);
    let mut x520: u32 = 0;
    let mut x521: FpU1 = 0;
    fp_addcarryx_u32(&mut x520, &mut x521, x519, x515, x512);
    let mut x522: u32 = 0;
    let mut x523: FpU1 = 0;
    fp_addcarryx_u32(&mut x522, &mut x523, x521, x513, x510);
    let mut x524: u32 = 0;
    let mut x525: FpU1 = 0;
    fp_addcarryx_u32(&mut x524, &mut x525, x523, x511, x508);
    let mut x526: u32 = 0;
    let mut x527: FpU1 = 0;
    fp_addcarryx_u32(&mut x526, &mut x527, x525, x509, x506);
    let mut x528: u32 = 0;
    let mut x529: FpU1 = 0;
    fp_addcarryx_u32(&mut x528, &mut x529, x527, x507, x504);
    let mut x530: u32 = 0;
    let mut x531: FpU1 = 0;
    fp_addcarryx_u32(&mut x530, &mut x531, x529, x505, x502);
    let mut x532: u32 = 0;
    let mut x533: FpU1 = 0;
    fp_addcarryx_u32(&mut x532, &mut x533, x531, x503, x500);
    let mut x534: u32 = 0;
    let mut x535: FpU1 = 0;
    fp_addcarryx_u32(&mut x534, &mut x535, x533, x501, x498);
    let mut x536: u32 = 0;
    let mut x537: FpU1 = 0;
    fp_addcarryx_u32(&mut x536, &mut x537, x535, x499, x496);
    let x538: u32 = ((x537 as u32) + x497);
    let mut x539: u32 = 0;
    let mut x540: FpU1 = 0;
    fp_addcarryx_u32(&mut x539, &mut x540, 0x0, x468, x494);
    let mut x541: u32 = 0;
    let mut x542: FpU1 = 0;
    fp_addcarryx_u32(&mut x541, &mut x542, x540, x470, x516);
    let mut x543: u32 = 0;
    let mut x544: FpU1 = 0;
    fp_addcarryx_u32(&mut x543, &mut x544, x542, x472, x518);
    let mut x545: u32 = 0;
    let mut x546: FpU1 = 0;
    fp_addcarryx_u32(&mut x545, &mut x546, x544, x474, x520);
    let mut x547: u32 = 0;
    let mut x548: FpU1 = 0;
    fp_addcarryx_u32(&mut x547, &mut x548, x546, x476, x522);
    let mut x549: u32 = 0;
    let mut x550: FpU1 = 0;
    fp_addcarryx_u32(&mut x549, &mut x550, x548, x478, x524);
    let mut x551: u32 = 0;
    let mut x552: FpU1 = 0;
    fp_addcarryx_u32(&mut x551, &mut x552, x550, x480, x526);
    let mut x553: u32 = 0;
    let mut x554: FpU1 = 0;
    fp_addcarryx_u32(&mut x553, &mut x554, x552, x482, x528);
    let mut x555: u32 = 0;
    let mut x556: FpU1 = 0;
    fp_addcarryx_u32(&mut x555, &mut x556, x554, x484, x530);
    let mut x557: u32 = 0;
    let mut x558: FpU1 = 0;
    fp_addcarryx_u32(&mut x557, &mut x558, x556, x486, x532);
    let mut x559: u32 = 0;
    let mut x560: FpU1 = 0;
    fp_addcarryx_u32(&mut x559, &mut x560, x558, x488, x534);
    let mut x561: u32 = 0;
    let mut x562: FpU1 = 0;
    fp_addcarryx_u32(&mut x561, &mut x562, x560, x490, x536);
    let mut x563: u32 = 0;
    let mut x564: FpU1 = 0;
    fp_addcarryx_u32(&mut x563, &mut x564, x562, x492, x538);
    let x565: u32 = ((x564 as u32) + (x493 as u32));
    let mut x566: u32 = 0;
    let mut x567: u32 = 0;
    fp_mulx_u32(&mut x566, &mut x567, x4, (arg1[11]));
    let mut x568: u32 = 0;
    let mut x569: u32 = 0;
    fp_mulx_u32(&mut x568, &mut x569, x4, (arg1[10]));
    let mut x570: u32 = 0;
    let mut x571: u32 = 0;
    fp_mulx_u32(&mut x570, &mut x571, x4, (arg1[9]));
    let mut x572: u32 = 0;
    let mut x573: u32 = 0;
    fp_mulx_u32(&mut x572, &mut x573, x4, (arg1[8]));
    let mut x574: u32 = 0;
    let mut x575: u32 = 0;
    fp_mulx_u32(&mut x574, &mut x575, x4, (arg1[7]));
    let mut x576: u32 = 0;
    let mut x577: u32 = 0;
    fp_mulx_u32(&mut x576, &mut x577, x4, (arg1[6]));
    let mut x578: u32 = 0;
    let mut x579: u32 = 0;
    fp_mulx_u32(&mut x578, &mut x579, x4, (arg1[5]));
    let mut x580: u32 = 0;
    let mut x581: u32 = 0;
    fp_mulx_u32(&mut x580, &mut x581, x4, (arg1[4]));
    let mut x582: u32 = 0;
    let mut x583: u32 = 0;
    fp_mulx_u32(&mut x582, &mut x583, x4, (arg1[3]));
    let mut x584: u32 = 0;
    let mut x585: u32 = 0;
    fp_mulx_u32(&mut x584, &mut x585, x4, (arg1[2]));
    let mut x586: u32 = 0;
    let mut x587: u32 = 0;
    fp_mulx_u32(&mut x586, &mut x587, x4, (arg1[1]));
    let mut x588: u32 = 0;
    let mut x589: u32 = 0;
    fp_mulx_u32(&mut x588, &mut x589, x4, (arg1[0]));
    let mut x590: u32 = 0;
    let mut x591: FpU1 = 0;
    fp_addcarryx_u32(&mut x590, &mut x591, 0x0, x589, x586);
    let mut x592: u32 = 0;
    let mut x593: FpU1 = 0;
    fp_addcarryx_u32(&mut x592, &mut x593, x591, x587, x584);
    let mut x594: u32 = 0;
    let mut x595: FpU1 = 0;
    fp_addcarryx_u32(&mut x594, &mut x595, x593, x585, x582);
    let mut x596: u32 = 0;
    let mut x597: FpU1 = 0;
    fp_addcarryx_u32(&mut x596, &mut x597, x595, x583, x580);
    let mut x598: u32 = 0;
    let mut x599: FpU1 = 0;
    fp_addcarryx_u32(&mut x598, &mut x599, x597, x581, x578);
    let mut x600: u32 = 0;
    let mut x601: FpU1 = 0;
    fp_addcarryx_u32(&mut x600, &mut x601, x599, x579, x576);
    let mut x602: u32 = 0;
    let mut x603: FpU1 = 0;
    fp_addcarryx_u32(&mut x602, &mut x603, x601, x577, x574);
    let mut x604: u32 = 0;
    let mut x605: FpU1 = 0;
    fp_addcarryx_u32(&mut x604, &mut x605, x603, x575, x572);
    let mut x606: u32 = 0;
    let mut x607: FpU1 = 0;
    fp_addcarryx_u32(&mut x606, &mut x607, x605, x573, x570);
    let mut x608: u32 = 0;
    let mut x609: FpU1 = 0;
    fp_addcarryx_u32(&mut x608, &mut x609, x607, x571, x568);
    let mut x610: u32 = 0;
    let mut x611: FpU1 = 0;
    fp_addcarryx_u32(&mut x610, &mut x611, x609, x569, x566);
    let x612: u32 = ((x611 as u32) + x567);
    let mut x613: u32 = 0;
    let mut x614: FpU1 = 0;
    fp_addcarryx_u32(&mut x613, &mut x614, 0x0, x541, x588);
    let mut x615: u32 = 0;
    let mut x616: FpU1 = 0;
    fp_addcarryx_u32(&mut x615, &mut x616, x614, x543, x590);
    let mut x617: u32 = 0;
    let mut x618: FpU1 = 0;
    fp_addcarryx_u32(&mut x617, &mut x618, x616, x545, x592);
    let mut x619: u32 = 0;
    let mut x620: FpU1 = 0;
    fp_addcarryx_u32(&mut x619, &mut x620, x618, x547, x594);
    let mut x621: u32 = 0;
    let mut x622: FpU1 = 0;
    fp_addcarryx_u32(&mut x621, &mut x622, x620, x549, x596);
    let mut x623: u32 = 0;
    let mut x624: FpU1 = 0;
    fp_addcarryx_u32(&mut x623, &mut x624, x622, x551, x598);
    let mut x625: u32 = 0;
    let mut x626: FpU1 = 0;
    fp_addcarryx_u32(&mut x625, &mut x626, x624, x553, x600);
    let mut x627: u32 = 0;
    let mut x628: FpU1 = 0;
    fp_addcarryx_u32(&mut x627, &mut x628, x626, x555, x602);
    let mut x629: u32 = 0;
    let mut x630: FpU1 = 0;
    fp_addcarryx_u32(&mut x629, &mut x630, x628, x557, x604);
    let mut x631: u32 = 0;
    let mut x632: FpU1 = 0;
    fp_addcarryx_u32(&mut x631, &mut x632, x630, x559, x606);
    let mut x633: u32 = 0;
    let mut x634: FpU1 = 0;
    fp_addcarryx_u32(&mut x633, &mut x634, x632, x561, x608);
    let mut x635: u32 = 0;
    let mut x636: FpU1 = 0;
    fp_addcarryx_u32(&mut x635, &mut x636, x634, x563, x610);
    let mut x637: u32 = 0;
    let mut x638: FpU1 = 0;
    fp_addcarryx_u32(&mut x637, &mut x638, x636, x565, x612);
    let mut x639: u32 = 0;
    let mut x640: u32 = 0;
    fp_mulx_u32(&mut x639, &mut x640, x613, 0xffffffff);
    let mut x641: u32 = 0;
    let mut x642: u32 = 0;
    fp_mulx_u32(&mut x641, &mut x642, x639, 0x1ae3a46);
    let mut x643: u32 = 0;
    let mut x644: u32 = 0;
    fp_mulx_u32(&mut x643, &mut x644, x639, 0x17c510ea);
    let mut x645: u32 = 0;
    let mut x646: u32 = 0;
    fp_mulx_u32(&mut x645, &mut x646, x639, 0xc63b05c0);
    let mut x647: u32 = 0;
    let mut x648: u32 = 0;
    fp_mulx_u32(&mut x647, &mut x648, x639, 0x6ca1493b);
    let mut x649: u32 = 0;
    let mut x650: u32 = 0;
    fp_mulx_u32(&mut x649, &mut x650, x639, 0x1a22d9f3);
    let mut x651: u32 = 0;
    let mut x652: u32 = 0;
    fp_mulx_u32(&mut x651, &mut x652, x639, 0xf5138f);
    let mut x653: u32 = 0;
    let mut x654: u32 = 0;
    fp_mulx_u32(&mut x653, &mut x654, x639, 0x1ef3622f);
    let mut x655: u32 = 0;
    let mut x656: u32 = 0;
    fp_mulx_u32(&mut x655, &mut x656, x639, 0xba094800);
    let mut x657: u32 = 0;
    let mut x658: u32 = 0;
    fp_mulx_u32(&mut x657, &mut x658, x639, 0x170b5d44);
    let mut x659: u32 = 0;
    let mut x660: u32 = 0;
    fp_mulx_u32(&mut x659, &mut x660, x639, 0x30000000);
    let mut x661: u32 = 0;
    let mut x662: u32 = 0;
    fp_mulx_u32(&mut x661, &mut x662, x639, 0x8508c000);
    let mut x663: u32 = 0;
    let mut x664: FpU1 = 0;
    fp_addcarryx_u32(&mut x663, &mut x664, 0x0, x662, x659);
    let mut x665: u32 = 0;
    let mut x666: FpU1 = 0;
    fp_addcarryx_u32(&mut x665, &mut x666, x664, x660, x657);
    let mut x667: u32 = 0;
    let mut x668: FpU1 = 0;
    fp_addcarryx_u32(&mut x667, &mut x668, x666, x658, x655);
    let mut x669: u32 = 0;
    let mut x670: FpU1 = 0;
    fp_addcarryx_u32(&mut x669, &mut x670, x668, x656, x653);
    let mut x671: u32 = 0;
    let mut x672: FpU1 = 0;
    fp_addcarryx_u32(&mut x671, &mut x672, x670, x654, x651);
    let mut x673: u32 = 0;
    let mut x674: FpU1 = 0;
    fp_addcarryx_u32(&mut x673, &mut x674, x672, x652, x649);
    let mut x675: u32 = 0;
    let mut x676: FpU1 = 0;
    fp_addcarryx_u32(&mut x675, &mut x676, x674, x650, x647);
    let mut x677: u32 = 0;
    let mut x678: FpU1 = 0;
    fp_addcarryx_u32(&mut x677, &mut x678, x676, x648, x645);
    let mut x679: u32 = 0;
    let mut x680: FpU1 = 0;
    fp_addcarryx_u32(&mut x679, &mut x680, x678, x646, x643);
    let mut x681: u32 = 0;
    let mut x682: FpU1 = 0;
    fp_addcarryx_u32(&mut x681, &mut x682, x680, x644, x641);
    let x683: u32 = ((x682 as u32) + x642);
    let mut x684: u32 = 0;
    let mut x685: FpU1 = 0;
    fp_addcarryx_u32(&mut x684, &mut x685, 0x0, x613, x639);
    let mut x686: u32 = 0;
    let mut x687: FpU1 = 0;
    fp_addcarryx_u32(&mut x686, &mut x687, x685, x615, x661);
    let mut x688: u32 = 0;
    let mut x689: FpU1 = 0;
    fp_addcarryx_u32(&mut x688, &mut x689, x687, x617, x663);
    let mut x690: u32 = 0;
    let mut x691: FpU1 = 0;
    fp_addcarryx_u32(&mut x690, &mut x691, x689, x619, x665);
    let mut x692: u32 = 0;
    let mut x693: FpU1 = 0;
    fp_addcarryx_u32(&mut x692, &mut x693, x691, x621, x667);
    let mut x694: u32 = 0;
    let mut x695: FpU1 = 0;
    fp_addcarryx_u32(&mut x694, &mut x695, x693, x623, x669);
    let mut x696: u32 = 0;
    let mut x697: FpU1 = 0;
    fp_addcarryx_u32(&mut x696, &mut x697, x695, x625, x671);
    let mut x698: u32 = 0;
    let mut x699: FpU1 = 0;
    fp_addcarryx_u32(&mut x698, &mut x699, x697, x627, x673);
    let mut x700: u32 = 0;
    let mut x701: FpU1 = 0;
    fp_addcarryx_u32(&mut x700, &mut x701, x699, x629, x675);
    let mut x702: u32 = 0;
    let mut x703: FpU1 = 0;
    fp_addcarryx_u32(&mut x702, &mut x703, x701, x631, x677);
    let mut x704: u32 = 0;
    let mut x705: FpU1 = 0;
    fp_addcarryx_u32(&mut x704, &mut x705, x703, x633, x679);
    let mut x706: u32 = 0;
    let mut x707: FpU1 = 0;
    fp_addcarryx_u32(&mut x706, &mut x707, x705, x635, x681);
    let mut x708: u32 = 0;
    let mut x709: FpU1 = 0;
    fp_addcarryx_u32(&mut x708, &mut x709, x707, x637, x683);
    let x710: u32 = ((x709 as u32) + (x638 as u32));
    let mut x711: u32 = 0;
    let mut x712: u32 = 0;
    fp_mulx_u32(&mut x711, &mut x712, x5, (arg1[11]));
    let mut x713: u32 = 0;
    let mut x714: u32 = 0;
    fp_mulx_u32(&mut x713, &mut x714, x5, (arg1[10]));
    let mut x715: u32 = 0;
    let mut x716: u32 = 0;
    fp_mulx_u32(&mut x715, &mut x716, x5, (arg1[9]));
    let mut x717: u32 = 0;
    let mut x718: u32 = 0;
    fp_mulx_u32(&mut x717, &mut x718, x5, (arg1[8]));
    let mut x719: u32 = 0;
    let mut x720: u32 = 0;
    fp_mulx_u32(&mut x719, &mut x720, x5, (arg1[7]));
    let mut x721: u32 = 0;
    let mut x722: u32 = 0;
    fp_mulx_u32(&mut x721, &mut x722, x5, (arg1[6]));
    let mut x723: u32 = 0;
    let mut x724: u32 = 0;
    fp_mulx_u32(&mut x723, &mut x724, x5, (arg1[5]));
    let mut x725: u32 = 0;
    let mut x726: u32 = 0;
    fp_mulx_u32(&mut x725, &mut x726, x5, (arg1[4]));
    let mut x727: u32 = 0;
    let mut x728: u32 = 0;
    fp_mulx_u32(&mut x727, &mut x728, x5, (arg1[3]));
    let mut x729: u32 = 0;
    let mut x730: u32 = 0;
    fp_mulx_u32(&mut x729, &mut x730, x5, (arg1[2]));
    let mut x731: u32 = 0;
    let mut x732: u32 = 0;
    fp_mulx_u32(&mut x731, &mut x732, x5, (arg1[1]));
    let mut x733: u32 = 0;
    let mut x734: u32 = 0;
    fp_mulx_u32(&mut x733, &mut x734, x5, (arg1[0]));
    let mut x735: u32 = 0;
    let mut x736: FpU1 = 0;
    fp_addcarryx_u32(&mut x735, &mut x736, 0x0, x734, x731);
    let mut x737: u32 = 0;
    let mut x738: FpU1 = 0;
    fp_addcarryx_u32(&mut x737, &mut x738, x736, x732, x729);
    let mut x739: u32 = 0;
    let mut x740: FpU1 = 0;
    fp_addcarryx_u32(&mut x739, &mut x740, x738, x730, x727);
    let mut x741: u32 = 0;
    let mut x742: FpU1 = 0;
    fp_addcarryx_u32(&mut x741, &mut x742, x740, x728, x725);
    let mut x743: u32 = 0;
    let mut x744: FpU1 = 0;
    fp_addcarryx_u32(&mut x743, &mut x744, x742, x726, x723);
    let mut x745: u32 = 0;
    let mut x746: FpU1 = 0;
    fp_addcarryx_u32(&mut x745, &mut x746, x744, x724, x721);
    let mut x747: u32 = 0;
    let mut x748: FpU1 = 0;
    fp_addcarryx_u32(&mut x747, &mut x748, x746, x722, x719);
    let mut x749: u32 = 0;
    let mut x750: FpU1 = 0;
    fp_addcarryx_u32(&mut x749, &mut x750, x748, x720, x717);
    let mut x751: u32 = 0;
    let mut x752: FpU1 = 0;
    fp_addcarryx_u32(&mut x751, &mut x752, x750, x718, x715);
    let mut x753: u32 = 0;
    let mut x754: FpU1 = 0;
    fp_addcarryx_u32(&mut x753, &mut x754, x752, x716, x713);
    let mut x755: u32 = 0;
    let mut x756: FpU1 = 0;
    fp_addcarryx_u32(&mut x755, &mut x756, x754, x714, x711);
    let x757: u32 = ((x756 as u32) + x712);
    let mut x758: u32 = 0;
    let mut x759: FpU1 = 0;
    fp_addcarryx_u32(&mut x758, &mut x759, 0x0, x686, x733);
    let mut x760: u32 = 0;
    let mut x761: FpU1 = 0;
    fp_addcarryx_u32(&mut x760, &mut x761, x759, x688, x735);
    let mut x762: u32 = 0;
    let mut x763: FpU1 = 0;
    fp_addcarryx_u32(&mut x762, &mut x763, x761, x690, x737);
    let mut x764: u32 = 0;
    let mut x765: FpU1 = 0;
    fp_addcarryx_u32(&mut x764, &mut x765, x763, x692, x739);
    let mut x766: u32 = 0;
    let mut x767: FpU1 = 0;
    fp_addcarryx_u32(&mut x766, &mut x767, x765, x694, x741);
    let mut x768: u32 = 0;
    let mut x769: FpU1 = 0;
    fp_addcarryx_u32(&mut x768, &mut x769, x767, x696, x743);
    let mut x770: u32 = 0;
    let mut x771: FpU1 = 0;
    fp_addcarryx_u32(&mut x770, &mut x771, x769, x698, x745);
    let mut x772: u32 = 0;
    let mut x773: FpU1 = 0;
    fp_addcarryx_u32(&mut x772, &mut x773, x771, x700, x747);
    let mut x774: u32 = 0;
    let mut x775: FpU1 = 0;
    fp_addcarryx_u32(&mut x774, &mut x775, x773, x702, x749);
    let mut x776: u32 = 0;
    let mut x777: FpU1 = 0;
    fp_addcarryx_u32(&mut x776, &mut x777, x775, x704, x751);
    let mut x778: u32 = 0;
    let mut x779: FpU1 = 0;
    fp_addcarryx_u32(&mut x778, &mut x779, x777, x706, x753);
    let mut x780: u32 = 0;
    let mut x781: FpU1 = 0;
    fp_addcarryx_u32(&mut x780, &mut x781, x779, x708, x755);
    let mut x782: u32 = 0;
    let mut x783: FpU1 = 0;
    fp_addcarryx_u32(&mut x782, &mut x783, x781, x710, x757);
    let mut x784: u32 = 0;
    let mut x785: u32 = 0;
    fp_mulx_u32(&mut x784, &mut x785, x758, 0xffffffff);
    let mut x786: u32 = 0;
    let mut x787: u32 = 0;
    fp_mulx_u32(&mut x786, &mut x787, x784, 0x1ae3a46);
    let mut x788: u32 = 0;
    let mut x789: u32 = 0;
    fp_mulx_u32(&mut x788, &mut x789, x784, 0x17c510ea);
    let mut x790: u32 = 0;
    let mut x791: u32 = 0;
    fp_mulx_u32(&mut x790, &mut x791, x784, 0xc63b05c0);
    let mut x792: u32 = 0;
    let mut x793: u32 = 0;
    fp_mulx_u32(&mut x792, &mut x793, x784, 0x6ca1493b);
    let mut x794: u32 = 0;
    let mut x795: u32 = 0;
    fp_mulx_u32(&mut x794, &mut x795, x784, 0x1a22d9f3);
    let mut x796: u32 = 0;
    let mut x797: u32 = 0;
    fp_mulx_u32(&mut x796, &mut x797, x784, 0xf5138f);
    let mut x798: u32 = 0;
    let mut x799: u32 = 0;
    fp_mulx_u32(&mut x798, &mut x799, x784, 0x1ef3622f);
    let mut x800: u32 = 0;
    let mut x801: u32 = 0;
    fp_mulx_u32(&mut x800, &mut x801, x784, 0xba094800);
    let mut x802: u32 = 0;
    let mut x803: u32 = 0;
    fp_mulx_u32(&mut x802, &mut x803, x784, 0x170b5d44);
    let mut x804: u32 = 0;
    let mut x805: u32 = 0;
    fp_mulx_u32(&mut x804, &mut x805, x784, 0x30000000);
    let mut x806: u32 = 0;
    let mut x807: u32 = 0;
    fp_mulx_u32(&mut x806, &mut x807, x784, 0x8508c000);
    let mut x808: u32 = 0;
    let mut x809: FpU1 = 0;
    fp_addcarryx_u32(&mut x808, &mut x809, 0x0, x807, x804);
    let mut x810: u32 = 0;
    let mut x811: FpU1 = 0;
    fp_addcarryx_u32(&mut x810, &mut x811, x809, x805, x802);
    let mut x812: u32 = 0;
    let mut x813: FpU1 = 0;
    fp_addcarryx_u32(&mut x812, &mut x813, x811, x803, x800);
    let mut x814: u32 = 0;
    let mut x815: FpU1 = 0;
    fp_addcarryx_u32(&mut x814, &mut x815, x813, x801, x798);
    let mut x816: u32 = 0;
    let mut x817: FpU1 = 0;
    fp_addcarryx_u32(&mut x816, &mut x817, x815, x799, x796);
    let mut x818: u32 = 0;
    let mut x819: FpU1 = 0;
    fp_addcarryx_u32(&mut x818, &mut x819, x817, x797, x794);
    let mut x820: u32 = 0;
    let mut x821: FpU1 = 0;
    fp_addcarryx_u32(&mut x820, &mut x821, x819, x795, x792);
    let mut x822: u32 = 0;
    let mut x823: FpU1 = 0;
    fp_addcarryx_u32(&mut x822, &mut x823, x821, x793, x790);
    let mut x824: u32 = 0;
    let mut x825: FpU1 = 0;
    fp_addcarryx_u32(&mut x824, &mut x825, x823, x791, x788);
    let mut x826: u32 = 0;
    let mut x827: FpU1 = 0;
    fp_addcarryx_u32(&mut x826, &mut x827, x825, x789, x786);
    let x828: u32 = ((x827 as u32) + x787);
    let mut x829: u32 = 0;
    let mut x830: FpU1 = 0;
    fp_addcarryx_u32(&mut x829, &mut x830, 0x0, x758, x784);
    let mut x831: u32 = 0;
    let mut x832: FpU1 = 0;
    fp_addcarryx_u32(&mut x831, &mut x832, x830, x760, x806);
    let mut x833: u32 = 0;
    let mut x834: FpU1 = 0;
    fp_addcarryx_u32(&mut x833, &mut x834, x832, x762, x808);
    let mut x835: u32 = 0;
    let mut x836: FpU1 = 0;
    fp_addcarryx_u32(&mut x835, &mut x836, x834, x764, x810);
    let mut x837: u32 = 0;
    let mut x838: FpU1 = 0;
    fp_addcarryx_u32(&mut x837, &mut x838, x836, x766, x812);
    let mut x839: u32 = 0;
    let mut x840: FpU1 = 0;
    fp_addcarryx_u32(&mut x839, &mut x840, x838, x768, x814);
    let mut x841: u32 = 0;
    let mut x842: FpU1 = 0;
    fp_addcarryx_u32(&mut x841, &mut x842, x840, x770, x816);
    let mut x843: u32 = 0;
    let mut x844: FpU1 = 0;
    fp_addcarryx_u32(&mut x843, &mut x844, x842, x772, x818);
    let mut x845: u32 = 0;
    let mut x846: FpU1 = 0;
    fp_addcarryx_u32(&mut x845, &mut x846, x844, x774, x820);
    let mut x847: u32 = 0;
    let mut x848: FpU1 = 0;
    fp_addcarryx_u32(&mut x847, &mut x848, x846, x776, x822);
    let mut x849: u32 = 0;
    let mut x850: FpU1 = 0;
    fp_addcarryx_u32(&mut x849, &mut x850, x848, x778, x824);
    let mut x851: u32 = 0;
    let mut x852: FpU1 = 0;
    fp_addcarryx_u32(&mut x851, &mut x852, x850, x780, x826);
    let mut x853: u32 = 0;
    let mut x854: FpU1 = 0;
    fp_addcarryx_u32(&mut x853, &mut x854, x852, x782, x828);
    let x855: u32 = ((x854 as u32) + (x783 as u32));
    let mut x856: u32 = 0;
    let mut x857: u32 = 0;
    fp_mulx_u32(&mut x856, &mut x857, x6, (arg1[11]));
    let mut x858: u32 = 0;
    let mut x859: u32 = 0;
    fp_mulx_u32(&mut x858, &mut x859, x6, (arg1[10]));
    let mut x860: u32 = 0;
    let mut x861: u32 = 0;
    fp_mulx_u32(&mut x860, &mut x861, x6, (arg1[9]));
    let mut x862: u32 = 0;
    let mut x863: u32 = 0;
    fp_mulx_u32(&mut x862, &mut x863, x6, (arg1[8]));
    let mut x864: u32 = 0;
    let mut x865: u32 = 0;
    fp_mulx_u32(&mut x864, &mut x865, x6, (arg1[7]));
    let mut x866: u32 = 0;
    let mut x867: u32 = 0;
    fp_mulx_u32(&mut x866, &mut x867, x6, (arg1[6]));
    let mut x868: u32 = 0;
    let mut x869: u32 = 0;
    fp_mulx_u32(&mut x868, &mut x869, x6, (arg1[5]));
    let mut x870: u32 = 0;
    let mut x871: u32 = 0;
    fp_mulx_u32(&mut x870, &mut x871, x6, (arg1[4]));
    let mut x872: u32 = 0;
    let mut x873: u32 = 0;
    fp_mulx_u32(&mut x872, &mut x873, x6, (arg1[3]));
    let mut x874: u32 = 0;
    let mut x875: u32 = 0;
    fp_mulx_u32(&mut x874, &mut x875, x6, (arg1[2]));
    let mut x876: u32 = 0;
    let mut x877: u32 = 0;
    fp_mulx_u32(&mut x876, &mut x877, x6, (arg1[1]));
    let mut x878: u32 = 0;
    let mut x879: u32 = 0;
    fp_mulx_u32(&mut x878, &mut x879, x6, (arg1[0]));
    let mut x880: u32 = 0;
    let mut x881: FpU1 = 0;
    fp_addcarryx_u32(&mut x880, &mut x881, 0x0, x879, x876);
    let mut x882: u32 = 0;
    let mut x883: FpU1 = 0;
    fp_addcarryx_u32(&mut x882, &mut x883, x881, x877, x874);
    let mut x884: u32 = 0;
    let mut x885: FpU1 = 0;
    fp_addcarryx_u32(&mut x884, &mut x885, x883, x875, x872);
    let mut x886: u32 = 0;
    let mut x887: FpU1 = 0;
    fp_addcarryx_u32(&mut x886, &mut x887, x885, x873, x870);
    let mut x888: u32 = 0;
    let mut x889: FpU1 = 0;
    fp_addcarryx_u32(&mut x888, &mut x889, x887, x871, x868);
    let mut x890: u32 = 0;
    let mut x891: FpU1 = 0;
    fp_addcarryx_u32(&mut x890, &mut x891, x889, x869, x866);
    let mut x892: u32 = 0;
    let mut x893: FpU1 = 0;
    fp_addcarryx_u32(&mut x892, &mut x893, x891, x867, x864);
    let mut x894: u32 = 0;
    let mut x895: FpU1 = 0;
    fp_addcarryx_u32(&mut x894, &mut x895, x893, x865, x862);
    let mut x896: u32 = 0;
    let mut x897: FpU1 = 0;
    fp_addcarryx_u32(&mut x896, &mut x897, x895, x863, x860);
    let mut x898: u32 = 0;
    let mut x899: FpU1 = 0;
    fp_addcarryx_u32(&mut x898, &mut x899, x897, x861, x858);
    let mut x900: u32 = 0;
    let mut x901: FpU1 = 0;
    fp_addcarryx_u32(&mut x900, &mut x901, x899, x859, x856);
    let x902: u32 = ((x901 as u32) + x857);
    let mut x903: u32 = 0;
    let mut x904: FpU1 = 0;
    fp_addcarryx_u32(&mut x903, &mut x904, 0x0, x831, x878);
    let mut x905: u32 = 0;
    let mut x906: FpU1 = 0;
    fp_addcarryx_u32(&mut x905, &mut x906, x904, x833, x880);
    let mut x907: u32 = 0;
    let mut x908: FpU1 = 0;
    fp_addcarryx_u32(&mut x907, &mut x908, x906, x835, x882);
    let mut x909: u32 = 0;
    let mut x910: FpU1 = 0;
    fp_addcarryx_u32(&mut x909, &mut x910, x908, x837, x884);
    let mut x911: u32 = 0;
    let mut x912: FpU1 = 0;
    fp_addcarryx_u32(&mut x911, &mut x912, x910, x839, x886);
    let mut x913: u32 = 0;
    let mut x914: FpU1 = 0;
    fp_addcarryx_u32(&mut x913, &mut x914, x912, x841, x888);
    let mut x915: u32 = 0;
    let mut x916: FpU1 = 0;
    fp_addcarryx_u32(&mut x915, &mut x916, x914, x843, x890);
    let mut x917: u32 = 0;
    let mut x918: FpU1 = 0;
    fp_addcarryx_u32(&mut x917, &mut x918, x916, x845, x892);
    let mut x919: u32 = 0;
    let mut x920: FpU1 = 0;
    fp_addcarryx_u32(&mut x919, &mut x920, x918, x847, x894);
    let mut x921: u32 = 0;
    let mut x922: FpU1 = 0;
    fp_addcarryx_u32(&mut x921, &mut x922, x920, x849, x896);
    let mut x923: u32 = 0;
    let mut x924: FpU1 = 0;
    fp_addcarryx_u32(&mut x923, &mut x924, x922, x851, x898);
    let mut x925: u32 = 0;
    let mut x926: FpU1 = 0;
    fp_addcarryx_u32(&mut x925, &mut x926, x924, x853, x900);
    let mut x927: u32 = 0;
    let mut x928: FpU1 = 0;
    fp_addcarryx_u32(&mut x927, &mut x928, x926, x855, x902);
    let mut x929: u32 = 0;
    let mut x930: u32 = 0;
    fp_mulx_u32(&mut x929, &mut x930, x903, 0xffffffff);
    let mut x931: u32 = 0;
    let mut x932: u32 = 0;
    fp_mulx_u32(&mut x931, &mut x932, x929, 0x1ae3a46);
    let mut x933: u32 = 0;
    let mut x934: u32 = 0;
    fp_mulx_u32(&mut x933, &mut x934, x929, 0x17c510ea);
    let mut x935: u32 = 0;
    let mut x936: u32 = 0;
    fp_mulx_u32(&mut x935, &mut x936, x929, 0xc63b05c0);
    let mut x937: u32 = 0;
    let mut x938: u32 = 0;
    fp_mulx_u32(&mut x937, &mut x938, x929, 0x6ca1493b);
    let mut x939: u32 = 0;
    let mut x940: u32 = 0;
    fp_mulx_u32(&mut x939, &mut x940, x929, 0x1a22d9f3);
    let mut x941: u32 = 0;
    let mut x942: u32 = 0;
    fp_mulx_u32(&mut x941, &mut x942, x929, 0xf5138f);
    let mut x943: u32 = 0;
    let mut x944: u32 = 0;
    fp_mulx_u32(&mut x943, &mut x944, x929, 0x1ef3622f);
    let mut x945: u32 = 0;
    let mut x946: u32 = 0;
    fp_mulx_u32(&mut x945, &mut x946, x929, 0xba094800);
    let mut x947: u32 = 0;
    let mut x948: u32 = 0;
    fp_mulx_u32(&mut x947, &mut x948, x929, 0x170b5d44);
    let mut x949: u32 = 0;
    let mut x950: u32 = 0;
    fp_mulx_u32(&mut x949, &mut x950, x929, 0x30000000);
    let mut x951: u32 = 0;
    let mut x952: u32 = 0;
    fp_mulx_u32(&mut x951, &mut x952, x929, 0x8508c000);
    let mut x953: u32 = 0;
    let mut x954: FpU1 = 0;
    fp_addcarryx_u32(&mut x953, &mut x954, 0x0, x952, x949);
    let mut x955: u32 = 0;
    let mut x956: FpU1 = 0;
    fp_addcarryx_u32(&mut x955, &mut x956, x954, x950, x947);
    let mut x957: u32 = 0;
    let mut x958: FpU1 = 0;
    fp_addcarryx_u32(&mut x957, &mut x958, x956, x948, x945);
    let mut x959: u32 = 0;
    let mut x960: FpU1 = 0;
    fp_addcarryx_u32(&mut x959, &mut x960, x958, x946, x943);
    let mut x961: u32 = 0;
    let mut x962: FpU1 = 0;
    fp_addcarryx_u32(&mut x961, &mut x962, x960, x944, x941);
    let mut x963: u32 = 0;
    let mut x964: FpU1 = 0;
    fp_addcarryx_u32(&mut x963, &mut x964, x962, x942, x939);
    let mut x965: u32 = 0;
    let mut x966: FpU1 = 0;
    fp_addcarryx_u32(&mut x965, &mut x966, x964, x940, x937);
    let mut x967: u32 = 0;
    let mut x968: FpU1 = 0;
    fp_addcarryx_u32(&mut x967, &mut x968, x966, x938, x935);
    let mut x969: u32 = 0;
    let mut x970: FpU1 = 0;
    fp_addcarryx_u32(&mut x969, &mut x970, x968, x936, x933);
    let mut x971: u32 = 0;
    let mut x972: FpU1 = 0;
    fp_addcarryx_u32(&mut x971, &mut x972, x970, x934, x931);
    let x973: u32 = ((x972 as u32) + x932);
    let mut x974: u32 = 0;
    let mut x975: FpU1 = 0;
    fp_addcarryx_u32(&mut x974, &mut x975, 0x0, x903, x929);
    let mut x976: u32 = 0;
    let mut x977: FpU1 = 0;
    fp_addcarryx_u32(&mut x976, &mut x977, x975, x905, x951);
    let mut x978: u32 = 0;
    let mut x979: FpU1 = 0;
    fp_addcarryx_u32(&mut x978, &mut x979, x977, x907, x953);
    let mut x980: u32 = 0;
    let mut x981: FpU1 = 0;
    fp_addcarryx_u32(&mut x980, &mut x981, x979, x909, x955);
    let mut x982: u32 = 0;
    let mut x983: FpU1 = 0;
    fp_addcarryx_u32(&mut x982, &mut x983, x981, x911, x957);
    let mut x984: u32 = 0;
    let mut x985: FpU1 = 0;
    fp_addcarryx_u32(&mut x984, &mut x985, x983, x913, x959);
    let mut x986: u32 = 0;
    let mut x987: FpU1 = 0;
    fp_addcarryx_u32(&mut x986, &mut x987, x985, x915, x961);
    let mut x988: u32 = 0;
    let mut x989: FpU1 = 0;
    fp_addcarryx_u32(&mut x988, &mut x989, x987, x917, x963);
    let mut x990: u32 = 0;
    let mut x991: FpU1 = 0;
    fp_addcarryx_u32(&mut x990, &mut x991, x989, x919, x965);
    let mut x992: u32 = 0;
    let mut x993: FpU1 = 0;
    fp_addcarryx_u32(&mut x992, &mut x993, x991, x921, x967);
    let mut x994: u32 = 0;
    let mut x995: FpU1 = 0;
    fp_addcarryx_u32(&mut x994, &mut x995, x993, x923, x969);
    let mut x996: u32 = 0;
    let mut x997: FpU1 = 0;
    fp_addcarryx_u32(&mut x996, &mut x997, x995, x925, x971);
    let mut x998: u32 = 0;
    let mut x999: FpU1 = 0;
    fp_addcarryx_u32(&mut x998, &mut x999, x997, x927, x973);
    let x1000: u32 = ((x999 as u32) + (x928 as u32));
    let mut x1001: u32 = 0;
    let mut x1002: u32 = 0;
    fp_mulx_u32(&mut x1001, &mut x1002, x7, (arg1[11]));
    let mut x1003: u32 = 0;
    let mut x1004: u32 = 0;
    fp_mulx_u32(&mut x1003, &mut x1004, x7, (arg1[10]));
    let mut x1005: u32 = 0;
    let mut x1006: u32 = 0;
    fp_mulx_u32(&mut x1005, &mut x1006, x7, (arg1[9]));
    let mut x1007: u32 = 0;
    let mut x1008: u32 = 0;
    fp_mulx_u32(&mut x1007, &mut x1008, x7, (arg1[8]));
    let mut x1009: u32 = 0;
    let mut x1010: u32 = 0;
    fp_mulx_u32(&mut x1009, &mut x1010, x7, (arg1[7]));
    let mut x1011: u32 = 0;
    let mut x1012: u32 = 0;
    fp_mulx_u32(&mut x1011, &mut x1012, x7, (arg1[6]));
    let mut x1013: u32 = 0;
    let mut x1014: u32 = 0;
    fp_mulx_u32(&mut x1013, &mut x1014, x7, (arg1[5]));
    let mut x1015: u32 = 0;
    let mut x1016: u32 = 0;
    fp_mulx_u32(&mut x1015, &mut x1016, x7, (arg1[4]));
    let mut x1017: u32 = 0;
    let mut x1018: u32 = 0;
    fp_mulx_u32(&mut x1017, &mut x1018, x7, (arg1[3]));
    let mut x1019: u32 = 0;
    let mut x1020: u32 = 0;
    fp_mulx_u32(&mut x1019, &mut x1020, x7, (arg1[2]));
    let mut x1021: u32 = 0;
    let mut x1022: u32 = 0;
    fp_mulx_u32(&mut x1021, &mut x1022, x7, (arg1[1]));
    let mut x1023: u32 = 0;
    let mut x1024: u32 = 0;
    fp_mulx_u32(&mut x1023, &mut x1024, x7, (arg1[0]));
    let mut x1025: u32 = 0;
    let mut x1026: FpU1 = 0;
    fp_addcarryx_u32(&mut x1025, &mut x1026, 0x0, x1024, x1021);
    let mut x1027: u32 = 0;
    let mut x1028: FpU1 = 0;
    fp_addcarryx_u32(&mut x1027, &mut x1028, x1026, x1022, x1019);
    let mut x1029: u32 = 0;
    let mut x1030: FpU1 = 0;
    fp_addcarryx_u32(&mut x1029, &mut x1030, x1028, x1020, x1017);
    let mut x1031: u32 = 0;
    let mut x1032: FpU1 = 0;
    fp_addcarryx_u32(&mut x1031, &mut x1032, x1030, x1018, x1015);
    let mut x1033: u32 = 0;
    let mut x1034: FpU1 = 0;
    fp_addcarryx_u32(&mut x1033, &mut x1034, x1032, x1016, x1013);
    let mut x1035: u32 = 0;
    let mut x1036: FpU1 = 0;
    fp_addcarryx_u32(&mut x1035, &mut x1036, x1034, x1014, x1011);
    let mut x1037: u32 = 0;
    let mut x1038: FpU1 = 0;
    fp_addcarryx_u32(&mut x1037, &mut x1038, x1036, x1012, x1009);
    let mut x1039: u32 = 0;
    let mut x1040: FpU1 = 0;
    fp_addcarryx_u32(&mut x1039, &mut x1040, x1038, x1010, x1007);
    let mut x1041: u32 = 0;
    let mut x1042: FpU1 = 0;
    fp_addcarryx_u32(&mut x1041, &mut x1042, x1040, x1008, x1005);
    let mut x1043: u32 = 0;
    let mut x1044: FpU1 = 0;
    fp_addcarryx_u32(&mut x1043, &mut x1044, x1042, x1006, x1003);
    let mut x1045: u32 = 0;
    let mut x1046: FpU1 = 0;
    fp_addcarryx_u32(&mut x1045, &mut x1046, x1044, x1004, x1001);
    let x1047: u32 = ((x1046 as u32) + x1002);
    let mut x1048: u32 = 0;
    let mut x1049: FpU1 = 0;
    fp_addcarryx_u32(&mut x1048, &mut x1049, 0x0, x976, x1023);
    let mut x1050: u32 = 0;
    let mut x1051: FpU1 = 0;
    fp_addcarryx_u32(&mut x1050, &mut x1051, x1049, x978, x1025);
    let mut x1052: u32 = 0;
    let mut x1053: FpU1 = 0;
    fp_addcarryx_u32(&mut x1052, &mut x1053, x1051, x980, x1027);
    let mut x1054: u32 = 0;
    let mut x1055: FpU1 = 0;
    fp_addcarryx_u32(&mut x1054, &mut x1055, x1053, x982, x1029);
    let mut x1056: u32 = 0;
    let mut x1057: FpU1 = 0;
    fp_addcarryx_u32(&mut x1056, &mut x1057, x1055, x984, x1031);
    let mut x1058: u32 = 0;
    let mut x1059: FpU1 = 0;
    fp_addcarryx_u32(&mut x1058, &mut x1059, x1057, x986, x1033);
    let mut x1060: u32 = 0;
    let mut x1061: FpU1 = 0;
    fp_addcarryx_u32(&mut x1060, &mut x1061, x1059, x988, x1035);
    let mut x1062: u32 = 0;
    let mut x1063: FpU1 = 0;
    fp_addcarryx_u32(&mut x1062, &mut x1063, x1061, x990, x1037);
    let mut x1064: u32 = 0;
    let mut x1065: FpU1 = 0;
    fp_addcarryx_u32(&mut x1064, &mut x1065, x1063, x992, x1039);
    let mut x1066: u32 = 0;
    let mut x1067: FpU1 = 0;
    fp_addcarryx_u32(&mut x1066, &mut x1067, x1065, x994, x1041);
    let mut x1068: u32 = 0;
    let mut x1069: FpU1 = 0;
    fp_addcarryx_u32(&mut x1068, &mut x1069, x1067, x996, x1043);
    let mut x1070: u32 = 0;
    let mut x1071: FpU1 = 0;
    fp_addcarryx_u32(&mut x1070, &mut x1071, x1069, x998, x1045);
    let mut x1072: u32 = 0;
    let mut x1073: FpU1 = 0;
    fp_addcarryx_u32(&mut x1072, &mut x1073, x1071, x1000, x1047);
    let mut x1074: u32 = 0;
    let mut x1075: u32 = 0;
    fp_mulx_u32(&mut x1074, &mut x1075, x1048, 0xffffffff);
    let mut x1076: u32 = 0;
    let mut x1077: u32 = 0;
    fp_mulx_u32(&mut x1076, &mut x1077, x1074, 0x1ae3a46);
    let mut x1078: u32 = 0;
    let mut x1079: u32 = 0;
    fp_mulx_u32(&mut x1078, &mut x1079, x1074, 0x17c510ea);
    let mut x1080: u32 = 0;
    let mut x1081: u32 = 0;
    fp_mulx_u32(&mut x1080, &mut x1081, x1074, 0xc63b05c0);
    let mut x1082: u32 = 0;
    let mut x1083: u32 = 0;
    fp_mulx_u32(&mut x1082, &mut x1083, x1074, 0x6ca1493b);
    let mut x1084: u32 = 0;
    let mut x1085: u32 = 0;
    fp_mulx_u32(&mut x1084, &mut x1085, x1074, 0x1a22d9f3);
    let mut x1086: u32 = 0;
    let mut x1087: u32 = 0;
    fp_mulx_u32(&mut x1086, &mut x1087, x1074, 0xf5138f);
    let mut x1088: u32 = 0;
    let mut x1089: u32 = 0;
    fp_mulx_u32(&mut x1088, &mut x1089, x1074, 0x1ef3622f);
    let mut x1090: u32 = 0;
    let mut x1091: u32 = 0;
    fp_mulx_u32(&mut x1090, &mut x1091, x1074, 0xba094800);
    let mut x1092: u32 = 0;
    let mut x1093: u32 = 0;
    fp_mulx_u32(&mut x1092, &mut x1093, x1074, 0x170b5d44);
    let mut x1094: u32 = 0;
    let mut x1095: u32 = 0;
    fp_mulx_u32(&mut x1094, &mut x1095, x1074, 0x30000000);
    let mut x1096: u32 = 0;
    let mut x1097: u32 = 0;
    fp_mulx_u32(&mut x1096, &mut x1097, x1074, 0x8508c000);
    let mut x1098: u32 = 0;
    let mut x1099: FpU1 = 0;
    fp_addcarryx_u32(&mut x1098, &mut x1099, 0x0, x1097, x1094);
    let mut x1100: u32 = 0;
    let mut x1101: FpU1 = 0;
    fp_addcarryx_u32(&mut x1100, &mut x1101, x1099, x1095, x1092);
    let mut x1102: u32 = 0;
    let mut x1103: FpU1 = 0;
    fp_addcarryx_u32(&mut x1102, &mut x1103, x1101, x1093, x1090);
    let mut x1104: u32 = 0;
    let mut x1105: FpU1 = 0;
    fp_addcarryx_u32(&mut x1104, &mut x1105, x1103, x1091, x1088);
    let mut x1106: u32 = 0;
    let mut x1107: FpU1 = 0;
    fp_addcarryx_u32(&mut x1106, &mut x1107, x1105, x1089, x1086);
    let mut x1108: u32 = 0;
    let mut x1109: FpU1 = 0;
    fp_addcarryx_u32(&mut x1108, &mut x1109, x1107, x1087, x1084);
    let mut x1110: u32 = 0;
    let mut x1111: FpU1 = 0;
    fp_addcarryx_u32(&mut x1110, &mut x1111, x1109, x1085, x1082);
    let mut x1112: u32 = 0;
    let mut x1113: FpU1 = 0;
    fp_addcarryx_u32(&mut x1112, &mut x1113, x1111, x1083, x1080);
    let mut x1114: u32 = 0;
    let mut x1115: FpU1 = 0;
    fp_addcarryx_u32(&mut x1114, &mut x1115, x1113, x1081, x1078);
    let mut x1116: u32 = 0;
    let mut x1117: FpU1 = 0;
    fp_addcarryx_u32(&mut x1116, &mut x1117, x1115, x1079, x1076);
    let x1118: u32 = ((x1117 as u32) + x1077);
    let mut x1119: u32 = 0;
    let mut x1120: FpU1 = 0;
    fp_addcarryx_u32(&mut x1119, &mut x1120, 0x0, x1048, x1074);
    let mut x1121: u32 = 0;
    let mut x1122: FpU1 = 0;
    fp_addcarryx_u32(&mut x1121, &mut x1122, x1120, x1050, x1096);
    let mut x1123: u32 = 0;
    let mut x1124: FpU1 = 0;
    fp_addcarryx_u32(&mut x1123, &mut x1124, x1122, x1052, x1098);
    let mut x1125: u32 = 0;
    let mut x1126: FpU1 = 0;
    fp_addcarryx_u32(&mut x1125, &mut x1126, x1124, x1054, x1100);
    let mut x1127: u32 = 0;
    let mut x1128: FpU1 = 0;
    fp_addcarryx_u32(&mut x1127, &mut x1128, x1126, x1056, x1102);
    let mut x1129: u32 = 0;
    let mut x1130: FpU1 = 0;
    fp_addcarryx_u32(&mut x1129, &mut x1130, x1128, x1058, x1104);
    let mut x1131: u32 = 0;
    let mut x1132: FpU1 = 0;
    fp_addcarryx_u32(&mut x1131, &mut x1132, x1130, x1060, x1106);
    let mut x1133: u32 = 0;
    let mut x1134: FpU1 = 0;
    fp_addcarryx_u32(&mut x1133, &mut x1134, x1132, x1062, x1108);
    let mut x1135: u32 = 0;
    let mut x1136: FpU1 = 0;
    fp_addcarryx_u32(&mut x1135, &mut x1136, x1134, x1064, x1110);
    let mut x1137: u32 = 0;
    let mut x1138: FpU1 = 0;
    fp_addcarryx_u32(&mut x1137, &mut x1138, x1136, x1066, x1112);
    let mut x1139: u32 = 0;
    let mut x1140: FpU1 = 0;
    fp_addcarryx_u32(&mut x1139, &mut x1140, x1138, x1068, x1114);
    let mut x1141: u32 = 0;
    let mut x1142: FpU1 = 0;
    fp_addcarryx_u32(&mut x1141, &mut x1142, x1140, x1070, x1116);
    let mut x1143: u32 = 0;
    let mut x1144: FpU1 = 0;
    fp_addcarryx_u32(&mut x1143, &mut x1144, x1142, x1072, x1118);
    let x1145: u32 = ((x1144 as u32) + (x1073 as u32));
    let mut x1146: u32 = 0;
    let mut x1147: u32 = 0;
    fp_mulx_u32(&mut x1146, &mut x1147, x8, (arg1[11]));
    let mut x1148: u32 = 0;
    let mut x1149: u32 = 0;
    fp_mulx_u32(&mut x1148, &mut x1149, x8, (arg1[10]));
    let mut x1150: u32 = 0;
    let mut x1151: u32 = 0;
    fp_mulx_u32(&mut x1150, &mut x1151, x8, (arg1[9]));
    let mut x1152: u32 = 0;
    let mut x1153: u32 = 0;
    fp_mulx_u32(&mut x1152, &mut x1153, x8, (arg1[8]));
    let mut x1154: u32 = 0;
    let mut x1155: u32 = 0;
    fp_mulx_u32(&mut x1154, &mut x1155, x8, (arg1[7]));
    let mut x1156: u32 = 0;
    let mut x1157: u32 = 0;
    fp_mulx_u32(&mut x1156, &mut x1157, x8, (arg1[6]));
    let mut x1158: u32 = 0;
    let mut x1159: u32 = 0;
    fp_mulx_u32(&mut x1158, &mut x1159, x8, (arg1[5]));
    let mut x1160: u32 = 0;
    let mut x1161: u32 = 0;
    fp_mulx_u32(&mut x1160, &mut x1161, x8, (arg1[4]));
    let mut x1162: u32 = 0;
    let mut x1163: u32 = 0;
    fp_mulx_u32(&mut x1162, &mut x1163, x8, (arg1[3]));
    let mut x1164: u32 = 0;
    let mut x1165: u32 = 0;
    fp_mulx_u32(&mut x1164, &mut x1165, x8, (arg1[2]));
    let mut x1166: u32 = 0;
    let mut x1167: u32 = 0;
    fp_mulx_u32(&mut x1166, &mut x1167, x8, (arg1[1]));
    let mut x1168: u32 = 0;
    let mut x1169: u32 = 0;
    fp_mulx_u32(&mut x1168, &mut x1169, x8, (arg1[0]));
    let mut x1170: u32 = 0;
    let mut x1171: FpU1 = 0;
    fp_addcarryx_u32(&mut x1170, &mut x1171, 0x0, x1169, x1166);
    let mut x1172: u32 = 0;
    let mut x1173: FpU1 = 0;
    fp_addcarryx_u32(&mut x1172, &mut x1173, x1171, x1167, x1164);
    let mut x1174: u32 = 0;
    let mut x1175: FpU1 = 0;
    fp_addcarryx_u32(&mut x1174, &mut x1175, x1173, x1165, x1162);
    let mut x1176: u32 = 0;
    let mut x1177: FpU1 = 0;
    fp_addcarryx_u32(&mut x1176, &mut x1177, x1175, x1163, x1160);
    let mut x1178: u32 = 0;
    let mut x1179: FpU1 = 0;
    fp_addcarryx_u32(&mut x1178, &mut x1179, x1177, x1161, x1158);
    let mut x1180: u32 = 0;
    let mut x1181: FpU1 = 0;
    fp_addcarryx_u32(&mut x1180, &mut x1181, x1179, x1159, x1156);
    let mut x1182: u32 = 0;
    let mut x1183: FpU1 = 0;
    fp_addcarryx_u32(&mut x1182, &mut x1183, x1181, x1157, x1154);
    let mut x1184: u32 = 0;
    let mut x1185: FpU1 = 0;
    fp_addcarryx_u32(&mut x1184, &mut x1185, x1183, x1155, x1152);
    let mut x1186: u32 = 0;
    let mut x1187: FpU1 = 0;
    fp_addcarryx_u32(&mut x1186, &mut x1187, x1185, x1153, x1150);
    let mut x1188: u32 = 0;
    let mut x1189: FpU1 = 0;
    fp_addcarryx_u32(&mut x1188, &mut x1189, x1187, x1151, x1148);
    let mut x1190: u32 = 0;
    let mut x1191: FpU1 = 0;
    fp_addcarryx_u32(&mut x1190, &mut x1191, x1189, x1149, x1146);
    let x1192: u32 = ((x1191 as u32) + x1147);
    let mut x1193: u32 = 0;
    let mut x1194: FpU1 = 0;
    fp_addcarryx_u32(&mut x1193, &mut x1194, 0x0, x1121, x1168);
    let mut x1195: u32 = 0;
    let mut x1196: FpU1 = 0;
    fp_addcarryx_u32(&mut x1195, &mut x1196, x1194, x1123, x1170);
    let mut x1197: u32 = 0;
    let mut x1198: FpU1 = 0;
    fp_addcarryx_u32(&mut x1197, &mut x1198, x1196, x1125, x1172);
    let mut x1199: u32 = 0;
    let mut x1200: FpU1 = 0;
    fp_addcarryx_u32(&mut x1199, &mut x1200, x1198, x1127, x1174);
    let mut x1201: u32 = 0;
    let mut x1202: FpU1 = 0;
    fp_addcarryx_u32(&mut x1201, &mut x1202, x1200, x1129, x1176);
    let mut x1203: u32 = 0;
    let mut x1204: FpU1 = 0;
    fp_addcarryx_u32(&mut x1203, &mut x1204, x1202, x1131, x1178);
    let mut x1205: u32 = 0;
    let mut x1206: FpU1 = 0;
    fp_addcarryx_u32(&mut x1205, &mut x1206, x1204, x1133, x1180);
    let mut x1207: u32 = 0;
    let mut x1208: FpU1 = 0;
    fp_addcarryx_u32(&mut x1207, &mut x1208, x1206, x1135, x1182);
    let mut x1209: u32 = 0;
    let mut x1210: FpU1 = 0;
    fp_addcarryx_u32(&mut x1209, &mut x1210, x1208, x1137, x1184);
    let mut x1211: u32 = 0;
    let mut x1212: FpU1 = 0;
    fp_addcarryx_u32(&mut x1211, &mut x1212, x1210, x1139, x1186);
    let mut x1213: u32 = 0;
    let mut x1214: FpU1 = 0;
    fp_addcarryx_u32(&mut x1213, &mut x1214, x1212, x1141, x1188);
    let mut x1215: u32 = 0;
    let mut x1216: FpU1 = 0;
    fp_addcarryx_u32(&mut x1215, &mut x1216, x1214, x1143, x1190);
    let mut x1217: u32 = 0;
    let mut x1218: FpU1 = 0;
    fp_addcarryx_u32(&mut x1217, &mut x1218, x1216, x1145, x1192);
    let mut x1219: u32 = 0;
    let mut x1220: u32 = 0;
    fp_mulx_u32(&mut x1219, &mut x1220, x1193, 0xffffffff);
    let mut x1221: u32 = 0;
    let mut x1222: u32 = 0;
    fp_mulx_u32(&mut x1221, &mut x1222, x1219, 0x1ae3a46);
    let mut x1223: u32 = 0;
    let mut x1224: u32 = 0;
    fp_mulx_u32(&mut x1223, &mut x1224, x1219, 0x17c510ea);
    let mut x1225: u32 = 0;
    let mut x1226: u32 = 0;
    fp_mulx_u32(&mut x1225, &mut x1226, x1219, 0xc63b05c0);
    let mut x1227: u32 = 0;
    let mut x1228: u32 = 0;
    fp_mulx_u32(&mut x1227, &mut x1228, x1219, 0x6ca1493b);
    let mut x1229: u32 = 0;
    let mut x1230: u32 = 0;
    fp_mulx_u32(&mut x1229, &mut x1230, x1219, 0x1a22d9f3);
    let mut x1231: u32 = 0;
    let mut x1232: u32 = 0;
    fp_mulx_u32(&mut x1231, &mut x1232, x1219, 0xf5138f);
    let mut x1233: u32 = 0;
    let mut x1234: u32 = 0;
    fp_mulx_u32(&mut x1233, &mut x1234, x1219, 0x1ef3622f);
    let mut x1235: u32 = 0;
    let mut x1236: u32 = 0;
    fp_mulx_u32(&mut x1235, &mut x1236, x1219, 0xba094800);
    let mut x1237: u32 = 0;
    let mut x1238: u32 = 0;
    fp_mulx_u32(&mut x1237, &mut x1238, x1219, 0x170b5d44);
    let mut x1239: u32 = 0;
    let mut x1240: u32 = 0;
    fp_mulx_u32(&mut x1239, &mut x1240, x1219, 0x30000000);
    let mut x1241: u32 = 0;
    let mut x1242: u32 = 0;
    fp_mulx_u32(&mut x1241, &mut x1242, x1219, 0x8508c000);
    let mut x1243: u32 = 0;
    let mut x1244: FpU1 = 0;
    fp_addcarryx_u32(&mut x1243, &mut x1244, 0x0, x1242, x1239);
    let mut x1245: u32 = 0;
    let mut x1246: FpU1 = 0;
    fp_addcarryx_u32(&mut x1245, &mut x1246, x1244, x1240, x1237);
    let mut x1247: u32 = 0;
    let mut x1248: FpU1 = 0;
    fp_addcarryx_u32(&mut x1247, &mut x1248, x1246, x1238, x1235);
    let mut x1249: u32 = 0;
    let mut x1250: FpU1 = 0;
    fp_addcarryx_u32(&mut x1249, &mut x1250, x1248, x1236, x1233);
    let mut x1251: u32 = 0;
    let mut x1252: FpU1 = 0;
    fp_addcarryx_u32(&mut x1251, &mut x1252, x1250, x1234, x1231);
    let mut x1253: u32 = 0;
    let mut x1254: FpU1 = 0;
    fp_addcarryx_u32(&mut x1253, &mut x1254, x1252, x1232, x1229);
    let mut x1255: u32 = 0;
    let mut x1256: FpU1 = 0;
    fp_addcarryx_u32(&mut x1255, &mut x1256, x1254, x1230, x1227);
    let mut x1257: u32 = 0;
    let mut x1258: FpU1 = 0;
    fp_addcarryx_u32(&mut x1257, &mut x1258, x1256, x1228, x1225);
    let mut x1259: u32 = 0;
    let mut x1260: FpU1 = 0;
    fp_addcarryx_u32(&mut x1259, &mut x1260, x1258, x1226, x1223);
    let mut x1261: u32 = 0;
    let mut x1262: FpU1 = 0;
    fp_addcarryx_u32(&mut x1261, &mut x1262, x1260, x1224, x1221);
    let x1263: u32 = ((x1262 as u32) + x1222);
    let mut x1264: u32 = 0;
    let mut x1265: FpU1 = 0;
    fp_addcarryx_u32(&mut x1264, &mut x1265, 0x0, x1193, x1219);
    let mut x1266: u32 = 0;
    let mut x1267: FpU1 = 0;
    fp_addcarryx_u32(&mut x1266, &mut x1267, x1265, x1195, x1241);
    let mut x1268: u32 = 0;
    let mut x1269: FpU1 = 0;
    fp_addcarryx_u32(&mut x1268, &mut x1269, x1267, x1197, x1243);
    let mut x1270: u32 = 0;
    let mut x1271: FpU1 = 0;
    fp_addcarryx_u32(&mut x1270, &mut x1271, x1269, x1199, x1245);
    let mut x1272: u32 = 0;
    let mut x1273: FpU1 = 0;
    fp_addcarryx_u32(&mut x1272, &mut x1273, x1271, x1201, x1247);
    let mut x1274: u32 = 0;
    let mut x1275: FpU1 = 0;
    fp_addcarryx_u32(&mut x1274, &mut x1275, x1273, x1203, x1249);
    let mut x1276: u32 = 0;
    let mut x1277: FpU1 = 0;
    fp_addcarryx_u32(&mut x1276, &mut x1277, x1275, x1205, x1251);
    let mut x1278: u32 = 0;
    let mut x1279: FpU1 = 0;
    fp_addcarryx_u32(&mut x1278, &mut x1279, x1277, x1207, x1253);
    let mut x1280: u32 = 0;
    let mut x1281: FpU1 = 0;
    fp_addcarryx_u32(&mut x1280, &mut x1281, x1279, x1209, x1255);
    let mut x1282: u32 = 0;
    let mut x1283: FpU1 = 0;
    fp_addcarryx_u32(&mut x1282, &mut x1283, x1281, x1211, x1257);
    let mut x1284: u32 = 0;
    let mut x1285: FpU1 = 0;
    fp_addcarryx_u32(&mut x1284, &mut x1285, x1283, x1213, x1259);
    let mut x1286: u32 = 0;
    let mut x1287: FpU1 = 0;
    fp_addcarryx_u32(&mut x1286, &mut x1287, x1285, x1215, x1261);
    let mut x1288: u32 = 0;
    let mut x1289: FpU1 = 0;
    fp_addcarryx_u32(&mut x1288, &mut x1289, x1287, x1217, x1263);
    let x1290: u32 = ((x1289 as u32) + (x1218 as u32));
    let mut x1291: u32 = 0;
    let mut x1292: u32 = 0;
    fp_mulx_u32(&mut x1291, &mut x1292, x9, (arg1[11]));
    let mut x1293: u32 = 0;
    let mut x1294: u32 = 0;
    fp_mulx_u32(&mut x1293, &mut x1294, x9, (arg1[10]));
    let mut x1295: u32 = 0;
    let mut x1296: u32 = 0;
    fp_mulx_u32(&mut x1295, &mut x1296, x9, (arg1[9]));
    let mut x1297: u32 = 0;
    let mut x1298: u32 = 0;
    fp_mulx_u32(&mut x1297, &mut x1298, x9, (arg1[8]));
    let mut x1299: u32 = 0;
    let mut x1300: u32 = 0;
    fp_mulx_u32(&mut x1299, &mut x1300, x9, (arg1[7]));
    let mut x1301: u32 = 0;
    let mut x1302: u32 = 0;
    fp_mulx_u32(&mut x1301, &mut x1302, x9, (arg1[6]));
    let mut x1303: u32 = 0;
    let mut x1304: u32 = 0;
    fp_mulx_u32(&mut x1303, &mut x1304, x9, (arg1[5]));
    let mut x1305: u32 = 0;
    let mut x1306: u32 = 0;
    fp_mulx_u32(&mut x1305, &mut x1306, x9, (arg1[4]));
    let mut x1307: u32 = 0;
    let mut x1308: u32 = 0;
    fp_mulx_u32(&mut x1307, &mut x1308, x9, (arg1[3]));
    let mut x1309: u32 = 0;
    let mut x1310: u32 = 0;
    fp_mulx_u32(&mut x1309, &mut x1310, x9, (arg1[2]));
    let mut x1311: u32 = 0;
    let mut x1312: u32 = 0;
    fp_mulx_u32(&mut x1311, &mut x1312, x9, (arg1[1]));
    let mut x1313: u32 = 0;
    let mut x1314: u32 = 0;
    fp_mulx_u32(&mut x1313, &mut x1314, x9, (arg1[0]));
    let mut x1315: u32 = 0;
    let mut x1316: FpU1 = 0;
    fp_addcarryx_u32(&mut x1315, &mut x1316, 0x0, x1314, x1311);
    let mut x1317: u32 = 0;
    let mut x1318: FpU1 = 0;
    fp_addcarryx_u32(&mut x1317, &mut x1318, x1316, x1312, x1309);
    let mut x1319: u32 = 0;
    let mut x1320: FpU1 = 0;
    fp_addcarryx_u32(&mut x1319, &mut x1320, x1318, x1310, x1307);
    let mut x1321: u32 = 0;
    let mut x1322: FpU1 = 0;
    fp_addcarryx_u32(&mut x1321, &mut x1322, x1320, x1308, x1305);
    let mut x1323: u32 = 0;
    let mut x1324: FpU1 = 0;
    fp_addcarryx_u32(&mut x1323, &mut x1324, x1322, x1306, x1303);
    let mut x1325: u32 = 0;
    let mut x1326: FpU1 = 0;
    fp_addcarryx_u32(&mut x1325, &mut x1326, x1324, x1304, x1301);
    let mut x1327: u32 = 0;
    let mut x1328: FpU1 = 0;
    fp_addcarryx_u32(&mut x1327, &mut x1328, x1326, x1302, x1299);
    let mut x1329: u32 = 0;
    let mut x1330: FpU1 = 0;
    fp_addcarryx_u32(&mut x1329, &mut x1330, x1328, x1300, x1297);
    let mut x1331: u32 = 0;
    let mut x1332: FpU1 = 0;
    fp_addcarryx_u32(&mut x1331, &mut x1332, x1330, x1298, x1295);
    let mut x1333: u32 = 0;
    let mut x1334: FpU1 = 0;
    fp_addcarryx_u32(&mut x1333, &mut x1334, x1332, x1296, x1293);
    let mut x1335: u32 = 0;
    let mut x1336: FpU1 = 0;
    fp_addcarryx_u32(&mut x1335, &mut x1336, x1334, x1294, x1291);
    let x1337: u32 = ((x1336 as u32) + x1292);
    let mut x1338: u32 = 0;
    let mut x1339: FpU1 = 0;
    fp_addcarryx_u32(&mut x1338, &mut x1339, 0x0, x1266, x1313);
    let mut x1340: u32 = 0;
    let mut x1341: FpU1 = 0;
    fp_addcarryx_u32(&mut x1340, &mut x1341, x1339, x1268, x1315);
    let mut x1342: u32 = 0;
    let mut x1343: FpU1 = 0;
    fp_addcarryx_u32(&mut x1342, &mut x1343, x1341, x1270, x1317);
    let mut x1344: u32 = 0;
    let mut x1345: FpU1 = 0;
    fp_addcarryx_u32(&mut x1344, &mut x1345, x1343, x1272, x1319);
    let mut x1346: u32 = 0;
    let mut x1347: FpU1 = 0;
    fp_addcarryx_u32(&mut x1346, &mut x1347, x1345, x1274, x1321);
    let mut x1348: u32 = 0;
    let mut x1349: FpU1 = 0;
    fp_addcarryx_u32(&mut x1348, &mut x1349, x1347, x1276, x1323);
    let mut x1350: u32 = 0;
    let mut x1351: FpU1 = 0;
    fp_addcarryx_u32(&mut x1350, &mut x1351, x1349, x1278, x1325);
    let mut x1352: u32 = 0;
    let mut x1353: FpU1 = 0;
    fp_addcarryx_u32(&mut x1352, &mut x1353, x1351, x1280, x1327);
    let mut x1354: u32 = 0;
    let mut x1355: FpU1 = 0;
    fp_addcarryx_u32(&mut x1354, &mut x1355, x1353, x1282, x1329);
    let mut x1356: u32 = 0;
    let mut x1357: FpU1 = 0;
    fp_addcarryx_u32(&mut x1356, &mut x1357, x1355, x1284, x1331);
    let mut x1358: u32 = 0;
    let mut x1359: FpU1 = 0;
    fp_addcarryx_u32(&mut x1358, &mut x1359, x1357, x1286, x1333);
    let mut x1360: u32 = 0;
    let mut x1361: FpU1 = 0;
    fp_addcarryx_u32(&mut x1360, &mut x1361, x1359, x1288, x1335);
    let mut x1362: u32 = 0;
    let mut x1363: FpU1 = 0;
    fp_addcarryx_u32(&mut x1362, &mut x1363, x1361, x1290, x1337);
    let mut x1364: u32 = 0;
    let mut x1365: u32 = 0;
    fp_mulx_u32(&mut x1364, &mut x1365, x1338, 0xffffffff);
    let mut x1366: u32 = 0;
    let mut x1367: u32 = 0;
    fp_mulx_u32(&mut x1366, &mut x1367, x1364, 0x1ae3a46);
    let mut x1368: u32 = 0;
    let mut x1369: u32 = 0;
    fp_mulx_u32(&mut x1368, &mut x1369, x1364, 0x17c510ea);
    let mut x1370: u32 = 0;
    let mut x1371: u32 = 0;
    fp_mulx_u32(&mut x1370, &mut x1371, x1364, 0xc63b05c0);
    let mut x1372: u32 = 0;
    let mut x1373: u32 = 0;
    fp_mulx_u32(&mut x1372, &mut x1373, x1364, 0x6ca1493b);
    let mut x1374: u32 = 0;
    let mut x1375: u32 = 0;
    fp_mulx_u32(&mut x1374, &mut x1375, x1364, 0x1a22d9f3);
    let mut x1376: u32 = 0;
    let mut x1377: u32 = 0;
    fp_mulx_u32(&mut x1376, &mut x1377, x1364, 0xf5138f);
    let mut x1378: u32 = 0;
    let mut x1379: u32 = 0;
    fp_mulx_u32(&mut x1378, &mut x1379, x1364, 0x1ef3622f);
    let mut x1380: u32 = 0;
    let mut x1381: u32 = 0;
    fp_mulx_u32(&mut x1380, &mut x1381, x1364, 0xba094800);
    let mut x1382: u32 = 0;
    let mut x1383: u32 = 0;
    fp_mulx_u32(&mut x1382, &mut x1383, x1364, 0x170b5d44);
    let mut x1384: u32 = 0;
    let mut x1385: u32 = 0;
    fp_mulx_u32(&mut x1384, &mut x1385, x1364, 0x30000000);
    let mut x1386: u32 = 0;
    let mut x1387: u32 = 0;
    fp_mulx_u32(&mut x1386, &mut x1387, x1364, 0x8508c000);
    let mut x1388: u32 = 0;
    let mut x1389: FpU1 = 0;
    fp_addcarryx_u32(&mut x1388, &mut x1389, 0x0, x1387, x1384);
    let mut x1390: u32 = 0;
    let mut x1391: FpU1 = 0;
    fp_addcarryx_u32(&mut x1390, &mut x1391, x1389, x1385, x1382);
    let mut x1392: u32 = 0;
    let mut x1393: FpU1 = 0;
    fp_addcarryx_u32(&mut x1392, &mut x1393, x1391, x1383, x1380);
    let mut x1394: u32 = 0;
    let mut x1395: FpU1 = 0;
    fp_addcarryx_u32(&mut x1394, &mut x1395, x1393, x1381, x1378);
    let mut x1396: u32 = 0;
    let mut x1397: FpU1 = 0;
    fp_addcarryx_u32(&mut x1396, &mut x1397, x1395, x1379, x1376);
    let mut x1398: u32 = 0;
    let mut x1399: FpU1 = 0;
    fp_addcarryx_u32(&mut x1398, &mut x1399, x1397, x1377, x1374);
    let mut x1400: u32 = 0;
    let mut x1401: FpU1 = 0;
    fp_addcarryx_u32(&mut x1400, &mut x1401, x1399, x1375, x1372);
    let mut x1402: u32 = 0;
    let mut x1403: FpU1 = 0;
    fp_addcarryx_u32(&mut x1402, &mut x1403, x1401, x1373, x1370);
    let mut x1404: u32 = 0;
    let mut x1405: FpU1 = 0;
    fp_addcarryx_u32(&mut x1404, &mut x1405, x1403, x1371, x1368);
    let mut x1406: u32 = 0;
    let mut x1407: FpU1 = 0;
    fp_addcarryx_u32(&mut x1406, &mut x1407, x1405, x1369, x1366);
    let x1408: u32 = ((x1407 as u32) + x1367);
    let mut x1409: u32 = 0;
    let mut x1410: FpU1 = 0;
    fp_addcarryx_u32(&mut x1409, &mut x1410, 0x0, x1338, x1364);
    let mut x1411: u32 = 0;
    let mut x1412: FpU1 = 0;
    fp_addcarryx_u32(&mut x1411, &mut x1412, x1410, x1340, x1386);
    let mut x1413: u32 = 0;
    let mut x1414: FpU1 = 0;
    fp_addcarryx_u32(&mut x1413, &mut x1414, x1412, x1342, x1388);
    let mut x1415: u32 = 0;
    let mut x1416: FpU1 = 0;
    fp_addcarryx_u32(&mut x1415, &mut x1416, x1414, x1344, x1390);
    let mut x1417: u32 = 0;
    let mut x1418: FpU1 = 0;
    fp_addcarryx_u32(&mut x1417, &mut x1418, x1416, x1346, x1392);
    let mut x1419: u32 = 0;
    let mut x1420: FpU1 = 0;
    fp_addcarryx_u32(&mut x1419, &mut x1420, x1418, x1348, x1394);
    let mut x1421: u32 = 0;
    let mut x1422: FpU1 = 0;
    fp_addcarryx_u32(&mut x1421, &mut x1422, x1420, x1350, x1396);
    let mut x1423: u32 = 0;
    let mut x1424: FpU1 = 0;
    fp_addcarryx_u32(&mut x1423, &mut x1424, x1422, x1352, x1398);
    let mut x1425: u32 = 0;
    let mut x1426: FpU1 = 0;
    fp_addcarryx_u32(&mut x1425, &mut x1426, x1424, x1354, x1400);
    let mut x1427: u32 = 0;
    let mut x1428: FpU1 = 0;
    fp_addcarryx_u32(&mut x1427, &mut x1428, x1426, x1356, x1402);
    let mut x1429: u32 = 0;
    let mut x1430: FpU1 = 0;
    fp_addcarryx_u32(&mut x1429, &mut x1430, x1428, x1358, x1404);
    let mut x1431: u32 = 0;
    let mut x1432: FpU1 = 0;
    fp_addcarryx_u32(&mut x1431, &mut x1432, x1430, x1360, x1406);
    let mut x1433: u32 = 0;
    let mut x1434: FpU1 = 0;
    fp_addcarryx_u32(&mut x1433, &mut x1434, x1432, x1362, x1408);
    let x1435: u32 = ((x1434 as u32) + (x1363 as u32));
    let mut x1436: u32 = 0;
    let mut x1437: u32 = 0;
    fp_mulx_u32(&mut x1436, &mut x1437, x10, (arg1[11]));
    let mut x1438: u32 = 0;
    let mut x1439: u32 = 0;
    fp_mulx_u32(&mut x1438, &mut x1439, x10, (arg1[10]));
    let mut x1440: u32 = 0;
    let mut x1441: u32 = 0;
    fp_mulx_u32(&mut x1440, &mut x1441, x10, (arg1[9]));
    let mut x1442: u32 = 0;
    let mut x1443: u32 = 0;
    fp_mulx_u32(&mut x1442, &mut x1443, x10, (arg1[8]));
    let mut x1444: u32 = 0;
    let mut x1445: u32 = 0;
    fp_mulx_u32(&mut x1444, &mut x1445, x10, (arg1[7]));
    let mut x1446: u32 = 0;
    let mut x1447: u32 = 0;
    fp_mulx_u32(&mut x1446, &mut x1447, x10, (arg1[6]));
    let mut x1448: u32 = 0;
    let mut x1449: u32 = 0;
    fp_mulx_u32(&mut x1448, &mut x1449, x10, (arg1[5]));
    let mut x1450: u32 = 0;
    let mut x1451: u32 = 0;
    fp_mulx_u32(&mut x1450, &mut x1451, x10, (arg1[4]));
    let mut x1452: u32 = 0;
    let mut x1453: u32 = 0;
    fp_mulx_u32(&mut x1452, &mut x1453, x10, (arg1[3]));
    let mut x1454: u32 = 0;
    let mut x1455: u32 = 0;
    fp_mulx_u32(&mut x1454, &mut x1455, x10, (arg1[2]));
    let mut x1456: u32 = 0;
    let mut x1457: u32 = 0;
    fp_mulx_u32(&mut x1456, &mut x1457, x10, (arg1[1]));
    let mut x1458: u32 = 0;
    let mut x1459: u32 = 0;
    fp_mulx_u32(&mut x1458, &mut x1459, x10, (arg1[0]));
    let mut x1460: u32 = 0;
    let mut x1461: FpU1 = 0;
    fp_addcarryx_u32(&mut x1460, &mut x1461, 0x0, x1459, x1456);
    let mut x1462: u32 = 0;
    let mut x1463: FpU1 = 0;
    fp_addcarryx_u32(&mut x1462, &mut x1463, x1461, x1457, x1454);
    let mut x1464: u32 = 0;
    let mut x1465: FpU1 = 0;
    fp_addcarryx_u32(&mut x1464, &mut x1465, x1463, x1455, x1452);
    let mut x1466: u32 = 0;
    let mut x1467: FpU1 = 0;
    fp_addcarryx_u32(&mut x1466, &mut x1467, x1465, x1453, x1450);
    let mut x1468: u32 = 0;
    let mut x1469: FpU1 = 0;
    fp_addcarryx_u32(&mut x1468, &mut x1469, x1467, x1451, x1448);
    let mut x1470: u32 = 0;
    let mut x1471: FpU1 = 0;
    fp_addcarryx_u32(&mut x1470, &mut x1471, x1469, x1449, x1446);
    let mut x1472: u32 = 0;
    let mut x1473: FpU1 = 0;
    fp_addcarryx_u32(&mut x1472, &mut x1473, x1471, x1447, x1444);
    let mut x1474: u32 = 0;
    let mut x1475: FpU1 = 0;
    fp_addcarryx_u32(&mut x1474, &mut x1475, x1473, x1445, x1442);
    let mut x1476: u32 = 0;
    let mut x1477: FpU1 = 0;
    fp_addcarryx_u32(&mut x1476, &mut x1477, x1475, x1443, x1440);
    let mut x1478: u32 = 0;
    let mut x1479: FpU1 = 0;
    fp_addcarryx_u32(&mut x1478, &mut x1479, x1477, x1441, x1438);
    let mut x1480: u32 = 0;
    let mut x1481: FpU1 = 0;
    fp_addcarryx_u32(&mut x1480, &mut x1481, x1479, x1439, x1436);
    let x1482: u32 = ((x1481 as u32) + x1437);
    let mut x1483: u32 = 0;
    let mut x1484: FpU1 = 0;
    fp_addcarryx_u32(&mut x1483, &mut x1484, 0x0, x1411, x1458);
    let mut x1485: u32 = 0;
    let mut x1486: FpU1 = 0;
    fp_addcarryx_u32(&mut x1485, &mut x1486, x1484, x1413, x1460);
    let mut x1487: u32 = 0;
    let mut x1488: FpU1 = 0;
    fp_addcarryx_u32(&mut x1487, &mut x1488, x1486, x1415, x1462);
    let mut x1489: u32 = 0;
    let mut x1490: FpU1 = 0;
    fp_addcarryx_u32(&mut x1489, &mut x1490, x1488, x1417, x1464);
    let mut x1491: u32 = 0;
    let mut x1492: FpU1 = 0;
    fp_addcarryx_u32(&mut x1491, &mut x1492, x1490, x1419, x1466);
    let mut x1493: u32 = 0;
    let mut x1494: FpU1 = 0;
    fp_addcarryx_u32(&mut x1493, &mut x1494, x1492, x1421, x1468);
    let mut x1495: u32 = 0;
    let mut x1496: FpU1 = 0;
    fp_addcarryx_u32(&mut x1495, &mut x1496, x1494, x1423, x1470);
    let mut x1497: u32 = 0;
    let mut x1498: FpU1 = 0;
    fp_addcarryx_u32(&mut x1497, &mut x1498, x1496, x1425, x1472);
    let mut x1499: u32 = 0;
    let mut x1500: FpU1 = 0;
    fp_addcarryx_u32(&mut x1499, &mut x1500, x1498, x1427, x1474);
    let mut x1501: u32 = 0;
    let mut x1502: FpU1 = 0;
    fp_addcarryx_u32(&mut x1501, &mut x1502, x1500, x1429, x1476);
    let mut x1503: u32 = 0;
    let mut x1504: FpU1 = 0;
    fp_addcarryx_u32(&mut x1503, &mut x1504, x1502, x1431, x1478);
    let mut x1505: u32 = 0;
    let mut x1506: FpU1 = 0;
    fp_addcarryx_u32(&mut x1505, &mut x1506, x1504, x1433, x1480);
    let mut x1507: u32 = 0;
    let mut x1508: FpU1 = 0;
    fp_addcarryx_u32(&mut x1507, &mut x1508, x1506, x1435, x1482);
    let mut x1509: u32 = 0;
    let mut x1510: u32 = 0;
    fp_mulx_u32(&mut x1509, &mut x1510, x1483, 0xffffffff);
    let mut x1511: u32 = 0;
    let mut x1512: u32 = 0;
    fp_mulx_u32(&mut x1511, &mut x1512, x1509, 0x1ae3a46);
    let mut x1513: u32 = 0;
    let mut x1514: u32 = 0;
    fp_mulx_u32(&mut x1513, &mut x1514, x1509, 0x17c510ea);
    let mut x1515: u32 = 0;
    let mut x1516: u32 = 0;
    fp_mulx_u32(&mut x1515, &mut x1516, x1509, 0xc63b05c0);
    let mut x1517: u32 = 0;
    let mut x1518: u32 = 0;
    fp_mulx_u32(&mut x1517, &mut x1518, x1509, 0x6ca1493b);
    let mut x1519: u32 = 0;
    let mut x1520: u32 = 0;
    fp_mulx_u32(&mut x1519, &mut x1520, x1509, 0x1a22d9f3);
    let mut x1521: u32 = 0;
    let mut x1522: u32 = 0;
    fp_mulx_u32(&mut x1521, &mut x1522, x1509, 0xf5138f);
    let mut x1523: u32 = 0;
    let mut x1524: u32 = 0;
    fp_mulx_u32(&mut x1523, &mut x1524, x1509, 0x1ef3622f);
    let mut x1525: u32 = 0;
    let mut x1526: u32 = 0;
    fp_mulx_u32(&mut x1525, &mut x1526, x1509, 0xba094800);
    let mut x1527: u32 = 0;
    let mut x1528: u32 = 0;
    fp_mulx_u32(&mut x1527, &mut x1528, x1509, 0x170b5d44);
    let mut x1529: u32 = 0;
    let mut x1530: u32 = 0;
    fp_mulx_u32(&mut x1529, &mut x1530, x1509, 0x30000000);
    let mut x1531: u32 = 0;
    let mut x1532: u32 = 0;
    fp_mulx_u32(&mut x1531, &mut x1532, x1509, 0x8508c000);
    let mut x1533: u32 = 0;
    let mut x1534: FpU1 = 0;
    fp_addcarryx_u32(&mut x1533, &mut x1534, 0x0, x1532, x1529);
    let mut x1535: u32 = 0;
    let mut x1536: FpU1 = 0;
    fp_addcarryx_u32(&mut x1535, &mut x1536, x1534, x1530, x1527);
    let mut x1537: u32 = 0;
    let mut x1538: FpU1 = 0;
    fp_addcarryx_u32(&mut x1537, &mut x1538, x1536, x1528, x1525);
    let mut x1539: u32 = 0;
    let mut x1540: FpU1 = 0;
    fp_addcarryx_u32(&mut x1539, &mut x1540, x1538, x1526, x1523);
    let mut x1541: u32 = 0;
    let mut x1542: FpU1 = 0;
    fp_addcarryx_u32(&mut x1541, &mut x1542, x1540, x1524, x1521);
    let mut x1543: u32 = 0;
    let mut x1544: FpU1 = 0;
    fp_addcarryx_u32(&mut x1543, &mut x1544, x1542, x1522, x1519);
    let mut x1545: u32 = 0;
    let mut x1546: FpU1 = 0;
    fp_addcarryx_u32(&mut x1545, &mut x1546, x1544, x1520, x1517);
    let mut x1547: u32 = 0;
    let mut x1548: FpU1 = 0;
    fp_addcarryx_u32(&mut x1547, &mut x1548, x1546, x1518, x1515);
    let mut x1549: u32 = 0;
    let mut x1550: FpU1 = 0;
    fp_addcarryx_u32(&mut x1549, &mut x1550, x1548, x1516, x1513);
    let mut x1551: u32 = 0;
    let mut x1552: FpU1 = 0;
    fp_addcarryx_u32(&mut x1551, &mut x1552, x1550, x1514, x1511);
    let x1553: u32 = ((x1552 as u32) + x1512);
    let mut x1554: u32 = 0;
    let mut x1555: FpU1 = 0;
    fp_addcarryx_u32(&mut x1554, &mut x1555, 0x0, x1483, x1509);
    let mut x1556: u32 = 0;
    let mut x1557: FpU1 = 0;
    fp_addcarryx_u32(&mut x1556, &mut x1557, x1555, x1485, x1531);
    let mut x1558: u32 = 0;
    let mut x1559: FpU1 = 0;
    fp_addcarryx_u32(&mut x1558, &mut x1559, x1557, x1487, x1533);
    let mut x1560: u32 = 0;
    let mut x1561: FpU1 = 0;
    fp_addcarryx_u32(&mut x1560, &mut x1561, x1559, x1489, x1535);
    let mut x1562: u32 = 0;
    let mut x1563: FpU1 = 0;
    fp_addcarryx_u32(&mut x1562, &mut x1563, x1561, x1491, x1537);
    let mut x1564: u32 = 0;
    let mut x1565: FpU1 = 0;
    fp_addcarryx_u32(&mut x1564, &mut x1565, x1563, x1493, x1539);
    let mut x1566: u32 = 0;
    let mut x1567: FpU1 = 0;
    fp_addcarryx_u32(&mut x1566, &mut x1567, x1565, x1495, x1541);
    let mut x1568: u32 = 0;
    let mut x1569: FpU1 = 0;
    fp_addcarryx_u32(&mut x1568, &mut x1569, x1567, x1497, x1543);
    let mut x1570: u32 = 0;
    let mut x1571: FpU1 = 0;
    fp_addcarryx_u32(&mut x1570, &mut x1571, x1569, x1499, x1545);
    let mut x1572: u32 = 0;
    let mut x1573: FpU1 = 0;
    fp_addcarryx_u32(&mut x1572, &mut x1573, x1571, x1501, x1547);
    let mut x1574: u32 = 0;
    let mut x1575: FpU1 = 0;
    fp_addcarryx_u32(&mut x1574, &mut x1575, x1573, x1503, x1549);
    let mut x1576: u32 = 0;
    let mut x1577: FpU1 = 0;
    fp_addcarryx_u32(&mut x1576, &mut x1577, x1575, x1505, x1551);
    let mut x1578: u32 = 0;
    let mut x1579: FpU1 = 0;
    fp_addcarryx_u32(&mut x1578, &mut x1579, x1577, x1507, x1553);
    let x1580: u32 = ((x1579 as u32) + (x1508 as u32));
    let mut x1581: u32 = 0;
    let mut x1582: u32 = 0;
    fp_mulx_u32(&mut x1581, &mut x1582, x11, (arg1[11]));
    let mut x1583: u32 = 0;
    let mut x1584: u32 = 0;
    fp_mulx_u32(&mut x1583, &mut x1584, x11, (arg1[10]));
    let mut x1585: u32 = 0;
    let mut x1586: u32 = 0;
    fp_mulx_u32(&mut x1585, &mut x1586, x11, (arg1[9]));
    let mut x1587: u32 = 0;
    let mut x1588: u32 = 0;
    fp_mulx_u32(&mut x1587, &mut x1588, x11, (arg1[8]));
    let mut x1589: u32 = 0;
    let mut x1590: u32 = 0;
    fp_mulx_u32(&mut x1589, &mut x1590, x11, (arg1[7]));
    let mut x1591: u32 = 0;
    let mut x1592: u32 = 0;
    fp_mulx_u32(&mut x1591, &mut x1592, x11, (arg1[6]));
    let mut x1593: u32 = 0;
    let mut x1594: u32 = 0;
    fp_mulx_u32(&mut x1593, &mut x1594, x11, (arg1[5]));
    let mut x1595: u32 = 0;
    let mut x1596: u32 = 0;
    fp_mulx_u32(&mut x1595, &mut x1596, x11, (arg1[4]));
    let mut x1597: u32 = 0;
    let mut x1598: u32 = 0;
    fp_mulx_u32(&mut x1597, &mut x1598, x11, (arg1[3]));
    let mut x1599: u32 = 0;
    let mut x1600: u32 = 0;
    fp_mulx_u32(&mut x1599, &mut x1600, x11, (arg1[2]));
    let mut x1601: u32 = 0;
    let mut x1602: u32 = 0;
    fp_mulx_u32(&mut x1601, &mut x1602, x11, (arg1[1]));
    let mut x1603: u32 = 0;
    let mut x1604: u32 = 0;
    fp_mulx_u32(&mut x1603, &mut x1604, x11, (arg1[0]));
    let mut x1605: u32 = 0;
    let mut x1606: FpU1 = 0;
    fp_addcarryx_u32(&mut x1605, &mut x1606, 0x0, x1604, x1601);
    let mut x1607: u32 = 0;
    let mut x1608: FpU1 = 0;
    fp_addcarryx_u32(&mut x1607, &mut x1608, x1606, x1602, x1599);
    let mut x1609: u32 = 0;
    let mut x1610: FpU1 = 0;
    fp_addcarryx_u32(&mut x1609, &mut x1610, x1608, x1600, x1597);
    let mut x1611: u32 = 0;
    let mut x1612: FpU1 = 0;
    fp_addcarryx_u32(&mut x1611, &mut x1612, x1610, x1598, x1595);
    let mut x1613: u32 = 0;
    let mut x1614: FpU1 = 0;
    fp_addcarryx_u32(&mut x1613, &mut x1614, x1612, x1596, x1593);
    let mut x1615: u32 = 0;
    let mut x1616: FpU1 = 0;
    fp_addcarryx_u32(&mut x1615, &mut x1616, x1614, x1594, x1591);
    let mut x1617: u32 = 0;
    let mut x1618: FpU1 = 0;
    fp_addcarryx_u32(&mut x1617, &mut x1618, x1616, x1592, x1589);
    let mut x1619: u32 = 0;
    let mut x1620: FpU1 = 0;
    fp_addcarryx_u32(&mut x1619, &mut x1620, x1618, x1590, x1587);
    let mut x1621: u32 = 0;
    let mut x1622: FpU1 = 0;
    fp_addcarryx_u32(&mut x1621, &mut x1622, x1620, x1588, x1585);
    let mut x1623: u32 = 0;
    let mut x1624: FpU1 = 0;
    fp_addcarryx_u32(&mut x1623, &mut x1624, x1622, x1586, x1583);
    let mut x1625: u32 = 0;
    let mut x1626: FpU1 = 0;
    fp_addcarryx_u32(&mut x1625, &mut x1626, x1624, x1584, x1581);
    let x1627: u32 = ((x1626 as u32) + x1582);
    let mut x1628: u32 = 0;
    let mut x1629: FpU1 = 0;
    fp_addcarryx_u32(&mut x1628, &mut x1629, 0x0, x1556, x1603);
    let mut x1630: u32 = 0;
    let mut x1631: FpU1 = 0;
    fp_addcarryx_u32(&mut x1630, &mut x1631, x1629, x1558, x1605);
    let mut x1632: u32 = 0;
    let mut x1633: FpU1 = 0;
    fp_addcarryx_u32(&mut x1632, &mut x1633, x1631, x1560, x1607);
    let mut x1634: u32 = 0;
    let mut x1635: FpU1 = 0;
    fp_addcarryx_u32(&mut x1634, &mut x1635, x1633, x1562, x1609);
    let mut x1636: u32 = 0;
    let mut x1637: FpU1 = 0;
    fp_addcarryx_u32(&mut x1636, &mut x1637, x1635, x1564, x1611);
    let mut x1638: u32 = 0;
    let mut x1639: FpU1 = 0;
    fp_addcarryx_u32(&mut x1638, &mut x1639, x1637, x1566, x1613);
    let mut x1640: u32 = 0;
    let mut x1641: FpU1 = 0;
    fp_addcarryx_u32(&mut x1640, &mut x1641, x1639, x1568, x1615);
    let mut x1642: u32 = 0;
    let mut x1643: FpU1 = 0;
    fp_addcarryx_u32(&mut x1642, &mut x1643, x1641, x1570, x1617);
    let mut x1644: u32 = 0;
    let mut x1645: FpU1 = 0;
    fp_addcarryx_u32(&mut x1644, &mut x1645, x1643, x1572, x1619);
    let mut x1646: u32 = 0;
    let mut x1647: FpU1 = 0;
    fp_addcarryx_u32(&mut x1646, &mut x1647, x1645, x1574, x1621);
    let mut x1648: u32 = 0;
    let mut x1649: FpU1 = 0;
    fp_addcarryx_u32(&mut x1648, &mut x1649, x1647, x1576, x1623);
    let mut x1650: u32 = 0;
    let mut x1651: FpU1 = 0;
    fp_addcarryx_u32(&mut x1650, &mut x1651, x1649, x1578, x1625);
    let mut x1652: u32 = 0;
    let mut x1653: FpU1 = 0;
    fp_addcarryx_u32(&mut x1652, &mut x1653, x1651, x1580, x1627);
    let mut x1654: u32 = 0;
    let mut x1655: u32 = 0;
    fp_mulx_u32(&mut x1654, &mut x1655, x1628, 0xffffffff);
    let mut x1656: u32 = 0;
    let mut x1657: u32 = 0;
    fp_mulx_u32(&mut x1656, &mut x1657, x1654, 0x1ae3a46);
    let mut x1658: u32 = 0;
    let mut x1659: u32 = 0;
    fp_mulx_u32(&mut x1658, &mut x1659, x1654, 0x17c510ea);
    let mut x1660: u32 = 0;
    let mut x1661: u32 = 0;
    fp_mulx_u32(&mut x1660, &mut x1661, x1654, 0xc63b05c0);
    let mut x1662: u32 = 0;
    let mut x1663: u32 = 0;
    fp_mulx_u32(&mut x1662, &mut x1663, x1654, 0x6ca1493b);
    let mut x1664: u32 = 0;
    let mut x1665: u32 = 0;
    fp_mulx_u32(&mut x1664, &mut x1665, x1654, 0x1a22d9f3);
    let mut x1666: u32 = 0;
    let mut x1667: u32 = 0;
    fp_mulx_u32(&mut x1666, &mut x1667, x1654, 0xf5138f);
    let mut x1668: u32 = 0;
    let mut x1669: u32 = 0;
    fp_mulx_u32(&mut x1668, &mut x1669, x1654, 0x1ef3622f);
    let mut x1670: u32 = 0;
    let mut x1671: u32 = 0;
    fp_mulx_u32(&mut x1670, &mut x1671, x1654, 0xba094800);
    let mut x1672: u32 = 0;
    let mut x1673: u32 = 0;
    fp_mulx_u32(&mut x1672, &mut x1673, x1654, 0x170b5d44);
    let mut x1674: u32 = 0;
    let mut x1675: u32 = 0;
    fp_mulx_u32(&mut x1674, &mut x1675, x1654, 0x30000000);
    let mut x1676: u32 = 0;
    let mut x1677: u32 = 0;
    fp_mulx_u32(&mut x1676, &mut x1677, x1654, 0x8508c000);
    let mut x1678: u32 = 0;
    let mut x1679: FpU1 = 0;
    fp_addcarryx_u32(&mut x1678, &mut x1679, 0x0, x1677, x1674);
    let mut x1680: u32 = 0;
    let mut x1681: FpU1 = 0;
    fp_addcarryx_u32(&mut x1680, &mut x1681, x1679, x1675, x1672);
    let mut x1682: u32 = 0;
    let mut x1683: FpU1 = 0;
    fp_addcarryx_u32(&mut x1682, &mut x1683, x1681, x1673, x1670);
    let mut x1684: u32 = 0;
    let mut x1685: FpU1 = 0;
    fp_addcarryx_u32(&mut x1684, &mut x1685, x1683, x1671, x1668);
    let mut x1686: u32 = 0;
    let mut x1687: FpU1 = 0;
    fp_addcarryx_u32(&mut x1686, &mut x1687, x1685, x1669, x1666);
    let mut x1688: u32 = 0;
    let mut x1689: FpU1 = 0;
    fp_addcarryx_u32(&mut x1688, &mut x1689, x1687, x1667, x1664);
    let mut x1690: u32 = 0;
    let mut x1691: FpU1 = 0;
    fp_addcarryx_u32(&mut x1690, &mut x1691, x1689, x1665, x1662);
    let mut x1692: u32 = 0;
    let mut x1693: FpU1 = 0;
    fp_addcarryx_u32(&mut x1692, &mut x1693, x1691, x1663, x1660);
    let mut x1694: u32 = 0;
    let mut x1695: FpU1 = 0;
    fp_addcarryx_u32(&mut x1694, &mut x1695, x1693, x1661, x1658);
    let mut x1696: u32 = 0;
    let mut x1697: FpU1 = 0;
    fp_addcarryx_u32(&mut x1696, &mut x1697, x1695, x1659, x1656);
    let x1698: u32 = ((x1697 as u32) + x1657);
    let mut x1699: u32 = 0;
    let mut x1700: FpU1 = 0;
    fp_addcarryx_u32(&mut x1699, &mut x1700, 0x0, x1628, x1654);
    let mut x1701: u32 = 0;
    let mut x1702: FpU1 = 0;
    fp_addcarryx_u32(&mut x1701, &mut x1702, x1700, x1630, x1676);
    let mut x1703: u32 = 0;
    let mut x1704: FpU1 = 0;
    fp_addcarryx_u32(&mut x1703, &mut x1704, x1702, x1632, x1678);
    let mut x1705: u32 = 0;
    let mut x1706: FpU1 = 0;
    fp_addcarryx_u32(&mut x1705, &mut x1706, x1704, x1634, x1680);
    let mut x1707: u32 = 0;
    let mut x1708: FpU1 = 0;
    fp_addcarryx_u32(&mut x1707, &mut x1708, x1706, x1636, x1682);
    let mut x1709: u32 = 0;
    let mut x1710: FpU1 = 0;
    fp_addcarryx_u32(&mut x1709, &mut x1710, x1708, x1638, x1684);
    let mut x1711: u32 = 0;
    let mut x1712: FpU1 = 0;
    fp_addcarryx_u32(&mut x1711, &mut x1712, x1710, x1640, x1686);
    let mut x1713: u32 = 0;
    let mut x1714: FpU1 = 0;
    fp_addcarryx_u32(&mut x1713, &mut x1714, x1712, x1642, x1688);
    let mut x1715: u32 = 0;
    let mut x1716: FpU1 = 0;
    fp_addcarryx_u32(&mut x1715, &mut x1716, x1714, x1644, x1690);
    let mut x1717: u32 = 0;
    let mut x1718: FpU1 = 0;
    fp_addcarryx_u32(&mut x1717, &mut x1718, x1716, x1646, x1692);
    let mut x1719: u32 = 0;
    let mut x1720: FpU1 = 0;
    fp_addcarryx_u32(&mut x1719, &mut x1720, x1718, x1648, x1694);
    let mut x1721: u32 = 0;
    let mut x1722: FpU1 = 0;
    fp_addcarryx_u32(&mut x1721, &mut x1722, x1720, x1650, x1696);
    let mut x1723: u32 = 0;
    let mut x1724: FpU1 = 0;
    fp_addcarryx_u32(&mut x1723, &mut x1724, x1722, x1652, x1698);
    let x1725: u32 = ((x1724 as u32) + (x1653 as u32));
    let mut x1726: u32 = 0;
    let mut x1727: FpU1 = 0;
    fp_subborrowx_u32(&mut x1726, &mut x1727, 0x0, x1701, (0x1 as u32));
    let mut x1728: u32 = 0;
    let mut x1729: FpU1 = 0;
    fp_subborrowx_u32(&mut x1728, &mut x1729, x1727, x1703, 0x8508c000);
    let mut x1730: u32 = 0;
    let mut x1731: FpU1 = 0;
    fp_subborrowx_u32(&mut x1730, &mut x1731, x1729, x1705, 0x30000000);
    let mut x1732: u32 = 0;
    let mut x1733: FpU1 = 0;
    fp_subborrowx_u32(&mut x1732, &mut x1733, x1731, x1707, 0x170b5d44);
    let mut x1734: u32 = 0;
    let mut x1735: FpU1 = 0;
    fp_subborrowx_u32(&mut x1734, &mut x1735, x1733, x1709, 0xba094800);
    let mut x1736: u32 = 0;
    let mut x1737: FpU1 = 0;
    fp_subborrowx_u32(&mut x1736, &mut x1737, x1735, x1711, 0x1ef3622f);
    let mut x1738: u32 = 0;
    let mut x1739: FpU1 = 0;
    fp_subborrowx_u32(&mut x1738, &mut x1739, x1737, x1713, 0xf5138f);
    let mut x1740: u32 = 0;
    let mut x1741: FpU1 = 0;
    fp_subborrowx_u32(&mut x1740, &mut x1741, x1739, x1715, 0x1a22d9f3);
    let mut x1742: u32 = 0;
    let mut x1743: FpU1 = 0;
    fp_subborrowx_u32(&mut x1742, &mut x1743, x1741, x1717, 0x6ca1493b);
    let mut x1744: u32 = 0;
    let mut x1745: FpU1 = 0;
    fp_subborrowx_u32(&mut x1744, &mut x1745, x1743, x1719, 0xc63b05c0);
    let mut x1746: u32 = 0;
    let mut x1747: FpU1 = 0;
    fp_subborrowx_u32(&mut x1746, &mut x1747, x1745, x1721, 0x17c510ea);
    let mut x1748: u32 = 0;
    let mut x1749: FpU1 = 0;
    fp_subborrowx_u32(&mut x1748, &mut x1749, x1747, x1723, 0x1ae3a46);
    let mut x1750: u32 = 0;
    let mut x1751: FpU1 = 0;
    fp_subborrowx_u32(&mut x1750, &mut x1751, x1749, x1725, (0x0 as u32));
    let mut x1752: u32 = 0;
    fp_cmovznz_u32(&mut x1752, x1751, x1726, x1701);
    let mut x1753: u32 = 0;
    fp_cmovznz_u32(&mut x1753, x1751, x1728, x1703);
    let mut x1754: u32 = 0;
    fp_cmovznz_u32(&mut x1754, x1751, x1730, x1705);
    let mut x1755: u32 = 0;
    fp_cmovznz_u32(&mut x1755, x1751, x1732, x1707);
    let mut x1756: u32 = 0;
    fp_cmovznz_u32(&mut x1756, x1751, x1734, x1709);
    let mut x1757: u32 = 0;
    fp_cmovznz_u32(&mut x1757, x1751, x1736, x1711);
    let mut x1758: u32 = 0;
    fp_cmovznz_u32(&mut x1758, x1751, x1738, x1713);
    let mut x1759: u32 = 0;
    fp_cmovznz_u32(&mut x1759, x1751, x1740, x1715);
    let mut x1760: u32 = 0;
    fp_cmovznz_u32(&mut x1760, x1751, x1742, x1717);
    let mut x1761: u32 = 0;
    fp_cmovznz_u32(&mut x1761, x1751, x1744, x1719);
    let mut x1762: u32 = 0;
    fp_cmovznz_u32(&mut x1762, x1751, x1746, x1721);
    let mut x1763: u32 = 0;
    fp_cmovznz_u32(&mut x1763, x1751, x1748, x1723);
    out1[0] = x1752;
    out1[1] = x1753;
    out1[2] = x1754;
    out1[3] = x1755;
    out1[4] = x1756;
    out1[5] = x1757;
    out1[6] = x1758;
    out1[7] = x1759;
    out1[8] = x1760;
    out1[9] = x1761;
    out1[10] = x1762;
    out1[11] = x1763;
}

/// The function fp_add adds two field elements in the Montgomery domain.
///
/// Preconditions:
///   0 ≤ eval arg1 < m
///   0 ≤ eval arg2 < m
/// Postconditions:
///   eval (from_montgomery out1) mod m = (eval (from_montgomery arg1) + eval (from_montgomery arg2)) mod m
///   0 ≤ eval out1 < m
///
pub fn fp_add(
    out1: &mut FpMontgomeryDomainFieldElement,
    arg1: &FpMontgomeryDomainFieldElement,
    arg2: &FpMontgomeryDomainFieldElement,
) {
    let mut x1: u32 = 0;
    let mut x2: FpU1 = 0;
    fp_addcarryx_u32(&mut x1, &mut x2, 0x0, (arg1[0]), (arg2[0]));
    let mut x3: u32 = 0;
    let mut x4: FpU1 = 0;
    fp_addcarryx_u32(&mut x3, &mut x4, x2, (arg1[1]), (arg2[1]));
    let mut x5: u32 = 0;
    let mut x6: FpU1 = 0;
    fp_addcarryx_u32(&mut x5, &mut x6, x4, (arg1[2]), (arg2[2]));
    let mut x7: u32 = 0;
    let mut x8: FpU1 = 0;
    fp_addcarryx_u32(&mut x7, &mut x8, x6, (arg1[3]), (arg2[3]));
    let mut x9: u32 = 0;
    let mut x10: FpU1 = 0;
    fp_addcarryx_u32(&mut x9, &mut x10, x8, (arg1[4]), (arg2[4]));
    let mut x11: u32 = 0;
    let mut x12: FpU1 = 0;
    fp_addcarryx_u32(&mut x11, &mut x12, x10, (arg1[5]), (arg2[5]));
    let mut x13: u32 = 0;
    let mut x14: FpU1 = 0;
    fp_addcarryx_u32(&mut x13, &mut x14, x12, (arg1[6]), (arg2[6]));
    let mut x15: u32 = 0;
    let mut x16: FpU1 = 0;
    fp_addcarryx_u32(&mut x15, &mut x16, x14, (arg1[7]), (arg2[7]));
    let mut x17: u32 = 0;
    let mut x18: FpU1 = 0;
    fp_addcarryx_u32(&mut x17, &mut x18, x16, (arg1[8]), (arg2[8]));
    let mut x19: u32 = 0;
    let mut x20: FpU1 = 0;
    fp_addcarryx_u32(&mut x19, &mut x20, x18, (arg1[9]), (arg2[9]));
    let mut x21: u32 = 0;
    let mut x22: FpU1 = 0;
    fp_addcarryx_u32(&mut x21, &mut x22, x20, (arg1[10]), (arg2[10]));
    let mut x23: u32 = 0;
    let mut x24: FpU1 = 0;
    fp_addcarryx_u32(&mut x23, &mut x24, x22, (arg1[11]), (arg2[11]));
    let mut x25: u32 = 0;
    let mut x26: FpU1 = 0;
    fp_subborrowx_u32(&mut x25, &mut x26, 0x0, x1, (0x1 as u32));
    let mut x27: u32 = 0;
    let mut x28: FpU1 = 0;
    fp_subborrowx_u32(&mut x27, &mut x28, x26, x3, 0x8508c000);
    let mut x29: u32 = 0;
    let mut x30: FpU1 = 0;
    fp_subborrowx_u32(&mut x29, &mut x30, x28, x5, 0x30000000);
    let mut x31: u32 = 0;
    let mut x32: FpU1 = 0;
    fp_subborrowx_u32(&mut x31, &mut x32, x30, x7, 0x170b5d44);
    let mut x33: u32 = 0;
    let mut x34: FpU1 = 0;
    fp_subborrowx_u32(&mut x33, &mut x34, x32, x9, 0xba094800);
    let mut x35: u32 = 0;
    let mut x36: FpU1 = 0;
    fp_subborrowx_u32(&mut x35, &mut x36, x34, x11, 0x1ef3622f);
    let mut x37: u32 = 0;
    let mut x38: FpU1 = 0;
    fp_subborrowx_u32(&mut x37, &mut x38, x36, x13, 0xf5138f);
    let mut x39: u32 = 0;
    let mut x40: FpU1 = 0;
    fp_subborrowx_u32(&mut x39, &mut x40, x38, x15, 0x1a22d9f3);
    let mut x41: u32 = 0;
    let mut x42: FpU1 = 0;
    fp_subborrowx_u32(&mut x41, &mut x42, x40, x17, 0x6ca1493b);
    let mut x43: u32 = 0;
    let mut x44: FpU1 = 0;
    fp_subborrowx_u32(&mut x43, &mut x44, x42, x19, 0xc63b05c0);
    let mut x45: u32 = 0;
    let mut x46: FpU1 = 0;
    fp_subborrowx_u32(&mut x45, &mut x46, x44, x21, 0x17c510ea);
    let mut x47: u32 = 0;
    let mut x48: FpU1 = 0;
    fp_subborrowx_u32(&mut x47, &mut x48, x46, x23, 0x1ae3a46);
    let mut x49: u32 = 0;
    let mut x50: FpU1 = 0;
    fp_subborrowx_u32(&mut x49, &mut x50, x48, (x24 as u32), (0x0 as u32));
    let mut x51: u32 = 0;
    fp_cmovznz_u32(&mut x51, x50, x25, x1);
    let mut x52: u32 = 0;
    fp_cmovznz_u32(&mut x52, x50, x27, x3);
    let mut x53: u32 = 0;
    fp_cmovznz_u32(&mut x53, x50, x29, x5);
    let mut x54: u32 = 0;
    fp_cmovznz_u32(&mut x54, x50, x31, x7);
    let mut x55: u32 = 0;
    fp_cmovznz_u32(&mut x55, x50, x33, x9);
    let mut x56: u32 = 0;
    fp_cmovznz_u32(&mut x56, x50, x35, x11);
    let mut x57: u32 = 0;
    fp_cmovznz_u32(&mut x57, x50, x37, x13);
    let mut x58: u32 = 0;
    fp_cmovznz_u32(&mut x58, x50, x39, x15);
    let mut x59: u32 = 0;
    fp_cmovznz_u32(&mut x59, x50, x41, x17);
    let mut x60: u32 = 0;
    fp_cmovznz_u32(&mut x60, x50, x43, x19);
    let mut x61: u32 = 0;
    fp_cmovznz_u32(&mut x61, x50, x45, x21);
    let mut x62: u32 = 0;
    fp_cmovznz_u32(&mut x62, x50, x47, x23);
    out1[0] = x51;
    out1[1] = x52;
    out1[2] = x53;
    out1[3] = x54;
    out1[4] = x55;
    out1[5] = x56;
    out1[6] = x57;
    out1[7] = x58;
    out1[8] = x59;
    out1[9] = x60;
    out1[10] = x61;
    out1[11] = x62;
}

/// The function fp_sub subtracts two field elements in the Montgomery domain.
///
/// Preconditions:
///   0 ≤ eval arg1 < m
///   0 ≤ eval arg2 < m
/// Postconditions:
///   eval (from_montgomery out1) mod m = (eval (from_montgomery arg1) - eval (from_montgomery arg2)) mod m
///   0 ≤ eval out1 < m
///
pub fn fp_sub(
    out1: &mut FpMontgomeryDomainFieldElement,
    arg1: &FpMontgomeryDomainFieldElement,
    arg2: &FpMontgomeryDomainFieldElement,
) {
    let mut x1: u32 = 0;
    let mut x2: FpU1 = 0;
    fp_subborrowx_u32(&mut x1, &mut x2, 0x0, (arg1[0]), (arg2[0]));
    let mut x3: u32 = 0;
    let mut x4: FpU1 = 0;
    fp_subborrowx_u32(&mut x3, &mut x4, x2, (arg1[1]), (arg2[1]));
    let mut x5: u32 = 0;
    let mut x6: FpU1 = 0;
    fp_subborrowx_u32(&mut x5, &mut x6, x4, (arg1[2]), (arg2[2]));
    let mut x7: u32 = 0;
    let mut x8: FpU1 = 0;
    fp_subborrowx_u32(&mut x7, &mut x8, x6, (arg1[3]), (arg2[3]));
    let mut x9: u32 = 0;
    let mut x10: FpU1 = 0;
    fp_subborrowx_u32(&mut x9, &mut x10, x8, (arg1[4]), (arg2[4]));
    let mut x11: u32 = 0;
    let mut x12: FpU1 = 0;
    fp_subborrowx_u32(&mut x11, &mut x12, x10, (arg1[5]), (arg2[5]));
    let mut x13: u32 = 0;
    let mut x14: FpU1 = 0;
    fp_subborrowx_u32(&mut x13, &mut x14, x12, (arg1[6]), (arg2[6]));
    let mut x15: u32 = 0;
    let mut x16: FpU1 = 0;
    fp_subborrowx_u32(&mut x15, &mut x16, x14, (arg1[7]), (arg2[7]));
    let mut x17: u32 = 0;
    let mut x18: FpU1 = 0;
    fp_subborrowx_u32(&mut x17, &mut x18, x16, (arg1[8]), (arg2[8]));
    let mut x19: u32 = 0;
    let mut x20: FpU1 = 0;
    fp_subborrowx_u32(&mut x19, &mut x20, x18, (arg1[9]), (arg2[9]));
    let mut x21: u32 = 0;
    let mut x22: FpU1 = 0;
    fp_subborrowx_u32(&mut x21, &mut x22, x20, (arg1[10]), (arg2[10]));
    let mut x23: u32 = 0;
    let mut x24: FpU1 = 0;
    fp_subborrowx_u32(&mut x23, &mut x24, x22, (arg1[11]), (arg2[11]));
    let mut x25: u32 = 0;
    fp_cmovznz_u32(&mut x25, x24, (0x0 as u32), 0xffffffff);
    let mut x26: u32 = 0;
    let mut x27: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x26,
        &mut x27,
        0x0,
        x1,
        (((x25 & (0x1 as u32)) as FpU1) as u32),
    );
    let mut x28: u32 = 0;
    let mut x29: FpU1 = 0;
    fp_addcarryx_u32(&mut x28, &mut x29, x27, x3, (x25 & 0x8508c000));
    let mut x30: u32 = 0;
    let mut x31: FpU1 = 0;
    fp_addcarryx_u32(&mut x30, &mut x31, x29, x5, (x25 & 0x30000000));
    let mut x32: u32 = 0;
    let mut x33: FpU1 = 0;
    fp_addcarryx_u32(&mut x32, &mut x33, x31, x7, (x25 & 0x170b5d44));
    let mut x34: u32 = 0;
    let mut x35: FpU1 = 0;
    fp_addcarryx_u32(&mut x34, &mut x35, x33, x9, (x25 & 0xba094800));
    let mut x36: u32 = 0;
    let mut x37: FpU1 = 0;
    fp_addcarryx_u32(&mut x36, &mut x37, x35, x11, (x25 & 0x1ef3622f));
    let mut x38: u32 = 0;
    let mut x39: FpU1 = 0;
    fp_addcarryx_u32(&mut x38, &mut x39, x37, x13, (x25 & 0xf5138f));
    let mut x40: u32 = 0;
    let mut x41: FpU1 = 0;
    fp_addcarryx_u32(&mut x40, &mut x41, x39, x15, (x25 & 0x1a22d9f3));
    let mut x42: u32 = 0;
    let mut x43: FpU1 = 0;
    fp_addcarryx_u32(&mut x42, &mut x43, x41, x17, (x25 & 0x6ca1493b));
    let mut x44: u32 = 0;
    let mut x45: FpU1 = 0;
    fp_addcarryx_u32(&mut x44, &mut x45, x43, x19, (x25 & 0xc63b05c0));
    let mut x46: u32 = 0;
    let mut x47: FpU1 = 0;
    fp_addcarryx_u32(&mut x46, &mut x47, x45, x21, (x25 & 0x17c510ea));
    let mut x48: u32 = 0;
    let mut x49: FpU1 = 0;
    fp_addcarryx_u32(&mut x48, &mut x49, x47, x23, (x25 & 0x1ae3a46));
    out1[0] = x26;
    out1[1] = x28;
    out1[2] = x30;
    out1[3] = x32;
    out1[4] = x34;
    out1[5] = x36;
    out1[6] = x38;
    out1[7] = x40;
    out1[8] = x42;
    out1[9] = x44;
    out1[10] = x46;
    out1[11] = x48;
}

/// The function fp_opp negates a field element in the Montgomery domain.
///
/// Preconditions:
///   0 ≤ eval arg1 < m
/// Postconditions:
///   eval (from_montgomery out1) mod m = -eval (from_montgomery arg1) mod m
///   0 ≤ eval out1 < m
///
pub fn fp_opp(out1: &mut FpMontgomeryDomainFieldElement, arg1: &FpMontgomeryDomainFieldElement) {
    let mut x1: u32 = 0;
    let mut x2: FpU1 = 0;
    fp_subborrowx_u32(&mut x1, &mut x2, 0x0, (0x0 as u32), (arg1[0]));
    let mut x3: u32 = 0;
    let mut x4: FpU1 = 0;
    fp_subborrowx_u32(&mut x3, &mut x4, x2, (0x0 as u32), (arg1[1]));
    let mut x5: u32 = 0;
    let mut x6: FpU1 = 0;
    fp_subborrowx_u32(&mut x5, &mut x6, x4, (0x0 as u32), (arg1[2]));
    let mut x7: u32 = 0;
    let mut x8: FpU1 = 0;
    fp_subborrowx_u32(&mut x7, &mut x8, x6, (0x0 as u32), (arg1[3]));
    let mut x9: u32 = 0;
    let mut x10: FpU1 = 0;
    fp_subborrowx_u32(&mut x9, &mut x10, x8, (0x0 as u32), (arg1[4]));
    let mut x11: u32 = 0;
    let mut x12: FpU1 = 0;
    fp_subborrowx_u32(&mut x11, &mut x12, x10, (0x0 as u32), (arg1[5]));
    let mut x13: u32 = 0;
    let mut x14: FpU1 = 0;
    fp_subborrowx_u32(&mut x13, &mut x14, x12, (0x0 as u32), (arg1[6]));
    let mut x15: u32 = 0;
    let mut x16: FpU1 = 0;
    fp_subborrowx_u32(&mut x15, &mut x16, x14, (0x0 as u32), (arg1[7]));
    let mut x17: u32 = 0;
    let mut x18: FpU1 = 0;
    fp_subborrowx_u32(&mut x17, &mut x18, x16, (0x0 as u32), (arg1[8]));
    let mut x19: u32 = 0;
    let mut x20: FpU1 = 0;
    fp_subborrowx_u32(&mut x19, &mut x20, x18, (0x0 as u32), (arg1[9]));
    let mut x21: u32 = 0;
    let mut x22: FpU1 = 0;
    fp_subborrowx_u32(&mut x21, &mut x22, x20, (0x0 as u32), (arg1[10]));
    let mut x23: u32 = 0;
    let mut x24: FpU1 = 0;
    fp_subborrowx_u32(&mut x23, &mut x24, x22, (0x0 as u32), (arg1[11]));
    let mut x25: u32 = 0;
    fp_cmovznz_u32(&mut x25, x24, (0x0 as u32), 0xffffffff);
    let mut x26: u32 = 0;
    let mut x27: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x26,
        &mut x27,
        0x0,
        x1,
        (((x25 & (0x1 as u32)) as FpU1) as u32),
    );
    let mut x28: u32 = 0;
    let mut x29: FpU1 = 0;
    fp_addcarryx_u32(&mut x28, &mut x29, x27, x3, (x25 & 0x8508c000));
    let mut x30: u32 = 0;
    let mut x31: FpU1 = 0;
    fp_addcarryx_u32(&mut x30, &mut x31, x29, x5, (x25 & 0x30000000));
    let mut x32: u32 = 0;
    let mut x33: FpU1 = 0;
    fp_addcarryx_u32(&mut x32, &mut x33, x31, x7, (x25 & 0x170b5d44));
    let mut x34: u32 = 0;
    let mut x35: FpU1 = 0;
    fp_addcarryx_u32(&mut x34, &mut x35, x33, x9, (x25 & 0xba094800));
    let mut x36: u32 = 0;
    let mut x37: FpU1 = 0;
    fp_addcarryx_u32(&mut x36, &mut x37, x35, x11, (x25 & 0x1ef3622f));
    let mut x38: u32 = 0;
    let mut x39: FpU1 = 0;
    fp_addcarryx_u32(&mut x38, &mut x39, x37, x13, (x25 & 0xf5138f));
    let mut x40: u32 = 0;
    let mut x41: FpU1 = 0;
    fp_addcarryx_u32(&mut x40, &mut x41, x39, x15, (x25 & 0x1a22d9f3));
    let mut x42: u32 = 0;
    let mut x43: FpU1 = 0;
    fp_addcarryx_u32(&mut x42, &mut x43, x41, x17, (x25 & 0x6ca1493b));
    let mut x44: u32 = 0;
    let mut x45: FpU1 = 0;
    fp_addcarryx_u32(&mut x44, &mut x45, x43, x19, (x25 & 0xc63b05c0));
    let mut x46: u32 = 0;
    let mut x47: FpU1 = 0;
    fp_addcarryx_u32(&mut x46, &mut x47, x45, x21, (x25 & 0x17c510ea));
    let mut x48: u32 = 0;
    let mut x49: FpU1 = 0;
    fp_addcarryx_u32(&mut x48, &mut x49, x47, x23, (x25 & 0x1ae3a46));
    out1[0] = x26;
    out1[1] = x28;
    out1[2] = x30;
    out1[3] = x32;
    out1[4] = x34;
    out1[5] = x36;
    out1[6] = x38;
    out1[7] = x40;
    out1[8] = x42;
    out1[9] = x44;
    out1[10] = x46;
    out1[11] = x48;
}

/// The function fp_from_montgomery translates a field element out of the Montgomery domain.
///
/// Preconditions:
///   0 ≤ eval arg1 < m
/// Postconditions:
///   eval out1 mod m = (eval arg1 * ((2^32)⁻¹ mod m)^12) mod m
///   0 ≤ eval out1 < m
///
pub fn fp_from_montgomery(
    out1: &mut FpNonMontgomeryDomainFieldElement,
    arg1: &FpMontgomeryDomainFieldElement,
) {
    let x1: u32 = (arg1[0]);
    let mut x2: u32 = 0;
    let mut x3: u32 = 0;
    fp_mulx_u32(&mut x2, &mut x3, x1, 0xffffffff);
    let mut x4: u32 = 0;
    let mut x5: u32 = 0;
    fp_mulx_u32(&mut x4, &mut x5, x2, 0x1ae3a46);
    let mut x6: u32 = 0;
    let mut x7: u32 = 0;
    fp_mulx_u32(&mut x6, &mut x7, x2, 0x17c510ea);
    let mut x8: u32 = 0;
    let mut x9: u32 = 0;
    fp_mulx_u32(&mut x8, &mut x9, x2, 0xc63b05c0);
    let mut x10: u32 = 0;
    let mut x11: u32 = 0;
    fp_mulx_u32(&mut x10, &mut x11, x2, 0x6ca1493b);
    let mut x12: u32 = 0;
    let mut x13: u32 = 0;
    fp_mulx_u32(&mut x12, &mut x13, x2, 0x1a22d9f3);
    let mut x14: u32 = 0;
    let mut x15: u32 = 0;
    fp_mulx_u32(&mut x14, &mut x15, x2, 0xf5138f);
    let mut x16: u32 = 0;
    let mut x17: u32 = 0;
    fp_mulx_u32(&mut x16, &mut x17, x2, 0x1ef3622f);
    let mut x18: u32 = 0;
    let mut x19: u32 = 0;
    fp_mulx_u32(&mut x18, &mut x19, x2, 0xba094800);
    let mut x20: u32 = 0;
    let mut x21: u32 = 0;
    fp_mulx_u32(&mut x20, &mut x21, x2, 0x170b5d44);
    let mut x22: u32 = 0;
    let mut x23: u32 = 0;
    fp_mulx_u32(&mut x22, &mut x23, x2, 0x30000000);
    let mut x24: u32 = 0;
    let mut x25: u32 = 0;
    fp_mulx_u32(&mut x24, &mut x25, x2, 0x8508c000);
    let mut x26: u32 = 0;
    let mut x27: FpU1 = 0;
    fp_addcarryx_u32(&mut x26, &mut x27, 0x0, x25, x22);
    let mut x28: u32 = 0;
    let mut x29: FpU1 = 0;
    fp_addcarryx_u32(&mut x28, &mut x29, x27, x23, x20);
    let mut x30: u32 = 0;
    let mut x31: FpU1 = 0;
    fp_addcarryx_u32(&mut x30, &mut x31, x29, x21, x18);
    let mut x32: u32 = 0;
    let mut x33: FpU1 = 0;
    fp_addcarryx_u32(&mut x32, &mut x33, x31, x19, x16);
    let mut x34: u32 = 0;
    let mut x35: FpU1 = 0;
    fp_addcarryx_u32(&mut x34, &mut x35, x33, x17, x14);
    let mut x36: u32 = 0;
    let mut x37: FpU1 = 0;
    fp_addcarryx_u32(&mut x36, &mut x37, x35, x15, x12);
    let mut x38: u32 = 0;
    let mut x39: FpU1 = 0;
    fp_addcarryx_u32(&mut x38, &mut x39, x37, x13, x10);
    let mut x40: u32 = 0;
    let mut x41: FpU1 = 0;
    fp_addcarryx_u32(&mut x40, &mut x41, x39, x11, x8);
    let mut x42: u32 = 0;
    let mut x43: FpU1 = 0;
    fp_addcarryx_u32(&mut x42, &mut x43, x41, x9, x6);
    let mut x44: u32 = 0;
    let mut x45: FpU1 = 0;
    fp_addcarryx_u32(&mut x44, &mut x45, x43, x7, x4);
    let mut x46: u32 = 0;
    let mut x47: FpU1 = 0;
    fp_addcarryx_u32(&mut x46, &mut x47, 0x0, x1, x2);
    let mut x48: u32 = 0;
    let mut x49: FpU1 = 0;
    fp_addcarryx_u32(&mut x48, &mut x49, x47, (0x0 as u32), x24);
    let mut x50: u32 = 0;
    let mut x51: FpU1 = 0;
    fp_addcarryx_u32(&mut x50, &mut x51, x49, (0x0 as u32), x26);
    let mut x52: u32 = 0;
    let mut x53: FpU1 = 0;
    fp_addcarryx_u32(&mut x52, &mut x53, x51, (0x0 as u32), x28);
    let mut x54: u32 = 0;
    let mut x55: FpU1 = 0;
    fp_addcarryx_u32(&mut x54, &mut x55, x53, (0x0 as u32), x30);
    let mut x56: u32 = 0;
    let mut x57: FpU1 = 0;
    fp_addcarryx_u32(&mut x56, &mut x57, x55, (0x0 as u32), x32);
    let mut x58: u32 = 0;
    let mut x59: FpU1 = 0;
    fp_addcarryx_u32(&mut x58, &mut x59, x57, (0x0 as u32), x34);
    let mut x60: u32 = 0;
    let mut x61: FpU1 = 0;
    fp_addcarryx_u32(&mut x60, &mut x61, x59, (0x0 as u32), x36);
    let mut x62: u32 = 0;
    let mut x63: FpU1 = 0;
    fp_addcarryx_u32(&mut x62, &mut x63, x61, (0x0 as u32), x38);
    let mut x64: u32 = 0;
    let mut x65: FpU1 = 0;
    fp_addcarryx_u32(&mut x64, &mut x65, x63, (0x0 as u32), x40);
    let mut x66: u32 = 0;
    let mut x67: FpU1 = 0;
    fp_addcarryx_u32(&mut x66, &mut x67, x65, (0x0 as u32), x42);
    let mut x68: u32 = 0;
    let mut x69: FpU1 = 0;
    fp_addcarryx_u32(&mut x68, &mut x69, x67, (0x0 as u32), x44);
    let mut x70: u32 = 0;
    let mut x71: FpU1 = 0;
    fp_addcarryx_u32(&mut x70, &mut x71, 0x0, x48, (arg1[1]));
    let mut x72: u32 = 0;
    let mut x73: FpU1 = 0;
    fp_addcarryx_u32(&mut x72, &mut x73, x71, x50, (0x0 as u32));
    let mut x74: u32 = 0;
    let mut x75: FpU1 = 0;
    fp_addcarryx_u32(&mut x74, &mut x75, x73, x52, (0x0 as u32));
    let mut x76: u32 = 0;
    let mut x77: FpU1 = 0;
    fp_addcarryx_u32(&mut x76, &mut x77, x75, x54, (0x0 as u32));
    let mut x78: u32 = 0;
    let mut x79: FpU1 = 0;
    fp_addcarryx_u32(&mut x78, &mut x79, x77, x56, (0x0 as u32));
    let mut x80: u32 = 0;
    let mut x81: FpU1 = 0;
    fp_addcarryx_u32(&mut x80, &mut x81, x79, x58, (0x0 as u32));
    let mut x82: u32 = 0;
    let mut x83: FpU1 = 0;
    fp_addcarryx_u32(&mut x82, &mut x83, x81, x60, (0x0 as u32));
    let mut x84: u32 = 0;
    let mut x85: FpU1 = 0;
    fp_addcarryx_u32(&mut x84, &mut x85, x83, x62, (0x0 as u32));
    let mut x86: u32 = 0;
    let mut x87: FpU1 = 0;
    fp_addcarryx_u32(&mut x86, &mut x87, x85, x64, (0x0 as u32));
    let mut x88: u32 = 0;
    let mut x89: FpU1 = 0;
    fp_addcarryx_u32(&mut x88, &mut x89, x87, x66, (0x0 as u32));
    let mut x90: u32 = 0;
    let mut x91: FpU1 = 0;
    fp_addcarryx_u32(&mut x90, &mut x91, x89, x68, (0x0 as u32));
    let mut x92: u32 = 0;
    let mut x93: u32 = 0;
    fp_mulx_u32(&mut x92, &mut x93, x70, 0xffffffff);
    let mut x94: u32 = 0;
    let mut x95: u32 = 0;
    fp_mulx_u32(&mut x94, &mut x95, x92, 0x1ae3a46);
    let mut x96: u32 = 0;
    let mut x97: u32 = 0;
    fp_mulx_u32(&mut x96, &mut x97, x92, 0x17c510ea);
    let mut x98: u32 = 0;
    let mut x99: u32 = 0;
    fp_mulx_u32(&mut x98, &mut x99, x92, 0xc63b05c0);
    let mut x100: u32 = 0;
    let mut x101: u32 = 0;
    fp_mulx_u32(&mut x100, &mut x101, x92, 0x6ca1493b);
    let mut x102: u32 = 0;
    let mut x103: u32 = 0;
    fp_mulx_u32(&mut x102, &mut x103, x92, 0x1a22d9f3);
    let mut x104: u32 = 0;
    let mut x105: u32 = 0;
    fp_mulx_u32(&mut x104, &mut x105, x92, 0xf5138f);
    let mut x106: u32 = 0;
    let mut x107: u32 = 0;
    fp_mulx_u32(&mut x106, &mut x107, x92, 0x1ef3622f);
    let mut x108: u32 = 0;
    let mut x109: u32 = 0;
    fp_mulx_u32(&mut x108, &mut x109, x92, 0xba094800);
    let mut x110: u32 = 0;
    let mut x111: u32 = 0;
    fp_mulx_u32(&mut x110, &mut x111, x92, 0x170b5d44);
    let mut x112: u32 = 0;
    let mut x113: u32 = 0;
    fp_mulx_u32(&mut x112, &mut x113, x92, 0x30000000);
    let mut x114: u32 = 0;
    let mut x115: u32 = 0;
    fp_mulx_u32(&mut x114, &mut x115, x92, 0x8508c000);
    let mut x116: u32 = 0;
    let mut x117: FpU1 = 0;
    fp_addcarryx_u32(&mut x116, &mut x117, 0x0, x115, x112);
    let mut x118: u32 = 0;
    let mut x119: FpU1 = 0;
    fp_addcarryx_u32(&mut x118, &mut x119, x117, x113, x110);
    let mut x120: u32 = 0;
    let mut x121: FpU1 = 0;
    fp_addcarryx_u32(&mut x120, &mut x121, x119, x111, x108);
    let mut x122: u32 = 0;
    let mut x123: FpU1 = 0;
    fp_addcarryx_u32(&mut x122, &mut x123, x121, x109, x106);
    let mut x124: u32 = 0;
    let mut x125: FpU1 = 0;
    fp_addcarryx_u32(&mut x124, &mut x125, x123, x107, x104);
    let mut x126: u32 = 0;
    let mut x127: FpU1 = 0;
    fp_addcarryx_u32(&mut x126, &mut x127, x125, x105, x102);
    let mut x128: u32 = 0;
    let mut x129: FpU1 = 0;
    fp_addcarryx_u32(&mut x128, &mut x129, x127, x103, x100);
    let mut x130: u32 = 0;
    let mut x131: FpU1 = 0;
    fp_addcarryx_u32(&mut x130, &mut x131, x129, x101, x98);
    let mut x132: u32 = 0;
    let mut x133: FpU1 = 0;
    fp_addcarryx_u32(&mut x132, &mut x133, x131, x99, x96);
    let mut x134: u32 = 0;
    let mut x135: FpU1 = 0;
    fp_addcarryx_u32(&mut x134, &mut x135, x133, x97, x94);
    let mut x136: u32 = 0;
    let mut x137: FpU1 = 0;
    fp_addcarryx_u32(&mut x136, &mut x137, 0x0, x70, x92);
    let mut x138: u32 = 0;
    let mut x139: FpU1 = 0;
    fp_addcarryx_u32(&mut x138, &mut x139, x137, x72, x114);
    let mut x140: u32 = 0;
    let mut x141: FpU1 = 0;
    fp_addcarryx_u32(&mut x140, &mut x141, x139, x74, x116);
    let mut x142: u32 = 0;
    let mut x143: FpU1 = 0;
    fp_addcarryx_u32(&mut x142, &mut x143, x141, x76, x118);
    let mut x144: u32 = 0;
    let mut x145: FpU1 = 0;
    fp_addcarryx_u32(&mut x144, &mut x145, x143, x78, x120);
    let mut x146: u32 = 0;
    let mut x147: FpU1 = 0;
    fp_addcarryx_u32(&mut x146, &mut x147, x145, x80, x122);
    let mut x148: u32 = 0;
    let mut x149: FpU1 = 0;
    fp_addcarryx_u32(&mut x148, &mut x149, x147, x82, x124);
    let mut x150: u32 = 0;
    let mut x151: FpU1 = 0;
    fp_addcarryx_u32(&mut x150, &mut x151, x149, x84, x126);
    let mut x152: u32 = 0;
    let mut x153: FpU1 = 0;
    fp_addcarryx_u32(&mut x152, &mut x153, x151, x86, x128);
    let mut x154: u32 = 0;
    let mut x155: FpU1 = 0;
    fp_addcarryx_u32(&mut x154, &mut x155, x153, x88, x130);
    let mut x156: u32 = 0;
    let mut x157: FpU1 = 0;
    fp_addcarryx_u32(&mut x156, &mut x157, x155, x90, x132);
    let mut x158: u32 = 0;
    let mut x159: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x158,
        &mut x159,
        x157,
        ((x91 as u32) + ((x69 as u32) + ((x45 as u32) + x5))),
        x134,
    );
    let mut x160: u32 = 0;
    let mut x161: FpU1 = 0;
    fp_addcarryx_u32(&mut x160, &mut x161, 0x0, x138, (arg1[2]));
    let mut x162: u32 = 0;
    let mut x163: FpU1 = 0;
    fp_addcarryx_u32(&mut x162, &mut x163, x161, x140, (0x0 as u32));
    let mut x164: u32 = 0;
    let mut x165: FpU1 = 0;
    fp_addcarryx_u32(&mut x164, &mut x165, x163, x142, (0x0 as u32));
    let mut x166: u32 = 0;
    let mut x167: FpU1 = 0;
    fp_addcarryx_u32(&mut x166, &mut x167, x165, x144, (0x0 as u32));
    let mut x168: u32 = 0;
    let mut x169: FpU1 = 0;
    fp_addcarryx_u32(&mut x168, &mut x169, x167, x146, (0x0 as u32));
    let mut x170: u32 = 0;
    let mut x171: FpU1 = 0;
    fp_addcarryx_u32(&mut x170, &mut x171, x169, x148, (0x0 as u32));
    let mut x172: u32 = 0;
    let mut x173: FpU1 = 0;
    fp_addcarryx_u32(&mut x172, &mut x173, x171, x150, (0x0 as u32));
    let mut x174: u32 = 0;
    let mut x175: FpU1 = 0;
    fp_addcarryx_u32(&mut x174, &mut x175, x173, x152, (0x0 as u32));
    let mut x176: u32 = 0;
    let mut x177: FpU1 = 0;
    fp_addcarryx_u32(&mut x176, &mut x177, x175, x154, (0x0 as u32));
    let mut x178: u32 = 0;
    let mut x179: FpU1 = 0;
    fp_addcarryx_u32(&mut x178, &mut x179, x177, x156, (0x0 as u32));
    let mut x180: u32 = 0;
    let mut x181: FpU1 = 0;
    fp_addcarryx_u32(&mut x180, &mut x181, x179, x158, (0x0 as u32));
    let mut x182: u32 = 0;
    let mut x183: u32 = 0;
    fp_mulx_u32(&mut x182, &mut x183, x160, 0xffffffff);
    let mut x184: u32 = 0;
    let mut x185: u32 = 0;
    fp_mulx_u32(&mut x184, &mut x185, x182, 0x1ae3a46);
    let mut x186: u32 = 0;
    let mut x187: u32 = 0;
    fp_mulx_u32(&mut x186, &mut x187, x182, 0x17c510ea);
    let mut x188: u32 = 0;
    let mut x189: u32 = 0;
    fp_mulx_u32(&mut x188, &mut x189, x182, 0xc63b05c0);
    let mut x190: u32 = 0;
    let mut x191: u32 = 0;
    fp_mulx_u32(&mut x190, &mut x191, x182, 0x6ca1493b);
    let mut x192: u32 = 0;
    let mut x193: u32 = 0;
    fp_mulx_u32(&mut x192, &mut x193, x182, 0x1a22d9f3);
    let mut x194: u32 = 0;
    let mut x195: u32 = 0;
    fp_mulx_u32(&mut x194, &mut x195, x182, 0xf5138f);
    let mut x196: u32 = 0;
    let mut x197: u32 = 0;
    fp_mulx_u32(&mut x196, &mut x197, x182, 0x1ef3622f);
    let mut x198: u32 = 0;
    let mut x199: u32 = 0;
    fp_mulx_u32(&mut x198, &mut x199, x182, 0xba094800);
    let mut x200: u32 = 0;
    let mut x201: u32 = 0;
    fp_mulx_u32(&mut x200, &mut x201, x182, 0x170b5d44);
    let mut x202: u32 = 0;
    let mut x203: u32 = 0;
    fp_mulx_u32(&mut x202, &mut x203, x182, 0x30000000);
    let mut x204: u32 = 0;
    let mut x205: u32 = 0;
    fp_mulx_u32(&mut x204, &mut x205, x182, 0x8508c000);
    let mut x206: u32 = 0;
    let mut x207: FpU1 = 0;
    fp_addcarryx_u32(&mut x206, &mut x207, 0x0, x205, x202);
    let mut x208: u32 = 0;
    let mut x209: FpU1 = 0;
    fp_addcarryx_u32(&mut x208, &mut x209, x207, x203, x200);
    let mut x210: u32 = 0;
    let mut x211: FpU1 = 0;
    fp_addcarryx_u32(&mut x210, &mut x211, x209, x201, x198);
    let mut x212: u32 = 0;
    let mut x213: FpU1 = 0;
    fp_addcarryx_u32(&mut x212, &mut x213, x211, x199, x196);
    let mut x214: u32 = 0;
    let mut x215: FpU1 = 0;
    fp_addcarryx_u32(&mut x214, &mut x215, x213, x197, x194);
    let mut x216: u32 = 0;
    let mut x217: FpU1 = 0;
    fp_addcarryx_u32(&mut x216, &mut x217, x215, x195, x192);
    let mut x218: u32 = 0;
    let mut x219: FpU1 = 0;
    fp_addcarryx_u32(&mut x218, &mut x219, x217, x193, x190);
    let mut x220: u32 = 0;
    let mut x221: FpU1 = 0;
    fp_addcarryx_u32(&mut x220, &mut x221, x219, x191, x188);
    let mut x222: u32 = 0;
    let mut x223: FpU1 = 0;
    fp_addcarryx_u32(&mut x222, &mut x223, x221, x189, x186);
    let mut x224: u32 = 0;
    let mut x225: FpU1 = 0;
    fp_addcarryx_u32(&mut x224, &mut x225, x223, x187, x184);
    let mut x226: u32 = 0;
    let mut x227: FpU1 = 0;
    fp_addcarryx_u32(&mut x226, &mut x227, 0x0, x160, x182);
    let mut x228: u32 = 0;
    let mut x229: FpU1 = 0;
    fp_addcarryx_u32(&mut x228, &mut x229, x227, x162, x204);
    let mut x230: u32 = 0;
    let mut x231: FpU1 = 0;
    fp_addcarryx_u32(&mut x230, &mut x231, x229, x164, x206);
    let mut x232: u32 = 0;
    let mut x233: FpU1 = 0;
    fp_addcarryx_u32(&mut x232, &mut x233, x231, x166, x208);
    let mut x234: u32 = 0;
    let mut x235: FpU1 = 0;
    fp_addcarryx_u32(&mut x234, &mut x235, x233, x168, x210);
    let mut x236: u32 = 0;
    let mut x237: FpU1 = 0;
    fp_addcarryx_u32(&mut x236, &mut x237, x235, x170, x212);
    let mut x238: u32 = 0;
    let mut x239: FpU1 = 0;
    fp_addcarryx_u32(&mut x238, &mut x239, x237, x172, x214);
    let mut x240: u32 = 0;
    let mut x241: FpU1 = 0;
    fp_addcarryx_u32(&mut x240, &mut x241, x239, x174, x216);
    let mut x242: u32 = 0;
    let mut x243: FpU1 = 0;
    fp_addcarryx_u32(&mut x242, &mut x243, x241, x176, x218);
    let mut x244: u32 = 0;
    let mut x245: FpU1 = 0;
    fp_addcarryx_u32(&mut x244, &mut x245, x243, x178, x220);
    let mut x246: u32 = 0;
    let mut x247: FpU1 = 0;
    fp_addcarryx_u32(&mut x246, &mut x247, x245, x180, x222);
    let mut x248: u32 = 0;
    let mut x249: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x248,
        &mut x249,
        x247,
        ((x181 as u32) + ((x159 as u32) + ((x135 as u32) + x95))),
        x224,
    );
    let mut x250: u32 = 0;
    let mut x251: FpU1 = 0;
    fp_addcarryx_u32(&mut x250, &mut x251, 0x0, x228, (arg1[3]));
    let mut x252: u32 = 0;
    let mut x253: FpU1 = 0;
    fp_addcarryx_u32(&mut x252, &mut x253, x251, x230, (0x0 as u32));
    let mut x254: u32 = 0;
    let mut x255: FpU1 = 0;
    fp_addcarryx_u32(&mut x254, &mut x255, x253, x232, (0x0 as u32));
    let mut x256: u32 = 0;
    let mut x257: FpU1 = 0;
    fp_addcarryx_u32(&mut x256, &mut x257, x255, x234, (0x0 as u32));
    let mut x258: u32 = 0;
    let mut x259: FpU1 = 0;
    fp_addcarryx_u32(&mut x258, &mut x259, x257, x236, (0x0 as u32));
    let mut x260: u32 = 0;
    let mut x261: FpU1 = 0;
    fp_addcarryx_u32(&mut x260, &mut x261, x259, x238, (0x0 as u32));
    let mut x262: u32 = 0;
    let mut x263: FpU1 = 0;
    fp_addcarryx_u32(&mut x262, &mut x263, x261, x240, (0x0 as u32));
    let mut x264: u32 = 0;
    let mut x265: FpU1 = 0;
    fp_addcarryx_u32(&mut x264, &mut x265, x263, x242, (0x0 as u32));
    let mut x266: u32 = 0;
    let mut x267: FpU1 = 0;
    fp_addcarryx_u32(&mut x266, &mut x267, x265, x244, (0x0 as u32));
    let mut x268: u32 = 0;
    let mut x269: FpU1 = 0;
    fp_addcarryx_u32(&mut x268, &mut x269, x267, x246, (0x0 as u32));
    let mut x270: u32 = 0;
    let mut x271: FpU1 = 0;
    fp_addcarryx_u32(&mut x270, &mut x271, x269, x248, (0x0 as u32));
    let mut x272: u32 = 0;
    let mut x273: u32 = 0;
    fp_mulx_u32(&mut x272, &mut x273, x250, 0xffffffff);
    let mut x274: u32 = 0;
    let mut x275: u32 = 0;
    fp_mulx_u32(&mut x274, &mut x275, x272, 0x1ae3a46);
    let mut x276: u32 = 0;
    let mut x277: u32 = 0;
    fp_mulx_u32(&mut x276, &mut x277, x272, 0x17c510ea);
    let mut x278: u32 = 0;
    let mut x279: u32 = 0;
    fp_mulx_u32(&mut x278, &mut x279, x272, 0xc63b05c0);
    let mut x280: u32 = 0;
    let mut x281: u32 = 0;
    fp_mulx_u32(&mut x280, &mut x281, x272, 0x6ca1493b);
    let mut x282: u32 = 0;
    let mut x283: u32 = 0;
    fp_mulx_u32(&mut x282, &mut x283, x272, 0x1a22d9f3);
    let mut x284: u32 = 0;
    let mut x285: u32 = 0;
    fp_mulx_u32(&mut x284, &mut x285, x272, 0xf5138f);
    let mut x286: u32 = 0;
    let mut x287: u32 = 0;
    fp_mulx_u32(&mut x286, &mut x287, x272, 0x1ef3622f);
    let mut x288: u32 = 0;
    let mut x289: u32 = 0;
    fp_mulx_u32(&mut x288, &mut x289, x272, 0xba094800);
    let mut x290: u32 = 0;
    let mut x291: u32 = 0;
    fp_mulx_u32(&mut x290, &mut x291, x272, 0x170b5d44);
    let mut x292: u32 = 0;
    let mut x293: u32 = 0;
    fp_mulx_u32(&mut x292, &mut x293, x272, 0x30000000);
    let mut x294: u32 = 0;
    let mut x295: u32 = 0;
    fp_mulx_u32(&mut x294, &mut x295, x272, 0x8508c000);
    let mut x296: u32 = 0;
    let mut x297: FpU1 = 0;
    fp_addcarryx_u32(&mut x296, &mut x297, 0x0, x295, x292);
    let mut x298: u32 = 0;
    let mut x299: FpU1 = 0;
    fp_addcarryx_u32(&mut x298, &mut x299, x297, x293, x290);
    let mut x300: u32 = 0;
    let mut x301: FpU1 = 0;
    fp_addcarryx_u32(&mut x300, &mut x301, x299, x291, x288);
    let mut x302: u32 = 0;
    let mut x303: FpU1 = 0;
    fp_addcarryx_u32(&mut x302, &mut x303, x301, x289, x286);
    let mut x304: u32 = 0;
    let mut x305: FpU1 = 0;
    fp_addcarryx_u32(&mut x304, &mut x305, x303, x287, x284);
    let mut x306: u32 = 0;
    let mut x307: FpU1 = 0;
    fp_addcarryx_u32(&mut x306, &mut x307, x305, x285, x282);
    let mut x308: u32 = 0;
    let mut x309: FpU1 = 0;
    fp_addcarryx_u32(&mut x308, &mut x309, x307, x283, x280);
    let mut x310: u32 = 0;
    let mut x311: FpU1 = 0;
    fp_addcarryx_u32(&mut x310, &mut x311, x309, x281, x278);
    let mut x312: u32 = 0;
    let mut x313: FpU1 = 0;
    fp_addcarryx_u32(&mut x312, &mut x313, x311, x279, x276);
    let mut x314: u32 = 0;
    let mut x315: FpU1 = 0;
    fp_addcarryx_u32(&mut x314, &mut x315, x313, x277, x274);
    let mut x316: u32 = 0;
    let mut x317: FpU1 = 0;
    fp_addcarryx_u32(&mut x316, &mut x317, 0x0, x250, x272);
    let mut x318: u32 = 0;
    let mut x319: FpU1 = 0;
    fp_addcarryx_u32(&mut x318, &mut x319, x317, x252, x294);
    let mut x320: u32 = 0;
    let mut x321: FpU1 = 0;
    fp_addcarryx_u32(&mut x320, &mut x321, x319, x254, x296);
    let mut x322: u32 = 0;
    let mut x323: FpU1 = 0;
    fp_addcarryx_u32(&mut x322, &mut x323, x321, x256, x298);
    let mut x324: u32 = 0;
    let mut x325: FpU1 = 0;
    fp_addcarryx_u32(&mut x324, &mut x325, x323, x258, x300);
    let mut x326: u32 = 0;
    let mut x327: FpU1 = 0;
    fp_addcarryx_u32(&mut x326, &mut x327, x325, x260, x302);
    let mut x328: u32 = 0;
    let mut x329: FpU1 = 0;
    fp_addcarryx_u32(&mut x328, &mut x329, x327, x262, x304);
    let mut x330: u32 = 0;
    let mut x331: FpU1 = 0;
    fp_addcarryx_u32(&mut x330, &mut x331, x329, x264, x306);
    let mut x332: u32 = 0;
    let mut x333: FpU1 = 0;
    fp_addcarryx_u32(&mut x332, &mut x333, x331, x266, x308);
    let mut x334: u32 = 0;
    let mut x335: FpU1 = 0;
    fp_addcarryx_u32(&mut x334, &mut x335, x333, x268, x310);
    let mut x336: u32 = 0;
    let mut x337: FpU1 = 0;
    fp_addcarryx_u32(&mut x336, &mut x337, x335, x270, x312);
    let mut x338: u32 = 0;
    let mut x339: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x338,
        &mut x339,
        x337,
        ((x271 as u32) + ((x249 as u32) + ((x225 as u32) + x185))),
        x314,
    );
    let mut x340: u32 = 0;
    let mut x341: FpU1 = 0;
    fp_addcarryx_u32(&mut x340, &mut x341, 0x0, x318, (arg1[4]));
    let mut x342: u32 = 0;
    let mut x343: FpU1 = 0;
    fp_addcarryx_u32(&mut x342, &mut x343, x341, x320, (0x0 as u32));
    let mut x344: u32 = 0;
    let mut x345: FpU1 = 0;
    fp_addcarryx_u32(&mut x344, &mut x345, x343, x322, (0x0 as u32));
    let mut x346: u32 = 0;
    let mut x347: FpU1 = 0;
    fp_addcarryx_u32(&mut x346, &mut x347, x345, x324, (0x0 as u32));
    let mut x348: u32 = 0;
    let mut x349: FpU1 = 0;
    fp_addcarryx_u32(&mut x348, &mut x349, x347, x326, (0x0 as u32));
    let mut x350: u32 = 0;
    let mut x351: FpU1 = 0;
    fp_addcarryx_u32(&mut x350, &mut x351, x349, x328, (0x0 as u32));
    let mut x352: u32 = 0;
    let mut x353: FpU1 = 0;
    fp_addcarryx_u32(&mut x352, &mut x353, x351, x330, (0x0 as u32));
    let mut x354: u32 = 0;
    let mut x355: FpU1 = 0;
    fp_addcarryx_u32(&mut x354, &mut x355, x353, x332, (0x0 as u32));
    let mut x356: u32 = 0;
    let mut x357: FpU1 = 0;
    fp_addcarryx_u32(&mut x356, &mut x357, x355, x334, (0x0 as u32));
    let mut x358: u32 = 0;
    let mut x359: FpU1 = 0;
    fp_addcarryx_u32(&mut x358, &mut x359, x357, x336, (0x0 as u32));
    let mut x360: u32 = 0;
    let mut x361: FpU1 = 0;
    fp_addcarryx_u32(&mut x360, &mut x361, x359, x338, (0x0 as u32));
    let mut x362: u32 = 0;
    let mut x363: u32 = 0;
    fp_mulx_u32(&mut x362, &mut x363, x340, 0xffffffff);
    let mut x364: u32 = 0;
    let mut x365: u32 = 0;
    fp_mulx_u32(&mut x364, &mut x365, x362, 0x1ae3a46);
    let mut x366: u32 = 0;
    let mut x367: u32 = 0;
    fp_mulx_u32(&mut x366, &mut x367, x362, 0x17c510ea);
    let mut x368: u32 = 0;
    let mut x369: u32 = 0;
    fp_mulx_u32(&mut x368, &mut x369, x362, 0xc63b05c0);
    let mut x370: u32 = 0;
    let mut x371: u32 = 0;
    fp_mulx_u32(&mut x370, &mut x371, x362, 0x6ca1493b);
    let mut x372: u32 = 0;
    let mut x373: u32 = 0;
    fp_mulx_u32(&mut x372, &mut x373, x362, 0x1a22d9f3);
    let mut x374: u32 = 0;
    let mut x375: u32 = 0;
    fp_mulx_u32(&mut x374, &mut x375, x362, 0xf5138f);
    let mut x376: u32 = 0;
    let mut x377: u32 = 0;
    fp_mulx_u32(&mut x376, &mut x377, x362, 0x1ef3622f);
    let mut x378: u32 = 0;
    let mut x379: u32 = 0;
    fp_mulx_u32(&mut x378, &mut x379, x362, 0xba094800);
    let mut x380: u32 = 0;
    let mut x381: u32 = 0;
    fp_mulx_u32(&mut x380, &mut x381, x362, 0x170b5d44);
    let mut x382: u32 = 0;
    let mut x383: u32 = 0;
    fp_mulx_u32(&mut x382, &mut x383, x362, 0x30000000);
    let mut x384: u32 = 0;
    let mut x385: u32 = 0;
    fp_mulx_u32(&mut x384, &mut x385, x362, 0x8508c000);
    let mut x386: u32 = 0;
    let mut x387: FpU1 = 0;
    fp_addcarryx_u32(&mut x386, &mut x387, 0x0, x385, x382);
    let mut x388: u32 = 0;
    let mut x389: FpU1 = 0;
    fp_addcarryx_u32(&mut x388, &mut x389, x387, x383, x380);
    let mut x390: u32 = 0;
    let mut x391: FpU1 = 0;
    fp_addcarryx_u32(&mut x390, &mut x391, x389, x381, x378);
    let mut x392: u32 = 0;
    let mut x393: FpU1 = 0;
    fp_addcarryx_u32(&mut x392, &mut x393, x391, x379, x376);
    let mut x394: u32 = 0;
    let mut x395: FpU1 = 0;
    fp_addcarryx_u32(&mut x394, &mut x395, x393, x377, x374);
    let mut x396: u32 = 0;
    let mut x397: FpU1 = 0;
    fp_addcarryx_u32(&mut x396, &mut x397, x395, x375, x372);
    let mut x398: u32 = 0;
    let mut x399: FpU1 = 0;
    fp_addcarryx_u32(&mut x398, &mut x399, x397, x373, x370);
    let mut x400: u32 = 0;
    let mut x401: FpU1 = 0;
    fp_addcarryx_u32(&mut x400, &mut x401, x399, x371, x368);
    let mut x402: u32 = 0;
    let mut x403: FpU1 = 0;
    fp_addcarryx_u32(&mut x402, &mut x403, x401, x369, x366);
    let mut x404: u32 = 0;
    let mut x405: FpU1 = 0;
    fp_addcarryx_u32(&mut x404, &mut x405, x403, x367, x364);
    let mut x406: u32 = 0;
    let mut x407: FpU1 = 0;
    fp_addcarryx_u32(&mut x406, &mut x407, 0x0, x340, x362);
    let mut x408: u32 = 0;
    let mut x409: FpU1 = 0;
    fp_addcarryx_u32(&mut x408, &mut x409, x407, x342, x384);
    let mut x410: u32 = 0;
    let mut x411: FpU1 = 0;
    fp_addcarryx_u32(&mut x410, &mut x411, x409, x344, x386);
    let mut x412: u32 = 0;
    let mut x413: FpU1 = 0;
    fp_addcarryx_u32(&mut x412, &mut x413, x411, x346, x388);
    let mut x414: u32 = 0;
    let mut x415: FpU1 = 0;
    fp_addcarryx_u32(&mut x414, &mut x415, x413, x348, x390);
    let mut x416: u32 = 0;
    let mut x417: FpU1 = 0;
    fp_addcarryx_u32(&mut x416, &mut x417, x415, x350, x392);
    let mut x418: u32 = 0;
    let mut x419: FpU1 = 0;
    fp_addcarryx_u32(&mut x418, &mut x419, x417, x352, x394);
    let mut x420: u32 = 0;
    let mut x421: FpU1 = 0;
    fp_addcarryx_u32(&mut x420, &mut x421, x419, x354, x396);
    let mut x422: u32 = 0;
    let mut x423: FpU1 = 0;
    fp_addcarryx_u32(&mut x422, &mut x423, x421, x356, x398);
    let mut x424: u32 = 0;
    let mut x425: FpU1 = 0;
    fp_addcarryx_u32(&mut x424, &mut x425, x423, x358, x400);
    let mut x426: u32 = 0;
    let mut x427: FpU1 = 0;
    fp_addcarryx_u32(&mut x426, &mut x427, x425, x360, x402);
    let mut x428: u32 = 0;
    let mut x429: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x428,
        &mut x429,
        x427,
        ((x361 as u32) + ((x339 as u32) + ((x315 as u32) + x275))),
        x404,
    );
    let mut x430: u32 = 0;
    let mut x431: FpU1 = 0;
    fp_addcarryx_u32(&mut x430, &mut x431, 0x0, x408, (arg1[5]));
    let mut x432: u32 = 0;
    let mut x433: FpU1 = 0;
    fp_addcarryx_u32(&mut x432, &mut x433, x431, x410, (0x0 as u32));
    let mut x434: u32 = 0;
    let mut x435: FpU1 = 0;
    fp_addcarryx_u32(&mut x434, &mut x435, x433, x412, (0x0 as u32));
    let mut x436: u32 = 0;
    let mut x437: FpU1 = 0;
    fp_addcarryx_u32(&mut x436, &mut x437, x435, x414, (0x0 as u32));
    let mut x438: u32 = 0;
    let mut x439: FpU1 = 0;
    fp_addcarryx_u32(&mut x438, &mut x439, x437, x416, (0x0 as u32));
    let mut x440: u32 = 0;
    let mut x441: FpU1 = 0;
    fp_addcarryx_u32(&mut x440, &mut x441, x439, x418, (0x0 as u32));
    let mut x442: u32 = 0;
    let mut x443: FpU1 = 0;
    fp_addcarryx_u32(&mut x442, &mut x443, x441, x420, (0x0 as u32));
    let mut x444: u32 = 0;
    let mut x445: FpU1 = 0;
    fp_addcarryx_u32(&mut x444, &mut x445, x443, x422, (0x0 as u32));
    let mut x446: u32 = 0;
    let mut x447: FpU1 = 0;
    fp_addcarryx_u32(&mut x446, &mut x447, x445, x424, (0x0 as u32));
    let mut x448: u32 = 0;
    let mut x449: FpU1 = 0;
    fp_addcarryx_u32(&mut x448, &mut x449, x447, x426, (0x0 as u32));
    let mut x450: u32 = 0;
    let mut x451: FpU1 = 0;
    fp_addcarryx_u32(&mut x450, &mut x451, x449, x428, (0x0 as u32));
    let mut x452: u32 = 0;
    let mut x453: u32 = 0;
    fp_mulx_u32(&mut x452, &mut x453, x430, 0xffffffff);
    let mut x454: u32 = 0;
    let mut x455: u32 = 0;
    fp_mulx_u32(&mut x454, &mut x455, x452, 0x1ae3a46);
    let mut x456: u32 = 0;
    let mut x457: u32 = 0;
    fp_mulx_u32(&mut x456, &mut x457, x452, 0x17c510ea);
    let mut x458: u32 = 0;
    let mut x459: u32 = 0;
    fp_mulx_u32(&mut x458, &mut x459, x452, 0xc63b05c0);
    let mut x460: u32 = 0;
    let mut x461: u32 = 0;
    fp_mulx_u32(&mut x460, &mut x461, x452, 0x6ca1493b);
    let mut x462: u32 = 0;
    let mut x463: u32 = 0;
    fp_mulx_u32(&mut x462, &mut x463, x452, 0x1a22d9f3);
    let mut x464: u32 = 0;
    let mut x465: u32 = 0;
    fp_mulx_u32(&mut x464, &mut x465, x452, 0xf5138f);
    let mut x466: u32 = 0;
    let mut x467: u32 = 0;
    fp_mulx_u32(&mut x466, &mut x467, x452, 0x1ef3622f);
    let mut x468: u32 = 0;
    let mut x469: u32 = 0;
    fp_mulx_u32(&mut x468, &mut x469, x452, 0xba094800);
    let mut x470: u32 = 0;
    let mut x471: u32 = 0;
    fp_mulx_u32(&mut x470, &mut x471, x452, 0x170b5d44);
    let mut x472: u32 = 0;
    let mut x473: u32 = 0;
    fp_mulx_u32(&mut x472, &mut x473, x452, 0x30000000);
    let mut x474: u32 = 0;
    let mut x475: u32 = 0;
    fp_mulx_u32(&mut x474, &mut x475, x452, 0x8508c000);
    let mut x476: u32 = 0;
    let mut x477: FpU1 = 0;
    fp_addcarryx_u32(&mut x476, &mut x477, 0x0, x475, x472);
    let mut x478: u32 = 0;
    let mut x479: FpU1 = 0;
    fp_addcarryx_u32(&mut x478, &mut x479, x477, x473, x470);
    let mut x480: u32 = 0;
    let mut x481: FpU1 = 0;
    fp_addcarryx_u32(&mut x480, &mut x481, x479, x471, x468);
    let mut x482: u32 = 0;
    let mut x483: FpU1 = 0;
    fp_addcarryx_u32(&mut x482, &mut x483, x481, x469, x466);
    let mut x484: u32 = 0;
    let mut x485: FpU1 = 0;
    fp_addcarryx_u32(&mut x484, &mut x485, x483, x467, x464);
    let mut x486: u32 = 0;
    let mut x487: FpU1 = 0;
    fp_addcarryx_u32(&mut x486, &mut x487, x485, x465, x462);
    let mut x488: u32 = 0;
    let mut x489: FpU1 = 0;
    fp_addcarryx_u32(&mut x488, &mut x489, x487, x463, x460);
    let mut x490: u32 = 0;
    let mut x491: FpU1 = 0;
    fp_addcarryx_u32(&mut x490, &mut x491, x489, x461, x458);
    let mut x492: u32 = 0;
    let mut x493: FpU1 = 0;
    fp_addcarryx_u32(&mut x492, &mut x493, x491, x459, x456);
    let mut x494: u32 = 0;
    let mut x495: FpU1 = 0;
    fp_addcarryx_u32(&mut x494, &mut x495, x493, x457, x454);
    let mut x496: u32 = 0;
    let mut x497: FpU1 = 0;
    fp_addcarryx_u32(&mut x496, &mut x497, 0x0, x430, x452);
    let mut x498: u32 = 0;
    let mut x499: FpU1 = 0;
    fp_addcarryx_u32(&mut x498, &mut x499, x497, x432, x474);
    let mut x500: u32 = 0;
    let mut x501: FpU1 = 0;
    fp_addcarryx_u32(&mut x500, &mut x501, x499, x434, x476);
    let mut x502: u32 = 0;
    let mut x503: FpU1 = 0;
    fp_addcarryx_u32(&mut x502, &mut x503, x501, x436, x478);
    let mut x504: u32 = 0;
    let mut x505: FpU1 = 0;
    fp_addcarryx_u32(&mut x504, &mut x505, x503, x438, x480);
    let mut x506: u32 = 0;
    let mut x507: FpU1 = 0;
    fp_addcarryx_u32(&mut x506, &mut x507, x505, x440, x482);
    let mut x508: u32 = 0;
    let mut x509: FpU1 = 0;
    fp_addcarryx_u32(&mut x508, &mut x509, x507, x442, x484);
    let mut x510: u32 = 0;
    let mut x511: FpU1 = 0;
    fp_addcarryx_u32(&mut x510, &mut x511, x509, x444, x486);
    let mut x512: u32 = 0;
    let mut x513: FpU1 = 0;
    fp_addcarryx_u32(&mut x512, &mut x513, x511, x446, x488);
    let mut x514: u32 = 0;
    let mut x515: FpU1 = 0;
    fp_addcarryx_u32(&mut x514, &mut x515, x513, x448, x490);
    let mut x516: u32 = 0;
    let mut x517: FpU1 = 0;
    fp_addcarryx_u32(&mut x516, &mut x517, x515, x450, x492);
    let mut x518: u32 = 0;
    let mut x519: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x518,
        &mut x519,
        x517,
        ((x451 as u32) + ((x429 as u32) + ((x405 as u32) + x365))),
        x494,
    );
    let mut x520: u32 = 0;
    let mut x521: FpU1 = 0;
    fp_addcarryx_u32(&mut x520, &mut x521, 0x0, x498, (arg1[6]));
    let mut x522: u32 = 0;
    let mut x523: FpU1 = 0;
    fp_addcarryx_u32(&mut x522, &mut x523, x521, x500, (0x0 as u32));
    let mut x524: u32 = 0;
    let mut x525: FpU1 = 0;
    fp_addcarryx_u32(&mut x524, &mut x525, x523, x502, (0x0 as u32));
    let mut x526: u32 = 0;
    let mut x527: FpU1 = 0;
    fp_addcarryx_u32(&mut x526, &mut x527, x525, x504, (0x0 as u32));
    let mut x528: u32 = 0;
    let mut x529: FpU1 = 0;
    fp_addcarryx_u32(&mut x528, &mut x529, x527, x506, (0x0 as u32));
    let mut x530: u32 = 0;
    let mut x531: FpU1 = 0;
    fp_addcarryx_u32(&mut x530, &mut x531, x529, x508, (0x0 as u32));
    let mut x532: u32 = 0;
    let mut x533: FpU1 = 0;
    fp_addcarryx_u32(&mut x532, &mut x533, x531, x510, (0x0 as u32));
    let mut x534: u32 = 0;
    let mut x535: FpU1 = 0;
    fp_addcarryx_u32(&mut x534, &mut x535, x533, x512, (0x0 as u32));
    let mut x536: u32 = 0;
    let mut x537: FpU1 = 0;
    fp_addcarryx_u32(&mut x536, &mut x537, x535, x514, (0x0 as u32));
    let mut x538: u32 = 0;
    let mut x539: FpU1 = 0;
    fp_addcarryx_u32(&mut x538, &mut x539, x537, x516, (0x0 as u32));
    let mut x540: u32 = 0;
    let mut x541: FpU1 = 0;
    fp_addcarryx_u32(&mut x540, &mut x541, x539, x518, (0x0 as u32));
    let mut x542: u32 = 0;
    let mut x543: u32 = 0;
    fp_mulx_u32(&mut x542, &mut x543, x520, 0xffffffff);
    let mut x544: u32 = 0;
    let mut x545: u32 = 0;
    fp_mulx_u32(&mut x544, &mut x545, x542, 0x1ae3a46);
    let mut x546: u32 = 0;
    let mut x547: u32 = 0;
    fp_mulx_u32(&mut x546, &mut x547, x542, 0x17c510ea);
    let mut x548: u32 = 0;
    let mut x549: u32 = 0;
    fp_mulx_u32(&mut x548, &mut x549, x542, 0xc63b05c0);
    let mut x550: u32 = 0;
    let mut x551: u32 = 0;
    fp_mulx_u32(&mut x550, &mut x551, x542, 0x6ca1493b);
    let mut x552: u32 = 0;
    let mut x553: u32 = 0;
    fp_mulx_u32(&mut x552, &mut x553, x542, 0x1a22d9f3);
    let mut x554: u32 = 0;
    let mut x555: u32 = 0;
    fp_mulx_u32(&mut x554, &mut x555, x542, 0xf5138f);
    let mut x556: u32 = 0;
    let mut x557: u32 = 0;
    fp_mulx_u32(&mut x556, &mut x557, x542, 0x1ef3622f);
    let mut x558: u32 = 0;
    let mut x559: u32 = 0;
    fp_mulx_u32(&mut x558, &mut x559, x542, 0xba094800);
    let mut x560: u32 = 0;
    let mut x561: u32 = 0;
    fp_mulx_u32(&mut x560, &mut x561, x542, 0x170b5d44);
    let mut x562: u32 = 0;
    let mut x563: u32 = 0;
    fp_mulx_u32(&mut x562, &mut x563, x542, 0x30000000);
    let mut x564: u32 = 0;
    let mut x565: u32 = 0;
    fp_mulx_u32(&mut x564, &mut x565, x542, 0x8508c000);
    let mut x566: u32 = 0;
    let mut x567: FpU1 = 0;
    fp_addcarryx_u32(&mut x566, &mut x567, 0x0, x565, x562);
    let mut x568: u32 = 0;
    let mut x569: FpU1 = 0;
    fp_addcarryx_u32(&mut x568, &mut x569, x567, x563, x560);
    let mut x570: u32 = 0;
    let mut x571: FpU1 = 0;
    fp_addcarryx_u32(&mut x570, &mut x571, x569, x561, x558);
    let mut x572: u32 = 0;
    let mut x573: FpU1 = 0;
    fp_addcarryx_u32(&mut x572, &mut x573, x571, x559, x556);
    let mut x574: u32 = 0;
    let mut x575: FpU1 = 0;
    fp_addcarryx_u32(&mut x574, &mut x575, x573, x557, x554);
    let mut x576: u32 = 0;
    let mut x577: FpU1 = 0;
    fp_addcarryx_u32(&mut x576, &mut x577, x575, x555, x552);
    let mut x578: u32 = 0;
    let mut x579: FpU1 = 0;
    fp_addcarryx_u32(&mut x578, &mut x579, x577, x553, x550);
    let mut x580: u32 = 0;
    let mut x581: FpU1 = 0;
    fp_addcarryx_u32(&mut x580, &mut x581, x579, x551, x548);
    let mut x582: u32 = 0;
    let mut x583: FpU1 = 0;
    fp_addcarryx_u32(&mut x582, &mut x583, x581, x549, x546);
    let mut x584: u32 = 0;
    let mut x585: FpU1 = 0;
    fp_addcarryx_u32(&mut x584, &mut x585, x583, x547, x544);
    let mut x586: u32 = 0;
    let mut x587: FpU1 = 0;
    fp_addcarryx_u32(&mut x586, &mut x587, 0x0, x520, x542);
    let mut x588: u32 = 0;
    let mut x589: FpU1 = 0;
    fp_addcarryx_u32(&mut x588, &mut x589, x587, x522, x564);
    let mut x590: u32 = 0;
    let mut x591: FpU1 = 0;
    fp_addcarryx_u32(&mut x590, &mut x591, x589, x524, x566);
    let mut x592: u32 = 0;
    let mut x593: FpU1 = 0;
    fp_addcarryx_u32(&mut x592, &mut x593, x591, x526, x568);
    let mut x594: u32 = 0;
    let mut x595: FpU1 = 0;
    fp_addcarryx_u32(&mut x594, &mut x595, x593, x528, x570);
    let mut x596: u32 = 0;
    let mut x597: FpU1 = 0;
    fp_addcarryx_u32(&mut x596, &mut x597, x595, x530, x572);
    let mut x598: u32 = 0;
    let mut x599: FpU1 = 0;
    fp_addcarryx_u32(&mut x598, &mut x599, x597, x532, x574);
    let mut x600: u32 = 0;
    let mut x601: FpU1 = 0;
    fp_addcarryx_u32(&mut x600, &mut x601, x599, x534, x576);
    let mut x602: u32 = 0;
    let mut x603: FpU1 = 0;
    fp_addcarryx_u32(&mut x602, &mut x603, x601, x536, x578);
    let mut x604: u32 = 0;
    let mut x605: FpU1 = 0;
    fp_addcarryx_u32(&mut x604, &mut x605, x603, x538, x580);
    let mut x606: u32 = 0;
    let mut x607: FpU1 = 0;
    fp_addcarryx_u32(&mut x606, &mut x607, x605, x540, x582);
    let mut x608: u32 = 0;
    let mut x609: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x608,
        &mut x609,
        x607,
        ((x541 as u32) + ((x519 as u32) + ((x495 as u32) + x455))),
        x584,
    );
    let mut x610: u32 = 0;
    let mut x611: FpU1 = 0;
    fp_addcarryx_u32(&mut x610, &mut x611, 0x0, x588, (arg1[7]));
    let mut x612: u32 = 0;
    let mut x613: FpU1 = 0;
    fp_addcarryx_u32(&mut x612, &mut x613, x611, x590, (0x0 as u32));
    let mut x614: u32 = 0;
    let mut x615: FpU1 = 0;
    fp_addcarryx_u32(&mut x614, &mut x615, x613, x592, (0x0 as u32));
    let mut x616: u32 = 0;
    let mut x617: FpU1 = 0;
    fp_addcarryx_u32(&mut x616, &mut x617, x615, x594, (0x0 as u32));
    let mut x618: u32 = 0;
    let mut x619: FpU1 = 0;
    fp_addcarryx_u32(&mut x618, &mut x619, x617, x596, (0x0 as u32));
    let mut x620: u32 = 0;
    let mut x621: FpU1 = 0;
    fp_addcarryx_u32(&mut x620, &mut x621, x619, x598, (0x0 as u32));
    let mut x622: u32 = 0;
    let mut x623: FpU1 = 0;
    fp_addcarryx_u32(&mut x622, &mut x623, x621, x600, (0x0 as u32));
    let mut x624: u32 = 0;
    let mut x625: FpU1 = 0;
    fp_addcarryx_u32(&mut x624, &mut x625, x623, x602, (0x0 as u32));
    let mut x626: u32 = 0;
    let mut x627: FpU1 = 0;
    fp_addcarryx_u32(&mut x626, &mut x627, x625, x604, (0x0 as u32));
    let mut x628: u32 = 0;
    let mut x629: FpU1 = 0;
    fp_addcarryx_u32(&mut x628, &mut x629, x627, x606, (0x0 as u32));
    let mut x630: u32 = 0;
    let mut x631: FpU1 = 0;
    fp_addcarryx_u32(&mut x630, &mut x631, x629, x608, (0x0 as u32));
    let mut x632: u32 = 0;
    let mut x633: u32 = 0;
    fp_mulx_u32(&mut x632, &mut x633, x610, 0xffffffff);
    let mut x634: u32 = 0;
    let mut x635: u32 = 0;
    fp_mulx_u32(&mut x634, &mut x635, x632, 0x1ae3a46);
    let mut x636: u32 = 0;
    let mut x637: u32 = 0;
    fp_mulx_u32(&mut x636, &mut x637, x632, 0x17c510ea);
    let mut x638: u32 = 0;
    let mut x639: u32 = 0;
    fp_mulx_u32(&mut x638, &mut x639, x632, 0xc63b05c0);
    let mut x640: u32 = 0;
    let mut x641: u32 = 0;
    fp_mulx_u32(&mut x640, &mut x641, x632, 0x6ca1493b);
    let mut x642: u32 = 0;
    let mut x643: u32 = 0;
    fp_mulx_u32(&mut x642, &mut x643, x632, 0x1a22d9f3);
    let mut x644: u32 = 0;
    let mut x645: u32 = 0;
    fp_mulx_u32(&mut x644, &mut x645, x632, 0xf5138f);
    let mut x646: u32 = 0;
    let mut x647: u32 = 0;
    fp_mulx_u32(&mut x646, &mut x647, x632, 0x1ef3622f);
    let mut x648: u32 = 0;
    let mut x649: u32 = 0;
    fp_mulx_u32(&mut x648, &mut x649, x632, 0xba094800);
    let mut x650: u32 = 0;
    let mut x651: u32 = 0;
    fp_mulx_u32(&mut x650, &mut x651, x632, 0x170b5d44);
    let mut x652: u32 = 0;
    let mut x653: u32 = 0;
    fp_mulx_u32(&mut x652, &mut x653, x632, 0x30000000);
    let mut x654: u32 = 0;
    let mut x655: u32 = 0;
    fp_mulx_u32(&mut x654, &mut x655, x632, 0x8508c000);
    let mut x656: u32 = 0;
    let mut x657: FpU1 = 0;
    fp_addcarryx_u32(&mut x656, &mut x657, 0x0, x655, x652);
    let mut x658: u32 = 0;
    let mut x659: FpU1 = 0;
    fp_addcarryx_u32(&mut x658, &mut x659, x657, x653, x650);
    let mut x660: u32 = 0;
    let mut x661: FpU1 = 0;
    fp_addcarryx_u32(&mut x660, &mut x661, x659, x651, x648);
    let mut x662: u32 = 0;
    let mut x663: FpU1 = 0;
    fp_addcarryx_u32(&mut x662, &mut x663, x661, x649, x646);
    let mut x664: u32 = 0;
    let mut x665: FpU1 = 0;
    fp_addcarryx_u32(&mut x664, &mut x665, x663, x647, x644);
    let mut x666: u32 = 0;
    let mut x667: FpU1 = 0;
    fp_addcarryx_u32(&mut x666, &mut x667, x665, x645, x642);
    let mut x668: u32 = 0;
    let mut x669: FpU1 = 0;
    fp_addcarryx_u32(&mut x668, &mut x669, x667, x643, x640);
    let mut x670: u32 = 0;
    let mut x671: FpU1 = 0;
    fp_addcarryx_u32(&mut x670, &mut x671, x669, x641, x638);
    let mut x672: u32 = 0;
    let mut x673: FpU1 = 0;
    fp_addcarryx_u32(&mut x672, &mut x673, x671, x639, x636);
    let mut x674: u32 = 0;
    let mut x675: FpU1 = 0;
    fp_addcarryx_u32(&mut x674, &mut x675, x673, x637, x634);
    let mut x676: u32 = 0;
    let mut x677: FpU1 = 0;
    fp_addcarryx_u32(&mut x676, &mut x677, 0x0, x610, x632);
    let mut x678: u32 = 0;
    let mut x679: FpU1 = 0;
    fp_addcarryx_u32(&mut x678, &mut x679, x677, x612, x654);
    let mut x680: u32 = 0;
    let mut x681: FpU1 = 0;
    fp_addcarryx_u32(&mut x680, &mut x681, x679, x614, x656);
    let mut x682: u32 = 0;
    let mut x683: FpU1 = 0;
    fp_addcarryx_u32(&mut x682, &mut x683, x681, x616, x658);
    let mut x684: u32 = 0;
    let mut x685: FpU1 = 0;
    fp_addcarryx_u32(&mut x684, &mut x685, x683, x618, x660);
    let mut x686: u32 = 0;
    let mut x687: FpU1 = 0;
    fp_addcarryx_u32(&mut x686, &mut x687, x685, x620, x662);
    let mut x688: u32 = 0;
    let mut x689: FpU1 = 0;
    fp_addcarryx_u32(&mut x688, &mut x689, x687, x622, x664);
    let mut x690: u32 = 0;
    let mut x691: FpU1 = 0;
    fp_addcarryx_u32(&mut x690, &mut x691, x689, x624, x666);
    let mut x692: u32 = 0;
    let mut x693: FpU1 = 0;
    fp_addcarryx_u32(&mut x692, &mut x693, x691, x626, x668);
    let mut x694: u32 = 0;
    let mut x695: FpU1 = 0;
    fp_addcarryx_u32(&mut x694, &mut x695, x693, x628, x670);
    let mut x696: u32 = 0;
    let mut x697: FpU1 = 0;
    fp_addcarryx_u32(&mut x696, &mut x697, x695, x630, x672);
    let mut x698: u32 = 0;
    let mut x699: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x698,
        &mut x699,
        x697,
        ((x631 as u32) + ((x609 as u32) + ((x585 as u32) + x545))),
        x674,
    );
    let mut x700: u32 = 0;
    let mut x701: FpU1 = 0;
    fp_addcarryx_u32(&mut x700, &mut x701, 0x0, x678, (arg1[8]));
    let mut x702: u32 = 0;
    let mut x703: FpU1 = 0;
    fp_addcarryx_u32(&mut x702, &mut x703, x701, x680, (0x0 as u32));
    let mut x704: u32 = 0;
    let mut x705: FpU1 = 0;
    fp_addcarryx_u32(&mut x704, &mut x705, x703, x682, (0x0 as u32));
    let mut x706: u32 = 0;
    let mut x707: FpU1 = 0;
    fp_addcarryx_u32(&mut x706, &mut x707, x705, x684, (0x0 as u32));
    let mut x708: u32 = 0;
    let mut x709: FpU1 = 0;
    fp_addcarryx_u32(&mut x708, &mut x709, x707, x686, (0x0 as u32));
    let mut x710: u32 = 0;
    let mut x711: FpU1 = 0;
    fp_addcarryx_u32(&mut x710, &mut x711, x709, x688, (0x0 as u32));
    let mut x712: u32 = 0;
    let mut x713: FpU1 = 0;
    fp_addcarryx_u32(&mut x712, &mut x713, x711, x690, (0x0 as u32));
    let mut x714: u32 = 0;
    let mut x715: FpU1 = 0;
    fp_addcarryx_u32(&mut x714, &mut x715, x713, x692, (0x0 as u32));
    let mut x716: u32 = 0;
    let mut x717: FpU1 = 0;
    fp_addcarryx_u32(&mut x716, &mut x717, x715, x694, (0x0 as u32));
    let mut x718: u32 = 0;
    let mut x719: FpU1 = 0;
    fp_addcarryx_u32(&mut x718, &mut x719, x717, x696, (0x0 as u32));
    let mut x720: u32 = 0;
    let mut x721: FpU1 = 0;
    fp_addcarryx_u32(&mut x720, &mut x721, x719, x698, (0x0 as u32));
    let mut x722: u32 = 0;
    let mut x723: u32 = 0;
    fp_mulx_u32(&mut x722, &mut x723, x700, 0xffffffff);
    let mut x724: u32 = 0;
    let mut x725: u32 = 0;
    fp_mulx_u32(&mut x724, &mut x725, x722, 0x1ae3a46);
    let mut x726: u32 = 0;
    let mut x727: u32 = 0;
    fp_mulx_u32(&mut x726, &mut x727, x722, 0x17c510ea);
    let mut x728: u32 = 0;
    let mut x729: u32 = 0;
    fp_mulx_u32(&mut x728, &mut x729, x722, 0xc63b05c0);
    let mut x730: u32 = 0;
    let mut x731: u32 = 0;
    fp_mulx_u32(&mut x730, &mut x731, x722, 0x6ca1493b);
    let mut x732: u32 = 0;
    let mut x733: u32 = 0;
    fp_mulx_u32(&mut x732, &mut x733, x722, 0x1a22d9f3);
    let mut x734: u32 = 0;
    let mut x735: u32 = 0;
    fp_mulx_u32(&mut x734, &mut x735, x722, 0xf5138f);
    let mut x736: u32 = 0;
    let mut x737: u32 = 0;
    fp_mulx_u32(&mut x736, &mut x737, x722, 0x1ef3622f);
    let mut x738: u32 = 0;
    let mut x739: u32 = 0;
    fp_mulx_u32(&mut x738, &mut x739, x722, 0xba094800);
    let mut x740: u32 = 0;
    let mut x741: u32 = 0;
    fp_mulx_u32(&mut x740, &mut x741, x722, 0x170b5d44);
    let mut x742: u32 = 0;
    let mut x743: u32 = 0;
    fp_mulx_u32(&mut x742, &mut x743, x722, 0x30000000);
    let mut x744: u32 = 0;
    let mut x745: u32 = 0;
    fp_mulx_u32(&mut x744, &mut x745, x722, 0x8508c000);
    let mut x746: u32 = 0;
    let mut x747: FpU1 = 0;
    fp_addcarryx_u32(&mut x746, &mut x747, 0x0, x745, x742);
    let mut x748: u32 = 0;
    let mut x749: FpU1 = 0;
    fp_addcarryx_u32(&mut x748, &mut x749, x747, x743, x740);
    let mut x750: u32 = 0;
    let mut x751: FpU1 = 0;
    fp_addcarryx_u32(&mut x750, &mut x751, x749, x741, x738);
    let mut x752: u32 = 0;
    let mut x753: FpU1 = 0;
    fp_addcarryx_u32(&mut x752, &mut x753, x751, x739, x736);
    let mut x754: u32 = 0;
    let mut x755: FpU1 = 0;
    fp_addcarryx_u32(&mut x754, &mut x755, x753, x737, x734);
    let mut x756: u32 = 0;
    let mut x757: FpU1 = 0;
    fp_addcarryx_u32(&mut x756, &mut x757, x755, x735, x732);
    let mut x758: u32 = 0;
    let mut x759: FpU1 = 0;
    fp_addcarryx_u32(&mut x758, &mut x759, x757, x733, x730);
    let mut x760: u32 = 0;
    let mut x761: FpU1 = 0;
    fp_addcarryx_u32(&mut x760, &mut x761, x759, x731, x728);
    let mut x762: u32 = 0;
    let mut x763: FpU1 = 0;
    fp_addcarryx_u32(&mut x762, &mut x763, x761, x729, x726);
    let mut x764: u32 = 0;
    let mut x765: FpU1 = 0;
    fp_addcarryx_u32(&mut x764, &mut x765, x763, x727, x724);
    let mut x766: u32 = 0;
    let mut x767: FpU1 = 0;
    fp_addcarryx_u32(&mut x766, &mut x767, 0x0, x700, x722);
    let mut x768: u32 = 0;
    let mut x769: FpU1 = 0;
    fp_addcarryx_u32(&mut x768, &mut x769, x767, x702, x744);
    let mut x770: u32 = 0;
    let mut x771: FpU1 = 0;
    fp_addcarryx_u32(&mut x770, &mut x771, x769, x704, x746);
    let mut x772: u32 = 0;
    let mut x773: FpU1 = 0;
    fp_addcarryx_u32(&mut x772, &mut x773, x771, x706, x748);
    let mut x774: u32 = 0;
    let mut x775: FpU1 = 0;
    fp_addcarryx_u32(&mut x774, &mut x775, x773, x708, x750);
    let mut x776: u32 = 0;
    let mut x777: FpU1 = 0;
    fp_addcarryx_u32(&mut x776, &mut x777, x775, x710, x752);
    let mut x778: u32 = 0;
    let mut x779: FpU1 = 0;
    fp_addcarryx_u32(&mut x778, &mut x779, x777, x712, x754);
    let mut x780: u32 = 0;
    let mut x781: FpU1 = 0;
    fp_addcarryx_u32(&mut x780, &mut x781, x779, x714, x756);
    let mut x782: u32 = 0;
    let mut x783: FpU1 = 0;
    fp_addcarryx_u32(&mut x782, &mut x783, x781, x716, x758);
    let mut x784: u32 = 0;
    let mut x785: FpU1 = 0;
    fp_addcarryx_u32(&mut x784, &mut x785, x783, x718, x760);
    let mut x786: u32 = 0;
    let mut x787: FpU1 = 0;
    fp_addcarryx_u32(&mut x786, &mut x787, x785, x720, x762);
    let mut x788: u32 = 0;
    let mut x789: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x788,
        &mut x789,
        x787,
        ((x721 as u32) + ((x699 as u32) + ((x675 as u32) + x635))),
        x764,
    );
    let mut x790: u32 = 0;
    let mut x791: FpU1 = 0;
    fp_addcarryx_u32(&mut x790, &mut x791, 0x0, x768, (arg1[9]));
    let mut x792: u32 = 0;
    let mut x793: FpU1 = 0;
    fp_addcarryx_u32(&mut x792, &mut x793, x791, x770, (0x0 as u32));
    let mut x794: u32 = 0;
    let mut x795: FpU1 = 0;
    fp_addcarryx_u32(&mut x794, &mut x795, x793, x772, (0x0 as u32));
    let mut x796: u32 = 0;
    let mut x797: FpU1 = 0;
    fp_addcarryx_u32(&mut x796, &mut x797, x795, x774, (0x0 as u32));
    let mut x798: u32 = 0;
    let mut x799: FpU1 = 0;
    fp_addcarryx_u32(&mut x798, &mut x799, x797, x776, (0x0 as u32));
    let mut x800: u32 = 0;
    let mut x801: FpU1 = 0;
    fp_addcarryx_u32(&mut x800, &mut x801, x799, x778, (0x0 as u32));
    let mut x802: u32 = 0;
    let mut x803: FpU1 = 0;
    fp_addcarryx_u32(&mut x802, &mut x803, x801, x780, (0x0 as u32));
    let mut x804: u32 = 0;
    let mut x805: FpU1 = 0;
    fp_addcarryx_u32(&mut x804, &mut x805, x803, x782, (0x0 as u32));
    let mut x806: u32 = 0;
    let mut x807: FpU1 = 0;
    fp_addcarryx_u32(&mut x806, &mut x807, x805, x784, (0x0 as u32));
    let mut x808: u32 = 0;
    let mut x809: FpU1 = 0;
    fp_addcarryx_u32(&mut x808, &mut x809, x807, x786, (0x0 as u32));
    let mut x810: u32 = 0;
    let mut x811: FpU1 = 0;
    fp_addcarryx_u32(&mut x810, &mut x811, x809, x788, (0x0 as u32));
    let mut x812: u32 = 0;
    let mut x813: u32 = 0;
    fp_mulx_u32(&mut x812, &mut x813, x790, 0xffffffff);
    let mut x814: u32 = 0;
    let mut x815: u32 = 0;
    fp_mulx_u32(&mut x814, &mut x815, x812, 0x1ae3a46);
    let mut x816: u32 = 0;
    let mut x817: u32 = 0;
    fp_mulx_u32(&mut x816, &mut x817, x812, 0x17c510ea);
    let mut x818: u32 = 0;
    let mut x819: u32 = 0;
    fp_mulx_u32(&mut x818, &mut x819, x812, 0xc63b05c0);
    let mut x820: u32 = 0;
    let mut x821: u32 = 0;
    fp_mulx_u32(&mut x820, &mut x821, x812, 0x6ca1493b);
    let mut x822: u32 = 0;
    let mut x823: u32 = 0;
    fp_mulx_u32(&mut x822, &mut x823, x812, 0x1a22d9f3);
    let mut x824: u32 = 0;
    let mut x825: u32 = 0;
    fp_mulx_u32(&mut x824, &mut x825, x812, 0xf5138f);
    let mut x826: u32 = 0;
    let mut x827: u32 = 0;
    fp_mulx_u32(&mut x826, &mut x827, x812, 0x1ef3622f);
    let mut x828: u32 = 0;
    let mut x829: u32 = 0;
    fp_mulx_u32(&mut x828, &mut x829, x812, 0xba094800);
    let mut x830: u32 = 0;
    let mut x831: u32 = 0;
    fp_mulx_u32(&mut x830, &mut x831, x812, 0x170b5d44);
    let mut x832: u32 = 0;
    let mut x833: u32 = 0;
    fp_mulx_u32(&mut x832, &mut x833, x812, 0x30000000);
    let mut x834: u32 = 0;
    let mut x835: u32 = 0;
    fp_mulx_u32(&mut x834, &mut x835, x812, 0x8508c000);
    let mut x836: u32 = 0;
    let mut x837: FpU1 = 0;
    fp_addcarryx_u32(&mut x836, &mut x837, 0x0, x835, x832);
    let mut x838: u32 = 0;
    let mut x839: FpU1 = 0;
    fp_addcarryx_u32(&mut x838, &mut x839, x837, x833, x830);
    let mut x840: u32 = 0;
    let mut x841: FpU1 = 0;
    fp_addcarryx_u32(&mut x840, &mut x841, x839, x831, x828);
    let mut x842: u32 = 0;
    let mut x843: FpU1 = 0;
    fp_addcarryx_u32(&mut x842, &mut x843, x841, x829, x826);
    let mut x844: u32 = 0;
    let mut x845: FpU1 = 0;
    fp_addcarryx_u32(&mut x844, &mut x845, x843, x827, x824);
    let mut x846: u32 = 0;
    let mut x847: FpU1 = 0;
    fp_addcarryx_u32(&mut x846, &mut x847, x845, x825, x822);
    let mut x848: u32 = 0;
    let mut x849: FpU1 = 0;
    fp_addcarryx_u32(&mut x848, &mut x849, x847, x823, x820);
    let mut x850: u32 = 0;
    let mut x851: FpU1 = 0;
    fp_addcarryx_u32(&mut x850, &mut x851, x849, x821, x818);
    let mut x852: u32 = 0;
    let mut x853: FpU1 = 0;
    fp_addcarryx_u32(&mut x852, &mut x853, x851, x819, x816);
    let mut x854: u32 = 0;
    let mut x855: FpU1 = 0;
    fp_addcarryx_u32(&mut x854, &mut x855, x853, x817, x814);
    let mut x856: u32 = 0;
    let mut x857: FpU1 = 0;
    fp_addcarryx_u32(&mut x856, &mut x857, 0x0, x790, x812);
    let mut x858: u32 = 0;
    let mut x859: FpU1 = 0;
    fp_addcarryx_u32(&mut x858, &mut x859, x857, x792, x834);
    let mut x860: u32 = 0;
    let mut x861: FpU1 = 0;
    fp_addcarryx_u32(&mut x860, &mut x861, x859, x794, x836);
    let mut x862: u32 = 0;
    let mut x863: FpU1 = 0;
    fp_addcarryx_u32(&mut x862, &mut x863, x861, x796, x838);
    let mut x864: u32 = 0;
    let mut x865: FpU1 = 0;
    fp_addcarryx_u32(&mut x864, &mut x865, x863, x798, x840);
    let mut x866: u32 = 0;
    let mut x867: FpU1 = 0;
    fp_addcarryx_u32(&mut x866, &mut x867, x865, x800, x842);
    let mut x868: u32 = 0;
    let mut x869: FpU1 = 0;
    fp_addcarryx_u32(&mut x868, &mut x869, x867, x802, x844);
    let mut x870: u32 = 0;
    let mut x871: FpU1 = 0;
    fp_addcarryx_u32(&mut x870, &mut x871, x869, x804, x846);
    let mut x872: u32 = 0;
    let mut x873: FpU1 = 0;
    fp_addcarryx_u32(&mut x872, &mut x873, x871, x806, x848);
    let mut x874: u32 = 0;
    let mut x875: FpU1 = 0;
    fp_addcarryx_u32(&mut x874, &mut x875, x873, x808, x850);
    let mut x876: u32 = 0;
    let mut x877: FpU1 = 0;
    fp_addcarryx_u32(&mut x876, &mut x877, x875, x810, x852);
    let mut x878: u32 = 0;
    let mut x879: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x878,
        &mut x879,
        x877,
        ((x811 as u32) + ((x789 as u32) + ((x765 as u32) + x725))),
        x854,
    );
    let mut x880: u32 = 0;
    let mut x881: FpU1 = 0;
    fp_addcarryx_u32(&mut x880, &mut x881, 0x0, x858, (arg1[10]));
    let mut x882: u32 = 0;
    let mut x883: FpU1 = 0;
    fp_addcarryx_u32(&mut x882, &mut x883, x881, x860, (0x0 as u32));
    let mut x884: u32 = 0;
    let mut x885: FpU1 = 0;
    fp_addcarryx_u32(&mut x884, &mut x885, x883, x862, (0x0 as u32));
    let mut x886: u32 = 0;
    let mut x887: FpU1 = 0;
    fp_addcarryx_u32(&mut x886, &mut x887, x885, x864, (0x0 as u32));
    let mut x888: u32 = 0;
    let mut x889: FpU1 = 0;
    fp_addcarryx_u32(&mut x888, &mut x889, x887, x866, (0x0 as u32));
    let mut x890: u32 = 0;
    let mut x891: FpU1 = 0;
    fp_addcarryx_u32(&mut x890, &mut x891, x889, x868, (0x0 as u32));
    let mut x892: u32 = 0;
    let mut x893: FpU1 = 0;
    fp_addcarryx_u32(&mut x892, &mut x893, x891, x870, (0x0 as u32));
    let mut x894: u32 = 0;
    let mut x895: FpU1 = 0;
    fp_addcarryx_u32(&mut x894, &mut x895, x893, x872, (0x0 as u32));
    let mut x896: u32 = 0;
    let mut x897: FpU1 = 0;
    fp_addcarryx_u32(&mut x896, &mut x897, x895, x874, (0x0 as u32));
    let mut x898: u32 = 0;
    let mut x899: FpU1 = 0;
    fp_addcarryx_u32(&mut x898, &mut x899, x897, x876, (0x0 as u32));
    let mut x900: u32 = 0;
    let mut x901: FpU1 = 0;
    fp_addcarryx_u32(&mut x900, &mut x901, x899, x878, (0x0 as u32));
    let mut x902: u32 = 0;
    let mut x903: u32 = 0;
    fp_mulx_u32(&mut x902, &mut x903, x880, 0xffffffff);
    let mut x904: u32 = 0;
    let mut x905: u32 = 0;
    fp_mulx_u32(&mut x904, &mut x905, x902, 0x1ae3a46);
    let mut x906: u32 = 0;
    let mut x907: u32 = 0;
    fp_mulx_u32(&mut x906, &mut x907, x902, 0x17c510ea);
    let mut x908: u32 = 0;
    let mut x909: u32 = 0;
    fp_mulx_u32(&mut x908, &mut x909, x902, 0xc63b05c0);
    let mut x910: u32 = 0;
    let mut x911: u32 = 0;
    fp_mulx_u32(&mut x910, &mut x911, x902, 0x6ca1493b);
    let mut x912: u32 = 0;
    let mut x913: u32 = 0;
    fp_mulx_u32(&mut x912, &mut x913, x902, 0x1a22d9f3);
    let mut x914: u32 = 0;
    let mut x915: u32 = 0;
    fp_mulx_u32(&mut x914, &mut x915, x902, 0xf5138f);
    let mut x916: u32 = 0;
    let mut x917: u32 = 0;
    fp_mulx_u32(&mut x916, &mut x917, x902, 0x1ef3622f);
    let mut x918: u32 = 0;
    let mut x919: u32 = 0;
    fp_mulx_u32(&mut x918, &mut x919, x902, 0xba094800);
    let mut x920: u32 = 0;
    let mut x921: u32 = 0;
    fp_mulx_u32(&mut x920, &mut x921, x902, 0x170b5d44);
    let mut x922: u32 = 0;
    let mut x923: u32 = 0;
    fp_mulx_u32(&mut x922, &mut x923, x902, 0x30000000);
    let mut x924: u32 = 0;
    let mut x925: u32 = 0;
    fp_mulx_u32(&mut x924, &mut x925, x902, 0x8508c000);
    let mut x926: u32 = 0;
    let mut x927: FpU1 = 0;
    fp_addcarryx_u32(&mut x926, &mut x927, 0x0, x925, x922);
    let mut x928: u32 = 0;
    let mut x929: FpU1 = 0;
    fp_addcarryx_u32(&mut x928, &mut x929, x927, x923, x920);
    let mut x930: u32 = 0;
    let mut x931: FpU1 = 0;
    fp_addcarryx_u32(&mut x930, &mut x931, x929, x921, x918);
    let mut x932: u32 = 0;
    let mut x933: FpU1 = 0;
    fp_addcarryx_u32(&mut x932, &mut x933, x931, x919, x916);
    let mut x934: u32 = 0;
    let mut x935: FpU1 = 0;
    fp_addcarryx_u32(&mut x934, &mut x935, x933, x917, x914);
    let mut x936: u32 = 0;
    let mut x937: FpU1 = 0;
    fp_addcarryx_u32(&mut x936, &mut x937, x935, x915, x912);
    let mut x938: u32 = 0;
    let mut x939: FpU1 = 0;
    fp_addcarryx_u32(&mut x938, &mut x939, x937, x913, x910);
    let mut x940: u32 = 0;
    let mut x941: FpU1 = 0;
    fp_addcarryx_u32(&mut x940, &mut x941, x939, x911, x908);
    let mut x942: u32 = 0;
    let mut x943: FpU1 = 0;
    fp_addcarryx_u32(&mut x942, &mut x943, x941, x909, x906);
    let mut x944: u32 = 0;
    let mut x945: FpU1 = 0;
    fp_addcarryx_u32(&mut x944, &mut x945, x943, x907, x904);
    let mut x946: u32 = 0;
    let mut x947: FpU1 = 0;
    fp_addcarryx_u32(&mut x946, &mut x947, 0x0, x880, x902);
    let mut x948: u32 = 0;
    let mut x949: FpU1 = 0;
    fp_addcarryx_u32(&mut x948, &mut x949, x947, x882, x924);
    let mut x950: u32 = 0;
    let mut x951: FpU1 = 0;
    fp_addcarryx_u32(&mut x950, &mut x951, x949, x884, x926);
    let mut x952: u32 = 0;
    let mut x953: FpU1 = 0;
    fp_addcarryx_u32(&mut x952, &mut x953, x951, x886, x928);
    let mut x954: u32 = 0;
    let mut x955: FpU1 = 0;
    fp_addcarryx_u32(&mut x954, &mut x955, x953, x888, x930);
    let mut x956: u32 = 0;
    let mut x957: FpU1 = 0;
    fp_addcarryx_u32(&mut x956, &mut x957, x955, x890, x932);
    let mut x958: u32 = 0;
    let mut x959: FpU1 = 0;
    fp_addcarryx_u32(&mut x958, &mut x959, x957, x892, x934);
    let mut x960: u32 = 0;
    let mut x961: FpU1 = 0;
    fp_addcarryx_u32(&mut x960, &mut x961, x959, x894, x936);
    let mut x962: u32 = 0;
    let mut x963: FpU1 = 0;
    fp_addcarryx_u32(&mut x962, &mut x963, x961, x896, x938);
    let mut x964: u32 = 0;
    let mut x965: FpU1 = 0;
    fp_addcarryx_u32(&mut x964, &mut x965, x963, x898, x940);
    let mut x966: u32 = 0;
    let mut x967: FpU1 = 0;
    fp_addcarryx_u32(&mut x966, &mut x967, x965, x900, x942);
    let mut x968: u32 = 0;
    let mut x969: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x968,
        &mut x969,
        x967,
        ((x901 as u32) + ((x879 as u32) + ((x855 as u32) + x815))),
        x944,
    );
    let mut x970: u32 = 0;
    let mut x971: FpU1 = 0;
    fp_addcarryx_u32(&mut x970, &mut x971, 0x0, x948, (arg1[11]));
    let mut x972: u32 = 0;
    let mut x973: FpU1 = 0;
    fp_addcarryx_u32(&mut x972, &mut x973, x971, x950, (0x0 as u32));
    let mut x974: u32 = 0;
    let mut x975: FpU1 = 0;
    fp_addcarryx_u32(&mut x974, &mut x975, x973, x952, (0x0 as u32));
    let mut x976: u32 = 0;
    let mut x977: FpU1 = 0;
    fp_addcarryx_u32(&mut x976, &mut x977, x975, x954, (0x0 as u32));
    let mut x978: u32 = 0;
    let mut x979: FpU1 = 0;
    fp_addcarryx_u32(&mut x978, &mut x979, x977, x956, (0x0 as u32));
    let mut x980: u32 = 0;
    let mut x981: FpU1 = 0;
    fp_addcarryx_u32(&mut x980, &mut x981, x979, x958, (0x0 as u32));
    let mut x982: u32 = 0;
    let mut x983: FpU1 = 0;
    fp_addcarryx_u32(&mut x982, &mut x983, x981, x960, (0x0 as u32));
    let mut x984: u32 = 0;
    let mut x985: FpU1 = 0;
    fp_addcarryx_u32(&mut x984, &mut x985, x983, x962, (0x0 as u32));
    let mut x986: u32 = 0;
    let mut x987: FpU1 = 0;
    fp_addcarryx_u32(&mut x986, &mut x987, x985, x964, (0x0 as u32));
    let mut x988: u32 = 0;
    let mut x989: FpU1 = 0;
    fp_addcarryx_u32(&mut x988, &mut x989, x987, x966, (0x0 as u32));
    let mut x990: u32 = 0;
    let mut x991: FpU1 = 0;
    fp_addcarryx_u32(&mut x990, &mut x991, x989, x968, (0x0 as u32));
    let mut x992: u32 = 0;
    let mut x993: u32 = 0;
    fp_mulx_u32(&mut x992, &mut x993, x970, 0xffffffff);
    let mut x994: u32 = 0;
    let mut x995: u32 = 0;
    fp_mulx_u32(&mut x994, &mut x995, x992, 0x1ae3a46);
    let mut x996: u32 = 0;
    let mut x997: u32 = 0;
    fp_mulx_u32(&mut x996, &mut x997, x992, 0x17c510ea);
    let mut x998: u32 = 0;
    let mut x999: u32 = 0;
    fp_mulx_u32(&mut x998, &mut x999, x992, 0xc63b05c0);
    let mut x1000: u32 = 0;
    let mut x1001: u32 = 0;
    fp_mulx_u32(&mut x1000, &mut x1001, x992, 0x6ca1493b);
    let mut x1002: u32 = 0;
    let mut x1003: u32 = 0;
    fp_mulx_u32(&mut x1002, &mut x1003, x992, 0x1a22d9f3);
    let mut x1004: u32 = 0;
    let mut x1005: u32 = 0;
    fp_mulx_u32(&mut x1004, &mut x1005, x992, 0xf5138f);
    let mut x1006: u32 = 0;
    let mut x1007: u32 = 0;
    fp_mulx_u32(&mut x1006, &mut x1007, x992, 0x1ef3622f);
    let mut x1008: u32 = 0;
    let mut x1009: u32 = 0;
    fp_mulx_u32(&mut x1008, &mut x1009, x992, 0xba094800);
    let mut x1010: u32 = 0;
    let mut x1011: u32 = 0;
    fp_mulx_u32(&mut x1010, &mut x1011, x992, 0x170b5d44);
    let mut x1012: u32 = 0;
    let mut x1013: u32 = 0;
    fp_mulx_u32(&mut x1012, &mut x1013, x992, 0x30000000);
    let mut x1014: u32 = 0;
    let mut x1015: u32 = 0;
    fp_mulx_u32(&mut x1014, &mut x1015, x992, 0x8508c000);
    let mut x1016: u32 = 0;
    let mut x1017: FpU1 = 0;
    fp_addcarryx_u32(&mut x1016, &mut x1017, 0x0, x1015, x1012);
    let mut x1018: u32 = 0;
    let mut x1019: FpU1 = 0;
    fp_addcarryx_u32(&mut x1018, &mut x1019, x1017, x1013, x1010);
    let mut x1020: u32 = 0;
    let mut x1021: FpU1 = 0;
    fp_addcarryx_u32(&mut x1020, &mut x1021, x1019, x1011, x1008);
    let mut x1022: u32 = 0;
    let mut x1023: FpU1 = 0;
    fp_addcarryx_u32(&mut x1022, &mut x1023, x1021, x1009, x1006);
    let mut x1024: u32 = 0;
    let mut x1025: FpU1 = 0;
    fp_addcarryx_u32(&mut x1024, &mut x1025, x1023, x1007, x1004);
    let mut x1026: u32 = 0;
    let mut x1027: FpU1 = 0;
    fp_addcarryx_u32(&mut x1026, &mut x1027, x1025, x1005, x1002);
    let mut x1028: u32 = 0;
    let mut x1029: FpU1 = 0;
    fp_addcarryx_u32(&mut x1028, &mut x1029, x1027, x1003, x1000);
    let mut x1030: u32 = 0;
    let mut x1031: FpU1 = 0;
    fp_addcarryx_u32(&mut x1030, &mut x1031, x1029, x1001, x998);
    let mut x1032: u32 = 0;
    let mut x1033: FpU1 = 0;
    fp_addcarryx_u32(&mut x1032, &mut x1033, x1031, x999, x996);
    let mut x1034: u32 = 0;
    let mut x1035: FpU1 = 0;
    fp_addcarryx_u32(&mut x1034, &mut x1035, x1033, x997, x994);
    let mut x1036: u32 = 0;
    let mut x1037: FpU1 = 0;
    fp_addcarryx_u32(&mut x1036, &mut x1037, 0x0, x970, x992);
    let mut x1038: u32 = 0;
    let mut x1039: FpU1 = 0;
    fp_addcarryx_u32(&mut x1038, &mut x1039, x1037, x972, x1014);
    let mut x1040: u32 = 0;
    let mut x1041: FpU1 = 0;
    fp_addcarryx_u32(&mut x1040, &mut x1041, x1039, x974, x1016);
    let mut x1042: u32 = 0;
    let mut x1043: FpU1 = 0;
    fp_addcarryx_u32(&mut x1042, &mut x1043, x1041, x976, x1018);
    let mut x1044: u32 = 0;
    let mut x1045: FpU1 = 0;
    fp_addcarryx_u32(&mut x1044, &mut x1045, x1043, x978, x1020);
    let mut x1046: u32 = 0;
    let mut x1047: FpU1 = 0;
    fp_addcarryx_u32(&mut x1046, &mut x1047, x1045, x980, x1022);
    let mut x1048: u32 = 0;
    let mut x1049: FpU1 = 0;
    fp_addcarryx_u32(&mut x1048, &mut x1049, x1047, x982, x1024);
    let mut x1050: u32 = 0;
    let mut x1051: FpU1 = 0;
    fp_addcarryx_u32(&mut x1050, &mut x1051, x1049, x984, x1026);
    let mut x1052: u32 = 0;
    let mut x1053: FpU1 = 0;
    fp_addcarryx_u32(&mut x1052, &mut x1053, x1051, x986, x1028);
    let mut x1054: u32 = 0;
    let mut x1055: FpU1 = 0;
    fp_addcarryx_u32(&mut x1054, &mut x1055, x1053, x988, x1030);
    let mut x1056: u32 = 0;
    let mut x1057: FpU1 = 0;
    fp_addcarryx_u32(&mut x1056, &mut x1057, x1055, x990, x1032);
    let mut x1058: u32 = 0;
    let mut x1059: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x1058,
        &mut x1059,
        x1057,
        ((x991 as u32) + ((x969 as u32) + ((x945 as u32) + x905))),
        x1034,
    );
    let x1060: u32 = ((x1059 as u32) + ((x1035 as u32) + x995));
    let mut x1061: u32 = 0;
    let mut x1062: FpU1 = 0;
    fp_subborrowx_u32(&mut x1061, &mut x1062, 0x0, x1038, (0x1 as u32));
    let mut x1063: u32 = 0;
    let mut x1064: FpU1 = 0;
    fp_subborrowx_u32(&mut x1063, &mut x1064, x1062, x1040, 0x8508c000);
    let mut x1065: u32 = 0;
    let mut x1066: FpU1 = 0;
    fp_subborrowx_u32(&mut x1065, &mut x1066, x1064, x1042, 0x30000000);
    let mut x1067: u32 = 0;
    let mut x1068: FpU1 = 0;
    fp_subborrowx_u32(&mut x1067, &mut x1068, x1066, x1044, 0x170b5d44);
    let mut x1069: u32 = 0;
    let mut x1070: FpU1 = 0;
    fp_subborrowx_u32(&mut x1069, &mut x1070, x1068, x1046, 0xba094800);
    let mut x1071: u32 = 0;
    let mut x1072: FpU1 = 0;
    fp_subborrowx_u32(&mut x1071, &mut x1072, x1070, x1048, 0x1ef3622f);
    let mut x1073: u32 = 0;
    let mut x1074: FpU1 = 0;
    fp_subborrowx_u32(&mut x1073, &mut x1074, x1072, x1050, 0xf5138f);
    let mut x1075: u32 = 0;
    let mut x1076: FpU1 = 0;
    fp_subborrowx_u32(&mut x1075, &mut x1076, x1074, x1052, 0x1a22d9f3);
    let mut x1077: u32 = 0;
    let mut x1078: FpU1 = 0;
    fp_subborrowx_u32(&mut x1077, &mut x1078, x1076, x1054, 0x6ca1493b);
    let mut x1079: u32 = 0;
    let mut x1080: FpU1 = 0;
    fp_subborrowx_u32(&mut x1079, &mut x1080, x1078, x1056, 0xc63b05c0);
    let mut x1081: u32 = 0;
    let mut x1082: FpU1 = 0;
    fp_subborrowx_u32(&mut x1081, &mut x1082, x1080, x1058, 0x17c510ea);
    let mut x1083: u32 = 0;
    let mut x1084: FpU1 = 0;
    fp_subborrowx_u32(&mut x1083, &mut x1084, x1082, x1060, 0x1ae3a46);
    let mut x1085: u32 = 0;
    let mut x1086: FpU1 = 0;
    fp_subborrowx_u32(&mut x1085, &mut x1086, x1084, (0x0 as u32), (0x0 as u32));
    let mut x1087: u32 = 0;
    fp_cmovznz_u32(&mut x1087, x1086, x1061, x1038);
    let mut x1088: u32 = 0;
    fp_cmovznz_u32(&mut x1088, x1086, x1063, x1040);
    let mut x1089: u32 = 0;
    fp_cmovznz_u32(&mut x1089, x1086, x1065, x1042);
    let mut x1090: u32 = 0;
    fp_cmovznz_u32(&mut x1090, x1086, x1067, x1044);
    let mut x1091: u32 = 0;
    fp_cmovznz_u32(&mut x1091, x1086, x1069, x1046);
    let mut x1092: u32 = 0;
    fp_cmovznz_u32(&mut x1092, x1086, x1071, x1048);
    let mut x1093: u32 = 0;
    fp_cmovznz_u32(&mut x1093, x1086, x1073, x1050);
    let mut x1094: u32 = 0;
    fp_cmovznz_u32(&mut x1094, x1086, x1075, x1052);
    let mut x1095: u32 = 0;
    fp_cmovznz_u32(&mut x1095, x1086, x1077, x1054);
    let mut x1096: u32 = 0;
    fp_cmovznz_u32(&mut x1096, x1086, x1079, x1056);
    let mut x1097: u32 = 0;
    fp_cmovznz_u32(&mut x1097, x1086, x1081, x1058);
    let mut x1098: u32 = 0;
    fp_cmovznz_u32(&mut x1098, x1086, x1083, x1060);
    out1[0] = x1087;
    out1[1] = x1088;
    out1[2] = x1089;
    out1[3] = x1090;
    out1[4] = x1091;
    out1[5] = x1092;
    out1[6] = x1093;
    out1[7] = x1094;
    out1[8] = x1095;
    out1[9] = x1096;
    out1[10] = x1097;
    out1[11] = x1098;
}

/// The function fp_to_montgomery translates a field element into the Montgomery domain.
///
/// Preconditions:
///   0 ≤ eval arg1 < m
/// Postconditions:
///   eval (from_montgomery out1) mod m = eval arg1 mod m
///   0 ≤ eval out1 < m
///
pub fn fp_to_montgomery(
    out1: &mut FpMontgomeryDomainFieldElement,
    arg1: &FpNonMontgomeryDomainFieldElement,
) {
    let x1: u32 = (arg1[1]);
    let x2: u32 = (arg1[2]);
    let x3: u32 = (arg1[3]);
    let x4: u32 = (arg1[4]);
    let x5: u32 = (arg1[5]);
    let x6: u32 = (arg1[6]);
    let x7: u32 = (arg1[7]);
    let x8: u32 = (arg1[8]);
    let x9: u32 = (arg1[9]);
    let x10: u32 = (arg1[10]);
    let x11: u32 = (arg1[11]);
    let x12: u32 = (arg1[0]);
    let mut x13: u32 = 0;
    let mut x14: u32 = 0;
    fp_mulx_u32(&mut x13, &mut x14, x12, 0x6dfccb);
    let mut x15: u32 = 0;
    let mut x16: u32 = 0;
    fp_mulx_u32(&mut x15, &mut x16, x12, 0x1e914b88);
    let mut x17: u32 = 0;
    let mut x18: u32 = 0;
    fp_mulx_u32(&mut x17, &mut x18, x12, 0x837e92f0);
    let mut x19: u32 = 0;
    let mut x20: u32 = 0;
    fp_mulx_u32(&mut x19, &mut x20, x12, 0x41790bf9);
    let mut x21: u32 = 0;
    let mut x22: u32 = 0;
    fp_mulx_u32(&mut x21, &mut x22, x12, 0xbfdf7d03);
    let mut x23: u32 = 0;
    let mut x24: u32 = 0;
    fp_mulx_u32(&mut x23, &mut x24, x12, 0x827dc3ac);
    let mut x25: u32 = 0;
    let mut x26: u32 = 0;
    fp_mulx_u32(&mut x25, &mut x26, x12, 0x22a5f111);
    let mut x27: u32 = 0;
    let mut x28: u32 = 0;
    fp_mulx_u32(&mut x27, &mut x28, x12, 0x62d6b46d);
    let mut x29: u32 = 0;
    let mut x30: u32 = 0;
    fp_mulx_u32(&mut x29, &mut x30, x12, 0x329fcaa);
    let mut x31: u32 = 0;
    let mut x32: u32 = 0;
    fp_mulx_u32(&mut x31, &mut x32, x12, 0xb00431b1);
    let mut x33: u32 = 0;
    let mut x34: u32 = 0;
    fp_mulx_u32(&mut x33, &mut x34, x12, 0xb786686c);
    let mut x35: u32 = 0;
    let mut x36: u32 = 0;
    fp_mulx_u32(&mut x35, &mut x36, x12, 0x9400cd22);
    let mut x37: u32 = 0;
    let mut x38: FpU1 = 0;
    fp_addcarryx_u32(&mut x37, &mut x38, 0x0, x36, x33);
    let mut x39: u32 = 0;
    let mut x40: FpU1 = 0;
    fp_addcarryx_u32(&mut x39, &mut x40, x38, x34, x31);
    let mut x41: u32 = 0;
    let mut x42: FpU1 = 0;
    fp_addcarryx_u32(&mut x41, &mut x42, x40, x32, x29);
    let mut x43: u32 = 0;
    let mut x44: FpU1 = 0;
    fp_addcarryx_u32(&mut x43, &mut x44, x42, x30, x27);
    let mut x45: u32 = 0;
    let mut x46: FpU1 = 0;
    fp_addcarryx_u32(&mut x45, &mut x46, x44, x28, x25);
    let mut x47: u32 = 0;
    let mut x48: FpU1 = 0;
    fp_addcarryx_u32(&mut x47, &mut x48, x46, x26, x23);
    let mut x49: u32 = 0;
    let mut x50: FpU1 = 0;
    fp_addcarryx_u32(&mut x49, &mut x50, x48, x24, x21);
    let mut x51: u32 = 0;
    let mut x52: FpU1 = 0;
    fp_addcarryx_u32(&mut x51, &mut x52, x50, x22, x19);
    let mut x53: u32 = 0;
    let mut x54: FpU1 = 0;
    fp_addcarryx_u32(&mut x53, &mut x54, x52, x20, x17);
    let mut x55: u32 = 0;
    let mut x56: FpU1 = 0;
    fp_addcarryx_u32(&mut x55, &mut x56, x54, x18, x15);
    let mut x57: u32 = 0;
    let mut x58: FpU1 = 0;
    fp_addcarryx_u32(&mut x57, &mut x58, x56, x16, x13);
    let mut x59: u32 = 0;
    let mut x60: u32 = 0;
    fp_mulx_u32(&mut x59, &mut x60, x35, 0xffffffff);
    let mut x61: u32 = 0;
    let mut x62: u32 = 0;
    fp_mulx_u32(&mut x61, &mut x62, x59, 0x1ae3a46);
    let mut x63: u32 = 0;
    let mut x64: u32 = 0;
    fp_mulx_u32(&mut x63, &mut x64, x59, 0x17c510ea);
    let mut x65: u32 = 0;
    let mut x66: u32 = 0;
    fp_mulx_u32(&mut x65, &mut x66, x59, 0xc63b05c0);
    let mut x67: u32 = 0;
    let mut x68: u32 = 0;
    fp_mulx_u32(&mut x67, &mut x68, x59, 0x6ca1493b);
    let mut x69: u32 = 0;
    let mut x70: u32 = 0;
    fp_mulx_u32(&mut x69, &mut x70, x59, 0x1a22d9f3);
    let mut x71: u32 = 0;
    let mut x72: u32 = 0;
    fp_mulx_u32(&mut x71, &mut x72, x59, 0xf5138f);
    let mut x73: u32 = 0;
    let mut x74: u32 = 0;
    fp_mulx_u32(&mut x73, &mut x74, x59, 0x1ef3622f);
    let mut x75: u32 = 0;
    let mut x76: u32 = 0;
    fp_mulx_u32(&mut x75, &mut x76, x59, 0xba094800);
    let mut x77: u32 = 0;
    let mut x78: u32 = 0;
    fp_mulx_u32(&mut x77, &mut x78, x59, 0x170b5d44);
    let mut x79: u32 = 0;
    let mut x80: u32 = 0;
    fp_mulx_u32(&mut x79, &mut x80, x59, 0x30000000);
    let mut x81: u32 = 0;
    let mut x82: u32 = 0;
    fp_mulx_u32(&mut x81, &mut x82, x59, 0x8508c000);
    let mut x83: u32 = 0;
    let mut x84: FpU1 = 0;
    fp_addcarryx_u32(&mut x83, &mut x84, 0x0, x82, x79);
    let mut x85: u32 = 0;
    let mut x86: FpU1 = 0;
    fp_addcarryx_u32(&mut x85, &mut x86, x84, x80, x77);
    let mut x87: u32 = 0;
    let mut x88: FpU1 = 0;
    fp_addcarryx_u32(&mut x87, &mut x88, x86, x78, x75);
    let mut x89: u32 = 0;
    let mut x90: FpU1 = 0;
    fp_addcarryx_u32(&mut x89, &mut x90, x88, x76, x73);
    let mut x91: u32 = 0;
    let mut x92: FpU1 = 0;
    fp_addcarryx_u32(&mut x91, &mut x92, x90, x74, x71);
    let mut x93: u32 = 0;
    let mut x94: FpU1 = 0;
    fp_addcarryx_u32(&mut x93, &mut x94, x92, x72, x69);
    let mut x95: u32 = 0;
    let mut x96: FpU1 = 0;
    fp_addcarryx_u32(&mut x95, &mut x96, x94, x70, x67);
    let mut x97: u32 = 0;
    let mut x98: FpU1 = 0;
    fp_addcarryx_u32(&mut x97, &mut x98, x96, x68, x65);
    let mut x99: u32 = 0;
    let mut x100: FpU1 = 0;
    fp_addcarryx_u32(&mut x99, &mut x100, x98, x66, x63);
    let mut x101: u32 = 0;
    let mut x102: FpU1 = 0;
    fp_addcarryx_u32(&mut x101, &mut x102, x100, x64, x61);
    let mut x103: u32 = 0;
    let mut x104: FpU1 = 0;
    fp_addcarryx_u32(&mut x103, &mut x104, 0x0, x35, x59);
    let mut x105: u32 = 0;
    let mut x106: FpU1 = 0;
    fp_addcarryx_u32(&mut x105, &mut x106, x104, x37, x81);
    let mut x107: u32 = 0;
    let mut x108: FpU1 = 0;
    fp_addcarryx_u32(&mut x107, &mut x108, x106, x39, x83);
    let mut x109: u32 = 0;
    let mut x110: FpU1 = 0;
    fp_addcarryx_u32(&mut x109, &mut x110, x108, x41, x85);
    let mut x111: u32 = 0;
    let mut x112: FpU1 = 0;
    fp_addcarryx_u32(&mut x111, &mut x112, x110, x43, x87);
    let mut x113: u32 = 0;
    let mut x114: FpU1 = 0;
    fp_addcarryx_u32(&mut x113, &mut x114, x112, x45, x89);
    let mut x115: u32 = 0;
    let mut x116: FpU1 = 0;
    fp_addcarryx_u32(&mut x115, &mut x116, x114, x47, x91);
    let mut x117: u32 = 0;
    let mut x118: FpU1 = 0;
    fp_addcarryx_u32(&mut x117, &mut x118, x116, x49, x93);
    let mut x119: u32 = 0;
    let mut x120: FpU1 = 0;
    fp_addcarryx_u32(&mut x119, &mut x120, x118, x51, x95);
    let mut x121: u32 = 0;
    let mut x122: FpU1 = 0;
    fp_addcarryx_u32(&mut x121, &mut x122, x120, x53, x97);
    let mut x123: u32 = 0;
    let mut x124: FpU1 = 0;
    fp_addcarryx_u32(&mut x123, &mut x124, x122, x55, x99);
    let mut x125: u32 = 0;
    let mut x126: FpU1 = 0;
    fp_addcarryx_u32(&mut x125, &mut x126, x124, x57, x101);
    let mut x127: u32 = 0;
    let mut x128: u32 = 0;
    fp_mulx_u32(&mut x127, &mut x128, x1, 0x6dfccb);
    let mut x129: u32 = 0;
    let mut x130: u32 = 0;
    fp_mulx_u32(&mut x129, &mut x130, x1, 0x1e914b88);
    let mut x131: u32 = 0;
    let mut x132: u32 = 0;
    fp_mulx_u32(&mut x131, &mut x132, x1, 0x837e92f0);
    let mut x133: u32 = 0;
    let mut x134: u32 = 0;
    fp_mulx_u32(&mut x133, &mut x134, x1, 0x41790bf9);
    let mut x135: u32 = 0;
    let mut x136: u32 = 0;
    fp_mulx_u32(&mut x135, &mut x136, x1, 0xbfdf7d03);
    let mut x137: u32 = 0;
    let mut x138: u32 = 0;
    fp_mulx_u32(&mut x137, &mut x138, x1, 0x827dc3ac);
    let mut x139: u32 = 0;
    let mut x140: u32 = 0;
    fp_mulx_u32(&mut x139, &mut x140, x1, 0x22a5f111);
    let mut x141: u32 = 0;
    let mut x142: u32 = 0;
    fp_mulx_u32(&mut x141, &mut x142, x1, 0x62d6b46d);
    let mut x143: u32 = 0;
    let mut x144: u32 = 0;
    fp_mulx_u32(&mut x143, &mut x144, x1, 0x329fcaa);
    let mut x145: u32 = 0;
    let mut x146: u32 = 0;
    fp_mulx_u32(&mut x145, &mut x146, x1, 0xb00431b1);
    let mut x147: u32 = 0;
    let mut x148: u32 = 0;
    fp_mulx_u32(&mut x147, &mut x148, x1, 0xb786686c);
    let mut x149: u32 = 0;
    let mut x150: u32 = 0;
    fp_mulx_u32(&mut x149, &mut x150, x1, 0x9400cd22);
    let mut x151: u32 = 0;
    let mut x152: FpU1 = 0;
    fp_addcarryx_u32(&mut x151, &mut x152, 0x0, x150, x147);
    let mut x153: u32 = 0;
    let mut x154: FpU1 = 0;
    fp_addcarryx_u32(&mut x153, &mut x154, x152, x148, x145);
    let mut x155: u32 = 0;
    let mut x156: FpU1 = 0;
    fp_addcarryx_u32(&mut x155, &mut x156, x154, x146, x143);
    let mut x157: u32 = 0;
    let mut x158: FpU1 = 0;
    fp_addcarryx_u32(&mut x157, &mut x158, x156, x144, x141);
    let mut x159: u32 = 0;
    let mut x160: FpU1 = 0;
    fp_addcarryx_u32(&mut x159, &mut x160, x158, x142, x139);
    let mut x161: u32 = 0;
    let mut x162: FpU1 = 0;
    fp_addcarryx_u32(&mut x161, &mut x162, x160, x140, x137);
    let mut x163: u32 = 0;
    let mut x164: FpU1 = 0;
    fp_addcarryx_u32(&mut x163, &mut x164, x162, x138, x135);
    let mut x165: u32 = 0;
    let mut x166: FpU1 = 0;
    fp_addcarryx_u32(&mut x165, &mut x166, x164, x136, x133);
    let mut x167: u32 = 0;
    let mut x168: FpU1 = 0;
    fp_addcarryx_u32(&mut x167, &mut x168, x166, x134, x131);
    let mut x169: u32 = 0;
    let mut x170: FpU1 = 0;
    fp_addcarryx_u32(&mut x169, &mut x170, x168, x132, x129);
    let mut x171: u32 = 0;
    let mut x172: FpU1 = 0;
    fp_addcarryx_u32(&mut x171, &mut x172, x170, x130, x127);
    let mut x173: u32 = 0;
    let mut x174: FpU1 = 0;
    fp_addcarryx_u32(&mut x173, &mut x174, 0x0, x105, x149);
    let mut x175: u32 = 0;
    let mut x176: FpU1 = 0;
    fp_addcarryx_u32(&mut x175, &mut x176, x174, x107, x151);
    let mut x177: u32 = 0;
    let mut x178: FpU1 = 0;
    fp_addcarryx_u32(&mut x177, &mut x178, x176, x109, x153);
    let mut x179: u32 = 0;
    let mut x180: FpU1 = 0;
    fp_addcarryx_u32(&mut x179, &mut x180, x178, x111, x155);
    let mut x181: u32 = 0;
    let mut x182: FpU1 = 0;
    fp_addcarryx_u32(&mut x181, &mut x182, x180, x113, x157);
    let mut x183: u32 = 0;
    let mut x184: FpU1 = 0;
    fp_addcarryx_u32(&mut x183, &mut x184, x182, x115, x159);
    let mut x185: u32 = 0;
    let mut x186: FpU1 = 0;
    fp_addcarryx_u32(&mut x185, &mut x186, x184, x117, x161);
    let mut x187: u32 = 0;
    let mut x188: FpU1 = 0;
    fp_addcarryx_u32(&mut x187, &mut x188, x186, x119, x163);
    let mut x189: u32 = 0;
    let mut x190: FpU1 = 0;
    fp_addcarryx_u32(&mut x189, &mut x190, x188, x121, x165);
    let mut x191: u32 = 0;
    let mut x192: FpU1 = 0;
    fp_addcarryx_u32(&mut x191, &mut x192, x190, x123, x167);
    let mut x193: u32 = 0;
    let mut x194: FpU1 = 0;
    fp_addcarryx_u32(&mut x193, &mut x194, x192, x125, x169);
    let mut x195: u32 = 0;
    let mut x196: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x195,
        &mut x196,
        x194,
        (((x126 as u32) + ((x58 as u32) + x14)) + ((x102 as u32) + x62)),
        x171,
    );
    let mut x197: u32 = 0;
    let mut x198: u32 = 0;
    fp_mulx_u32(&mut x197, &mut x198, x173, 0xffffffff);
    let mut x199: u32 = 0;
    let mut x200: u32 = 0;
    fp_mulx_u32(&mut x199, &mut x200, x197, 0x1ae3a46);
    let mut x201: u32 = 0;
    let mut x202: u32 = 0;
    fp_mulx_u32(&mut x201, &mut x202, x197, 0x17c510ea);
    let mut x203: u32 = 0;
    let mut x204: u32 = 0;
    fp_mulx_u32(&mut x203, &mut x204, x197, 0xc63b05c0);
    let mut x205: u32 = 0;
    let mut x206: u32 = 0;
    fp_mulx_u32(&mut x205, &mut x206, x197, 0x6ca1493b);
    let mut x207: u32 = 0;
    let mut x208: u32 = 0;
    fp_mulx_u32(&mut x207, &mut x208, x197, 0x1a22d9f3);
    let mut x209: u32 = 0;
    let mut x210: u32 = 0;
    fp_mulx_u32(&mut x209, &mut x210, x197, 0xf5138f);
    let mut x211: u32 = 0;
    let mut x212: u32 = 0;
    fp_mulx_u32(&mut x211, &mut x212, x197, 0x1ef3622f);
    let mut x213: u32 = 0;
    let mut x214: u32 = 0;
    fp_mulx_u32(&mut x213, &mut x214, x197, 0xba094800);
    let mut x215: u32 = 0;
    let mut x216: u32 = 0;
    fp_mulx_u32(&mut x215, &mut x216, x197, 0x170b5d44);
    let mut x217: u32 = 0;
    let mut x218: u32 = 0;
    fp_mulx_u32(&mut x217, &mut x218, x197, 0x30000000);
    let mut x219: u32 = 0;
    let mut x220: u32 = 0;
    fp_mulx_u32(&mut x219, &mut x220, x197, 0x8508c000);
    let mut x221: u32 = 0;
    let mut x222: FpU1 = 0;
    fp_addcarryx_u32(&mut x221, &mut x222, 0x0, x220, x217);
    let mut x223: u32 = 0;
    let mut x224: FpU1 = 0;
    fp_addcarryx_u32(&mut x223, &mut x224, x222, x218, x215);
    let mut x225: u32 = 0;
    let mut x226: FpU1 = 0;
    fp_addcarryx_u32(&mut x225, &mut x226, x224, x216, x213);
    let mut x227: u32 = 0;
    let mut x228: FpU1 = 0;
    fp_addcarryx_u32(&mut x227, &mut x228, x226, x214, x211);
    let mut x229: u32 = 0;
    let mut x230: FpU1 = 0;
    fp_addcarryx_u32(&mut x229, &mut x230, x228, x212, x209);
    let mut x231: u32 = 0;
    let mut x232: FpU1 = 0;
    fp_addcarryx_u32(&mut x231, &mut x232, x230, x210, x207);
    let mut x233: u32 = 0;
    let mut x234: FpU1 = 0;
    fp_addcarryx_u32(&mut x233, &mut x234, x232, x208, x205);
    let mut x235: u32 = 0;
    let mut x236: FpU1 = 0;
    fp_addcarryx_u32(&mut x235, &mut x236, x234, x206, x203);
    let mut x237: u32 = 0;
    let mut x238: FpU1 = 0;
    fp_addcarryx_u32(&mut x237, &mut x238, x236, x204, x201);
    let mut x239: u32 = 0;
    let mut x240: FpU1 = 0;
    fp_addcarryx_u32(&mut x239, &mut x240, x238, x202, x199);
    let mut x241: u32 = 0;
    let mut x242: FpU1 = 0;
    fp_addcarryx_u32(&mut x241, &mut x242, 0x0, x173, x197);
    let mut x243: u32 = 0;
    let mut x244: FpU1 = 0;
    fp_addcarryx_u32(&mut x243, &mut x244, x242, x175, x219);
    let mut x245: u32 = 0;
    let mut x246: FpU1 = 0;
    fp_addcarryx_u32(&mut x245, &mut x246, x244, x177, x221);
    let mut x247: u32 = 0;
    let mut x248: FpU1 = 0;
    fp_addcarryx_u32(&mut x247, &mut x248, x246, x179, x223);
    let mut x249: u32 = 0;
    let mut x250: FpU1 = 0;
    fp_addcarryx_u32(&mut x249, &mut x250, x248, x181, x225);
    let mut x251: u32 = 0;
    let mut x252: FpU1 = 0;
    fp_addcarryx_u32(&mut x251, &mut x252, x250, x183, x227);
    let mut x253: u32 = 0;
    let mut x254: FpU1 = 0;
    fp_addcarryx_u32(&mut x253, &mut x254, x252, x185, x229);
    let mut x255: u32 = 0;
    let mut x256: FpU1 = 0;
    fp_addcarryx_u32(&mut x255, &mut x256, x254, x187, x231);
    let mut x257: u32 = 0;
    let mut x258: FpU1 = 0;
    fp_addcarryx_u32(&mut x257, &mut x258, x256, x189, x233);
    let mut x259: u32 = 0;
    let mut x260: FpU1 = 0;
    fp_addcarryx_u32(&mut x259, &mut x260, x258, x191, x235);
    let mut x261: u32 = 0;
    let mut x262: FpU1 = 0;
    fp_addcarryx_u32(&mut x261, &mut x262, x260, x193, x237);
    let mut x263: u32 = 0;
    let mut x264: FpU1 = 0;
    fp_addcarryx_u32(&mut x263, &mut x264, x262, x195, x239);
    let mut x265: u32 = 0;
    let mut x266: u32 = 0;
    fp_mulx_u32(&mut x265, &mut x266, x2, 0x6dfccb);
    let mut x267: u32 = 0;
    let mut x268: u32 = 0;
    fp_mulx_u32(&mut x267, &mut x268, x2, 0x1e914b88);
    let mut x269: u32 = 0;
    let mut x270: u32 = 0;
    fp_mulx_u32(&mut x269, &mut x270, x2, 0x837e92f0);
    let mut x271: u32 = 0;
    let mut x272: u32 = 0;
    fp_mulx_u32(&mut x271, &mut x272, x2, 0x41790bf9);
    let mut x273: u32 = 0;
    let mut x274: u32 = 0;
    fp_mulx_u32(&mut x273, &mut x274, x2, 0xbfdf7d03);
    let mut x275: u32 = 0;
    let mut x276: u32 = 0;
    fp_mulx_u32(&mut x275, &mut x276, x2, 0x827dc3ac);
    let mut x277: u32 = 0;
    let mut x278: u32 = 0;
    fp_mulx_u32(&mut x277, &mut x278, x2, 0x22a5f111);
    let mut x279: u32 = 0;
    let mut x280: u32 = 0;
    fp_mulx_u32(&mut x279, &mut x280, x2, 0x62d6b46d);
    let mut x281: u32 = 0;
    let mut x282: u32 = 0;
    fp_mulx_u32(&mut x281, &mut x282, x2, 0x329fcaa);
    let mut x283: u32 = 0;
    let mut x284: u32 = 0;
    fp_mulx_u32(&mut x283, &mut x284, x2, 0xb00431b1);
    let mut x285: u32 = 0;
    let mut x286: u32 = 0;
    fp_mulx_u32(&mut x285, &mut x286, x2, 0xb786686c);
    let mut x287: u32 = 0;
    let mut x288: u32 = 0;
    fp_mulx_u32(&mut x287, &mut x288, x2, 0x9400cd22);
    let mut x289: u32 = 0;
    let mut x290: FpU1 = 0;
    fp_addcarryx_u32(&mut x289, &mut x290, 0x0, x288, x285);
    let mut x291: u32 = 0;
    let mut x292: FpU1 = 0;
    fp_addcarryx_u32(&mut x291, &mut x292, x290, x286, x283);
    let mut x293: u32 = 0;
    let mut x294: FpU1 = 0;
    fp_addcarryx_u32(&mut x293, &mut x294, x292, x284, x281);
    let mut x295: u32 = 0;
    let mut x296: FpU1 = 0;
    fp_addcarryx_u32(&mut x295, &mut x296, x294, x282, x279);
    let mut x297: u32 = 0;
    let mut x298: FpU1 = 0;
    fp_addcarryx_u32(&mut x297, &mut x298, x296, x280, x277);
    let mut x299: u32 = 0;
    let mut x300: FpU1 = 0;
    fp_addcarryx_u32(&mut x299, &mut x300, x298, x278, x275);
    let mut x301: u32 = 0;
    let mut x302: FpU1 = 0;
    fp_addcarryx_u32(&mut x301, &mut x302, x300, x276, x273);
    let mut x303: u32 = 0;
    let mut x304: FpU1 = 0;
    fp_addcarryx_u32(&mut x303, &mut x304, x302, x274, x271);
    let mut x305: u32 = 0;
    let mut x306: FpU1 = 0;
    fp_addcarryx_u32(&mut x305, &mut x306, x304, x272, x269);
    let mut x307: u32 = 0;
    let mut x308: FpU1 = 0;
    fp_addcarryx_u32(&mut x307, &mut x308, x306, x270, x267);
    let mut x309: u32 = 0;
    let mut x310: FpU1 = 0;
    fp_addcarryx_u32(&mut x309, &mut x310, x308, x268, x265);
    let mut x311: u32 = 0;
    let mut x312: FpU1 = 0;
    fp_addcarryx_u32(&mut x311, &mut x312, 0x0, x243, x287);
    let mut x313: u32 = 0;
    let mut x314: FpU1 = 0;
    fp_addcarryx_u32(&mut x313, &mut x314, x312, x245, x289);
    let mut x315: u32 = 0;
    let mut x316: FpU1 = 0;
    fp_addcarryx_u32(&mut x315, &mut x316, x314, x247, x291);
    let mut x317: u32 = 0;
    let mut x318: FpU1 = 0;
    fp_addcarryx_u32(&mut x317, &mut x318, x316, x249, x293);
    let mut x319: u32 = 0;
    let mut x320: FpU1 = 0;
    fp_addcarryx_u32(&mut x319, &mut x320, x318, x251, x295);
    let mut x321: u32 = 0;
    let mut x322: FpU1 = 0;
    fp_addcarryx_u32(&mut x321, &mut x322, x320, x253, x297);
    let mut x323: u32 = 0;
    let mut x324: FpU1 = 0;
    fp_addcarryx_u32(&mut x323, &mut x324, x322, x255, x299);
    let mut x325: u32 = 0;
    let mut x326: FpU1 = 0;
    fp_addcarryx_u32(&mut x325, &mut x326, x324, x257, x301);
    let mut x327: u32 = 0;
    let mut x328: FpU1 = 0;
    fp_addcarryx_u32(&mut x327, &mut x328, x326, x259, x303);
    let mut x329: u32 = 0;
    let mut x330: FpU1 = 0;
    fp_addcarryx_u32(&mut x329, &mut x330, x328, x261, x305);
    let mut x331: u32 = 0;
    let mut x332: FpU1 = 0;
    fp_addcarryx_u32(&mut x331, &mut x332, x330, x263, x307);
    let mut x333: u32 = 0;
    let mut x334: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x333,
        &mut x334,
        x332,
        (((x264 as u32) + ((x196 as u32) + ((x172 as u32) + x128))) + ((x240 as u32) + x200)),
        x309,
    );
    let mut x335: u32 = 0;
    let mut x336: u32 = 0;
    fp_mulx_u32(&mut x335, &mut x336, x311, 0xffffffff);
    let mut x337: u32 = 0;
    let mut x338: u32 = 0;
    fp_mulx_u32(&mut x337, &mut x338, x335, 0x1ae3a46);
    let mut x339: u32 = 0;
    let mut x340: u32 = 0;
    fp_mulx_u32(&mut x339, &mut x340, x335, 0x17c510ea);
    let mut x341: u32 = 0;
    let mut x342: u32 = 0;
    fp_mulx_u32(&mut x341, &mut x342, x335, 0xc63b05c0);
    let mut x343: u32 = 0;
    let mut x344: u32 = 0;
    fp_mulx_u32(&mut x343, &mut x344, x335, 0x6ca1493b);
    let mut x345: u32 = 0;
    let mut x346: u32 = 0;
    fp_mulx_u32(&mut x345, &mut x346, x335, 0x1a22d9f3);
    let mut x347: u32 = 0;
    let mut x348: u32 = 0;
    fp_mulx_u32(&mut x347, &mut x348, x335, 0xf5138f);
    let mut x349: u32 = 0;
    let mut x350: u32 = 0;
    fp_mulx_u32(&mut x349, &mut x350, x335, 0x1ef3622f);
    let mut x351: u32 = 0;
    let mut x352: u32 = 0;
    fp_mulx_u32(&mut x351, &mut x352, x335, 0xba094800);
    let mut x353: u32 = 0;
    let mut x354: u32 = 0;
    fp_mulx_u32(&mut x353, &mut x354, x335, 0x170b5d44);
    let mut x355: u32 = 0;
    let mut x356: u32 = 0;
    fp_mulx_u32(&mut x355, &mut x356, x335, 0x30000000);
    let mut x357: u32 = 0;
    let mut x358: u32 = 0;
    fp_mulx_u32(&mut x357, &mut x358, x335, 0x8508c000);
    let mut x359: u32 = 0;
    let mut x360: FpU1 = 0;
    fp_addcarryx_u32(&mut x359, &mut x360, 0x0, x358, x355);
    let mut x361: u32 = 0;
    let mut x362: FpU1 = 0;
    fp_addcarryx_u32(&mut x361, &mut x362, x360, x356, x353);
    let mut x363: u32 = 0;
    let mut x364: FpU1 = 0;
    fp_addcarryx_u32(&mut x363, &mut x364, x362, x354, x351);
    let mut x365: u32 = 0;
    let mut x366: FpU1 = 0;
    fp_addcarryx_u32(&mut x365, &mut x366, x364, x352, x349);
    let mut x367: u32 = 0;
    let mut x368: FpU1 = 0;
    fp_addcarryx_u32(&mut x367, &mut x368, x366, x350, x347);
    let mut x369: u32 = 0;
    let mut x370: FpU1 = 0;
    fp_addcarryx_u32(&mut x369, &mut x370, x368, x348, x345);
    let mut x371: u32 = 0;
    let mut x372: FpU1 = 0;
    fp_addcarryx_u32(&mut x371, &mut x372, x370, x346, x343);
    let mut x373: u32 = 0;
    let mut x374: FpU1 = 0;
    fp_addcarryx_u32(&mut x373, &mut x374, x372, x344, x341);
    let mut x375: u32 = 0;
    let mut x376: FpU1 = 0;
    fp_addcarryx_u32(&mut x375, &mut x376, x374, x342, x339);
    let mut x377: u32 = 0;
    let mut x378: FpU1 = 0;
    fp_addcarryx_u32(&mut x377, &mut x378, x376, x340, x337);
    let mut x379: u32 = 0;
    let mut x380: FpU1 = 0;
    fp_addcarryx_u32(&mut x379, &mut x380, 0x0, x311, x335);
    let mut x381: u32 = 0;
    let mut x382: FpU1 = 0;
    fp_addcarryx_u32(&mut x381, &mut x382, x380, x313, x357);
    let mut x383: u32 = 0;
    let mut x384: FpU1 = 0;
    fp_addcarryx_u32(&mut x383, &mut x384, x382, x315, x359);
    let mut x385: u32 = 0;
    let mut x386: FpU1 = 0;
    fp_addcarryx_u32(&mut x385, &mut x386, x384, x317, x361);
    let mut x387: u32 = 0;
    let mut x388: FpU1 = 0;
    fp_addcarryx_u32(&mut x387, &mut x388, x386, x319, x363);
    let mut x389: u32 = 0;
    let mut x390: FpU1 = 0;
    fp_addcarryx_u32(&mut x389, &mut x390, x388, x321, x365);
    let mut x391: u32 = 0;
    let mut x392: FpU1 = 0;
    fp_addcarryx_u32(&mut x391, &mut x392, x390, x323, x367);
    let mut x393: u32 = 0;
    let mut x394: FpU1 = 0;
    fp_addcarryx_u32(&mut x393, &mut x394, x392, x325, x369);
    let mut x395: u32 = 0;
    let mut x396: FpU1 = 0;
    fp_addcarryx_u32(&mut x395, &mut x396, x394, x327, x371);
    let mut x397: u32 = 0;
    let mut x398: FpU1 = 0;
    fp_addcarryx_u32(&mut x397, &mut x398, x396, x329, x373);
    let mut x399: u32 = 0;
    let mut x400: FpU1 = 0;
    fp_addcarryx_u32(&mut x399, &mut x400, x398, x331, x375);
    let mut x401: u32 = 0;
    let mut x402: FpU1 = 0;
    fp_addcarryx_u32(&mut x401, &mut x402, x400, x333, x377);
    let mut x403: u32 = 0;
    let mut x404: u32 = 0;
    fp_mulx_u32(&mut x403, &mut x404, x3, 0x6dfccb);
    let mut x405: u32 = 0;
    let mut x406: u32 = 0;
    fp_mulx_u32(&mut x405, &mut x406, x3, 0x1e914b88);
    let mut x407: u32 = 0;
    let mut x408: u32 = 0;
    fp_mulx_u32(&mut x407, &mut x408, x3, 0x837e92f0);
    let mut x409: u32 = 0;
    let mut x410: u32 = 0;
    fp_mulx_u32(&mut x409, &mut x410, x3, 0x41790bf9);
    let mut x411: u32 = 0;
    let mut x412: u32 = 0;
    fp_mulx_u32(&mut x411, &mut x412, x3, 0xbfdf7d03);
    let mut x413: u32 = 0;
    let mut x414: u32 = 0;
    fp_mulx_u32(&mut x413, &mut x414, x3, 0x827dc3ac);
    let mut x415: u32 = 0;
    let mut x416: u32 = 0;
    fp_mulx_u32(&mut x415, &mut x416, x3, 0x22a5f111);
    let mut x417: u32 = 0;
    let mut x418: u32 = 0;
    fp_mulx_u32(&mut x417, &mut x418, x3, 0x62d6b46d);
    let mut x419: u32 = 0;
    let mut x420: u32 = 0;
    fp_mulx_u32(&mut x419, &mut x420, x3, 0x329fcaa);
    let mut x421: u32 = 0;
    let mut x422: u32 = 0;
    fp_mulx_u32(&mut x421, &mut x422, x3, 0xb00431b1);
    let mut x423: u32 = 0;
    let mut x424: u32 = 0;
    fp_mulx_u32(&mut x423, &mut x424, x3, 0xb786686c);
    let mut x425: u32 = 0;
    let mut x426: u32 = 0;
    fp_mulx_u32(&mut x425, &mut x426, x3, 0x9400cd22);
    let mut x427: u32 = 0;
    let mut x428: FpU1 = 0;
    fp_addcarryx_u32(&mut x427, &mut x428, 0x0, x426, x423);
    let mut x429: u32 = 0;
    let mut x430: FpU1 = 0;
    fp_addcarryx_u32(&mut x429, &mut x430, x428, x424, x421);
    let mut x431: u32 = 0;
    let mut x432: FpU1 = 0;
    fp_addcarryx_u32(&mut x431, &mut x432, x430, x422, x419);
    let mut x433: u32 = 0;
    let mut x434: FpU1 = 0;
    fp_addcarryx_u32(&mut x433, &mut x434, x432, x420, x417);
    let mut x435: u32 = 0;
    let mut x436: FpU1 = 0;
    fp_addcarryx_u32(&mut x435, &mut x436, x434, x418, x415);
    let mut x437: u32 = 0;
    let mut x438: FpU1 = 0;
    fp_addcarryx_u32(&mut x437, &mut x438, x436, x416, x413);
    let mut x439: u32 = 0;
    let mut x440: FpU1 = 0;
    fp_addcarryx_u32(&mut x439, &mut x440, x438, x414, x411);
    let mut x441: u32 = 0;
    let mut x442: FpU1 = 0;
    fp_addcarryx_u32(&mut x441, &mut x442, x440, x412, x409);
    let mut x443: u32 = 0;
    let mut x444: FpU1 = 0;
    fp_addcarryx_u32(&mut x443, &mut x444, x442, x410, x407);
    let mut x445: u32 = 0;
    let mut x446: FpU1 = 0;
    fp_addcarryx_u32(&mut x445, &mut x446, x444, x408, x405);
    let mut x447: u32 = 0;
    let mut x448: FpU1 = 0;
    fp_addcarryx_u32(&mut x447, &mut x448, x446, x406, x403);
    let mut x449: u32 = 0;
    let mut x450: FpU1 = 0;
    fp_addcarryx_u32(&mut x449, &mut x450, 0x0, x381, x425);
    let mut x451: u32 = 0;
    let mut x452: FpU1 = 0;
    fp_addcarryx_u32(&mut x451, &mut x452, x450, x383, x427);
    let mut x453: u32 = 0;
    let mut x454: FpU1 = 0;
    fp_addcarryx_u32(&mut x453, &mut x454, x452, x385, x429);
    let mut x455: u32 = 0;
    let mut x456: FpU1 = 0;
    fp_addcarryx_u32(&mut x455, &mut x456, x454, x387, x431);
    let mut x457: u32 = 0;
    let mut x458: FpU1 = 0;
    fp_addcarryx_u32(&mut x457, &mut x458, x456, x389, x433);
    let mut x459: u32 = 0;
    let mut x460: FpU1 = 0;
    fp_addcarryx_u32(&mut x459, &mut x460, x458, x391, x435);
    let mut x461: u32 = 0;
    let mut x462: FpU1 = 0;
    fp_addcarryx_u32(&mut x461, &mut x462, x460, x393, x437);
    let mut x463: u32 = 0;
    let mut x464: FpU1 = 0;
    fp_addcarryx_u32(&mut x463, &mut x464, x462, x395, x439);
    let mut x465: u32 = 0;
    let mut x466: FpU1 = 0;
    fp_addcarryx_u32(&mut x465, &mut x466, x464, x397, x441);
    let mut x467: u32 = 0;
    let mut x468: FpU1 = 0;
    fp_addcarryx_u32(&mut x467, &mut x468, x466, x399, x443);
    let mut x469: u32 = 0;
    let mut x470: FpU1 = 0;
    fp_addcarryx_u32(&mut x469, &mut x470, x468, x401, x445);
    let mut x471: u32 = 0;
    let mut x472: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x471,
        &mut x472,
        x470,
        (((x402 as u32) + ((x334 as u32) + ((x310 as u32) + x266))) + ((x378 as u32) + x338)),
        x447,
    );
    let mut x473: u32 = 0;
    let mut x474: u32 = 0;
    fp_mulx_u32(&mut x473, &mut x474, x449, 0xffffffff);
    let mut x475: u32 = 0;
    let mut x476: u32 = 0;
    fp_mulx_u32(&mut x475, &mut x476, x473, 0x1ae3a46);
    let mut x477: u32 = 0;
    let mut x478: u32 = 0;
    fp_mulx_u32(&mut x477, &mut x478, x473, 0x17c510ea);
    let mut x479: u32 = 0;
    let mut x480: u32 = 0;
    fp_mulx_u32(&mut x479, &mut x480, x473, 0xc63b05c0);
    let mut x481: u32 = 0;
    let mut x482: u32 = 0;
    fp_mulx_u32(&mut x481, &mut x482, x473, 0x6ca1493b);
    let mut x483: u32 = 0;
    let mut x484: u32 = 0;
    fp_mulx_u32(&mut x483, &mut x484, x473, 0x1a22d9f3);
    let mut x485: u32 = 0;
    let mut x486: u32 = 0;
    fp_mulx_u32(&mut x485, &mut x486, x473, 0xf5138f);
    let mut x487: u32 = 0;
    let mut x488: u32 = 0;
    fp_mulx_u32(&mut x487, &mut x488, x473, 0x1ef3622f);
    let mut x489: u32 = 0;
    let mut x490: u32 = 0;
    fp_mulx_u32(&mut x489, &mut x490, x473, 0xba094800);
    let mut x491: u32 = 0;
    let mut x492: u32 = 0;
    fp_mulx_u32(&mut x491, &mut x492, x473, 0x170b5d44);
    let mut x493: u32 = 0;
    let mut x494: u32 = 0;
    fp_mulx_u32(&mut x493, &mut x494, x473, 0x30000000);
    let mut x495: u32 = 0;
    let mut x496: u32 = 0;
    fp_mulx_u32(&mut x495, &mut x496, x473, 0x8508c000);
    let mut x497: u32 = 0;
    let mut x498: FpU1 = 0;
    fp_addcarryx_u32(&mut x497, &mut x498, 0x0, x496, x493);
    let mut x499: u32 = 0;
    let mut x500: FpU1 = 0;
    fp_addcarryx_u32(&mut x499, &mut x500, x498, x494, x491);
    let mut x501: u32 = 0;
    let mut x502: FpU1 = 0;
    fp_addcarryx_u32(&mut x501, &mut x502, x500, x492, x489);
    let mut x503: u32 = 0;
    let mut x504: FpU1 = 0;
    fp_addcarryx_u32(&mut x503, &mut x504, x502, x490, x487);
    let mut x505: u32 = 0;
    let mut x506: FpU1 = 0;
    fp_addcarryx_u32(&mut x505, &mut x506, x504, x488, x485);
    let mut x507: u32 = 0;
    let mut x508: FpU1 = 0;
    fp_addcarryx_u32(&mut x507, &mut x508, x506, x486, x483);
    let mut x509: u32 = 0;
    let mut x510: FpU1 = 0;
    fp_addcarryx_u32(&mut x509, &mut x510, x508, x484, x481);
    let mut x511: u32 = 0;
    let mut x512: FpU1 = 0;
    fp_addcarryx_u32(&mut x511, &mut x512, x510, x482, x479);
    let mut x513: u32 = 0;
    let mut x514: FpU1 = 0;
    fp_addcarryx_u32(&mut x513, &mut x514, x512, x480, x477);
    let mut x515: u32 = 0;
    let mut x516: FpU1 = 0;
    fp_addcarryx_u32(&mut x515, &mut x516, x514, x478, x475);
    let mut x517: u32 = 0;
    let mut x518: FpU1 = 0;
    fp_addcarryx_u32(&mut x517, &mut x518, 0x0, x449, x473);
    let mut x519: u32 = 0;
    let mut x520: FpU1 = 0;
    fp_addcarryx_u32(&mut x519, &mut x520, x518, x451, x495);
    let mut x521: u32 = 0;
    let mut x522: FpU1 = 0;
    fp_addcarryx_u32(&mut x521, &mut x522, x520, x453, x497);
    let mut x523: u32 = 0;
    let mut x524: FpU1 = 0;
    fp_addcarryx_u32(&mut x523, &mut x524, x522, x455, x499);
    let mut x525: u32 = 0;
    let mut x526: FpU1 = 0;
    fp_addcarryx_u32(&mut x525, &mut x526, x524, x457, x501);
    let mut x527: u32 = 0;
    let mut x528: FpU1 = 0;
    fp_addcarryx_u32(&mut x527, &mut x528, x526, x459, x503);
    let mut x529: u32 = 0;
    let mut x530: FpU1 = 0;
    fp_addcarryx_u32(&mut x529, &mut x530, x528, x461, x505);
    let mut x531: u32 = 0;
    let mut x532: FpU1 = 0;
    fp_addcarryx_u32(&mut x531, &mut x532, x530, x463, x507);
    let mut x533: u32 = 0;
    let mut x534: FpU1 = 0;
    fp_addcarryx_u32(&mut x533, &mut x534, x532, x465, x509);
    let mut x535: u32 = 0;
    let mut x536: FpU1 = 0;
    fp_addcarryx_u32(&mut x535, &mut x536, x534, x467, x511);
    let mut x537: u32 = 0;
    let mut x538: FpU1 = 0;
    fp_addcarryx_u32(&mut x537, &mut x538, x536, x469, x513);
    let mut x539: u32 = 0;
    let mut x540: FpU1 = 0;
    fp_addcarryx_u32(&mut x539, &mut x540, x538, x471, x515);
    let mut x541: u32 = 0;
    let mut x542: u32 = 0;
    fp_mulx_u32(&mut x541, &mut x542, x4, 0x6dfccb);
    let mut x543: u32 = 0;
    let mut x544: u32 = 0;
    fp_mulx_u32(&mut x543, &mut x544, x4, 0x1e914b88);
    let mut x545: u32 = 0;
    let mut x546: u32 = 0;
    fp_mulx_u32(&mut x545, &mut x546, x4, 0x837e92f0);
    let mut x547: u32 = 0;
    let mut x548: u32 = 0;
    fp_mulx_u32(&mut x547, &mut x548, x4, 0x41790bf9);
    let mut x549: u32 = 0;
    let mut x550: u32 = 0;
    fp_mulx_u32(&mut x549, &mut x550, x4, 0xbfdf7d03);
    let mut x551: u32 = 0;
    let mut x552: u32 = 0;
    fp_mulx_u32(&mut x551, &mut x552, x4, 0x827dc3ac);
    let mut x553: u32 = 0;
    let mut x554: u32 = 0;
    fp_mulx_u32(&mut x553, &mut x554, x4, 0x22a5f111);
    let mut x555: u32 = 0;
    let mut x556: u32 = 0;
    fp_mulx_u32(&mut x555, &mut x556, x4, 0x62d6b46d);
    let mut x557: u32 = 0;
    let mut x558: u32 = 0;
    fp_mulx_u32(&mut x557, &mut x558, x4, 0x329fcaa);
    let mut x559: u32 = 0;
    let mut x560: u32 = 0;
    fp_mulx_u32(&mut x559, &mut x560, x4, 0xb00431b1);
    let mut x561: u32 = 0;
    let mut x562: u32 = 0;
    fp_mulx_u32(&mut x561, &mut x562, x4, 0xb786686c);
    let mut x563: u32 = 0;
    let mut x564: u32 = 0;
    fp_mulx_u32(&mut x563, &mut x564, x4, 0x9400cd22);
    let mut x565: u32 = 0;
    let mut x566: FpU1 = 0;
    fp_addcarryx_u32(&mut x565, &mut x566, 0x0, x564, x561);
    let mut x567: u32 = 0;
    let mut x568: FpU1 = 0;
    fp_addcarryx_u32(&mut x567, &mut x568, x566, x562, x559);
    let mut x569: u32 = 0;
    let mut x570: FpU1 = 0;
    fp_addcarryx_u32(&mut x569, &mut x570, x568, x560, x557);
    let mut x571: u32 = 0;
    let mut x572: FpU1 = 0;
    fp_addcarryx_u32(&mut x571, &mut x572, x570, x558, x555);
    let mut x573: u32 = 0;
    let mut x574: FpU1 = 0;
    fp_addcarryx_u32(&mut x573, &mut x574, x572, x556, x553);
    let mut x575: u32 = 0;
    let mut x576: FpU1 = 0;
    fp_addcarryx_u32(&mut x575, &mut x576, x574, x554, x551);
    let mut x577: u32 = 0;
    let mut x578: FpU1 = 0;
    fp_addcarryx_u32(&mut x577, &mut x578, x576, x552, x549);
    let mut x579: u32 = 0;
    let mut x580: FpU1 = 0;
    fp_addcarryx_u32(&mut x579, &mut x580, x578, x550, x547);
    let mut x581: u32 = 0;
    let mut x582: FpU1 = 0;
    fp_addcarryx_u32(&mut x581, &mut x582, x580, x548, x545);
    let mut x583: u32 = 0;
    let mut x584: FpU1 = 0;
    fp_addcarryx_u32(&mut x583, &mut x584, x582, x546, x543);
    let mut x585: u32 = 0;
    let mut x586: FpU1 = 0;
    fp_addcarryx_u32(&mut x585, &mut x586, x584, x544, x541);
    let mut x587: u32 = 0;
    let mut x588: FpU1 = 0;
    fp_addcarryx_u32(&mut x587, &mut x588, 0x0, x519, x563);
    let mut x589: u32 = 0;
    let mut x590: FpU1 = 0;
    fp_addcarryx_u32(&mut x589, &mut x590, x588, x521, x565);
    let mut x591: u32 = 0;
    let mut x592: FpU1 = 0;
    fp_addcarryx_u32(&mut x591, &mut x592, x590, x523, x567);
    let mut x593: u32 = 0;
    let mut x594: FpU1 = 0;
    fp_addcarryx_u32(&mut x593, &mut x594, x592, x525, x569);
    let mut x595: u32 = 0;
    let mut x596: FpU1 = 0;
    fp_addcarryx_u32(&mut x595, &mut x596, x594, x527, x571);
    let mut x597: u32 = 0;
    let mut x598: FpU1 = 0;
    fp_addcarryx_u32(&mut x597, &mut x598, x596, x529, x573);
    let mut x599: u32 = 0;
    let mut x600: FpU1 = 0;
    fp_addcarryx_u32(&mut x599, &mut x600, x598, x531, x575);
    let mut x601: u32 = 0;
    let mut x602: FpU1 = 0;
    fp_addcarryx_u32(&mut x601, &mut x602, x600, x533, x577);
    let mut x603: u32 = 0;
    let mut x604: FpU1 = 0;
    fp_addcarryx_u32(&mut x603, &mut x604, x602, x535, x579);
    let mut x605: u32 = 0;
    let mut x606: FpU1 = 0;
    fp_addcarryx_u32(&mut x605, &mut x606, x604, x537, x581);
    let mut x607: u32 = 0;
    let mut x608: FpU1 = 0;
    fp_addcarryx_u32(&mut x607, &mut x608, x606, x539, x583);
    let mut x609: u32 = 0;
    let mut x610: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x609,
        &mut x610,
        x608,
        (((x540 as u32) + ((x472 as u32) + ((x448 as u32) + x404))) + ((x516 as u32) + x476)),
        x585,
    );
    let mut x611: u32 = 0;
    let mut x612: u32 = 0;
    fp_mulx_u32(&mut x611, &mut x612, x587, 0xffffffff);
    let mut x613: u32 = 0;
    let mut x614: u32 = 0;
    fp_mulx_u32(&mut x613, &mut x614, x611, 0x1ae3a46);
    let mut x615: u32 = 0;
    let mut x616: u32 = 0;
    fp_mulx_u32(&mut x615, &mut x616, x611, 0x17c510ea);
    let mut x617: u32 = 0;
    let mut x618: u32 = 0;
    fp_mulx_u32(&mut x617, &mut x618, x611, 0xc63b05c0);
    let mut x619: u32 = 0;
    let mut x620: u32 = 0;
    fp_mulx_u32(&mut x619, &mut x620, x611, 0x6ca1493b);
    let mut x621: u32 = 0;
    let mut x622: u32 = 0;
    fp_mulx_u32(&mut x621, &mut x622, x611, 0x1a22d9f3);
    let mut x623: u32 = 0;
    let mut x624: u32 = 0;
    fp_mulx_u32(&mut x623, &mut x624, x611, 0xf5138f);
    let mut x625: u32 = 0;
    let mut x626: u32 = 0;
    fp_mulx_u32(&mut x625, &mut x626, x611, 0x1ef3622f);
    let mut x627: u32 = 0;
    let mut x628: u32 = 0;
    fp_mulx_u32(&mut x627, &mut x628, x611, 0xba094800);
    let mut x629: u32 = 0;
    let mut x630: u32 = 0;
    fp_mulx_u32(&mut x629, &mut x630, x611, 0x170b5d44);
    let mut x631: u32 = 0;
    let mut x632: u32 = 0;
    fp_mulx_u32(&mut x631, &mut x632, x611, 0x30000000);
    let mut x633: u32 = 0;
    let mut x634: u32 = 0;
    fp_mulx_u32(&mut x633, &mut x634, x611, 0x8508c000);
    let mut x635: u32 = 0;
    let mut x636: FpU1 = 0;
    fp_addcarryx_u32(&mut x635, &mut x636, 0x0, x634, x631);
    let mut x637: u32 = 0;
    let mut x638: FpU1 = 0;
    fp_addcarryx_u32(&mut x637, &mut x638, x636, x632, x629);
    let mut x639: u32 = 0;
    let mut x640: FpU1 = 0;
    fp_addcarryx_u32(&mut x639, &mut x640, x638, x630, x627);
    let mut x641: u32 = 0;
    let mut x642: FpU1 = 0;
    fp_addcarryx_u32(&mut x641, &mut x642, x640, x628, x625);
    let mut x643: u32 = 0;
    let mut x644: FpU1 = 0;
    fp_addcarryx_u32(&mut x643, &mut x644, x642, x626, x623);
    let mut x645: u32 = 0;
    let mut x646: FpU1 = 0;
    fp_addcarryx_u32(&mut x645, &mut x646, x644, x624, x621);
    let mut x647: u32 = 0;
    let mut x648: FpU1 = 0;
    fp_addcarryx_u32(&mut x647, &mut x648, x646, x622, x619);
    let mut x649: u32 = 0;
    let mut x650: FpU1 = 0;
    fp_addcarryx_u32(&mut x649, &mut x650, x648, x620, x617);
    let mut x651: u32 = 0;
    let mut x652: FpU1 = 0;
    fp_addcarryx_u32(&mut x651, &mut x652, x650, x618, x615);
    let mut x653: u32 = 0;
    let mut x654: FpU1 = 0;
    fp_addcarryx_u32(&mut x653, &mut x654, x652, x616, x613);
    let mut x655: u32 = 0;
    let mut x656: FpU1 = 0;
    fp_addcarryx_u32(&mut x655, &mut x656, 0x0, x587, x611);
    let mut x657: u32 = 0;
    let mut x658: FpU1 = 0;
    fp_addcarryx_u32(&mut x657, &mut x658, x656, x589, x633);
    let mut x659: u32 = 0;
    let mut x660: FpU1 = 0;
    fp_addcarryx_u32(&mut x659, &mut x660, x658, x591, x635);
    let mut x661: u32 = 0;
    let mut x662: FpU1 = 0;
    fp_addcarryx_u32(&mut x661, &mut x662, x660, x593, x637);
    let mut x663: u32 = 0;
    let mut x664: FpU1 = 0;
    fp_addcarryx_u32(&mut x663, &mut x664, x662, x595, x639);
    let mut x665: u32 = 0;
    let mut x666: FpU1 = 0;
    fp_addcarryx_u32(&mut x665, &mut x666, x664, x597, x641);
    let mut x667: u32 = 0;
    let mut x668: FpU1 = 0;
    fp_addcarryx_u32(&mut x667, &mut x668, x666, x599, x643);
    let mut x669: u32 = 0;
    let mut x670: FpU1 = 0;
    fp_addcarryx_u32(&mut x669, &mut x670, x668, x601, x645);
    let mut x671: u32 = 0;
    let mut x672: FpU1 = 0;
    fp_addcarryx_u32(&mut x671, &mut x672, x670, x603, x647);
    let mut x673: u32 = 0;
    let mut x674: FpU1 = 0;
    fp_addcarryx_u32(&mut x673, &mut x674, x672, x605, x649);
    let mut x675: u32 = 0;
    let mut x676: FpU1 = 0;
    fp_addcarryx_u32(&mut x675, &mut x676, x674, x607, x651);
    let mut x677: u32 = 0;
    let mut x678: FpU1 = 0;
    fp_addcarryx_u32(&mut x677, &mut x678, x676, x609, x653);
    let mut x679: u32 = 0;
    let mut x680: u32 = 0;
    fp_mulx_u32(&mut x679, &mut x680, x5, 0x6dfccb);
    let mut x681: u32 = 0;
    let mut x682: u32 = 0;
    fp_mulx_u32(&mut x681, &mut x682, x5, 0x1e914b88);
    let mut x683: u32 = 0;
    let mut x684: u32 = 0;
    fp_mulx_u32(&mut x683, &mut x684, x5, 0x837e92f0);
    let mut x685: u32 = 0;
    let mut x686: u32 = 0;
    fp_mulx_u32(&mut x685, &mut x686, x5, 0x41790bf9);
    let mut x687: u32 = 0;
    let mut x688: u32 = 0;
    fp_mulx_u32(&mut x687, &mut x688, x5, 0xbfdf7d03);
    let mut x689: u32 = 0;
    let mut x690: u32 = 0;
    fp_mulx_u32(&mut x689, &mut x690, x5, 0x827dc3ac);
    let mut x691: u32 = 0;
    let mut x692: u32 = 0;
    fp_mulx_u32(&mut x691, &mut x692, x5, 0x22a5f111);
    let mut x693: u32 = 0;
    let mut x694: u32 = 0;
    fp_mulx_u32(&mut x693, &mut x694, x5, 0x62d6b46d);
    let mut x695: u32 = 0;
    let mut x696: u32 = 0;
    fp_mulx_u32(&mut x695, &mut x696, x5, 0x329fcaa);
    let mut x697: u32 = 0;
    let mut x698: u32 = 0;
    fp_mulx_u32(&mut x697, &mut x698, x5, 0xb00431b1);
    let mut x699: u32 = 0;
    let mut x700: u32 = 0;
    fp_mulx_u32(&mut x699, &mut x700, x5, 0xb786686c);
    let mut x701: u32 = 0;
    let mut x702: u32 = 0;
    fp_mulx_u32(&mut x701, &mut x702, x5, 0x9400cd22);
    let mut x703: u32 = 0;
    let mut x704: FpU1 = 0;
    fp_addcarryx_u32(&mut x703, &mut x704, 0x0, x702, x699);
    let mut x705: u32 = 0;
    let mut x706: FpU1 = 0;
    fp_addcarryx_u32(&mut x705, &mut x706, x704, x700, x697);
    let mut x707: u32 = 0;
    let mut x708: FpU1 = 0;
    fp_addcarryx_u32(&mut x707, &mut x708, x706, x698, x695);
    let mut x709: u32 = 0;
    let mut x710: FpU1 = 0;
    fp_addcarryx_u32(&mut x709, &mut x710, x708, x696, x693);
    let mut x711: u32 = 0;
    let mut x712: FpU1 = 0;
    fp_addcarryx_u32(&mut x711, &mut x712, x710, x694, x691);
    let mut x713: u32 = 0;
    let mut x714: FpU1 = 0;
    fp_addcarryx_u32(&mut x713, &mut x714, x712, x692, x689);
    let mut x715: u32 = 0;
    let mut x716: FpU1 = 0;
    fp_addcarryx_u32(&mut x715, &mut x716, x714, x690, x687);
    let mut x717: u32 = 0;
    let mut x718: FpU1 = 0;
    fp_addcarryx_u32(&mut x717, &mut x718, x716, x688, x685);
    let mut x719: u32 = 0;
    let mut x720: FpU1 = 0;
    fp_addcarryx_u32(&mut x719, &mut x720, x718, x686, x683);
    let mut x721: u32 = 0;
    let mut x722: FpU1 = 0;
    fp_addcarryx_u32(&mut x721, &mut x722, x720, x684, x681);
    let mut x723: u32 = 0;
    let mut x724: FpU1 = 0;
    fp_addcarryx_u32(&mut x723, &mut x724, x722, x682, x679);
    let mut x725: u32 = 0;
    let mut x726: FpU1 = 0;
    fp_addcarryx_u32(&mut x725, &mut x726, 0x0, x657, x701);
    let mut x727: u32 = 0;
    let mut x728: FpU1 = 0;
    fp_addcarryx_u32(&mut x727, &mut x728, x726, x659, x703);
    let mut x729: u32 = 0;
    let mut x730: FpU1 = 0;
    fp_addcarryx_u32(&mut x729, &mut x730, x728, x661, x705);
    let mut x731: u32 = 0;
    let mut x732: FpU1 = 0;
    fp_addcarryx_u32(&mut x731, &mut x732, x730, x663, x707);
    let mut x733: u32 = 0;
    let mut x734: FpU1 = 0;
    fp_addcarryx_u32(&mut x733, &mut x734, x732, x665, x709);
    let mut x735: u32 = 0;
    let mut x736: FpU1 = 0;
    fp_addcarryx_u32(&mut x735, &mut x736, x734, x667, x711);
    let mut x737: u32 = 0;
    let mut x738: FpU1 = 0;
    fp_addcarryx_u32(&mut x737, &mut x738, x736, x669, x713);
    let mut x739: u32 = 0;
    let mut x740: FpU1 = 0;
    fp_addcarryx_u32(&mut x739, &mut x740, x738, x671, x715);
    let mut x741: u32 = 0;
    let mut x742: FpU1 = 0;
    fp_addcarryx_u32(&mut x741, &mut x742, x740, x673, x717);
    let mut x743: u32 = 0;
    let mut x744: FpU1 = 0;
    fp_addcarryx_u32(&mut x743, &mut x744, x742, x675, x719);
    let mut x745: u32 = 0;
    let mut x746: FpU1 = 0;
    fp_addcarryx_u32(&mut x745, &mut x746, x744, x677, x721);
    let mut x747: u32 = 0;
    let mut x748: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x747,
        &mut x748,
        x746,
        (((x678 as u32) + ((x610 as u32) + ((x586 as u32) + x542))) + ((x654 as u32) + x614)),
        x723,
    );
    let mut x749: u32 = 0;
    let mut x750: u32 = 0;
    fp_mulx_u32(&mut x749, &mut x750, x725, 0xffffffff);
    let mut x751: u32 = 0;
    let mut x752: u32 = 0;
    fp_mulx_u32(&mut x751, &mut x752, x749, 0x1ae3a46);
    let mut x753: u32 = 0;
    let mut x754: u32 = 0;
    fp_mulx_u32(&mut x753, &mut x754, x749, 0x17c510ea);
    let mut x755: u32 = 0;
    let mut x756: u32 = 0;
    fp_mulx_u32(&mut x755, &mut x756, x749, 0xc63b05c0);
    let mut x757: u32 = 0;
    let mut x758: u32 = 0;
    fp_mulx_u32(&mut x757, &mut x758, x749, 0x6ca1493b);
    let mut x759: u32 = 0;
    let mut x760: u32 = 0;
    fp_mulx_u32(&mut x759, &mut x760, x749, 0x1a22d9f3);
    let mut x761: u32 = 0;
    let mut x762: u32 = 0;
    fp_mulx_u32(&mut x761, &mut x762, x749, 0xf5138f);
    let mut x763: u32 = 0;
    let mut x764: u32 = 0;
    fp_mulx_u32(&mut x763, &mut x764, x749, 0x1ef3622f);
    let mut x765: u32 = 0;
    let mut x766: u32 = 0;
    fp_mulx_u32(&mut x765, &mut x766, x749, 0xba094800);
    let mut x767: u32 = 0;
    let mut x768: u32 = 0;
    fp_mulx_u32(&mut x767, &mut x768, x749, 0x170b5d44);
    let mut x769: u32 = 0;
    let mut x770: u32 = 0;
    fp_mulx_u32(&mut x769, &mut x770, x749, 0x30000000);
    let mut x771: u32 = 0;
    let mut x772: u32 = 0;
    fp_mulx_u32(&mut x771, &mut x772, x749, 0x8508c000);
    let mut x773: u32 = 0;
    let mut x774: FpU1 = 0;
    fp_addcarryx_u32(&mut x773, &mut x774, 0x0, x772, x769);
    let mut x775: u32 = 0;
    let mut x776: FpU1 = 0;
    fp_addcarryx_u32(&mut x775, &mut x776, x774, x770, x767);
    let mut x777: u32 = 0;
    let mut x778: FpU1 = 0;
    fp_addcarryx_u32(&mut x777, &mut x778, x776, x768, x765);
    let mut x779: u32 = 0;
    let mut x780: FpU1 = 0;
    fp_addcarryx_u32(&mut x779, &mut x780, x778, x766, x763);
    let mut x781: u32 = 0;
    let mut x782: FpU1 = 0;
    fp_addcarryx_u32(&mut x781, &mut x782, x780, x764, x761);
    let mut x783: u32 = 0;
    let mut x784: FpU1 = 0;
    fp_addcarryx_u32(&mut x783, &mut x784, x782, x762, x759);
    let mut x785: u32 = 0;
    let mut x786: FpU1 = 0;
    fp_addcarryx_u32(&mut x785, &mut x786, x784, x760, x757);
    let mut x787: u32 = 0;
    let mut x788: FpU1 = 0;
    fp_addcarryx_u32(&mut x787, &mut x788, x786, x758, x755);
    let mut x789: u32 = 0;
    let mut x790: FpU1 = 0;
    fp_addcarryx_u32(&mut x789, &mut x790, x788, x756, x753);
    let mut x791: u32 = 0;
    let mut x792: FpU1 = 0;
    fp_addcarryx_u32(&mut x791, &mut x792, x790, x754, x751);
    let mut x793: u32 = 0;
    let mut x794: FpU1 = 0;
    fp_addcarryx_u32(&mut x793, &mut x794, 0x0, x725, x749);
    let mut x795: u32 = 0;
    let mut x796: FpU1 = 0;
    fp_addcarryx_u32(&mut x795, &mut x796, x794, x727, x771);
    let mut x797: u32 = 0;
    let mut x798: FpU1 = 0;
    fp_addcarryx_u32(&mut x797, &mut x798, x796, x729, x773);
    let mut x799: u32 = 0;
    let mut x800: FpU1 = 0;
    fp_addcarryx_u32(&mut x799, &mut x800, x798, x731, x775);
    let mut x801: u32 = 0;
    let mut x802: FpU1 = 0;
    fp_addcarryx_u32(&mut x801, &mut x802, x800, x733, x777);
    let mut x803: u32 = 0;
    let mut x804: FpU1 = 0;
    fp_addcarryx_u32(&mut x803, &mut x804, x802, x735, x779);
    let mut x805: u32 = 0;
    let mut x806: FpU1 = 0;
    fp_addcarryx_u32(&mut x805, &mut x806, x804, x737, x781);
    let mut x807: u32 = 0;
    let mut x808: FpU1 = 0;
    fp_addcarryx_u32(&mut x807, &mut x808, x806, x739, x783);
    let mut x809: u32 = 0;
    let mut x810: FpU1 = 0;
    fp_addcarryx_u32(&mut x809, &mut x810, x808, x741, x785);
    let mut x811: u32 = 0;
    let mut x812: FpU1 = 0;
    fp_addcarryx_u32(&mut x811, &mut x812, x810, x743, x787);
    let mut x813: u32 = 0;
    let mut x814: FpU1 = 0;
    fp_addcarryx_u32(&mut x813, &mut x814, x812, x745, x789);
    let mut x815: u32 = 0;
    let mut x816: FpU1 = 0;
    fp_addcarryx_u32(&mut x815, &mut x816, x814, x747, x791);
    let mut x817: u32 = 0;
    let mut x818: u32 = 0;
    fp_mulx_u32(&mut x817, &mut x818, x6, 0x6dfccb);
    let mut x819: u32 = 0;
    let mut x820: u32 = 0;
    fp_mulx_u32(&mut x819, &mut x820, x6, 0x1e914b88);
    let mut x821: u32 = 0;
    let mut x822: u32 = 0;
    fp_mulx_u32(&mut x821, &mut x822, x6, 0x837e92f0);
    let mut x823: u32 = 0;
    let mut x824: u32 = 0;
    fp_mulx_u32(&mut x823, &mut x824, x6, 0x41790bf9);
    let mut x825: u32 = 0;
    let mut x826: u32 = 0;
    fp_mulx_u32(&mut x825, &mut x826, x6, 0xbfdf7d03);
    let mut x827: u32 = 0;
    let mut x828: u32 = 0;
    fp_mulx_u32(&mut x827, &mut x828, x6, 0x827dc3ac);
    let mut x829: u32 = 0;
    let mut x830: u32 = 0;
    fp_mulx_u32(&mut x829, &mut x830, x6, 0x22a5f111);
    let mut x831: u32 = 0;
    let mut x832: u32 = 0;
    fp_mulx_u32(&mut x831, &mut x832, x6, 0x62d6b46d);
    let mut x833: u32 = 0;
    let mut x834: u32 = 0;
    fp_mulx_u32(&mut x833, &mut x834, x6, 0x329fcaa);
    let mut x835: u32 = 0;
    let mut x836: u32 = 0;
    fp_mulx_u32(&mut x835, &mut x836, x6, 0xb00431b1);
    let mut x837: u32 = 0;
    let mut x838: u32 = 0;
    fp_mulx_u32(&mut x837, &mut x838, x6, 0xb786686c);
    let mut x839: u32 = 0;
    let mut x840: u32 = 0;
    fp_mulx_u32(&mut x839, &mut x840, x6, 0x9400cd22);
    let mut x841: u32 = 0;
    let mut x842: FpU1 = 0;
    fp_addcarryx_u32(&mut x841, &mut x842, 0x0, x840, x837);
    let mut x843: u32 = 0;
    let mut x844: FpU1 = 0;
    fp_addcarryx_u32(&mut x843, &mut x844, x842, x838, x835);
    let mut x845: u32 = 0;
    let mut x846: FpU1 = 0;
    fp_addcarryx_u32(&mut x845, &mut x846, x844, x836, x833);
    let mut x847: u32 = 0;
    let mut x848: FpU1 = 0;
    fp_addcarryx_u32(&mut x847, &mut x848, x846, x834, x831);
    let mut x849: u32 = 0;
    let mut x850: FpU1 = 0;
    fp_addcarryx_u32(&mut x849, &mut x850, x848, x832, x829);
    let mut x851: u32 = 0;
    let mut x852: FpU1 = 0;
    fp_addcarryx_u32(&mut x851, &mut x852, x850, x830, x827);
    let mut x853: u32 = 0;
    let mut x854: FpU1 = 0;
    fp_addcarryx_u32(&mut x853, &mut x854, x852, x828, x825);
    let mut x855: u32 = 0;
    let mut x856: FpU1 = 0;
    fp_addcarryx_u32(&mut x855, &mut x856, x854, x826, x823);
    let mut x857: u32 = 0;
    let mut x858: FpU1 = 0;
    fp_addcarryx_u32(&mut x857, &mut x858, x856, x824, x821);
    let mut x859: u32 = 0;
    let mut x860: FpU1 = 0;
    fp_addcarryx_u32(&mut x859, &mut x860, x858, x822, x819);
    let mut x861: u32 = 0;
    let mut x862: FpU1 = 0;
    fp_addcarryx_u32(&mut x861, &mut x862, x860, x820, x817);
    let mut x863: u32 = 0;
    let mut x864: FpU1 = 0;
    fp_addcarryx_u32(&mut x863, &mut x864, 0x0, x795, x839);
    let mut x865: u32 = 0;
    let mut x866: FpU1 = 0;
    fp_addcarryx_u32(&mut x865, &mut x866, x864, x797, x841);
    let mut x867: u32 = 0;
    let mut x868: FpU1 = 0;
    fp_addcarryx_u32(&mut x867, &mut x868, x866, x799, x843);
    let mut x869: u32 = 0;
    let mut x870: FpU1 = 0;
    fp_addcarryx_u32(&mut x869, &mut x870, x868, x801, x845);
    let mut x871: u32 = 0;
    let mut x872: FpU1 = 0;
    fp_addcarryx_u32(&mut x871, &mut x872, x870, x803, x847);
    let mut x873: u32 = 0;
    let mut x874: FpU1 = 0;
    fp_addcarryx_u32(&mut x873, &mut x874, x872, x805, x849);
    let mut x875: u32 = 0;
    let mut x876: FpU1 = 0;
    fp_addcarryx_u32(&mut x875, &mut x876, x874, x807, x851);
    let mut x877: u32 = 0;
    let mut x878: FpU1 = 0;
    fp_addcarryx_u32(&mut x877, &mut x878, x876, x809, x853);
    let mut x879: u32 = 0;
    let mut x880: FpU1 = 0;
    fp_addcarryx_u32(&mut x879, &mut x880, x878, x811, x855);
    let mut x881: u32 = 0;
    let mut x882: FpU1 = 0;
    fp_addcarryx_u32(&mut x881, &mut x882, x880, x813, x857);
    let mut x883: u32 = 0;
    let mut x884: FpU1 = 0;
    fp_addcarryx_u32(&mut x883, &mut x884, x882, x815, x859);
    let mut x885: u32 = 0;
    let mut x886: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x885,
        &mut x886,
        x884,
        (((x816 as u32) + ((x748 as u32) + ((x724 as u32) + x680))) + ((x792 as u32) + x752)),
        x861,
    );
    let mut x887: u32 = 0;
    let mut x888: u32 = 0;
    fp_mulx_u32(&mut x887, &mut x888, x863, 0xffffffff);
    let mut x889: u32 = 0;
    let mut x890: u32 = 0;
    fp_mulx_u32(&mut x889, &mut x890, x887, 0x1ae3a46);
    let mut x891: u32 = 0;
    let mut x892: u32 = 0;
    fp_mulx_u32(&mut x891, &mut x892, x887, 0x17c510ea);
    let mut x893: u32 = 0;
    let mut x894: u32 = 0;
    fp_mulx_u32(&mut x893, &mut x894, x887, 0xc63b05c0);
    let mut x895: u32 = 0;
    let mut x896: u32 = 0;
    fp_mulx_u32(&mut x895, &mut x896, x887, 0x6ca1493b);
    let mut x897: u32 = 0;
    let mut x898: u32 = 0;
    fp_mulx_u32(&mut x897, &mut x898, x887, 0x1a22d9f3);
    let mut x899: u32 = 0;
    let mut x900: u32 = 0;
    fp_mulx_u32(&mut x899, &mut x900, x887, 0xf5138f);
    let mut x901: u32 = 0;
    let mut x902: u32 = 0;
    fp_mulx_u32(&mut x901, &mut x902, x887, 0x1ef3622f);
    let mut x903: u32 = 0;
    let mut x904: u32 = 0;
    fp_mulx_u32(&mut x903, &mut x904, x887, 0xba094800);
    let mut x905: u32 = 0;
    let mut x906: u32 = 0;
    fp_mulx_u32(&mut x905, &mut x906, x887, 0x170b5d44);
    let mut x907: u32 = 0;
    let mut x908: u32 = 0;
    fp_mulx_u32(&mut x907, &mut x908, x887, 0x30000000);
    let mut x909: u32 = 0;
    let mut x910: u32 = 0;
    fp_mulx_u32(&mut x909, &mut x910, x887, 0x8508c000);
    let mut x911: u32 = 0;
    let mut x912: FpU1 = 0;
    fp_addcarryx_u32(&mut x911, &mut x912, 0x0, x910, x907);
    let mut x913: u32 = 0;
    let mut x914: FpU1 = 0;
    fp_addcarryx_u32(&mut x913, &mut x914, x912, x908, x905);
    let mut x915: u32 = 0;
    let mut x916: FpU1 = 0;
    fp_addcarryx_u32(&mut x915, &mut x916, x914, x906, x903);
    let mut x917: u32 = 0;
    let mut x918: FpU1 = 0;
    fp_addcarryx_u32(&mut x917, &mut x918, x916, x904, x901);
    let mut x919: u32 = 0;
    let mut x920: FpU1 = 0;
    fp_addcarryx_u32(&mut x919, &mut x920, x918, x902, x899);
    let mut x921: u32 = 0;
    let mut x922: FpU1 = 0;
    fp_addcarryx_u32(&mut x921, &mut x922, x920, x900, x897);
    let mut x923: u32 = 0;
    let mut x924: FpU1 = 0;
    fp_addcarryx_u32(&mut x923, &mut x924, x922, x898, x895);
    let mut x925: u32 = 0;
    let mut x926: FpU1 = 0;
    fp_addcarryx_u32(&mut x925, &mut x926, x924, x896, x893);
    let mut x927: u32 = 0;
    let mut x928: FpU1 = 0;
    fp_addcarryx_u32(&mut x927, &mut x928, x926, x894, x891);
    let mut x929: u32 = 0;
    let mut x930: FpU1 = 0;
    fp_addcarryx_u32(&mut x929, &mut x930, x928, x892, x889);
    let mut x931: u32 = 0;
    let mut x932: FpU1 = 0;
    fp_addcarryx_u32(&mut x931, &mut x932, 0x0, x863, x887);
    let mut x933: u32 = 0;
    let mut x934: FpU1 = 0;
    fp_addcarryx_u32(&mut x933, &mut x934, x932, x865, x909);
    let mut x935: u32 = 0;
    let mut x936: FpU1 = 0;
    fp_addcarryx_u32(&mut x935, &mut x936, x934, x867, x911);
    let mut x937: u32 = 0;
    let mut x938: FpU1 = 0;
    fp_addcarryx_u32(&mut x937, &mut x938, x936, x869, x913);
    let mut x939: u32 = 0;
    let mut x940: FpU1 = 0;
    fp_addcarryx_u32(&mut x939, &mut x940, x938, x871, x915);
    let mut x941: u32 = 0;
    let mut x942: FpU1 = 0;
    fp_addcarryx_u32(&mut x941, &mut x942, x940, x873, x917);
    let mut x943: u32 = 0;
    let mut x944: FpU1 = 0;
    fp_addcarryx_u32(&mut x943, &mut x944, x942, x875, x919);
    let mut x945: u32 = 0;
    let mut x946: FpU1 = 0;
    fp_addcarryx_u32(&mut x945, &mut x946, x944, x877, x921);
    let mut x947: u32 = 0;
    let mut x948: FpU1 = 0;
    fp_addcarryx_u32(&mut x947, &mut x948, x946, x879, x923);
    let mut x949: u32 = 0;
    let mut x950: FpU1 = 0;
    fp_addcarryx_u32(&mut x949, &mut x950, x948, x881, x925);
    let mut x951: u32 = 0;
    let mut x952: FpU1 = 0;
    fp_addcarryx_u32(&mut x951, &mut x952, x950, x883, x927);
    let mut x953: u32 = 0;
    let mut x954: FpU1 = 0;
    fp_addcarryx_u32(&mut x953, &mut x954, x952, x885, x929);
    let mut x955: u32 = 0;
    let mut x956: u32 = 0;
    fp_mulx_u32(&mut x955, &mut x956, x7, 0x6dfccb);
    let mut x957: u32 = 0;
    let mut x958: u32 = 0;
    fp_mulx_u32(&mut x957, &mut x958, x7, 0x1e914b88);
    let mut x959: u32 = 0;
    let mut x960: u32 = 0;
    fp_mulx_u32(&mut x959, &mut x960, x7, 0x837e92f0);
    let mut x961: u32 = 0;
    let mut x962: u32 = 0;
    fp_mulx_u32(&mut x961, &mut x962, x7, 0x41790bf9);
    let mut x963: u32 = 0;
    let mut x964: u32 = 0;
    fp_mulx_u32(&mut x963, &mut x964, x7, 0xbfdf7d03);
    let mut x965: u32 = 0;
    let mut x966: u32 = 0;
    fp_mulx_u32(&mut x965, &mut x966, x7, 0x827dc3ac);
    let mut x967: u32 = 0;
    let mut x968: u32 = 0;
    fp_mulx_u32(&mut x967, &mut x968, x7, 0x22a5f111);
    let mut x969: u32 = 0;
    let mut x970: u32 = 0;
    fp_mulx_u32(&mut x969, &mut x970, x7, 0x62d6b46d);
    let mut x971: u32 = 0;
    let mut x972: u32 = 0;
    fp_mulx_u32(&mut x971, &mut x972, x7, 0x329fcaa);
    let mut x973: u32 = 0;
    let mut x974: u32 = 0;
    fp_mulx_u32(&mut x973, &mut x974, x7, 0xb00431b1);
    let mut x975: u32 = 0;
    let mut x976: u32 = 0;
    fp_mulx_u32(&mut x975, &mut x976, x7, 0xb786686c);
    let mut x977: u32 = 0;
    let mut x978: u32 = 0;
    fp_mulx_u32(&mut x977, &mut x978, x7, 0x9400cd22);
    let mut x979: u32 = 0;
    let mut x980: FpU1 = 0;
    fp_addcarryx_u32(&mut x979, &mut x980, 0x0, x978, x975);
    let mut x981: u32 = 0;
    let mut x982: FpU1 = 0;
    fp_addcarryx_u32(&mut x981, &mut x982, x980, x976, x973);
    let mut x983: u32 = 0;
    let mut x984: FpU1 = 0;
    fp_addcarryx_u32(&mut x983, &mut x984, x982, x974, x971);
    let mut x985: u32 = 0;
    let mut x986: FpU1 = 0;
    fp_addcarryx_u32(&mut x985, &mut x986, x984, x972, x969);
    let mut x987: u32 = 0;
    let mut x988: FpU1 = 0;
    fp_addcarryx_u32(&mut x987, &mut x988, x986, x970, x967);
    let mut x989: u32 = 0;
    let mut x990: FpU1 = 0;
    fp_addcarryx_u32(&mut x989, &mut x990, x988, x968, x965);
    let mut x991: u32 = 0;
    let mut x992: FpU1 = 0;
    fp_addcarryx_u32(&mut x991, &mut x992, x990, x966, x963);
    let mut x993: u32 = 0;
    let mut x994: FpU1 = 0;
    fp_addcarryx_u32(&mut x993, &mut x994, x992, x964, x961);
    let mut x995: u32 = 0;
    let mut x996: FpU1 = 0;
    fp_addcarryx_u32(&mut x995, &mut x996, x994, x962, x959);
    let mut x997: u32 = 0;
    let mut x998: FpU1 = 0;
    fp_addcarryx_u32(&mut x997, &mut x998, x996, x960, x957);
    let mut x999: u32 = 0;
    let mut x1000: FpU1 = 0;
    fp_addcarryx_u32(&mut x999, &mut x1000, x998, x958, x955);
    let mut x1001: u32 = 0;
    let mut x1002: FpU1 = 0;
    fp_addcarryx_u32(&mut x1001, &mut x1002, 0x0, x933, x977);
    let mut x1003: u32 = 0;
    let mut x1004: FpU1 = 0;
    fp_addcarryx_u32(&mut x1003, &mut x1004, x1002, x935, x979);
    let mut x1005: u32 = 0;
    let mut x1006: FpU1 = 0;
    fp_addcarryx_u32(&mut x1005, &mut x1006, x1004, x937, x981);
    let mut x1007: u32 = 0;
    let mut x1008: FpU1 = 0;
    fp_addcarryx_u32(&mut x1007, &mut x1008, x1006, x939, x983);
    let mut x1009: u32 = 0;
    let mut x1010: FpU1 = 0;
    fp_addcarryx_u32(&mut x1009, &mut x1010, x1008, x941, x985);
    let mut x1011: u32 = 0;
    let mut x1012: FpU1 = 0;
    fp_addcarryx_u32(&mut x1011, &mut x1012, x1010, x943, x987);
    let mut x1013: u32 = 0;
    let mut x1014: FpU1 = 0;
    fp_addcarryx_u32(&mut x1013, &mut x1014, x1012, x945, x989);
    let mut x1015: u32 = 0;
    let mut x1016: FpU1 = 0;
    fp_addcarryx_u32(&mut x1015, &mut x1016, x1014, x947, x991);
    let mut x1017: u32 = 0;
    let mut x1018: FpU1 = 0;
    fp_addcarryx_u32(&mut x1017, &mut x1018, x1016, x949, x993);
    let mut x1019: u32 = 0;
    let mut x1020: FpU1 = 0;
    fp_addcarryx_u32(&mut x1019, &mut x1020, x1018, x951, x995);
    let mut x1021: u32 = 0;
    let mut x1022: FpU1 = 0;
    fp_addcarryx_u32(&mut x1021, &mut x1022, x1020, x953, x997);
    let mut x1023: u32 = 0;
    let mut x1024: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x1023,
        &mut x1024,
        x1022,
        (((x954 as u32) + ((x886 as u32) + ((x862 as u32) + x818))) + ((x930 as u32) + x890)),
        x999,
    );
    let mut x1025: u32 = 0;
    let mut x1026: u32 = 0;
    fp_mulx_u32(&mut x1025, &mut x1026, x1001, 0xffffffff);
    let mut x1027: u32 = 0;
    let mut x1028: u32 = 0;
    fp_mulx_u32(&mut x1027, &mut x1028, x1025, 0x1ae3a46);
    let mut x1029: u32 = 0;
    let mut x1030: u32 = 0;
    fp_mulx_u32(&mut x1029, &mut x1030, x1025, 0x17c510ea);
    let mut x1031: u32 = 0;
    let mut x1032: u32 = 0;
    fp_mulx_u32(&mut x1031, &mut x1032, x1025, 0xc63b05c0);
    let mut x1033: u32 = 0;
    let mut x1034: u32 = 0;
    fp_mulx_u32(&mut x1033, &mut x1034, x1025, 0x6ca1493b);
    let mut x1035: u32 = 0;
    let mut x1036: u32 = 0;
    fp_mulx_u32(&mut x1035, &mut x1036, x1025, 0x1a22d9f3);
    let mut x1037: u32 = 0;
    let mut x1038: u32 = 0;
    fp_mulx_u32(&mut x1037, &mut x1038, x1025, 0xf5138f);
    let mut x1039: u32 = 0;
    let mut x1040: u32 = 0;
    fp_mulx_u32(&mut x1039, &mut x1040, x1025, 0x1ef3622f);
    let mut x1041: u32 = 0;
    let mut x1042: u32 = 0;
    fp_mulx_u32(&mut x1041, &mut x1042, x1025, 0xba094800);
    let mut x1043: u32 = 0;
    let mut x1044: u32 = 0;
    fp_mulx_u32(&mut x1043, &mut x1044, x1025, 0x170b5d44);
    let mut x1045: u32 = 0;
    let mut x1046: u32 = 0;
    fp_mulx_u32(&mut x1045, &mut x1046, x1025, 0x30000000);
    let mut x1047: u32 = 0;
    let mut x1048: u32 = 0;
    fp_mulx_u32(&mut x1047, &mut x1048, x1025, 0x8508c000);
    let mut x1049: u32 = 0;
    let mut x1050: FpU1 = 0;
    fp_addcarryx_u32(&mut x1049, &mut x1050, 0x0, x1048, x1045);
    let mut x1051: u32 = 0;
    let mut x1052: FpU1 = 0;
    fp_addcarryx_u32(&mut x1051, &mut x1052, x1050, x1046, x1043);
    let mut x1053: u32 = 0;
    let mut x1054: FpU1 = 0;
    fp_addcarryx_u32(&mut x1053, &mut x1054, x1052, x1044, x1041);
    let mut x1055: u32 = 0;
    let mut x1056: FpU1 = 0;
    fp_addcarryx_u32(&mut x1055, &mut x1056, x1054, x1042, x1039);
    let mut x1057: u32 = 0;
    let mut x1058: FpU1 = 0;
    fp_addcarryx_u32(&mut x1057, &mut x1058, x1056, x1040, x1037);
    let mut x1059: u32 = 0;
    let mut x1060: FpU1 = 0;
    fp_addcarryx_u32(&mut x1059, &mut x1060, x1058, x1038, x1035);
    let mut x1061: u32 = 0;
    let mut x1062: FpU1 = 0;
    fp_addcarryx_u32(&mut x1061, &mut x1062, x1060, x1036, x1033);
    let mut x1063: u32 = 0;
    let mut x1064: FpU1 = 0;
    fp_addcarryx_u32(&mut x1063, &mut x1064, x1062, x1034, x1031);
    let mut x1065: u32 = 0;
    let mut x1066: FpU1 = 0;
    fp_addcarryx_u32(&mut x1065, &mut x1066, x1064, x1032, x1029);
    let mut x1067: u32 = 0;
    let mut x1068: FpU1 = 0;
    fp_addcarryx_u32(&mut x1067, &mut x1068, x1066, x1030, x1027);
    let mut x1069: u32 = 0;
    let mut x1070: FpU1 = 0;
    fp_addcarryx_u32(&mut x1069, &mut x1070, 0x0, x1001, x1025);
    let mut x1071: u32 = 0;
    let mut x1072: FpU1 = 0;
    fp_addcarryx_u32(&mut x1071, &mut x1072, x1070, x1003, x1047);
    let mut x1073: u32 = 0;
    let mut x1074: FpU1 = 0;
    fp_addcarryx_u32(&mut x1073, &mut x1074, x1072, x1005, x1049);
    let mut x1075: u32 = 0;
    let mut x1076: FpU1 = 0;
    fp_addcarryx_u32(&mut x1075, &mut x1076, x1074, x1007, x1051);
    let mut x1077: u32 = 0;
    let mut x1078: FpU1 = 0;
    fp_addcarryx_u32(&mut x1077, &mut x1078, x1076, x1009, x1053);
    let mut x1079: u32 = 0;
    let mut x1080: FpU1 = 0;
    fp_addcarryx_u32(&mut x1079, &mut x1080, x1078, x1011, x1055);
    let mut x1081: u32 = 0;
    let mut x1082: FpU1 = 0;
    fp_addcarryx_u32(&mut x1081, &mut x1082, x1080, x1013, x1057);
    let mut x1083: u32 = 0;
    let mut x1084: FpU1 = 0;
    fp_addcarryx_u32(&mut x1083, &mut x1084, x1082, x1015, x1059);
    let mut x1085: u32 = 0;
    let mut x1086: FpU1 = 0;
    fp_addcarryx_u32(&mut x1085, &mut x1086, x1084, x1017, x1061);
    let mut x1087: u32 = 0;
    let mut x1088: FpU1 = 0;
    fp_addcarryx_u32(&mut x1087, &mut x1088, x1086, x1019, x1063);
    let mut x1089: u32 = 0;
    let mut x1090: FpU1 = 0;
    fp_addcarryx_u32(&mut x1089, &mut x1090, x1088, x1021, x1065);
    let mut x1091: u32 = 0;
    let mut x1092: FpU1 = 0;
    fp_addcarryx_u32(&mut x1091, &mut x1092, x1090, x1023, x1067);
    let mut x1093: u32 = 0;
    let mut x1094: u32 = 0;
    fp_mulx_u32(&mut x1093, &mut x1094, x8, 0x6dfccb);
    let mut x1095: u32 = 0;
    let mut x1096: u32 = 0;
    fp_mulx_u32(&mut x1095, &mut x1096, x8, 0x1e914b88);
    let mut x1097: u32 = 0;
    let mut x1098: u32 = 0;
    fp_mulx_u32(&mut x1097, &mut x1098, x8, 0x837e92f0);
    let mut x1099: u32 = 0;
    let mut x1100: u32 = 0;
    fp_mulx_u32(&mut x1099, &mut x1100, x8, 0x41790bf9);
    let mut x1101: u32 = 0;
    let mut x1102: u32 = 0;
    fp_mulx_u32(&mut x1101, &mut x1102, x8, 0xbfdf7d03);
    let mut x1103: u32 = 0;
    let mut x1104: u32 = 0;
    fp_mulx_u32(&mut x1103, &mut x1104, x8, 0x827dc3ac);
    let mut x1105: u32 = 0;
    let mut x1106: u32 = 0;
    fp_mulx_u32(&mut x1105, &mut x1106, x8, 0x22a5f111);
    let mut x1107: u32 = 0;
    let mut x1108: u32 = 0;
    fp_mulx_u32(&mut x1107, &mut x1108, x8, 0x62d6b46d);
    let mut x1109: u32 = 0;
    let mut x1110: u32 = 0;
    fp_mulx_u32(&mut x1109, &mut x1110, x8, 0x329fcaa);
    let mut x1111: u32 = 0;
    let mut x1112: u32 = 0;
    fp_mulx_u32(&mut x1111, &mut x1112, x8, 0xb00431b1);
    let mut x1113: u32 = 0;
    let mut x1114: u32 = 0;
    fp_mulx_u32(&mut x1113, &mut x1114, x8, 0xb786686c);
    let mut x1115: u32 = 0;
    let mut x1116: u32 = 0;
    fp_mulx_u32(&mut x1115, &mut x1116, x8, 0x9400cd22);
    let mut x1117: u32 = 0;
    let mut x1118: FpU1 = 0;
    fp_addcarryx_u32(&mut x1117, &mut x1118, 0x0, x1116, x1113);
    let mut x1119: u32 = 0;
    let mut x1120: FpU1 = 0;
    fp_addcarryx_u32(&mut x1119, &mut x1120, x1118, x1114, x1111);
    let mut x1121: u32 = 0;
    let mut x1122: FpU1 = 0;
    fp_addcarryx_u32(&mut x1121, &mut x1122, x1120, x1112, x1109);
    let mut x1123: u32 = 0;
    let mut x1124: FpU1 = 0;
    fp_addcarryx_u32(&mut x1123, &mut x1124, x1122, x1110, x1107);
    let mut x1125: u32 = 0;
    let mut x1126: FpU1 = 0;
    fp_addcarryx_u32(&mut x1125, &mut x1126, x1124, x1108, x1105);
    let mut x1127: u32 = 0;
    let mut x1128: FpU1 = 0;
    fp_addcarryx_u32(&mut x1127, &mut x1128, x1126, x1106, x1103);
    let mut x1129: u32 = 0;
    let mut x1130: FpU1 = 0;
    fp_addcarryx_u32(&mut x1129, &mut x1130, x1128, x1104, x1101);
    let mut x1131: u32 = 0;
    let mut x1132: FpU1 = 0;
    fp_addcarryx_u32(&mut x1131, &mut x1132, x1130, x1102, x1099);
    let mut x1133: u32 = 0;
    let mut x1134: FpU1 = 0;
    fp_addcarryx_u32(&mut x1133, &mut x1134, x1132, x1100, x1097);
    let mut x1135: u32 = 0;
    let mut x1136: FpU1 = 0;
    fp_addcarryx_u32(&mut x1135, &mut x1136, x1134, x1098, x1095);
    let mut x1137: u32 = 0;
    let mut x1138: FpU1 = 0;
    fp_addcarryx_u32(&mut x1137, &mut x1138, x1136, x1096, x1093);
    let mut x1139: u32 = 0;
    let mut x1140: FpU1 = 0;
    fp_addcarryx_u32(&mut x1139, &mut x1140, 0x0, x1071, x1115);
    let mut x1141: u32 = 0;
    let mut x1142: FpU1 = 0;
    fp_addcarryx_u32(&mut x1141, &mut x1142, x1140, x1073, x1117);
    let mut x1143: u32 = 0;
    let mut x1144: FpU1 = 0;
    fp_addcarryx_u32(&mut x1143, &mut x1144, x1142, x1075, x1119);
    let mut x1145: u32 = 0;
    let mut x1146: FpU1 = 0;
    fp_addcarryx_u32(&mut x1145, &mut x1146, x1144, x1077, x1121);
    let mut x1147: u32 = 0;
    let mut x1148: FpU1 = 0;
    fp_addcarryx_u32(&mut x1147, &mut x1148, x1146, x1079, x1123);
    let mut x1149: u32 = 0;
    let mut x1150: FpU1 = 0;
    fp_addcarryx_u32(&mut x1149, &mut x1150, x1148, x1081, x1125);
    let mut x1151: u32 = 0;
    let mut x1152: FpU1 = 0;
    fp_addcarryx_u32(&mut x1151, &mut x1152, x1150, x1083, x1127);
    let mut x1153: u32 = 0;
    let mut x1154: FpU1 = 0;
    fp_addcarryx_u32(&mut x1153, &mut x1154, x1152, x1085, x1129);
    let mut x1155: u32 = 0;
    let mut x1156: FpU1 = 0;
    fp_addcarryx_u32(&mut x1155, &mut x1156, x1154, x1087, x1131);
    let mut x1157: u32 = 0;
    let mut x1158: FpU1 = 0;
    fp_addcarryx_u32(&mut x1157, &mut x1158, x1156, x1089, x1133);
    let mut x1159: u32 = 0;
    let mut x1160: FpU1 = 0;
    fp_addcarryx_u32(&mut x1159, &mut x1160, x1158, x1091, x1135);
    let mut x1161: u32 = 0;
    let mut x1162: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x1161,
        &mut x1162,
        x1160,
        (((x1092 as u32) + ((x1024 as u32) + ((x1000 as u32) + x956))) + ((x1068 as u32) + x1028)),
        x1137,
    );
    let mut x1163: u32 = 0;
    let mut x1164: u32 = 0;
    fp_mulx_u32(&mut x1163, &mut x1164, x1139, 0xffffffff);
    let mut x1165: u32 = 0;
    let mut x1166: u32 = 0;
    fp_mulx_u32(&mut x1165, &mut x1166, x1163, 0x1ae3a46);
    let mut x1167: u32 = 0;
    let mut x1168: u32 = 0;
    fp_mulx_u32(&mut x1167, &mut x1168, x1163, 0x17c510ea);
    let mut x1169: u32 = 0;
    let mut x1170: u32 = 0;
    fp_mulx_u32(&mut x1169, &mut x1170, x1163, 0xc63b05c0);
    let mut x1171: u32 = 0;
    let mut x1172: u32 = 0;
    fp_mulx_u32(&mut x1171, &mut x1172, x1163, 0x6ca1493b);
    let mut x1173: u32 = 0;
    let mut x1174: u32 = 0;
    fp_mulx_u32(&mut x1173, &mut x1174, x1163, 0x1a22d9f3);
    let mut x1175: u32 = 0;
    let mut x1176: u32 = 0;
    fp_mulx_u32(&mut x1175, &mut x1176, x1163, 0xf5138f);
    let mut x1177: u32 = 0;
    let mut x1178: u32 = 0;
    fp_mulx_u32(&mut x1177, &mut x1178, x1163, 0x1ef3622f);
    let mut x1179: u32 = 0;
    let mut x1180: u32 = 0;
    fp_mulx_u32(&mut x1179, &mut x1180, x1163, 0xba094800);
    let mut x1181: u32 = 0;
    let mut x1182: u32 = 0;
    fp_mulx_u32(&mut x1181, &mut x1182, x1163, 0x170b5d44);
    let mut x1183: u32 = 0;
    let mut x1184: u32 = 0;
    fp_mulx_u32(&mut x1183, &mut x1184, x1163, 0x30000000);
    let mut x1185: u32 = 0;
    let mut x1186: u32 = 0;
    fp_mulx_u32(&mut x1185, &mut x1186, x1163, 0x8508c000);
    let mut x1187: u32 = 0;
    let mut x1188: FpU1 = 0;
    fp_addcarryx_u32(&mut x1187, &mut x1188, 0x0, x1186, x1183);
    let mut x1189: u32 = 0;
    let mut x1190: FpU1 = 0;
    fp_addcarryx_u32(&mut x1189, &mut x1190, x1188, x1184, x1181);
    let mut x1191: u32 = 0;
    let mut x1192: FpU1 = 0;
    fp_addcarryx_u32(&mut x1191, &mut x1192, x1190, x1182, x1179);
    let mut x1193: u32 = 0;
    let mut x1194: FpU1 = 0;
    fp_addcarryx_u32(&mut x1193, &mut x1194, x1192, x1180, x1177);
    let mut x1195: u32 = 0;
    let mut x1196: FpU1 = 0;
    fp_addcarryx_u32(&mut x1195, &mut x1196, x1194, x1178, x1175);
    let mut x1197: u32 = 0;
    let mut x1198: FpU1 = 0;
    fp_addcarryx_u32(&mut x1197, &mut x1198, x1196, x1176, x1173);
    let mut x1199: u32 = 0;
    let mut x1200: FpU1 = 0;
    fp_addcarryx_u32(&mut x1199, &mut x1200, x1198, x1174, x1171);
    let mut x1201: u32 = 0;
    let mut x1202: FpU1 = 0;
    fp_addcarryx_u32(&mut x1201, &mut x1202, x1200, x1172, x1169);
    let mut x1203: u32 = 0;
    let mut x1204: FpU1 = 0;
    fp_addcarryx_u32(&mut x1203, &mut x1204, x1202, x1170, x1167);
    let mut x1205: u32 = 0;
    let mut x1206: FpU1 = 0;
    fp_addcarryx_u32(&mut x1205, &mut x1206, x1204, x1168, x1165);
    let mut x1207: u32 = 0;
    let mut x1208: FpU1 = 0;
    fp_addcarryx_u32(&mut x1207, &mut x1208, 0x0, x1139, x1163);
    let mut x1209: u32 = 0;
    let mut x1210: FpU1 = 0;
    fp_addcarryx_u32(&mut x1209, &mut x1210, x1208, x1141, x1185);
    let mut x1211: u32 = 0;
    let mut x1212: FpU1 = 0;
    fp_addcarryx_u32(&mut x1211, &mut x1212, x1210, x1143, x1187);
    let mut x1213: u32 = 0;
    let mut x1214: FpU1 = 0;
    fp_addcarryx_u32(&mut x1213, &mut x1214, x1212, x1145, x1189);
    let mut x1215: u32 = 0;
    let mut x1216: FpU1 = 0;
    fp_addcarryx_u32(&mut x1215, &mut x1216, x1214, x1147, x1191);
    let mut x1217: u32 = 0;
    let mut x1218: FpU1 = 0;
    fp_addcarryx_u32(&mut x1217, &mut x1218, x1216, x1149, x1193);
    let mut x1219: u32 = 0;
    let mut x1220: FpU1 = 0;
    fp_addcarryx_u32(&mut x1219, &mut x1220, x1218, x1151, x1195);
    let mut x1221: u32 = 0;
    let mut x1222: FpU1 = 0;
    fp_addcarryx_u32(&mut x1221, &mut x1222, x1220, x1153, x1197);
    let mut x1223: u32 = 0;
    let mut x1224: FpU1 = 0;
    fp_addcarryx_u32(&mut x1223, &mut x1224, x1222, x1155, x1199);
    let mut x1225: u32 = 0;
    let mut x1226: FpU1 = 0;
    fp_addcarryx_u32(&mut x1225, &mut x1226, x1224, x1157, x1201);
    let mut x1227: u32 = 0;
    let mut x1228: FpU1 = 0;
    fp_addcarryx_u32(&mut x1227, &mut x1228, x1226, x1159, x1203);
    let mut x1229: u32 = 0;
    let mut x1230: FpU1 = 0;
    fp_addcarryx_u32(&mut x1229, &mut x1230, x1228, x1161, x1205);
    let mut x1231: u32 = 0;
    let mut x1232: u32 = 0;
    fp_mulx_u32(&mut x1231, &mut x1232, x9, 0x6dfccb);
    let mut x1233: u32 = 0;
    let mut x1234: u32 = 0;
    fp_mulx_u32(&mut x1233, &mut x1234, x9, 0x1e914b88);
    let mut x1235: u32 = 0;
    let mut x1236: u32 = 0;
    fp_mulx_u32(&mut x1235, &mut x1236, x9, 0x837e92f0);
    let mut x1237: u32 = 0;
    let mut x1238: u32 = 0;
    fp_mulx_u32(&mut x1237, &mut x1238, x9, 0x41790bf9);
    let mut x1239: u32 = 0;
    let mut x1240: u32 = 0;
    fp_mulx_u32(&mut x1239, &mut x1240, x9, 0xbfdf7d03);
    let mut x1241: u32 = 0;
    let mut x1242: u32 = 0;
    fp_mulx_u32(&mut x1241, &mut x1242, x9, 0x827dc3ac);
    let mut x1243: u32 = 0;
    let mut x1244: u32 = 0;
    fp_mulx_u32(&mut x1243, &mut x1244, x9, 0x22a5f111);
    let mut x1245: u32 = 0;
    let mut x1246: u32 = 0;
    fp_mulx_u32(&mut x1245, &mut x1246, x9, 0x62d6b46d);
    let mut x1247: u32 = 0;
    let mut x1248: u32 = 0;
    fp_mulx_u32(&mut x1247, &mut x1248, x9, 0x329fcaa);
    let mut x1249: u32 = 0;
    let mut x1250: u32 = 0;
    fp_mulx_u32(&mut x1249, &mut x1250, x9, 0xb00431b1);
    let mut x1251: u32 = 0;
    let mut x1252: u32 = 0;
    fp_mulx_u32(&mut x1251, &mut x1252, x9, 0xb786686c);
    let mut x1253: u32 = 0;
    let mut x1254: u32 = 0;
    fp_mulx_u32(&mut x1253, &mut x1254, x9, 0x9400cd22);
    let mut x1255: u32 = 0;
    let mut x1256: FpU1 = 0;
    fp_addcarryx_u32(&mut x1255, &mut x1256, 0x0, x1254, x1251);
    let mut x1257: u32 = 0;
    let mut x1258: FpU1 = 0;
    fp_addcarryx_u32(&mut x1257, &mut x1258, x1256, x1252, x1249);
    let mut x1259: u32 = 0;
    let mut x1260: FpU1 = 0;
    fp_addcarryx_u32(&mut x1259, &mut x1260, x1258, x1250, x1247);
    let mut x1261: u32 = 0;
    let mut x1262: FpU1 = 0;
    fp_addcarryx_u32(&mut x1261, &mut x1262, x1260, x1248, x1245);
    let mut x1263: u32 = 0;
    let mut x1264: FpU1 = 0;
    fp_addcarryx_u32(&mut x1263, &mut x1264, x1262, x1246, x1243);
    let mut x1265: u32 = 0;
    let mut x1266: FpU1 = 0;
    fp_addcarryx_u32(&mut x1265, &mut x1266, x1264, x1244, x1241);
    let mut x1267: u32 = 0;
    let mut x1268: FpU1 = 0;
    fp_addcarryx_u32(&mut x1267, &mut x1268, x1266, x1242, x1239);
    let mut x1269: u32 = 0;
    let mut x1270: FpU1 = 0;
    fp_addcarryx_u32(&mut x1269, &mut x1270, x1268, x1240, x1237);
    let mut x1271: u32 = 0;
    let mut x1272: FpU1 = 0;
    fp_addcarryx_u32(&mut x1271, &mut x1272, x1270, x1238, x1235);
    let mut x1273: u32 = 0;
    let mut x1274: FpU1 = 0;
    fp_addcarryx_u32(&mut x1273, &mut x1274, x1272, x1236, x1233);
    let mut x1275: u32 = 0;
    let mut x1276: FpU1 = 0;
    fp_addcarryx_u32(&mut x1275, &mut x1276, x1274, x1234, x1231);
    let mut x1277: u32 = 0;
    let mut x1278: FpU1 = 0;
    fp_addcarryx_u32(&mut x1277, &mut x1278, 0x0, x1209, x1253);
    let mut x1279: u32 = 0;
    let mut x1280: FpU1 = 0;
    fp_addcarryx_u32(&mut x1279, &mut x1280, x1278, x1211, x1255);
    let mut x1281: u32 = 0;
    let mut x1282: FpU1 = 0;
    fp_addcarryx_u32(&mut x1281, &mut x1282, x1280, x1213, x1257);
    let mut x1283: u32 = 0;
    let mut x1284: FpU1 = 0;
    fp_addcarryx_u32(&mut x1283, &mut x1284, x1282, x1215, x1259);
    let mut x1285: u32 = 0;
    let mut x1286: FpU1 = 0;
    fp_addcarryx_u32(&mut x1285, &mut x1286, x1284, x1217, x1261);
    let mut x1287: u32 = 0;
    let mut x1288: FpU1 = 0;
    fp_addcarryx_u32(&mut x1287, &mut x1288, x1286, x1219, x1263);
    let mut x1289: u32 = 0;
    let mut x1290: FpU1 = 0;
    fp_addcarryx_u32(&mut x1289, &mut x1290, x1288, x1221, x1265);
    let mut x1291: u32 = 0;
    let mut x1292: FpU1 = 0;
    fp_addcarryx_u32(&mut x1291, &mut x1292, x1290, x1223, x1267);
    let mut x1293: u32 = 0;
    let mut x1294: FpU1 = 0;
    fp_addcarryx_u32(&mut x1293, &mut x1294, x1292, x1225, x1269);
    let mut x1295: u32 = 0;
    let mut x1296: FpU1 = 0;
    fp_addcarryx_u32(&mut x1295, &mut x1296, x1294, x1227, x1271);
    let mut x1297: u32 = 0;
    let mut x1298: FpU1 = 0;
    fp_addcarryx_u32(&mut x1297, &mut x1298, x1296, x1229, x1273);
    let mut x1299: u32 = 0;
    let mut x1300: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x1299,
        &mut x1300,
        x1298,
        (((x1230 as u32) + ((x1162 as u32) + ((x1138 as u32) + x1094))) + ((x1206 as u32) + x1166)),
        x1275,
    );
    let mut x1301: u32 = 0;
    let mut x1302: u32 = 0;
    fp_mulx_u32(&mut x1301, &mut x1302, x1277, 0xffffffff);
    let mut x1303: u32 = 0;
    let mut x1304: u32 = 0;
    fp_mulx_u32(&mut x1303, &mut x1304, x1301, 0x1ae3a46);
    let mut x1305: u32 = 0;
    let mut x1306: u32 = 0;
    fp_mulx_u32(&mut x1305, &mut x1306, x1301, 0x17c510ea);
    let mut x1307: u32 = 0;
    let mut x1308: u32 = 0;
    fp_mulx_u32(&mut x1307, &mut x1308, x1301, 0xc63b05c0);
    let mut x1309: u32 = 0;
    let mut x1310: u32 = 0;
    fp_mulx_u32(&mut x1309, &mut x1310, x1301, 0x6ca1493b);
    let mut x1311: u32 = 0;
    let mut x1312: u32 = 0;
    fp_mulx_u32(&mut x1311, &mut x1312, x1301, 0x1a22d9f3);
    let mut x1313: u32 = 0;
    let mut x1314: u32 = 0;
    fp_mulx_u32(&mut x1313, &mut x1314, x1301, 0xf5138f);
    let mut x1315: u32 = 0;
    let mut x1316: u32 = 0;
    fp_mulx_u32(&mut x1315, &mut x1316, x1301, 0x1ef3622f);
    let mut x1317: u32 = 0;
    let mut x1318: u32 = 0;
    fp_mulx_u32(&mut x1317, &mut x1318, x1301, 0xba094800);
    let mut x1319: u32 = 0;
    let mut x1320: u32 = 0;
    fp_mulx_u32(&mut x1319, &mut x1320, x1301, 0x170b5d44);
    let mut x1321: u32 = 0;
    let mut x1322: u32 = 0;
    fp_mulx_u32(&mut x1321, &mut x1322, x1301, 0x30000000);
    let mut x1323: u32 = 0;
    let mut x1324: u32 = 0;
    fp_mulx_u32(&mut x1323, &mut x1324, x1301, 0x8508c000);
    let mut x1325: u32 = 0;
    let mut x1326: FpU1 = 0;
    fp_addcarryx_u32(&mut x1325, &mut x1326, 0x0, x1324, x1321);
    let mut x1327: u32 = 0;
    let mut x1328: FpU1 = 0;
    fp_addcarryx_u32(&mut x1327, &mut x1328, x1326, x1322, x1319);
    let mut x1329: u32 = 0;
    let mut x1330: FpU1 = 0;
    fp_addcarryx_u32(&mut x1329, &mut x1330, x1328, x1320, x1317);
    let mut x1331: u32 = 0;
    let mut x1332: FpU1 = 0;
    fp_addcarryx_u32(&mut x1331, &mut x1332, x1330, x1318, x1315);
    let mut x1333: u32 = 0;
    let mut x1334: FpU1 = 0;
    fp_addcarryx_u32(&mut x1333, &mut x1334, x1332, x1316, x1313);
    let mut x1335: u32 = 0;
    let mut x1336: FpU1 = 0;
    fp_addcarryx_u32(&mut x1335, &mut x1336, x1334, x1314, x1311);
    let mut x1337: u32 = 0;
    let mut x1338: FpU1 = 0;
    fp_addcarryx_u32(&mut x1337, &mut x1338, x1336, x1312, x1309);
    let mut x1339: u32 = 0;
    let mut x1340: FpU1 = 0;
    fp_addcarryx_u32(&mut x1339, &mut x1340, x1338, x1310, x1307);
    let mut x1341: u32 = 0;
    let mut x1342: FpU1 = 0;
    fp_addcarryx_u32(&mut x1341, &mut x1342, x1340, x1308, x1305);
    let mut x1343: u32 = 0;
    let mut x1344: FpU1 = 0;
    fp_addcarryx_u32(&mut x1343, &mut x1344, x1342, x1306, x1303);
    let mut x1345: u32 = 0;
    let mut x1346: FpU1 = 0;
    fp_addcarryx_u32(&mut x1345, &mut x1346, 0x0, x1277, x1301);
    let mut x1347: u32 = 0;
    let mut x1348: FpU1 = 0;
    fp_addcarryx_u32(&mut x1347, &mut x1348, x1346, x1279, x1323);
    let mut x1349: u32 = 0;
    let mut x1350: FpU1 = 0;
    fp_addcarryx_u32(&mut x1349, &mut x1350, x1348, x1281, x1325);
    let mut x1351: u32 = 0;
    let mut x1352: FpU1 = 0;
    fp_addcarryx_u32(&mut x1351, &mut x1352, x1350, x1283, x1327);
    let mut x1353: u32 = 0;
    let mut x1354: FpU1 = 0;
    fp_addcarryx_u32(&mut x1353, &mut x1354, x1352, x1285, x1329);
    let mut x1355: u32 = 0;
    let mut x1356: FpU1 = 0;
    fp_addcarryx_u32(&mut x1355, &mut x1356, x1354, x1287, x1331);
    let mut x1357: u32 = 0;
    let mut x1358: FpU1 = 0;
    fp_addcarryx_u32(&mut x1357, &mut x1358, x1356, x1289, x1333);
    let mut x1359: u32 = 0;
    let mut x1360: FpU1 = 0;
    fp_addcarryx_u32(&mut x1359, &mut x1360, x1358, x1291, x1335);
    let mut x1361: u32 = 0;
    let mut x1362: FpU1 = 0;
    fp_addcarryx_u32(&mut x1361, &mut x1362, x1360, x1293, x1337);
    let mut x1363: u32 = 0;
    let mut x1364: FpU1 = 0;
    fp_addcarryx_u32(&mut x1363, &mut x1364, x1362, x1295, x1339);
    let mut x1365: u32 = 0;
    let mut x1366: FpU1 = 0;
    fp_addcarryx_u32(&mut x1365, &mut x1366, x1364, x1297, x1341);
    let mut x1367: u32 = 0;
    let mut x1368: FpU1 = 0;
    fp_addcarryx_u32(&mut x1367, &mut x1368, x1366, x1299, x1343);
    let mut x1369: u32 = 0;
    let mut x1370: u32 = 0;
    fp_mulx_u32(&mut x1369, &mut x1370, x10, 0x6dfccb);
    let mut x1371: u32 = 0;
    let mut x1372: u32 = 0;
    fp_mulx_u32(&mut x1371, &mut x1372, x10, 0x1e914b88);
    let mut x1373: u32 = 0;
    let mut x1374: u32 = 0;
    fp_mulx_u32(&mut x1373, &mut x1374, x10, 0x837e92f0);
    let mut x1375: u32 = 0;
    let mut x1376: u32 = 0;
    fp_mulx_u32(&mut x1375, &mut x1376, x10, 0x41790bf9);
    let mut x1377: u32 = 0;
    let mut x1378: u32 = 0;
    fp_mulx_u32(&mut x1377, &mut x1378, x10, 0xbfdf7d03);
    let mut x1379: u32 = 0;
    let mut x1380: u32 = 0;
    fp_mulx_u32(&mut x1379, &mut x1380, x10, 0x827dc3ac);
    let mut x1381: u32 = 0;
    let mut x1382: u32 = 0;
    fp_mulx_u32(&mut x1381, &mut x1382, x10, 0x22a5f111);
    let mut x1383: u32 = 0;
    let mut x1384: u32 = 0;
    fp_mulx_u32(&mut x1383, &mut x1384, x10, 0x62d6b46d);
    let mut x1385: u32 = 0;
    let mut x1386: u32 = 0;
    fp_mulx_u32(&mut x1385, &mut x1386, x10, 0x329fcaa);
    let mut x1387: u32 = 0;
    let mut x1388: u32 = 0;
    fp_mulx_u32(&mut x1387, &mut x1388, x10, 0xb00431b1);
    let mut x1389: u32 = 0;
    let mut x1390: u32 = 0;
    fp_mulx_u32(&mut x1389, &mut x1390, x10, 0xb786686c);
    let mut x1391: u32 = 0;
    let mut x1392: u32 = 0;
    fp_mulx_u32(&mut x1391, &mut x1392, x10, 0x9400cd22);
    let mut x1393: u32 = 0;
    let mut x1394: FpU1 = 0;
    fp_addcarryx_u32(&mut x1393, &mut x1394, 0x0, x1392, x1389);
    let mut x1395: u32 = 0;
    let mut x1396: FpU1 = 0;
    fp_addcarryx_u32(&mut x1395, &mut x1396, x1394, x1390, x1387);
    let mut x1397: u32 = 0;
    let mut x1398: FpU1 = 0;
    fp_addcarryx_u32(&mut x1397, &mut x1398, x1396, x1388, x1385);
    let mut x1399: u32 = 0;
    let mut x1400: FpU1 = 0;
    fp_addcarryx_u32(&mut x1399, &mut x1400, x1398, x1386, x1383);
    let mut x1401: u32 = 0;
    let mut x1402: FpU1 = 0;
    fp_addcarryx_u32(&mut x1401, &mut x1402, x1400, x1384, x1381);
    let mut x1403: u32 = 0;
    let mut x1404: FpU1 = 0;
    fp_addcarryx_u32(&mut x1403, &mut x1404, x1402, x1382, x1379);
    let mut x1405: u32 = 0;
    let mut x1406: FpU1 = 0;
    fp_addcarryx_u32(&mut x1405, &mut x1406, x1404, x1380, x1377);
    let mut x1407: u32 = 0;
    let mut x1408: FpU1 = 0;
    fp_addcarryx_u32(&mut x1407, &mut x1408, x1406, x1378, x1375);
    let mut x1409: u32 = 0;
    let mut x1410: FpU1 = 0;
    fp_addcarryx_u32(&mut x1409, &mut x1410, x1408, x1376, x1373);
    let mut x1411: u32 = 0;
    let mut x1412: FpU1 = 0;
    fp_addcarryx_u32(&mut x1411, &mut x1412, x1410, x1374, x1371);
    let mut x1413: u32 = 0;
    let mut x1414: FpU1 = 0;
    fp_addcarryx_u32(&mut x1413, &mut x1414, x1412, x1372, x1369);
    let mut x1415: u32 = 0;
    let mut x1416: FpU1 = 0;
    fp_addcarryx_u32(&mut x1415, &mut x1416, 0x0, x1347, x1391);
    let mut x1417: u32 = 0;
    let mut x1418: FpU1 = 0;
    fp_addcarryx_u32(&mut x1417, &mut x1418, x1416, x1349, x1393);
    let mut x1419: u32 = 0;
    let mut x1420: FpU1 = 0;
    fp_addcarryx_u32(&mut x1419, &mut x1420, x1418, x1351, x1395);
    let mut x1421: u32 = 0;
    let mut x1422: FpU1 = 0;
    fp_addcarryx_u32(&mut x1421, &mut x1422, x1420, x1353, x1397);
    let mut x1423: u32 = 0;
    let mut x1424: FpU1 = 0;
    fp_addcarryx_u32(&mut x1423, &mut x1424, x1422, x1355, x1399);
    let mut x1425: u32 = 0;
    let mut x1426: FpU1 = 0;
    fp_addcarryx_u32(&mut x1425, &mut x1426, x1424, x1357, x1401);
    let mut x1427: u32 = 0;
    let mut x1428: FpU1 = 0;
    fp_addcarryx_u32(&mut x1427, &mut x1428, x1426, x1359, x1403);
    let mut x1429: u32 = 0;
    let mut x1430: FpU1 = 0;
    fp_addcarryx_u32(&mut x1429, &mut x1430, x1428, x1361, x1405);
    let mut x1431: u32 = 0;
    let mut x1432: FpU1 = 0;
    fp_addcarryx_u32(&mut x1431, &mut x1432, x1430, x1363, x1407);
    let mut x1433: u32 = 0;
    let mut x1434: FpU1 = 0;
    fp_addcarryx_u32(&mut x1433, &mut x1434, x1432, x1365, x1409);
    let mut x1435: u32 = 0;
    let mut x1436: FpU1 = 0;
    fp_addcarryx_u32(&mut x1435, &mut x1436, x1434, x1367, x1411);
    let mut x1437: u32 = 0;
    let mut x1438: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x1437,
        &mut x1438,
        x1436,
        (((x1368 as u32) + ((x1300 as u32) + ((x1276 as u32) + x1232))) + ((x1344 as u32) + x1304)),
        x1413,
    );
    let mut x1439: u32 = 0;
    let mut x1440: u32 = 0;
    fp_mulx_u32(&mut x1439, &mut x1440, x1415, 0xffffffff);
    let mut x1441: u32 = 0;
    let mut x1442: u32 = 0;
    fp_mulx_u32(&mut x1441, &mut x1442, x1439, 0x1ae3a46);
    let mut x1443: u32 = 0;
    let mut x1444: u32 = 0;
    fp_mulx_u32(&mut x1443, &mut x1444, x1439, 0x17c510ea);
    let mut x1445: u32 = 0;
    let mut x1446: u32 = 0;
    fp_mulx_u32(&mut x1445, &mut x1446, x1439, 0xc63b05c0);
    let mut x1447: u32 = 0;
    let mut x1448: u32 = 0;
    fp_mulx_u32(&mut x1447, &mut x1448, x1439, 0x6ca1493b);
    let mut x1449: u32 = 0;
    let mut x1450: u32 = 0;
    fp_mulx_u32(&mut x1449, &mut x1450, x1439, 0x1a22d9f3);
    let mut x1451: u32 = 0;
    let mut x1452: u32 = 0;
    fp_mulx_u32(&mut x1451, &mut x1452, x1439, 0xf5138f);
    let mut x1453: u32 = 0;
    let mut x1454: u32 = 0;
    fp_mulx_u32(&mut x1453, &mut x1454, x1439, 0x1ef3622f);
    let mut x1455: u32 = 0;
    let mut x1456: u32 = 0;
    fp_mulx_u32(&mut x1455, &mut x1456, x1439, 0xba094800);
    let mut x1457: u32 = 0;
    let mut x1458: u32 = 0;
    fp_mulx_u32(&mut x1457, &mut x1458, x1439, 0x170b5d44);
    let mut x1459: u32 = 0;
    let mut x1460: u32 = 0;
    fp_mulx_u32(&mut x1459, &mut x1460, x1439, 0x30000000);
    let mut x1461: u32 = 0;
    let mut x1462: u32 = 0;
    fp_mulx_u32(&mut x1461, &mut x1462, x1439, 0x8508c000);
    let mut x1463: u32 = 0;
    let mut x1464: FpU1 = 0;
    fp_addcarryx_u32(&mut x1463, &mut x1464, 0x0, x1462, x1459);
    let mut x1465: u32 = 0;
    let mut x1466: FpU1 = 0;
    fp_addcarryx_u32(&mut x1465, &mut x1466, x1464, x1460, x1457);
    let mut x1467: u32 = 0;
    let mut x1468: FpU1 = 0;
    fp_addcarryx_u32(&mut x1467, &mut x1468, x1466, x1458, x1455);
    let mut x1469: u32 = 0;
    let mut x1470: FpU1 = 0;
    fp_addcarryx_u32(&mut x1469, &mut x1470, x1468, x1456, x1453);
    let mut x1471: u32 = 0;
    let mut x1472: FpU1 = 0;
    fp_addcarryx_u32(&mut x1471, &mut x1472, x1470, x1454, x1451);
    let mut x1473: u32 = 0;
    let mut x1474: FpU1 = 0;
    fp_addcarryx_u32(&mut x1473, &mut x1474, x1472, x1452, x1449);
    let mut x1475: u32 = 0;
    let mut x1476: FpU1 = 0;
    fp_addcarryx_u32(&mut x1475, &mut x1476, x1474, x1450, x1447);
    let mut x1477: u32 = 0;
    let mut x1478: FpU1 = 0;
    fp_addcarryx_u32(&mut x1477, &mut x1478, x1476, x1448, x1445);
    let mut x1479: u32 = 0;
    let mut x1480: FpU1 = 0;
    fp_addcarryx_u32(&mut x1479, &mut x1480, x1478, x1446, x1443);
    let mut x1481: u32 = 0;
    let mut x1482: FpU1 = 0;
    fp_addcarryx_u32(&mut x1481, &mut x1482, x1480, x1444, x1441);
    let mut x1483: u32 = 0;
    let mut x1484: FpU1 = 0;
    fp_addcarryx_u32(&mut x1483, &mut x1484, 0x0, x1415, x1439);
    let mut x1485: u32 = 0;
    let mut x1486: FpU1 = 0;
    fp_addcarryx_u32(&mut x1485, &mut x1486, x1484, x1417, x1461);
    let mut x1487: u32 = 0;
    let mut x1488: FpU1 = 0;
    fp_addcarryx_u32(&mut x1487, &mut x1488, x1486, x1419, x1463);
    let mut x1489: u32 = 0;
    let mut x1490: FpU1 = 0;
    fp_addcarryx_u32(&mut x1489, &mut x1490, x1488, x1421, x1465);
    let mut x1491: u32 = 0;
    let mut x1492: FpU1 = 0;
    fp_addcarryx_u32(&mut x1491, &mut x1492, x1490, x1423, x1467);
    let mut x1493: u32 = 0;
    let mut x1494: FpU1 = 0;
    fp_addcarryx_u32(&mut x1493, &mut x1494, x1492, x1425, x1469);
    let mut x1495: u32 = 0;
    let mut x1496: FpU1 = 0;
    fp_addcarryx_u32(&mut x1495, &mut x1496, x1494, x1427, x1471);
    let mut x1497: u32 = 0;
    let mut x1498: FpU1 = 0;
    fp_addcarryx_u32(&mut x1497, &mut x1498, x1496, x1429, x1473);
    let mut x1499: u32 = 0;
    let mut x1500: FpU1 = 0;
    fp_addcarryx_u32(&mut x1499, &mut x1500, x1498, x1431, x1475);
    let mut x1501: u32 = 0;
    let mut x1502: FpU1 = 0;
    fp_addcarryx_u32(&mut x1501, &mut x1502, x1500, x1433, x1477);
    let mut x1503: u32 = 0;
    let mut x1504: FpU1 = 0;
    fp_addcarryx_u32(&mut x1503, &mut x1504, x1502, x1435, x1479);
    let mut x1505: u32 = 0;
    let mut x1506: FpU1 = 0;
    fp_addcarryx_u32(&mut x1505, &mut x1506, x1504, x1437, x1481);
    let mut x1507: u32 = 0;
    let mut x1508: u32 = 0;
    fp_mulx_u32(&mut x1507, &mut x1508, x11, 0x6dfccb);
    let mut x1509: u32 = 0;
    let mut x1510: u32 = 0;
    fp_mulx_u32(&mut x1509, &mut x1510, x11, 0x1e914b88);
    let mut x1511: u32 = 0;
    let mut x1512: u32 = 0;
    fp_mulx_u32(&mut x1511, &mut x1512, x11, 0x837e92f0);
    let mut x1513: u32 = 0;
    let mut x1514: u32 = 0;
    fp_mulx_u32(&mut x1513, &mut x1514, x11, 0x41790bf9);
    let mut x1515: u32 = 0;
    let mut x1516: u32 = 0;
    fp_mulx_u32(&mut x1515, &mut x1516, x11, 0xbfdf7d03);
    let mut x1517: u32 = 0;
    let mut x1518: u32 = 0;
    fp_mulx_u32(&mut x1517, &mut x1518, x11, 0x827dc3ac);
    let mut x1519: u32 = 0;
    let mut x1520: u32 = 0;
    fp_mulx_u32(&mut x1519, &mut x1520, x11, 0x22a5f111);
    let mut x1521: u32 = 0;
    let mut x1522: u32 = 0;
    fp_mulx_u32(&mut x1521, &mut x1522, x11, 0x62d6b46d);
    let mut x1523: u32 = 0;
    let mut x1524: u32 = 0;
    fp_mulx_u32(&mut x1523, &mut x1524, x11, 0x329fcaa);
    let mut x1525: u32 = 0;
    let mut x1526: u32 = 0;
    fp_mulx_u32(&mut x1525, &mut x1526, x11, 0xb00431b1);
    let mut x1527: u32 = 0;
    let mut x1528: u32 = 0;
    fp_mulx_u32(&mut x1527, &mut x1528, x11, 0xb786686c);
    let mut x1529: u32 = 0;
    let mut x1530: u32 = 0;
    fp_mulx_u32(&mut x1529, &mut x1530, x11, 0x9400cd22);
    let mut x1531: u32 = 0;
    let mut x1532: FpU1 = 0;
    fp_addcarryx_u32(&mut x1531, &mut x1532, 0x0, x1530, x1527);
    let mut x1533: u32 = 0;
    let mut x1534: FpU1 = 0;
    fp_addcarryx_u32(&mut x1533, &mut x1534, x1532, x1528, x1525);
    let mut x1535: u32 = 0;
    let mut x1536: FpU1 = 0;
    fp_addcarryx_u32(&mut x1535, &mut x1536, x1534, x1526, x1523);
    let mut x1537: u32 = 0;
    let mut x1538: FpU1 = 0;
    fp_addcarryx_u32(&mut x1537, &mut x1538, x1536, x1524, x1521);
    let mut x1539: u32 = 0;
    let mut x1540: FpU1 = 0;
    fp_addcarryx_u32(&mut x1539, &mut x1540, x1538, x1522, x1519);
    let mut x1541: u32 = 0;
    let mut x1542: FpU1 = 0;
    fp_addcarryx_u32(&mut x1541, &mut x1542, x1540, x1520, x1517);
    let mut x1543: u32 = 0;
    let mut x1544: FpU1 = 0;
    fp_addcarryx_u32(&mut x1543, &mut x1544, x1542, x1518, x1515);
    let mut x1545: u32 = 0;
    let mut x1546: FpU1 = 0;
    fp_addcarryx_u32(&mut x1545, &mut x1546, x1544, x1516, x1513);
    let mut x1547: u32 = 0;
    let mut x1548: FpU1 = 0;
    fp_addcarryx_u32(&mut x1547, &mut x1548, x1546, x1514, x1511);
    let mut x1549: u32 = 0;
    let mut x1550: FpU1 = 0;
    fp_addcarryx_u32(&mut x1549, &mut x1550, x1548, x1512, x1509);
    let mut x1551: u32 = 0;
    let mut x1552: FpU1 = 0;
    fp_addcarryx_u32(&mut x1551, &mut x1552, x1550, x1510, x1507);
    let mut x1553: u32 = 0;
    let mut x1554: FpU1 = 0;
    fp_addcarryx_u32(&mut x1553, &mut x1554, 0x0, x1485, x1529);
    let mut x1555: u32 = 0;
    let mut x1556: FpU1 = 0;
    fp_addcarryx_u32(&mut x1555, &mut x1556, x1554, x1487, x1531);
    let mut x1557: u32 = 0;
    let mut x1558: FpU1 = 0;
    fp_addcarryx_u32(&mut x1557, &mut x1558, x1556, x1489, x1533);
    let mut x1559: u32 = 0;
    let mut x1560: FpU1 = 0;
    fp_addcarryx_u32(&mut x1559, &mut x1560, x1558, x1491, x1535);
    let mut x1561: u32 = 0;
    let mut x1562: FpU1 = 0;
    fp_addcarryx_u32(&mut x1561, &mut x1562, x1560, x1493, x1537);
    let mut x1563: u32 = 0;
    let mut x1564: FpU1 = 0;
    fp_addcarryx_u32(&mut x1563, &mut x1564, x1562, x1495, x1539);
    let mut x1565: u32 = 0;
    let mut x1566: FpU1 = 0;
    fp_addcarryx_u32(&mut x1565, &mut x1566, x1564, x1497, x1541);
    let mut x1567: u32 = 0;
    let mut x1568: FpU1 = 0;
    fp_addcarryx_u32(&mut x1567, &mut x1568, x1566, x1499, x1543);
    let mut x1569: u32 = 0;
    let mut x1570: FpU1 = 0;
    fp_addcarryx_u32(&mut x1569, &mut x1570, x1568, x1501, x1545);
    let mut x1571: u32 = 0;
    let mut x1572: FpU1 = 0;
    fp_addcarryx_u32(&mut x1571, &mut x1572, x1570, x1503, x1547);
    let mut x1573: u32 = 0;
    let mut x1574: FpU1 = 0;
    fp_addcarryx_u32(&mut x1573, &mut x1574, x1572, x1505, x1549);
    let mut x1575: u32 = 0;
    let mut x1576: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x1575,
        &mut x1576,
        x1574,
        (((x1506 as u32) + ((x1438 as u32) + ((x1414 as u32) + x1370))) + ((x1482 as u32) + x1442)),
        x1551,
    );
    let mut x1577: u32 = 0;
    let mut x1578: u32 = 0;
    fp_mulx_u32(&mut x1577, &mut x1578, x1553, 0xffffffff);
    let mut x1579: u32 = 0;
    let mut x1580: u32 = 0;
    fp_mulx_u32(&mut x1579, &mut x1580, x1577, 0x1ae3a46);
    let mut x1581: u32 = 0;
    let mut x1582: u32 = 0;
    fp_mulx_u32(&mut x1581, &mut x1582, x1577, 0x17c510ea);
    let mut x1583: u32 = 0;
    let mut x1584: u32 = 0;
    fp_mulx_u32(&mut x1583, &mut x1584, x1577, 0xc63b05c0);
    let mut x1585: u32 = 0;
    let mut x1586: u32 = 0;
    fp_mulx_u32(&mut x1585, &mut x1586, x1577, 0x6ca1493b);
    let mut x1587: u32 = 0;
    let mut x1588: u32 = 0;
    fp_mulx_u32(&mut x1587, &mut x1588, x1577, 0x1a22d9f3);
    let mut x1589: u32 = 0;
    let mut x1590: u32 = 0;
    fp_mulx_u32(&mut x1589, &mut x1590, x1577, 0xf5138f);
    let mut x1591: u32 = 0;
    let mut x1592: u32 = 0;
    fp_mulx_u32(&mut x1591, &mut x1592, x1577, 0x1ef3622f);
    let mut x1593: u32 = 0;
    let mut x1594: u32 = 0;
    fp_mulx_u32(&mut x1593, &mut x1594, x1577, 0xba094800);
    let mut x1595: u32 = 0;
    let mut x1596: u32 = 0;
    fp_mulx_u32(&mut x1595, &mut x1596, x1577, 0x170b5d44);
    let mut x1597: u32 = 0;
    let mut x1598: u32 = 0;
    fp_mulx_u32(&mut x1597, &mut x1598, x1577, 0x30000000);
    let mut x1599: u32 = 0;
    let mut x1600: u32 = 0;
    fp_mulx_u32(&mut x1599, &mut x1600, x1577, 0x8508c000);
    let mut x1601: u32 = 0;
    let mut x1602: FpU1 = 0;
    fp_addcarryx_u32(&mut x1601, &mut x1602, 0x0, x1600, x1597);
    let mut x1603: u32 = 0;
    let mut x1604: FpU1 = 0;
    fp_addcarryx_u32(&mut x1603, &mut x1604, x1602, x1598, x1595);
    let mut x1605: u32 = 0;
    let mut x1606: FpU1 = 0;
    fp_addcarryx_u32(&mut x1605, &mut x1606, x1604, x1596, x1593);
    let mut x1607: u32 = 0;
    let mut x1608: FpU1 = 0;
    fp_addcarryx_u32(&mut x1607, &mut x1608, x1606, x1594, x1591);
    let mut x1609: u32 = 0;
    let mut x1610: FpU1 = 0;
    fp_addcarryx_u32(&mut x1609, &mut x1610, x1608, x1592, x1589);
    let mut x1611: u32 = 0;
    let mut x1612: FpU1 = 0;
    fp_addcarryx_u32(&mut x1611, &mut x1612, x1610, x1590, x1587);
    let mut x1613: u32 = 0;
    let mut x1614: FpU1 = 0;
    fp_addcarryx_u32(&mut x1613, &mut x1614, x1612, x1588, x1585);
    let mut x1615: u32 = 0;
    let mut x1616: FpU1 = 0;
    fp_addcarryx_u32(&mut x1615, &mut x1616, x1614, x1586, x1583);
    let mut x1617: u32 = 0;
    let mut x1618: FpU1 = 0;
    fp_addcarryx_u32(&mut x1617, &mut x1618, x1616, x1584, x1581);
    let mut x1619: u32 = 0;
    let mut x1620: FpU1 = 0;
    fp_addcarryx_u32(&mut x1619, &mut x1620, x1618, x1582, x1579);
    let mut x1621: u32 = 0;
    let mut x1622: FpU1 = 0;
    fp_addcarryx_u32(&mut x1621, &mut x1622, 0x0, x1553, x1577);
    let mut x1623: u32 = 0;
    let mut x1624: FpU1 = 0;
    fp_addcarryx_u32(&mut x1623, &mut x1624, x1622, x1555, x1599);
    let mut x1625: u32 = 0;
    let mut x1626: FpU1 = 0;
    fp_addcarryx_u32(&mut x1625, &mut x1626, x1624, x1557, x1601);
    let mut x1627: u32 = 0;
    let mut x1628: FpU1 = 0;
    fp_addcarryx_u32(&mut x1627, &mut x1628, x1626, x1559, x1603);
    let mut x1629: u32 = 0;
    let mut x1630: FpU1 = 0;
    fp_addcarryx_u32(&mut x1629, &mut x1630, x1628, x1561, x1605);
    let mut x1631: u32 = 0;
    let mut x1632: FpU1 = 0;
    fp_addcarryx_u32(&mut x1631, &mut x1632, x1630, x1563, x1607);
    let mut x1633: u32 = 0;
    let mut x1634: FpU1 = 0;
    fp_addcarryx_u32(&mut x1633, &mut x1634, x1632, x1565, x1609);
    let mut x1635: u32 = 0;
    let mut x1636: FpU1 = 0;
    fp_addcarryx_u32(&mut x1635, &mut x1636, x1634, x1567, x1611);
    let mut x1637: u32 = 0;
    let mut x1638: FpU1 = 0;
    fp_addcarryx_u32(&mut x1637, &mut x1638, x1636, x1569, x1613);
    let mut x1639: u32 = 0;
    let mut x1640: FpU1 = 0;
    fp_addcarryx_u32(&mut x1639, &mut x1640, x1638, x1571, x1615);
    let mut x1641: u32 = 0;
    let mut x1642: FpU1 = 0;
    fp_addcarryx_u32(&mut x1641, &mut x1642, x1640, x1573, x1617);
    let mut x1643: u32 = 0;
    let mut x1644: FpU1 = 0;
    fp_addcarryx_u32(&mut x1643, &mut x1644, x1642, x1575, x1619);
    let x1645: u32 =
        (((x1644 as u32) + ((x1576 as u32) + ((x1552 as u32) + x1508))) + ((x1620 as u32) + x1580));
    let mut x1646: u32 = 0;
    let mut x1647: FpU1 = 0;
    fp_subborrowx_u32(&mut x1646, &mut x1647, 0x0, x1623, (0x1 as u32));
    let mut x1648: u32 = 0;
    let mut x1649: FpU1 = 0;
    fp_subborrowx_u32(&mut x1648, &mut x1649, x1647, x1625, 0x8508c000);
    let mut x1650: u32 = 0;
    let mut x1651: FpU1 = 0;
    fp_subborrowx_u32(&mut x1650, &mut x1651, x1649, x1627, 0x30000000);
    let mut x1652: u32 = 0;
    let mut x1653: FpU1 = 0;
    fp_subborrowx_u32(&mut x1652, &mut x1653, x1651, x1629, 0x170b5d44);
    let mut x1654: u32 = 0;
    let mut x1655: FpU1 = 0;
    fp_subborrowx_u32(&mut x1654, &mut x1655, x1653, x1631, 0xba094800);
    let mut x1656: u32 = 0;
    let mut x1657: FpU1 = 0;
    fp_subborrowx_u32(&mut x1656, &mut x1657, x1655, x1633, 0x1ef3622f);
    let mut x1658: u32 = 0;
    let mut x1659: FpU1 = 0;
    fp_subborrowx_u32(&mut x1658, &mut x1659, x1657, x1635, 0xf5138f);
    let mut x1660: u32 = 0;
    let mut x1661: FpU1 = 0;
    fp_subborrowx_u32(&mut x1660, &mut x1661, x1659, x1637, 0x1a22d9f3);
    let mut x1662: u32 = 0;
    let mut x1663: FpU1 = 0;
    fp_subborrowx_u32(&mut x1662, &mut x1663, x1661, x1639, 0x6ca1493b);
    let mut x1664: u32 = 0;
    let mut x1665: FpU1 = 0;
    fp_subborrowx_u32(&mut x1664, &mut x1665, x1663, x1641, 0xc63b05c0);
    let mut x1666: u32 = 0;
    let mut x1667: FpU1 = 0;
    fp_subborrowx_u32(&mut x1666, &mut x1667, x1665, x1643, 0x17c510ea);
    let mut x1668: u32 = 0;
    let mut x1669: FpU1 = 0;
    fp_subborrowx_u32(&mut x1668, &mut x1669, x1667, x1645, 0x1ae3a46);
    let mut x1670: u32 = 0;
    let mut x1671: FpU1 = 0;
    fp_subborrowx_u32(&mut x1670, &mut x1671, x1669, (0x0 as u32), (0x0 as u32));
    let mut x1672: u32 = 0;
    fp_cmovznz_u32(&mut x1672, x1671, x1646, x1623);
    let mut x1673: u32 = 0;
    fp_cmovznz_u32(&mut x1673, x1671, x1648, x1625);
    let mut x1674: u32 = 0;
    fp_cmovznz_u32(&mut x1674, x1671, x1650, x1627);
    let mut x1675: u32 = 0;
    fp_cmovznz_u32(&mut x1675, x1671, x1652, x1629);
    let mut x1676: u32 = 0;
    fp_cmovznz_u32(&mut x1676, x1671, x1654, x1631);
    let mut x1677: u32 = 0;
    fp_cmovznz_u32(&mut x1677, x1671, x1656, x1633);
    let mut x1678: u32 = 0;
    fp_cmovznz_u32(&mut x1678, x1671, x1658, x1635);
    let mut x1679: u32 = 0;
    fp_cmovznz_u32(&mut x1679, x1671, x1660, x1637);
    let mut x1680: u32 = 0;
    fp_cmovznz_u32(&mut x1680, x1671, x1662, x1639);
    let mut x1681: u32 = 0;
    fp_cmovznz_u32(&mut x1681, x1671, x1664, x1641);
    let mut x1682: u32 = 0;
    fp_cmovznz_u32(&mut x1682, x1671, x1666, x1643);
    let mut x1683: u32 = 0;
    fp_cmovznz_u32(&mut x1683, x1671, x1668, x1645);
    out1[0] = x1672;
    out1[1] = x1673;
    out1[2] = x1674;
    out1[3] = x1675;
    out1[4] = x1676;
    out1[5] = x1677;
    out1[6] = x1678;
    out1[7] = x1679;
    out1[8] = x1680;
    out1[9] = x1681;
    out1[10] = x1682;
    out1[11] = x1683;
}

/// The function fp_nonzero outputs a single non-zero word if the input is non-zero and zero otherwise.
///
/// Preconditions:
///   0 ≤ eval arg1 < m
/// Postconditions:
///   out1 = 0 ↔ eval (from_montgomery arg1) mod m = 0
///
/// Input Bounds:
///   arg1: [[0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff]]
/// Output Bounds:
///   out1: [0x0 ~> 0xffffffff]
pub fn fp_nonzero(out1: &mut u32, arg1: &[u32; 12]) {
    let x1: u32 = ((arg1[0])
        | ((arg1[1])
            | ((arg1[2])
                | ((arg1[3])
                    | ((arg1[4])
                        | ((arg1[5])
                            | ((arg1[6])
                                | ((arg1[7])
                                    | ((arg1[8]) | ((arg1[9]) | ((arg1[10]) | (arg1[11]))))))))))));
    *out1 = x1;
}

/// The function fp_selectznz is a multi-limb conditional select.
///
/// Postconditions:
///   out1 = (if arg1 = 0 then arg2 else arg3)
///
/// Input Bounds:
///   arg1: [0x0 ~> 0x1]
///   arg2: [[0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff]]
///   arg3: [[0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff]]
/// Output Bounds:
///   out1: [[0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff]]
pub fn fp_selectznz(out1: &mut [u32; 12], arg1: FpU1, arg2: &[u32; 12], arg3: &[u32; 12]) {
    let mut x1: u32 = 0;
    fp_cmovznz_u32(&mut x1, arg1, (arg2[0]), (arg3[0]));
    let mut x2: u32 = 0;
    fp_cmovznz_u32(&mut x2, arg1, (arg2[1]), (arg3[1]));
    let mut x3: u32 = 0;
    fp_cmovznz_u32(&mut x3, arg1, (arg2[2]), (arg3[2]));
    let mut x4: u32 = 0;
    fp_cmovznz_u32(&mut x4, arg1, (arg2[3]), (arg3[3]));
    let mut x5: u32 = 0;
    fp_cmovznz_u32(&mut x5, arg1, (arg2[4]), (arg3[4]));
    let mut x6: u32 = 0;
    fp_cmovznz_u32(&mut x6, arg1, (arg2[5]), (arg3[5]));
    let mut x7: u32 = 0;
    fp_cmovznz_u32(&mut x7, arg1, (arg2[6]), (arg3[6]));
    let mut x8: u32 = 0;
    fp_cmovznz_u32(&mut x8, arg1, (arg2[7]), (arg3[7]));
    let mut x9: u32 = 0;
    fp_cmovznz_u32(&mut x9, arg1, (arg2[8]), (arg3[8]));
    let mut x10: u32 = 0;
    fp_cmovznz_u32(&mut x10, arg1, (arg2[9]), (arg3[9]));
    let mut x11: u32 = 0;
    fp_cmovznz_u32(&mut x11, arg1, (arg2[10]), (arg3[10]));
    let mut x12: u32 = 0;
    fp_cmovznz_u32(&mut x12, arg1, (arg2[11]), (arg3[11]));
    out1[0] = x1;
    out1[1] = x2;
    out1[2] = x3;
    out1[3] = x4;
    out1[4] = x5;
    out1[5] = x6;
    out1[6] = x7;
    out1[7] = x8;
    out1[8] = x9;
    out1[9] = x10;
    out1[10] = x11;
    out1[11] = x12;
}

/// The function fp_to_bytes serializes a field element NOT in the Montgomery domain to bytes in little-endian order.
///
/// Preconditions:
///   0 ≤ eval arg1 < m
/// Postconditions:
///   out1 = map (λ x, ⌊((eval arg1 mod m) mod 2^(8 * (x + 1))) / 2^(8 * x)⌋) [0..47]
///
/// Input Bounds:
///   arg1: [[0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0x1ffffff]]
/// Output Bounds:
///   out1: [[0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0x1]]
pub fn fp_to_bytes(out1: &mut [u8; 48], arg1: &[u32; 12]) {
    let x1: u32 = (arg1[11]);
    let x2: u32 = (arg1[10]);
    let x3: u32 = (arg1[9]);
    let x4: u32 = (arg1[8]);
    let x5: u32 = (arg1[7]);
    let x6: u32 = (arg1[6]);
    let x7: u32 = (arg1[5]);
    let x8: u32 = (arg1[4]);
    let x9: u32 = (arg1[3]);
    let x10: u32 = (arg1[2]);
    let x11: u32 = (arg1[1]);
    let x12: u32 = (arg1[0]);
    let x13: u8 = ((x12 & (0xff as u32)) as u8);
    let x14: u32 = (x12 >> 8);
    let x15: u8 = ((x14 & (0xff as u32)) as u8);
    let x16: u32 = (x14 >> 8);
    let x17: u8 = ((x16 & (0xff as u32)) as u8);
    let x18: u8 = ((x16 >> 8) as u8);
    let x19: u8 = ((x11 & (0xff as u32)) as u8);
    let x20: u32 = (x11 >> 8);
    let x21: u8 = ((x20 & (0xff as u32)) as u8);
    let x22: u32 = (x20 >> 8);
    let x23: u8 = ((x22 & (0xff as u32)) as u8);
    let x24: u8 = ((x22 >> 8) as u8);
    let x25: u8 = ((x10 & (0xff as u32)) as u8);
    let x26: u32 = (x10 >> 8);
    let x27: u8 = ((x26 & (0xff as u32)) as u8);
    let x28: u32 = (x26 >> 8);
    let x29: u8 = ((x28 & (0xff as u32)) as u8);
    let x30: u8 = ((x28 >> 8) as u8);
    let x31: u8 = ((x9 & (0xff as u32)) as u8);
    let x32: u32 = (x9 >> 8);
    let x33: u8 = ((x32 & (0xff as u32)) as u8);
    let x34: u32 = (x32 >> 8);
    let x35: u8 = ((x34 & (0xff as u32)) as u8);
    let x36: u8 = ((x34 >> 8) as u8);
    let x37: u8 = ((x8 & (0xff as u32)) as u8);
    let x38: u32 = (x8 >> 8);
    let x39: u8 = ((x38 & (0xff as u32)) as u8);
    let x40: u32 = (x38 >> 8);
    let x41: u8 = ((x40 & (0xff as u32)) as u8);
    let x42: u8 = ((x40 >> 8) as u8);
    let x43: u8 = ((x7 & (0xff as u32)) as u8);
    let x44: u32 = (x7 >> 8);
    let x45: u8 = ((x44 & (0xff as u32)) as u8);
    let x46: u32 = (x44 >> 8);
    let x47: u8 = ((x46 & (0xff as u32)) as u8);
    let x48: u8 = ((x46 >> 8) as u8);
    let x49: u8 = ((x6 & (0xff as u32)) as u8);
    let x50: u32 = (x6 >> 8);
    let x51: u8 = ((x50 & (0xff as u32)) as u8);
    let x52: u32 = (x50 >> 8);
    let x53: u8 = ((x52 & (0xff as u32)) as u8);
    let x54: u8 = ((x52 >> 8) as u8);
    let x55: u8 = ((x5 & (0xff as u32)) as u8);
    let x56: u32 = (x5 >> 8);
    let x57: u8 = ((x56 & (0xff as u32)) as u8);
    let x58: u32 = (x56 >> 8);
    let x59: u8 = ((x58 & (0xff as u32)) as u8);
    let x60: u8 = ((x58 >> 8) as u8);
    let x61: u8 = ((x4 & (0xff as u32)) as u8);
    let x62: u32 = (x4 >> 8);
    let x63: u8 = ((x62 & (0xff as u32)) as u8);
    let x64: u32 = (x62 >> 8);
    let x65: u8 = ((x64 & (0xff as u32)) as u8);
    let x66: u8 = ((x64 >> 8) as u8);
    let x67: u8 = ((x3 & (0xff as u32)) as u8);
    let x68: u32 = (x3 >> 8);
    let x69: u8 = ((x68 & (0xff as u32)) as u8);
    let x70: u32 = (x68 >> 8);
    let x71: u8 = ((x70 & (0xff as u32)) as u8);
    let x72: u8 = ((x70 >> 8) as u8);
    let x73: u8 = ((x2 & (0xff as u32)) as u8);
    let x74: u32 = (x2 >> 8);
    let x75: u8 = ((x74 & (0xff as u32)) as u8);
    let x76: u32 = (x74 >> 8);
    let x77: u8 = ((x76 & (0xff as u32)) as u8);
    let x78: u8 = ((x76 >> 8) as u8);
    let x79: u8 = ((x1 & (0xff as u32)) as u8);
    let x80: u32 = (x1 >> 8);
    let x81: u8 = ((x80 & (0xff as u32)) as u8);
    let x82: u32 = (x80 >> 8);
    let x83: u8 = ((x82 & (0xff as u32)) as u8);
    let x84: FpU1 = ((x82 >> 8) as FpU1);
    out1[0] = x13;
    out1[1] = x15;
    out1[2] = x17;
    out1[3] = x18;
    out1[4] = x19;
    out1[5] = x21;
    out1[6] = x23;
    out1[7] = x24;
    out1[8] = x25;
    out1[9] = x27;
    out1[10] = x29;
    out1[11] = x30;
    out1[12] = x31;
    out1[13] = x33;
    out1[14] = x35;
    out1[15] = x36;
    out1[16] = x37;
    out1[17] = x39;
    out1[18] = x41;
    out1[19] = x42;
    out1[20] = x43;
    out1[21] = x45;
    out1[22] = x47;
    out1[23] = x48;
    out1[24] = x49;
    out1[25] = x51;
    out1[26] = x53;
    out1[27] = x54;
    out1[28] = x55;
    out1[29] = x57;
    out1[30] = x59;
    out1[31] = x60;
    out1[32] = x61;
    out1[33] = x63;
    out1[34] = x65;
    out1[35] = x66;
    out1[36] = x67;
    out1[37] = x69;
    out1[38] = x71;
    out1[39] = x72;
    out1[40] = x73;
    out1[41] = x75;
    out1[42] = x77;
    out1[43] = x78;
    out1[44] = x79;
    out1[45] = x81;
    out1[46] = x83;
    out1[47] = (x84 as u8);
}

/// The function fp_from_bytes deserializes a field element NOT in the Montgomery domain from bytes in little-endian order.
///
/// Preconditions:
///   0 ≤ bytes_eval arg1 < m
/// Postconditions:
///   eval out1 mod m = bytes_eval arg1 mod m
///   0 ≤ eval out1 < m
///
/// Input Bounds:
///   arg1: [[0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0x1]]
/// Output Bounds:
///   out1: [[0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0x1ffffff]]
pub fn fp_from_bytes(out1: &mut [u32; 12], arg1: &[u8; 48]) {
    let x1: u32 = ((((arg1[47]) as FpU1) as u32) << 24);
    let x2: u32 = (((arg1[46]) as u32) << 16);
    let x3: u32 = (((arg1[45]) as u32) << 8);
    let x4: u8 = (arg1[44]);
    let x5: u32 = (((arg1[43]) as u32) << 24);
    let x6: u32 = (((arg1[42]) as u32) << 16);
    let x7: u32 = (((arg1[41]) as u32) << 8);
    let x8: u8 = (arg1[40]);
    let x9: u32 = (((arg1[39]) as u32) << 24);
    let x10: u32 = (((arg1[38]) as u32) << 16);
    let x11: u32 = (((arg1[37]) as u32) << 8);
    let x12: u8 = (arg1[36]);
    let x13: u32 = (((arg1[35]) as u32) << 24);
    let x14: u32 = (((arg1[34]) as u32) << 16);
    let x15: u32 = (((arg1[33]) as u32) << 8);
    let x16: u8 = (arg1[32]);
    let x17: u32 = (((arg1[31]) as u32) << 24);
    let x18: u32 = (((arg1[30]) as u32) << 16);
    let x19: u32 = (((arg1[29]) as u32) << 8);
    let x20: u8 = (arg1[28]);
    let x21: u32 = (((arg1[27]) as u32) << 24);
    let x22: u32 = (((arg1[26]) as u32) << 16);
    let x23: u32 = (((arg1[25]) as u32) << 8);
    let x24: u8 = (arg1[24]);
    let x25: u32 = (((arg1[23]) as u32) << 24);
    let x26: u32 = (((arg1[22]) as u32) << 16);
    let x27: u32 = (((arg1[21]) as u32) << 8);
    let x28: u8 = (arg1[20]);
    let x29: u32 = (((arg1[19]) as u32) << 24);
    let x30: u32 = (((arg1[18]) as u32) << 16);
    let x31: u32 = (((arg1[17]) as u32) << 8);
    let x32: u8 = (arg1[16]);
    let x33: u32 = (((arg1[15]) as u32) << 24);
    let x34: u32 = (((arg1[14]) as u32) << 16);
    let x35: u32 = (((arg1[13]) as u32) << 8);
    let x36: u8 = (arg1[12]);
    let x37: u32 = (((arg1[11]) as u32) << 24);
    let x38: u32 = (((arg1[10]) as u32) << 16);
    let x39: u32 = (((arg1[9]) as u32) << 8);
    let x40: u8 = (arg1[8]);
    let x41: u32 = (((arg1[7]) as u32) << 24);
    let x42: u32 = (((arg1[6]) as u32) << 16);
    let x43: u32 = (((arg1[5]) as u32) << 8);
    let x44: u8 = (arg1[4]);
    let x45: u32 = (((arg1[3]) as u32) << 24);
    let x46: u32 = (((arg1[2]) as u32) << 16);
    let x47: u32 = (((arg1[1]) as u32) << 8);
    let x48: u8 = (arg1[0]);
    let x49: u32 = (x47 + (x48 as u32));
    let x50: u32 = (x46 + x49);
    let x51: u32 = (x45 + x50);
    let x52: u32 = (x43 + (x44 as u32));
    let x53: u32 = (x42 + x52);
    let x54: u32 = (x41 + x53);
    let x55: u32 = (x39 + (x40 as u32));
    let x56: u32 = (x38 + x55);
    let x57: u32 = (x37 + x56);
    let x58: u32 = (x35 + (x36 as u32));
    let x59: u32 = (x34 + x58);
    let x60: u32 = (x33 + x59);
    let x61: u32 = (x31 + (x32 as u32));
    let x62: u32 = (x30 + x61);
    let x63: u32 = (x29 + x62);
    let x64: u32 = (x27 + (x28 as u32));
    let x65: u32 = (x26 + x64);
    let x66: u32 = (x25 + x65);
    let x67: u32 = (x23 + (x24 as u32));
    let x68: u32 = (x22 + x67);
    let x69: u32 = (x21 + x68);
    let x70: u32 = (x19 + (x20 as u32));
    let x71: u32 = (x18 + x70);
    let x72: u32 = (x17 + x71);
    let x73: u32 = (x15 + (x16 as u32));
    let x74: u32 = (x14 + x73);
    let x75: u32 = (x13 + x74);
    let x76: u32 = (x11 + (x12 as u32));
    let x77: u32 = (x10 + x76);
    let x78: u32 = (x9 + x77);
    let x79: u32 = (x7 + (x8 as u32));
    let x80: u32 = (x6 + x79);
    let x81: u32 = (x5 + x80);
    let x82: u32 = (x3 + (x4 as u32));
    let x83: u32 = (x2 + x82);
    let x84: u32 = (x1 + x83);
    out1[0] = x51;
    out1[1] = x54;
    out1[2] = x57;
    out1[3] = x60;
    out1[4] = x63;
    out1[5] = x66;
    out1[6] = x69;
    out1[7] = x72;
    out1[8] = x75;
    out1[9] = x78;
    out1[10] = x81;
    out1[11] = x84;
}

/// The function fp_set_one returns the field element one in the Montgomery domain.
///
/// Postconditions:
///   eval (from_montgomery out1) mod m = 1 mod m
///   0 ≤ eval out1 < m
///
pub fn fp_set_one(out1: &mut FpMontgomeryDomainFieldElement) {
    out1[0] = 0xffffff68;
    out1[1] = 0x2cdffff;
    out1[2] = 0x7fffffb1;
    out1[3] = 0x51409f83;
    out1[4] = 0x8a7d3ff2;
    out1[5] = 0x9f7db3a9;
    out1[6] = 0x6e7c6305;
    out1[7] = 0x7b4e97b7;
    out1[8] = 0x803c84e8;
    out1[9] = 0x4cf495bf;
    out1[10] = 0xe2fdf49a;
    out1[11] = 0x8d6661;
}

/// The function fp_msat returns the saturated representation of the prime modulus.
///
/// Postconditions:
///   twos_complement_eval out1 = m
///   0 ≤ eval out1 < m
///
/// Output Bounds:
///   out1: [[0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff]]
pub fn fp_msat(out1: &mut [u32; 13]) {
    out1[0] = (0x1 as u32);
    out1[1] = 0x8508c000;
    out1[2] = 0x30000000;
    out1[3] = 0x170b5d44;
    out1[4] = 0xba094800;
    out1[5] = 0x1ef3622f;
    out1[6] = 0xf5138f;
    out1[7] = 0x1a22d9f3;
    out1[8] = 0x6ca1493b;
    out1[9] = 0xc63b05c0;
    out1[10] = 0x17c510ea;
    out1[11] = 0x1ae3a46;
    out1[12] = (0x0 as u32);
}

/// The function fp_divstep_precomp returns the precomputed value for Bernstein-Yang-inversion (in montgomery form).
///
/// Postconditions:
///   eval (from_montgomery out1) = ⌊(m - 1) / 2⌋^(if ⌊log2 m⌋ + 1 < 46 then ⌊(49 * (⌊log2 m⌋ + 1) + 80) / 17⌋ else ⌊(49 * (⌊log2 m⌋ + 1) + 57) / 17⌋)
///   0 ≤ eval out1 < m
///
/// Output Bounds:
///   out1: [[0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff]]
pub fn fp_divstep_precomp(out1: &mut [u32; 12]) {
    out1[0] = 0x2eebc317;
    out1[1] = 0xeb11183b;
    out1[2] = 0xfce381c0;
    out1[3] = 0x447e9167;
    out1[4] = 0xe1b8e754;
    out1[5] = 0xd3d82e38;
    out1[6] = 0x7643f061;
    out1[7] = 0xa29ef9d4;
    out1[8] = 0xaf8a8f8e;
    out1[9] = 0x10aa1869;
    out1[10] = 0xbb6d9e65;
    out1[11] = 0xb5d780;
}

/// The function fp_divstep computes a divstep.
///
/// Preconditions:
///   0 ≤ eval arg4 < m
///   0 ≤ eval arg5 < m
/// Postconditions:
///   out1 = (if 0 < arg1 ∧ (twos_complement_eval arg3) is odd then 1 - arg1 else 1 + arg1)
///   twos_complement_eval out2 = (if 0 < arg1 ∧ (twos_complement_eval arg3) is odd then twos_complement_eval arg3 else twos_complement_eval arg2)
///   twos_complement_eval out3 = (if 0 < arg1 ∧ (twos_complement_eval arg3) is odd then ⌊(twos_complement_eval arg3 - twos_complement_eval arg2) / 2⌋ else ⌊(twos_complement_eval arg3 + (twos_complement_eval arg3 mod 2) * twos_complement_eval arg2) / 2⌋)
///   eval (from_montgomery out4) mod m = (if 0 < arg1 ∧ (twos_complement_eval arg3) is odd then (2 * eval (from_montgomery arg5)) mod m else (2 * eval (from_montgomery arg4)) mod m)
///   eval (from_montgomery out5) mod m = (if 0 < arg1 ∧ (twos_complement_eval arg3) is odd then (eval (from_montgomery arg4) - eval (from_montgomery arg4)) mod m else (eval (from_montgomery arg5) + (twos_complement_eval arg3 mod 2) * eval (from_montgomery arg4)) mod m)
///   0 ≤ eval out5 < m
///   0 ≤ eval out5 < m
///   0 ≤ eval out2 < m
///   0 ≤ eval out3 < m
///
/// Input Bounds:
///   arg1: [0x0 ~> 0xffffffff]
///   arg2: [[0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff]]
///   arg3: [[0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff]]
///   arg4: [[0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff]]
///   arg5: [[0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff]]
/// Output Bounds:
///   out1: [0x0 ~> 0xffffffff]
///   out2: [[0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff]]
///   out3: [[0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff]]
///   out4: [[0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff]]
///   out5: [[0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff], [0x0 ~> 0xffffffff]]
pub fn fp_divstep(
    out1: &mut u32,
    out2: &mut [u32; 13],
    out3: &mut [u32; 13],
    out4: &mut [u32; 12],
    out5: &mut [u32; 12],
    arg1: u32,
    arg2: &[u32; 13],
    arg3: &[u32; 13],
    arg4: &[u32; 12],
    arg5: &[u32; 12],
) {
    let mut x1: u32 = 0;
    let mut x2: FpU1 = 0;
    fp_addcarryx_u32(&mut x1, &mut x2, 0x0, (!arg1), (0x1 as u32));
    let x3: FpU1 = (((x1 >> 31) as FpU1) & (((arg3[0]) & (0x1 as u32)) as FpU1));
    let mut x4: u32 = 0;
    let mut x5: FpU1 = 0;
    fp_addcarryx_u32(&mut x4, &mut x5, 0x0, (!arg1), (0x1 as u32));
    let mut x6: u32 = 0;
    fp_cmovznz_u32(&mut x6, x3, arg1, x4);
    let mut x7: u32 = 0;
    fp_cmovznz_u32(&mut x7, x3, (arg2[0]), (arg3[0]));
    let mut x8: u32 = 0;
    fp_cmovznz_u32(&mut x8, x3, (arg2[1]), (arg3[1]));
    let mut x9: u32 = 0;
    fp_cmovznz_u32(&mut x9, x3, (arg2[2]), (arg3[2]));
    let mut x10: u32 = 0;
    fp_cmovznz_u32(&mut x10, x3, (arg2[3]), (arg3[3]));
    let mut x11: u32 = 0;
    fp_cmovznz_u32(&mut x11, x3, (arg2[4]), (arg3[4]));
    let mut x12: u32 = 0;
    fp_cmovznz_u32(&mut x12, x3, (arg2[5]), (arg3[5]));
    let mut x13: u32 = 0;
    fp_cmovznz_u32(&mut x13, x3, (arg2[6]), (arg3[6]));
    let mut x14: u32 = 0;
    fp_cmovznz_u32(&mut x14, x3, (arg2[7]), (arg3[7]));
    let mut x15: u32 = 0;
    fp_cmovznz_u32(&mut x15, x3, (arg2[8]), (arg3[8]));
    let mut x16: u32 = 0;
    fp_cmovznz_u32(&mut x16, x3, (arg2[9]), (arg3[9]));
    let mut x17: u32 = 0;
    fp_cmovznz_u32(&mut x17, x3, (arg2[10]), (arg3[10]));
    let mut x18: u32 = 0;
    fp_cmovznz_u32(&mut x18, x3, (arg2[11]), (arg3[11]));
    let mut x19: u32 = 0;
    fp_cmovznz_u32(&mut x19, x3, (arg2[12]), (arg3[12]));
    let mut x20: u32 = 0;
    let mut x21: FpU1 = 0;
    fp_addcarryx_u32(&mut x20, &mut x21, 0x0, (0x1 as u32), (!(arg2[0])));
    let mut x22: u32 = 0;
    let mut x23: FpU1 = 0;
    fp_addcarryx_u32(&mut x22, &mut x23, x21, (0x0 as u32), (!(arg2[1])));
    let mut x24: u32 = 0;
    let mut x25: FpU1 = 0;
    fp_addcarryx_u32(&mut x24, &mut x25, x23, (0x0 as u32), (!(arg2[2])));
    let mut x26: u32 = 0;
    let mut x27: FpU1 = 0;
    fp_addcarryx_u32(&mut x26, &mut x27, x25, (0x0 as u32), (!(arg2[3])));
    let mut x28: u32 = 0;
    let mut x29: FpU1 = 0;
    fp_addcarryx_u32(&mut x28, &mut x29, x27, (0x0 as u32), (!(arg2[4])));
    let mut x30: u32 = 0;
    let mut x31: FpU1 = 0;
    fp_addcarryx_u32(&mut x30, &mut x31, x29, (0x0 as u32), (!(arg2[5])));
    let mut x32: u32 = 0;
    let mut x33: FpU1 = 0;
    fp_addcarryx_u32(&mut x32, &mut x33, x31, (0x0 as u32), (!(arg2[6])));
    let mut x34: u32 = 0;
    let mut x35: FpU1 = 0;
    fp_addcarryx_u32(&mut x34, &mut x35, x33, (0x0 as u32), (!(arg2[7])));
    let mut x36: u32 = 0;
    let mut x37: FpU1 = 0;
    fp_addcarryx_u32(&mut x36, &mut x37, x35, (0x0 as u32), (!(arg2[8])));
    let mut x38: u32 = 0;
    let mut x39: FpU1 = 0;
    fp_addcarryx_u32(&mut x38, &mut x39, x37, (0x0 as u32), (!(arg2[9])));
    let mut x40: u32 = 0;
    let mut x41: FpU1 = 0;
    fp_addcarryx_u32(&mut x40, &mut x41, x39, (0x0 as u32), (!(arg2[10])));
    let mut x42: u32 = 0;
    let mut x43: FpU1 = 0;
    fp_addcarryx_u32(&mut x42, &mut x43, x41, (0x0 as u32), (!(arg2[11])));
    let mut x44: u32 = 0;
    let mut x45: FpU1 = 0;
    fp_addcarryx_u32(&mut x44, &mut x45, x43, (0x0 as u32), (!(arg2[12])));
    let mut x46: u32 = 0;
    fp_cmovznz_u32(&mut x46, x3, (arg3[0]), x20);
    let mut x47: u32 = 0;
    fp_cmovznz_u32(&mut x47, x3, (arg3[1]), x22);
    let mut x48: u32 = 0;
    fp_cmovznz_u32(&mut x48, x3, (arg3[2]), x24);
    let mut x49: u32 = 0;
    fp_cmovznz_u32(&mut x49, x3, (arg3[3]), x26);
    let mut x50: u32 = 0;
    fp_cmovznz_u32(&mut x50, x3, (arg3[4]), x28);
    let mut x51: u32 = 0;
    fp_cmovznz_u32(&mut x51, x3, (arg3[5]), x30);
    let mut x52: u32 = 0;
    fp_cmovznz_u32(&mut x52, x3, (arg3[6]), x32);
    let mut x53: u32 = 0;
    fp_cmovznz_u32(&mut x53, x3, (arg3[7]), x34);
    let mut x54: u32 = 0;
    fp_cmovznz_u32(&mut x54, x3, (arg3[8]), x36);
    let mut x55: u32 = 0;
    fp_cmovznz_u32(&mut x55, x3, (arg3[9]), x38);
    let mut x56: u32 = 0;
    fp_cmovznz_u32(&mut x56, x3, (arg3[10]), x40);
    let mut x57: u32 = 0;
    fp_cmovznz_u32(&mut x57, x3, (arg3[11]), x42);
    let mut x58: u32 = 0;
    fp_cmovznz_u32(&mut x58, x3, (arg3[12]), x44);
    let mut x59: u32 = 0;
    fp_cmovznz_u32(&mut x59, x3, (arg4[0]), (arg5[0]));
    let mut x60: u32 = 0;
    fp_cmovznz_u32(&mut x60, x3, (arg4[1]), (arg5[1]));
    let mut x61: u32 = 0;
    fp_cmovznz_u32(&mut x61, x3, (arg4[2]), (arg5[2]));
    let mut x62: u32 = 0;
    fp_cmovznz_u32(&mut x62, x3, (arg4[3]), (arg5[3]));
    let mut x63: u32 = 0;
    fp_cmovznz_u32(&mut x63, x3, (arg4[4]), (arg5[4]));
    let mut x64: u32 = 0;
    fp_cmovznz_u32(&mut x64, x3, (arg4[5]), (arg5[5]));
    let mut x65: u32 = 0;
    fp_cmovznz_u32(&mut x65, x3, (arg4[6]), (arg5[6]));
    let mut x66: u32 = 0;
    fp_cmovznz_u32(&mut x66, x3, (arg4[7]), (arg5[7]));
    let mut x67: u32 = 0;
    fp_cmovznz_u32(&mut x67, x3, (arg4[8]), (arg5[8]));
    let mut x68: u32 = 0;
    fp_cmovznz_u32(&mut x68, x3, (arg4[9]), (arg5[9]));
    let mut x69: u32 = 0;
    fp_cmovznz_u32(&mut x69, x3, (arg4[10]), (arg5[10]));
    let mut x70: u32 = 0;
    fp_cmovznz_u32(&mut x70, x3, (arg4[11]), (arg5[11]));
    let mut x71: u32 = 0;
    let mut x72: FpU1 = 0;
    fp_addcarryx_u32(&mut x71, &mut x72, 0x0, x59, x59);
    let mut x73: u32 = 0;
    let mut x74: FpU1 = 0;
    fp_addcarryx_u32(&mut x73, &mut x74, x72, x60, x60);
    let mut x75: u32 = 0;
    let mut x76: FpU1 = 0;
    fp_addcarryx_u32(&mut x75, &mut x76, x74, x61, x61);
    let mut x77: u32 = 0;
    let mut x78: FpU1 = 0;
    fp_addcarryx_u32(&mut x77, &mut x78, x76, x62, x62);
    let mut x79: u32 = 0;
    let mut x80: FpU1 = 0;
    fp_addcarryx_u32(&mut x79, &mut x80, x78, x63, x63);
    let mut x81: u32 = 0;
    let mut x82: FpU1 = 0;
    fp_addcarryx_u32(&mut x81, &mut x82, x80, x64, x64);
    let mut x83: u32 = 0;
    let mut x84: FpU1 = 0;
    fp_addcarryx_u32(&mut x83, &mut x84, x82, x65, x65);
    let mut x85: u32 = 0;
    let mut x86: FpU1 = 0;
    fp_addcarryx_u32(&mut x85, &mut x86, x84, x66, x66);
    let mut x87: u32 = 0;
    let mut x88: FpU1 = 0;
    fp_addcarryx_u32(&mut x87, &mut x88, x86, x67, x67);
    let mut x89: u32 = 0;
    let mut x90: FpU1 = 0;
    fp_addcarryx_u32(&mut x89, &mut x90, x88, x68, x68);
    let mut x91: u32 = 0;
    let mut x92: FpU1 = 0;
    fp_addcarryx_u32(&mut x91, &mut x92, x90, x69, x69);
    let mut x93: u32 = 0;
    let mut x94: FpU1 = 0;
    fp_addcarryx_u32(&mut x93, &mut x94, x92, x70, x70);
    let mut x95: u32 = 0;
    let mut x96: FpU1 = 0;
    fp_subborrowx_u32(&mut x95, &mut x96, 0x0, x71, (0x1 as u32));
    let mut x97: u32 = 0;
    let mut x98: FpU1 = 0;
    fp_subborrowx_u32(&mut x97, &mut x98, x96, x73, 0x8508c000);
    let mut x99: u32 = 0;
    let mut x100: FpU1 = 0;
    fp_subborrowx_u32(&mut x99, &mut x100, x98, x75, 0x30000000);
    let mut x101: u32 = 0;
    let mut x102: FpU1 = 0;
    fp_subborrowx_u32(&mut x101, &mut x102, x100, x77, 0x170b5d44);
    let mut x103: u32 = 0;
    let mut x104: FpU1 = 0;
    fp_subborrowx_u32(&mut x103, &mut x104, x102, x79, 0xba094800);
    let mut x105: u32 = 0;
    let mut x106: FpU1 = 0;
    fp_subborrowx_u32(&mut x105, &mut x106, x104, x81, 0x1ef3622f);
    let mut x107: u32 = 0;
    let mut x108: FpU1 = 0;
    fp_subborrowx_u32(&mut x107, &mut x108, x106, x83, 0xf5138f);
    let mut x109: u32 = 0;
    let mut x110: FpU1 = 0;
    fp_subborrowx_u32(&mut x109, &mut x110, x108, x85, 0x1a22d9f3);
    let mut x111: u32 = 0;
    let mut x112: FpU1 = 0;
    fp_subborrowx_u32(&mut x111, &mut x112, x110, x87, 0x6ca1493b);
    let mut x113: u32 = 0;
    let mut x114: FpU1 = 0;
    fp_subborrowx_u32(&mut x113, &mut x114, x112, x89, 0xc63b05c0);
    let mut x115: u32 = 0;
    let mut x116: FpU1 = 0;
    fp_subborrowx_u32(&mut x115, &mut x116, x114, x91, 0x17c510ea);
    let mut x117: u32 = 0;
    let mut x118: FpU1 = 0;
    fp_subborrowx_u32(&mut x117, &mut x118, x116, x93, 0x1ae3a46);
    let mut x119: u32 = 0;
    let mut x120: FpU1 = 0;
    fp_subborrowx_u32(&mut x119, &mut x120, x118, (x94 as u32), (0x0 as u32));
    let x121: u32 = (arg4[11]);
    let x122: u32 = (arg4[10]);
    let x123: u32 = (arg4[9]);
    let x124: u32 = (arg4[8]);
    let x125: u32 = (arg4[7]);
    let x126: u32 = (arg4[6]);
    let x127: u32 = (arg4[5]);
    let x128: u32 = (arg4[4]);
    let x129: u32 = (arg4[3]);
    let x130: u32 = (arg4[2]);
    let x131: u32 = (arg4[1]);
    let x132: u32 = (arg4[0]);
    let mut x133: u32 = 0;
    let mut x134: FpU1 = 0;
    fp_subborrowx_u32(&mut x133, &mut x134, 0x0, (0x0 as u32), x132);
    let mut x135: u32 = 0;
    let mut x136: FpU1 = 0;
    fp_subborrowx_u32(&mut x135, &mut x136, x134, (0x0 as u32), x131);
    let mut x137: u32 = 0;
    let mut x138: FpU1 = 0;
    fp_subborrowx_u32(&mut x137, &mut x138, x136, (0x0 as u32), x130);
    let mut x139: u32 = 0;
    let mut x140: FpU1 = 0;
    fp_subborrowx_u32(&mut x139, &mut x140, x138, (0x0 as u32), x129);
    let mut x141: u32 = 0;
    let mut x142: FpU1 = 0;
    fp_subborrowx_u32(&mut x141, &mut x142, x140, (0x0 as u32), x128);
    let mut x143: u32 = 0;
    let mut x144: FpU1 = 0;
    fp_subborrowx_u32(&mut x143, &mut x144, x142, (0x0 as u32), x127);
    let mut x145: u32 = 0;
    let mut x146: FpU1 = 0;
    fp_subborrowx_u32(&mut x145, &mut x146, x144, (0x0 as u32), x126);
    let mut x147: u32 = 0;
    let mut x148: FpU1 = 0;
    fp_subborrowx_u32(&mut x147, &mut x148, x146, (0x0 as u32), x125);
    let mut x149: u32 = 0;
    let mut x150: FpU1 = 0;
    fp_subborrowx_u32(&mut x149, &mut x150, x148, (0x0 as u32), x124);
    let mut x151: u32 = 0;
    let mut x152: FpU1 = 0;
    fp_subborrowx_u32(&mut x151, &mut x152, x150, (0x0 as u32), x123);
    let mut x153: u32 = 0;
    let mut x154: FpU1 = 0;
    fp_subborrowx_u32(&mut x153, &mut x154, x152, (0x0 as u32), x122);
    let mut x155: u32 = 0;
    let mut x156: FpU1 = 0;
    fp_subborrowx_u32(&mut x155, &mut x156, x154, (0x0 as u32), x121);
    let mut x157: u32 = 0;
    fp_cmovznz_u32(&mut x157, x156, (0x0 as u32), 0xffffffff);
    let mut x158: u32 = 0;
    let mut x159: FpU1 = 0;
    fp_addcarryx_u32(
        &mut x158,
        &mut x159,
        0x0,
        x133,
        (((x157 & (0x1 as u32)) as FpU1) as u32),
    );
    let mut x160: u32 = 0;
    let mut x161: FpU1 = 0;
    fp_addcarryx_u32(&mut x160, &mut x161, x159, x135, (x157 & 0x8508c000));
    let mut x162: u32 = 0;
    let mut x163: FpU1 = 0;
    fp_addcarryx_u32(&mut x162, &mut x163, x161, x137, (x157 & 0x30000000));
    let mut x164: u32 = 0;
    let mut x165: FpU1 = 0;
    fp_addcarryx_u32(&mut x164, &mut x165, x163, x139, (x157 & 0x170b5d44));
    let mut x166: u32 = 0;
    let mut x167: FpU1 = 0;
    fp_addcarryx_u32(&mut x166, &mut x167, x165, x141, (x157 & 0xba094800));
    let mut x168: u32 = 0;
    let mut x169: FpU1 = 0;
    fp_addcarryx_u32(&mut x168, &mut x169, x167, x143, (x157 & 0x1ef3622f));
    let mut x170: u32 = 0;
    let mut x171: FpU1 = 0;
    fp_addcarryx_u32(&mut x170, &mut x171, x169, x145, (x157 & 0xf5138f));
    let mut x172: u32 = 0;
    let mut x173: FpU1 = 0;
    fp_addcarryx_u32(&mut x172, &mut x173, x171, x147, (x157 & 0x1a22d9f3));
    let mut x174: u32 = 0;
    let mut x175: FpU1 = 0;
    fp_addcarryx_u32(&mut x174, &mut x175, x173, x149, (x157 & 0x6ca1493b));
    let mut x176: u32 = 0;
    let mut x177: FpU1 = 0;
    fp_addcarryx_u32(&mut x176, &mut x177, x175, x151, (x157 & 0xc63b05c0));
    let mut x178: u32 = 0;
    let mut x179: FpU1 = 0;
    fp_addcarryx_u32(&mut x178, &mut x179, x177, x153, (x157 & 0x17c510ea));
    let mut x180: u32 = 0;
    let mut x181: FpU1 = 0;
    fp_addcarryx_u32(&mut x180, &mut x181, x179, x155, (x157 & 0x1ae3a46));
    let mut x182: u32 = 0;
    fp_cmovznz_u32(&mut x182, x3, (arg5[0]), x158);
    let mut x183: u32 = 0;
    fp_cmovznz_u32(&mut x183, x3, (arg5[1]), x160);
    let mut x184: u32 = 0;
    fp_cmovznz_u32(&mut x184, x3, (arg5[2]), x162);
    let mut x185: u32 = 0;
    fp_cmovznz_u32(&mut x185, x3, (arg5[3]), x164);
    let mut x186: u32 = 0;
    fp_cmovznz_u32(&mut x186, x3, (arg5[4]), x166);
    let mut x187: u32 = 0;
    fp_cmovznz_u32(&mut x187, x3, (arg5[5]), x168);
    let mut x188: u32 = 0;
    fp_cmovznz_u32(&mut x188, x3, (arg5[6]), x170);
    let mut x189: u32 = 0;
    fp_cmovznz_u32(&mut x189, x3, (arg5[7]), x172);
    let mut x190: u32 = 0;
    fp_cmovznz_u32(&mut x190, x3, (arg5[8]), x174);
    let mut x191: u32 = 0;
    fp_cmovznz_u32(&mut x191, x3, (arg5[9]), x176);
    let mut x192: u32 = 0;
    fp_cmovznz_u32(&mut x192, x3, (arg5[10]), x178);
    let mut x193: u32 = 0;
    fp_cmovznz_u32(&mut x193, x3, (arg5[11]), x180);
    let x194: FpU1 = ((x46 & (0x1 as u32)) as FpU1);
    let mut x195: u32 = 0;
    fp_cmovznz_u32(&mut x195, x194, (0x0 as u32), x7);
    let mut x196: u32 = 0;
    fp_cmovznz_u32(&mut x196, x194, (0x0 as u32), x8);
    let mut x197: u32 = 0;
    fp_cmovznz_u32(&mut x197, x194, (0x0 as u32), x9);
    let mut x198: u32 = 0;
    fp_cmovznz_u32(&mut x198, x194, (0x0 as u32), x10);
    let mut x199: u32 = 0;
    fp_cmovznz_u32(&mut x199, x194, (0x0 as u32), x11);
    let mut x200: u32 = 0;
    fp_cmovznz_u32(&mut x200, x194, (0x0 as u32), x12);
    let mut x201: u32 = 0;
    fp_cmovznz_u32(&mut x201, x194, (0x0 as u32), x13);
    let mut x202: u32 = 0;
    fp_cmovznz_u32(&mut x202, x194, (0x0 as u32), x14);
    let mut x203: u32 = 0;
    fp_cmovznz_u32(&mut x203, x194, (0x0 as u32), x15);
    let mut x204: u32 = 0;
    fp_cmovznz_u32(&mut x204, x194, (0x0 as u32), x16);
    let mut x205: u32 = 0;
    fp_cmovznz_u32(&mut x205, x194, (0x0 as u32), x17);
    let mut x206: u32 = 0;
    fp_cmovznz_u32(&mut x206, x194, (0x0 as u32), x18);
    let mut x207: u32 = 0;
    fp_cmovznz_u32(&mut x207, x194, (0x0 as u32), x19);
    let mut x208: u32 = 0;
    let mut x209: FpU1 = 0;
    fp_addcarryx_u32(&mut x208, &mut x209, 0x0, x46, x195);
    let mut x210: u32 = 0;
    let mut x211: FpU1 = 0;
    fp_addcarryx_u32(&mut x210, &mut x211, x209, x47, x196);
    let mut x212: u32 = 0;
    let mut x213: FpU1 = 0;
    fp_addcarryx_u32(&mut x212, &mut x213, x211, x48, x197);
    let mut x214: u32 = 0;
    let mut x215: FpU1 = 0;
    fp_addcarryx_u32(&mut x214, &mut x215, x213, x49, x198);
    let mut x216: u32 = 0;
    let mut x217: FpU1 = 0;
    fp_addcarryx_u32(&mut x216, &mut x217, x215, x50, x199);
    let mut x218: u32 = 0;
    let mut x219: FpU1 = 0;
    fp_addcarryx_u32(&mut x218, &mut x219, x217, x51, x200);
    let mut x220: u32 = 0;
    let mut x221: FpU1 = 0;
    fp_addcarryx_u32(&mut x220, &mut x221, x219, x52, x201);
    let mut x222: u32 = 0;
    let mut x223: FpU1 = 0;
    fp_addcarryx_u32(&mut x222, &mut x223, x221, x53, x202);
    let mut x224: u32 = 0;
    let mut x225: FpU1 = 0;
    fp_addcarryx_u32(&mut x224, &mut x225, x223, x54, x203);
    let mut x226: u32 = 0;
    let mut x227: FpU1 = 0;
    fp_addcarryx_u32(&mut x226, &mut x227, x225, x55, x204);
    let mut x228: u32 = 0;
    let mut x229: FpU1 = 0;
    fp_addcarryx_u32(&mut x228, &mut x229, x227, x56, x205);
    let mut x230: u32 = 0;
    let mut x231: FpU1 = 0;
    fp_addcarryx_u32(&mut x230, &mut x231, x229, x57, x206);
    let mut x232: u32 = 0;
    let mut x233: FpU1 = 0;
    fp_addcarryx_u32(&mut x232, &mut x233, x231, x58, x207);
    let mut x234: u32 = 0;
    fp_cmovznz_u32(&mut x234, x194, (0x0 as u32), x59);
    let mut x235: u32 = 0;
    fp_cmovznz_u32(&mut x235, x194, (0x0 as u32), x60);
    let mut x236: u32 = 0;
    fp_cmovznz_u32(&mut x236, x194, (0x0 as u32), x61);
    let mut x237: u32 = 0;
    fp_cmovznz_u32(&mut x237, x194, (0x0 as u32), x62);
    let mut x238: u32 = 0;
    fp_cmovznz_u32(&mut x238, x194, (0x0 as u32), x63);
    let mut x239: u32 = 0;
    fp_cmovznz_u32(&mut x239, x194, (0x0 as u32), x64);
    let mut x240: u32 = 0;
    fp_cmovznz_u32(&mut x240, x194, (0x0 as u32), x65);
    let mut x241: u32 = 0;
    fp_cmovznz_u32(&mut x241, x194, (0x0 as u32), x66);
    let mut x242: u32 = 0;
    fp_cmovznz_u32(&mut x242, x194, (0x0 as u32), x67);
    let mut x243: u32 = 0;
    fp_cmovznz_u32(&mut x243, x194, (0x0 as u32), x68);
    let mut x244: u32 = 0;
    fp_cmovznz_u32(&mut x244, x194, (0x0 as u32), x69);
    let mut x245: u32 = 0;
    fp_cmovznz_u32(&mut x245, x194, (0x0 as u32), x70);
    let mut x246: u32 = 0;
    let mut x247: FpU1 = 0;
    fp_addcarryx_u32(&mut x246, &mut x247, 0x0, x182, x234);
    let mut x248: u32 = 0;
    let mut x249: FpU1 = 0;
    fp_addcarryx_u32(&mut x248, &mut x249, x247, x183, x235);
    let mut x250: u32 = 0;
    let mut x251: FpU1 = 0;
    fp_addcarryx_u32(&mut x250, &mut x251, x249, x184, x236);
    let mut x252: u32 = 0;
    let mut x253: FpU1 = 0;
    fp_addcarryx_u32(&mut x252, &mut x253, x251, x185, x237);
    let mut x254: u32 = 0;
    let mut x255: FpU1 = 0;
    fp_addcarryx_u32(&mut x254, &mut x255, x253, x186, x238);
    let mut x256: u32 = 0;
    let mut x257: FpU1 = 0;
    fp_addcarryx_u32(&mut x256, &mut x257, x255, x187, x239);
    let mut x258: u32 = 0;
    let mut x259: FpU1 = 0;
    fp_addcarryx_u32(&mut x258, &mut x259, x257, x188, x240);
    let mut x260: u32 = 0;
    let mut x261: FpU1 = 0;
    fp_addcarryx_u32(&mut x260, &mut x261, x259, x189, x241);
    let mut x262: u32 = 0;
    let mut x263: FpU1 = 0;
    fp_addcarryx_u32(&mut x262, &mut x263, x261, x190, x242);
    let mut x264: u32 = 0;
    let mut x265: FpU1 = 0;
    fp_addcarryx_u32(&mut x264, &mut x265, x263, x191, x243);
    let mut x266: u32 = 0;
    let mut x267: FpU1 = 0;
    fp_addcarryx_u32(&mut x266, &mut x267, x265, x192, x244);
    let mut x268: u32 = 0;
    let mut x269: FpU1 = 0;
    fp_addcarryx_u32(&mut x268, &mut x269, x267, x193, x245);
    let mut x270: u32 = 0;
    let mut x271: FpU1 = 0;
    fp_subborrowx_u32(&mut x270, &mut x271, 0x0, x246, (0x1 as u32));
    let mut x272: u32 = 0;
    let mut x273: FpU1 = 0;
    fp_subborrowx_u32(&mut x272, &mut x273, x271, x248, 0x8508c000);
    let mut x274: u32 = 0;
    let mut x275: FpU1 = 0;
    fp_subborrowx_u32(&mut x274, &mut x275, x273, x250, 0x30000000);
    let mut x276: u32 = 0;
    let mut x277: FpU1 = 0;
    fp_subborrowx_u32(&mut x276, &mut x277, x275, x252, 0x170b5d44);
    let mut x278: u32 = 0;
    let mut x279: FpU1 = 0;
    fp_subborrowx_u32(&mut x278, &mut x279, x277, x254, 0xba094800);
    let mut x280: u32 = 0;
    let mut x281: FpU1 = 0;
    fp_subborrowx_u32(&mut x280, &mut x281, x279, x256, 0x1ef3622f);
    let mut x282: u32 = 0;
    let mut x283: FpU1 = 0;
    fp_subborrowx_u32(&mut x282, &mut x283, x281, x258, 0xf5138f);
    let mut x284: u32 = 0;
    let mut x285: FpU1 = 0;
    fp_subborrowx_u32(&mut x284, &mut x285, x283, x260, 0x1a22d9f3);
    let mut x286: u32 = 0;
    let mut x287: FpU1 = 0;
    fp_subborrowx_u32(&mut x286, &mut x287, x285, x262, 0x6ca1493b);
    let mut x288: u32 = 0;
    let mut x289: FpU1 = 0;
    fp_subborrowx_u32(&mut x288, &mut x289, x287, x264, 0xc63b05c0);
    let mut x290: u32 = 0;
    let mut x291: FpU1 = 0;
    fp_subborrowx_u32(&mut x290, &mut x291, x289, x266, 0x17c510ea);
    let mut x292: u32 = 0;
    let mut x293: FpU1 = 0;
    fp_subborrowx_u32(&mut x292, &mut x293, x291, x268, 0x1ae3a46);
    let mut x294: u32 = 0;
    let mut x295: FpU1 = 0;
    fp_subborrowx_u32(&mut x294, &mut x295, x293, (x269 as u32), (0x0 as u32));
    let mut x296: u32 = 0;
    let mut x297: FpU1 = 0;
    fp_addcarryx_u32(&mut x296, &mut x297, 0x0, x6, (0x1 as u32));
    let x298: u32 = ((x208 >> 1) | ((x210 << 31) & 0xffffffff));
    let x299: u32 = ((x210 >> 1) | ((x212 << 31) & 0xffffffff));
    let x300: u32 = ((x212 >> 1) | ((x214 << 31) & 0xffffffff));
    let x301: u32 = ((x214 >> 1) | ((x216 << 31) & 0xffffffff));
    let x302: u32 = ((x216 >> 1) | ((x218 << 31) & 0xffffffff));
    let x303: u32 = ((x218 >> 1) | ((x220 << 31) & 0xffffffff));
    let x304: u32 = ((x220 >> 1) | ((x222 << 31) & 0xffffffff));
    let x305: u32 = ((x222 >> 1) | ((x224 << 31) & 0xffffffff));
    let x306: u32 = ((x224 >> 1) | ((x226 << 31) & 0xffffffff));
    let x307: u32 = ((x226 >> 1) | ((x228 << 31) & 0xffffffff));
    let x308: u32 = ((x228 >> 1) | ((x230 << 31) & 0xffffffff));
    let x309: u32 = ((x230 >> 1) | ((x232 << 31) & 0xffffffff));
    let x310: u32 = ((x232 & 0x80000000) | (x232 >> 1));
    let mut x311: u32 = 0;
    fp_cmovznz_u32(&mut x311, x120, x95, x71);
    let mut x312: u32 = 0;
    fp_cmovznz_u32(&mut x312, x120, x97, x73);
    let mut x313: u32 = 0;
    fp_cmovznz_u32(&mut x313, x120, x99, x75);
    let mut x314: u32 = 0;
    fp_cmovznz_u32(&mut x314, x120, x101, x77);
    let mut x315: u32 = 0;
    fp_cmovznz_u32(&mut x315, x120, x103, x79);
    let mut x316: u32 = 0;
    fp_cmovznz_u32(&mut x316, x120, x105, x81);
    let mut x317: u32 = 0;
    fp_cmovznz_u32(&mut x317, x120, x107, x83);
    let mut x318: u32 = 0;
    fp_cmovznz_u32(&mut x318, x120, x109, x85);
    let mut x319: u32 = 0;
    fp_cmovznz_u32(&mut x319, x120, x111, x87);
    let mut x320: u32 = 0;
    fp_cmovznz_u32(&mut x320, x120, x113, x89);
    let mut x321: u32 = 0;
    fp_cmovznz_u32(&mut x321, x120, x115, x91);
    let mut x322: u32 = 0;
    fp_cmovznz_u32(&mut x322, x120, x117, x93);
    let mut x323: u32 = 0;
    fp_cmovznz_u32(&mut x323, x295, x270, x246);
    let mut x324: u32 = 0;
    fp_cmovznz_u32(&mut x324, x295, x272, x248);
    let mut x325: u32 = 0;
    fp_cmovznz_u32(&mut x325, x295, x274, x250);
    let mut x326: u32 = 0;
    fp_cmovznz_u32(&mut x326, x295, x276, x252);
    let mut x327: u32 = 0;
    fp_cmovznz_u32(&mut x327, x295, x278, x254);
    let mut x328: u32 = 0;
    fp_cmovznz_u32(&mut x328, x295, x280, x256);
    let mut x329: u32 = 0;
    fp_cmovznz_u32(&mut x329, x295, x282, x258);
    let mut x330: u32 = 0;
    fp_cmovznz_u32(&mut x330, x295, x284, x260);
    let mut x331: u32 = 0;
    fp_cmovznz_u32(&mut x331, x295, x286, x262);
    let mut x332: u32 = 0;
    fp_cmovznz_u32(&mut x332, x295, x288, x264);
    let mut x333: u32 = 0;
    fp_cmovznz_u32(&mut x333, x295, x290, x266);
    let mut x334: u32 = 0;
    fp_cmovznz_u32(&mut x334, x295, x292, x268);
    *out1 = x296;
    out2[0] = x7;
    out2[1] = x8;
    out2[2] = x9;
    out2[3] = x10;
    out2[4] = x11;
    out2[5] = x12;
    out2[6] = x13;
    out2[7] = x14;
    out2[8] = x15;
    out2[9] = x16;
    out2[10] = x17;
    out2[11] = x18;
    out2[12] = x19;
    out3[0] = x298;
    out3[1] = x299;
    out3[2] = x300;
    out3[3] = x301;
    out3[4] = x302;
    out3[5] = x303;
    out3[6] = x304;
    out3[7] = x305;
    out3[8] = x306;
    out3[9] = x307;
    out3[10] = x308;
    out3[11] = x309;
    out3[12] = x310;
    out4[0] = x311;
    out4[1] = x312;
    out4[2] = x313;
    out4[3] = x314;
    out4[4] = x315;
    out4[5] = x316;
    out4[6] = x317;
    out4[7] = x318;
    out4[8] = x319;
    out4[9] = x320;
    out4[10] = x321;
    out4[11] = x322;
    out5[0] = x323;
    out5[1] = x324;
    out5[2] = x325;
    out5[3] = x326;
    out5[4] = x327;
    out5[5] = x328;
    out5[6] = x329;
    out5[7] = x330;
    out5[8] = x331;
    out5[9] = x332;
    out5[10] = x333;
    out5[11] = x334;
}
