// GENERATED by tools/gen_worlds.py -- replacement for src/fields.rs under cfg(festa_mc).
pub mod FpFESTA {
    const N: usize = 2;
    const BITLEN: usize = 77;
    const MODULUS: [u64; N] = [0x75BE4B53FFFFFFFF, 0x0000000000001517];
    const HALF_MODULUS: [u64; N] = [0xBADF25AA00000000, 0x0000000000000A8B];
    const R_VAL: [u64; N] = [0x48823A27DE3874B7, 0x0000000000000631];
    const MINUS_R_VAL: [u64; N] = [0x2D3C112C21C78B48, 0x0000000000000EE6];
    const DR_VAL: [u64; N] = [0x9104744FBC70E96E, 0x0000000000000C62];
    const TR_VAL: [u64; N] = [0xD986AE779AA95E25, 0x0000000000001293];
    const QR_VAL: [u64; N] = [0xAC4A9D4B78E1D2DD, 0x00000000000003AD];
    const R2_VAL: [u64; N] = [0x5611964931CFA3BA, 0x00000000000004E9];
    const P0I: u64 = 8484301572161929217;
    const TFIXDIV_VAL: [u64; N] = [0x2A75405BDAB96CC8, 0x0000000000000500];
    const TDEC_VAL: [u64; N] = [0x5701009A143F02CB, 0x00000000000000C2];
    const WIN_LEN: usize = 5;
    const SQRT_EH: [u8; 9] = [20, 26, 18, 28, 27, 26, 29, 2, 21];
    const SQRT_EL: usize = 6;
    const FOURTH_ROOT_EH: [u8; 9] = [10, 13, 9, 30, 13, 29, 14, 17, 10];
    const FOURTH_ROOT_EL: usize = 6;
    const P1: u64 = 2830872050;
    const P1DIV_M: u64 = 9540448959004285661;
    crate::finitefield::fp_gen::define_fp_core! {}
}
pub mod FpFESTAExt {
    use num_bigint::BigUint;
    use super::FpFESTA::Fp;
    const NQR_RE: Fp = Fp::new([0xE999AEE6AE348F28, 0x00000000000013BD]);
    pub const D1: [u32; 1] = [0x0000023F];
    pub const D1_FACTORED: [(u32, u32); 2] = [(5, 2), (23, 1)];
    pub const D2: [u32; 1] = [0x000000D1];
    pub const D2_FACTORED: [(u32, u32); 2] = [(11, 1), (19, 1)];
    pub const DA: [u32; 1] = [0x00002059];
    pub const DA_FACTORED: [(u32, u32); 2] = [(13, 2), (7, 2)];
    pub const DA1: [u32; 1] = [0x000000A9];
    pub const DA1_FACTORED: [(u32, u32); 1] = [(13, 1)];
    pub const DA2: [u32; 1] = [0x00000031];
    pub const DA2_FACTORED: [(u32, u32); 1] = [(7, 1)];
    pub const M1: [u32; 1] = [0x000000A3];
    pub const M2: [u32; 1] = [0x00000199];
    pub const L_POWER: u32 = 34;
    pub const THETA_ISOGENY_LENGTH: u32 = 32;
    pub const BASIS_ORDER: [u32; 3] = [0x00000000, 0x75BE4B54, 0x00001517];
    pub const BIGUINT_MODULUS: [u32; 3] = [0xFFFFFFFF, 0x75BE4B53, 0x00001517];
    pub const THETA_STRATEGY: [usize; 31] = [11, 8, 5, 3, 2, 1, 1, 1, 1, 1, 2, 1, 1, 1, 3, 2, 1, 1, 1, 1, 1, 3, 3, 2, 1, 1, 1, 1, 1, 1, 1];

    crate::finitefield::fp2_gen::define_fp2_core! {}
}
