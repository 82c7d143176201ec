// GENERATED by tools/gen_worlds.py -- replacement for src/fields.rs under cfg(festa_mc).
pub mod FpFESTA {
    const N: usize = 2;
    const BITLEN: usize = 67;
    const MODULUS: [u64; N] = [0x0000042C59323FFF, 0x0000000000000004];
    const HALF_MODULUS: [u64; N] = [0x000002162C992000, 0x0000000000000002];
    const R_VAL: [u64; N] = [0xC482EA119E00E1A9, 0x0000000000000003];
    const MINUS_R_VAL: [u64; N] = [0x3B7D1A1ABB315E56, 0x0000000000000000];
    const DR_VAL: [u64; N] = [0x8905CFF6E2CF8353, 0x0000000000000003];
    const TR_VAL: [u64; N] = [0x4D88B5DC279E24FD, 0x0000000000000003];
    const QR_VAL: [u64; N] = [0x120B9BC16C6CC6A7, 0x0000000000000003];
    const R2_VAL: [u64; N] = [0x60D64265F4DDB1CC, 0x0000000000000003];
    const P0I: u64 = 8840111460889804801;
    const TFIXDIV_VAL: [u64; N] = [0x1D9246C6E2B6B0B6, 0x0000000000000000];
    const TDEC_VAL: [u64; N] = [0xD092FEFAE4B3C968, 0x0000000000000002];
    const WIN_LEN: usize = 5;
    const SQRT_EH: [u8; 11] = [4, 25, 4, 11, 12, 1, 1, 0, 0, 0, 16];
    const SQRT_EL: usize = 2;
    const FOURTH_ROOT_EH: [u8; 11] = [18, 12, 18, 5, 22, 16, 0, 0, 0, 0, 8];
    const FOURTH_ROOT_EL: usize = 2;
    const P1: u64 = 2147483781;
    const P1DIV_M: u64 = 18446741788787091656;
    crate::finitefield::fp_gen::define_fp_core! {}
}
pub mod FpFESTAExt {
    use num_bigint::BigUint;
    use super::FpFESTA::Fp;
    const NQR_RE: Fp = Fp::new([0x9B11678BF60A09FB, 0x0000000000000002]);
    pub const D1: [u32; 1] = [0x00000003];
    pub const D1_FACTORED: [(u32, u32); 1] = [(3, 1)];
    pub const D2: [u32; 1] = [0x0000000D];
    pub const D2_FACTORED: [(u32, u32); 1] = [(13, 1)];
    pub const DA: [u32; 1] = [0x00018D81];
    pub const DA_FACTORED: [(u32, u32); 2] = [(29, 2), (11, 2)];
    pub const DA1: [u32; 1] = [0x00000349];
    pub const DA1_FACTORED: [(u32, u32); 1] = [(29, 1)];
    pub const DA2: [u32; 1] = [0x00000079];
    pub const DA2_FACTORED: [(u32, u32); 1] = [(11, 1)];
    pub const M1: [u32; 1] = [0x00000001];
    pub const M2: [u32; 1] = [0x00000001];
    pub const L_POWER: u32 = 14;
    pub const THETA_ISOGENY_LENGTH: u32 = 12;
    pub const BASIS_ORDER: [u32; 3] = [0x59324000, 0x0000042C, 0x00000004];
    pub const BIGUINT_MODULUS: [u32; 3] = [0x59323FFF, 0x0000042C, 0x00000004];
    pub const THETA_STRATEGY: [usize; 11] = [4, 3, 2, 1, 1, 1, 1, 1, 1, 1, 1];

    crate::finitefield::fp2_gen::define_fp2_core! {}
}
