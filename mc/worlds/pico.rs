// GENERATED by tools/gen_worlds.py -- replacement for src/fields.rs under cfg(festa_mc).
pub mod FpFESTA {
    const N: usize = 2;
    const BITLEN: usize = 68;
    const MODULUS: [u64; N] = [0x073F80000F090F5F, 0x000000000000000C];
    const HALF_MODULUS: [u64; N] = [0x039FC000078487B0, 0x0000000000000006];
    const R_VAL: [u64; N] = [0x05C70A6E6AFB263A, 0x0000000000000007];
    const MINUS_R_VAL: [u64; N] = [0x01787591A40DE925, 0x0000000000000005];
    const DR_VAL: [u64; N] = [0x044E94DCC6ED3D15, 0x0000000000000002];
    const TR_VAL: [u64; N] = [0x0A159F4B31E8634F, 0x0000000000000009];
    const QR_VAL: [u64; N] = [0x089D29B98DDA7A2A, 0x0000000000000004];
    const R2_VAL: [u64; N] = [0x8501131E0A69B785, 0x0000000000000002];
    const P0I: u64 = 4183330949121373025;
    const TFIXDIV_VAL: [u64; N] = [0xADBA65C1696B0C80, 0x0000000000000002];
    const TDEC_VAL: [u64; N] = [0x81A20EB54AE538ED, 0x000000000000000A];
    const WIN_LEN: usize = 5;
    const SQRT_EH: [u8; 14] = [24, 30, 16, 4, 28, 1, 0, 0, 0, 31, 19, 3, 16, 1];
    const SQRT_EL: usize = 0;
    const FOURTH_ROOT_EH: [u8; 13] = [12, 15, 8, 2, 30, 0, 0, 0, 16, 31, 25, 1, 24];
    const FOURTH_ROOT_EL: usize = 0;
    const P1: u64 = 3228825600;
    const P1DIV_M: u64 = 6091020528461695290;
    crate::finitefield::fp_gen::define_fp_core! {}
}
pub mod FpFESTAExt {
    use num_bigint::BigUint;
    use super::FpFESTA::Fp;
    const NQR_RE: Fp = Fp::new([0x0CEBBE9654C7B73F, 0x0000000000000006]);
    pub const D1: [u32; 1] = [0x00000005];
    pub const D1_FACTORED: [(u32, u32); 1] = [(5, 1)];
    pub const D2: [u32; 1] = [0x0000000B];
    pub const D2_FACTORED: [(u32, u32); 1] = [(11, 1)];
    pub const DA: [u32; 1] = [0x000001B9];
    pub const DA_FACTORED: [(u32, u32); 2] = [(7, 2), (3, 2)];
    pub const DA1: [u32; 1] = [0x00000031];
    pub const DA1_FACTORED: [(u32, u32); 1] = [(7, 1)];
    pub const DA2: [u32; 1] = [0x00000009];
    pub const DA2_FACTORED: [(u32, u32); 1] = [(3, 1)];
    pub const M1: [u32; 1] = [0x00000001];
    pub const M2: [u32; 1] = [0x00000001];
    pub const L_POWER: u32 = 5;
    pub const THETA_ISOGENY_LENGTH: u32 = 3;
    pub const BASIS_ORDER: [u32; 3] = [0x0F090F60, 0x073F8000, 0x0000000C];
    pub const BIGUINT_MODULUS: [u32; 3] = [0x0F090F5F, 0x073F8000, 0x0000000C];
    pub const THETA_STRATEGY: [usize; 2] = [1, 1];

    crate::finitefield::fp2_gen::define_fp2_core! {}
}
