// GENERATED by tools/gen_worlds.py -- replacement for src/fields.rs under cfg(festa_mc).
include!(concat!(env!("FESTA_MC_DIR"), "/tiny_fp.rs"));
pub mod FpFESTA {
    const N: usize = 2;
    const BITLEN: usize = 94;
    const MODULUS: [u64; N] = [0x3DF1FFFFFFFFFFFF, 0x000000002D6493AA];
    const HALF_MODULUS: [u64; N] = [0x1EF9000000000000, 0x0000000016B249D5];
    const R_VAL: [u64; N] = [0x03160005A3C02E5D, 0x0000000015143886];
    const MINUS_R_VAL: [u64; N] = [0x3ADBFFFA5C3FD1A2, 0x0000000018505B24];
    const DR_VAL: [u64; N] = [0x062C000B47805CBA, 0x000000002A28710C];
    const TR_VAL: [u64; N] = [0xCB500010EB408B18, 0x0000000011D815E7];
    const QR_VAL: [u64; N] = [0xCE6600168F00B975, 0x0000000026EC4E6D];
    const R2_VAL: [u64; N] = [0x6FE3E8F55D1204F6, 0x000000001829F0F6];
    const P0I: u64 = 4463630180677582849;
    const TFIXDIV_VAL: [u64; N] = [0xDC9F8201F4D395DA, 0x0000000005D76B6C];
    const TDEC_VAL: [u64; N] = [0x085ECD971C31C489, 0x0000000021C47D83];
    const WIN_LEN: usize = 5;
    const SQRT_EH: [u8; 10] = [4, 31, 30, 8, 21, 19, 4, 25, 26, 2];
    const SQRT_EL: usize = 9;
    const FOURTH_ROOT_EH: [u8; 10] = [18, 15, 15, 20, 26, 9, 18, 12, 13, 1];
    const FOURTH_ROOT_EL: usize = 9;
    const P1: u64 = 3046264488;
    const P1DIV_M: u64 = 7561556527359050539;
    crate::finitefield::fp_gen::define_fp_core! {}
}
pub mod FpFESTAExt {
    use num_bigint::BigUint;
    use super::FpFESTA::Fp;
    const NQR_RE: Fp = Fp::new([0x96A00021D6811630, 0x0000000023B02BCF]);
    pub const D1: [u32; 1] = [0x00000075];
    pub const D1_FACTORED: [(u32, u32); 2] = [(3, 2), (13, 1)];
    pub const D2: [u32; 1] = [0x00000113];
    pub const D2_FACTORED: [(u32, u32); 2] = [(5, 2), (11, 1)];
    pub const DA: [u32; 1] = [0x004E0139];
    pub const DA_FACTORED: [(u32, u32); 3] = [(7, 2), (17, 2), (19, 2)];
    pub const DA1: [u32; 1] = [0x00000031];
    pub const DA1_FACTORED: [(u32, u32); 1] = [(7, 1)];
    pub const DA2: [u32; 1] = [0x00019789];
    pub const DA2_FACTORED: [(u32, u32); 2] = [(17, 1), (19, 1)];
    pub const M1: [u32; 1] = [0x00022359];
    pub const M2: [u32; 1] = [0x000003DF];
    pub const L_POWER: u32 = 49;
    pub const THETA_ISOGENY_LENGTH: u32 = 47;
    pub const BASIS_ORDER: [u32; 3] = [0x00000000, 0x3DF20000, 0x2D6493AA];
    pub const BIGUINT_MODULUS: [u32; 3] = [0xFFFFFFFF, 0x3DF1FFFF, 0x2D6493AA];
    pub const THETA_STRATEGY: [usize; 46] = [13, 13, 8, 5, 3, 2, 1, 1, 1, 1, 1, 2, 1, 1, 1, 3, 2, 1, 1, 1, 1, 1, 5, 3, 2, 1, 1, 1, 1, 1, 2, 1, 1, 1, 5, 3, 2, 1, 1, 1, 1, 1, 2, 1, 1, 1];

    crate::finitefield::fp2_gen::define_fp2_core! {}
}
pub mod Z65 {
    const N: usize = 2;
    const BITLEN: usize = 65;
    const MODULUS: [u64; N] = [0x800000000000304F, 0x0000000000000001];
    const HALF_MODULUS: [u64; N] = [0xC000000000001828, 0x0000000000000000];
    const R_VAL: [u64; N] = [0x5555555559629592, 0x0000000000000000];
    const MINUS_R_VAL: [u64; N] = [0x2AAAAAAAA69D9ABD, 0x0000000000000001];
    const DR_VAL: [u64; N] = [0xAAAAAAAAB2C52B24, 0x0000000000000000];
    const TR_VAL: [u64; N] = [0x000000000C27C0B6, 0x0000000000000001];
    const QR_VAL: [u64; N] = [0x55555555658A5648, 0x0000000000000001];
    const R2_VAL: [u64; N] = [0x25FD73D5C0270C08, 0x0000000000000000];
    const P0I: u64 = 12363211632161528145;
    const TFIXDIV_VAL: [u64; N] = [0xEC1DA0CA33097D8B, 0x0000000000000000];
    const TDEC_VAL: [u64; N] = [0x471C7144A05F8AF3, 0x0000000000000001];
    const WIN_LEN: usize = 5;
    const SQRT_EH: [u8; 13] = [20, 0, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6];
    const SQRT_EL: usize = 0;
    const FOURTH_ROOT_EH: [u8; 13] = [10, 16, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3];
    const FOURTH_ROOT_EL: usize = 0;
    const P1: u64 = 3221225472;
    const P1DIV_M: u64 = 6148914691236517206;
    crate::finitefield::fp_gen::define_fp_core! {}
}
pub mod Z65e {
    use num_bigint::BigUint;
    use super::Z65::Fp;
    const NQR_RE: Fp = Fp::new([0x2AAAAAAABEECBB8B, 0x0000000000000000]);

    crate::finitefield::fp2_gen::define_fp2_core! {}
}
pub mod Z96 {
    const N: usize = 2;
    const BITLEN: usize = 96;
    const MODULUS: [u64; N] = [0x7F4A7C15F39CC1D7, 0x000000009E3779B9];
    const HALF_MODULUS: [u64; N] = [0xBFA53E0AF9CE60EC, 0x000000004F1BBCDC];
    const R_VAL: [u64; N] = [0xA5D71BD684E84CA1, 0x000000004EAB8E1C];
    const MINUS_R_VAL: [u64; N] = [0xD973603F6EB47536, 0x000000004F8BEB9C];
    const DR_VAL: [u64; N] = [0x4BAE37AD09D09942, 0x000000009D571C39];
    const TR_VAL: [u64; N] = [0x723AD76D9B1C240C, 0x000000004DCB309C];
    const QR_VAL: [u64; N] = [0x1811F344200470AD, 0x000000009C76BEB9];
    const R2_VAL: [u64; N] = [0x5B82807E70CA9EF5, 0x000000003DA1FC46];
    const P0I: u64 = 3285883892293778969;
    const TFIXDIV_VAL: [u64; N] = [0xA3CBB364BF273E5F, 0x0000000080FEF4E8];
    const TDEC_VAL: [u64; N] = [0x20EA37056784DC43, 0x00000000571DB6FB];
    const WIN_LEN: usize = 5;
    const SQRT_EH: [u8; 19] = [22, 3, 12, 14, 14, 30, 21, 0, 31, 20, 20, 31, 5, 23, 25, 27, 13, 28, 9];
    const SQRT_EL: usize = 0;
    const FOURTH_ROOT_EH: [u8; 19] = [27, 1, 6, 7, 7, 31, 10, 16, 15, 10, 26, 31, 18, 27, 28, 29, 6, 30, 4];
    const FOURTH_ROOT_EL: usize = 0;
    const P1: u64 = 2654435769;
    const P1DIV_M: u64 = 11400714824914240096;
    crate::finitefield::fp_gen::define_fp_core! {}
}
pub mod Z96e {
    use num_bigint::BigUint;
    use super::Z96::Fp;
    const NQR_RE: Fp = Fp::new([0x4BAE37AD09D09942, 0x000000009D571C39]);

    crate::finitefield::fp2_gen::define_fp2_core! {}
}
pub mod Z127 {
    const N: usize = 2;
    const BITLEN: usize = 127;
    const MODULUS: [u64; N] = [0xFFFFFFFFFFFFFFFF, 0x7FFFFFFFFFFFFFFF];
    const HALF_MODULUS: [u64; N] = [0x0000000000000000, 0x4000000000000000];
    const R_VAL: [u64; N] = [0x0000000000000002, 0x0000000000000000];
    const MINUS_R_VAL: [u64; N] = [0xFFFFFFFFFFFFFFFD, 0x7FFFFFFFFFFFFFFF];
    const DR_VAL: [u64; N] = [0x0000000000000004, 0x0000000000000000];
    const TR_VAL: [u64; N] = [0x0000000000000006, 0x0000000000000000];
    const QR_VAL: [u64; N] = [0x0000000000000008, 0x0000000000000000];
    const R2_VAL: [u64; N] = [0x0000000000000004, 0x0000000000000000];
    const P0I: u64 = 1;
    const TFIXDIV_VAL: [u64; N] = [0x0000000000000100, 0x0000000000000000];
    const TDEC_VAL: [u64; N] = [0x0000000000000000, 0x0000000000000002];
    const WIN_LEN: usize = 5;
    const SQRT_EH: [u8; 1] = [1];
    const SQRT_EL: usize = 25;
    const FOURTH_ROOT_EH: [u8; 1] = [16];
    const FOURTH_ROOT_EL: usize = 24;
    const P1: u64 = 4294967295;
    const P1DIV_M: u64 = 4294967298;
    crate::finitefield::fp_gen::define_fp_core! {}
}
pub mod Z127e {
    use num_bigint::BigUint;
    use super::Z127::Fp;
    const NQR_RE: Fp = Fp::new([0x0000000000000004, 0x0000000000000000]);

    crate::finitefield::fp2_gen::define_fp2_core! {}
}
pub mod Z127b {
    const N: usize = 2;
    const BITLEN: usize = 127;
    const MODULUS: [u64; N] = [0x000000000000006F, 0x4000000100000000];
    const HALF_MODULUS: [u64; N] = [0x0000000000000038, 0x2000000080000000];
    const R_VAL: [u64; N] = [0xFFFFFFFFFFFFFEB3, 0x3FFFFFFCFFFFFFFF];
    const MINUS_R_VAL: [u64; N] = [0x00000000000001BC, 0x0000000400000000];
    const DR_VAL: [u64; N] = [0xFFFFFFFFFFFFFCF7, 0x3FFFFFF8FFFFFFFF];
    const TR_VAL: [u64; N] = [0xFFFFFFFFFFFFFB3B, 0x3FFFFFF4FFFFFFFF];
    const QR_VAL: [u64; N] = [0xFFFFFFFFFFFFF97F, 0x3FFFFFF0FFFFFFFF];
    const R2_VAL: [u64; N] = [0x00006F0000014610, 0x000009DFFFFFE440];
    const P0I: u64 = 5650354040595718513;
    const TFIXDIV_VAL: [u64; N] = [0x5D15FD4214C01B46, 0x02BFC00E04F98077];
    const TDEC_VAL: [u64; N] = [0x000006EFFFFFE4AF, 0x3FFFFFC0FFFFFE44];
    const WIN_LEN: usize = 5;
    const SQRT_EH: [u8; 25] = [28, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 16, 0, 0, 0, 0, 0, 16];
    const SQRT_EL: usize = 0;
    const FOURTH_ROOT_EH: [u8; 25] = [14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 0, 0, 0, 0, 0, 8];
    const FOURTH_ROOT_EL: usize = 0;
    const P1: u64 = 2147483650;
    const P1DIV_M: u64 = 18446744039349813280;
    crate::finitefield::fp_gen::define_fp_core! {}
}
pub mod Z127be {
    use num_bigint::BigUint;
    use super::Z127b::Fp;
    const NQR_RE: Fp = Fp::new([0xFFFFFFFFFFFFF97F, 0x3FFFFFF0FFFFFFFF]);

    crate::finitefield::fp2_gen::define_fp2_core! {}
}
pub mod Z128 {
    const N: usize = 2;
    const BITLEN: usize = 128;
    const MODULUS: [u64; N] = [0xFFFFFFFFFFFFFF17, 0xFFFFFFFFFFFFFFFF];
    const HALF_MODULUS: [u64; N] = [0xFFFFFFFFFFFFFF8C, 0x7FFFFFFFFFFFFFFF];
    const R_VAL: [u64; N] = [0x00000000000000E9, 0x0000000000000000];
    const MINUS_R_VAL: [u64; N] = [0xFFFFFFFFFFFFFE2E, 0xFFFFFFFFFFFFFFFF];
    const DR_VAL: [u64; N] = [0x00000000000001D2, 0x0000000000000000];
    const TR_VAL: [u64; N] = [0x00000000000002BB, 0x0000000000000000];
    const QR_VAL: [u64; N] = [0x00000000000003A4, 0x0000000000000000];
    const R2_VAL: [u64; N] = [0x000000000000D411, 0x0000000000000000];
    const P0I: u64 = 7204522363551799129;
    const TFIXDIV_VAL: [u64; N] = [0x00000002BEB0A484, 0x0000000000000000];
    const TDEC_VAL: [u64; N] = [0x0000000000000000, 0x00000000000000E9];
    const WIN_LEN: usize = 5;
    const SQRT_EH: [u8; 26] = [6, 30, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 1];
    const SQRT_EL: usize = 0;
    const FOURTH_ROOT_EH: [u8; 25] = [3, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31];
    const FOURTH_ROOT_EL: usize = 0;
    const P1: u64 = 4294967295;
    const P1DIV_M: u64 = 4294967298;
    crate::finitefield::fp_gen::define_fp_core! {}
}
pub mod Z128e {
    use num_bigint::BigUint;
    use super::Z128::Fp;
    const NQR_RE: Fp = Fp::new([0x00000000000001D2, 0x0000000000000000]);

    crate::finitefield::fp2_gen::define_fp2_core! {}
}
pub mod Z191 {
    const N: usize = 3;
    const BITLEN: usize = 191;
    const MODULUS: [u64; N] = [0xFFFFFFFFFFFFFF37, 0xFFFFFFFFFFFFFFFF, 0x7FFFFFFFFFFFFFFF];
    const HALF_MODULUS: [u64; N] = [0xFFFFFFFFFFFFFF9C, 0xFFFFFFFFFFFFFFFF, 0x3FFFFFFFFFFFFFFF];
    const R_VAL: [u64; N] = [0x0000000000000192, 0x0000000000000000, 0x0000000000000000];
    const MINUS_R_VAL: [u64; N] = [0xFFFFFFFFFFFFFDA5, 0xFFFFFFFFFFFFFFFF, 0x7FFFFFFFFFFFFFFF];
    const DR_VAL: [u64; N] = [0x0000000000000324, 0x0000000000000000, 0x0000000000000000];
    const TR_VAL: [u64; N] = [0x00000000000004B6, 0x0000000000000000, 0x0000000000000000];
    const QR_VAL: [u64; N] = [0x0000000000000648, 0x0000000000000000, 0x0000000000000000];
    const R2_VAL: [u64; N] = [0x0000000000027744, 0x0000000000000000, 0x0000000000000000];
    const P0I: u64 = 18079644689158117753;
    const TFIXDIV_VAL: [u64; N] = [0x000000614A04A100, 0x0000000000000000, 0x0000000000000000];
    const TDEC_VAL: [u64; N] = [0x0000000000000000, 0x0000000000000000, 0x0000000000000192];
    const WIN_LEN: usize = 5;
    const SQRT_EH: [u8; 38] = [14, 30, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 15];
    const SQRT_EL: usize = 0;
    const FOURTH_ROOT_EH: [u8; 38] = [7, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 31, 7];
    const FOURTH_ROOT_EL: usize = 0;
    const P1: u64 = 4294967295;
    const P1DIV_M: u64 = 4294967298;
    crate::finitefield::fp_gen::define_fp_core! {}
}
pub mod Z191e {
    use num_bigint::BigUint;
    use super::Z191::Fp;
    const NQR_RE: Fp = Fp::new([0x0000000000000324, 0x0000000000000000, 0x0000000000000000]);

    crate::finitefield::fp2_gen::define_fp2_core! {}
}
pub mod Z193 {
    const N: usize = 4;
    const BITLEN: usize = 193;
    const MODULUS: [u64; N] = [0x000000000000037F, 0x0000000000000000, 0x0000000200000000, 0x0000000000000001];
    const HALF_MODULUS: [u64; N] = [0x00000000000001C0, 0x0000000000000000, 0x8000000100000000, 0x0000000000000000];
    const R_VAL: [u64; N] = [0x000006FDFFFFF583, 0xFFFFFFFFFFFFFC81, 0xFFFFFFF9FFFFFFFF, 0x0000000000000000];
    const MINUS_R_VAL: [u64; N] = [0xFFFFF90200000DFC, 0x000000000000037E, 0x0000000800000000, 0x0000000000000000];
    const DR_VAL: [u64; N] = [0x00000DFBFFFFE787, 0xFFFFFFFFFFFFF902, 0xFFFFFFF1FFFFFFFF, 0x0000000000000000];
    const TR_VAL: [u64; N] = [0x000014F9FFFFD98B, 0xFFFFFFFFFFFFF583, 0xFFFFFFE9FFFFFFFF, 0x0000000000000000];
    const QR_VAL: [u64; N] = [0x00001BF7FFFFCB8F, 0xFFFFFFFFFFFFF204, 0xFFFFFFE1FFFFFFFF, 0x0000000000000000];
    const R2_VAL: [u64; N] = [0xFE7FDDE003C3D450, 0xFFD0DB7C008F2D0B, 0x00029740000B5940, 0x0000000000000000];
    const P0I: u64 = 7646639163515356033;
    const TFIXDIV_VAL: [u64; N] = [0x23F46CEA3D23BDBD, 0xBD27ADFA7134F1C4, 0xD173065A2614C741, 0x0000000000000000];
    const TDEC_VAL: [u64; N] = [0xFFD0DB7C008F2D0C, 0x00006FE0000B5940, 0x00006DDFFFFFC810, 0x0000000000000000];
    const WIN_LEN: usize = 5;
    const SQRT_EH: [u8; 38] = [7, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 16, 0, 0, 0, 0, 0, 0, 1];
    const SQRT_EL: usize = 1;
    const FOURTH_ROOT_EH: [u8; 38] = [16, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 0, 0, 0, 0, 0, 16];
    const FOURTH_ROOT_EL: usize = 0;
    const P1: u64 = 2147483649;
    const P1DIV_M: u64 = 18446744056529682440;
    crate::finitefield::fp_gen::define_fp_core! {}
}
pub mod Z193e {
    use num_bigint::BigUint;
    use super::Z193::Fp;
    const NQR_RE: Fp = Fp::new([0x00000DFBFFFFE787, 0xFFFFFFFFFFFFF902, 0xFFFFFFF1FFFFFFFF, 0x0000000000000000]);

    crate::finitefield::fp2_gen::define_fp2_core! {}
}
pub mod Z254 {
    const N: usize = 4;
    const BITLEN: usize = 254;
    const MODULUS: [u64; N] = [0x000000000000028F, 0x0000000000000000, 0x0000000000000000, 0x200000DEADBEEF00];
    const HALF_MODULUS: [u64; N] = [0x0000000000000148, 0x0000000000000000, 0x0000000000000000, 0x1000006F56DF7780];
    const R_VAL: [u64; N] = [0xFFFFFFFFFFFFEE17, 0xFFFFFFFFFFFFFFFF, 0xFFFFFFFFFFFFFFFF, 0x1FFFF9E93FC776FF];
    const MINUS_R_VAL: [u64; N] = [0x0000000000001478, 0x0000000000000000, 0x0000000000000000, 0x000006F56DF77800];
    const DR_VAL: [u64; N] = [0xFFFFFFFFFFFFD99F, 0xFFFFFFFFFFFFFFFF, 0xFFFFFFFFFFFFFFFF, 0x1FFFF2F3D1CFFEFF];
    const TR_VAL: [u64; N] = [0xFFFFFFFFFFFFC527, 0xFFFFFFFFFFFFFFFF, 0xFFFFFFFFFFFFFFFF, 0x1FFFEBFE63D886FF];
    const QR_VAL: [u64; N] = [0xFFFFFFFFFFFFB0AF, 0xFFFFFFFFFFFFFFFF, 0xFFFFFFFFFFFFFFFF, 0x1FFFE508F5E10EFF];
    const R2_VAL: [u64; N] = [0x736166E46E4A6D23, 0x0BDAD88C858FFA79, 0x7DFABBF656D83D35, 0x190E80D704FE868E];
    const P0I: u64 = 11011720508122801041;
    const TFIXDIV_VAL: [u64; N] = [0xF47727513C331E9F, 0xF7944C041116AC64, 0xFA90E675D01CEB7E, 0x0432AE7BACE8B9C3];
    const TDEC_VAL: [u64; N] = [0x0BDAD88C858FFBC3, 0x7DFABBF656D83D35, 0x008E6F9F0234838E, 0x1019A1C9339C8E88];
    const WIN_LEN: usize = 5;
    const SQRT_EH: [u8; 51] = [4, 5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 24, 27, 29, 27, 22, 26, 27, 0, 0, 0, 0, 2];
    const SQRT_EL: usize = 0;
    const FOURTH_ROOT_EH: [u8; 51] = [18, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 28, 29, 30, 13, 11, 29, 13, 0, 0, 0, 0, 1];
    const FOURTH_ROOT_EL: usize = 0;
    const P1: u64 = 2147484538;
    const P1DIV_M: u64 = 18446728783632314654;
    crate::finitefield::fp_gen::define_fp_core! {}
}
pub mod Z254e {
    use num_bigint::BigUint;
    use super::Z254::Fp;
    const NQR_RE: Fp = Fp::new([0xFFFFFFFFFFFF9C37, 0xFFFFFFFFFFFFFFFF, 0xFFFFFFFFFFFFFFFF, 0x1FFFDE1387E996FF]);

    crate::finitefield::fp2_gen::define_fp2_core! {}
}
pub mod tiny {
    macro_rules! tiny_world { ($m:ident, $p:expr, $nqr:expr) => { pub mod $m {
        pub mod base { pub const P: u64 = $p; crate::fields::tiny_fp! {} }
        pub mod ext { use num_bigint::BigUint; use super::base::Fp; const NQR_RE: Fp = Fp::new([$nqr]); crate::finitefield::fp2_gen::define_fp2_core! {} }
        pub mod ec { pub type Fq = super::ext::Fp2; crate::eccore::define_ec_core! {} }
        pub mod th { pub use super::ec::{CouplePoint, Curve, EllipticProduct, Point, PointX}; pub type Fq = super::ext::Fp2; crate::theta::define_theta_structure! {} }
    } } }
    tiny_world! { p7, 7, 2 }
    tiny_world! { p23, 23, 2 }
    tiny_world! { p31, 31, 4 }
    tiny_world! { p47, 47, 2 }
    tiny_world! { p71, 71, 4 }
    tiny_world! { p103, 103, 2 }
}
