// A deliberately boring prime field for tiny moduli (P < 2^16), exposing the public interface of the field
// type produced by the crate's define_fp_core! macro, so that the crate's define_fp2_core!/define_ec_core!
// macros can be instantiated over fields small enough to enumerate every element, curve and pair of points.
macro_rules! tiny_fp {
    () => {
        use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};
        use num_bigint::BigUint;
        use rand_core::{CryptoRng, RngCore};
        use std::fmt;
        use std::hash::{Hash, Hasher};

        #[derive(Clone, Copy, Debug)]
        pub struct Fp(u64);

        #[allow(dead_code)]
        impl Fp {
            pub const ZERO: Self = Self(0);
            pub const ONE: Self = Self(1);
            pub const TWO: Self = Self(2);
            pub const THREE: Self = Self(3);
            pub const FOUR: Self = Self(4);
            pub const MINUS_ONE: Self = Self(P - 1);
            pub const BIT_LENGTH: usize = (64 - P.leading_zeros()) as usize;
            pub const N: usize = 1;
            pub const MODULUS: [u64; 1] = [P];
            pub const ENCODED_LENGTH: usize = 1;
            pub const fn new(input: [u64; 1]) -> Self { Self(input[0] % P) }
            pub fn raw(self) -> u64 { self.0 }
            pub fn from_i32(x: i32) -> Self { Self((x as i64).rem_euclid(P as i64) as u64) }
            pub fn from_i64(x: i64) -> Self { Self((x as i128).rem_euclid(P as i128) as u64) }
            pub fn from_u32(x: u32) -> Self { Self(x as u64 % P) }
            pub fn from_u64(x: u64) -> Self { Self(x % P) }
            pub fn iszero(self) -> u32 { if self.0 == 0 { u32::MAX } else { 0 } }
            pub fn equals(self, rhs: &Self) -> u32 { if self.0 == rhs.0 { u32::MAX } else { 0 } }
            fn set_add(&mut self, r: &Self) { self.0 = (self.0 + r.0) % P; }
            fn set_sub(&mut self, r: &Self) { self.0 = (self.0 + P - r.0) % P; }
            pub fn set_neg(&mut self) { self.0 = (P - self.0) % P; }
            fn set_mul(&mut self, r: &Self) { self.0 = self.0 * r.0 % P; }
            pub fn set_square(&mut self) { self.0 = self.0 * self.0 % P; }
            pub fn square(self) -> Self { Self(self.0 * self.0 % P) }
            pub fn set_half(&mut self) { self.0 = self.0 * ((P + 1) / 2) % P; }
            pub fn half(self) -> Self { let mut r = self; r.set_half(); r }
            pub fn set_mul2(&mut self) { self.0 = self.0 * 2 % P; }
            pub fn mul2(self) -> Self { Self(self.0 * 2 % P) }
            pub fn set_mul3(&mut self) { self.0 = self.0 * 3 % P; }
            pub fn mul3(self) -> Self { Self(self.0 * 3 % P) }
            pub fn set_mul4(&mut self) { self.0 = self.0 * 4 % P; }
            pub fn mul4(self) -> Self { Self(self.0 * 4 % P) }
            pub fn set_mul8(&mut self) { self.0 = self.0 * 8 % P; }
            pub fn mul8(self) -> Self { Self(self.0 * 8 % P) }
            pub fn set_mul_small(&mut self, k: i32) { *self = self.mul_small(k); }
            pub fn mul_small(self, k: i32) -> Self {
                Self((self.0 as i64 * k as i64).rem_euclid(P as i64) as u64)
            }
            pub fn set_select(&mut self, a: &Self, b: &Self, ctl: u32) { self.0 = if ctl == 0 { a.0 } else { b.0 }; }
            pub fn select(a: &Self, b: &Self, ctl: u32) -> Self { if ctl == 0 { *a } else { *b } }
            pub fn set_cond(&mut self, r: &Self, ctl: u32) { if ctl != 0 { self.0 = r.0; } }
            pub fn set_condneg(&mut self, ctl: u32) { if ctl != 0 { self.set_neg(); } }
            pub fn condswap(a: &mut Self, b: &mut Self, ctl: u32) { if ctl != 0 { core::mem::swap(a, b); } }
            fn powu(self, mut e: u64) -> Self {
                let (mut r, mut b) = (1u64, self.0);
                while e > 0 { if e & 1 == 1 { r = r * b % P; } b = b * b % P; e >>= 1; }
                Self(r)
            }
            fn set_div(&mut self, y: &Self) { let i = y.invert(); self.set_mul(&i); }
            pub fn set_invert(&mut self) { *self = self.invert(); }
            pub fn invert(self) -> Self { if self.0 == 0 { self } else { self.powu(P - 2) } }
            pub fn legendre(self) -> i32 {
                if self.0 == 0 { 0 } else if self.powu((P - 1) / 2).0 == 1 { 1 } else { -1 }
            }
            fn root(self, n: u32) -> (Self, u32) {
                for v in (0..P).step_by(2) {
                    let t = Self(v);
                    let q = if n == 2 { t.square() } else { t.square().square() };
                    if q.0 == self.0 { return (t, u32::MAX); }
                }
                (Self::ZERO, 0)
            }
            pub fn set_sqrt(&mut self) -> u32 { let (v, r) = self.root(2); *self = v; r }
            pub fn sqrt(self) -> (Self, u32) { self.root(2) }
            pub fn set_fourth_root(&mut self) -> u32 { let (v, r) = self.root(4); *self = v; r }
            pub fn fourth_root(self) -> (Self, u32) { self.root(4) }
            pub fn set_pow(&mut self, e: &[u8], ebitlen: usize) { self.set_pow_ext(e, 0, ebitlen); }
            pub fn set_pow_ext(&mut self, e: &[u8], eoff: usize, ebitlen: usize) {
                let x = *self;
                *self = Self::ONE;
                for i in (eoff..(eoff + ebitlen)).rev() {
                    self.set_square();
                    if (e[i >> 3] >> (i & 7)) & 1 == 1 { self.set_mul(&x); }
                }
            }
            pub fn pow(self, e: &[u8], ebitlen: usize) -> Self { let mut x = self; x.set_pow(e, ebitlen); x }
            pub fn pow_big(self, e: &BigUint) -> Self {
                let mut x = self; x.set_pow(&e.to_bytes_le(), e.bits() as usize); x
            }
            pub fn pow_ext(self, e: &[u8], eoff: usize, ebitlen: usize) -> Self {
                let mut x = self; x.set_pow_ext(e, eoff, ebitlen); x
            }
            pub fn encode(self) -> [u8; 1] { [self.0 as u8] }
            pub fn decode(buf: &[u8]) -> (Self, u32) {
                if buf.len() != 1 || buf[0] as u64 >= P { (Self::ZERO, 0) } else { (Self(buf[0] as u64), u32::MAX) }
            }
            pub fn set_decode_reduce(&mut self, buf: &[u8]) {
                let mut r = 0u64;
                for b in buf.iter().rev() { r = (r * 256 + *b as u64) % P; }
                self.0 = r;
            }
            pub fn decode_reduce(buf: &[u8]) -> Self { let mut x = Self::ZERO; x.set_decode_reduce(buf); x }
            pub fn set_rand<T: CryptoRng + RngCore>(&mut self, rng: &mut T) { self.0 = rng.next_u64() % P; }
            pub fn rand<T: CryptoRng + RngCore>(rng: &mut T) -> Self { let mut x = Self::ZERO; x.set_rand(rng); x }
            pub fn hashcode(self) -> u64 { self.0 }
            pub fn sum_of_products(a1: &Self, b1: &Self, a2: &Self, b2: &Self) -> Fp {
                Self((a1.0 * b1.0 + a2.0 * b2.0) % P)
            }
            pub fn difference_of_products(a1: &Self, b1: &Self, a2: &Self, b2: &Self) -> Fp {
                Self((a1.0 * b1.0 + P * P - a2.0 * b2.0) % P)
            }
        }
        impl fmt::Display for Fp {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) }
        }
        impl Hash for Fp { fn hash<H: Hasher>(&self, s: &mut H) { self.0.hash(s); } }
        impl PartialEq for Fp { fn eq(&self, o: &Fp) -> bool { self.0 == o.0 } }
        impl Eq for Fp {}
        macro_rules! bin { ($tr:ident, $f:ident, $tra:ident, $fa:ident, $s:ident) => {
            impl $tr<Fp> for Fp { type Output = Fp; fn $f(self, o: Fp) -> Fp { let mut r = self; r.$s(&o); r } }
            impl $tr<&Fp> for Fp { type Output = Fp; fn $f(self, o: &Fp) -> Fp { let mut r = self; r.$s(o); r } }
            impl $tr<Fp> for &Fp { type Output = Fp; fn $f(self, o: Fp) -> Fp { let mut r = *self; r.$s(&o); r } }
            impl $tr<&Fp> for &Fp { type Output = Fp; fn $f(self, o: &Fp) -> Fp { let mut r = *self; r.$s(o); r } }
            impl $tra<Fp> for Fp { fn $fa(&mut self, o: Fp) { self.$s(&o); } }
            impl $tra<&Fp> for Fp { fn $fa(&mut self, o: &Fp) { self.$s(o); } }
        } }
        bin! { Add, add, AddAssign, add_assign, set_add }
        bin! { Sub, sub, SubAssign, sub_assign, set_sub }
        bin! { Mul, mul, MulAssign, mul_assign, set_mul }
        bin! { Div, div, DivAssign, div_assign, set_div }
        impl Neg for Fp { type Output = Fp; fn neg(self) -> Fp { Self((P - self.0) % P) } }
        impl Neg for &Fp { type Output = Fp; fn neg(self) -> Fp { Fp((P - self.0) % P) } }
    };
}
pub(crate) use tiny_fp;
