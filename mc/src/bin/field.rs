//! C05 encoding, C06 Fp arithmetic, C07 Fp2 arithmetic, C08 roots and symbols, C26 selection/equality/hash.
#![allow(non_camel_case_types)]
use mc::ck;
use mc::refm::*;
use mc::rng::Script;
use mc::run::{self, sample, space, st, Opts, Res, Space};
use num_bigint::BigUint;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Un {
    Neg,
    Sqr,
    Half,
    M2,
    M3,
    M4,
    M8,
    Inv,
}

pub trait Fel: Copy + Send + Sync + 'static {
    const NAME: &'static str;
    const LEN: usize;
    fn dec(b: &[u8]) -> (Self, u32);
    fn enc(&self) -> Vec<u8>;
    fn bin(a: &Self, b: &Self) -> Vec<(Op, &'static str, Self)>;
    fn un(a: &Self) -> Vec<(Un, &'static str, Self)>;
    fn muls(a: &Self, k: i32) -> Vec<Self>;
    fn eqf(&self, b: &Self) -> u32;
    fn zf(&self) -> u32;
    fn hc(&self) -> u64;
    fn hstd(&self) -> u64;
    fn pows(&self, e: &[u8], off: usize, len: usize) -> Vec<(&'static str, Self)>;
    fn powb(&self, e: &BigUint) -> Self;
    fn leg(&self) -> i32;
    fn sqrts(&self) -> Vec<(Self, u32)>;
    fn fourths(&self) -> Vec<(Self, u32)>;
    fn sel(a: &Self, b: &Self, c: u32) -> Vec<(&'static str, Self)>;
    fn condneg(a: &Self, c: u32) -> Self;
    fn swap(a: &mut Self, b: &mut Self, c: u32);
    fn rnd(s: &mut Script) -> Vec<Self>;
    fn consts() -> Vec<(&'static str, Self)>;
}
pub trait FpT: Fel {
    const NL: usize;
    fn p() -> BigUint;
    fn raw(l: &[u64]) -> Self;
    fn ints(x: u64) -> Vec<(&'static str, bool, u64, Self)>;
    fn sop(a: &Self, b: &Self, c: &Self, d: &Self) -> (Self, Self);
    fn red(b: &[u8]) -> Vec<Self>;
    fn bitlen() -> usize;
    fn modwords() -> BigUint;
}
pub trait F2T: Fel {
    type B: FpT;
    fn new(a: &Self::B, b: &Self::B) -> Self;
    fn parts(&self) -> (Self::B, Self::B);
    fn mul2ways(a: &Self, b: &Self) -> Vec<Self>;
    fn conjs(&self) -> Vec<Self>;
    fn pow64(&self, e: u64, len: usize) -> Vec<Self>;
    fn pow64v(&self, e: u64) -> Vec<Self>;
    fn pow32(&self, e: u32) -> Self;
    fn binv(x: &mut [Self]);
    fn eqop(&self, b: &Self) -> bool;
    fn rnd_ns(s: &mut Script) -> Vec<Self>;
}

macro_rules! fel_body {
    ($t:ty) => {
        const LEN: usize = <$t>::ENCODED_LENGTH;
        fn dec(b: &[u8]) -> (Self, u32) {
            <$t>::decode(b)
        }
        fn enc(&self) -> Vec<u8> {
            self.encode().to_vec()
        }
        fn bin(a: &Self, b: &Self) -> Vec<(Op, &'static str, Self)> {
            let (x, y) = (*a, *b);
            let mut v = Vec::with_capacity(24);
            macro_rules! o {
                ($op:expr, $t1:tt, $t2:tt) => {
                    v.push(($op, "v.v", x $t1 y));
                    v.push(($op, "v.r", x $t1 b));
                    v.push(($op, "r.v", a $t1 y));
                    v.push(($op, "r.r", a $t1 b));
                    let mut z = x;
                    z $t2 y;
                    v.push(($op, "=v", z));
                    let mut z = x;
                    z $t2 b;
                    v.push(($op, "=r", z));
                };
            }
            o!(Op::Add, +, +=);
            o!(Op::Sub, -, -=);
            o!(Op::Mul, *, *=);
            o!(Op::Div, /, /=);
            v
        }
        fn un(a: &Self) -> Vec<(Un, &'static str, Self)> {
            let mut v = Vec::with_capacity(16);
            v.push((Un::Neg, "v", -*a));
            v.push((Un::Neg, "r", -a));
            macro_rules! s {
                ($u:expr, $f:ident, $g:ident) => {
                    v.push(($u, stringify!($g), a.$g()));
                    let mut z = *a;
                    z.$f();
                    v.push(($u, stringify!($f), z));
                };
            }
            let mut z = *a;
            z.set_neg();
            v.push((Un::Neg, "set_neg", z));
            s!(Un::Sqr, set_square, square);
            s!(Un::Half, set_half, half);
            s!(Un::M2, set_mul2, mul2);
            s!(Un::M3, set_mul3, mul3);
            s!(Un::M4, set_mul4, mul4);
            s!(Un::M8, set_mul8, mul8);
            s!(Un::Inv, set_invert, invert);
            v
        }
        fn muls(a: &Self, k: i32) -> Vec<Self> {
            let mut z = *a;
            z.set_mul_small(k);
            vec![a.mul_small(k), z]
        }
        fn eqf(&self, b: &Self) -> u32 {
            self.equals(b)
        }
        fn zf(&self) -> u32 {
            self.iszero()
        }
        fn hc(&self) -> u64 {
            self.hashcode()
        }
        fn hstd(&self) -> u64 {
            let mut h = DefaultHasher::new();
            self.hash(&mut h);
            h.finish()
        }
        fn pows(&self, e: &[u8], off: usize, len: usize) -> Vec<(&'static str, Self)> {
            let mut z = *self;
            z.set_pow_ext(e, off, len);
            let mut v = vec![("pow_ext", self.pow_ext(e, off, len)), ("set_pow_ext", z)];
            if off == 0 {
                let mut z = *self;
                z.set_pow(e, len);
                v.push(("pow", self.pow(e, len)));
                v.push(("set_pow", z));
            }
            v
        }
        fn powb(&self, e: &BigUint) -> Self {
            self.pow_big(e)
        }
        fn leg(&self) -> i32 {
            self.legendre()
        }
        fn sqrts(&self) -> Vec<(Self, u32)> {
            let mut z = *self;
            let r = z.set_sqrt();
            vec![self.sqrt(), (z, r)]
        }
        fn fourths(&self) -> Vec<(Self, u32)> {
            let mut z = *self;
            let r = z.set_fourth_root();
            vec![self.fourth_root(), (z, r)]
        }
        fn sel(a: &Self, b: &Self, c: u32) -> Vec<(&'static str, Self)> {
            let mut z = *a;
            z.set_select(a, b, c);
            let mut y = *b;
            y.set_select(a, b, c);
            let mut w = *a;
            w.set_cond(b, c);
            vec![("select", <$t>::select(a, b, c)), ("set_select", z), ("set_select'", y), ("set_cond", w)]
        }
        fn condneg(a: &Self, c: u32) -> Self {
            let mut z = *a;
            z.set_condneg(c);
            z
        }
        fn swap(a: &mut Self, b: &mut Self, c: u32) {
            <$t>::condswap(a, b, c)
        }
        fn rnd(s: &mut Script) -> Vec<Self> {
            let mut s2 = Script(s.0.clone(), 0);
            let mut z = <$t>::ONE;
            z.set_rand(&mut s2);
            vec![<$t>::rand(s), z]
        }
    };
}
macro_rules! impl_fp {
    ($t:ty, $n:expr) => {
        impl Fel for $t {
            const NAME: &'static str = $n;
            fel_body!($t);
            fn consts() -> Vec<(&'static str, Self)> {
                vec![
                    ("0", <$t>::ZERO), ("1", <$t>::ONE), ("2", <$t>::TWO), ("3", <$t>::THREE),
                    ("4", <$t>::FOUR), ("-1", <$t>::MINUS_ONE),
                ]
            }
        }
        impl FpT for $t {
            const NL: usize = <$t>::N;
            fn p() -> BigUint {
                let mut r = zero();
                for w in <$t>::MODULUS.iter().rev() {
                    r = (r << 64u32) + big(*w);
                }
                r
            }
            fn raw(l: &[u64]) -> Self {
                let mut a = [0u64; <$t>::N];
                a.copy_from_slice(&l[..<$t>::N]);
                <$t>::new(a)
            }
            fn ints(x: u64) -> Vec<(&'static str, bool, u64, Self)> {
                let i4 = x as u32 as i32;
                let i8 = x as i64;
                vec![
                    ("from_i32", i4 < 0, (i4 as i64).unsigned_abs(), <$t>::from_i32(i4)),
                    ("from_u32", false, x as u32 as u64, <$t>::from_u32(x as u32)),
                    ("from_i64", i8 < 0, i8.unsigned_abs(), <$t>::from_i64(i8)),
                    ("from_u64", false, x, <$t>::from_u64(x)),
                ]
            }
            fn sop(a: &Self, b: &Self, c: &Self, d: &Self) -> (Self, Self) {
                (<$t>::sum_of_products(a, b, c, d), <$t>::difference_of_products(a, b, c, d))
            }
            fn red(b: &[u8]) -> Vec<Self> {
                let mut z = <$t>::ONE;
                z.set_decode_reduce(b);
                vec![<$t>::decode_reduce(b), z]
            }
            fn bitlen() -> usize {
                <$t>::BIT_LENGTH
            }
            fn modwords() -> BigUint {
                Self::p()
            }
        }
    };
}
macro_rules! impl_f2 {
    ($t:ty, $b:ty, $n:expr) => {
        impl Fel for $t {
            const NAME: &'static str = $n;
            fel_body!($t);
            fn consts() -> Vec<(&'static str, Self)> {
                vec![
                    ("0", <$t>::ZERO), ("1", <$t>::ONE), ("2", <$t>::TWO), ("3", <$t>::THREE),
                    ("4", <$t>::FOUR), ("-1", <$t>::MINUS_ONE), ("i", <$t>::ZETA), ("-i", <$t>::MINUS_ZETA),
                    ("nqr", <$t>::NQR),
                ]
            }
        }
        impl F2T for $t {
            type B = $b;
            fn new(a: &$b, b: &$b) -> Self {
                <$t>::new(a, b)
            }
            fn parts(&self) -> ($b, $b) {
                self.get_coeff()
            }
            fn mul2ways(a: &Self, b: &Self) -> Vec<Self> {
                let mut z = *a;
                z.set_mul(b);
                vec![a.mul_old(*b), a.mul_new(*b), z]
            }
            fn conjs(&self) -> Vec<Self> {
                let mut z = *self;
                z.set_conj();
                vec![self.conj(), z]
            }
            fn pow64(&self, e: u64, len: usize) -> Vec<Self> {
                let mut z = *self;
                z.set_pow_u64(e, len);
                vec![self.pow_u64(e, len), z]
            }
            fn pow64v(&self, e: u64) -> Vec<Self> {
                let mut z = *self;
                z.set_pow_u64_vartime(e);
                vec![self.pow_u64_vartime(e), z]
            }
            fn pow32(&self, e: u32) -> Self {
                self.pow_small(e)
            }
            fn binv(x: &mut [Self]) {
                <$t>::batch_invert(x)
            }
            fn eqop(&self, b: &Self) -> bool {
                self == b
            }
            fn rnd_ns(s: &mut Script) -> Vec<Self> {
                let mut s2 = Script(s.0.clone(), 0);
                let mut z = <$t>::ONE;
                z.set_rand_nonsquare(&mut s2);
                vec![<$t>::ONE.rand_nonsquare(s), z]
            }
        }
    };
}

impl_fp!(festa_rs::fields::FpFESTA::Fp, "FpFESTA");
impl_f2!(festa_rs::fields::FpFESTAExt::Fp2, festa_rs::fields::FpFESTA::Fp, "FpFESTAExt");
#[cfg(mc_zoo)]
mod zoo {
    use super::*;
    use festa_rs::fields as f;
    impl_fp!(f::Z65::Fp, "Z65");
    impl_f2!(f::Z65e::Fp2, f::Z65::Fp, "Z65e");
    impl_fp!(f::Z96::Fp, "Z96");
    impl_f2!(f::Z96e::Fp2, f::Z96::Fp, "Z96e");
    impl_fp!(f::Z127::Fp, "Z127");
    impl_fp!(f::Z127b::Fp, "Z127b");
    impl_fp!(f::Z128::Fp, "Z128");
    impl_fp!(f::Z191::Fp, "Z191");
    impl_fp!(f::Z193::Fp, "Z193");
    impl_f2!(f::Z193e::Fp2, f::Z193::Fp, "Z193e");
    impl_fp!(f::Z254::Fp, "Z254");
    impl_f2!(f::Z254e::Fp2, f::Z254::Fp, "Z254e");
}
#[cfg(mc_tiny)]
mod tiny {
    use super::*;
    use festa_rs::fields::tiny as t;
    impl_fp!(t::p7::base::Fp, "p7");
    impl_f2!(t::p7::ext::Fp2, t::p7::base::Fp, "p7^2");
    impl_fp!(t::p23::base::Fp, "p23");
    impl_f2!(t::p23::ext::Fp2, t::p23::base::Fp, "p23^2");
    impl_fp!(t::p31::base::Fp, "p31");
    impl_f2!(t::p31::ext::Fp2, t::p31::base::Fp, "p31^2");
    impl_fp!(t::p47::base::Fp, "p47");
    impl_f2!(t::p47::ext::Fp2, t::p47::base::Fp, "p47^2");
    impl_fp!(t::p71::base::Fp, "p71");
    impl_f2!(t::p71::ext::Fp2, t::p71::base::Fp, "p71^2");
    impl_fp!(t::p103::base::Fp, "p103");
    impl_f2!(t::p103::ext::Fp2, t::p103::base::Fp, "p103^2");
}

// ---------------------------------------------------------------- alphabets

/// Boundary values of the field: small and near-modulus integers, limb patterns (as values and as internal
/// Montgomery representations), powers of two, and their negatives.
fn alphabet<F: FpT>(rich: usize) -> Vec<BigUint> {
    let p = F::p();
    let n = (p.bits() as usize + 63) / 64;
    let r = one() << (64 * n);
    let rinv = inv_mod(&(&r % &p), &p).unwrap();
    let mut base: Vec<BigUint> = vec![];
    let full = one() << (64 * n);
    for k in 0..(4 + 4 * rich) as u64 {
        base.push(big(k));
    }
    base.push((&p + one()) >> 1);
    base.push((&p + one()) >> 2);
    base.push((&p * big(2)) / big(3));
    base.push(&r % &p);
    base.push((&r * &r) % &p);
    base.push(rinv.clone());
    for k in 0..n {
        base.push(one() << (64 * k));
        base.push((one() << (64 * k)) + (&full - one()) % (one() << (64 * k)).max(one()));
        if k > 0 {
            base.push((one() << (64 * k)) - one());
        }
        base.push(one() << (64 * k + 63));
        if rich > 0 {
            base.push(big(u64::MAX) << (64 * k));
            base.push(one() << (64 * k + 32));
            base.push((one() << (64 * k + 31)) - one());
            base.push(&full - one() - (one() << (64 * k)));
        }
    }
    for w in [0x5555555555555555u64, 0xAAAAAAAAAAAAAAAA, 0x8000000000000000, 0x8000000000000001, 0x7fffffffffffffff, 0xffffffff00000000, 0x00000000ffffffff, 0x0123456789abcdef] {
        let mut x = zero();
        for _ in 0..n {
            x = (x << 64u32) + big(w);
        }
        base.push(x);
    }
    if n <= 2 && rich > 0 {
        let pat = [0u64, 1, 0x7fffffffffffffff, 0x8000000000000000, u64::MAX, 0xffffffff, 0x100000000];
        for a in pat {
            for b in pat {
                base.push((big(b) << 64u32) + big(a));
            }
        }
    }
    let mut v: Vec<BigUint> = vec![];
    for x in base {
        let x = x % &p;
        let ys = [x.clone(), (&p - &x) % &p, (&x * &rinv) % &p, ((&p - &x) * &rinv) % &p];
        for y in ys {
            v.push(y);
        }
    }
    v.sort();
    v.dedup();
    v
}
/// at most about k of the values (every m-th), extremes kept
fn thin(v: Vec<BigUint>, k: usize) -> Vec<BigUint> {
    let m = (v.len() + k - 1) / k;
    let n = v.len();
    v.into_iter().enumerate().filter(|(i, _)| i % m == 0 || *i < 6 || i + 6 >= n).map(|x| x.1).collect()
}
fn of<F: FpT>(x: &BigUint) -> F {
    let (r, _) = F::dec(&bytes(x, F::LEN));
    r
}
fn val<F: FpT>(x: &F) -> BigUint {
    BigUint::from_bytes_le(&x.enc())
}
fn of2<F: F2T>(x: &Q) -> F {
    F::new(&of::<F::B>(&x.0), &of::<F::B>(&x.1))
}

/// r must be observably the element `e`: same bytes, equal to a fresh copy, exact zero test, same hashes.
fn same<F: FpT>(what: &str, r: &F, e: &BigUint) -> Res {
    let f: F = of(e);
    ck!(r.enc() == bytes(e, F::LEN), "{}: {} gives {} instead of {}", F::NAME, what, val(r), e);
    ck!(r.eqf(&f) == u32::MAX && f.eqf(r) == u32::MAX, "{}: {}: result {} is not equal to a fresh copy", F::NAME, what, e);
    ck!(r.zf() == if is0(e) { u32::MAX } else { 0 }, "{}: {}: zero test wrong on {}", F::NAME, what, e);
    ck!(r.hc() == f.hc(), "{}: {}: hashcode differs from a fresh copy of {}", F::NAME, what, e);
    Ok(())
}
fn same2<F: F2T>(what: &str, r: &F, e: &Q) -> Res {
    let f: F = of2(e);
    let (a, b) = r.parts();
    ck!(val(&a) == e.0 && val(&b) == e.1, "{}: {} gives ({}, {}) instead of ({}, {})", F::NAME, what, val(&a), val(&b), e.0, e.1);
    ck!(r.eqf(&f) == u32::MAX && f.eqf(r) == u32::MAX && r.eqop(&f), "{}: {}: result not equal to a fresh copy", F::NAME, what);
    ck!(r.zf() == if e.is0() { u32::MAX } else { 0 }, "{}: {}: zero test wrong", F::NAME, what);
    ck!(r.hc() == f.hc() && r.hstd() == f.hstd(), "{}: {}: hash differs from a fresh copy", F::NAME, what);
    Ok(())
}
fn pre(n: &str, f: &str) -> String {
    format!("{}/{}", f, n)
}
fn le_val(b: &[u8]) -> BigUint {
    BigUint::from_bytes_le(b)
}

// ---------------------------------------------------------------- C06
fn fp_arith<F: FpT>(rich: usize, products: bool, out: &mut Vec<Space>) {
    let p = F::p();
    let s = Arc::new(thin(alphabet::<F>(rich), if rich > 0 { 2000 } else if F::NL > 8 { 200 } else { 400 }));
    let e: Arc<Vec<F>> = Arc::new(s.iter().map(|x| of(x)).collect());
    let n = s.len();
    {
        let (s, e, p) = (s.clone(), e.clone(), p.clone());
        out.push(space(&pre("pairs", F::NAME), n * n, "all ordered pairs of the boundary alphabet x all binary operators in all forms", move |i| {
            let (i, j) = (i as usize / n, i as usize % n);
            let (a, b) = (&s[i], &s[j]);
            st(&(F::NAME, a, b));
            let exp = [(a + b) % &p, (a + &p - b) % &p, (a * b) % &p];
            let mut q: Option<BigUint> = None;
            for (op, f, r) in F::bin(&e[i], &e[j]) {
                match op {
                    Op::Add => same(&format!("{} + {} ({})", a, b, f), &r, &exp[0])?,
                    Op::Sub => same(&format!("{} - {} ({})", a, b, f), &r, &exp[1])?,
                    Op::Mul => same(&format!("{} * {} ({})", a, b, f), &r, &exp[2])?,
                    Op::Div => {
                        if q.is_none() {
                            let v = val(&r);
                            ck!(v < p, "{}: {} / {} out of range", F::NAME, a, b);
                            let ok = if is0(b) { is0(&v) } else { (&v * b) % &p == *a };
                            ck!(ok, "{}: {} / {} ({}) gives {}", F::NAME, a, b, f, v);
                            q = Some(v);
                        }
                        same(&format!("{} / {} ({})", a, b, f), &r, q.as_ref().unwrap())?
                    }
                }
            }
            sample(|| format!("{}: a={} b={}: a+b, a-b, a*b, a/b exact in all 6 forms", F::NAME, a, b));
            Ok(())
        }));
    }
    // a dense range of small divisors/dividends, all shifts: the binary-GCD division walks many paths
    {
        let p = p.clone();
        let bits = F::bitlen();
        let kk = if F::NL > 8 && rich == 0 { 6 } else { 16 };
        let per = 3 * kk;
        out.push(space(&pre("invert-shifts", F::NAME), bits * per, "inversion and unary ops of (2k+1)*2^s + d, p>>s and pattern>>s for every shift s", move |i| {
            let (sft, k) = (i as usize / per, i as usize % per);
            let x = match k / kk {
                0 => (big(2 * (k % kk) as u64 + 1) << sft) % &p,
                1 => ((&p >> sft) + big((k % kk) as u64)) % &p,
                _ => (((&p * big((k % kk) as u64 + 1)) / big(kk as u64 + 1)) >> sft) % &p,
            };
            let rinv = inv_mod(&((one() << (64 * F::NL)) % &p), &p).unwrap();
            for x in [x.clone(), (&x * rinv) % &p] {
                unary::<F>(&x, &p)?;
            }
            Ok(())
        }));
    }
    {
        let (s, p) = (s.clone(), p.clone());
        out.push(space(&pre("unary", F::NAME), n, "every alphabet element x every unary operation", move |i| unary::<F>(&s[i as usize], &p)));
    }
    {
        let mut ks: Vec<i32> = vec![0, i32::MIN, i32::MAX, i32::MIN + 1, 1000003, -1000003];
        for j in 0..31 {
            for d in -1..=1i64 {
                for sg in [1i64, -1] {
                    ks.push((sg * ((1i64 << j) + d)) as i32);
                }
            }
        }
        for j in 0..24 {
            ks.push(j);
            ks.push(-j);
        }
        ks.sort();
        ks.dedup();
        let nk = ks.len();
        let (s, e, p) = (s.clone(), e.clone(), p.clone());
        out.push(space(&pre("mul-small", F::NAME), n * nk, "alphabet x boundary 32-bit multipliers", move |i| {
            let (i, k) = (i as usize / nk, ks[i as usize % nk]);
            let m = (&s[i] * big((k as i64).unsigned_abs())) % &p;
            let m = if k < 0 { (&p - m) % &p } else { m };
            for r in F::muls(&e[i], k) {
                same(&format!("{} * small {}", s[i], k), &r, &m)?;
            }
            Ok(())
        }));
        // quotient boundaries: representations just around j*p/k
        let p = F::p();
        let kk = [2u64, 3, 5, 7, 11, 100, 255, 1000, 65537, 0x7ffffffe, 0x7fffffff, 0x80000000];
        let per = 400usize;
        out.push(space(&pre("mul-small-quotients", F::NAME), kk.len() * per, "representations around every quotient step j*p/k (first and last 200 steps)", move |i| {
            let (k, j) = (kk[i as usize / per], i as u64 % per as u64);
            let j = if j < 200 { j } else { k.wrapping_sub(400 - j) };
            if j > k {
                return Ok(());
            }
            let q = (&p * big(j)) / big(k);
            for d in 0..4u64 {
                let raw = (&q + big(d) + &p - big(1)) % &p;
                let rinv = inv_mod(&((one() << (64 * F::NL)) % &p), &p).unwrap();
                let x = (&raw * &rinv) % &p;
                let f: F = of(&x);
                let m = (&x * big(k)) % &p;
                if k < 0x80000000 {
                    for r in F::muls(&f, k as i32) {
                        same(&format!("{} * small {}", x, k), &r, &m)?;
                    }
                }
                for r in F::muls(&f, (k as i64).wrapping_neg() as i32) {
                    same(&format!("{} * small -{}", x, k), &r, &((&p - &m) % &p))?;
                }
                st(&(F::NAME, "q", k, &x));
            }
            Ok(())
        }));
    }
    {
        let p = p.clone();
        let mut xs: Vec<u64> = (0..300).collect();
        for j in 0..64 {
            for d in [-2i64, -1, 0, 1, 2] {
                xs.push((1u64 << j).wrapping_add(d as u64));
                xs.push((1u64 << j).wrapping_neg().wrapping_add(d as u64));
            }
        }
        xs.sort();
        xs.dedup();
        out.push(space(&pre("from-int", F::NAME), xs.len(), "integer conversions at all powers of two +-2", move |i| {
            for (w, neg, a, r) in F::ints(xs[i as usize]) {
                let m = big(a) % &p;
                let m = if neg { (&p - m) % &p } else { m };
                same(&format!("{}({}{})", w, if neg { "-" } else { "" }, a), &r, &m)?;
            }
            Ok(())
        }));
    }
    if products {
        let small = reduced::<F>(if rich > 0 { 26 } else { 20 });
        let m = small.len();
        let ee: Vec<F> = small.iter().map(|x| of(x)).collect();
        let p = p.clone();
        out.push(space(&pre("sum-of-products", F::NAME), m * m * m * m, "all 4-tuples of the reduced alphabet", move |i| {
            let i = i as usize;
            let (a, b, c, d) = (i % m, i / m % m, i / m / m % m, i / m / m / m);
            let (r1, r2) = F::sop(&ee[a], &ee[b], &ee[c], &ee[d]);
            let (x, y) = (&small[a] * &small[b], &small[c] * &small[d]);
            st(&(F::NAME, "sop", i));
            same(&format!("{}*{} + {}*{}", small[a], small[b], small[c], small[d]), &r1, &((&x + &y) % &p))?;
            same(&format!("{}*{} - {}*{}", small[a], small[b], small[c], small[d]), &r2, &((x + &p * &p - y) % &p))
        }));
    }
    fel_pow::<F, _>(rich, reduced::<F>(10).iter().map(|x| of::<F>(x)).collect(), out, {
        let p = p.clone();
        move |x: &F, e: &BigUint| of::<F>(&val(x).modpow(e, &p))
    });
    {
        let p = p.clone();
        out.push(space(&pre("constants", F::NAME), 1, "named constants", move |_| {
            for (n, c) in F::consts() {
                let v = match n {
                    "-1" => &p - one(),
                    k => big(k.parse().unwrap()),
                };
                same(n, &c, &v)?;
            }
            ck!(F::bitlen() as u64 == p.bits() && F::NL as u64 == (p.bits() + 63) / 64 && F::LEN as u64 == (p.bits() + 7) / 8, "{}: lengths", F::NAME);
            Ok(())
        }));
    }
}
/// at most k values: extremes and limb boundaries, as values and representations
fn reduced<F: FpT>(k: usize) -> Vec<BigUint> {
    let p = F::p();
    let n = (p.bits() as usize + 63) / 64;
    let rinv = inv_mod(&((one() << (64 * n)) % &p), &p).unwrap();
    let mut v = vec![zero(), one(), &p - one(), rinv.clone(), ((&p - one()) * &rinv) % &p, ((&p - big(2)) * &rinv) % &p, (&p + one()) >> 1];
    v.push(((one() << (64 * (n - 1))) - one()) % &p);
    v.push((((one() << (64 * (n - 1))) - one()) * &rinv) % &p);
    v.push(((one() << (64 * (n - 1))) * &rinv) % &p);
    v.push((&p / big(3)) * big(2));
    v.push((((&p / big(3)) * big(2)) * &rinv) % &p);
    v.push(((&p >> 1) * &rinv) % &p);
    for j in 1..n {
        v.push(((&p - (one() << (64 * j))) * &rinv) % &p);
        v.push((((one() << (64 * j)) - one()) * &rinv) % &p);
    }
    let mut x = big(0x9e3779b97f4a7c15);
    while v.len() < k + 6 {
        x = (&x * &x + one()) % &p;
        v.push(x.clone());
    }
    let mut w: Vec<BigUint> = vec![];
    for y in v {
        if !w.contains(&y) {
            w.push(y);
        }
    }
    w.truncate(k);
    w
}
fn unary<F: FpT>(a: &BigUint, p: &BigUint) -> Res {
    let x: F = of(a);
    let half = (p + one()) >> 1;
    st(&(F::NAME, a));
    for (u, f, r) in F::un(&x) {
        let e = match u {
            Un::Neg => (p - a) % p,
            Un::Sqr => (a * a) % p,
            Un::Half => (a * &half) % p,
            Un::M2 => (a * big(2)) % p,
            Un::M3 => (a * big(3)) % p,
            Un::M4 => (a * big(4)) % p,
            Un::M8 => (a * big(8)) % p,
            Un::Inv => {
                let v = val(&r);
                let ok = if is0(a) { is0(&v) } else { (&v * a) % p == one() };
                ck!(ok, "{}: {} of {} gives {}", F::NAME, f, a, v);
                v
            }
        };
        same(&format!("{:?} {} ({})", u, a, f), &r, &e)?;
    }
    Ok(())
}
fn fel_pow<F: Fel, R: Fn(&F, &BigUint) -> F + Send + Sync + 'static + Clone>(rich: usize, bases: Vec<F>, out: &mut Vec<Space>, modpow: R) {
    // every 2-byte exponent string from a nibble alphabet x every (offset, length) window
    let nib: Vec<u8> = if rich > 1 { (0..16).collect() } else { vec![0, 1, 5, 8, 10, 15] };
    let k = nib.len();
    let wins: Vec<(usize, usize)> = (0..17).flat_map(|o| (0..=(16 - o)).map(move |l| (o, l))).filter(|(o, l)| rich > 0 || (o % 3 != 2 && l % 3 != 1) || o + l == 16).collect();
    let nw = wins.len();
    let b3: Vec<F> = bases.iter().copied().take(4).collect();
    let mp = modpow.clone();
    out.push(space(&pre("pow-windows", F::NAME), k * k * k * k, "2-byte exponents over a nibble alphabet x every (bit offset, bit length) window x 4 bases", move |i| {
        let i = i as usize;
        let e = [nib[i % k] | (nib[i / k % k] << 4), nib[i / k / k % k] | (nib[i / k / k / k] << 4)];
        for w in 0..nw {
            let (o, l) = wins[w];
            let ev = (le_val(&e) >> o) % (one() << l);
            let b = &b3[(i + w) % b3.len()];
            let r = mp(b, &ev);
            for (n, x) in b.pows(&e, o, l) {
                ck!(x.eqf(&r) == u32::MAX && x.enc() == r.enc(), "{}: {} of exponent bytes {:?} offset {} length {}", F::NAME, n, e, o, l);
            }
        }
        st(&(F::NAME, "pow", e));
        Ok(())
    }));
    let mut es: Vec<BigUint> = (0..40u64).map(big).collect();
    for j in [8u64, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 640, 641] {
        for d in 0..3u64 {
            es.push((one() << j) + big(d) - one());
        }
    }
    let nb = bases.len();
    out.push(space(&pre("pow-big", F::NAME), es.len() * nb, "big-integer exponents at word boundaries", move |i| {
        let (b, e) = (&bases[i as usize % nb], &es[i as usize / nb]);
        let r = modpow(b, e);
        let x = b.powb(e);
        ck!(x.eqf(&r) == u32::MAX && x.enc() == r.enc(), "{}: pow_big exponent {}", F::NAME, e);
        let by = bytes(e, 96);
        for (n, x) in b.pows(&by, 0, 96 * 8).into_iter().chain(b.pows(&by, 3, e.bits().max(3) as usize - 3)) {
            let r = if n.contains("ext") && !(x.eqf(&r) == u32::MAX) { modpow(b, &(e >> 3u32)) } else { r };
            ck!(x.eqf(&r) == u32::MAX, "{}: {} exponent {}", F::NAME, n, e);
        }
        st(&(F::NAME, "powb", i));
        Ok(())
    }));
}

// ---------------------------------------------------------------- C05
fn fp_enc<F: FpT>(rich: usize, out: &mut Vec<Space>) {
    let p = F::p();
    let s = alphabet::<F>(rich);
    {
        let p = p.clone();
        let s2 = s.clone();
        out.push(space(&pre("roundtrip", F::NAME), s.len(), "encode/decode of the boundary alphabet; values computed by arithmetic as well", move |i| {
            let a = &s2[i as usize];
            let b = bytes(a, F::LEN);
            let (x, r) = F::dec(&b);
            ck!(r == u32::MAX, "{}: canonical encoding of {} refused", F::NAME, a);
            ck!(x.enc() == b, "{}: encode(decode({})) differs", F::NAME, a);
            // representation from raw limbs: the value is raw/R
            let n = F::NL;
            let raw = (a * ((one() << (64 * n)) % &p)) % &p;
            let mut limbs = vec![0u64; n];
            for (k, d) in raw.to_u64_digits().iter().enumerate() {
                limbs[k] = *d;
            }
            let y = F::raw(&limbs);
            if F::NAME != "p7" && n > 1 {
                ck!(y.enc() == b && x.eqf(&y) == u32::MAX, "{}: encoding of the element built from limbs of {}", F::NAME, a);
            }
            // values above the modulus, same residue
            let mut c = a + &p;
            while c.bits() as usize <= 8 * F::LEN {
                let (z, r) = F::dec(&bytes(&c, F::LEN));
                ck!(r == 0 && z.zf() == u32::MAX && z.enc() == vec![0; F::LEN], "{}: non-canonical {} accepted", F::NAME, c);
                let m: F = of(&(&c % &p));
                for z in F::red(&bytes(&c, F::LEN)) {
                    ck!(z.eqf(&m) == u32::MAX && z.enc() == m.enc(), "{}: decode_reduce({}) wrong", F::NAME, c);
                }
                st(&(F::NAME, &c));
                c = if c.bits() as usize > 8 * F::LEN - 2 { c + &p } else { c * big(2) };
                if is0(&p) {
                    break;
                }
            }
            st(&(F::NAME, a));
            sample(|| format!("{}: decode(encode({})) round trip, +p refused", F::NAME, a));
            Ok(())
        }));
    }
    {
        // every length 0..3*LEN+20 x content patterns, for both decoders
        let pats: Vec<Box<dyn Fn(usize, usize) -> u8 + Send + Sync>> = vec![
            Box::new(|_, _| 0),
            Box::new(|_, _| 0xff),
            Box::new(|i, _| if i == 0 { 1 } else { 0 }),
            Box::new(|i, n| if i + 1 == n { 1 } else { 0 }),
            Box::new(|i, n| if i + 1 == n { 0x80 } else { 0xff }),
            Box::new(|i, _| (i * 37 + 11) as u8),
            Box::new(|i, n| if i * 2 < n { 0xff } else { 0 }),
            Box::new(|i, n| if i * 2 < n { 0 } else { 0xff }),
            Box::new(|i, _| if i % 8 == 7 { 0x80 } else { 0 }),
            Box::new(|i, _| if i % 8 == 0 { 1 } else { 0 }),
        ];
        let np = pats.len();
        let p = p.clone();
        let max = 3 * F::LEN + 20;
        out.push(space(&pre("lengths", F::NAME), (max + 1) * np, "byte strings of every length 0..3*LEN+20 x content patterns, strict and reducing decoders", move |i| {
            let (n, k) = (i as usize / np, i as usize % np);
            let b: Vec<u8> = (0..n).map(|j| pats[k](j, n)).collect();
            strict::<F>(&b, &p)?;
            reducing::<F>(&b, &p)
        }));
    }
    {
        // around the modulus: p with every single byte changed by every value in a set, truncations, extensions
        let p = p.clone();
        let ds = [1u8, 2, 0x7f, 0x80, 0xff, 0x10, 0xfe];
        let nd = ds.len();
        out.push(space(&pre("near-modulus", F::NAME), F::LEN * nd * 3, "encodings of p-1, p, p+1 with each single byte changed", move |i| {
            let i = i as usize;
            let (pos, d, w) = (i % F::LEN, ds[i / F::LEN % nd], i / F::LEN / nd);
            let x = &p + big(w as u64) - one();
            let mut b = bytes(&x, F::LEN);
            b[pos] = b[pos].wrapping_add(d);
            strict::<F>(&b, &p)?;
            reducing::<F>(&b, &p)?;
            let mut c = b.clone();
            c.push(0);
            strict::<F>(&c, &p)?;
            reducing::<F>(&c, &p)?;
            c.truncate(F::LEN - 1);
            strict::<F>(&c, &p)?;
            reducing::<F>(&c, &p)
        }));
    }
    {
        let p = p.clone();
        let s = reduced::<F>(24);
        let n = s.len();
        out.push(space(&pre("reduce-blocks", F::NAME), n * n, "reducing decoder on the concatenation of two alphabet blocks of every alignment", move |i| {
            let (a, b) = (&s[i as usize / n], &s[i as usize % n]);
            for cut in 0..9usize {
                let mut v = bytes(a, F::LEN);
                v.truncate(F::LEN - cut.min(F::LEN));
                v.extend(bytes(b, F::LEN));
                reducing::<F>(&v, &p)?;
            }
            Ok(())
        }));
    }
}
fn strict<F: Fel>(b: &[u8], p: &BigUint) -> Res
where
    F: FpT,
{
    let v = le_val(b);
    let ok = b.len() == F::LEN && v < *p;
    let (x, r) = F::dec(b);
    st(&(F::NAME, b));
    if ok {
        ck!(r == u32::MAX && x.enc() == b, "{}: decode of {:02x?} (len {})", F::NAME, b, b.len());
    } else {
        ck!(r == 0 && x.zf() == u32::MAX && x.enc().iter().all(|c| *c == 0), "{}: decode accepted {:02x?} (len {}), flag {:x}", F::NAME, b, b.len(), r);
    }
    Ok(())
}
fn reducing<F: FpT>(b: &[u8], p: &BigUint) -> Res {
    let v = le_val(b) % p;
    for x in F::red(b) {
        same(&format!("decode_reduce of {} bytes {:02x?}", b.len(), b), &x, &v)?;
    }
    Ok(())
}
fn f2_enc<F: F2T>(out: &mut Vec<Space>) {
    let p = F::B::p();
    let mut s = reduced::<F::B>(24);
    s.sort();
    let n = s.len();
    {
        let (s, p) = (s.clone(), p.clone());
        out.push(space(&pre("roundtrip2", F::NAME), n * n, "pairs of the reduced alphabet: encoding is the concatenation, any coordinate raised by p is refused", move |i| {
            let (a, b) = (&s[i as usize / n], &s[i as usize % n]);
            let l = F::B::LEN;
            let x: F = of2(&Q(a.clone(), b.clone()));
            let mut w = bytes(a, l);
            w.extend(bytes(b, l));
            ck!(x.enc() == w && F::LEN == 2 * l, "{}: encoding of ({}, {})", F::NAME, a, b);
            let (y, r) = F::dec(&w);
            ck!(r == u32::MAX && y.eqf(&x) == u32::MAX && y.enc() == w, "{}: decoding ({}, {})", F::NAME, a, b);
            st(&(F::NAME, a, b));
            for (da, db) in [(1u64, 0u64), (0, 1), (1, 1)] {
                let (c, d) = (a + &p * big(da), b + &p * big(db));
                if c.bits() as usize > 8 * l || d.bits() as usize > 8 * l {
                    continue;
                }
                let mut w = bytes(&c, l);
                w.extend(bytes(&d, l));
                let (y, r) = F::dec(&w);
                ck!(r == 0 && y.zf() == u32::MAX, "{}: accepted non-canonical ({}, {})", F::NAME, c, d);
                st(&(F::NAME, &c, &d));
            }
            Ok(())
        }));
    }
    out.push(space(&pre("lengths2", F::NAME), 4 * F::LEN + 3, "every length", move |i| {
        let n = i as usize / 2;
        let f = if i % 2 == 0 { 0u8 } else { 1 };
        let b = vec![f; n];
        let (x, r) = F::dec(&b);
        let ok = n == F::LEN && le_val(&b[..F::B::LEN]) < F::B::p();
        st(&(F::NAME, "len", n, f));
        ck!((r == u32::MAX) == ok && (r == 0) == !ok, "{}: decode of length {}", F::NAME, n);
        if !ok {
            ck!(x.zf() == u32::MAX, "{}: refused but non-zero", F::NAME);
        } else {
            ck!(x.enc() == b, "{}: re-encoding", F::NAME);
        }
        Ok(())
    }));
}

// ---------------------------------------------------------------- C07
fn f2_pair<F: F2T>(x: &Q, y: &Q, p: &BigUint, divs: bool) -> Res {
    let (a, b): (F, F) = (of2(x), of2(y));
    let exp = [x.add(y, p), x.sub(y, p), x.mul(y, p)];
    let mut q: Option<Q> = None;
    let _ = divs;
    for (op, f, r) in F::bin(&a, &b) {
        match op {
            Op::Add => same2(&format!("{:?}+{:?} ({})", x, y, f), &r, &exp[0])?,
            Op::Sub => same2(&format!("{:?}-{:?} ({})", x, y, f), &r, &exp[1])?,
            Op::Mul => same2(&format!("{:?}*{:?} ({})", x, y, f), &r, &exp[2])?,
            Op::Div => {
                if q.is_none() {
                    let (u, v) = r.parts();
                    let v = Q(val(&u), val(&v));
                    let ok = if y.is0() { v.is0() } else { v.mul(y, p) == *x };
                    ck!(ok, "{}: {:?}/{:?} gives {:?}", F::NAME, x, y, v);
                    q = Some(v);
                }
                same2(&format!("{:?}/{:?} ({})", x, y, f), &r, q.as_ref().unwrap())?
            }
        }
    }
    for r in F::mul2ways(&a, &b) {
        same2(&format!("{:?}*{:?} (mul_old/mul_new/set_mul)", x, y), &r, &exp[2])?;
    }
    st(&(F::NAME, x, y));
    Ok(())
}
fn f2_un<F: F2T>(x: &Q, p: &BigUint) -> Res {
    let a: F = of2(x);
    let half = (p + one()) >> 1;
    let sc = |k: &BigUint| Q((&x.0 * k) % p, (&x.1 * k) % p);
    for (u, f, r) in F::un(&a) {
        let e = match u {
            Un::Neg => x.neg(p),
            Un::Sqr => x.mul(x, p),
            Un::Half => sc(&half),
            Un::M2 => sc(&big(2)),
            Un::M3 => sc(&big(3)),
            Un::M4 => sc(&big(4)),
            Un::M8 => sc(&big(8)),
            Un::Inv => {
                let (u, v) = r.parts();
                let v = Q(val(&u), val(&v));
                let ok = if x.is0() { v.is0() } else { v.mul(x, p) == Q::one() };
                ck!(ok, "{}: inverse of {:?} gives {:?}", F::NAME, x, v);
                v
            }
        };
        same2(&format!("{:?} {:?} ({})", u, x, f), &r, &e)?;
    }
    for r in a.conjs() {
        same2(&format!("conj {:?}", x), &r, &Q(x.0.clone(), (p - &x.1) % p))?;
    }
    for k in [0i32, 1, -1, 2, -2, 3, 1000, -1000, i32::MAX, i32::MIN] {
        let m = sc(&(big((k as i64).unsigned_abs()) % p));
        let m = if k < 0 { m.neg(p) } else { m };
        for r in F::muls(&a, k) {
            same2(&format!("{:?} * small {}", x, k), &r, &m)?;
        }
    }
    st(&(F::NAME, x));
    Ok(())
}
fn f2_arith<F: F2T>(k: usize, rich: usize, out: &mut Vec<Space>) {
    let p = F::B::p();
    let s = reduced::<F::B>(k);
    let n = s.len();
    {
        let (s, p) = (s.clone(), p.clone());
        out.push(space(&pre("pairs", F::NAME), n * n * n * n, "all pairs of elements with coordinates in the reduced alphabet x all binary operators in all forms", move |i| {
            let i = i as usize;
            let g = |j: usize| s[j % n].clone();
            let (x, y) = (Q(g(i), g(i / n)), Q(g(i / n / n), g(i / n / n / n)));
            sample(|| format!("{}: {:?} op {:?}", F::NAME, x, y));
            f2_pair::<F>(&x, &y, &p, true)
        }));
    }
    {
        let s = alphabet::<F::B>(0);
        let s2 = reduced::<F::B>(24);
        let (n, m) = (s.len(), s2.len());
        let p = p.clone();
        out.push(space(&pre("unary", F::NAME), n * m * 2, "alphabet x reduced alphabet in both coordinate orders, all unary operations", move |i| {
            let i = i as usize;
            let (a, b) = (s[i / 2 % n].clone(), s2[i / 2 / n].clone());
            f2_un::<F>(&if i % 2 == 0 { Q(a, b) } else { Q(b, a) }, &p)
        }));
    }
    f2_rest::<F>(rich, &reduced::<F::B>(6), out)
}
fn f2_rest<F: F2T>(rich: usize, s: &[BigUint], out: &mut Vec<Space>) {
    let p = F::B::p();
    let m = s.len();
    let mut bases: Vec<Q> = vec![];
    for i in 0..m {
        for j in 0..m {
            bases.push(Q(s[i].clone(), s[j].clone()));
        }
    }
    let nb = bases.len();
    {
        let b3: Vec<F> = [nb - 1, nb / 2, 0, 1, m + 2].iter().map(|k| of2(&bases[*k % nb])).collect();
        let p = p.clone();
        fel_pow::<F, _>(rich, b3, out, move |x: &F, e: &BigUint| {
            let (a, b) = x.parts();
            of2::<F>(&Q(val(&a), val(&b)).pow(e, &p))
        });
    }
    {
        // u64 / u32 exponents
        let mut es: Vec<u64> = (0..130).collect();
        for j in 0..64 {
            for d in -1i64..=1 {
                es.push((1u64 << j).wrapping_add(d as u64));
            }
        }
        for w in [0x5555555555555555u64, 0xAAAAAAAAAAAAAAAA, 0x123456789ABCDEF0, 0xC000000000000003] {
            for sh in [0, 1, 31, 32, 33] {
                es.push(w >> sh);
            }
        }
        es.sort();
        es.dedup();
        let (p, bs) = (p.clone(), bases.clone());
        let step = if rich > 0 { 1 } else { 5 };
        let picks: Vec<usize> = (0..nb).step_by(step).collect();
        let np = picks.len();
        out.push(space(&pre("pow-int", F::NAME), es.len() * np, "64/32-bit exponents at all powers of two +-1 with every declared bit length", move |i| {
            let (e, x) = (es[i as usize / np], &bs[picks[i as usize % np]]);
            let a: F = of2(x);
            let r = x.pow(&big(e), &p);
            for y in a.pow64v(e) {
                same2(&format!("{:?}^{} vartime", x, e), &y, &r)?;
            }
            let bl = 64 - e.leading_zeros() as usize;
            for len in [bl, bl + 1, 64, (bl + 64) / 2] {
                if len >= bl && len <= 64 {
                    for y in a.pow64(e, len) {
                        same2(&format!("{:?}^{} u64 length {}", x, e, len), &y, &r)?;
                    }
                }
            }
            if e <= u32::MAX as u64 {
                same2(&format!("{:?}^{} pow_small", x, e), &a.pow32(e as u32), &r)?;
            }
            st(&(F::NAME, "e", e, x));
            Ok(())
        }));
    }
    {
        // batch inversion: every length 0..=420 (three batches), zero patterns; every zero mask for short slices
        let (p, bs) = (p.clone(), bases.clone());
        let lens: Vec<usize> = (0..=12).chain(195..=205).chain(396..=405).chain([50, 100, 300, 600, 601]).collect();
        let nl = lens.len();
        let npat = 8;
        let inv: Vec<F> = bs.iter().map(|x| if x.is0() { of2(&Q::zero()) } else {
            let nrm = (&x.0 * &x.0 + &x.1 * &x.1) % &p;
            let ni = inv_mod(&nrm, &p).unwrap();
            of2(&Q((&x.0 * &ni) % &p, ((&p - &x.1) * &ni) % &p)) }).collect();
        let inv = Arc::new(inv);
        {
            let (bs, inv) = (bs.clone(), inv.clone());
            out.push(space(&pre("batch-invert", F::NAME), nl * npat, "batch inversion at every length class x zero pattern", move |i| {
                let (n, pt) = (lens[i as usize / npat], i as usize % npat);
                let z = |j: usize| match pt {
                    0 => false,
                    1 => true,
                    2 => j == 0,
                    3 => j + 1 == n,
                    4 => j % 2 == 0,
                    5 => j % 200 == 0,
                    6 => j % 200 == 199,
                    _ => j < n / 2,
                };
                let nz: Vec<usize> = (0..bs.len()).filter(|k| !bs[*k].is0()).collect();
                let idx: Vec<Option<usize>> = (0..n).map(|j| if z(j) { None } else { Some(nz[(j * 7 + pt) % nz.len()]) }).collect();
                let mut v: Vec<F> = idx.iter().map(|k| k.map(|k| of2(&bs[k])).unwrap_or(of2(&Q::zero()))).collect();
                F::binv(&mut v);
                for j in 0..n {
                    let e = idx[j].map(|k| inv[k]).unwrap_or(of2(&Q::zero()));
                    ck!(v[j].eqf(&e) == u32::MAX && v[j].enc() == e.enc(), "{}: batch_invert length {} entry {}", F::NAME, n, j);
                }
                st(&(F::NAME, n, pt));
                Ok(())
            }));
        }
        out.push(space(&pre("batch-invert-masks", F::NAME), (0..=10usize).map(|n| 1 << n).sum(), "every zero mask of every slice length 0..10", move |i| {
            let mut i = i as usize;
            let mut n = 0;
            while i >= 1 << n {
                i -= 1 << n;
                n += 1;
            }
            let nz: Vec<usize> = (0..bs.len()).filter(|k| !bs[*k].is0()).collect();
            let mut v: Vec<F> = (0..n).map(|j| if i >> j & 1 == 1 { of2(&Q::zero()) } else { of2(&bs[nz[(j * 5 + 1) % nz.len()]]) }).collect();
            F::binv(&mut v);
            for j in 0..n {
                let e: F = if i >> j & 1 == 1 { of2(&Q::zero()) } else { inv[nz[(j * 5 + 1) % nz.len()]] };
                ck!(v[j].eqf(&e) == u32::MAX, "{}: batch_invert length {} zero mask {:b} entry {}", F::NAME, n, i, j);
            }
            st(&(F::NAME, "bm", n, i));
            Ok(())
        }));
    }
    {
        let p = p.clone();
        out.push(space(&pre("constants", F::NAME), 1, "named constants", move |_| {
            for (n, c) in F::consts() {
                let e = match n {
                    "-1" => Q(&p - one(), zero()),
                    "i" => Q(zero(), one()),
                    "-i" => Q(zero(), &p - one()),
                    "nqr" => {
                        ck!(c.leg() == -1, "{}: NQR is a square", F::NAME);
                        continue;
                    }
                    k => Q(big(k.parse().unwrap()), zero()),
                };
                same2(n, &c, &e)?;
            }
            Ok(())
        }));
    }
}
/// every element / every pair of a tiny extension field
fn f2_tiny<F: F2T>(pairs: bool, out: &mut Vec<Space>) {
    let p = F::B::p();
    let q = p.to_u64_digits()[0];
    let all: Arc<Vec<Q>> = Arc::new((0..q * q).map(|i| Q(big(i % q), big(i / q))).collect());
    let n = all.len();
    {
        let (all, p) = (all.clone(), p.clone());
        out.push(space(&pre("all-unary", F::NAME), n, "every element, all unary operations", move |i| f2_un::<F>(&all[i as usize], &p)).complete());
    }
    if pairs {
        let (all, p) = (all.clone(), p.clone());
        out.push(space(&pre("all-pairs", F::NAME), n * n, "every ordered pair of elements, all binary operators", move |i| f2_pair::<F>(&all[i as usize / n], &all[i as usize % n], &p, true)).complete());
    }
    let (all, p) = (all.clone(), p.clone());
    let es: Vec<u64> = (0..=2 * q + 4).chain([q * q - 2, q * q - 1, q * q, q * q + 1]).collect();
    out.push(space(&pre("all-pow", F::NAME), n, "every element x every exponent up to 2p+4 and around p^2-1", move |i| {
        let x = &all[i as usize];
        let a: F = of2(x);
        let mut r = Q::one();
        let mut k = 0u64;
        for e in es.iter() {
            if *e < q * q - 2 && *e <= 2 * q + 4 {
                while k < *e {
                    r = r.mul(x, &p);
                    k += 1;
                }
            } else {
                r = x.pow(&big(*e), &p);
            }
            for y in a.pow64v(*e).into_iter().chain(a.pow64(*e, 64 - e.leading_zeros() as usize)).chain([a.pow32(*e as u32), a.powb(&big(*e))]) {
                same2(&format!("{:?}^{}", x, e), &y, &r)?;
            }
        }
        Ok(())
    }).complete());
}

// ---------------------------------------------------------------- C08
fn root_case<F: Fel>(x: &F, is_zero: bool, sq: bool, fourth: bool, canon: impl Fn(&F) -> bool) -> Res {
    let l = x.leg();
    let d = run::esc(&format!("{:02x?}", x.enc()));
    ck!(l == if is_zero { 0 } else if sq { 1 } else { -1 }, "{}: legendre {} on {}", F::NAME, l, d);
    let zz = F::bin(x, x).into_iter().find(|t| t.0 == Op::Sub).unwrap().2;
    let sqr = |y: &F| F::un(y).into_iter().find(|t| t.0 == Un::Sqr).unwrap().2;
    let mut first: Option<Vec<u8>> = None;
    for (y, r) in x.sqrts() {
        if sq || is_zero {
            ck!(r == u32::MAX, "{}: sqrt of a square refused: {}", F::NAME, d);
            ck!(sqr(&y).eqf(x) == u32::MAX, "{}: sqrt wrong on {}", F::NAME, d);
            ck!(canon(&y), "{}: sqrt has the wrong sign on {}", F::NAME, d);
        } else {
            ck!(r == 0 && y.eqf(&zz) == u32::MAX, "{}: sqrt of a non-square: flag {:x} on {}", F::NAME, r, d);
        }
        ck!(first.as_ref().map(|f| *f == y.enc()).unwrap_or(true), "{}: sqrt and set_sqrt differ on {}", F::NAME, d);
        first = Some(y.enc());
    }
    first = None;
    for (y, r) in x.fourths() {
        if fourth || is_zero {
            ck!(r == u32::MAX, "{}: fourth root refused: {}", F::NAME, d);
            ck!(sqr(&sqr(&y)).eqf(x) == u32::MAX, "{}: fourth root wrong on {}", F::NAME, d);
            ck!(canon(&y), "{}: fourth root has the wrong sign on {}", F::NAME, d);
        } else {
            ck!(r == 0 && y.eqf(&zz) == u32::MAX, "{}: fourth root of a non-fourth-power: flag {:x} on {}", F::NAME, r, d);
        }
        ck!(first.as_ref().map(|f| *f == y.enc()).unwrap_or(true), "{}: fourth_root and set_fourth_root differ on {}", F::NAME, d);
        first = Some(y.enc());
    }
    st(&(F::NAME, sq, fourth, x.enc()));
    Ok(())
}
fn canon1<F: FpT>(y: &F) -> bool {
    y.enc()[0] & 1 == 0
}
fn canon2<F: F2T>(y: &F) -> bool {
    let (a, b) = y.parts();
    if a.zf() == 0 {
        a.enc()[0] & 1 == 0
    } else {
        b.enc()[0] & 1 == 0
    }
}
fn fp_roots<F: FpT>(rich: usize, out: &mut Vec<Space>) {
    let p = F::p();
    let mut s = alphabet::<F>(rich);
    if rich == 0 && s.len() > 220 {
        s = s.into_iter().enumerate().filter(|(i, _)| i % 3 == 0).map(|x| x.1).collect();
    }
    let h: BigUint = (&p - one()) >> 1;
    let p2 = p.clone();
    let h2 = h.clone();
    out.push(space(&pre("roots", F::NAME), s.len(), "boundary alphabet, its squares, fourth powers and their negatives, against Euler's criterion", move |i| {
        let a = &s[i as usize];
        let sq = (a * a) % &p2;
        let fo = (&sq * &sq) % &p2;
        let e = a.modpow(&h2, &p2) == one();
        root_case::<F>(&of(a), is0(a), e, e, canon1)?;
        for (x, sqr) in [(sq, true), (fo, true)] {
            root_case::<F>(&of(&x), is0(&x), sqr, sqr, canon1)?;
            let m = (&p2 - &x) % &p2;
            root_case::<F>(&of(&m), is0(&m), !sqr, !sqr, canon1)?;
        }
        sample(|| format!("{}: roots of {} (square: {})", F::NAME, a, e));
        Ok(())
    }));
    // legendre walks the same binary GCD as division: every shift
    let bits = F::bitlen();
    out.push(space(&pre("legendre-shifts", F::NAME), bits * 8, "Legendre symbol of (2k+1)*2^s (as value and as representation) for every shift s, multiplicativity against the model", move |i| {
        let (sft, k) = (i as usize / 8, i as usize % 8);
        let x = if k < 4 { (big(2 * k as u64 + 1) << sft) % &p } else { ((&p * big(k as u64)) / big(9)) >> sft };
        let e = if is0(&x) { 0 } else if x.modpow(&h, &p) == one() { 1 } else { -1 };
        ck!(of::<F>(&x).leg() == e, "{}: legendre of {}", F::NAME, x);
        let rinv = inv_mod(&((one() << (64 * F::NL)) % &p), &p).unwrap();
        let y = (&x * &rinv) % &p;
        let e = if is0(&y) { 0 } else if y.modpow(&h, &p) == one() { 1 } else { -1 };
        ck!(of::<F>(&y).leg() == e, "{}: legendre of {}", F::NAME, y);
        st(&(F::NAME, &x));
        Ok(())
    }));
}
fn f2_roots<F: F2T>(k: usize, out: &mut Vec<Space>) {
    let p = F::B::p();
    let s = reduced::<F::B>(k);
    let n = s.len();
    // x is a square iff its norm is a square in Fp; a non-zero fourth power iff x^((p^2-1)/4) = 1
    out.push(space(&pre("roots2", F::NAME), n * n, "coordinates over the reduced alphabet; x, x^2, x^4, and non-squares NQR*x^2, NQR^2*x^4", move |i| {
        let x = Q(s[i as usize / n].clone(), s[i as usize % n].clone());
        let nqr: F = F::consts().into_iter().find(|c| c.0 == "nqr").unwrap().1;
        let (na, nb) = nqr.parts();
        let nq = Q(val(&na), val(&nb));
        let h = (&p - one()) >> 1;
        let e4 = (&p * &p - one()) >> 2;
        let nn = (&nq.0 * &nq.0 + &nq.1 * &nq.1) % &p;
        ck!(nn.modpow(&h, &p) != one(), "{}: NQR is a square", F::NAME);
        let x2 = x.mul(&x, &p);
        let x4 = x2.mul(&x2, &p);
        let norm = (&x.0 * &x.0 + &x.1 * &x.1) % &p;
        let sq = norm.modpow(&h, &p) == one();
        let fo = sq && x.pow(&e4, &p) == Q::one();
        root_case::<F>(&of2(&x), x.is0(), sq, fo, canon2)?;
        // x^2 is a fourth power iff x or -x is a square; -1 is a square in Fp2, so iff x is
        root_case::<F>(&of2(&x2), x.is0(), true, sq, canon2)?;
        root_case::<F>(&of2(&x4), x.is0(), true, true, canon2)?;
        let y = x2.mul(&nq, &p);
        root_case::<F>(&of2(&y), x.is0(), false, false, canon2)?;
        // NQR^2 * x^4 is a square but not a fourth power
        let y = x4.mul(&nq, &p).mul(&nq, &p);
        root_case::<F>(&of2(&y), x.is0(), true, false, canon2)?;
        Ok(())
    }));
}
fn tiny_roots<F: F2T>(out: &mut Vec<Space>) {
    let p = F::B::p();
    let q = p.to_u64_digits()[0];
    let n = (q * q) as usize;
    let mut cnt = vec![(0u8, 0u8); n];
    for i in 0..n as u64 {
        let x = Q(big(i % q), big(i / q));
        let x2 = x.mul(&x, &p);
        let x4 = x2.mul(&x2, &p);
        let ix = |y: &Q| (y.0.to_u64_digits().first().copied().unwrap_or(0) + q * y.1.to_u64_digits().first().copied().unwrap_or(0)) as usize;
        cnt[ix(&x2)].0 = 1;
        cnt[ix(&x4)].1 = 1;
    }
    out.push(space(&pre("all-roots", F::NAME), n, "every element against the table of all squares and fourth powers", move |i| {
        let x = Q(big(i % q), big(i / q));
        let c = cnt[i as usize];
        root_case::<F>(&of2(&x), x.is0(), c.0 == 1, c.1 == 1, canon2)
    }).complete());
}

// ---------------------------------------------------------------- C26
fn select_case<F: Fel>(a: &F, b: &F, same_val: bool) -> Res {
    st(&(F::NAME, a.enc(), b.enc()));
    for c in [0u32, u32::MAX] {
        for (n, r) in F::sel(a, b, c) {
            let e = if c == 0 { a } else { b };
            ck!(r.enc() == e.enc() && r.eqf(e) == u32::MAX, "{}: {} with control {:x}", F::NAME, n, c);
        }
        let (mut x, mut y) = (*a, *b);
        F::swap(&mut x, &mut y, c);
        let (ex, ey) = if c == 0 { (a, b) } else { (b, a) };
        ck!(x.enc() == ex.enc() && y.enc() == ey.enc(), "{}: condswap with control {:x}", F::NAME, c);
        F::swap(&mut x, &mut y, c);
        ck!(x.enc() == a.enc() && y.enc() == b.enc(), "{}: condswap twice with control {:x}", F::NAME, c);
        let z = F::condneg(a, c);
        let neg = F::un(a).into_iter().find(|t| t.0 == Un::Neg).unwrap().2;
        ck!(z.enc() == if c == 0 { a.enc() } else { neg.enc() }, "{}: set_condneg with control {:x}", F::NAME, c);
    }
    let e = if same_val { u32::MAX } else { 0 };
    ck!(a.eqf(b) == e && b.eqf(a) == e, "{}: equals gives {:x} on {:02x?} {:02x?}", F::NAME, a.eqf(b), a.enc(), b.enc());
    if same_val {
        ck!(a.hc() == b.hc() && a.hstd() == b.hstd(), "{}: hashes of equal values differ", F::NAME);
    }
    // a - b + b, (a+b) - b, 2a - a, a*1: equal values however computed
    let bin = F::bin(a, b);
    let get = |o: Op, v: &[(Op, &'static str, F)]| v.iter().find(|t| t.0 == o).unwrap().2;
    let d = get(Op::Sub, &bin);
    let s = get(Op::Add, &bin);
    let back = [get(Op::Add, &F::bin(&d, b)), get(Op::Sub, &F::bin(&s, b)), F::muls(a, 1)[0], F::condneg(&F::condneg(a, u32::MAX), u32::MAX)];
    for r in back {
        ck!(r.eqf(a) == u32::MAX && r.enc() == a.enc() && r.hc() == a.hc() && r.hstd() == a.hstd() && r.zf() == a.zf(), "{}: equal values computed differently compare or hash differently", F::NAME);
    }
    ck!(d.zf() == e, "{}: zero test of a difference", F::NAME);
    Ok(())
}
fn fp_select<F: FpT>(rich: usize, out: &mut Vec<Space>) {
    let s = thin(alphabet::<F>(rich), if rich > 0 { 2000 } else if F::NL > 8 { 130 } else { 400 });
    // single-bit neighbours of every representation bit: equality must look at every bit
    let e: Vec<F> = s.iter().map(|x| of(x)).collect();
    let n = s.len();
    out.push(space(&pre("select", F::NAME), n * n, "all pairs of the boundary alphabet x both control values", move |i| {
        let (i, j) = (i as usize / n, i as usize % n);
        select_case::<F>(&e[i], &e[j], i == j)
    }));
    if F::NL > 1 {
        let p = F::p();
        let bits = p.bits() as usize - 1;
        out.push(space(&pre("eq-bits", F::NAME), bits, "representations differing in exactly one bit, for every bit", move |i| {
            let raw = |x: &BigUint| {
                let mut l = vec![0u64; F::NL];
                for (k, d) in x.to_u64_digits().iter().enumerate() {
                    l[k] = *d;
                }
                F::raw(&l)
            };
            for base in [zero(), (one() << bits) - one(), (&p >> 1) & ((one() << bits) - one())] {
                let b = if base.bit(i) { &base - (one() << i) } else { &base + (one() << i) };
                if base < p && b < p {
                    let (x, y) = (raw(&base), raw(&b));
                    ck!(x.eqf(&y) == 0 && y.eqf(&x) == 0, "{}: values differing only in bit {} compare equal", F::NAME, i);
                    ck!((x.zf() == u32::MAX) == is0(&base) && (y.zf() == u32::MAX) == is0(&b), "{}: zero test with bit {}", F::NAME, i);
                    st(&(F::NAME, &base, i));
                    select_case::<F>(&x, &y, false)?;
                }
            }
            Ok(())
        }));
    }
}
fn f2_select<F: F2T>(k: usize, out: &mut Vec<Space>) {
    let s = reduced::<F::B>(k);
    let n = s.len();
    out.push(space(&pre("select2", F::NAME), n * n * n * n, "all pairs of elements with coordinates in the reduced alphabet x both control values", move |i| {
        let i = i as usize;
        let g = |j: usize| s[j % n].clone();
        let (x, y) = (Q(g(i), g(i / n)), Q(g(i / n / n), g(i / n / n / n)));
        let (a, b): (F, F) = (of2(&x), of2(&y));
        ck!(a.eqop(&b) == (x == y), "{}: == on {:?} {:?}", F::NAME, x, y);
        select_case::<F>(&a, &b, x == y)
    }));
}
fn f2_select_tiny<F: F2T>(out: &mut Vec<Space>) {
    let q = F::B::p().to_u64_digits()[0];
    let n = (q * q) as usize;
    out.push(space(&pre("all-select", F::NAME), n * n, "every ordered pair of elements x both control values", move |i| {
        let (i, j) = (i as usize / n, i as usize % n);
        let g = |i: usize| Q(big(i as u64 % q), big(i as u64 / q));
        let (a, b): (F, F) = (of2(&g(i)), of2(&g(j)));
        ck!(a.eqop(&b) == (i == j), "{}: ==", F::NAME);
        select_case::<F>(&a, &b, i == j)
    }).complete());
}

// ---------------------------------------------------------------- random elements (part of C28's "documented domain")
fn rnd<F2: F2T>(out: &mut Vec<Space>) {
    let p = F2::B::p();
    let l = F2::B::LEN + 16;
    out.push(space(&pre("random-elements", F2::NAME), 64 * 8, "scripted random answers: result is a canonical element; non-squares are non-squares", move |i| {
        let (k, j) = (i as usize / 8, i as u8 % 8);
        let mut b: Vec<u8> = (0..2 * l + 64).map(|t| match j { 0 => 0, 1 => 0xff, 2 => (t * 7 + k) as u8, 3 => if t == k { 1 } else { 0 }, 4 => if t == 2 * k { 0x80 } else { 0xff }, 5 => (t as u8).wrapping_mul(k as u8), 6 => if t > k { 0xff } else { 0 }, _ => if t < k { 0xff } else { 0 } }).collect();
        let mut s = Script(b.clone(), 0);
        for x in F2::B::rnd(&mut s) {
            ck!(val(&x) < p, "{}: random element not canonical", F2::NAME);
            ck!(F2::B::dec(&x.enc()).1 == u32::MAX, "{}: random element does not decode", F2::NAME);
        }
        let mut s = Script(b.clone(), 0);
        for x in F2::rnd(&mut s) {
            let (u, v) = x.parts();
            ck!(val(&u) < p && val(&v) < p, "{}: random element not canonical", F2::NAME);
        }
        b[0] |= 1; // a script that is zero throughout would make the documented loop run forever
        let mut s = Script(b, 0);
        for x in F2::rnd_ns(&mut s) {
            ck!(x.leg() == -1, "{}: rand_nonsquare gives a square", F2::NAME);
        }
        st(&(F2::NAME, "rnd", i));
        Ok(())
    }));
    let p = F2::B::p();
    out.push(space(&pre("random-range", F2::NAME), 1, "2000 mixed streams: every bit of both coordinates takes both values, no relation among the bits, the whole range below p is used", move |_| {
        // the top bit of p is left out when hardly any element has it
        let n = p.bits() as usize;
        let n = if p < (big(1) << (n - 1)) + (big(1) << (n - 5)) { n - 1 } else { n };
        let low = (big(1) << n) - big(1);
        let mut rows: Vec<BigUint> = vec![];
        let mut ext = [[false; 2]; 2];
        for i in 0..(2000.max(5 * n)) as u64 {
            let mut z = (i + 1).wrapping_mul(0xd1342543de82ef95);
            let b: Vec<u8> = (0..2 * l + 40).map(|_| { z = z.wrapping_add(0x9e3779b97f4a7c15); let y = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); ((y ^ (y >> 27)).wrapping_mul(0x94d049bb133111eb) >> 33) as u8 }).collect();
            let x = F2::rnd(&mut Script(b.clone(), 0))[0];
            let (u, v) = x.parts();
            let (u, v) = (val(&u), val(&v));
            ck!(u < p && v < p, "{}: random element not canonical", F2::NAME);
            for (k, w) in [&u, &v].iter().enumerate() {
                ext[k][0] |= **w < &p >> 4;
                ext[k][1] |= **w > &p - (&p >> 4);
            }
            rows.push(big(1) + ((u & &low) << 1) + ((v & &low) << (n + 1)));
        }
        ck!(ext == [[true; 2]; 2], "{}: random elements avoid an end of the range below p", F2::NAME);
        let mut r = 0;
        while let Some(x) = rows.pop() {
            if x.bits() > 0 {
                r += 1;
                for y in rows.iter_mut() {
                    if y.bit(x.bits() - 1) {
                        *y ^= &x;
                    }
                }
            }
        }
        ck!(r == 2 * n + 1, "{}: {} linear relations among the bits of random elements", F2::NAME, 2 * n + 1 - r);
        st(&(F2::NAME, "range"));
        Ok(())
    }));
}

fn build(o: &Opts) -> Vec<Space> {
    use festa_rs::fields::{FpFESTA::Fp, FpFESTAExt::Fp2};
    let mut v: Vec<Space> = vec![];
    let t = o.thorough as usize;
    match o.prop.as_str() {
        "C05" => {
            fp_enc::<Fp>(t, &mut v);
            f2_enc::<Fp2>(&mut v);
        }
        "C06" => fp_arith::<Fp>(t, true, &mut v),
        "C07" => f2_arith::<Fp2>(if t > 0 { 16 } else { 9 }, t, &mut v),
        "C08" => {
            fp_roots::<Fp>(t, &mut v);
            f2_roots::<Fp2>(if t > 0 { 20 } else { 10 }, &mut v);
        }
        "C26" => {
            fp_select::<Fp>(t, &mut v);
            f2_select::<Fp2>(if t > 0 { 12 } else { 8 }, &mut v);
        }
        "C28" => rnd::<Fp2>(&mut v),
        _ => panic!("unknown property"),
    }
    #[cfg(mc_zoo)]
    {
        use festa_rs::fields as f;
        macro_rules! each { ($g:ident, [$($m:ident),*], ($($a:tt)*)) => { each!(@ $g ($($a)*) $($m)*) };
            (@ $g:ident $a:tt $($m:ident)*) => {{ $( each!(@@ $g $m $a); )* }};
            (@@ $g:ident $m:ident ($($a:tt)*)) => { $g::<f::$m::Fp>($($a)* &mut v) } }
        macro_rules! each2 { ($g:ident, [$($m:ident),*], ($($a:tt)*)) => { each2!(@ $g ($($a)*) $($m)*) };
            (@ $g:ident $a:tt $($m:ident)*) => {{ $( each2!(@@ $g $m $a); )* }};
            (@@ $g:ident $m:ident ($($a:tt)*)) => { $g::<f::$m::Fp2>($($a)* &mut v) } }
        match o.prop.as_str() {
            "C05" => {
                each!(fp_enc, [Z65, Z96, Z127, Z127b, Z128, Z191, Z193, Z254], (1,));
                each2!(f2_enc, [Z65e, Z96e, Z193e, Z254e], ());
            }
            "C06" => {
                each!(fp_arith, [Z65, Z96, Z127b, Z193, Z254], (t, true,));
                // no spare bits: outside the domain of the lazy-reduction product sums
                each!(fp_arith, [Z127, Z128, Z191], (t, false,));
            }
            "C07" => each2!(f2_arith, [Z65e, Z96e, Z193e, Z254e], (if t > 0 { 16 } else { 9 }, t,)),
            "C08" => {
                each!(fp_roots, [Z65, Z96, Z127, Z127b, Z128, Z191, Z193, Z254], (1,));
                each2!(f2_roots, [Z65e, Z96e, Z193e, Z254e], (20,));
            }
            "C26" => {
                each!(fp_select, [Z65, Z128, Z193], (t,));
                each2!(f2_select, [Z65e, Z254e], (8,));
            }
            "C28" => each2!(rnd, [Z65e, Z96e, Z193e, Z254e], ()),
            _ => {}
        }
    }
    #[cfg(mc_tiny)]
    {
        use festa_rs::fields::tiny as y;
        match o.prop.as_str() {
            "C07" => {
                f2_tiny::<y::p7::ext::Fp2>(true, &mut v);
                f2_tiny::<y::p23::ext::Fp2>(true, &mut v);
                f2_tiny::<y::p31::ext::Fp2>(t > 0, &mut v);
                f2_tiny::<y::p47::ext::Fp2>(false, &mut v);
                f2_tiny::<y::p71::ext::Fp2>(false, &mut v);
            }
            "C08" => {
                tiny_roots::<y::p7::ext::Fp2>(&mut v);
                tiny_roots::<y::p23::ext::Fp2>(&mut v);
                tiny_roots::<y::p31::ext::Fp2>(&mut v);
                tiny_roots::<y::p47::ext::Fp2>(&mut v);
                tiny_roots::<y::p71::ext::Fp2>(&mut v);
                tiny_roots::<y::p103::ext::Fp2>(&mut v);
            }
            "C26" => {
                f2_select_tiny::<y::p7::ext::Fp2>(&mut v);
                f2_select_tiny::<y::p23::ext::Fp2>(&mut v);
            }
            _ => {}
        }
    }
    v
}
fn main() {
    run::main(build)
}
