//! Boring reference models.
use num_bigint::BigUint;

pub fn big(x: u64) -> BigUint {
    BigUint::from(x)
}
pub fn one() -> BigUint {
    BigUint::from(1u32)
}
pub fn zero() -> BigUint {
    BigUint::from(0u32)
}
pub fn is0(x: &BigUint) -> bool {
    x.bits() == 0
}
pub fn bytes(x: &BigUint, len: usize) -> Vec<u8> {
    let mut v = if is0(x) { vec![] } else { x.to_bytes_le() };
    assert!(v.len() <= len);
    v.resize(len, 0);
    v
}
pub fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
pub fn gcdb(a: &BigUint, b: &BigUint) -> BigUint {
    let (mut a, mut b) = (a.clone(), b.clone());
    while !is0(&b) {
        let r = &a % &b;
        a = b;
        b = r;
    }
    a
}
/// inverse of a modulo m, by the textbook iteration on signed pairs (m > 1, gcd = 1)
pub fn inv_mod(a: &BigUint, m: &BigUint) -> Option<BigUint> {
    if m == &one() {
        return Some(zero());
    }
    let (mut r0, mut r1) = (m.clone(), a % m);
    // coefficients modulo m
    let (mut t0, mut t1) = (zero(), one());
    while !is0(&r1) {
        let q = &r0 / &r1;
        let r2 = &r0 - &q * &r1;
        let t2 = (&t0 + m * &q - (&q * &t1) % m) % m;
        let t2 = t2 % m;
        r0 = r1;
        r1 = r2;
        t0 = t1;
        t1 = t2;
    }
    if r0 == one() {
        Some(t0)
    } else {
        None
    }
}
pub fn order_of(f: &[(u32, u32)]) -> BigUint {
    f.iter().fold(one(), |m, (l, e)| m * BigUint::from(*l).pow(*e))
}
pub fn order_u64(f: &[(u32, u32)]) -> u64 {
    f.iter().map(|(l, e)| (*l as u64).pow(*e)).product()
}

/// Element of F_p[i]
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Q(pub BigUint, pub BigUint);
impl Q {
    pub fn add(&self, o: &Q, p: &BigUint) -> Q {
        Q((&self.0 + &o.0) % p, (&self.1 + &o.1) % p)
    }
    pub fn neg(&self, p: &BigUint) -> Q {
        Q((p - &self.0) % p, (p - &self.1) % p)
    }
    pub fn sub(&self, o: &Q, p: &BigUint) -> Q {
        self.add(&o.neg(p), p)
    }
    pub fn mul(&self, o: &Q, p: &BigUint) -> Q {
        let re = &self.0 * &o.0 + (p - &self.1) * &o.1;
        let im = &self.0 * &o.1 + &self.1 * &o.0;
        Q(re % p, im % p)
    }
    pub fn is0(&self) -> bool {
        is0(&self.0) && is0(&self.1)
    }
    pub fn one() -> Q {
        Q(one(), zero())
    }
    pub fn zero() -> Q {
        Q(zero(), zero())
    }
    pub fn pow(&self, e: &BigUint, p: &BigUint) -> Q {
        let mut r = Q::one();
        for i in (0..e.bits()).rev() {
            r = r.mul(&r, p);
            if e.bit(i) {
                r = r.mul(self, p);
            }
        }
        r
    }
}
