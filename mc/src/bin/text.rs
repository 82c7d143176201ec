//! C33 printed values.
#![allow(non_snake_case)]
use festa_rs::ecFESTA::*;
use festa_rs::festa::*;
use festa_rs::fields::FpFESTA::Fp;
use festa_rs::fields::FpFESTAExt as PP;
use festa_rs::thetaFESTA::ThetaPoint;
use mc::ck;
use mc::run::{self, sample, space, st, Opts, Space};
use num_bigint::BigUint;
use std::sync::Arc;

const L: u32 = PP::L_POWER;

fn big(n: u64) -> BigUint {
    BigUint::from(n)
}
// ------------------------------------------------------------------------------------------------ C33
/// the decimal numbers of a text
fn nums(s: &str) -> Vec<BigUint> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|w| !w.is_empty()).map(|w| BigUint::parse_bytes(w.as_bytes(), 10).unwrap()).collect()
}
const FL: usize = Fp::ENCODED_LENGTH;
fn le(x: &Fp) -> BigUint {
    BigUint::from_bytes_le(&x.encode())
}
fn modulus() -> BigUint {
    le(&Fp::MINUS_ONE) + big(1)
}
/// (element, integer): zero, units, every byte set to several values, every bit, neighbours of the modulus
fn fps() -> Vec<(Fp, BigUint)> {
    let p = modulus();
    let mut v: Vec<BigUint> = (0..300u64).map(big).collect();
    v.extend((1..300u64).map(|k| &p - big(k)));
    for k in 0..FL * 8 {
        for d in 0..3u32 {
            v.push((((big(1) << k) + d) + &p - big(1)) % &p);
        }
    }
    let mut x = big(10);
    while x < p {
        for d in 0..3u32 {
            v.push((&x + d - big(1)) % &p);
        }
        x *= 10u32;
    }
    v.into_iter().map(|n| { let mut b = n.to_bytes_le(); b.resize(FL, 0); let (x, ok) = Fp::decode(&b); assert!(ok != 0); (x, n) }).collect()
}
fn at(v: &[BigUint], k: usize) -> Fq {
    let f = |n: &BigUint| { let mut b = n.to_bytes_le(); b.resize(FL, 0); Fp::decode_reduce(&b) };
    Fq::new(&f(&v[2 * k + 1]), &f(&v[2 * k]))
}
fn c33(t: bool, out: &mut Vec<Space>) {
    let v = Arc::new(fps());
    let n = v.len();
    let w = v.clone();
    out.push(space("field", n * if t { n } else { 12 }, "elements of the prime field (all small and large residues, powers of two and of ten and their neighbours) and pairs of them as elements of the extension: the text holds exactly their decimal values, whatever computation produced them", move |i| {
        let i = i as usize;
        let (x, y) = (&w[i % n], &w[(i / n * 131 + i % n * 7) % n]);
        for (z, tag) in [(x.0, "decoded"), ((x.0 + y.0) - y.0, "from a difference"), (x.0 * y.0 - (y.0 - Fp::ONE) * x.0, "from products")] {
            ck!(nums(&format!("{}", z)) == [x.1.clone()] && !format!("{}", z).contains('-'), "{} ({}) is printed as {}", x.1, tag, z);
        }
        let z = Fq::new(&x.0, &y.0);
        for z in [z, (z + Fq::ZETA) - Fq::ZETA, -(-z)] {
            let s = format!("{}", z);
            ck!(nums(&s) == [y.1.clone(), x.1.clone()] && !s.contains('-') && s == z.to_string(), "{} + {} i is printed as {}", x.1, y.1, s);
            if i % 7 == 0 {
                ck!(nums(&format!("{}", Curve::new(&z))) == nums(&s), "the curve with coefficient {} is printed as {}", s, Curve::new(&z));
            }
        }
        st(&(&x.1, &y.1));
        Ok(())
    }));
    let w = v.clone();
    out.push(space("points", n, "points, couples of points and theta points in several scalings: the text holds their projective coordinates", move |i| {
        let i = i as usize;
        let f = |j: usize| Fq::new(&w[(i * 3 + j * 17) % n].0, &w[(i * 5 + j * 11) % n].0);
        let e = Curve::new(&(Fq::TWO + Fq::FOUR));
        let pr = |v: &[BigUint], c: &[Fq]| -> bool {
            let u: Vec<Fq> = (0..c.len()).map(|k| at(v, k)).collect();
            v.len() == 2 * c.len() && u.iter().any(|x| x.iszero() == 0) && (0..c.len()).all(|a| (0..a).all(|b| (u[a] * c[b]).equals(&(u[b] * c[a])) != 0))
        };
        let mut ps = vec![];
        for j in 0..4 {
            let (x, y) = (f(j), f(j + 1));
            let z = f(j + 2);
            let z = if z.iszero() != 0 { Fq::ONE } else { z };
            let p = if j == 3 { Point::INFINITY } else { e.point_xyz_nocheck(&(x * z), &(y * z), &z) };
            let c = if j == 3 { [Fq::ZERO, Fq::ONE, Fq::ZERO] } else { [x, y, Fq::ONE] };
            ck!(pr(&nums(&format!("{}", p)), &c), "point ({}, {}) scaled by {} is printed as {}", x, y, z, p);
            ps.push((p, c));
        }
        for a in 0..4 {
            let (p, q) = (&ps[a], &ps[(a + 1) % 4]);
            let v = nums(&format!("{}", CouplePoint::new(&p.0, &q.0)));
            // other digits in the text (component names) are not allowed to hide a coordinate
            let k = v.len();
            ck!(k >= 12 && pr(&v[k - 12..k - 6], &p.1) && pr(&v[k - 6..], &q.1), "a couple of points is printed as {}", CouplePoint::new(&p.0, &q.0));
        }
        let c = [f(5), f(6), f(7), Fq::ONE];
        let th = ThetaPoint::from_coords(&c[0], &c[1], &c[2], &c[3]);
        ck!(pr(&nums(&format!("{}", th)), &c), "a theta point is printed as {}", th);
        st(&("points", i));
        Ok(())
    }));
    // inputs of the trapdoor
    let vals: Arc<Vec<BigUint>> = Arc::new((0..L).flat_map(|k| [(big(1) << k), (big(1) << k) + big(1), (big(1) << (k + 1)) - big(1)]).chain([big(0), big(9), big(10), big(99), big(100)]).collect());
    let n = vals.len();
    let w = vals.clone();
    out.push(space("trapdoor-inputs", n * 4, "trapdoor inputs with components of every bit length: the text holds the four numbers in order", move |i| {
        let i = i as usize;
        let g = |k: usize| w[(i % n + k * (i / n) * 41 + k * 7) % n].clone();
        let x = [g(0), g(1), g(2), g(3)];
        let m = TrapdoorInput::new(&x[0], &x[1], &(x[2].clone(), x[3].clone()));
        let v = nums(&format!("{}", m));
        ck!(v == x, "trapdoor input {:?} is printed as {}", x, m);
        st(&x);
        Ok(())
    }));
    // isogenies: curves up to the form chosen by the caller
    out.push(space("isogenies", 8, "isogenies of small degrees: the text names domain and codomain by their coefficients, and by their j-invariants in the alternate form", move |i| {
        let e = Curve::new(&(Fq::TWO + Fq::FOUR));
        rand::mc::set(&[], 5 + i);
        let f = [(PP::DA1_FACTORED[0].0, 1)];
        let (phi, c) = festa_rs::supersingular::random_isogeny_x_only(&e, &f, 1);
        ck!(!phi.is_empty(), "no isogeny");
        let (first, last) = (&phi[0], &phi[phi.len() - 1]);
        for (h, d, k) in [(first, Some(e), None), (last, None, Some(c))] {
            let (s, a) = (nums(&format!("{}", h)), nums(&format!("{:#}", h)));
            ck!(s.len() == 4 && a.len() == 4, "an isogeny is printed as {} and {:#}", h, h);
            if let Some(d) = d {
                ck!(at(&s, 0).equals(&d.get_constant()) != 0 && at(&a, 0).equals(&d.j_invariant()) != 0, "isogeny from {} is printed as {} and {:#}", d, h, h);
            }
            if let Some(k) = k {
                ck!(at(&s, 1).equals(&k.get_constant()) != 0 && at(&a, 1).equals(&k.j_invariant()) != 0, "isogeny to {} is printed as {} and {:#}", k, h, h);
            }
        }
        st(&i);
        Ok(())
    }));
}
fn build(o: &Opts) -> Vec<Space> {
    let mut v = vec![];
    if o.prop == "C33" {
        c33(o.thorough, &mut v);
    }
    v
}
fn main() {
    run::main(build)
}
