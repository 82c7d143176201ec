//! C16 integer helpers, C25 public parameters.
use festa_rs::discrete_log::{compute_crt, sqrt_floor, xgcd_big};
use mc::ck;
use mc::refm::*;
use mc::run::{self, sample, space, st, Opts, Res, Space};
use num_bigint::BigUint;

fn xgcd_case(a: &BigUint, b: &BigUint) -> Res {
    if gcdb(a, b) != one() || is0(b) {
        return Ok(());
    }
    let r = xgcd_big(a, b);
    st(&(a, b));
    ck!(&r < b, "xgcd_big({}, {}) = {} is not below the modulus", a, b, r);
    ck!((&r * a) % b == one() % b, "xgcd_big({}, {}) = {} is not the inverse", a, b, r);
    sample(|| format!("xgcd_big({}, {}) = {}", a, b, r));
    Ok(())
}
fn isqrt(n: u64) -> u64 {
    let mut r = (n as f64).sqrt() as u64;
    while r * r > n {
        r -= 1;
    }
    while (r + 1) * (r + 1) <= n {
        r += 1;
    }
    r
}
fn sqrt_case(n: u64) -> Res {
    let e = isqrt(n) as u32;
    let r = sqrt_floor(n as u32);
    ck!(r == e, "sqrt_floor({}) = {}, expected {}", n, r, e);
    Ok(())
}

fn c16(t: bool) -> Vec<Space> {
    let mut v = vec![];
    let n = if t { 1200 } else { 500 };
    v.push(space("xgcd/small", n * n, "all coprime pairs (a, b) with 0 <= a, 1 <= b below the bound", move |i| {
        let (a, b) = (i % n as u64, 1 + i / n as u64);
        xgcd_case(&big(a), &big(b))
    }));
    // large operands: neighbours of powers of two, Fibonacci numbers (longest remainder sequences), scheme constants
    let mut xs: Vec<BigUint> = (0..6).map(big).collect();
    for k in [31u64, 32, 33, 63, 64, 65, 127, 128, 632, 634, 635, 1291] {
        for d in 0..5u64 {
            xs.push((one() << k) + big(d) - big(2));
        }
        xs.push((one() << k) / big(3) * big(2) + one());
    }
    let (mut f, mut g) = (one(), one());
    for k in 0..1500 {
        let h = &f + &g;
        f = g;
        g = h;
        if k % 100 < 3 && k > 80 {
            xs.push(g.clone());
        }
    }
    {
        use festa_rs::fields::FpFESTAExt as P;
        for c in [&P::D1[..], &P::D2[..], &P::DA1[..], &P::DA2[..], &P::M1[..], &P::M2[..], &P::BASIS_ORDER[..], &P::BIGUINT_MODULUS[..]] {
            xs.push(BigUint::from_slice(c));
        }
        xs.push(BigUint::from_slice(&P::D1) * BigUint::from_slice(&P::D1) * BigUint::from_slice(&P::D2) * BigUint::from_slice(&P::M1));
        xs.push(BigUint::from_slice(&P::M2) * BigUint::from_slice(&P::DA2) * BigUint::from_slice(&P::D2));
        for (l, e) in P::D1_FACTORED.iter().chain(P::D2_FACTORED.iter()) {
            xs.push(big(*l as u64).pow(*e));
        }
    }
    xs.sort();
    xs.dedup();
    let m = xs.len();
    let xs2 = xs.clone();
    v.push(space("xgcd/large", m * m, "all ordered pairs of large structured operands (powers of two +-2, Fibonacci numbers, scheme constants)", move |i| xgcd_case(&xs2[i as usize / m], &xs2[i as usize % m])));
    // CRT: every factor list over small prime powers in every order, every residue vector
    let base: Vec<(u32, u32)> = vec![(2, 1), (2, 3), (3, 1), (3, 2), (5, 1), (5, 2), (7, 1), (11, 1), (13, 1)];
    let mut lists: Vec<Vec<(u32, u32)>> = vec![];
    fn gen(base: &[(u32, u32)], cur: &mut Vec<(u32, u32)>, out: &mut Vec<Vec<(u32, u32)>>, lim: u64) {
        if !cur.is_empty() {
            out.push(cur.clone());
        }
        for f in base {
            if cur.iter().any(|c| c.0 == f.0) {
                continue;
            }
            let mut c = cur.clone();
            c.push(*f);
            if order_u64(&c) <= lim {
                let l = c.len();
                cur.push(*f);
                gen(base, cur, out, lim);
                cur.truncate(l - 1);
            }
        }
    }
    gen(&base, &mut vec![], &mut lists, if t { 20000 } else { 3000 });
    v.push(space("crt/all", lists.len(), "every ordered list of distinct small prime powers with product below the bound x every residue vector", move |i| {
        let l = &lists[i as usize];
        let d = order_u64(l);
        for x in 0..d {
            let r: Vec<BigUint> = l.iter().map(|(p, e)| big(x % (*p as u64).pow(*e))).collect();
            let y = compute_crt(&r, l);
            ck!(y == big(x), "compute_crt({:?}, {:?}) = {}, expected {}", r, l, y, x);
        }
        // representatives that are not reduced
        for x in 0..d.min(60) {
            let r: Vec<BigUint> = l.iter().enumerate().map(|(i, (p, e))| big(x % (*p as u64).pow(*e)) + big((*p as u64).pow(*e)) * big((x * 7 + 1 + i as u64) % 5) * if x % 11 == 3 { one() << 70u32 } else { one() }).collect();
            let y = compute_crt(&r, l);
            ck!(y == big(x), "compute_crt({:?}, {:?}) = {}, expected {}", r, l, y, x);
        }
        st(l);
        sample(|| format!("compute_crt over {:?}: all {} residue vectors", l, d));
        Ok(())
    }).chunk(1));
    {
        use festa_rs::fields::FpFESTAExt as P;
        let ls: Vec<Vec<(u32, u32)>> = vec![
            P::D1_FACTORED.to_vec(), P::D2_FACTORED.to_vec(), P::DA1_FACTORED.to_vec(), P::DA2_FACTORED.to_vec(),
            P::D1_FACTORED.iter().rev().cloned().collect(), vec![(2, 634), (3, 5)], vec![(65521, 2), (65519, 1)], vec![(4294967291, 2), (4294967279, 1), (2, 40)],
        ];
        let nl = ls.len();
        v.push(space("crt/scheme", nl * 120, "the scheme's factor lists x values: 0, 1, -1, single-prime residues, boundary values, pseudo-random residues", move |i| {
            let (l, k) = (&ls[i as usize % nl], i as usize / nl);
            let d = order_of(l);
            let x = match k {
                0 => zero(),
                1 => one() % &d,
                2 => &d - one(),
                3 => &d >> 1,
                4..=40 => {
                    // non-zero at one prime only
                    let (p, e) = l[(k - 4) % l.len()];
                    let q = big(p as u64).pow(e);
                    (&d / &q) * big(k as u64) % &d
                }
                41..=80 => (&d * big(k as u64 - 40)) / big(41),
                _ => {
                    let mut y = big((k as u64).wrapping_mul(0x9e3779b97f4a7c15) % 1000003);
                    for _ in 0..8 {
                        y = (&y * &y * big(3) + big(k as u64)) % &d;
                    }
                    y
                }
            };
            let r: Vec<BigUint> = l.iter().map(|(p, e)| &x % big(*p as u64).pow(*e)).collect();
            let y = compute_crt(&r, l);
            st(&(l, &x));
            ck!(y == x, "compute_crt over {:?} gives {} instead of {}", l, y, x);
            let r: Vec<BigUint> = vec![x.clone(); l.len()];
            let y = compute_crt(&r, l);
            ck!(y == x, "compute_crt over {:?} of the unreduced value {} gives {}", l, x, y);
            Ok(())
        }));
    }
    // integer square root
    if t {
        v.push(space("isqrt/all", 1 << 16, "every 32-bit integer", |i| {
            for k in 0..65536u64 {
                sqrt_case(i * 65536 + k)?;
            }
            st(&("isqrt", i));
            Ok(())
        }).complete());
    } else {
        v.push(space("isqrt/steps", 65536, "r^2-2..r^2+2, r^2+r, r^2+2r around every r, i.e. every point where the root changes", |r| {
            for n in [(r * r).wrapping_sub(2), (r * r).wrapping_sub(1), r * r, r * r + 1, r * r + 2, r * r + r, r * r + 2 * r, r * r + 2 * r - r.min(1)] {
                if n < 1 << 32 {
                    sqrt_case(n)?;
                }
            }
            st(&("isqrt", r));
            Ok(())
        }));
        v.push(space("isqrt/dense", 64, "every integer below 2^22 and every integer in the top 2^20 and around 2^31", |i| {
            for k in 0..65536u64 {
                sqrt_case(i * 65536 + k)?;
                if i < 16 {
                    sqrt_case((1 << 32) - 1 - i * 65536 - k)?;
                    sqrt_case((1 << 31) - (1 << 19) + i * 65536 + k)?;
                }
            }
            st(&("isqrt-dense", i));
            Ok(())
        }).chunk(1));
    }
    v
}

fn is_prime(n: u64) -> bool {
    if n < 4 {
        return n > 1;
    }
    let mut d = 2;
    while d * d <= n {
        if n % d == 0 {
            return false;
        }
        d += 1;
    }
    true
}

#[cfg(not(any(mc_mini, mc_nano)))]
fn c25(_t: bool) -> Vec<Space> {
    use festa_rs::ecFESTA::{Curve, Fq, Point};
    use festa_rs::fields::FpFESTA::Fp;
    use festa_rs::fields::FpFESTAExt as P;
    let mut v = vec![];
    let b = |x: &[u32]| BigUint::from_slice(x);
    let modulus = || {
        let mut r = zero();
        for w in Fp::MODULUS.iter().rev() {
            r = (r << 64u32) + big(*w);
        }
        r
    };
    v.push(space("relations", 11, "each defining relation of the shipped constants, recomputed", move |i| {
        let p = b(&P::BIGUINT_MODULUS);
        let lp = one() << P::L_POWER as u64;
        let n = b(&P::BASIS_ORDER);
        let (d1, d2, da, da1, da2, m1, m2) = (b(&P::D1), b(&P::D2), b(&P::DA), b(&P::DA1), b(&P::DA2), b(&P::M1), b(&P::M2));
        st(&("relation", i));
        match i {
            0 => ck!(p == modulus(), "big-integer modulus differs from the field's modulus"),
            1 => ck!(n == &p + one(), "basis order is not p + 1"),
            2 => ck!(d1 == order_of(&P::D1_FACTORED), "D1 is not the product of its factors"),
            3 => ck!(d2 == order_of(&P::D2_FACTORED), "D2 is not the product of its factors"),
            4 => ck!(da == order_of(&P::DA_FACTORED), "DA is not the product of its factors"),
            5 => {
                let (x, y) = (order_of(&P::DA1_FACTORED), order_of(&P::DA2_FACTORED));
                ck!(da1 == &x * &x, "DA1 is not the square of the product of its factors");
                ck!(da2 == &y * &y, "DA2 is not the square of the product of its factors");
                ck!(&da1 * &da2 == da, "DA1 and DA2 do not make up DA");
            }
            6 => {
                let mut seen = std::collections::HashSet::new();
                for f in [&P::D1_FACTORED[..], &P::D2_FACTORED[..], &P::DA1_FACTORED[..], &P::DA2_FACTORED[..]] {
                    for (l, e) in f {
                        ck!(is_prime(*l as u64) && *l != 2 && *e >= 1, "{}^{} is not an odd prime power", l, e);
                        ck!(seen.insert(*l), "the prime {} occurs twice", l);
                    }
                }
                let mut fa: Vec<_> = P::DA_FACTORED.to_vec();
                fa.sort();
                let mut fb: Vec<_> = P::DA1_FACTORED.iter().chain(P::DA2_FACTORED.iter()).map(|(l, e)| (*l, 2 * e)).collect();
                fb.sort();
                ck!(fa == fb, "the factors of DA are not those of DA1 and DA2");
            }
            7 => {
                ck!(gcdb(&d1, &d2) == one() && gcdb(&d1, &da) == one() && gcdb(&d2, &da) == one(), "degrees are not pairwise coprime");
                ck!(is0(&(&n % &lp)), "2^L_POWER does not divide p + 1");
                let odd = &n / &lp;
                let step = order_of(&P::DA1_FACTORED) * order_of(&P::DA2_FACTORED);
                ck!(is0(&(&odd % (&d1 * &d2 * &step))), "D1 D2 sqrt(DA) does not divide (p+1)/2^L_POWER");
            }
            8 => {
                ck!(&m1 * &m1 * &da1 * &d1 + &m2 * &m2 * &da2 * &d2 == one() << P::THETA_ISOGENY_LENGTH as u64, "m1^2 DA1 D1 + m2^2 DA2 D2 is not 2^THETA_ISOGENY_LENGTH");
                ck!(gcdb(&m1, &d1) == one() && gcdb(&m2, &d2) == one(), "a multiplier shares a factor with the degree it accompanies");
                ck!(P::L_POWER == P::THETA_ISOGENY_LENGTH + 2, "L_POWER is not THETA_ISOGENY_LENGTH + 2");
            }
            9 => {
                // a valid strategy for a tree with n leaves: s[0] = first split, then the right and left subtrees
                fn walk(s: &[usize], n: usize) -> bool {
                    if n == 1 {
                        return s.is_empty();
                    }
                    if s.len() != n - 1 || s[0] < 1 || s[0] >= n {
                        return false;
                    }
                    let k = s[0];
                    walk(&s[1..n - k], n - k) && walk(&s[n - k..], k)
                }
                ck!(walk(&P::THETA_STRATEGY, P::THETA_ISOGENY_LENGTH as usize), "the theta strategy is not valid for the isogeny length");
            }
            10 => {
                // the modulus is a prime = 3 mod 4: p + 1 is smooth and known, so a Lucas-type proof is possible;
                // here: Fermat tests to several bases and the factorisation p + 1 = 2^b * prod(l)
                ck!(&p % big(4) == big(3), "p is not 3 mod 4");
                for w in [2u64, 3, 5, 7, 11, 13] {
                    ck!(big(w).modpow(&(&p - one()), &p) == one(), "p fails the Fermat test to base {}", w);
                }
            }
            _ => {}
        }
        Ok(())
    }).chunk(1).complete());
    v.push(space("scheme-object", 2, "torsion bases the scheme object is built from", move |i| {
        use festa_rs::supersingular::{entangled_torsion_basis, torsion_basis};
        let e0 = Curve::new(&(Fq::TWO + Fq::FOUR));
        let order = |pt: &Point, f: &[(u32, u32)]| -> bool {
            // exact order by definition, with doublings and additions only
            let smul = |pt: &Point, k: &BigUint| {
                let mut r = Point::INFINITY;
                for j in (0..k.bits()).rev() {
                    r = e0.double(&r);
                    if k.bit(j) {
                        r = e0.add(&r, pt);
                    }
                }
                r
            };
            let d = order_of(f);
            if smul(pt, &d).isinfinity() == 0 {
                return false;
            }
            f.iter().all(|(l, _)| smul(pt, &(&d / big(*l as u64))).isinfinity() == 0)
        };
        st(&("scheme", i));
        match i {
            0 => {
                let (x, y) = torsion_basis(&e0, &P::D1_FACTORED, P::L_POWER as usize);
                ck!(e0.on_curve(&x) && e0.on_curve(&y), "the d1 basis is not on E0");
                ck!(order(&x, &P::D1_FACTORED) && order(&y, &P::D1_FACTORED), "the d1 basis has wrong order");
                let w = festa_rs::pairing::weil_pairing(&e0, &x, &y, &b(&P::D1));
                for (l, _) in P::D1_FACTORED {
                    ck!(w.pow_big(&(b(&P::D1) / big(l as u64))).equals(&Fq::ONE) == 0, "the d1 basis is dependent at {}", l);
                }
            }
            1 => {
                let cof = b(&P::BASIS_ORDER) / (one() << P::L_POWER as u64);
                let (x, y) = entangled_torsion_basis(&e0, &cof);
                ck!(e0.on_curve(&x) && e0.on_curve(&y), "the 2^b basis is not on E0");
                ck!(order(&x, &[(2, P::L_POWER)]) && order(&y, &[(2, P::L_POWER)]), "the 2^b basis has wrong order");
                let h = one() << (P::L_POWER as u64 - 1);
                let (x2, y2) = (e0.mul_big(&x, &h), e0.mul_big(&y, &h));
                ck!(x2.equals(&y2) == 0, "the 2^b basis is dependent");
            }
            _ => {}
        }
        Ok(())
    }).chunk(1).complete());
    v.push(space("tabulated-points", 1, "the tabulated points P0, Q0 of E0", |_| {
        let e0 = Curve::new(&(Fq::TWO + Fq::FOUR));
        let x = tab(&e0, &P::P0x, &P::P0y);
        let y = tab(&e0, &P::Q0x, &P::Q0y);
        ck!(x.is_some() && y.is_some(), "the tabulated points are not on E0");
        let (x, y) = (x.unwrap(), y.unwrap());
        let n = BigUint::from_slice(&P::BASIS_ORDER);
        let w = festa_rs::pairing::weil_pairing(&e0, &x, &y, &n);
        for (l, _) in P::D1_FACTORED.iter().chain(P::D2_FACTORED.iter()).chain(P::DA_FACTORED.iter()) {
            ck!(w.pow_big(&(&n / big(*l as u64))).equals(&Fq::ONE) == 0, "the tabulated points are dependent at {}", l);
        }
        Ok(())
    }).complete());
    v
}
#[cfg(not(any(mc_mini, mc_nano)))]
fn tab(e: &festa_rs::ecFESTA::Curve, x: &festa_rs::fields::FpFESTA::Fp, y: &festa_rs::fields::FpFESTA::Fp) -> Option<festa_rs::ecFESTA::Point> {
    use festa_rs::ecFESTA::Fq;
    use festa_rs::fields::FpFESTA::Fp;
    let z = Fp::ZERO;
    for (a, b) in [((*x, z), (*y, z)), ((*x, z), (z, *y)), ((z, *x), (*y, z)), ((*x, *y), (z, z))] {
        if let Some(p) = e.point_xy_vartime(&Fq::new(&a.0, &a.1), &Fq::new(&b.0, &b.1)) {
            return Some(p);
        }
    }
    None
}
#[cfg(any(mc_mini, mc_nano))]
fn c25(_t: bool) -> Vec<Space> {
    let _ = is_prime;
    vec![]
}

fn build(o: &Opts) -> Vec<Space> {
    match o.prop.as_str() {
        "C16" => c16(o.thorough),
        "C25" => c25(o.thorough),
        _ => panic!("unknown property"),
    }
}
fn main() {
    run::main(build)
}
