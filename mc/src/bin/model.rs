//! C31 arithmetic of the level-2 theta model: doubling, Hadamard transform, squared theta coordinates.
#![allow(non_snake_case)]
use mc::ck;
use mc::run::{self, sample, space, st, Opts, Space};
use std::sync::Arc;

#[cfg(mc_tiny)]
macro_rules! tiny {
    ($m:ident) => {
        mod $m {
            use super::*;
            use festa_rs::fields::tiny::$m::base::{Fp, P};
            use festa_rs::fields::tiny::$m::ext::Fp2 as Fq;
            use festa_rs::fields::tiny::$m::th::{ThetaPoint, ThetaStructure};
            use mc::tinyref::*;

            const N: &str = stringify!($m);
            type Q4 = [E; 4];
            fn mk(e: E) -> Fq {
                Fq::new(&Fp::new([e.0]), &Fp::new([e.1]))
            }
            fn un(f: &Fq) -> E {
                let (a, b) = f.get_coeff();
                (a.raw(), b.raw())
            }
            fn tp(x: &Q4) -> ThetaPoint {
                ThetaPoint::from_coords(&mk(x[0]), &mk(x[1]), &mk(x[2]), &mk(x[3]))
            }
            fn un4(x: &ThetaPoint) -> Q4 {
                let l = x.list();
                [un(&l[0]), un(&l[1]), un(&l[2]), un(&l[3])]
            }
            fn proj(t: &T, x: &Q4, y: &Q4) -> bool {
                let nz = |x: &Q4| x.iter().any(|c| *c != (0, 0));
                nz(x) && nz(y) && (0..4).all(|i| (0..i).all(|j| t.mul(x[i], y[j]) == t.mul(x[j], y[i])))
            }
            /// points of the projective line
            fn line(t: &T) -> Vec<(E, E)> {
                let mut v: Vec<(E, E)> = t.all.iter().map(|x| (*x, (1, 0))).collect();
                v.push(((1, 0), (0, 0)));
                v
            }
            /// (a : b) with a b (a^4 - b^4) != 0: the theta null points of the Montgomery curves
            fn nulls(t: &T) -> Vec<(E, E)> {
                let p = t.p;
                line(t).into_iter().filter(|(a, b)| {
                    let z = |x: E| x == (0, 0);
                    let (aa, bb) = (t.mul(*a, *a), t.mul(*b, *b));
                    !z(*a) && !z(*b) && aa != bb && t.add(aa, bb) != (0, 0) && p > 2
                }).collect()
            }
            fn coef(t: &T, n: &(E, E)) -> E {
                let (aa, bb) = (t.mul(n.0, n.0), t.mul(n.1, n.1));
                let (u, v) = (t.add(aa, bb), t.sub(aa, bb));
                t.sub((0, 0), t.mul(t.add(t.mul(u, u), t.mul(v, v)), t.inv(t.mul(u, v))))
            }
            /// twice the point (u : v) of the Montgomery curve with null point n, through the x-coordinate
            fn dbl(t: &T, n: &(E, E), a: E, x: &(E, E)) -> (E, E) {
                let (av, bu) = (t.mul(n.0, x.1), t.mul(n.1, x.0));
                let (xx, zz) = (t.add(av, bu), t.sub(av, bu));
                // x' = (x^2 - 1)^2 / (4 x (x^2 + A x + 1))
                let (x2, z2, xz) = (t.mul(xx, xx), t.mul(zz, zz), t.mul(xx, zz));
                let d = t.sub(x2, z2);
                let nx = t.mul(d, d);
                let nz = t.mul(t.mul((4 % t.p, 0), xz), t.add(t.add(x2, z2), t.mul(a, xz)));
                // back: (u : v) = (a (X - ... )): X (a v - b u) = Z (a v + b u)
                (t.mul(n.0, t.sub(nx, nz)), t.mul(n.1, t.add(nx, nz)))
            }
            fn seg(t: &T, p: &(E, E), q: &(E, E)) -> Q4 {
                [t.mul(p.0, q.0), t.mul(p.1, q.0), t.mul(p.0, q.1), t.mul(p.1, q.1)]
            }
            fn had(t: &T, x: &Q4) -> Q4 {
                let mut r = [(0, 0); 4];
                for (i, r) in r.iter_mut().enumerate() {
                    for (j, c) in x.iter().enumerate() {
                        *r = if (i & j).count_ones() % 2 == 1 { t.sub(*r, *c) } else { t.add(*r, *c) };
                    }
                }
                r
            }
            /// the duplication formula, with the divisions cleared
            fn dup(t: &T, n: &Q4, x: &Q4) -> Q4 {
                let sq = |x: &Q4| -> Q4 { let mut r = *x; r.iter_mut().for_each(|c| *c = t.mul(*c, *c)); r };
                let dual = had(t, &sq(n));
                let mut y = sq(&had(t, &sq(x)));
                for i in 0..4 {
                    y[i] = t.mul(y[i], t.inv(dual[i]));
                }
                let mut z = had(t, &y);
                for i in 0..4 {
                    z[i] = t.mul(z[i], t.inv(n[i]));
                }
                z
            }

            pub fn model(step: usize, pstep: usize, gstep: u64, out: &mut Vec<Space>) {
                let t = Arc::new(T::new(P));
                let ns = nulls(&t);
                let k = ns.len();
                let pairs: Vec<(usize, usize)> = (0..k * k).step_by(step).map(|i| (i / k, i % k)).collect();
                let pts = line(&t);
                let (tt, nn) = (t.clone(), ns.clone());
                let s = space(&format!("{}/products", N), pairs.len(), &format!("{} of the {} products of two Montgomery curves (all their theta null points), {} of the pairs of points of the two Kummer lines: doubling, repeated doubling against x-only doubling on each factor", pairs.len(), k * k, if pstep == 1 { "all".into() } else { format!("one in {}", pstep) }), move |q| {
                    let t = &tt;
                    let (i, j) = pairs[q as usize];
                    let (n1, n2) = (&nn[i], &nn[j]);
                    let (a1, a2) = (coef(t, n1), coef(t, n2));
                    let null = seg(t, n1, n2);
                    let th = ThetaStructure::new_from_point(&tp(&null));
                    let tc = ThetaStructure::new_from_coords(&mk(null[0]), &mk(null[1]), &mk(null[2]), &mk(null[3]));
                    ck!(proj(t, &un4(&th.null_point()), &null) && proj(t, &un4(&tc.null_point()), &null), "{}: null point {:?} is not kept", N, null);
                    let z = th.double_point(&tp(&null));
                    ck!(proj(t, &un4(&z), &null), "{}: twice the null point {:?} is {:?}", N, null, un4(&z));
                    for (c, x) in pts.iter().enumerate().skip(q as usize % pstep).step_by(pstep) {
                        let d1 = dbl(t, n1, a1, x);
                        for (d, y) in pts.iter().enumerate().skip((q as usize + c) % pstep).step_by(pstep) {
                            let e = seg(t, &d1, &dbl(t, n2, a2, y));
                            let v = tp(&seg(t, x, y));
                            let r = un4(&th.double_point(&v));
                            ck!(proj(t, &r, &e), "{}: null {:?}: twice {:?} x {:?} is {:?} instead of {:?}", N, null, x, y, r, e);
                            if (c + d) % 5 == 0 {
                                let mut w = v;
                                tc.set_double_self(&mut w);
                                ck!(proj(t, &un4(&w), &r), "{}: null {:?}: doubling in place differs at {:?} x {:?}", N, null, x, y);
                                let m = (c + d) / 5 % 5;
                                let (mut ex, mut ey) = (*x, *y);
                                for _ in 0..m {
                                    ex = dbl(t, n1, a1, &ex);
                                    ey = dbl(t, n2, a2, &ey);
                                }
                                let r = un4(&tc.double_iter(&v, m));
                                ck!(proj(t, &r, &seg(t, &ex, &ey)), "{}: null {:?}: 2^{} times {:?} x {:?} is {:?}", N, null, m, x, y, r);
                            }
                        }
                    }
                    st(&(N, i, j));
                    sample(|| format!("{}: E_A1 x E_A2 with A1 = {:?}, A2 = {:?}: {} pairs of points", N, a1, a2, (pts.len() / pstep) * (pts.len() / pstep)));
                    Ok(())
                }).chunk(8);
                out.push(if step == 1 && pstep == 1 { s.complete() } else { s });
                // any null point (1 : b : c : d)
                let q2 = t.all.len() as u64;
                let tt = t.clone();
                let tot = q2 * q2 * q2;
                let s = space(&format!("{}/null-points", N), (tot.div_ceil(gstep)) as usize, &format!("{} of the null points (1 : b : c : d) with non-zero coordinates and dual coordinates: twice the null point and each of its translates by two-torsion is the null point, the duplication formula at four points, their translates and multiples", if gstep == 1 { "all".into() } else { format!("one in {}", gstep) }), move |i| {
                    let t = &tt;
                    let i = i * gstep;
                    let al = &t.all;
                    let n: Q4 = [(1, 0), al[(i % q2) as usize], al[(i / q2 % q2) as usize], al[(i / q2 / q2) as usize]];
                    let mut sq = n;
                    sq.iter_mut().for_each(|c| *c = t.mul(*c, *c));
                    let dual = had(t, &sq);
                    if n.iter().chain(&dual).any(|c| *c == (0, 0)) {
                        return Ok(());
                    }
                    let th = ThetaStructure::new_from_point(&tp(&n));
                    // translates: coordinates permuted by i -> i ^ s, signs (-1)^(i.c)
                    let tr = |x: &Q4, s: usize, c: usize| -> Q4 { let mut r = *x; for k in 0..4 { r[k] = x[k ^ s]; if (k & c).count_ones() % 2 == 1 { r[k] = t.sub((0, 0), r[k]); } } r };
                    for s in 0..4 {
                        for c in 0..4 {
                            let x = tr(&n, s, c);
                            let r = un4(&th.double_point(&tp(&x)));
                            ck!(proj(t, &r, &n), "{}: null {:?}: twice the two-torsion point {:?} is {:?}", N, n, x, r);
                        }
                    }
                    for k in 0..4u64 {
                        let w = |m: u64| al[((i.wrapping_mul(0x9e3779b97f4a7c15) >> 7).wrapping_add(k * 7919).wrapping_mul(m) % q2) as usize];
                        let x: Q4 = [w(1), w(31), w(1009), w(65537)];
                        let e = dup(t, &n, &x);
                        let l = w(17);
                        for c in 0..16 {
                            let y = tr(&x, c / 4, c % 4);
                            let r = un4(&th.double_point(&tp(&y)));
                            ck!(r == e || proj(t, &r, &e), "{}: null {:?}: twice {:?} is {:?} instead of {:?}", N, n, y, r, e);
                        }
                        if l != (0, 0) {
                            let mut y = x;
                            y.iter_mut().for_each(|c| *c = t.mul(*c, l));
                            let r = un4(&th.double_point(&tp(&y)));
                            ck!(r == e || proj(t, &r, &e), "{}: null {:?}: twice {:?} depends on the representative {:?}", N, n, x, y);
                        }
                        let mut it = x;
                        for m in 0..4 {
                            let r = un4(&th.double_iter(&tp(&x), m));
                            ck!(r == it || proj(t, &r, &it), "{}: null {:?}: 2^{} times {:?} is {:?} instead of {:?}", N, n, m, x, r, it);
                            it = dup(t, &n, &it);
                        }
                    }
                    st(&(N, "null", i));
                    Ok(())
                }).chunk(256);
                out.push(if gstep == 1 { s.complete() } else { s });
                // transforms
                let tt = t.clone();
                let tot = q2 * q2;
                out.push(space(&format!("{}/transforms", N), tot as usize, "all pairs (X, Y) x a stride of pairs (Z, T): Hadamard transform by its characters, four times the identity when repeated; squared theta coordinates; accessors", move |i| {
                    let t = &tt;
                    let (x, y) = (t.all[(i % q2) as usize], t.all[(i / q2) as usize]);
                    let mut j = i % 97;
                    let f = |r: (Fq, Fq, Fq, Fq)| -> Q4 { [un(&r.0), un(&r.1), un(&r.2), un(&r.3)] };
                    while j < tot {
                        let v: Q4 = [x, y, t.all[(j % q2) as usize], t.all[(j / q2) as usize]];
                        let p = ThetaPoint::new(&mk(v[0]), &mk(v[1]), &mk(v[2]), &mk(v[3]));
                        ck!(un4(&p) == v && f(p.coords()) == v && un4(&tp(&v)) == v, "{}: coordinates of {:?} are not kept", N, v);
                        let h = f(p.hadamard());
                        ck!(h == had(t, &v), "{}: Hadamard transform of {:?} is {:?}", N, v, h);
                        let hh = f(tp(&h).hadamard());
                        ck!((0..4).all(|k| hh[k] == t.mul((4 % t.p, 0), v[k])), "{}: Hadamard transform twice at {:?}", N, v);
                        let mut sq = v;
                        sq.iter_mut().for_each(|c| *c = t.mul(*c, *c));
                        let s = f(p.squared_theta());
                        ck!(s == had(t, &sq), "{}: squared theta of {:?} is {:?}", N, v, s);
                        j += if t.p < 10 { 97 } else { tot / 6 + 1 };
                    }
                    st(&(N, "tr", i));
                    Ok(())
                }).chunk(64));
            }
        }
    };
}
#[cfg(mc_tiny)]
tiny!(p7);
#[cfg(mc_tiny)]
tiny!(p23);
#[cfg(mc_tiny)]
tiny!(p31);

/// the scheme's own field: structured null points and points
mod full {
    use super::*;
    use festa_rs::fields::FpFESTA::Fp;
    use festa_rs::fields::FpFESTAExt as PP;
    use festa_rs::thetaFESTA::*;

    fn eq(a: &Fq, b: &Fq) -> bool {
        a.equals(b) != 0
    }
    fn vals() -> Vec<Fq> {
        let mut v = vec![Fq::ZETA, Fq::TWO, Fq::MINUS_ONE + Fq::ZETA, Fq::THREE + Fq::ZETA, Fq::ZETA * Fq::THREE, Fq::MINUS_ONE.half(), Fq::TWO.invert() * Fq::ZETA];
        let mut x = Fq::ZETA + Fq::FOUR;
        for k in 0..9 {
            x = x * x + Fq::ZETA.mul_small(k + 2);
            v.push(x);
        }
        let mut b = vec![0xffu8; Fq::ENCODED_LENGTH];
        for k in 0..4usize {
            b[k] = k as u8;
            let h = Fp::decode_reduce(&b[..Fq::ENCODED_LENGTH / 2]);
            v.push(Fq::new(&h, &Fp::ZERO));
            v.push(Fq::new(&Fp::decode_reduce(&b), &h));
        }
        v
    }
    /// (X : Z) of the double
    fn dbl(n: &(Fq, Fq), x: &(Fq, Fq)) -> (Fq, Fq) {
        let (aa, bb) = (n.0 * n.0, n.1 * n.1);
        let (u, v) = (aa + bb, aa - bb);
        let a = -(u * u + v * v) / (u * v);
        let (av, bu) = (n.0 * x.1, n.1 * x.0);
        let (xx, zz) = (av + bu, av - bu);
        let (x2, z2, xz) = (xx * xx, zz * zz, xx * zz);
        let d = x2 - z2;
        let (nx, nz) = (d * d, xz * Fq::FOUR * (x2 + z2 + a * xz));
        (n.0 * (nx - nz), n.1 * (nx + nz))
    }
    fn seg(p: &(Fq, Fq), q: &(Fq, Fq)) -> [Fq; 4] {
        [p.0 * q.0, p.1 * q.0, p.0 * q.1, p.1 * q.1]
    }
    fn tp(x: &[Fq; 4]) -> ThetaPoint {
        ThetaPoint::new(&x[0], &x[1], &x[2], &x[3])
    }
    fn proj(x: &[Fq; 4], y: &[Fq; 4]) -> bool {
        let nz = |x: &[Fq; 4]| x.iter().any(|c| c.iszero() == 0);
        nz(x) && nz(y) && (0..4).all(|i| (0..i).all(|j| eq(&(x[i] * y[j]), &(x[j] * y[i]))))
    }
    pub fn model(t: bool, out: &mut Vec<Space>) {
        let v = vals();
        let ns: Vec<(Fq, Fq)> = v.iter().filter(|a| { let f = **a * **a * **a * **a - Fq::ONE; (f * **a).iszero() == 0 }).map(|a| (*a, Fq::ONE)).collect();
        let k = ns.len();
        let mut pts: Vec<(Fq, Fq)> = v.iter().map(|x| (*x, Fq::ONE)).collect();
        pts.extend([(Fq::ZERO, Fq::ONE), (Fq::ONE, Fq::ZERO), (Fq::ONE, Fq::ONE), (Fq::ONE, Fq::MINUS_ONE), (Fq::ONE, Fq::ZETA)]);
        let deep = t || PP::L_POWER < 100;
        out.push(space("products", k * k, &format!("{} products of two curves x {} pairs of points (structured values): doubling and repeated doubling against x-only doubling on each factor", k * k, pts.len() * pts.len()), move |q| {
            let (i, j) = (q as usize / k, q as usize % k);
            let (n1, n2) = (&ns[i], &ns[j]);
            let null = seg(n1, n2);
            let th = ThetaStructure::new_from_point(&tp(&null));
            let mut own = pts.clone();
            own.extend([*n1, (n1.1, n1.0), *n2, (-n2.0, n2.1)]);
            for (c, x) in own.iter().enumerate() {
                for (d, y) in own.iter().enumerate() {
                    if !deep && (3 * c + d + 5 * i + j) % 8 != 0 {
                        continue;
                    }
                    let p = seg(x, y);
                    let r = th.double_point(&tp(&p)).list();
                    ck!(proj(&r, &seg(&dbl(n1, x), &dbl(n2, y))), "null points {}, {}: doubling the pair {}, {} of points is wrong", i, j, c, d);
                    let m = (c + d) % 7;
                    let (mut ex, mut ey) = (*x, *y);
                    for _ in 0..m {
                        ex = dbl(n1, &ex);
                        ey = dbl(n2, &ey);
                    }
                    let r = th.double_iter(&tp(&p), m).list();
                    ck!(proj(&r, &seg(&ex, &ey)), "null points {}, {}: 2^{} times the pair {}, {} of points is wrong", i, j, m, c, d);
                }
            }
            st(&("products", q));
            sample(|| format!("null points number {} and {}", i, j));
            Ok(())
        }).chunk(2));
        // n doublings are n doublings, up to the scheme's chain and beyond
        let v = vals();
        let lens: Vec<usize> = (0..70).chain([127, 128, 255, 256, 257, 511, 512, 513, PP::THETA_ISOGENY_LENGTH as usize, 1024]).collect();
        out.push(space("iterations", lens.len(), "every number of doublings to 69, around powers of two and the chain length, against as many single doublings", move |q| {
            let n = lens[q as usize];
            let null = [Fq::ONE, v[8], v[9], v[10]];
            let th = ThetaStructure::new_from_coords(&null[0], &null[1], &null[2], &null[3]);
            let p = tp(&[v[11], v[12], v[13], v[14]]);
            let mut w = p;
            for _ in 0..n {
                th.set_double_self(&mut w);
            }
            ck!(proj(&th.double_iter(&p, n).list(), &w.list()), "2^{} times a theta point is not {} doublings", n, n);
            ck!(proj(&th.double_iter(&tp(&null), n).list(), &null), "2^{} times the null point", n);
            st(&("iter", n));
            Ok(())
        }).chunk(1));
        let v = vals();
        let k = v.len();
        out.push(space("transforms", k * k, "quadruples of structured values: Hadamard transform, twice, squared theta, accessors", move |q| {
            let (a, b) = (v[q as usize / k], v[q as usize % k]);
            for i in 0..k {
                let x = [a, b, v[i], v[(i * 5 + q as usize) % k]];
                let p = ThetaPoint::from_coords(&x[0], &x[1], &x[2], &x[3]);
                let h = |x: &[Fq; 4]| -> [Fq; 4] { let mut r = [Fq::ZERO; 4]; for i in 0..4usize { for j in 0..4usize { if (i & j).count_ones() % 2 == 1 { r[i] -= x[j]; } else { r[i] += x[j]; } } } r };
                let c = p.coords();
                let same = |u: (Fq, Fq, Fq, Fq), w: &[Fq; 4]| eq(&u.0, &w[0]) && eq(&u.1, &w[1]) && eq(&u.2, &w[2]) && eq(&u.3, &w[3]);
                ck!(same(c, &x), "coordinates are not kept");
                ck!(same(p.hadamard(), &h(&x)), "Hadamard transform of value {}, {}, {}", q as usize / k, q as usize % k, i);
                let s = [x[0] * x[0], x[1] * x[1], x[2] * x[2], x[3] * x[3]];
                ck!(same(p.squared_theta(), &h(&s)), "squared theta of value {}, {}, {}", q as usize / k, q as usize % k, i);
            }
            st(&("tr", q));
            Ok(())
        }).chunk(8));
    }
}

fn build(o: &Opts) -> Vec<Space> {
    let mut v = vec![];
    let t = o.thorough;
    if o.prop == "C31" {
        full::model(t, &mut v);
        #[cfg(mc_tiny)]
        {
            p7::model(1, 1, 1, &mut v);
            p23::model(if t { 11 } else { 601 }, if t { 1 } else { 5 }, if t { 1499 } else { 30011 }, &mut v);
            p31::model(if t { 101 } else { 7001 }, if t { 3 } else { 7 }, if t { 7001 } else { 300007 }, &mut v);
        }
    }
    v
}
fn main() {
    run::main(build)
}
