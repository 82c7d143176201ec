//! C09 group law, C10 scalar multiplication, C11 validation / lifting / iteration / random points,
//! C23 curve isomorphisms, C26 selection and equality of points.
use mc::ck;
use mc::refm::*;
use mc::rng::Script;
use mc::run::{self, sample, space, st, Opts, Res, Space};
use num_bigint::BigUint;
use std::sync::Arc;

// ------------------------------------------------------------------------------------------------ tiny worlds
#[cfg(mc_tiny)]
macro_rules! tiny {
    ($m:ident) => {
        mod $m {
            use mc::tinyref::*;
            use super::*;
            use festa_rs::fields::tiny::$m::base::{Fp, P};
            use festa_rs::fields::tiny::$m::ec::{CouplePoint, Curve, CurveIsomorphism, EllipticProduct, Point, PointX};
            use festa_rs::fields::tiny::$m::ext::Fp2 as Fq;

            const N: &str = stringify!($m);
            fn mk(e: E) -> Fq {
                Fq::new(&Fp::new([e.0]), &Fp::new([e.1]))
            }
            fn un(f: &Fq) -> E {
                let (a, b) = f.get_coeff();
                (a.raw(), b.raw())
            }
            fn cv(a: E) -> Curve {
                Curve::new(&mk(a))
            }
            const NREP: usize = 6;
            /// the k-th projective representation of the point
            fn rep(t: &T, x: Pt, k: usize) -> Point {
                let p = t.p;
                let l = [(1, 0), (2, 0), (0, 1), (1, 1), (p - 1, 3 % p), (3, p - 2)][k % NREP];
                let c = cv((0, 0));
                match x {
                    None => match k % NREP {
                        0 => Point::INFINITY,
                        1 => c.point_xyz_nocheck(&Fq::ZERO, &mk(l), &Fq::ZERO),
                        2 => c.point_xyz_nocheck(&mk(l), &Fq::ONE, &Fq::ZERO),
                        3 => c.point_xyz_nocheck(&Fq::ZERO, &Fq::ZERO, &Fq::ZERO),
                        4 => c.point_xyz_nocheck(&mk(l), &Fq::ZERO, &Fq::ZERO),
                        _ => c.point_xyz_nocheck(&Fq::ZERO, &mk(l), &Fq::ZERO),
                    },
                    Some((x, y)) => c.point_xyz_nocheck(&mk(t.mul(l, x)), &mk(t.mul(l, y)), &mk(l)),
                }
            }
            fn val(r: &Point) -> Pt {
                r.to_xy_vartime().map(|(x, y)| (un(&x), un(&y)))
            }
            fn is(t: &T, what: &str, a: E, x: Pt, y: Pt, r: &Point, e: Pt) -> Res {
                let v = val(r);
                ck!(v == e, "{} A={:?}: {} of {:?} and {:?} gives {:?} instead of {:?}", N, a, what, x, y, v, e);
                ck!(r.equals(&rep(t, e, 1)) == u32::MAX && rep(t, e, 3).equals(r) == u32::MAX, "{} A={:?}: {}: result not equal to the expected point", N, a, what);
                ck!((r.isinfinity() == u32::MAX) == e.is_none() && (r.isinfinity() == 0) == e.is_some(), "{}: isinfinity", N);
                Ok(())
            }

            pub fn group_law(step: usize, off: usize, out: &mut Vec<Space>) {
                let t = Arc::new(T::new(P));
                let cs: Vec<E> = t.curves().into_iter().skip(off).step_by(step).collect();
                let mut idx: Vec<(usize, usize)> = vec![];
                let tab: Vec<(E, Vec<Pt>)> = cs.iter().map(|a| (*a, t.points(*a))).collect();
                for (i, (_, p)) in tab.iter().enumerate() {
                    for k in 0..p.len() {
                        idx.push((i, k));
                    }
                }
                let what = if step == 1 { "every curve, every ordered pair of points (three projective representations per pair), all operators" } else { "a stride of the curves, every ordered pair of points, all operators" };
                let s = space(&format!("{}/group-law", N), idx.len(), what, move |q| {
                    let (ci, i) = idx[q as usize];
                    let (a, pts) = &tab[ci];
                    let a = *a;
                    let c = cv(a);
                    let x = pts[i];
                    for (j, y) in pts.iter().enumerate() {
                        let y = *y;
                        let (sum, dif) = (t.padd(a, x, y), t.padd(a, x, t.neg(y)));
                        let n = if step == 1 || i == 0 || j == 0 || i == j { 3 } else { 1 };
                        for k in 0..n {
                            let (kx, ky) = ((i + k * 2 + j) % NREP, (j + k * 3 + 1) % NREP);
                            let (u, v) = (rep(&t, x, kx), rep(&t, y, ky));
                            is(&t, "add", a, x, y, &c.add(&u, &v), sum)?;
                            is(&t, "sub", a, x, y, &c.sub(&u, &v), dif)?;
                            let eq = u.equals(&v);
                            ck!(eq == if x == y { u32::MAX } else { 0 }, "{} A={:?}: equals({:?}, {:?}) = {:x}", N, a, x, y, eq);
                            if (i + j) % 7 == 0 || step == 1 {
                                let mut w = rep(&t, x, 4);
                                c.add_into(&mut w, &u, &v);
                                is(&t, "add_into", a, x, y, &w, sum)?;
                                c.sub_into(&mut w, &u, &v);
                                is(&t, "sub_into", a, x, y, &w, dif)?;
                                let mut w = u;
                                c.addto(&mut w, &v);
                                is(&t, "addto", a, x, y, &w, sum)?;
                                let mut w = u;
                                c.subfrom(&mut w, &v);
                                is(&t, "subfrom", a, x, y, &w, dif)?;
                                // couples: (x, y) + (y, x - y) on C x C
                                let z = rep(&t, dif, kx);
                                let ee = EllipticProduct::new(&c, &c);
                                let (r1, r2) = ee.add(&CouplePoint::new(&u, &v), &CouplePoint::new(&v, &z)).points();
                                is(&t, "couple add (first)", a, x, y, &r1, sum)?;
                                is(&t, "couple add (second)", a, y, dif, &r2, x)?;
                            }
                        }
                        st(&(N, a, x, y));
                    }
                    // unary
                    for k in 0..NREP {
                        let u = rep(&t, x, k);
                        let d = t.padd(a, x, x);
                        is(&t, "double", a, x, x, &c.double(&u), d)?;
                        let mut w = rep(&t, pts[pts.len() / 2], 1);
                        c.double_into(&mut w, &u);
                        is(&t, "double_into", a, x, x, &w, d)?;
                        let mut w = u;
                        c.double_self(&mut w);
                        is(&t, "double_self", a, x, x, &w, d)?;
                        is(&t, "neg", a, x, x, &-u, t.neg(x))?;
                        is(&t, "neg&", a, x, x, &-&u, t.neg(x))?;
                        let (mut e, mut y) = (x, pts[(i * 5 + 1) % pts.len()]);
                        let c2 = cv(a);
                        let ee = EllipticProduct::new(&c, &c2);
                        let cp = CouplePoint::new(&u, &rep(&t, y, k + 1));
                        for n in 0..9 {
                            is(&t, "double_iter", a, x, x, &c.double_iter(&u, n), e)?;
                            let (r1, r2) = ee.double_iter(&cp, n).points();
                            is(&t, "couple double_iter (first)", a, x, y, &r1, e)?;
                            is(&t, "couple double_iter (second)", a, x, y, &r2, y)?;
                            if n == 1 {
                                let (r1, r2) = ee.double(&cp).points();
                                is(&t, "couple double (first)", a, x, y, &r1, e)?;
                                is(&t, "couple double (second)", a, x, y, &r2, y)?;
                            }
                            e = t.padd(a, e, e);
                            y = t.padd(a, y, y);
                        }
                        // x-only doubling
                        if let Some((px, _)) = x {
                            let l = [(1, 0), (2, 0), (0, 1), (1, 1), (P - 1, 3 % P), (3, P - 2)][k];
                            let (rx, rz) = c.x_dbl_coords(&mk(t.mul(px, l)), &mk(l));
                            let ok = match d {
                                None => rz.iszero() == u32::MAX && rx.iszero() == 0,
                                Some((dx, _)) => rz.iszero() == 0 && un(&(rx / rz)) == dx,
                            };
                            ck!(ok, "{} A={:?}: x-only double of {:?}", N, a, x);
                        }
                    }
                    sample(|| format!("{} A={:?}: {:?} added to, subtracted from and compared with all {} points", N, a, x, pts.len()));
                    Ok(())
                });
                out.push(if step == 1 { s.complete() } else { s });
            }

            pub fn select(step: usize, out: &mut Vec<Space>) {
                let t = Arc::new(T::new(P));
                let cs: Vec<E> = t.curves().into_iter().step_by(step).collect();
                let tab: Vec<(E, Vec<Pt>)> = cs.iter().map(|a| (*a, t.points(*a))).collect();
                let idx: Vec<(usize, usize)> = tab.iter().enumerate().flat_map(|(i, c)| (0..c.1.len()).map(move |k| (i, k))).collect();
                out.push(space(&format!("{}/point-select", N), idx.len(), "curves x all ordered pairs of points x both control values", move |q| {
                    let (ci, i) = idx[q as usize];
                    let (a, pts) = &tab[ci];
                    let (a, x) = (*a, pts[i]);
                    for (j, y) in pts.iter().enumerate() {
                        let (u, v) = (rep(&t, x, i + j), rep(&t, *y, i + 2 * j + 1));
                        for ctl in [0, u32::MAX] {
                            let mut w = u;
                            w.set_cond(&v, ctl);
                            let e = if ctl == 0 { &u } else { &v };
                            ck!(w.to_xyz() == e.to_xyz(), "{}: Point::set_cond control {:x}", N, ctl);
                            let mut w = u;
                            w.set_condneg(ctl);
                            is(&t, "set_condneg", a, x, x, &w, if ctl == 0 { x } else { t.neg(x) })?;
                        }
                        ck!(u.equals(&v) == if x == *y { u32::MAX } else { 0 } && v.equals(&u) == u.equals(&v), "{} A={:?}: equals({:?}, {:?})", N, a, x, y);
                        // equality with the opposite and with neighbours sharing x or y
                        let nv = rep(&t, t.neg(*y), j);
                        ck!((u.equals(&nv) != 0) == (x == t.neg(*y)), "{} A={:?}: equals with the opposite", N, a);
                        st(&(N, a, x, *y));
                    }
                    let mut w = rep(&t, x, i);
                    w.set_neg();
                    is(&t, "set_neg", a, x, x, &w, t.neg(x))?;
                    Ok(())
                }));
            }

            pub fn scalars(step: usize, off: usize, out: &mut Vec<Space>) {
                let t = Arc::new(T::new(P));
                let cs: Vec<E> = t.curves().into_iter().skip(off).step_by(step).collect();
                let tab: Vec<(E, Vec<Pt>)> = cs.iter().map(|a| (*a, t.points(*a))).collect();
                let idx: Vec<(usize, usize)> = tab.iter().enumerate().flat_map(|(i, c)| (0..c.1.len()).map(move |k| (i, k))).collect();
                let s = space(&format!("{}/scalars", N), idx.len(), "curves x every point x n = 0..2*order+3, word-size boundaries and big multiples of the order +-2, every routine, redundant lengths and ignored high bits", move |q| {
                    let (ci, i) = idx[q as usize];
                    let (a, pts) = &tab[ci];
                    let a = *a;
                    let c = cv(a);
                    let x = pts[i];
                    // multiples
                    let mut mult = vec![None];
                    let mut r = x;
                    while r.is_some() {
                        mult.push(r);
                        r = t.padd(a, r, x);
                    }
                    let ord = mult.len() as u64;
                    let mut ns: Vec<BigUint> = (0..=(2 * ord + 3).min(70)).map(big).collect();
                    if ord > 34 {
                        ns.extend((ord - 4..=ord + 3).map(big));
                        ns.extend((2 * ord - 2..=2 * ord + 2).map(big));
                    }
                    for k in [8u64, 16, 20, 21, 22, 31, 32, 63, 64, 65, 128] {
                        ns.push((one() << k) - one());
                        ns.push(one() << k);
                        ns.push((one() << k) + one());
                        let m = (one() << k) / big(ord) * big(ord);
                        for d in 0..5u64 {
                            ns.push(&m + big(d) - big(2).min(m.clone()));
                        }
                    }
                    for (k, n) in ns.iter().enumerate() {
                        let m = (n % big(ord)).to_u64_digits().first().copied().unwrap_or(0);
                        let e = mult[m as usize];
                        let u = rep(&t, x, i + k);
                        let w = format!("{} times", n);
                        is(&t, &w, a, x, x, &c.mul_big(&u, n), e)?;
                        let bl = n.bits() as usize;
                        let mut by = bytes(n, bl / 8 + 2);
                        is(&t, &w, a, x, x, &c.mul(&u, &by, bl), e)?;
                        is(&t, &w, a, x, x, &c.mul(&u, &by, bl + 3), e)?;
                        let full = by.len() * 8;
                        is(&t, &w, a, x, x, &c.mul(&u, &by, full), e)?;
                        // bits beyond the declared length are ignored
                        for b in bl..by.len() * 8 {
                            by[b / 8] |= 1 << (b % 8);
                        }
                        is(&t, &w, a, x, x, &c.mul(&u, &by, bl), e)?;
                        let mut z = rep(&t, pts[pts.len() - 1], 2);
                        c.mul_into(&mut z, &u, &by, bl);
                        is(&t, &w, a, x, x, &z, e)?;
                        if bl <= 64 {
                            let s = n.to_u64_digits().first().copied().unwrap_or(0);
                            is(&t, &w, a, x, x, &c.mul_small(&u, s), e)?;
                            let mut z = rep(&t, pts[pts.len() - 1], 3);
                            c.mul_small_into(&mut z, &u, s);
                            is(&t, &w, a, x, x, &z, e)?;
                        }
                        st(&(N, a, x, n));
                    }
                    is(&t, "0 times (empty string)", a, x, x, &c.mul(&rep(&t, x, 1), &[], 0), None)?;
                    sample(|| format!("{} A={:?} P={:?} of order {}: {} scalars", N, a, x, ord, ns.len()));
                    Ok(())
                });
                out.push(if step == 1 { s.complete() } else { s });
            }

            pub fn random_points(step: usize, out: &mut Vec<Space>) {
                let t = Arc::new(T::new(P));
                let cs: Arc<Vec<E>> = Arc::new(t.curves().into_iter().step_by(step).collect());
                let s = space(&format!("{}/random-points", N), cs.len(), "curves: over the answers of the random source, random points are points of the curve and every affine point is reached", move |q| {
                    let a = cs[q as usize];
                    let c = cv(a);
                    let pts: std::collections::HashSet<Pt> = t.points(a).into_iter().filter(|p| p.is_some()).collect();
                    let n = t.p * t.p;
                    rand::mc::set(&[], 0x1000 + q);
                    let mut rng = rand::thread_rng();
                    let mut hit: std::collections::HashSet<Pt> = Default::default();
                    for _ in 0..(n as f64 * ((n as f64).ln() + 16.0) * 2.0) as usize {
                        let p = val(&c.rand_point(&mut rng));
                        ck!(pts.contains(&p), "{} A={:?}: random point {:?} is not an affine point of the curve", N, a, p);
                        hit.insert(p);
                    }
                    let miss = pts.iter().find(|p| !hit.contains(*p));
                    ck!(miss.is_none(), "{} A={:?}: {} of {} points are never chosen, e.g. {:?}", N, a, pts.len() - hit.len(), pts.len(), miss);
                    st(&(N, a, "rnd"));
                    Ok(())
                });
                out.push(if step == 1 { s.complete() } else { s });
            }
            pub fn validate(step: usize, xyz: bool, out: &mut Vec<Space>) {
                let t = Arc::new(T::new(P));
                let cs: Arc<Vec<E>> = Arc::new(t.curves().into_iter().step_by(step).collect());
                let q2 = (P * P) as usize;
                {
                    let (t, cs) = (t.clone(), cs.clone());
                    let s = space(&format!("{}/set-coordinates", N), cs.len() * q2, if xyz { "curves x every (x, y) and every (X : Y : Z)" } else { "curves x every (x, y), and projective coordinates over several Z" }, move |q| {
                        let (a, x) = (cs[q as usize / q2], t.all[q as usize % q2]);
                        let c = cv(a);
                        for y in t.all.iter() {
                            let ok = t.mul(*y, *y) == t.rhs(a, x);
                            let mut r = rep(&t, Some((x, *y)), 1);
                            let f = c.set_xy(&mut r, &mk(x), &mk(*y));
                            let e = if ok { Some((x, *y)) } else { None };
                            ck!(f == if ok { u32::MAX } else { 0 }, "{} A={:?}: set_xy({:?}, {:?}) = {:x}", N, a, x, y, f);
                            ck!(val(&r) == e, "{} A={:?}: set_xy({:?}, {:?}) sets {:?}", N, a, x, y, val(&r));
                            ck!(c.point_xy_vartime(&mk(x), &mk(*y)).map(|r| val(&r)) == if ok { Some(e) } else { None }, "{} A={:?}: point_xy_vartime({:?}, {:?})", N, a, x, y);
                            let r = c.point_xy_nocheck(&mk(x), &mk(*y));
                            ck!(c.on_curve(&r) == ok && c.on_curve(&Point::new_xy(&mk(x), &mk(*y))) == ok, "{} A={:?}: on_curve({:?}, {:?})", N, a, x, y);
                            for (k, z) in t.all.iter().enumerate() {
                                if !xyz && k % 61 != (q as usize) % 61 && k > 1 {
                                    continue;
                                }
                                // (X : Y : Z) = (x : y : z) literally
                                let (e, ok) = if *z == (0, 0) {
                                    (None, true)
                                } else {
                                    let i = t.inv(*z);
                                    let (ax, ay) = (t.mul(x, i), t.mul(*y, i));
                                    let ok = t.mul(ay, ay) == t.rhs(a, ax);
                                    (if ok { Some((ax, ay)) } else { None }, ok)
                                };
                                let mut r = rep(&t, None, 1);
                                let f = c.set_xyz(&mut r, &mk(x), &mk(*y), &mk(*z));
                                ck!(f == if ok { u32::MAX } else { 0 } && val(&r) == e, "{} A={:?}: set_xyz({:?}, {:?}, {:?}) = {:x}, {:?}", N, a, x, y, z, f, val(&r));
                                ck!(c.point_xyz_vartime(&mk(x), &mk(*y), &mk(*z)).map(|r| val(&r)) == if ok { Some(e) } else { None }, "{} A={:?}: point_xyz_vartime({:?}, {:?}, {:?})", N, a, x, y, z);
                                ck!(c.on_curve(&c.point_xyz_nocheck(&mk(x), &mk(*y), &mk(*z))) == ok, "{} A={:?}: on_curve of ({:?} : {:?} : {:?})", N, a, x, y, z);
                            }
                        }
                        st(&(N, a, x));
                        Ok(())
                    });
                    out.push(if step == 1 && xyz { s.complete() } else { s });
                }
                {
                    let (t, cs) = (t.clone(), cs.clone());
                    let s = space(&format!("{}/lift", N), cs.len() * q2, "curves x every x, several projective representations", move |q| {
                        let (a, x) = (cs[q as usize / q2], t.all[q as usize % q2]);
                        let c = cv(a);
                        let e = t.root[t.ix(t.rhs(a, x))];
                        for k in 0..NREP {
                            let l = [(1, 0), (2, 0), (0, 1), (1, 1), (P - 1, 3 % P), (3, P - 2)][k];
                            let (r, f) = c.complete_pointX(&PointX::new_xz(&mk(t.mul(x, l)), &mk(l)));
                            ck!(f == if e.is_some() { u32::MAX } else { 0 }, "{} A={:?}: lifting x={:?} reports {:x}", N, a, x, f);
                            match val(&r) {
                                None => ck!(e.is_none(), "{} A={:?}: lifting x={:?} gives the neutral element", N, a, x),
                                Some((rx, ry)) => ck!(e.is_some() && rx == x && t.mul(ry, ry) == t.rhs(a, x), "{} A={:?}: lifting x={:?} gives ({:?}, {:?})", N, a, x, rx, ry),
                            }
                        }
                        // (X : 0) with X != 0 is the neutral element
                        if x != (0, 0) {
                            let (r, _) = c.complete_pointX(&PointX::new_xz(&mk(x), &Fq::ZERO));
                            ck!(r.isinfinity() == u32::MAX, "{} A={:?}: lifting (X : 0)", N, a);
                        }
                        st(&(N, "lift", a, x));
                        Ok(())
                    });
                    out.push(if step == 1 { s.complete() } else { s });
                }
                {
                    let (t, cs) = (t.clone(), cs.clone());
                    out.push(space(&format!("{}/iteration", N), cs.len(), "curves: the first 3p points of the canonical iteration, twice", move |q| {
                        let a = cs[q as usize];
                        let c = cv(a);
                        let mut x: E = (1, 1);
                        let (mut it, mut it2) = (c.iter(), c.iter());
                        'outer: for n in 0..3 * P {
                            let mut tries = 0;
                            while t.root[t.ix(t.rhs(a, x))].is_none() {
                                x = t.add(x, (1, 0));
                                tries += 1;
                                if tries >= P {
                                    break 'outer; // nothing ever lifts
                                }
                            }
                            let (r, r2) = (it.next(), it2.next());
                            let (v, v2) = (r.and_then(|r| val(&r)), r2.and_then(|r| val(&r)));
                            ck!(v == v2, "{} A={:?}: iteration is not reproducible at {}", N, a, n);
                            ck!(v.map(|v| v.0 == x && t.mul(v.1, v.1) == t.rhs(a, x)).unwrap_or(false), "{} A={:?}: point {} of the iteration is {:?}, expected x = {:?}", N, a, n, v, x);
                            x = t.add(x, (1, 0));
                            st(&(N, "iter", a, n));
                        }
                        Ok(())
                    }));
                }
                {
                    // enough scripts that a uniform choice reaches every affine point (q2 points, 40 q2 scripts)
                    let n = 40 * q2;
                    out.push(space(&format!("{}/random-point", N), cs.len().min(40), "curves x 40p^2 scripted random sources: always on the curve, every affine point is reached", move |q| {
                        let a = cs[q as usize];
                        let c = cv(a);
                        let mut seen = std::collections::HashSet::new();
                        let mut s = Script(vec![], 0);
                        for _ in 0..n {
                            let r = c.rand_point(&mut s);
                            ck!(c.on_curve(&r) && r.isinfinity() == 0, "{} A={:?}: random point off the curve", N, a);
                            let v = val(&r).unwrap();
                            ck!(t.mul(v.1, v.1) == t.rhs(a, v.0), "{} A={:?}: random point {:?} off the curve", N, a, v);
                            seen.insert(v);
                        }
                        for x in &t.all {
                            if let Some(y) = t.root[t.ix(t.rhs(a, *x))] {
                                let m = t.sub((0, 0), y);
                                ck!(seen.contains(&(*x, y)) && seen.contains(&(*x, m)), "{} A={:?}: the random point over x={:?} never has one of its two signs", N, a, x);
                            }
                        }
                        st(&(N, "rand", a));
                        Ok(())
                    }).chunk(1));
                }
            }

            /// isomorphisms: all ordered pairs (A, A') that are isomorphic over F_{p^2}
            pub fn isoms(step: usize, out: &mut Vec<Space>) {
                let t = Arc::new(T::new(P));
                let cs = t.curves();
                let j1728 = (1728 % P, 0);
                {
                    let (t, cs) = (t.clone(), cs.clone());
                    out.push(space(&format!("{}/j-invariants", N), cs.len(), "every curve: the j-invariant and the coefficient", move |q| {
                        let a = cs[q as usize];
                        let j = un(&cv(a).j_invariant());
                        ck!(j == t.j(a), "{} A={:?}: j-invariant {:?} instead of {:?}", N, a, j, t.j(a));
                        ck!(un(&cv(a).get_constant()) == a, "{} A={:?}: coefficient", N, a);
                        st(&(N, "j", a));
                        Ok(())
                    }).complete());
                }
                let mut by: std::collections::HashMap<E, Vec<E>> = Default::default();
                for a in cs.iter() {
                    by.entry(t.j(*a)).or_default().push(*a);
                }
                let mut pairs: Vec<(E, E)> = vec![];
                for a in cs.iter() {
                    let j = t.j(*a);
                    if j == (0, 0) || j == j1728 {
                        continue;
                    }
                    for b in by[&j].iter() {
                        // x -> u x + v over F_{p^2} with u a square; v a root of x^3 + b x^2 + x
                        let mut iso = false;
                        for v in t.all.iter() {
                            if t.rhs(*b, *v) != (0, 0) {
                                continue;
                            }
                            let u = t.mul(t.add(t.mul((3, 0), *v), *b), t.inv(*a));
                            let d = t.add(t.add(t.mul((3, 0), t.mul(*v, *v)), t.mul((2, 0), t.mul(*b, *v))), (1, 0));
                            if t.mul(u, u) == d && t.root[t.ix(u)].is_some() && u != (0, 0) {
                                iso = true;
                            }
                        }
                        if iso {
                            pairs.push((*a, *b));
                        }
                    }
                }
                let special: Vec<(E, E)> = pairs.iter().copied().filter(|(a, b)| a == b || t.add(*a, *b) == (0, 0)).step_by(step).collect();
                let mut pairs: Vec<(E, E)> = pairs.into_iter().step_by(step).collect();
                pairs.extend(special);
                let s = space(&format!("{}/isomorphisms", N), pairs.len(), "ordered pairs of isomorphic curves (j not 0, 1728) including A'=A and A'=-A; every point and every sum of two points of a generating subset", move |q| {
                    let (a, b) = pairs[q as usize];
                    let (ca, cb) = (cv(a), cv(b));
                    let f = CurveIsomorphism::new(&ca, &cb);
                    let pts = t.points(a);
                    let mut img = std::collections::HashMap::new();
                    let mut seen = std::collections::HashSet::new();
                    for (k, x) in pts.iter().enumerate() {
                        let r = f.eval(&rep(&t, *x, k));
                        let v = val(&r);
                        match v {
                            None => ck!(x.is_none(), "{}: isomorphism {:?} -> {:?} sends {:?} to the neutral element", N, a, b, x),
                            Some((rx, ry)) => ck!(x.is_some() && t.mul(ry, ry) == t.rhs(b, rx), "{}: isomorphism {:?} -> {:?} sends {:?} to {:?}", N, a, b, x, v),
                        }
                        ck!(seen.insert(v), "{}: isomorphism {:?} -> {:?} is not injective at {:?}", N, a, b, x);
                        img.insert(*x, v);
                    }
                    for x in pts.iter() {
                        for y in pts.iter().step_by(if pts.len() > 1500 { 499 } else if pts.len() > 100 { 37 } else { 1 }) {
                            let s = t.padd(a, *x, *y);
                            ck!(img[&s] == t.padd(b, img[x], img[y]), "{}: isomorphism {:?} -> {:?} is not additive at {:?}, {:?}", N, a, b, x, y);
                        }
                    }
                    st(&(N, a, b));
                    sample(|| format!("{}: isomorphism A={:?} -> A'={:?} on all {} points", N, a, b, pts.len()));
                    Ok(())
                });
                out.push(if step == 1 { s.complete() } else { s });
            }
        }
    };
}
#[cfg(mc_tiny)]
tiny!(p7);
#[cfg(mc_tiny)]
tiny!(p23);
#[cfg(mc_tiny)]
tiny!(p31);
#[cfg(mc_tiny)]
tiny!(p47);
#[cfg(mc_tiny)]
tiny!(p71);

// ------------------------------------------------------------------------------------------------ scheme-size field
mod full {
    use super::*;
    use festa_rs::ecFESTA::{CouplePoint, Curve, CurveIsomorphism, EllipticProduct, Fq, Point, PointX};
    use festa_rs::fields::FpFESTAExt as PP;

    pub type Pt = Option<(Fq, Fq)>;
    fn eq(a: &Fq, b: &Fq) -> bool {
        a.equals(b) != 0
    }
    pub fn padd(a: &Fq, x: &Pt, y: &Pt) -> Pt {
        let ((x1, y1), (x2, y2)) = match (x, y) {
            (None, q) => return *q,
            (q, None) => return *q,
            (Some(q), Some(r)) => (*q, *r),
        };
        let l = if eq(&x1, &x2) {
            if (y1 + y2).iszero() != 0 {
                return None;
            }
            (x1 * x1 * Fq::THREE + (*a * x1) * Fq::TWO + Fq::ONE) / (y1 + y1)
        } else {
            (y2 - y1) / (x2 - x1)
        };
        let x3 = l * l - *a - x1 - x2;
        Some((x3, l * (x1 - x3) - y1))
    }
    fn neg(x: &Pt) -> Pt {
        x.map(|(x, y)| (x, -y))
    }
    fn same(x: &Pt, y: &Pt) -> bool {
        match (x, y) {
            (None, None) => true,
            (Some(a), Some(b)) => eq(&a.0, &b.0) && eq(&a.1, &b.1),
            _ => false,
        }
    }
    fn pmul(a: &Fq, x: &Pt, n: &BigUint) -> Pt {
        let mut r = None;
        for i in (0..n.bits()).rev() {
            r = padd(a, &r, &r);
            if n.bit(i) {
                r = padd(a, &r, x);
            }
        }
        r
    }
    fn val(r: &Point) -> Pt {
        r.to_xy_vartime()
    }
    fn rep(x: &Pt, k: usize) -> Point {
        let c = Curve::new(&Fq::ZERO);
        let l = match k % 5 {
            0 => Fq::ONE,
            1 => Fq::MINUS_ONE,
            2 => Fq::ZETA + Fq::TWO,
            3 => Fq::FOUR.invert(),
            _ => (Fq::ZETA + Fq::FOUR).pow_small(77),
        };
        match x {
            None => match k % 3 {
                0 => Point::INFINITY,
                1 => c.point_xyz_nocheck(&Fq::ZERO, &l, &Fq::ZERO),
                _ => c.point_xyz_nocheck(&Fq::ZERO, &Fq::ZERO, &Fq::ZERO),
            },
            Some((x, y)) => c.point_xyz_nocheck(&(*x * l), &(*y * l), &l),
        }
    }
    /// E0 and two further curves of the supersingular family given by 2-isogeny-free means: the isomorphic -A and
    /// an ordinary-or-not generic constant for the group law
    fn consts() -> Vec<Fq> {
        let six = Fq::TWO + Fq::FOUR;
        vec![six, -six, Fq::ZETA + Fq::THREE, Fq::ZERO, Fq::MINUS_ONE, Fq::ZETA]
    }
    fn lifts(a: &Fq, n: usize) -> Vec<Pt> {
        let mut v = vec![];
        let mut x = Fq::ONE + Fq::ZETA;
        while v.len() < n {
            let f = x * x * x + *a * x * x + x;
            let (y, r) = f.sqrt();
            if r != 0 {
                v.push(Some((x, y)));
            }
            x += Fq::ONE;
        }
        v
    }
    fn pointset(a: &Fq, supersingular: bool) -> Vec<Pt> {
        let mut v: Vec<Pt> = vec![None, Some((Fq::ZERO, Fq::ZERO))];
        // other points of order 2
        let (d, r) = (*a * *a - Fq::FOUR).sqrt();
        if r != 0 {
            let h = Fq::TWO.invert();
            v.push(Some(((d - *a) * h, Fq::ZERO)));
            v.push(Some(((-d - *a) * h, Fq::ZERO)));
        }
        // points of order 4 above (0,0): x = +-1
        for x in [Fq::ONE, Fq::MINUS_ONE] {
            let (y, r) = (x * x * x + *a * x * x + x).sqrt();
            if r != 0 && y.iszero() == 0 {
                v.push(Some((x, y)));
                v.push(Some((x, -y)));
            }
        }
        let l = lifts(a, 3);
        let n: BigUint = BigUint::from_slice(&PP::BASIS_ORDER);
        if supersingular {
            // points of order 4 and 8 and of small odd order
            for k in [4u64, 8, 3] {
                if is0(&(&n % big(k))) || k < 9 {
                    let q = pmul(a, &l[0], &(&n / big(k)));
                    v.push(q);
                }
            }
        }
        let p = l[0];
        let p2 = padd(a, &p, &p);
        let q = l[1];
        v.push(p);
        v.push(neg(&p));
        v.push(p2);
        v.push(neg(&p2));
        v.push(padd(a, &p2, &p));
        v.push(q);
        v.push(neg(&q));
        v.push(padd(a, &p, &q));
        v.push(padd(a, &p, &neg(&q)));
        v.push(padd(a, &p, &v[1].clone()));
        v.push(padd(a, &q, &v[1].clone()));
        v.push(l[2]);
        v
    }
    fn is(what: &str, a: &Fq, r: &Point, e: &Pt) -> Res {
        ck!(same(&val(r), e), "A={}: {} gives a wrong point", a, what);
        ck!(r.equals(&rep(e, 2)) == u32::MAX && rep(e, 4).equals(r) == u32::MAX, "A={}: {}: result not equal to the expected point", a, what);
        Ok(())
    }
    pub fn group_law(out: &mut Vec<Space>) {
        let tabs: Arc<Vec<(Fq, Vec<Pt>)>> = Arc::new(consts().into_iter().enumerate().map(|(i, a)| (a, pointset(&a, i < 2))).collect());
        let idx: Vec<(usize, usize)> = tabs.iter().enumerate().flat_map(|(i, c)| (0..c.1.len()).map(move |k| (i, k))).collect();
        out.push(space("group-law", idx.len(), "six curves x all ordered pairs of ~20 special points (orders 1, 2, 4, 8, odd and large, sums, opposites) in several scalings", move |q| {
            let (ci, i) = idx[q as usize];
            let (a, pts) = &tabs[ci];
            let c = Curve::new(a);
            let x = &pts[i];
            for (j, y) in pts.iter().enumerate() {
                let (s, d) = (padd(a, x, y), padd(a, x, &neg(y)));
                for k in 0..3 {
                    let (u, v) = (rep(x, i + k), rep(y, j + 2 * k));
                    let w = format!("{} op {} (scaling {})", i, j, k);
                    is(&w, a, &c.add(&u, &v), &s)?;
                    is(&w, a, &c.sub(&u, &v), &d)?;
                    let mut z = u;
                    c.addto(&mut z, &v);
                    is(&w, a, &z, &s)?;
                    let mut z = u;
                    c.subfrom(&mut z, &v);
                    is(&w, a, &z, &d)?;
                    let mut z = Point::INFINITY;
                    c.sub_into(&mut z, &u, &v);
                    is(&w, a, &z, &d)?;
                    ck!((u.equals(&v) == u32::MAX) == same(x, y) && (u.equals(&v) == 0) != same(x, y), "A={}: equals of points {} and {}", a, i, j);
                    let e = EllipticProduct::new(&c, &c);
                    let (r1, r2) = e.add(&CouplePoint::new(&u, &v), &CouplePoint::new(&v, &u)).points();
                    is(&w, a, &r1, &s)?;
                    is(&w, a, &r2, &s)?;
                }
                st(&(ci, i, j));
            }
            let mut e = *x;
            let u = rep(x, i);
            for n in 0..12 {
                is(&format!("double_iter {}", n), a, &c.double_iter(&u, n), &e)?;
                let ee = EllipticProduct::new(&c, &c);
                let (r1, r2) = ee.double_iter(&CouplePoint::new(&u, &-u), n).points();
                is("couple double_iter", a, &r1, &e)?;
                is("couple double_iter", a, &r2, &neg(&e))?;
                e = padd(a, &e, &e);
                if n == 0 {
                    is("double", a, &c.double(&u), &e)?;
                    let mut z = u;
                    c.double_self(&mut z);
                    is("double_self", a, &z, &e)?;
                    let (r1, r2) = ee.double(&CouplePoint::new(&u, &-u)).points();
                    is("couple double", a, &r1, &e)?;
                    is("couple double", a, &r2, &neg(&e))?;
                }
            }
            is("neg", a, &-u, &neg(x))?;
            Ok(())
        }).chunk(1));
    }
    pub fn select(out: &mut Vec<Space>) {
        let tabs: Arc<Vec<(Fq, Vec<Pt>)>> = Arc::new(consts().into_iter().take(3).enumerate().map(|(i, a)| (a, pointset(&a, i < 2))).collect());
        let idx: Vec<(usize, usize)> = tabs.iter().enumerate().flat_map(|(i, c)| (0..c.1.len()).map(move |k| (i, k))).collect();
        out.push(space("point-select", idx.len(), "three curves x all ordered pairs of special points x both control values", move |q| {
            let (ci, i) = idx[q as usize];
            let (a, pts) = &tabs[ci];
            let x = &pts[i];
            for (j, y) in pts.iter().enumerate() {
                let (u, v) = (rep(x, i + j), rep(y, 2 * j + 1));
                for ctl in [0, u32::MAX] {
                    let mut w = u;
                    w.set_cond(&v, ctl);
                    ck!(w.to_xyz() == if ctl == 0 { u.to_xyz() } else { v.to_xyz() }, "Point::set_cond control {:x}", ctl);
                    let mut w = u;
                    w.set_condneg(ctl);
                    is("set_condneg", a, &w, &if ctl == 0 { *x } else { neg(x) })?;
                }
                ck!((u.equals(&v) == u32::MAX) == same(x, y) && (v.equals(&u) == 0) != same(x, y), "A={}: equals of points {} and {}", a, i, j);
                st(&("sel", ci, i, j));
            }
            Ok(())
        }).chunk(1));
    }
    pub fn inputs(out: &mut Vec<Space>) {
        use festa_rs::festa::TrapdoorInput;
        let lp = one() << PP::L_POWER as u64;
        // values one bit, one word, the sign or the length apart
        let vs: Vec<BigUint> = vec![zero(), one(), big(2), &lp >> 1u32, (&lp >> 1u32) + one(), &lp - one(), one() << 32u32, one() << 64u32, (one() << 64u32) + one()];
        let k = vs.len();
        out.push(space("trapdoor-inputs", k * k * k * k, "trapdoor inputs with every combination of components from a set of neighbouring values: equal to itself and to an independent copy, unequal to every input that differs in one component or in any set of components; the parts are handed back as given", move |q| {
            let q = q as usize;
            let pick = |q: usize| [&vs[q % k], &vs[q / k % k], &vs[q / k / k % k], &vs[q / k / k / k]];
            let mk = |v: [&BigUint; 4]| TrapdoorInput::new(v[0], v[1], &(v[2].clone(), v[3].clone()));
            let v = pick(q);
            let x = mk(v);
            let (a, b, (c, d)) = x.extract();
            ck!([&a, &b, &c, &d] == v, "parts of {} not handed back", x);
            ck!(x == x && x == mk(v) && !(x != mk(v)), "{} is not equal to a copy of itself", x);
            // in every non-empty set of components, the values of the next input
            let w = pick((q + 1 + k + k * k + k * k * k) % (k * k * k * k));
            for set in 1..16usize {
                let u: [&BigUint; 4] = std::array::from_fn(|i| if set >> i & 1 == 1 { w[i] } else { v[i] });
                ck!((x == mk(u)) == (u == v) && (mk(u) == x) == (u == v), "equality of {} and {}", x, mk(u));
            }
            // one component: every other value
            for i in 0..4 {
                for y in &vs {
                    let mut u = v;
                    u[i] = y;
                    ck!((x == mk(u)) == (u == v) && (x != mk(u)) == (u != v), "equality of {} and {}", x, mk(u));
                }
            }
            // components exchanged
            for (i, j) in [(0, 1), (2, 3), (0, 2), (1, 3)] {
                let mut u = v;
                u.swap(i, j);
                ck!((x == mk(u)) == (u == v), "equality of {} and {}", x, mk(u));
            }
            Ok(())
        }));
    }
    pub fn scalars(thorough: bool, out: &mut Vec<Space>) {
        let tabs: Arc<Vec<(Fq, Vec<Pt>)>> = Arc::new(consts().into_iter().take(if thorough { 6 } else { 3 }).enumerate().map(|(i, a)| (a, pointset(&a, i < 2))).collect());
        let n = BigUint::from_slice(&PP::BASIS_ORDER);
        let lp = one() << PP::L_POWER as u64;
        let mut ns: Vec<BigUint> = (0..if thorough { 70 } else { 34 }).map(big).collect();
        for k in [20u64, 21, 22, 31, 32, 33, 63, 64, 65, 127, 256, 257, 633, 634, 1291] {
            for d in 0..3u64 {
                ns.push((one() << k) + big(d) - one());
            }
        }
        for m in [n.clone(), &n * big(2), &n >> 1, &lp * big(3), lp.clone()] {
            for d in 0..5u64 {
                ns.push(&m + big(d) - big(2));
            }
        }
        for w in [&PP::D1[..], &PP::D2[..], &PP::DA1[..], &PP::DA2[..], &PP::M1[..]] {
            ns.push(BigUint::from_slice(w));
        }
        ns.push((&n / big(3)) * big(2) + one());
        ns.push((one() << 656u32) - one());
        let nn = ns.len();
        let idx: Vec<(usize, usize)> = tabs.iter().enumerate().flat_map(|(i, c)| (0..c.1.len()).map(move |k| (i, k))).filter(|(i, k)| thorough || PP::L_POWER < 100 || (if *i == 0 { *k < 9 || k % 4 == 1 } else { *k == 1 + i || *k == 6 })).collect();
        out.push(space("scalars", idx.len() * nn, "curves x special points x scalars (small, word boundaries, around multiples of the group order and 2^L_POWER, scheme constants), every routine", move |q| {
            let (ci, i) = idx[q as usize / nn];
            let n = &ns[q as usize % nn];
            let (a, pts) = &tabs[ci];
            let c = Curve::new(a);
            let x = &pts[i];
            // reference: double-and-add with the complete addition routine
            let u = rep(x, i + q as usize);
            let mut e = Point::INFINITY;
            for j in (0..n.bits()).rev() {
                e = c.add(&e, &e);
                if n.bit(j) {
                    e = c.add(&e, &u);
                }
            }
            let e = val(&e);
            is(&format!("{} times point {}", n, i), a, &c.mul_big(&u, n), &e)?;
            let bl = n.bits() as usize;
            let mut by = bytes(n, bl / 8 + 2);
            is(&format!("{} times point {}", n, i), a, &c.mul(&u, &by, bl + 5), &e)?;
            for b in bl..by.len() * 8 {
                by[b / 8] |= 1 << (b % 8);
            }
            is(&format!("{} times point {} (high bits set)", n, i), a, &c.mul(&u, &by, bl), &e)?;
            if bl <= 64 {
                let s = n.to_u64_digits().first().copied().unwrap_or(0);
                is(&format!("{} (u64) times point {}", n, i), a, &c.mul_small(&u, s), &e)?;
            }
            // clearing a cofactor of which a part of the power of two is declared
            let tz = n.trailing_zeros().unwrap_or(40) as usize;
            for k in [0, 1, tz / 2, tz] {
                if k <= tz {
                    is(&format!("clear_cofactor({}, 2^{}) of point {}", n, k, i), a, &festa_rs::supersingular::clear_cofactor(&c, &u, n, k), &e)?;
                }
            }
            st(&(ci, i, n));
            sample(|| format!("curve {} point {} scalar {} ({} bits)", ci, i, n, bl));
            Ok(())
        }));
    }
    pub fn random_points(out: &mut Vec<Space>) {
        let cs = consts();
        out.push(space("random-points", cs.len(), "curves x 300 answers of the random source: points of the curve, both square roots chosen, abscissas distinct", move |q| {
            let a = cs[q as usize];
            let c = Curve::new(&a);
            rand::mc::set(&[], 0x2000 + q);
            let mut rng = rand::thread_rng();
            let (mut xs, mut signs) = (std::collections::HashSet::new(), [0usize; 2]);
            for i in 0..300 {
                let p = c.rand_point(&mut rng);
                let (x, y) = p.to_xy();
                let r = x * x * x + a * x * x + x;
                ck!(p.isinfinity() == 0 && eq(&(y * y), &r), "A={}: random point #{} is not on the curve", a, i);
                signs[(eq(&y, &r.sqrt().0)) as usize] += 1;
                xs.insert(x.encode().to_vec());
            }
            ck!(signs[0] > 0 && signs[1] > 0, "A={}: random points always carry the same square root", a);
            ck!(xs.len() > 295, "A={}: 300 random points have {} abscissas", a, xs.len());
            st(&(q, "rnd"));
            Ok(())
        }));
    }
    pub fn validate(out: &mut Vec<Space>) {
        let tabs: Arc<Vec<(Fq, Vec<Pt>)>> = Arc::new(consts().into_iter().enumerate().map(|(i, a)| (a, pointset(&a, i < 2))).collect());
        {
            let tabs = tabs.clone();
            let idx: Vec<(usize, usize)> = tabs.iter().enumerate().flat_map(|(i, c)| (0..c.1.len()).map(move |k| (i, k))).collect();
            out.push(space("set-coordinates", idx.len(), "special points, and each point with one coordinate changed (by 1, i, p-1, last limb), against every curve", move |q| {
                let (ci, i) = idx[q as usize];
                let x = tabs[ci].1[i];
                for (a, _) in tabs.iter() {
                    let c = Curve::new(a);
                    let (px, py) = match x {
                        None => {
                            for y in [Fq::ZERO, Fq::ONE, Fq::ZETA] {
                                for xx in [Fq::ZERO, Fq::ONE, Fq::ZETA] {
                                    ck!(c.point_xyz_vartime(&xx, &y, &Fq::ZERO).map(|r| r.isinfinity()) == Some(u32::MAX), "A={}: (x : y : 0) refused", a);
                                }
                            }
                            continue;
                        }
                        Some(q) => q,
                    };
                    let big_ = Fq::ONE / (Fq::ZETA + Fq::THREE);
                    for dx in [Fq::ZERO, Fq::ONE, Fq::ZETA, big_] {
                        for dy in [Fq::ZERO, Fq::ONE, Fq::ZETA, -py - py, big_] {
                            let (xx, yy) = (px + dx, py + dy);
                            let ok = eq(&(yy * yy), &(xx * xx * xx + *a * xx * xx + xx));
                            let mut r = rep(&x, 2);
                            let f = c.set_xy(&mut r, &xx, &yy);
                            ck!(f == if ok { u32::MAX } else { 0 } && same(&val(&r), &if ok { Some((xx, yy)) } else { None }), "A={}: set_xy flag {:x}", a, f);
                            ck!(c.point_xy_vartime(&xx, &yy).is_some() == ok && c.on_curve(&Point::new_xy(&xx, &yy)) == ok, "A={}: point_xy_vartime/on_curve", a);
                            for l in [Fq::MINUS_ONE, Fq::ZETA + Fq::TWO] {
                                let mut r = rep(&x, 2);
                                let f = c.set_xyz(&mut r, &(xx * l), &(yy * l), &l);
                                ck!(f == if ok { u32::MAX } else { 0 } && same(&val(&r), &if ok { Some((xx, yy)) } else { None }), "A={}: set_xyz flag {:x}", a, f);
                                ck!(c.point_xyz_vartime(&(xx * l), &(yy * l), &l).is_some() == ok && c.on_curve(&c.point_xyz_nocheck(&(xx * l), &(yy * l), &l)) == ok, "A={}: point_xyz_vartime/on_curve", a);
                            }
                            st(&(q, a.encode().to_vec(), xx.encode().to_vec(), yy.encode().to_vec()));
                        }
                    }
                }
                Ok(())
            }).chunk(1));
        }
        {
            let tabs = tabs.clone();
            let ncs = tabs.len();
            out.push(space("lift", ncs * 120, "x = k, k*i, 1/k, k+i, limb boundaries in several scalings", move |q| {
                let a = &tabs[q as usize % ncs].0;
                let k = q as usize / ncs;
                let c = Curve::new(a);
                let kk = Fq::from_i32_pair(k as i32 / 5);
                let x = match k % 5 {
                    0 => kk,
                    1 => kk * Fq::ZETA,
                    2 => kk.invert(),
                    3 => kk + Fq::ZETA,
                    _ => Fq::TWO.pow_small(13 * k as u32) - kk,
                };
                let f = x * x * x + *a * x * x + x;
                let e = f.legendre() >= 0;
                for l in [Fq::ONE, Fq::MINUS_ONE, Fq::ZETA, Fq::THREE.invert()] {
                    let (r, fl) = c.complete_pointX(&PointX::new_xz(&(x * l), &l));
                    ck!(fl == if e { u32::MAX } else { 0 }, "A={}: lifting x={} reports {:x}", a, x, fl);
                    match val(&r) {
                        None => ck!(!e, "A={}: lifting x={} gives the neutral element", a, x),
                        Some((rx, ry)) => ck!(e && eq(&rx, &x) && eq(&(ry * ry), &f), "A={}: lifting x={} gives a wrong point", a, x),
                    }
                }
                st(&("lift", q));
                Ok(())
            }));
        }
        {
            let tabs = tabs.clone();
            out.push(space("iteration", tabs.len(), "first 40 points of the canonical iteration on each curve, twice", move |q| {
                let a = &tabs[q as usize].0;
                let c = Curve::new(a);
                let mut x = Fq::ONE + Fq::ZETA;
                let (mut i1, mut i2) = (c.iter(), c.iter());
                for n in 0..40 {
                    let f = |x: &Fq| *x * *x * *x + *a * *x * *x + *x;
                    while f(&x).sqrt().1 == 0 {
                        x += Fq::ONE;
                    }
                    let (r, r2) = (i1.next().unwrap(), i2.next().unwrap());
                    ck!(r.equals(&r2) != 0, "A={}: iteration is not reproducible at {}", a, n);
                    let (rx, ry) = val(&r).unwrap();
                    ck!(eq(&rx, &x) && eq(&(ry * ry), &f(&x)), "A={}: point {} of the iteration has a wrong x", a, n);
                    x += Fq::ONE;
                    st(&("iter", q, n));
                }
                Ok(())
            }).chunk(1));
        }
        {
            let l = Fq::ENCODED_LENGTH + 32 + 1;
            out.push(space("random-point", 3 * (l + 60), "scripted random sources: a base script and every single-byte change of it", move |q| {
                let (ci, k) = (q as usize % 3, q as usize / 3);
                let a = &tabs[ci].0;
                let c = Curve::new(a);
                let mut base: Vec<u8> = (0..6 * l).map(|t| ((t * t * 31 + t * 7 + ci * 13) >> 2) as u8).collect();
                if k >= l {
                    for (t, b) in base.iter_mut().enumerate() {
                        *b = b.wrapping_mul((k - l) as u8).wrapping_add((t as u8) ^ (k as u8));
                    }
                }
                let mut seen: Vec<Point> = vec![];
                for v in 0..24u32 {
                    // one byte changed in each of 8 ways, and the whole script mixed in 40 ways
                    let mut b = base.clone();
                    if v < 8 {
                        b[k % l] ^= 1 << v;
                    } else {
                        for (t, x) in b.iter_mut().enumerate() {
                            *x ^= (v.wrapping_mul(2654435761) ^ (t as u32).wrapping_mul(40503) ^ (t as u32).wrapping_mul(v) << 7).to_be_bytes()[1];
                        }
                    }
                    let r = c.rand_point(&mut Script(b, 0));
                    ck!(c.on_curve(&r) && r.isinfinity() == 0, "A={}: random point off the curve", a);
                    seen.push(r);
                }
                let plus = seen.iter().any(|r| val(r).map(|(_, y)| eq(&(y * y).sqrt().0, &y)).unwrap_or(false));
                let minus = seen.iter().any(|r| val(r).map(|(_, y)| eq(&(y * y).sqrt().0, &-y)).unwrap_or(false));
                ck!(plus && minus, "A={}: both signs of a random point are not reachable", a);
                st(&("rand", q));
                Ok(())
            }).chunk(4));
        }
    }
    /// The six Montgomery constants isomorphic to A: A' = +-A and those from the other two points of order 2
    pub fn class(a: &Fq) -> Vec<Fq> {
        let mut v: Vec<Fq> = vec![*a, -*a];
        let (d, r) = (*a * *a - Fq::FOUR).sqrt();
        if r == 0 {
            return v;
        }
        let h = Fq::TWO.invert();
        for t in [(d - *a) * h, (-d - *a) * h] {
            // move (t, 0) to (0,0): x = s X + t with s^2 = 3t^2 + 2At + 1
            let (s, r) = (t * t * Fq::THREE + *a * t * Fq::TWO + Fq::ONE).sqrt();
            if r != 0 {
                let b = (t * Fq::THREE + *a) / s;
                v.push(b);
                v.push(-b);
            }
        }
        v
    }
    pub fn isoms(out: &mut Vec<Space>) {
        let six = Fq::TWO + Fq::FOUR;
        let mut cs = vec![six, Fq::ZETA + Fq::THREE, Fq::FOUR + Fq::ONE, Fq::ZETA * Fq::FOUR, Fq::MINUS_ONE + Fq::ZETA];
        for k in 7..20 {
            cs.push(Fq::from_i32_pair(k) + Fq::ZETA.mul_small(k * k));
        }
        {
            let mut js: Vec<Fq> = cs.iter().flat_map(class).collect();
            js.extend([Fq::ZERO, Fq::ONE, Fq::MINUS_ONE, Fq::ZETA, -Fq::ZETA, Fq::ZETA * Fq::TWO, Fq::THREE, Fq::THREE.sqrt().0, Fq::TWO.invert()]);
            for k in 0..40 {
                let x = *js.last().unwrap();
                js.push(x * x + Fq::ZETA.mul_small(k + 3));
            }
            out.push(space("j-invariants", js.len(), "special and structured coefficients: the j-invariant and the coefficient", move |q| {
                let a = js[q as usize];
                let c = Curve::new(&a);
                let (a2, j) = (a * a, c.j_invariant());
                let t = a2 - Fq::THREE;
                let mut n = t * t * t;
                for _ in 0..8 {
                    n = n + n;
                }
                ck!(eq(&(j * (a2 - Fq::FOUR)), &n), "A={}: wrong j-invariant", a);
                ck!(eq(&c.get_constant(), &a), "A={}: wrong coefficient", a);
                st(&("j", q));
                Ok(())
            }));
        }
        let cases: Vec<(Fq, Fq)> = cs.iter().flat_map(|a| { let c = class(a); let mut v = vec![]; for x in c.iter() { for y in c.iter() { v.push((*x, *y)) } } v }).collect();
        out.push(space("isomorphisms", cases.len(), "every ordered pair of constants within the isomorphism classes of 18 curves; special points and all their pairwise sums", move |q| {
            let (a, b) = &cases[q as usize];
            let (ca, cb) = (Curve::new(a), Curve::new(b));
            if !eq(&ca.j_invariant(), &cb.j_invariant()) {
                return Err(format!("reference: j-invariants differ for {} and {}", a, b));
            }
            // isomorphic over this field iff u is a square; skip twists
            let f = CurveIsomorphism::new(&ca, &cb);
            let mut pts = pointset(a, false);
            pts.truncate(14);
            let twist = {
                // there must be (u, v) with u a square
                let mut ok = false;
                let mut vs = vec![Fq::ZERO];
                let (d, r) = (*b * *b - Fq::FOUR).sqrt();
                if r != 0 {
                    vs.push((d - *b) * Fq::TWO.invert());
                    vs.push((-d - *b) * Fq::TWO.invert());
                }
                for v in vs {
                    let u = (Fq::THREE * v + *b) / *a;
                    if eq(&(u * u), &(Fq::THREE * v * v + *b * v * Fq::TWO + Fq::ONE)) && u.legendre() == 1 {
                        ok = true;
                    }
                }
                !ok
            };
            if twist {
                return Ok(());
            }
            let img: Vec<Pt> = pts.iter().enumerate().map(|(k, x)| val(&f.eval(&rep(x, k)))).collect();
            for (i, x) in pts.iter().enumerate() {
                ck!(x.is_none() == img[i].is_none(), "isomorphism {} -> {}: neutral element not preserved", a, b);
                if let Some((px, py)) = img[i] {
                    ck!(eq(&(py * py), &(px * px * px + *b * px * px + px)), "isomorphism {} -> {}: image off the curve", a, b);
                }
                for (j, y) in pts.iter().enumerate() {
                    ck!(same(x, y) == same(&img[i], &img[j]), "isomorphism {} -> {} is not injective", a, b);
                    let s = padd(a, x, y);
                    let e = padd(b, &img[i], &img[j]);
                    ck!(same(&val(&f.eval(&rep(&s, i))), &e), "isomorphism {} -> {} is not additive", a, b);
                }
            }
            st(&(q, a.encode().to_vec(), b.encode().to_vec()));
            sample(|| format!("isomorphism A={} -> A'={}", a, b));
            Ok(())
        }).chunk(1));
    }
    pub trait FromI {
        fn from_i32_pair(k: i32) -> Self;
    }
    impl FromI for Fq {
        fn from_i32_pair(k: i32) -> Fq {
            Fq::ONE.mul_small(k)
        }
    }
}

fn build(o: &Opts) -> Vec<Space> {
    let mut v: Vec<Space> = vec![];
    let t = o.thorough;
    match o.prop.as_str() {
        "C09" => full::group_law(&mut v),
        "C10" => full::scalars(t, &mut v),
        "C11" => full::validate(&mut v),
        "C23" => full::isoms(&mut v),
        "C26" => {
            full::select(&mut v);
            full::inputs(&mut v);
        }
        "C28" => full::random_points(&mut v),
        _ => panic!("unknown property"),
    }
    #[cfg(mc_tiny)]
    match o.prop.as_str() {
        "C09" => {
            p7::group_law(1, 0, &mut v);
            p23::group_law(if t { 1 } else { 29 }, if t { 0 } else { 5 }, &mut v);
            p31::group_law(if t { 11 } else { 200 }, 7, &mut v);
            p47::group_law(if t { 150 } else { 1300 }, 3, &mut v);
        }
        "C10" => {
            p7::scalars(1, 0, &mut v);
            p23::scalars(if t { 1 } else { 29 }, if t { 0 } else { 5 }, &mut v);
            p31::scalars(if t { 3 } else { 200 }, 7, &mut v);
            p47::scalars(if t { 10 } else { 1500 }, 9, &mut v);
            p71::scalars(if t { 40 } else { 6000 }, 9, &mut v);
        }
        "C11" => {
            p7::validate(1, true, &mut v);
            p23::validate(if t { 3 } else { 40 }, false, &mut v);
            p31::validate(if t { 20 } else { 300 }, false, &mut v);
        }
        "C23" => {
            p7::isoms(1, &mut v);
            p23::isoms(1, &mut v);
            p31::isoms(if t { 1 } else { 3 }, &mut v);
            p47::isoms(if t { 1 } else { 31 }, &mut v);
            p71::isoms(if t { 3 } else { 300 }, &mut v);
        }
        "C26" => {
            p7::select(1, &mut v);
            p23::select(if t { 5 } else { 60 }, &mut v);
        }
        "C28" => {
            p7::random_points(1, &mut v);
            p23::random_points(if t { 1 } else { 10 }, &mut v);
            p31::random_points(if t { 5 } else { 100 }, &mut v);
        }
        _ => {}
    }
    v
}
fn main() {
    run::main(build)
}
