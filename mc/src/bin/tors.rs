//! C12 torsion bases, C13 order tests, C14 Weil pairing, C15 discrete logarithms, C21 canonical kernel recovery.
#![allow(non_snake_case)]
use festa_rs::discrete_log::{bidlp, bsgs, ph_dlp, ph_dlp_power};
use festa_rs::ecFESTA::{Curve, Fq};
use festa_rs::fields::FpFESTAExt as PP;
use festa_rs::pairing::{tate_pairing, weil_pairing};
use festa_rs::supersingular::*;
use mc::ck;
use mc::ecref::*;
use mc::refm::*;
use mc::run::{self, sample, space, st, Opts, Space};
use num_bigint::BigUint;
use std::sync::{Arc, OnceLock};

type Fac = Vec<(u32, u32)>;
const TOY: bool = cfg!(festa_mc);

/// reference scalar multiplication: affine in the small worlds, the crate's ladder (decided by C10) at full size
fn rmul(a: &Fq, p: &Pt, n: &BigUint) -> Pt {
    if TOY || n.bits() < 24 {
        pmul(a, p, n)
    } else {
        val(&Curve::new(a).mul_big(&pt(p), n))
    }
}
fn exact(a: &Fq, p: &Pt, f: &[(u32, u32)]) -> bool {
    let d = order_of(f);
    on(a, p) && rmul(a, p, &d).is_none() && f.iter().all(|(l, _)| rmul(a, p, &(&d / *l)).is_some())
}
/// P, Q of order exactly D generate the whole D-torsion
fn spans(a: &Fq, p: &Pt, q: &Pt, f: &[(u32, u32)]) -> bool {
    let d = order_of(f);
    f.iter().all(|(l, _)| indep(a, &rmul(a, p, &(&d / *l)), &rmul(a, q, &(&d / *l)), *l))
}
fn v2(f: &[(u32, u32)]) -> u32 {
    f.iter().find(|x| x.0 == 2).map(|x| x.1).unwrap_or(0)
}
fn rev(f: &Fac) -> Fac {
    f.iter().rev().copied().collect()
}
/// factored divisors of p+1, by increasing number of primes
fn divisors(t: bool) -> Vec<Fac> {
    let (_, g) = group();
    let mut out: Vec<Fac> = vec![];
    for (l, e) in &g {
        if *l == 2 {
            for k in [1, 2, 3, 4, 5, 9, 10, *e - 2, *e - 1, *e] {
                out.push(vec![(2, k)]);
            }
        } else if TOY || *l < 1300 || t {
            for k in 1..=*e {
                if TOY || t || k == 1 || k == *e {
                    out.push(vec![(*l, k)]);
                }
            }
        }
    }
    let odd: Fac = g[1..].to_vec();
    let m = if TOY { odd.len() } else { 5 };
    for i in 0..m {
        for j in 0..m {
            if i != j {
                out.push(vec![(odd[i].0, 1), odd[j]]);
                if TOY {
                    out.push(vec![odd[i], odd[j]]);
                }
            }
        }
    }
    for i in 0..m.saturating_sub(2) {
        let f = vec![odd[i], odd[i + 1], odd[i + 2]];
        out.push(rev(&f));
        out.push(f);
    }
    for f in [&PP::D1_FACTORED[..], &PP::D2_FACTORED[..], &PP::DA1_FACTORED[..], &PP::DA2_FACTORED[..]] {
        out.push(f.to_vec());
        if f.len() > 1 {
            out.push(rev(&f.to_vec()));
        }
    }
    out.push(vec![(2, 1), odd[0]]);
    out.push(vec![odd[0], (2, 3), odd[1]]);
    if TOY {
        for k in 4..=odd.len() {
            out.push(odd[..k].to_vec());
            out.push(odd[odd.len() - k..].to_vec());
        }
        out.push(g.clone());
        out.push(rev(&g));
    } else if t {
        out.push(odd.clone());
    }
    out
}
fn show(f: &[(u32, u32)]) -> String {
    let mut s = String::new();
    for (k, (l, e)) in f.iter().enumerate() {
        if k == 6 {
            s += "*..";
            break;
        }
        s += &format!("{}{}^{}", if k > 0 { "*" } else { "" }, l, e);
    }
    s
}
fn curves(t: bool) -> Vec<Fq> {
    if TOY {
        family(if t { 400 } else { 60 })
    } else {
        family(if t { 12 } else { 4 })
    }
}

// ------------------------------------------------------------------------------------------------ C12
fn c12(t: bool, out: &mut Vec<Space>) {
    let cs = Arc::new(curves(t));
    let ds = Arc::new(divisors(t));
    let (_, g) = group();
    let vmax = v2(&g) as usize;
    // every curve with few divisors, few curves with every divisor
    let mut jobs: Vec<(usize, usize)> = vec![];
    for ci in 0..cs.len() {
        for di in 0..ds.len() {
            let few = if TOY { 6 } else { 1 };
            if ci < few || (TOY && (di * 7 + ci * 3) % (if t { 4 } else { 24 }) == 0) || (!TOY && (di + ci) % 9 == 0) {
                jobs.push((ci, di));
            }
        }
    }
    if !TOY {
        // the largest ones first
        jobs.sort_by_key(|j| std::cmp::Reverse(ds[j.1].len()));
    }
    {
        let (cs, ds, jobs) = (cs.clone(), ds.clone(), jobs.clone());
        out.push(space("canonical-basis", jobs.len(), "supersingular curves x factored divisors D of p+1 (prime powers, products, any order of the factors): order, independence, repetition, any even_power", move |q| {
            let (ci, di) = jobs[q as usize];
            let (a, f) = (&cs[ci], &ds[di]);
            let c = Curve::new(a);
            let ev = vmax - v2(f) as usize;
            let (p, r) = torsion_basis(&c, f, ev);
            let (pv, rv) = (val(&p), val(&r));
            ck!(exact(a, &pv, f), "curve {} D={}: first basis point does not have order D", ci, show(f));
            ck!(exact(a, &rv, f), "curve {} D={}: second basis point does not have order D", ci, show(f));
            ck!(spans(a, &pv, &rv, f), "curve {} D={}: the basis points are dependent", ci, show(f));
            let g1 = generate_point_order_factored_D(&c, f, ev);
            let g2 = generate_point_order_factored_D(&c, f, ev);
            ck!(exact(a, &val(&g1), f), "curve {} D={}: generated point does not have order D", ci, show(f));
            ck!(g1.equals(&g2) != 0, "curve {} D={}: the canonical point changes between calls", ci, show(f));
            if TOY || q % 4 == 0 {
                let (p2, r2) = torsion_basis(&c, f, if q % 2 == 0 { 0 } else { ev / 2 });
                ck!(p.equals(&p2) != 0 && r.equals(&r2) != 0, "curve {} D={}: the canonical basis is not reproducible", ci, show(f));
                let c2 = Curve::new(a);
                rand::mc::set(&[q as u8; 40], q);
                let (p2, r2) = torsion_basis(&c2, f, ev);
                ck!(p.equals(&p2) != 0 && r.equals(&r2) != 0, "curve {} D={}: the canonical basis is not reproducible", ci, show(f));
            }
            st(&(key(a), show(f)));
            sample(|| format!("curve {} D={}: basis of order D, independent", ci, show(f)));
            Ok(())
        }).chunk(1));
    }
    {
        let (cs, ds) = (cs.clone(), ds.clone());
        let seeds = if TOY { if t { 8 } else { 2 } } else { 1 };
        let few = if TOY { 5 } else { 1 };
        let n = few * ds.len() * seeds;
        out.push(space("random-point", n, "curves x divisors x scripted random sources: the random generator returns points of order exactly D", move |q| {
            let q = q as usize;
            let (ci, di, s) = (q % few, q / few % ds.len(), q / few / ds.len());
            let (a, f) = (&cs[ci], &ds[di]);
            let c = Curve::new(a);
            rand::mc::set(&[], (s * 1000 + q) as u64);
            let p = generate_random_point_order_factored_D(&c, f, vmax - v2(f) as usize);
            ck!(exact(a, &val(&p), f), "curve {} D={}: random point does not have order D", ci, show(f));
            let used = rand::mc::consumed();
            // a second run with the same source gives the same point
            rand::mc::set(&[], (s * 1000 + q) as u64);
            let p2 = generate_random_point_order_factored_D(&c, f, vmax - v2(f) as usize);
            ck!(p.equals(&p2) != 0 && rand::mc::consumed() == used, "curve {} D={}: random point depends on more than its random source", ci, show(f));
            st(&(key(a), show(f), s));
            Ok(())
        }).chunk(1));
    }
    {
        let n = if TOY { cs.len() } else { cs.len().min(if t { 12 } else { 4 }) };
        let ks: Vec<u32> = if TOY { vec![1, 2, 3, 5, 14.min(vmax as u32), vmax as u32 - 1, vmax as u32] } else { vec![1, 17, vmax as u32] };
        out.push(space("entangled-basis", n * ks.len(), "curves x powers of two: order, independence, repetition of the entangled basis", move |q| {
            let (ci, k) = (q as usize / ks.len(), ks[q as usize % ks.len()]);
            let a = &cs[ci];
            let c = Curve::new(a);
            let (n, _) = group();
            let cof = &n >> (k as usize);
            let (p, s) = entangled_torsion_basis(&c, &cof);
            let f = [(2, k)];
            ck!(exact(a, &val(&p), &f) && exact(a, &val(&s), &f), "curve {} 2^{}: entangled basis point has a wrong order", ci, k);
            ck!(spans(a, &val(&p), &val(&s), &f), "curve {} 2^{}: entangled basis points are dependent", ci, k);
            let (p2, s2) = entangled_torsion_basis(&c, &cof);
            ck!(p.equals(&p2) != 0 && s.equals(&s2) != 0, "curve {} 2^{}: entangled basis is not reproducible", ci, k);
            st(&(key(a), k));
            Ok(())
        }).chunk(1));
    }
    // many more curves, along walks in the 2-isogeny graph; on published parameters those of the walks whose
    // first candidates for the x-coordinate (and for Elligator's) fail, which are the ones that need a long search
    {
        let steps = if t { 6000 } else if TOY { 4000 } else { 1000 };
        let mut hard: Vec<(Fq, usize)> = vec![];
        let u = Fq::ZETA * Fq::TWO;
        let v: Vec<Fq> = (1..129).map(|r| (Fq::ONE + u * small(r).square()).invert()).collect();
        let sq: Vec<bool> = v.iter().map(|v| v.legendre() == 1).collect();
        let walks: Vec<Vec<(Fq, usize)>> = std::thread::scope(|s| {
            let hs: Vec<_> = (1..9u64).map(|k| { let (v, sq) = (&v, &sq); s.spawn(move || {
                let mut a = six();
                let mut st = k.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(12345);
                let mut out = vec![];
                for _ in 0..steps {
                    let la = a.legendre() == 1;
                    let need = v.iter().zip(sq).filter(|(_, s)| **s != la).take_while(|(v, _)| { let x = -(a * **v); (x * (x.square() + a * x + Fq::ONE)).legendre() == -1 }).count();
                    out.push((a, need));
                    st ^= st << 13;
                    st ^= st >> 7;
                    st ^= st << 17;
                    let (d, _) = (a * a - Fq::FOUR).sqrt();
                    let al = if st & 1 == 0 { (d - a).half() } else { (-d - a).half() };
                    let b = Fq::TWO - (al * al).mul4();
                    if b.iszero() != 0 || (b * b).equals(&Fq::FOUR) != 0 {
                        break;
                    }
                    a = if st & 2 != 0 { -b } else { b };
                }
                out
            }) }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for w in &walks {
            hard.extend(w.iter().filter(|(_, n)| *n >= if TOY { 0 } else { 7 }));
        }
        hard.sort_by_key(|(_, n)| std::cmp::Reverse(*n));
        if !TOY {
            hard.truncate(if t { 400 } else { 40 });
        }
        let most = hard[0].1;
        let n = hard.len();
        out.push(space("entangled-walks", n, &format!("curves of 8 walks of {} steps in the 2-isogeny graph{}: the entangled basis of order 2^{} is found and is a basis; the longest search among them passes over {} candidates", steps, if TOY { "" } else { " on which the first 7 candidates or more fail" }, vmax, most), move |q| {
            let a = &hard[q as usize].0;
            let c = Curve::new(a);
            let (n, _) = group();
            let (p, s) = entangled_torsion_basis(&c, &(&n >> (vmax as usize)));
            let h = |p: &festa_rs::ecFESTA::Point| c.double_iter(p, vmax as usize - 1);
            let (p, s) = (h(&p), h(&s));
            let d = c.add(&p, &s);
            for x in [&p, &s, &d] {
                ck!(x.isinfinity() == 0 && c.on_curve(x), "A = {:02x?}: the entangled basis does not have exact order 2^{} or is dependent", a.encode(), vmax);
                ck!(c.double(x).isinfinity() != 0, "A = {:02x?}: the entangled basis is not killed by 2^{}", a.encode(), vmax);
            }
            st(&key(a));
            Ok(())
        }).chunk(8));
    }
}

// ------------------------------------------------------------------------------------------------ C13
fn fq_of_order(f: &[(u32, u32)]) -> Fq {
    let p = BigUint::from_slice(&PP::BIGUINT_MODULUS);
    let d = order_of(f);
    let e = (&p * &p - one()) / &d;
    let mut b = Fq::ZETA + Fq::ONE;
    loop {
        let z = b.pow_big(&e);
        if f.iter().all(|(l, _)| !eq(&z.pow_big(&(&d / *l)), &Fq::ONE)) {
            assert!(eq(&z.pow_big(&d), &Fq::ONE));
            return z;
        }
        b += Fq::ONE;
    }
}
/// exponents 0..D, or a grid meeting every divisibility pattern
fn grid(f: &[(u32, u32)], max: u64) -> Vec<BigUint> {
    let d = order_of(f);
    if d <= big(max) {
        let n = order_u64(f);
        return (0..n).map(big).collect();
    }
    let mut v = vec![zero(), one(), &d - one(), big(2), &d / 2u32];
    for (l, e) in f {
        let mut x = one();
        for k in 1..=*e {
            x *= *l;
            if k < 3 || k + 1 >= *e {
                v.push(&x % &d);
                v.push(&d / &x);
                v.push((&d / &x) * (*l - 1) % &d);
            }
        }
        v.push(&d / BigUint::from(*l).pow(*e) * 2u32 % &d);
    }
    let mut all = one();
    for (l, _) in f {
        all *= *l;
        v.push(&all % &d);
    }
    v.push((&d / &all) % &d);
    for x in v.iter_mut() {
        *x = &*x % &d;
    }
    let mut s = std::collections::HashSet::new();
    v.retain(|x| s.insert(x.clone()));
    v
}
fn full(f: &[(u32, u32)], i: &BigUint, j: &BigUint) -> bool {
    f.iter().all(|(l, _)| !is0(&(i % *l)) || !is0(&(j % *l)))
}
fn c13(t: bool, out: &mut Vec<Space>) {
    let six = Arc::new(curves(false));
    let mut ds: Vec<Fac> = divisors(t);
    if !TOY {
        ds.sort_by_key(|f| std::cmp::Reverse(f.len()));
    }
    for (n, f) in ds.into_iter().enumerate() {
        // field elements
        let d = order_of(&f);
        let cap = if TOY { if t { 20000 } else { 1500 } } else { if t { 4000 } else { 100 } };
        let gr = Arc::new(grid(&f, cap));
        {
            let (f, gr) = (f.clone(), gr.clone());
            let z: OnceLock<Fq> = OnceLock::new();
            let s = space(&format!("field/{}", n), gr.len(), &format!("powers of an element of order D = {}", show(&f)), move |q| {
                let z = z.get_or_init(|| fq_of_order(&f));
                let c = &gr[q as usize];
                let v = z.pow_big(c);
                ck!(has_factored_order(v, &f) == full(&f, c, &zero()), "D={}: order test wrong on the {}-th power of an element of order D", show(&f), c);
                st(&(show(&f), c));
                Ok(())
            });
            out.push(if d <= big(cap) { s.complete() } else { s });
        }
        // points [i]P + [j]Q
        let cap = if TOY { if t { 200 } else { 40 } } else { if t { 40 } else { 10 } };
        let mut gr = grid(&f, cap);
        let small = d <= big(cap);
        if !TOY && !t && !small {
            // full size: evenly spread patterns
            let k = (gr.len() / if d.bits() > 60 { 10 } else { 6 }).max(1);
            gr = gr.into_iter().step_by(k).collect();
        }
        let gr = Arc::new(gr);
        let a = six[n % 3];
        let b: OnceLock<(Vec<Pt>, Vec<Pt>)> = OnceLock::new();
        let gj: Vec<usize> = if small || (TOY && t) { (0..gr.len()).collect() } else { (0..gr.len().min(if TOY { 6 } else if t { 3 } else { 2 })).collect() };
        let f2 = f.clone();
        let s = space(&format!("points/{}", n), gr.len(), &format!("[i]P+[j]Q on curve {} with P,Q a basis of the D-torsion, D = {}", n % 3, show(&f)), move |q| {
            let (tp, tq) = b.get_or_init(|| {
                let (p, q) = basis(&a, &f2);
                (gr.iter().map(|i| rmul(&a, &p, i)).collect(), gj.iter().map(|j| rmul(&a, &q, &gr[*j])).collect())
            });
            let c = Curve::new(&a);
            let i = q as usize;
            for (k, j) in gj.iter().enumerate() {
                let x = padd(&a, &tp[i], &tq[k]);
                let r = point_has_factored_order(&c, &rep(&x, i + j), &f2);
                ck!(r == full(&f2, &gr[i], &gr[*j]), "D={}: order test answers {} on [{}]P+[{}]Q", show(&f2), r, gr[i], gr[*j]);
                st(&(show(&f2), &gr[i], &gr[*j]));
                // Q alone as well
                if i == 0 {
                    sample(|| format!("D={} [{}]P+[{}]Q -> {}", show(&f2), gr[i], gr[*j], r));
                }
            }
            Ok(())
        }).chunk(1);
        out.push(if small { s.complete() } else { s });
    }
}

// ------------------------------------------------------------------------------------------------ C14
fn c14(t: bool, out: &mut Vec<Space>) {
    let cs = curves(false);
    let (_, g) = group();
    let odd: Fac = g[1..].to_vec();
    let mut ns: Vec<(Fac, usize)> = vec![];
    for k in 1..=if t { 5 } else { 4 } {
        ns.push((vec![(2, k)], 0));
    }
    for f in [vec![(3, 1)], vec![(3, 2)], vec![(2, 1), (3, 1)], vec![(2, 2), (3, 1)]] {
        ns.push((f.clone(), 0));
        ns.push((f, 1));
    }
    for (l, _) in &odd {
        if *l > 3 && (*l < 14 || t && *l < 20) {
            ns.push((vec![(*l, 1)], 0));
        }
    }
    if odd.len() > 1 {
        ns.push((vec![odd[0], (odd[1].0, 1)], 0));
        ns.push((vec![(odd[0].0, 1), (odd[1].0, 1)], 1));
    }
    if TOY {
        ns.push((vec![odd[0], odd[1]], 2));
        ns.push((odd.clone(), 1));
        ns.push((g.clone(), 0));
        ns.push((g.clone(), 3));
    }
    ns.push((PP::D1_FACTORED.to_vec(), 0));
    ns.push((PP::D2_FACTORED.to_vec(), 1));
    ns.push((vec![g[0]], 0));
    ns.push((vec![g[0]], 1));
    ns.push((vec![(2, g[0].1 - 1)], 2));
    for (idx, (f, ci)) in ns.into_iter().enumerate() {
        let a = cs[ci % cs.len()];
        let d = order_of(&f);
        let full_n = if TOY { if t { 25 } else { 16 } } else { if t { 9 } else { 5 } };
        let all = d <= big(full_n);
        let mut gr = if all { grid(&f, full_n) } else { grid(&f, 0) };
        // the inner list of second arguments
        let cap = if TOY { if t { 40 } else { 10 } } else if d.bits() > 60 { if t { 5 } else { 2 } } else { 6 };
        if !all {
            gr.truncate(cap);
        }
        let gr = Arc::new(gr);
        let n = gr.len();
        let nm = show(&f);
        let tab: OnceLock<(Vec<Pt>, Vec<Pt>, Fq)> = OnceLock::new();
        let (gr2, f2) = (gr.clone(), f.clone());
        let s = space(&format!("weil/{}-{}", idx, nm), n * n, &format!("e([i]P+[j]Q, [k]P+[l]Q) for n = {} on curve {}: (i,j) outer, every (k,l) of the same list inner", nm, ci), move |q| {
            let (tp, tq, z) = tab.get_or_init(|| {
                let (p, q) = basis(&a, &f2);
                let z = weil_pairing(&Curve::new(&a), &pt(&p), &pt(&q), &order_of(&f2));
                (gr2.iter().map(|i| rmul(&a, &p, i)).collect(), gr2.iter().map(|i| rmul(&a, &q, i)).collect(), z)
            });
            let c = Curve::new(&a);
            let d = order_of(&f2);
            if q == 0 {
                ck!(eq(&z.pow_big(&d), &Fq::ONE), "n={}: the pairing of a basis is not an n-th root of unity", show(&f2));
                for (l, _) in &f2 {
                    ck!(!eq(&z.pow_big(&(&d / *l)), &Fq::ONE), "n={}: the pairing of a basis does not have order n", show(&f2));
                }
            }
            let (i, j) = (q as usize / n, q as usize % n);
            let x = padd(&a, &tp[i], &tq[j]);
            for k in 0..n {
                for l in 0..n {
                    let y = padd(&a, &tp[k], &tq[l]);
                    let e = weil_pairing(&c, &rep(&x, i + 2 * j), &rep(&y, k + 2 * l + 1), &d);
                    let ex = (&gr2[i] * &gr2[l] + &d * &d - &gr2[j] * &gr2[k]) % &d;
                    ck!(eq(&e, &z.pow_big(&ex)), "n={}: e([{}]P+[{}]Q, [{}]P+[{}]Q) is not e(P,Q)^{}", show(&f2), gr2[i], gr2[j], gr2[k], gr2[l], ex);
                }
            }
            st(&(show(&f2), i, j));
            sample(|| format!("n={} e([{}]P+[{}]Q, .) against all {} second arguments", show(&f2), gr2[i], gr2[j], n * n));
            Ok(())
        }).chunk(1);
        out.push(if all { s.complete() } else { s });
    }
}

/// The crate's Tate pairing of P in E[n] and any Q, raised to (p^2-1)/n, is e([(p+1)/n]Q, P): Frobenius is -p on these
/// curves, so this holds for every pair of points, dependent ones included.
fn tate(t: bool, out: &mut Vec<Space>) {
    let cs = curves(false);
    let (pp1, g) = group();
    let odd: Fac = g[1..].to_vec();
    let mut ns: Vec<(Fac, usize)> = vec![(vec![(2, 1)], 0), (vec![(2, 2)], 1), (vec![(2, 3)], 0), (vec![(3, 1)], 1), (vec![(2, 1), (3, 1)], 2)];
    ns.push((vec![odd[0], (odd[1].0, 1)], 0));
    ns.push((vec![g[0]], 1));
    ns.push((PP::D1_FACTORED.to_vec(), 1));
    if TOY {
        ns.push((vec![(3, 2)], 2));
        ns.push((odd.clone(), 2));
        ns.push((g.clone(), 1));
    }
    for (idx, (f, ci)) in ns.into_iter().enumerate() {
        let a = cs[ci % cs.len()];
        let d = order_of(&f);
        let full_n = if TOY { if t { 16 } else { 9 } } else if t { 6 } else { 4 };
        let mut gr = grid(&f, if d <= big(full_n) { full_n } else { 0 });
        gr.truncate(if TOY { if t { 20 } else { 9 } } else if d.bits() > 60 { 2 } else { 4 });
        // the second arguments come from a larger subgroup
        let mut fx: Fac = f.iter().map(|(l, _)| *g.iter().find(|x| x.0 == *l).unwrap()).collect();
        let extra = odd.iter().find(|x| !f.iter().any(|y| y.0 == x.0));
        fx.extend(extra);
        let hx = order_of(&fx);
        let ext: Vec<BigUint> = [zero(), one(), &hx - one(), &hx / &d, big(2), &hx / fx[0].0, &hx / fx[fx.len() - 1].0, big(fx[0].0 as u64)].into_iter().take(if TOY { 8 } else if d.bits() > 60 { 2 } else { 5 }).collect();
        let (n, m) = (gr.len(), ext.len());
        let tab: OnceLock<[Pt; 4]> = OnceLock::new();
        let pp1 = pp1.clone();
        out.push(space(&format!("tate/{}-{}", idx, show(&f)), n * n, &format!("reduced Tate pairing of [i]P+[j]Q (n = {}, curve {}) with every [k]R+[l]S of a larger torsion group", show(&f), ci), move |q| {
            let b = tab.get_or_init(|| {
                let ((p, q), (r, s)) = (basis(&a, &f), basis(&a, &fx));
                [p, q, r, s]
            });
            let c = Curve::new(&a);
            let (i, j) = (q as usize / n, q as usize % n);
            let x = padd(&a, &rmul(&a, &b[0], &gr[i]), &rmul(&a, &b[1], &gr[j]));
            let co = &pp1 / &d;
            for k in 0..m {
                for l in 0..m {
                    let y = padd(&a, &rmul(&a, &b[2], &ext[k]), &rmul(&a, &b[3], &ext[l]));
                    let y2 = rmul(&a, &y, &co);
                    // (p^2-1)/n = (p+1)/n * (p-1)
                    let w = tate_pairing(&c, &rep(&x, i + j), &rep(&y, k + 2 * l), &d).pow_big(&co);
                    let w = conj(&w) / w;
                    let e = weil_pairing(&c, &rep(&y2, k), &rep(&x, i), &d);
                    ck!(eq(&w, &e), "n={}: the reduced Tate pairing of [{}]P+[{}]Q and [{}]R+[{}]S is not the corresponding power of the Weil pairing", show(&f), gr[i], gr[j], ext[k], ext[l]);
                }
            }
            st(&("tate", show(&f), i, j));
            Ok(())
        }).chunk(1));
    }
}

// ------------------------------------------------------------------------------------------------ C15
fn c15(t: bool, out: &mut Vec<Space>) {
    let (_, g) = group();
    // baby-step giant-step, every prime order
    for (l, _) in g.iter() {
        let l = *l;
        if !TOY && l > if t { 50000 } else { 3100 } {
            continue;
        }
        let z: OnceLock<Fq> = OnceLock::new();
        let step = if l < 150 { 1 } else if t { l / 150 } else { l / 16 } as usize;
        let mut xs: Vec<u32> = (0..l).step_by(step).collect();
        xs.extend([l - 1, l - 2, l / 2]);
        let s = space(&format!("bsgs/{}", l), xs.len(), &format!("baby-step giant-step in order {}", l), move |q| {
            let z = z.get_or_init(|| fq_of_order(&[(l, 1)]));
            let x = xs[q as usize];
            let r = bsgs(&z.pow_big(&big(x as u64)), z, l);
            ck!(r == x, "order {}: logarithm of the {}-th power is {}", l, x, r);
            st(&(l, x));
            Ok(())
        }).chunk(16);
        out.push(if step == 1 { s.complete() } else { s });
    }
    // prime powers
    let mut pps: Vec<(u32, u32)> = vec![];
    for (l, e) in g.iter() {
        if *l == 2 {
            for k in [1, 2, 3, 7, 10, *e] {
                pps.push((2, k));
            }
        } else if TOY || *l < 300 || t {
            for k in 1..=*e {
                pps.push((*l, k));
            }
        }
    }
    for (l, e) in pps {
        let cap = if TOY { if t { 20000 } else { 2500 } } else { if t { 2000 } else { 130 } };
        let gr = grid(&[(l, e)], cap);
        let all = order_of(&[(l, e)]) <= big(cap);
        let z: OnceLock<Fq> = OnceLock::new();
        let s = space(&format!("power/{}^{}", l, e), gr.len(), &format!("prime-power logarithm in order {}^{}", l, e), move |q| {
            let z = z.get_or_init(|| fq_of_order(&[(l, e)]));
            let x = &gr[q as usize];
            let b = z.pow_big(x);
            let r = ph_dlp_power(&b, z, l, e);
            ck!(&r == x, "order {}^{}: logarithm of the {}-th power is {}", l, e, x, r);
            let r = ph_dlp(&b, z, &[(l, e)]);
            ck!(&r == x, "order {}^{}: composite logarithm of the {}-th power is {}", l, e, x, r);
            st(&(l, e, x));
            Ok(())
        });
        out.push(if all { s.complete() } else { s });
    }
    // composite orders, any order of the factors
    for (n, f) in divisors(t).into_iter().enumerate() {
        if f.len() < 2 {
            continue;
        }
        let cap = if TOY { if t { 200000 } else { 1500 } } else { 10 };
        let mut gr = grid(&f, cap);
        if !TOY {
            gr.truncate(if t { 40 } else { 6 });
        }
        let all = order_of(&f) <= big(cap);
        let z: OnceLock<Fq> = OnceLock::new();
        let s = space(&format!("composite/{}", n), gr.len(), &format!("composite logarithm in order {}", show(&f)), move |q| {
            let z = z.get_or_init(|| fq_of_order(&f));
            let x = &gr[q as usize];
            let r = ph_dlp(&z.pow_big(x), z, &f);
            ck!(&r == x, "order {}: logarithm of the {}-th power is {}", show(&f), x, r);
            st(&(show(&f), x));
            Ok(())
        });
        out.push(if all { s.complete() } else { s });
    }
    // basis decomposition
    let odd: Fac = g[1..].to_vec();
    let mut ds: Vec<Fac> = vec![vec![(2, 1)], vec![(2, 2)], vec![(2, 4)], vec![(3, 1)], vec![(3, 2)], vec![(2, 1), (3, 1)], vec![(3, 1), (2, 2)]];
    for (l, _) in &odd {
        if *l > 3 && *l < 20 {
            ds.push(vec![(*l, 1)]);
        }
    }
    ds.push(PP::D1_FACTORED.to_vec());
    ds.push(PP::D2_FACTORED.to_vec());
    if PP::D1_FACTORED.len() > 1 && (TOY || t) {
        ds.push(rev(&PP::D1_FACTORED.to_vec()));
    }
    ds.push(vec![g[0]]);
    if TOY {
        ds.push(vec![(odd[0].0, 1), (odd[1].0, 1), (odd[2].0, 1)]);
        ds.push(odd.clone());
        ds.push(vec![(2, PP::L_POWER)]);
    }
    // the first and the last prime of the list matter to the algorithms: let every prime be in either place
    for (n, (l, e)) in odd.iter().enumerate() {
        let (l2, e2) = odd[(n + 1) % odd.len()];
        if TOY || t || n % 5 == 4 || n + 1 == odd.len() {
            if *l >= 20 {
                ds.push(vec![(*l, 1)]);
            }
            ds.push(vec![(l2, e2.min(2)), (*l, (*e).min(2))]);
        }
        if TOY || t || n % 5 == 2 {
            ds.push(vec![(*l, *e), (l2, e2)]);
        }
        if (TOY || t) && *e > 1 {
            ds.push(vec![(*l, *e)]);
        }
    }
    if TOY || t {
        ds.push(rev(&odd));
    }
    let cs = curves(false);
    for (n, f) in ds.into_iter().enumerate() {
        let cap = if TOY { if t { 300 } else { 130 } } else { if t { 9 } else { 5 } };
        let d = order_of(&f);
        let all = d <= big(cap);
        let mut gr = grid(&f, cap);
        if !all {
            gr.truncate(if TOY { if t { 60 } else if n < 22 { 24 } else { 14 } } else { if d.bits() < 8 { 7 } else if t { 8 } else if d.bits() < 40 { 3 } else { 2 } });
        }
        // (basis change, list of pairs)
        let a = cs[n % cs.len()];
        let m = gr.len();
        let tab: OnceLock<((Pt, Pt), Vec<Pt>, Vec<Pt>, Fq)> = OnceLock::new();
        let f2 = f.clone();
        let s = space(&format!("bidlp/{}-{}", n, show(&f)), m * m, &format!("decomposition of every [a]P+[b]Q (a,b from {} values) of the {}-torsion, precomputed pairing or not", m, show(&f)), move |q| {
            let ((p, r), tp, tq, z) = tab.get_or_init(|| {
                let (p, q0) = basis(&a, &f2);
                // a less regular basis: (P + 2Q, Q) is one for every D
                let p2 = padd(&a, &p, &padd(&a, &q0, &q0));
                let z = weil_pairing(&Curve::new(&a), &pt(&p2), &pt(&q0), &order_of(&f2));
                ((p2, q0), gr.iter().map(|i| rmul(&a, &p2, i)).collect(), gr.iter().map(|i| rmul(&a, &q0, i)).collect(), z)
            });
            let (i, j) = (q as usize / m, q as usize % m);
            let c = Curve::new(&a);
            let x = padd(&a, &tp[i], &tq[j]);
            let e = if q % 3 == 0 { None } else { Some(*z) };
            let (ra, rb) = bidlp(&c, &rep(&x, i + j), &rep(p, i), &rep(r, j), &f2, e);
            ck!(ra == gr[i] && rb == gr[j], "D={}: [{}]P+[{}]Q is decomposed as ({}, {})", show(&f2), gr[i], gr[j], ra, rb);
            st(&(show(&f2), &gr[i], &gr[j]));
            sample(|| format!("D={} [{}]P+[{}]Q -> ({}, {})", show(&f2), gr[i], gr[j], ra, rb));
            Ok(())
        }).chunk(1);
        out.push(if all { s.complete() } else { s });
    }
}

// ------------------------------------------------------------------------------------------------ C21
fn c21(t: bool, out: &mut Vec<Space>) {
    let (_, g) = group();
    let odd: Fac = g[1..].to_vec();
    let mut ds: Vec<(Fac, bool)> = vec![];
    for f in [vec![(3, 1)], vec![(3, 2)]] {
        ds.push((f.clone(), false));
        ds.push((f, true));
    }
    for (l, _) in &odd {
        if *l > 3 && *l < if TOY { 20 } else { 6 } {
            ds.push((vec![(*l, 1)], *l % 4 == 1));
        }
    }
    if TOY {
        ds.push((vec![(odd[0].0, 2), (odd[1].0, 1)], true));
        ds.push((vec![(odd[1].0, 1), (odd[0].0, 1)], false));
        ds.push((vec![(odd[0].0, 1), (odd[1].0, 1), (odd[2].0, 1)], false));
        ds.push((odd.clone(), true));
    }
    for f in [PP::D1_FACTORED.to_vec(), PP::D2_FACTORED.to_vec()] {
        ds.push((f.clone(), false));
        if TOY || t {
            ds.push((f, true));
        }
    }
    for (n, (l, e)) in odd.iter().enumerate() {
        let (l2, e2) = odd[(n + 1) % odd.len()];
        if TOY || t || n % 8 == 6 || n + 1 == odd.len() {
            ds.push((vec![(l2, e2.min(2)), (*l, (*e).min(2))], n % 3 == 1));
        }
        if TOY || t {
            ds.push((vec![(*l, *e), (l2, e2)], n % 3 == 2));
            if *l > 5 || *e > 2 {
                ds.push((vec![(*l, *e)], n % 3 == 0));
            }
        }
    }
    let cs = curves(false);
    if !TOY {
        ds.reverse();
    }
    for (n, (f, canonical)) in ds.into_iter().enumerate() {
        let d = order_of(&f);
        let cap = if TOY { if t { if n < 16 { 3000 } else { 400 } } else if n < 16 { 300 } else { 60 } } else { 9 };
        let all = d <= big(cap);
        let mut gr = grid(&f, cap);
        if !all {
            if !TOY {
                gr.insert(0, &d * 2u32 / 3u32 + one());
            }
            gr.truncate(if TOY { if n < 20 { 40 } else { 20 } } else if t { 6 } else { 1 });
        }
        // generator scalings (u,v): all pairs from a list meeting every divisibility pattern, with gcd(u,v,D) = 1
        let mut us = grid(&f, if TOY { 9 } else { 5 });
        us.truncate(if TOY { 12 } else if d.bits() < 8 { 5 } else { 3 });
        let mut uv: Vec<(BigUint, BigUint)> = vec![];
        for u in &us {
            for v in &us {
                if full(&f, u, v) {
                    uv.push((u.clone(), v.clone()));
                }
            }
        }
        // the patterns where each prime is carried by one of the two only
        for (l, e) in &f {
            let le = BigUint::from(*l).pow(*e);
            uv.push((le.clone(), &d / &le));
            uv.push((&d / &le, le.clone()));
            uv.push((BigUint::from(*l), one()));
            uv.push((one(), zero()));
            uv.push((zero(), &d - one()));
        }
        uv.retain(|(u, v)| full(&f, &(u % &d), &(v % &d)));
        let mut seen = std::collections::HashSet::new();
        uv.retain(|x| seen.insert((&x.0 % &d, &x.1 % &d)));
        if !TOY && d.bits() > 60 {
            // full size: each call costs seconds; the neutral generators first
            uv = vec![(one(), zero()), (zero(), big(2)), (BigUint::from(f[0].0), one()), (&d / (BigUint::from(f[1].0).pow(f[1].1)), BigUint::from(f[1].0).pow(f[1].1))];
            uv.retain(|(u, v)| full(&f, &(u % &d), &(v % &d)));
            if !t {
                uv = if n % 2 == 0 { vec![uv[0].clone(), uv[3].clone()] } else { vec![uv[1].clone(), uv[2].clone()] };
            }
        }
        if !TOY && !all && !t {
            uv.truncate(4);
        }
        let a = cs[n % cs.len()];
        let per = if TOY { 1 } else { 1 };
        let ng = gr.len();
        let f2 = f.clone();
        let nuv = uv.len();
        let (gr, uv) = (Arc::new(gr), Arc::new(uv));
        let tab: OnceLock<(Pt, Pt, Vec<Pt>)> = OnceLock::new();
        let vmax = g[0].1 as usize;
        let s = space(&format!("kernel/{}-{}{}", n, show(&f), if canonical { "-canonical" } else { "" }), ng * nuv / per, &format!("every s ({} values) x {} pairs of generators ([u]K, [v]K) of <P+[s]Q>, {} basis", ng, nuv, if canonical { "canonical" } else { "supplied" }), move |q| {
            let c = Curve::new(&a);
            let (p, r, ks) = tab.get_or_init(|| {
                let (p, q0) = if canonical {
                    let (x, y) = torsion_basis(&c, &f2, vmax);
                    (val(&x), val(&y))
                } else {
                    let (p, q0) = basis(&a, &f2);
                    (padd(&a, &p, &padd(&a, &q0, &q0)), q0)
                };
                let ks = gr.iter().map(|s| padd(&a, &p, &rmul(&a, &q0, s))).collect();
                (p, q0, ks)
            });
            let (si, ui) = (q as usize / nuv, q as usize % nuv);
            let (u, v) = &uv[ui];
            let (x, y) = (rmul(&a, &ks[si], &(u % &d)), rmul(&a, &ks[si], &(v % &d)));
            let b = if canonical { None } else { Some((pt(p), pt(r))) };
            let z = compute_canonical_kernel(&c, &rep(&x, si), &rep(&y, ui), &f2, b);
            ck!(z == gr[si], "D={}: from [{}]K, [{}]K with K = P+[{}]Q recovered {}", show(&f2), u, v, gr[si], z);
            st(&(show(&f2), &gr[si], u, v));
            sample(|| format!("D={} s={} generators [{}]K,[{}]K -> {}", show(&f2), gr[si], u, v, z));
            Ok(())
        }).chunk(1);
        out.push(if all { s.complete() } else { s });
    }
}

fn build(o: &Opts) -> Vec<Space> {
    let mut v = vec![];
    match o.prop.as_str() {
        "C12" => c12(o.thorough, &mut v),
        "C13" => c13(o.thorough, &mut v),
        "C14" => {
            c14(o.thorough, &mut v);
            tate(o.thorough, &mut v)
        }
        "C15" => c15(o.thorough, &mut v),
        "C21" => c21(o.thorough, &mut v),
        _ => {}
    }
    v
}
fn main() {
    run::main(build)
}
