//! C17 prime-degree isogenies, C18 basis images, C19 composite isogenies.
#![allow(non_snake_case)]
use festa_rs::ecFESTA::*;
use festa_rs::fields::FpFESTAExt as PP;
use festa_rs::pairing::weil_pairing;
use festa_rs::supersingular::*;
use mc::ck;
use mc::ecref::*;
use mc::refm::*;
use mc::run::{self, sample, space, st, Opts, Space};
use num_bigint::BigUint;
use std::sync::{Arc, OnceLock};

type Fac = Vec<(u32, u32)>;
const TOY: bool = cfg!(festa_mc);

fn gmul(a: &Fq, p: &Pt, n: &BigUint) -> Pt {
    if TOY || n.bits() < 24 {
        pmul(a, p, n)
    } else {
        val(&Curve::new(a).mul_big(&pt(p), n))
    }
}
/// points that meet every special position: neutral, order 2, 4, generic, related to the kernel
fn probes(a: &Fq, extra: &[Pt], deep: bool) -> Vec<Pt> {
    let mut v: Vec<Pt> = vec![None, Some((Fq::ZERO, Fq::ZERO))];
    let (d, r) = (*a * *a - Fq::FOUR).sqrt();
    if r != 0 {
        let h = Fq::TWO.invert();
        v.push(Some(((d - *a) * h, Fq::ZERO)));
        v.push(Some(((-d - *a) * h, Fq::ZERO)));
    }
    for x in [Fq::ONE, Fq::MINUS_ONE] {
        let (y, r) = (x * x * x + *a * x * x + x).sqrt();
        if r != 0 && y.iszero() == 0 {
            v.push(Some((x, y)));
            v.push(Some((x, -y)));
        }
    }
    let l = lifts(a, if deep { 3 } else { 1 });
    v.extend(&l);
    if deep {
        v.push(padd(a, &l[0], &l[1]));
        v.push(padd(a, &l[0], &neg(&l[1])));
        v.push(padd(a, &l[0], &l[0]));
    }
    for e in extra {
        v.push(*e);
        v.push(padd(a, &l[0], e));
    }
    v
}
/// all subgroups of order l: 0..=l  (k < l: P + kQ; k = l: Q)
fn gen(a: &Fq, b: &(Pt, Pt), k: u64, l: u64) -> Pt {
    if k == l {
        b.1
    } else {
        padd(a, &b.0, &pmulu(a, &b.1, k))
    }
}

// ------------------------------------------------------------------------------------------------ C17
fn c17(t: bool, out: &mut Vec<Space>) {
    let (_, g) = group();
    let fam = Arc::new(if TOY { family(if t { 60 } else { 20 }) } else { family(if t { 4 } else { 2 }) });
    for (l, _) in g.iter().rev() {
        let l = *l as u64;
        if l == 2 || (!TOY && (l > if t { 70000 } else { 7000 } || (!t && l > 60 && l % 8 == 1))) {
            continue;
        }
        let nk = if TOY { l as usize + 1 } else if l <= 13 { l as usize + 1 } else if l < 300 { 3 } else if t { 2 } else { 1 };
        let nc = if l < 300 || t { fam.len() } else { 1 };
        let fam = fam.clone();
        let bases: Arc<Vec<OnceLock<(Pt, Pt)>>> = Arc::new((0..nc).map(|_| OnceLock::new()).collect());
        let s = space(&format!("degree-{}", l), nc * nk, &format!("{} curves x {} kernels of order {}: codomain, kernel, images on special and generic points, every generator and scaling tried", nc, nk, l), move |q| {
            let (ci, k) = (q as usize / nk, q as usize % nk);
            let a = &fam[ci];
            let c = Curve::new(a);
            let b = bases[ci].get_or_init(|| basis_pp(a, l as u32, 1));
            let kk = if nk as u64 == l + 1 { k as u64 } else { [0, l, l / 2][k % 3] };
            let kp = gen(a, b, kk, l);
            let v = Velu::new(a, &kp, l);
            let f = KummerLineIsogeny::new(&c, &rep(&kp, k + ci), l as usize);
            let cod = f.get_codomain();
            let a2 = cod.get_constant();
            ck!(eq(&cod.j_invariant(), &v.j), "degree {} curve {} kernel {}: wrong codomain (j-invariant)", l, ci, kk);
            ck!(eq(&jinv(&a2), &v.j), "degree {} curve {} kernel {}: wrong codomain constant", l, ci, kk);
            // same subgroup, other generators and scalings: same result
            let mut fs = vec![];
            let ms: Vec<u64> = if l <= 19 { (2..l).collect() } else if l < 300 { vec![2, l - 1] } else { vec![] };
            for m in ms {
                let km = pmulu(a, &kp, m);
                let f2 = KummerLineIsogeny::new(&c, &rep(&km, m as usize), l as usize);
                ck!(eq(&f2.get_codomain().get_constant(), &a2), "degree {} curve {} kernel {}: the codomain depends on the generator ({} times the first)", l, ci, kk, m);
                if fs.len() < 3 || m == l - 1 {
                    fs.push(f2);
                }
            }
            // images
            let mut extra = vec![kp, pmulu(a, &kp, 2)];
            extra.push(gen(a, b, if kk == l { 0 } else { l }, l));
            extra.push(neg(&kp));
            let mut ps = probes(a, &extra, l < 3000);
            if l < 300 {
                for m in 3..l.min(20) {
                    ps.push(pmulu(a, &kp, m));
                }
            }
            let mut pairs = vec![];
            let mut imgs = vec![];
            for (n, p) in ps.iter().enumerate() {
                let r = f.evaluate_isogeny(&rep(p, n + k));
                let w = val(&r);
                let e = if l < 200 { v.x(p) } else { v.xm(p) };
                ck!(w.is_some() == e.is_some(), "degree {} curve {} kernel {} point #{}: the image is {} the neutral element", l, ci, kk, n, if w.is_some() { "not" } else { "" });
                ck!(on(&a2, &w), "degree {} curve {} kernel {} point #{}: the image is not on the codomain", l, ci, kk, n);
                for f2 in fs.iter() {
                    let w2 = val(&f2.evaluate_isogeny(&rep(p, n + 1)));
                    ck!(same_pm(&w, &w2), "degree {} curve {} kernel {} point #{}: the image depends on the generator or scaling", l, ci, kk, n);
                }
                pairs.push((e, w.map(|x| x.0)));
                imgs.push(w);
            }
            if let Some((u, w)) = fit(&pairs) {
                for (n, (x, y)) in pairs.iter().enumerate() {
                    if let (Some(x), Some(y)) = (x, y) {
                        ck!(eq(&(u * *x + w), y), "degree {} curve {} kernel {} point #{}: the image differs from Velu's", l, ci, kk, n);
                    }
                }
                // additivity up to sign on the sums among the probes
                for (i, j) in [(2usize, 3usize), (5, 6)] {
                    if i < ps.len() && j < ps.len() {
                        let s = padd(a, &ps[i], &ps[j]);
                        let w = val(&f.evaluate_isogeny(&pt(&s)));
                        let (p1, p2) = (padd(&a2, &imgs[i], &imgs[j]), padd(&a2, &imgs[i], &neg(&imgs[j])));
                        ck!(same_pm(&w, &p1) || same_pm(&w, &p2), "degree {} curve {} kernel {}: images of #{} and #{} do not add up", l, ci, kk, i, j);
                    }
                }
            }
            st(&(key(a), l, kk));
            sample(|| format!("degree {} curve {} kernel {}: {} points", l, ci, kk, ps.len()));
            Ok(())
        }).chunk(1);
        out.push(if nk as u64 == l + 1 { s.complete() } else { s });
    }
}

// ------------------------------------------------------------------------------------------------ reference chains
/// Reference composite isogeny: steps in the given order of primes; points are followed on the Montgomery models
/// fixing (0,0) (Costello-Hisil x-map), y recovered by a square root (so up to sign).
pub struct Chain(pub Vec<Velu>, pub Fq);
impl Chain {
    pub fn new(a: &Fq, k: &Pt, f: &[(u32, u32)]) -> Chain {
        let mut left = order_of(f);
        let (mut a, mut k) = (*a, *k);
        let mut v = vec![];
        for (l, e) in f {
            for _ in 0..*e {
                left /= *l;
                let kl = gmul(&a, &k, &left);
                let w = Velu::new(&a, &kl, *l as u64);
                let x = w.xm(&k);
                a = w.mont;
                v.push(w);
                k = x.map(|x| (x, (x * x * x + a * x * x + x).sqrt().0));
            }
        }
        assert!(k.is_none(), "reference chain");
        Chain(v, a)
    }
    pub fn x(&self, p: &Pt) -> Option<Fq> {
        let mut p = *p;
        for w in &self.0 {
            let x = w.xm(&p)?;
            p = Some((x, (x * x * x + w.mont * x * x + x).sqrt().0));
        }
        p.map(|x| x.0)
    }
}
fn show(f: &[(u32, u32)]) -> String {
    let v: Vec<String> = f.iter().take(5).map(|(l, e)| format!("{}^{}", l, e)).collect();
    v.join("*") + if f.len() > 5 { "*.." } else { "" }
}
/// list of (u,v): cyclic subgroups <[u]P+[v]Q> of order D: (1,m) for all m and (d-multiples, 1)
fn subgroups(f: &[(u32, u32)], cap: usize) -> (Vec<(BigUint, BigUint)>, bool) {
    let d = order_of(f);
    if d.bits() > 24 || order_u64(f) as usize > cap {
        let mut v = vec![(one(), zero()), (zero(), one()), (one(), one()), (one(), &d - one()), (one(), &d / f[0].0), (big(f[0].0 as u64), one())];
        for (l, e) in f {
            v.push((one(), BigUint::from(*l)));
            v.push((BigUint::from(*l).pow(*e), one()));
            v.push((one(), &d / BigUint::from(*l).pow(*e)));
        }
        return (v, false);
    }
    let n = order_u64(f);
    let mut seen = std::collections::HashSet::new();
    let mut v = vec![];
    for u in 0..n {
        for w in 0..n {
            if u > 1 && n > 200 && (u % f[0].0 as u64 != 0) {
                continue;
            }
            if f.iter().any(|(l, _)| u % *l as u64 == 0 && w % *l as u64 == 0) {
                continue;
            }
            // canonical form per prime power
            let mut c = vec![];
            for (l, e) in f {
                let m = (*l as u64).pow(*e);
                let (a, b) = (u % m, w % m);
                if a % *l as u64 != 0 {
                    let i = inv_mod(&big(a), &big(m)).unwrap();
                    c.push((0u8, (&i * b) % m));
                } else {
                    let i = inv_mod(&big(b), &big(m)).unwrap();
                    c.push((1u8, (&i * a) % m));
                }
            }
            if seen.insert(c) {
                v.push((big(u), big(w)));
            }
        }
    }
    let total: u64 = f.iter().map(|(l, e)| (*l as u64).pow(*e - 1) * (*l as u64 + 1)).product();
    let all = v.len() as u64 == total;
    (v, all)
}

// ------------------------------------------------------------------------------------------------ C19
fn c19(t: bool, out: &mut Vec<Space>) {
    let (_, g) = group();
    let odd: Fac = g[1..].to_vec();
    let mut ds: Vec<Fac> = vec![];
    if TOY {
        for (l, e) in &odd {
            for k in 1..=*e {
                ds.push(vec![(*l, k)]);
            }
        }
        for i in 0..odd.len() {
            for j in 0..odd.len() {
                if i != j {
                    ds.push(vec![(odd[i].0, 1), (odd[j].0, 1)]);
                    if odd[i].1 > 1 {
                        ds.push(vec![(odd[i].0, 2), (odd[j].0, 1)]);
                        ds.push(vec![(odd[j].0, 1), (odd[i].0, odd[i].1.min(3))]);
                    }
                }
            }
        }
        ds.push(vec![(3, 1), (5, 1), (7, 1)].into_iter().filter(|(l, _)| odd.iter().any(|o| o.0 == *l)).collect());
        ds.push(odd.iter().rev().take(4).map(|x| (x.0, 1)).collect());
        ds.push(odd.clone());
        ds.push(odd.iter().rev().copied().collect());
    } else {
        for f in [vec![(3, 2)], vec![(3, 1), (5, 1)], vec![(5, 2), (3, 1)], vec![(7, 3)], vec![(3, 6)], vec![(11, 2), (13, 1), (3, 2)]] {
            ds.push(f);
        }
        ds.push(vec![(59, 1), (71, 3)]);
    }
    for f in [&PP::D1_FACTORED[..], &PP::D2_FACTORED[..], &PP::DA1_FACTORED[..], &PP::DA2_FACTORED[..]] {
        if TOY || t || f.iter().all(|x| x.0 < 4000) {
            ds.push(f.to_vec());
        }
    }
    if !TOY {
        ds.reverse();
    }
    let fam = Arc::new(family(if TOY { if t { 40 } else { 12 } } else { 3 }));
    for (n, f) in ds.into_iter().enumerate() {
        let d = order_of(&f);
        let (mut subs, all) = subgroups(&f, if TOY { if t { 3000 } else { 300 } } else if t { 64 } else { 16 });
        let heavy = !TOY && f.iter().map(|x| x.0).max().unwrap() > 100;
        if !TOY {
            subs.truncate(if heavy { if t { 6 } else { 2 } } else if t { 60 } else { 12 });
        }
        let all = all && (TOY || subs.len() as u64 == f.iter().map(|(l, e)| (*l as u64).pow(*e - 1) * (*l as u64 + 1)).product::<u64>());
        let ns = subs.len();
        let nc = if TOY { if ns < 40 { fam.len() } else if t { 6 } else { 2 } } else { 1 };
        let fam = fam.clone();
        let rf: Fac = f.iter().rev().copied().collect();
        let bases: Arc<Vec<OnceLock<(Pt, Pt)>>> = Arc::new((0..nc).map(|_| OnceLock::new()).collect());
        let f2 = f.clone();
        let s = space(&format!("composite/{}-{}", n, show(&f)), nc * ns, &format!("{} curves x {} cyclic kernels of order {}: chain length, codomain against Velu steps in reversed prime order, kernel, images", nc, ns, show(&f)), move |q| {
            let (ci, si) = (q as usize / ns, q as usize % ns);
            let a = &fam[(ci + n) % fam.len()];
            let c = Curve::new(a);
            let b = bases[ci].get_or_init(|| basis(a, &f2));
            let (u, w) = &subs[si];
            let k = padd(a, &gmul(a, &b.0, u), &gmul(a, &b.1, w));
            let chain = factored_kummer_isogeny(&c, &rep(&k, si), &f2);
            let steps: u32 = f2.iter().map(|x| x.1).sum();
            ck!(chain.len() as u32 == steps, "D={} kernel ({},{}): {} steps instead of {}", show(&f2), u, w, chain.len(), steps);
            let rc = Chain::new(a, &k, &rf);
            let last = chain.last().unwrap().get_codomain();
            ck!(eq(&last.j_invariant(), &jinv(&rc.1)), "D={} kernel ({},{}): wrong codomain", show(&f2), u, w);
            let a2 = last.get_constant();
            // every step starts on the previous codomain and has the announced prime degree: follow the reference step by step
            {
                let fc = Chain::new(a, &k, &f2);
                for (i, s) in chain.iter().enumerate() {
                    ck!(eq(&s.get_codomain().j_invariant(), &jinv(&fc.0[i].mont)), "D={} kernel ({},{}): step {} ends on a wrong curve", show(&f2), u, w, i);
                }
            }
            // probes: special points, kernel multiples, torsion outside the kernel
            let mut extra = vec![k];
            for (l, _) in f2.iter().take(if heavy { 2 } else { 6 }) {
                extra.push(gmul(a, &k, &BigUint::from(*l)));
                extra.push(gmul(a, &k, &(&d / *l)));
                extra.push(gmul(a, &b.0, &(&d / *l)));
                extra.push(gmul(a, &b.1, &(&d / *l)));
            }
            extra.push(b.0);
            extra.push(b.1);
            let ps = probes(a, &extra, false);
            let mut pairs = vec![];
            for (i, p) in ps.iter().enumerate() {
                if heavy && i % 3 != 0 && i > 4 {
                    continue;
                }
                let (ec, r) = evaluate_isogeny_chain(&c, &rep(p, i + si), &chain);
                ck!(eq(&ec.get_constant(), &a2), "D={} kernel ({},{}): evaluation announces another codomain", show(&f2), u, w);
                let v = val(&r);
                let e = rc.x(p);
                ck!(v.is_some() == e.is_some(), "D={} kernel ({},{}) point #{}: image {} neutral", show(&f2), u, w, i, if v.is_some() { "is not" } else { "is" });
                ck!(on(&a2, &v), "D={} kernel ({},{}) point #{}: image off the codomain", show(&f2), u, w, i);
                pairs.push((e, v.map(|x| x.0)));
            }
            if let Some((uu, vv)) = fit(&pairs) {
                for (i, (x, y)) in pairs.iter().enumerate() {
                    if let (Some(x), Some(y)) = (x, y) {
                        ck!(eq(&(uu * *x + vv), y), "D={} kernel ({},{}) point #{}: wrong image", show(&f2), u, w, i);
                    }
                }
            }
            // built from a scalar
            if u == &one() {
                let (ch, e) = isogeny_from_scalar_x_only(&c, &f2, w, Some((rep(&b.0, si), rep(&b.1, ci))));
                ck!(ch.len() as u32 == steps && eq(&e.get_constant(), &a2), "D={} m={}: the isogeny built from the scalar and the supplied basis differs", show(&f2), w);
                ck!(val(&evaluate_isogeny_chain(&c, &pt(&k), &ch).1).is_none(), "D={} m={}: wrong kernel from the supplied basis", show(&f2), w);
                if ns < 60 || si % 7 == 0 {
                    let ev = group().1[0].1 as usize;
                    let (p, r) = torsion_basis(&c, &f2, ev);
                    let kk = c.add(&p, &c.mul_big(&r, w));
                    let (ch, e) = isogeny_from_scalar_x_only(&c, &f2, w, None);
                    ck!(val(&evaluate_isogeny_chain(&c, &kk, &ch).1).is_none(), "D={} m={}: wrong kernel from the canonical basis", show(&f2), w);
                    let rc = Chain::new(a, &val(&kk), &rf);
                    ck!(eq(&e.j_invariant(), &jinv(&rc.1)), "D={} m={}: wrong codomain from the canonical basis", show(&f2), w);
                }
            }
            st(&(key(a), show(&f2), u, w));
            sample(|| format!("D={} curve {} kernel ({},{}) codomain and {} images", show(&f2), ci, u, w, pairs.len()));
            Ok(())
        }).chunk(1);
        out.push(if all { s.complete() } else { s });
    }
    // empty chain, random chains
    {
        let fam = fam.clone();
        let mut fs: Vec<Fac> = vec![vec![(3, 1)], vec![(3, 2)], vec![(5, 1), (3, 1)], PP::DA1_FACTORED.to_vec(), PP::DA2_FACTORED.to_vec()];
        if !TOY && !t {
            fs.truncate(3);
        }
        let seeds = if TOY { if t { 400 } else { 60 } } else { 2 };
        let nf = fs.len();
        out.push(space("random-chain", nf * seeds, "degrees x scripted random sources x 1..3 steps: a chain of the announced degree (basis images have the degree-th power pairing), starting on the given curve", move |q| {
            let (fi, s) = (q as usize % nf, q as usize / nf);
            let f = &fs[fi];
            let a = &fam[s % fam.len()];
            let c = Curve::new(a);
            let steps = 1 + s % 3;
            rand::mc::set(&[], s as u64 * 77 + fi as u64);
            let (ch, cod) = random_isogeny_x_only(&c, f, steps);
            let per: u32 = f.iter().map(|x| x.1).sum();
            ck!(ch.len() == steps * per as usize, "D={}: {} steps in {} random isogenies", show(f), ch.len(), steps);
            ck!(eq(&ch.last().unwrap().get_codomain().get_constant(), &cod.get_constant()), "D={}: announced codomain is not the end of the chain", show(f));
            let deg = order_of(f).pow(steps as u32);
            let n = big(16);
            let (p, r) = basis_pp(a, 2, 4);
            let (e, ip) = evaluate_isogeny_chain(&c, &pt(&p), &ch);
            let (_, ir) = evaluate_isogeny_chain(&c, &pt(&r), &ch);
            ck!(eq(&e.get_constant(), &cod.get_constant()) && on(&cod.get_constant(), &val(&ip)) && on(&cod.get_constant(), &val(&ir)), "D={}: random chain evaluates off its codomain", show(f));
            let z = weil_pairing(&c, &pt(&p), &pt(&r), &n).pow_big(&deg);
            let w = weil_pairing(&cod, &ip, &ir, &n);
            ck!(eq(&z, &w) || eq(&z.invert(), &w), "D={} x {}: the random chain does not have degree D^steps", show(f), steps);
            // cyclic kernels of order exactly D: no D-torsion point of full order dies unless it is the kernel; count small ones
            let (l, ee) = f[0];
            let (bp, bq) = basis_pp(a, l, 1);
            if l < 30 {
                let mut dead = 0;
                for k in 0..=l as u64 {
                    let g = gen(a, &bp_q(bp, bq), k, l as u64);
                    let mut p = pt(&g);
                    for s in ch.iter().take(per as usize) {
                        p = s.evaluate_isogeny(&p);
                    }
                    if p.isinfinity() != 0 {
                        dead += 1;
                    }
                }
                ck!(dead == 1, "D={}: the first random isogeny kills {} subgroups of order {} (exponent {})", show(f), dead, l, ee);
            }
            // empty chain
            let (e, ip) = evaluate_isogeny_chain(&c, &pt(&p), &vec![]);
            ck!(eq(&e.get_constant(), a) && same(&val(&ip), &p), "the empty chain is not the identity");
            st(&(fi, s));
            Ok(())
        }).chunk(1));
    }
}
fn bp_q(p: Pt, q: Pt) -> (Pt, Pt) {
    (p, q)
}

// ------------------------------------------------------------------------------------------------ C18
fn c18(t: bool, out: &mut Vec<Space>) {
    let (_, g) = group();
    let odd: Fac = g[1..].to_vec();
    let ve = g[0].1;
    let degs: Vec<Fac> = if TOY {
        let mut v = vec![vec![(3, 1)], vec![(3, 2)], vec![(3, 3)], PP::D1_FACTORED.to_vec(), PP::D2_FACTORED.to_vec(), PP::DA1_FACTORED.to_vec(), PP::DA2_FACTORED.to_vec()];
        for (l, _) in &odd {
            if *l > 3 {
                v.push(vec![(*l, 1)]);
            }
        }
        v
    } else {
        let mut v: Vec<Fac> = vec![PP::D1_FACTORED.to_vec(), PP::D2_FACTORED.to_vec()];
        if t {
            v.push(PP::DA1_FACTORED.to_vec());
            v.push(PP::DA2_FACTORED.to_vec());
        }
        v.extend([vec![(3, 2)], vec![(5, 1), (7, 1)], vec![(3, 1)]]);
        v
    };
    let mut tors: Vec<Fac> = vec![vec![(2, 1)], vec![(2, 2)], vec![(2, 3)], vec![(2, ve)], vec![(3, 1)], vec![(3, 2)], vec![(5, 1)], vec![(7, 1)], vec![(13, 1)]];
    let mut d1l = PP::D1_FACTORED.to_vec();
    d1l.insert(0, (2, PP::L_POWER));
    let mut d2l = PP::D2_FACTORED.to_vec();
    d2l.push((2, PP::L_POWER));
    tors.push(d1l);
    tors.push(d2l);
    tors.retain(|f| f.iter().all(|(l, _)| g.iter().any(|x| x.0 == *l)));
    let fam = Arc::new(family(if TOY { if t { 24 } else { 8 } } else { 2 }));
    // the chain of no isogenies is the identity
    {
        let mut tors = tors.clone();
        if !TOY && !t {
            tors.retain(|f| order_of(f).bits() < 9);
        }
        let fam = fam.clone();
        out.push(space("empty-chain", tors.len() * if TOY { 4 } else { 1 }, "the empty chain: every point and basis comes back unchanged (up to the common sign)", move |i| {
            let a = &fam[i as usize / tors.len()];
            let tf = &tors[i as usize % tors.len()];
            let c = Curve::new(a);
            let (p, q) = basis(a, tf);
            for (k, x) in [None, p, q, padd(a, &p, &q)].iter().enumerate() {
                let (e, y) = evaluate_isogeny_chain(&c, &rep(x, k), &vec![]);
                ck!(eq(&e.get_constant(), a) && same_pm(&val(&y), x), "torsion {}: the empty chain moves a point", show(tf));
            }
            let (e, (x, y)) = evaluate_isogeny_chain_for_basis(&c, &(rep(&p, 1), rep(&q, 2)), &vec![], &order_of(tf), &one());
            let (x, y) = (val(&x), val(&y));
            ck!(eq(&e.get_constant(), a) && ((same(&x, &p) && same(&y, &q)) || (same(&x, &neg(&p)) && same(&y, &neg(&q)))), "torsion {}: the empty chain changes a basis", show(tf));
            st(&(i, "empty"));
            Ok(())
        }).chunk(1));
    }
    for (di, f) in degs.into_iter().enumerate() {
        for (ti, tf) in tors.iter().enumerate() {
            if tf.iter().any(|(l, _)| f.iter().any(|x| x.0 == *l)) {
                continue;
            }
            let big_deg = !TOY && f.len() > 6;
            if big_deg && !t && !(tf.len() == 1 && (if di == 0 { tf[0].1 == ve } else { tf[0] == (2, 2) })) {
                continue;
            }
            let deg = order_of(&f);
            let n = order_of(tf);
            let (mut subs, _) = subgroups(&f, if TOY { 400 } else { 20 });
            let cap = if TOY { if t { 60 } else { 8 } } else if big_deg { if t { 3 } else { 1 } } else if t { 8 } else if n.bits() > 600 { 2 } else { 3 };
            if subs.len() > cap {
                let k = subs.len() / cap;
                subs = subs.into_iter().step_by(k).take(cap).collect();
            }
            let ns = subs.len();
            let nc = if TOY { fam.len() } else { 1 };
            let fam = fam.clone();
            let (tf, f) = (tf.clone(), f.clone());
            let kb: Arc<Vec<OnceLock<((Pt, Pt), (Pt, Pt))>>> = Arc::new((0..nc).map(|_| OnceLock::new()).collect());
            out.push(space(&format!("basis/{}-{}/torsion-{}", di, show(&f), show(&tf)), nc * ns, &format!("{} curves x {} kernels of order {}, torsion order {}: 8 bases each (signs, swaps, shears), common sign, degree-th power pairing, sum point", nc, ns, show(&f), show(&tf)), move |q| {
                let (ci, si) = (q as usize / ns, q as usize % ns);
                let a = &fam[(ci + di + ti) % fam.len()];
                let c = Curve::new(a);
                let (b, tb) = kb[ci].get_or_init(|| (basis(a, &f), basis(a, &tf)));
                let (u, w) = &subs[si];
                let w1 = w;
                let k = padd(a, &gmul(a, &b.0, u), &gmul(a, &b.1, w));
                let chain = factored_kummer_isogeny(&c, &pt(&k), &f);
                let rc = Chain::new(a, &k, &f);
                let cod = chain.last().unwrap().get_codomain();
                let a2 = cod.get_constant();
                ck!(eq(&jinv(&a2), &jinv(&rc.1)), "degree {}: wrong codomain", show(&f));
                let (p, r) = *tb;
                let two = padd(a, &r, &r);
                let bases = [(p, r), (neg(&p), r), (r, p), (padd(a, &p, &r), r), (p, padd(a, &neg(&p), &r)), (padd(a, &p, &two), neg(&r)), (r, neg(&p)), (padd(a, &p, &r), padd(a, &p, &two))];
                // both sides in the same affine chart: fix it with generic points
                let pairs: Vec<(Option<Fq>, Option<Fq>)> = lifts(a, 2).iter().map(|p| (rc.x(p), val(&evaluate_isogeny_chain(&c, &pt(p), &chain).1).map(|v| v.0))).collect();
                let (uu, vv) = fit(&pairs).expect("generic points");
                let mut memo: Vec<(Pt, Option<Fq>)> = vec![];
                for (bi, (x, y)) in bases.iter().enumerate() {
                    if !TOY && !t && !big_deg && n.bits() > 600 && bi % 3 != 1 {
                        continue;
                    }
                    let (e, (ix, iy)) = evaluate_isogeny_chain_for_basis(&c, &(rep(x, bi + si), rep(y, bi)), &chain, &n, &deg);
                    ck!(eq(&e.get_constant(), &a2), "degree {} torsion {} basis #{}: wrong codomain announced", show(&f), show(&tf), bi);
                    let (vx, vy) = (val(&ix), val(&iy));
                    ck!(on(&a2, &vx) && on(&a2, &vy), "degree {} torsion {} basis #{}: image off the codomain", show(&f), show(&tf), bi);
                    let s = padd(a, x, y);
                    let d = padd(a, &s, y);
                    let zs = [*x, *y, s, d];
                    let is = padd(&a2, &vx, &vy);
                    let id = padd(&a2, &is, &vy);
                    let ws = [vx, vy, is, id];
                    for (m, (z, w)) in zs.iter().zip(ws.iter()).enumerate() {
                        let e = match memo.iter().find(|x| same_pm(&x.0, z)) {
                            Some(x) => x.1,
                            None => {
                                let e = rc.x(z);
                                memo.push((*z, e));
                                e
                            }
                        };
                        ck!(e.is_some() == w.is_some(), "degree {} torsion {} basis #{}: image of combination {} wrong", show(&f), show(&tf), bi, m);
                        if let (Some(e), Some(w)) = (e, w) {
                            ck!(eq(&(uu * e + vv), &w.0), "degree {} kernel ({},{}) torsion {} basis #{}: {}", show(&f), u, w1, show(&tf), bi, ["first image wrong", "second image wrong", "the two images carry different signs (sum)", "the two images carry different signs (P+2Q)"][m]);
                        }
                    }
                    let z = weil_pairing(&c, &pt(x), &pt(y), &n).pow_big(&deg);
                    ck!(eq(&z, &weil_pairing(&cod, &ix, &iy, &n)), "degree {} torsion {} basis #{}: pairing of the images is not the degree-th power", show(&f), show(&tf), bi);
                }
                st(&(key(a), show(&f), show(&tf), u, w));
                sample(|| format!("degree {} torsion {} curve {} kernel ({},{}): {} bases", show(&f), show(&tf), ci, u, w, bases.len()));
                Ok(())
            }).chunk(1));
        }
    }
}

fn build(o: &Opts) -> Vec<Space> {
    let mut v = vec![];
    match o.prop.as_str() {
        "C17" => c17(o.thorough, &mut v),
        "C18" => c18(o.thorough, &mut v),
        "C19" => c19(o.thorough, &mut v),
        _ => {}
    }
    v
}
fn main() {
    run::main(build)
}
