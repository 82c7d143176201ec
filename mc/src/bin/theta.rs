//! C20 isogenies between products of two curves, on Kani diagrams whose every map is known from Velu's formulas.
#![allow(non_snake_case)]
use festa_rs::fields::FpFESTAExt as PP;
use festa_rs::thetaFESTA::*;
use mc::ck;
use mc::ecref::*;
use mc::refm::*;
use mc::run::{self, sample, space, st, Opts, Space};
use num_bigint::BigUint;
use std::sync::{Arc, OnceLock};

type Fac = Vec<(u32, u32)>;
const TOY: bool = cfg!(festa_mc);

/// phi1: E -> E1 of degree m1^2 s1, phi2: E -> E2 of degree m2^2 s2, m1^2 s1 + m2^2 s2 = 2^n, f: E -> F the push-out.
/// K = {(phi1 P, phi2 P) : P in E[2^n]};  (E1 x E2)/K = E x F and (phi1 U, phi2 V) -> (aU + bV, f(V - U)).
struct Dia {
    e: Fq,
    n: usize,
    a: BigUint,
    b: BigUint,
    f1: RMap,
    f2: RMap,
    f: RMap,
    p: Pt,
    q: Pt,
}
#[derive(Clone, Debug)]
struct Split {
    n: usize,
    f1: Fac,
    f2: Fac,
    m1: BigUint,
    m2: BigUint,
}
fn dia(e: &Fq, s: &Split, k1: &Pt, k2: &Pt) -> Dia {
    let f1 = RMap::new(e, k1, &s.f1, s.m1.clone());
    let f2 = RMap::new(e, k2, &s.f2, s.m2.clone());
    let g = RMap::new(&f1.a, &f1.bare(k2), &s.f2, 1u32);
    let mut v = f1.v.clone();
    v.extend(g.v.clone());
    let f = RMap { v, a: g.a, m: &s.m1 * &s.m2 };
    let (p, q) = basis_pp(e, 2, s.n as u32 + 2);
    let a = order_of(&s.f1) * &s.m1 * &s.m1;
    let b = order_of(&s.f2) * &s.m2 * &s.m2;
    assert!(&a + &b == one() << s.n);
    Dia { e: *e, n: s.n, a, b, f1, f2, f, p, q }
}
fn fac_of(mut x: u64, g: &[(u32, u32)]) -> Option<Fac> {
    let mut f = vec![];
    for (l, e) in g {
        let mut k = 0;
        while k < *e && x % *l as u64 == 0 {
            x /= *l as u64;
            k += 1;
        }
        if k > 0 {
            f.push((*l, k));
        }
    }
    if x == 1 {
        Some(f)
    } else {
        None
    }
}
/// all splittings 2^n = m1^2 s1 + m2^2 s2 with coprime summands, s1, s2 dividing the odd part of p + 1, m <= mm
fn splits(n: usize, mm: u64, cap: usize) -> Vec<Split> {
    let (_, g) = group();
    let odd: Fac = g[1..].to_vec();
    let mut divs: Vec<u64> = vec![1];
    for (l, e) in &odd {
        let old = divs.clone();
        let mut q = 1u64;
        for _ in 0..*e {
            q = match q.checked_mul(*l as u64) {
                Some(q) if q < 1 << n => q,
                _ => break,
            };
            for d in &old {
                if let Some(x) = d.checked_mul(q) {
                    if x < 1 << n {
                        divs.push(x);
                    }
                }
            }
        }
    }
    divs.sort();
    let mut out = vec![];
    let tot = 1u64 << n;
    'o: for m2 in (1..=mm).step_by(2) {
        for m1 in (1..=m2).step_by(2) {
            for s1 in &divs {
                let a = match (m1 * m1).checked_mul(*s1) {
                    Some(a) if a < tot => a,
                    _ => break,
                };
                let b = tot - a;
                for (u, v) in [(m1, m2), (m2, m1)] {
                    if u != m1 || v != m2 {
                        continue;
                    }
                    if gcd(a, b) == 1 && b % (v * v) == 0 {
                        if let Some(f2) = fac_of(b / (v * v), &odd) {
                            out.push(Split { n, f1: fac_of(*s1, &odd).unwrap(), f2, m1: big(m1), m2: big(m2) });
                            if out.len() >= cap {
                                break 'o;
                            }
                        }
                    }
                }
            }
        }
    }
    out
}
/// every strategy for a chain of n steps: s[0] = k doublings at the root, then a strategy for n-k steps, then for k
fn strategies(n: usize) -> Vec<Vec<usize>> {
    if n == 1 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for k in 1..n {
        for x in strategies(n - k) {
            for y in strategies(k) {
                let mut s = vec![k];
                s.extend(&x);
                s.extend(&y);
                out.push(s);
            }
        }
    }
    out
}
fn shape(n: usize, pick: &dyn Fn(usize) -> usize) -> Vec<usize> {
    if n == 1 {
        return vec![];
    }
    let k = pick(n).clamp(1, n - 1);
    let mut s = vec![k];
    s.extend(shape(n - k, pick));
    s.extend(shape(k, pick));
    s
}
/// a few shapes of any length: one-sided both ways, balanced, skewed, alternating, (the published one)
fn shapes(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![shape(n, &|n| n / 2), shape(n, &|n| n - 1), shape(n, &|_| 1), shape(n, &|n| n * 2 / 3), shape(n, &|n| n / 3), shape(n, &|n| if n % 2 == 0 { 1 } else { n - 1 }), shape(n, &|n| if n > 4 { 3 } else { 2 })];
    if n == PP::THETA_ISOGENY_LENGTH as usize {
        v.push(PP::THETA_STRATEGY.to_vec());
    }
    v
}
fn lin(a: &Fq, x: u64, p: &Pt, y: u64, q: &Pt) -> Pt {
    padd(a, &pmulu(a, p, x), &pmulu(a, q, y))
}
/// invertible 2x2 matrices modulo m
fn gl2(m: u64) -> Vec<[u64; 4]> {
    let mut v = vec![];
    for i in 0..m * m * m * m {
        let x = [i / (m * m * m), i / (m * m) % m, i / m % m, i % m];
        if (x[0] * x[3] + x[1] * x[2]) % 2 == 1 {
            v.push(x);
        }
    }
    v
}
fn tors2(a: &Fq) -> Vec<Pt> {
    let d = (*a * *a - Fq::FOUR).sqrt().0;
    let h = Fq::TWO.invert();
    vec![Some((Fq::ZERO, Fq::ZERO)), Some(((d - *a) * h, Fq::ZERO)), Some(((-d - *a) * h, Fq::ZERO))]
}
/// evaluated pairs (U, V): what, U, V
fn probes(d: &Dia, deep: bool) -> Vec<(String, Pt, Pt)> {
    let e = &d.e;
    let g = lifts(e, 4);
    let o: Pt = None;
    let mut v: Vec<(String, Pt, Pt)> = vec![];
    let mut p = |s: &str, u: &Pt, w: &Pt| v.push((s.to_string(), *u, *w));
    p("generic", &g[0], &g[1]);
    p("generic, swapped", &g[1], &g[0]);
    p("full 2-power order and generic", &padd(e, &d.p, &g[2]), &g[3]);
    p("full 2-power order and generic'", &padd(e, &d.q, &g[3]), &g[2]);
    p("sum of the first two", &padd(e, &g[0], &g[1]), &padd(e, &g[0], &g[1]));
    p("equal", &g[0], &g[0]);
    p("opposite", &g[0], &neg(&g[0]));
    p("(P,0)", &d.p, &o);
    p("(0,Q)", &o, &d.q);
    if deep {
        let k4 = |x: &Pt| pmulu(e, x, 4);
        p("neutral", &o, &o);
        p("(0,G)", &o, &g[0]);
        p("(G,0)", &g[0], &o);
        p("kernel P", &k4(&d.p), &k4(&d.p));
        p("kernel Q", &k4(&d.q), &k4(&d.q));
        p("kernel + generic", &padd(e, &g[0], &k4(&d.q)), &padd(e, &g[1], &k4(&d.q)));
        p("(4P,0)", &k4(&d.p), &o);
        p("(4P,4Q)", &k4(&d.p), &k4(&d.q));
        p("(P,P)", &d.p, &d.p);
        p("(P,Q)", &d.p, &d.q);
        p("(P+Q,Q)", &padd(e, &d.p, &d.q), &d.q);
        for (i, t) in tors2(e).iter().enumerate() {
            p(&format!("(T{},0)", i), t, &o);
            p(&format!("(0,T{})", i), &o, t);
            p(&format!("(T{},T{})", i, (i + 1) % 3), t, &tors2(e)[(i + 1) % 3]);
            p(&format!("(T{},T{})", i, i), t, t);
            p(&format!("(T{},G)", i), t, &g[0]);
            p(&format!("(G,T{})", i), &g[0], t);
            p(&format!("(G+T{},G)", i), &padd(e, &g[0], t), &g[0]);
        }
        let q4 = |x: &Pt| mulr(e, x, &(one() << d.n));
        for (i, t) in [q4(&d.p), q4(&d.q), padd(e, &q4(&d.p), &q4(&d.q))].iter().enumerate() {
            p(&format!("(F{},0)", i), t, &o);
            p(&format!("(0,F{})", i), &o, t);
            p(&format!("(F{},F{})", i, i), t, t);
            p(&format!("(F{},-F{})", i, i), t, &neg(t));
            p(&format!("(F{},G)", i), t, &g[1]);
            p(&format!("(G,F{})", i), &g[1], t);
        }
    }
    v
}
type Out = (Fq, Fq, Vec<(Pt, Pt)>);
fn run_one(d: &Dia, m: &[u64; 4], strat: Option<&[usize]>, ps: &[(String, Pt, Pt)], k: usize) -> Out {
    run_lift(d, m, &[0, 0, 0], strat, ps, k)
}
/// the same kernel, below other isotropic points of order 2^(n+2): P + 2^n (h0 P1 + h1 Q1), Q + 2^n (h2 P1 - h0 Q1)
fn run_lift(d: &Dia, m: &[u64; 4], h: &[u64; 3], strat: Option<&[usize]>, ps: &[(String, Pt, Pt)], k: usize) -> Out {
    let e = &d.e;
    let (x, y) = (lin(e, m[0], &d.p, m[1], &d.q), lin(e, m[2], &d.p, m[3], &d.q));
    let ee = EllipticProduct::new(&Curve::new(&d.f1.a), &Curve::new(&d.f2.a));
    let cp = |u: &Pt, v: &Pt, k: usize| CouplePoint::new(&rep(&d.f1.map(u), k), &rep(&d.f2.map(v), k + 1));
    let q4 = |x: &Pt| mulr(e, x, &(one() << d.n));
    let kp = |x: &Pt, c: &[u64], k: usize| -> CouplePoint {
        if *h == [0, 0, 0] {
            return cp(x, x, k);
        }
        let z = lin(e, c[0] * h[0] + c[1] * h[2], &q4(&d.p), c[0] * h[1] + c[1] * (4 - h[0]), &q4(&d.q));
        cp(&padd(e, x, &z), x, k)
    };
    let im: Vec<CouplePoint> = ps.iter().enumerate().map(|(i, (_, u, v))| cp(u, v, i + k)).collect();
    let (r, w) = match strat {
        Some(s) => product_isogeny(&ee, &kp(&x, &m[..2], k), &kp(&y, &m[2..], k + 1), &im, d.n, s),
        None => product_isogeny_no_strategy(&ee, &kp(&x, &m[..2], k), &kp(&y, &m[2..], k + 1), &im, d.n),
    };
    let (e3, e4) = r.curves();
    (e3.get_constant(), e4.get_constant(), w.iter().map(|c| { let (p, q) = c.points(); (val(&p), val(&q)) }).collect())
}
fn xs(v: &[Pt]) -> Vec<Option<Fq>> {
    v.iter().map(|p| p.map(|x| x.0)).collect()
}
/// does the computed map agree with the diagram?
fn check(d: &Dia, o: &Out, ps: &[(String, Pt, Pt)], tag: &str) -> Result<(), String> {
    let (a3, a4, w) = o;
    let (je, jf) = (jinv(&d.e), jinv(&d.f.a));
    let (j3, j4) = (jinv(a3), jinv(a4));
    ck!((eq(&je, &j3) && eq(&jf, &j4)) || (eq(&je, &j4) && eq(&jf, &j3)), "{}: wrong codomain product", tag);
    ck!(w.len() == ps.len(), "{}: {} images for {} points", tag, w.len(), ps.len());
    let first: Vec<Option<Fq>> = xs(&ps.iter().map(|(_, u, v)| padd(&d.e, &mulr(&d.e, u, &d.a), &mulr(&d.e, v, &d.b))).collect::<Vec<_>>());
    let second: Vec<Option<Fq>> = xs(&ps.iter().map(|(_, u, v)| d.f.map(&padd(&d.e, v, &neg(u)))).collect::<Vec<_>>());
    let w3: Vec<Pt> = w.iter().map(|x| x.0).collect();
    let w4: Vec<Pt> = w.iter().map(|x| x.1).collect();
    for (i, (n, _, _)) in ps.iter().enumerate() {
        ck!(on(a3, &w3[i]) && on(a4, &w4[i]), "{}: image of '{}' is off the codomain", tag, n);
    }
    let (x3, x4) = if eq(&je, &j3) { (xs(&w3), xs(&w4)) } else { (xs(&w4), xs(&w3)) };
    for (what, e, g) in [("first", &first, &x3), ("second", &second, &x4)] {
        let pairs: Vec<(Option<Fq>, Option<Fq>)> = e.iter().cloned().zip(g.iter().cloned()).collect();
        let (u, v) = match fit(&pairs) {
            Some(x) => x,
            None => return Err(format!("{}: all images coincide", tag)),
        };
        for (i, (e, g)) in pairs.iter().enumerate() {
            let ok = match (e, g) {
                (None, None) => true,
                (Some(e), Some(g)) => eq(&(u * *e + v), g),
                _ => false,
            };
            ck!(ok, "{}: the {} component of the image of '{}' is wrong", tag, what, ps[i].0);
        }
        // the change of model is an isomorphism of curves: it maps the three 2-torsion points to 2-torsion points
        let (ae, ag) = if what == "first" { (d.e, if eq(&je, &j3) { *a3 } else { *a4 }) } else { (d.f.a, if eq(&je, &j3) { *a4 } else { *a3 }) };
        for t in tors2(&ae) {
            let x = u * t.unwrap().0 + v;
            ck!((x * x * x + ag * x * x + x).iszero() != 0, "{}: {} component: not an isomorphism of the expected curve", tag, what);
        }
    }
    Ok(())
}
/// curves away from E0, reached by long walks, where no accidental small endomorphism exists
fn generic(n: usize) -> Vec<Fq> {
    let mut a = six();
    let mut v = vec![];
    let (_, g) = group();
    let l = g[1..].iter().rev().find(|x| x.0 < 60).unwrap().0;
    let mut i = 0;
    while v.len() < n {
        i += 1;
        let l = if i % 3 == 0 { 3 } else { l };
        let (p, q) = basis_pp(&a, l, 1);
        let k = lin(&a, 1, &p, i % l as u64, &q);
        a = Velu::new(&a, &k, l as u64).mont;
        if i >= if TOY { 14 } else { 40 } && i % 2 == 0 {
            v.push(if i % 4 == 0 { a } else { class(&a)[(i as usize / 4) % 6] });
        }
    }
    v
}
/// the j-th cyclic subgroup of order f (mixed radix over prime powers); total number
fn nsub(f: &[(u32, u32)]) -> u64 {
    f.iter().fold(1u64, |n, (l, e)| n.saturating_mul((*l as u64).pow(*e - 1) * (*l as u64 + 1)))
}
fn sub(a: &Fq, bs: &[(Pt, Pt)], f: &[(u32, u32)], j: u64) -> Pt {
    let mut r = None;
    let mut j = j;
    for ((l, e), (p, q)) in f.iter().zip(bs) {
        let (l, pe) = (*l as u64, (*l as u64).pow(*e));
        let n = pe / l * (l + 1);
        let k = j % n;
        j /= n;
        let x = if k < pe { lin(a, 1, p, k, q) } else { lin(a, (k - pe) * l, p, 1, q) };
        r = padd(a, &r, &x);
    }
    r
}

struct Case {
    s: Split,
    nc: usize,
    nk: usize,
    bases: Vec<OnceLock<(Vec<(Pt, Pt)>, Vec<(Pt, Pt)>)>>,
    fam: Arc<Vec<Fq>>,
    off: usize,
}
impl Case {
    fn new(s: &Split, nc: usize, lim: u64, fam: &Arc<Vec<Fq>>, off: usize) -> Arc<Case> {
        let tot = nsub(&s.f1).saturating_mul(nsub(&s.f2));
        Arc::new(Case { s: s.clone(), nc, nk: tot.min(lim) as usize, bases: (0..nc).map(|_| OnceLock::new()).collect(), fam: fam.clone(), off })
    }
    fn total(&self) -> u64 {
        nsub(&self.s.f1).saturating_mul(nsub(&self.s.f2))
    }
    fn size(&self) -> usize {
        self.nc * self.nk
    }
    fn name(&self) -> String {
        let s = &self.s;
        format!("2^{}={}*{}^2+{}*{}^2", s.n, order_of(&s.f1), s.m1, order_of(&s.f2), s.m2)
    }
    fn get(&self, i: usize) -> (Dia, String) {
        let (ci, k) = (i / self.nk, i % self.nk);
        let s = &self.s;
        let e = &self.fam[(ci + self.off) % self.fam.len()];
        let (b1, b2) = self.bases[ci].get_or_init(|| (s.f1.iter().map(|x| basis_pp(e, x.0, x.1)).collect(), s.f2.iter().map(|x| basis_pp(e, x.0, x.1)).collect()));
        let tot = self.total();
        let (n1, n2) = (nsub(&s.f1), nsub(&s.f2));
        let h = (k as u64).wrapping_mul(0x9e3779b97f4a7c15);
        let (j1, j2) = if self.nk as u64 == tot {
            (k as u64 % n1, k as u64 / n1)
        } else if tot < u64::MAX {
            (h % tot % n1, h % tot / n1)
        } else {
            ((h ^ 0x5bd1e995) % n1, h.rotate_left(29) % n2)
        };
        (dia(e, s, &sub(e, b1, &s.f1, j1), &sub(e, b2, &s.f2, j2)), format!("n={} curve {} kernels {},{}", s.n, ci, j1, j2))
    }
}
/// the two results are the same product with the same points
fn agree(o: &Out, r: &Out) -> bool {
    eq(&o.0, &r.0) && eq(&o.1, &r.1) && o.2.len() == r.2.len() && o.2.iter().zip(&r.2).all(|(x, y)| same_pm(&x.0, &y.0) && same_pm(&x.1, &y.1))
}
fn c20(t: bool, out: &mut Vec<Space>) {
    let fam = Arc::new(generic(if TOY { 12 } else { 2 }));
    let full = PP::THETA_ISOGENY_LENGTH as usize;
    let m4 = Arc::new(gl2(4));
    let m8 = Arc::new(gl2(8));
    let nmax = if TOY { full } else if t { 40 } else { 18 };
    for n in 3..=nmax {
        if n == full {
            continue;
        }
        if !TOY && !t && ![3, 4, 8, 12].contains(&n) {
            continue;
        }
        let sp = if TOY {
            splits(n, if n < 12 { 1 } else { 61 }, if t { 12 } else if n < 9 { 4 } else { 2 })
        } else {
            // over the real field, the splittings with the smallest primes
            let mut v = splits(n, if n < 7 { 1 } else { 61 }, 400);
            v.sort_by_key(|s| s.f1.iter().chain(&s.f2).map(|x| x.0).max());
            v.truncate(if t { 3 } else { 1 });
            v
        };
        let (ns, sp) = (sp.len(), sp);
        for (si, s) in sp.iter().enumerate() {
            let tot = nsub(&s.f1).saturating_mul(nsub(&s.f2));
            // every kernel of the diagram, the generators rotating through the level-4 changes of basis
            let lim = if !TOY { 2 } else if t { 3000 } else if n < 6 { 400 } else { 60 };
            let c = Case::new(s, if !TOY { 1 } else if n < 7 { 3 } else { 1 }, lim, &fam, si + n);
            let m4c = m4.clone();
            let cc = c.clone();
            let x = space(&format!("kernels/{}", c.name()), c.size(), &format!("{} curves x {} of {} pairs of kernels ({} such splittings of 2^{} taken): codomains, images of generic, kernel, 2-, 4-, full-order points and neutral components against Velu's maps", c.nc, c.nk, tot, ns, n), move |i| {
                let (d, tag) = cc.get(i as usize);
                let ps = probes(&d, true);
                let m = &m4c[(i as usize * 7) % m4c.len()];
                let tag = format!("{} generators {:?}", tag, m);
                let st0 = shape(d.n, &|n| n / 2);
                let o = run_one(&d, m, Some(&st0), &ps, i as usize);
                check(&d, &o, &ps, &tag)?;
                st(&tag);
                sample(|| tag.clone());
                Ok(())
            }).chunk(1);
            out.push(if c.nk as u64 == tot { x.complete() } else { x });
            // every level-4 (8) change of the kernel generators
            if si < 2 && n < if TOY { 9 } else if t { 5 } else { 0 } {
                let c = Case::new(s, if TOY { 2 } else { 1 }, if t { 6 } else if TOY { 2 } else { 1 }, &fam, si + n + 1);
                let ms = if t { m8.clone() } else { m4.clone() };
                let (cc, msc) = (c.clone(), ms.clone());
                out.push(space(&format!("generators/{}", c.name()), c.size() * ms.len(), &format!("{} diagrams x all {} changes of the kernel generators by GL2(Z/{}): same codomains and images", c.size(), ms.len(), if t { 8 } else { 4 }), move |i| {
                    let (d, tag) = cc.get(i as usize % cc.size());
                    let m = &msc[i as usize / cc.size()];
                    let tag = format!("{} generators {:?}", tag, m);
                    let ps = probes(&d, true);
                    let o = run_one(&d, m, Some(&shape(d.n, &|n| n / 2)), &ps, i as usize);
                    check(&d, &o, &ps, &tag)?;
                    st(&tag);
                    sample(|| tag.clone());
                    Ok(())
                }).chunk(4));
            }
            // every group of isotropic points of order 2^(n+2) above the kernel
            if si < 2 && (n < if TOY { 7 } else { 4 } || t && n < if TOY { full } else { 6 }) {
                let c = Case::new(s, if t && TOY { 2 } else { 1 }, if t { 4 } else if TOY { 2 } else { 1 }, &fam, si + n + 4);
                let ms: Vec<[u64; 4]> = m4.iter().step_by(if TOY { if t { 1 } else { 5 } } else if t { 9 } else { 96 }).copied().collect();
                let hs: Vec<[u64; 3]> = (0..64u64).filter(|i| TOY || t || [0, 1, 4, 5, 16, 17, 21, 40, 52].contains(i)).map(|i| [i % 4, i / 4 % 4, i / 16]).collect();
                let cc = c.clone();
                let x = space(&format!("lifts/{}", c.name()), c.size() * hs.len() * ms.len(), &format!("{} diagrams x {} of the 64 groups of isotropic points of order 2^(n+2) above the kernel x {} changes of generators: same codomains and images", c.size(), hs.len(), ms.len()), move |i| {
                    let i = i as usize;
                    let (d, tag) = cc.get(i % cc.size());
                    let i = i / cc.size();
                    let h = &hs[i % hs.len()];
                    let m = &ms[i / hs.len()];
                    let tag = format!("{} generators {:?} of lift {:?}", tag, m, h);
                    let ps = probes(&d, TOY && i % 5 == 0);
                    let sh = shape(d.n, &|n| n / 2);
                    let o = run_lift(&d, m, h, if i % 3 == 0 { None } else { Some(&sh) }, &ps, i);
                    check(&d, &o, &ps, &tag)?;
                    st(&tag);
                    sample(|| tag.clone());
                    Ok(())
                });
                out.push(x.chunk(4));
            }
            // which points are evaluated together, and in which order, changes nothing
            if si == 0 && (TOY || n == 3 || t && n == 4) {
                let c = Case::new(s, 1, if t { 8 } else if TOY { 2 } else { 1 }, &fam, si + n + 3);
                let cc = c.clone();
                let base: Arc<Vec<OnceLock<Out>>> = Arc::new((0..c.size()).map(|_| OnceLock::new()).collect());
                let nsel = if TOY { 64 } else { 6 };
                out.push(space(&format!("points/{}", c.name()), c.size() * nsel * 2, &format!("{} diagrams x {} selections of points to evaluate together (none, one, two, ... and reversed), with and without strategy: same codomain, same images", c.size(), nsel), move |i| {
                    let i = i as usize;
                    let k = i % cc.size();
                    let (d, tag) = cc.get(k);
                    let (sel, plain) = (i / cc.size() / 2, i / cc.size() % 2 == 1);
                    let ps = probes(&d, false);
                    let b = base[k].get_or_init(|| run_one(&d, &[1, 0, 0, 1], Some(&shape(d.n, &|n| n / 2)), &ps, k));
                    // five of the points; the upper half of the selections backwards
                    let pick = [0usize, 2, 5, 7, 8];
                    let mut ix: Vec<usize> = (0..5).filter(|j| (sel & 31) >> j & 1 == 1).map(|j| pick[j]).collect();
                    if sel >= 32 || !TOY && sel % 2 == 1 {
                        ix.reverse();
                        if sel % 3 == 0 {
                            if let Some(x) = ix.first().copied() {
                                ix.push(x);
                            }
                        }
                    }
                    let qs: Vec<_> = ix.iter().map(|j| ps[*j].clone()).collect();
                    let sh = shape(d.n, &|n| n / 2);
                    let o = run_one(&d, &[1, 0, 0, 1], if plain { None } else { Some(&sh) }, &qs, i);
                    let e = (b.0, b.1, ix.iter().map(|j| b.2[*j]).collect::<Vec<_>>());
                    ck!(agree(&o, &e), "{}: evaluating only the points {:?} together changes the result", tag, ix);
                    st(&(tag.clone(), ix.clone(), plain));
                    sample(|| format!("{} points {:?}", tag, ix));
                    Ok(())
                }).chunk(4));
            }
            // strategies
            if si == 0 {
                let all = n <= if TOY { if t { 9 } else { 7 } } else { 5 };
                let ss = Arc::new(if all { strategies(n) } else { shapes(n) });
                let c = Case::new(s, 1, if t { 12 } else if TOY { 3 } else { 1 }, &fam, si + n + 2);
                let (cc, ssc) = (c.clone(), ss.clone());
                let base: Arc<Vec<OnceLock<Out>>> = Arc::new((0..c.size()).map(|_| OnceLock::new()).collect());
                let m4c = m4.clone();
                let x = space(&format!("strategies/{}", c.name()), c.size() * ss.len(), &format!("{} diagrams x {} strategies ({}) against the strategy-free routine", c.size(), ss.len(), if all { "all of them" } else { "one-sided, balanced, skewed, alternating" }), move |i| {
                    let k = i as usize % cc.size();
                    let (d, tag) = cc.get(k);
                    let s = &ssc[i as usize / cc.size()];
                    let ps = probes(&d, false);
                    let m = &m4c[(k * 5 + 3) % m4c.len()];
                    let b = base[k].get_or_init(|| run_one(&d, m, None, &ps, k));
                    check(&d, b, &ps, &format!("{} without strategy", tag))?;
                    let o = run_one(&d, m, Some(s), &ps, k);
                    ck!(agree(&o, b), "{}: strategy {:?} and the strategy-free routine disagree", tag, s);
                    st(&(tag.clone(), s));
                    sample(|| format!("{} strategy {:?}", tag, s));
                    Ok(())
                }).chunk(2);
                out.push(if all { x.complete() } else { x });
            }
        }
    }
    // the scheme's own chain: degrees m1^2 dA1 d1 and m2^2 dA2 d2, full length, published strategy
    // (dA1 and dA2 are squares; their roots are taken as multiplications)
    let s = Split { n: full, f1: PP::D1_FACTORED.to_vec(), f2: PP::D2_FACTORED.to_vec(), m1: BigUint::from_slice(&PP::M1) * order_of(&PP::DA1_FACTORED), m2: BigUint::from_slice(&PP::M2) * order_of(&PP::DA2_FACTORED) };
    let c = Case::new(&s, if TOY { 3 } else { 1 }, if !TOY { if t { 4 } else { 1 } } else if t { 1500 } else { 60 }, &fam, 1);
    let cc = c.clone();
    let ss = Arc::new(shapes(full));
    let m4c = m4.clone();
    // over the real field five of the points: generic, of full 2-power order, (P,0), (0,Q)
    let few = move |d: &Dia, deep: bool| -> Vec<(String, Pt, Pt)> { probes(d, deep || t).into_iter().enumerate().filter(|x| TOY || t || [0, 2, 3, 7, 8].contains(&x.0)).map(|x| x.1).collect() };
    out.push(space("scheme-chain", c.size(), &format!("the scheme's splitting {} on {} curves x {} kernels: images against Velu's maps, and every strategy shape agrees", c.name(), c.nc, c.nk), move |i| {
        let (d, tag) = cc.get(i as usize);
        let ps = few(&d, true);
        let m = &m4c[(i as usize * 7) % m4c.len()];
        let o = run_one(&d, m, Some(&PP::THETA_STRATEGY), &ps, i as usize);
        check(&d, &o, &ps, &tag)?;
        let s = &ss[i as usize % ss.len()];
        let r = run_one(&d, m, Some(s), &ps, i as usize);
        ck!(agree(&o, &r), "{}: strategy {:?} disagrees", tag, s);
        st(&tag);
        sample(|| tag.clone());
        Ok(())
    }).chunk(1));
    // and without strategy, at few points
    let c = Case::new(&s, 1, if !TOY { 1 } else if t { 60 } else { 6 }, &fam, 2);
    out.push(space("scheme-chain-plain", c.size(), "the scheme's splitting with the strategy-free routine, at generic and full-order points", move |i| {
        let (d, tag) = c.get(i as usize);
        let ps = few(&d, false);
        let o = run_one(&d, &m4[(i as usize * 5 + 1) % m4.len()], None, &ps, i as usize);
        check(&d, &o, &ps, &format!("{} without strategy", tag))?;
        st(&("plain", tag));
        Ok(())
    }).chunk(1));
}

fn build(o: &Opts) -> Vec<Space> {
    let mut v = vec![];
    match o.prop.as_str() {
        "C20" => c20(o.thorough, &mut v),
        _ => {}
    }
    v
}
fn main() {
    run::main(build)
}
