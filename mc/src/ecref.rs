//! Reference curve arithmetic over the scheme field: affine chord-and-tangent, Velu's formulas by definition,
//! reference torsion bases. Uses only field arithmetic of the crate (decided separately by C05..C08).
use crate::refm::*;
use festa_rs::ecFESTA::{Curve, Fq, Point};
use festa_rs::fields::FpFESTAExt as PP;
use num_bigint::BigUint;

pub type Pt = Option<(Fq, Fq)>;
pub fn eq(a: &Fq, b: &Fq) -> bool {
    a.equals(b) != 0
}
pub fn six() -> Fq {
    Fq::TWO + Fq::FOUR
}
pub fn key(a: &Fq) -> Vec<u8> {
    a.encode().to_vec()
}
pub fn small(n: u64) -> Fq {
    let mut r = Fq::ZERO;
    for i in (0..64).rev() {
        r = r + r;
        if n >> i & 1 == 1 {
            r = r + Fq::ONE;
        }
    }
    r
}
pub fn padd(a: &Fq, x: &Pt, y: &Pt) -> Pt {
    let ((x1, y1), (x2, y2)) = match (x, y) {
        (None, q) => return *q,
        (q, None) => return *q,
        (Some(q), Some(r)) => (*q, *r),
    };
    let l = if eq(&x1, &x2) {
        if (y1 + y2).iszero() != 0 {
            return None;
        }
        (x1 * x1 * Fq::THREE + (*a * x1) * Fq::TWO + Fq::ONE) / (y1 + y1)
    } else {
        (y2 - y1) / (x2 - x1)
    };
    let x3 = l * l - *a - x1 - x2;
    Some((x3, l * (x1 - x3) - y1))
}
pub fn neg(x: &Pt) -> Pt {
    x.map(|(x, y)| (x, -y))
}
pub fn same(x: &Pt, y: &Pt) -> bool {
    match (x, y) {
        (None, None) => true,
        (Some(a), Some(b)) => eq(&a.0, &b.0) && eq(&a.1, &b.1),
        _ => false,
    }
}
pub fn same_pm(x: &Pt, y: &Pt) -> bool {
    same(x, y) || same(x, &neg(y))
}
pub fn pmul(a: &Fq, x: &Pt, n: &BigUint) -> Pt {
    let mut r = None;
    for i in (0..n.bits()).rev() {
        r = padd(a, &r, &r);
        if n.bit(i) {
            r = padd(a, &r, x);
        }
    }
    r
}
pub fn pmulu(a: &Fq, x: &Pt, n: u64) -> Pt {
    pmul(a, x, &big(n))
}
pub fn on(a: &Fq, x: &Pt) -> bool {
    match x {
        None => true,
        Some((x, y)) => eq(&(*y * *y), &(*x * (*x * *x + *a * *x + Fq::ONE))),
    }
}
pub fn val(r: &Point) -> Pt {
    r.to_xy_vartime()
}
/// k-th projective representative
pub fn rep(x: &Pt, k: usize) -> Point {
    let c = Curve::new(&Fq::ZERO);
    let l = match k % 5 {
        0 => Fq::ONE,
        1 => Fq::MINUS_ONE,
        2 => Fq::ZETA + Fq::TWO,
        3 => Fq::FOUR.invert(),
        _ => (Fq::ZETA + Fq::FOUR).pow_small(77),
    };
    match x {
        None => match k % 3 {
            0 => Point::INFINITY,
            1 => c.point_xyz_nocheck(&Fq::ZERO, &l, &Fq::ZERO),
            _ => c.point_xyz_nocheck(&Fq::ZERO, &Fq::ZERO, &Fq::ZERO),
        },
        Some((x, y)) => c.point_xyz_nocheck(&(*x * l), &(*y * l), &l),
    }
}
pub fn pt(x: &Pt) -> Point {
    rep(x, 0)
}
/// n points with consecutive x starting from a fixed non-real x
pub fn lifts(a: &Fq, n: usize) -> Vec<Pt> {
    let mut v = vec![];
    let mut x = Fq::ONE + Fq::ZETA;
    while v.len() < n {
        let f = x * x * x + *a * x * x + x;
        let (y, r) = f.sqrt();
        if r != 0 {
            v.push(Some((x, y)));
        }
        x += Fq::ONE;
    }
    v
}
pub fn lift_iter(a: Fq) -> impl Iterator<Item = Pt> {
    let mut x = Fq::ONE + Fq::ZETA;
    std::iter::from_fn(move || loop {
        let f = x * x * x + a * x * x + x;
        let (y, r) = f.sqrt();
        let x0 = x;
        x += Fq::ONE;
        if r != 0 {
            return Some(Some((x0, y)));
        }
    })
}
/// Montgomery constants of all curves isomorphic to A over the field
pub fn class(a: &Fq) -> Vec<Fq> {
    let mut v: Vec<Fq> = vec![*a, -*a];
    let (d, r) = (*a * *a - Fq::FOUR).sqrt();
    if r == 0 {
        return v;
    }
    let h = Fq::TWO.invert();
    for t in [(d - *a) * h, (-d - *a) * h] {
        let (s, r) = (t * t * Fq::THREE + *a * t * Fq::TWO + Fq::ONE).sqrt();
        if r != 0 {
            let b = (t * Fq::THREE + *a) / s;
            v.push(b);
            v.push(-b);
        }
    }
    v
}
pub fn jinv(a: &Fq) -> Fq {
    let t = *a * *a - Fq::THREE;
    small(256) * t * t * t / (*a * *a - Fq::FOUR)
}
/// j of y^2 = x^3 + a2 x^2 + a4 x + a6
pub fn jinv_w(a2: &Fq, a4: &Fq, a6: &Fq) -> Fq {
    let b2 = small(4) * *a2;
    let b4 = *a4 + *a4;
    let b6 = small(4) * *a6;
    let b8 = (b2 * b6 - b4 * b4) / small(4);
    let c4 = b2 * b2 - small(24) * b4;
    let d = -(b2 * b2 * b8) - small(8) * b4 * b4 * b4 - small(27) * b6 * b6 + small(9) * b2 * b4 * b6;
    c4 * c4 * c4 / d
}

/// Isogeny with kernel <K>, K of odd order l, by Velu's definition on y^2 = x^3 + a x^2 + x
pub struct Velu {
    pub a: Fq,
    pub half: Vec<(Fq, Fq)>,
    pub j: Fq,
    /// Montgomery constant of the codomain in which the image of (0,0) is (0,0) (Costello-Hisil)
    pub mont: Fq,
}
impl Velu {
    pub fn new(a: &Fq, k: &Pt, l: u64) -> Velu {
        let mut half = vec![];
        let mut q = *k;
        for _ in 0..(l - 1) / 2 {
            half.push(q.expect("kernel order"));
            q = padd(a, &q, k);
        }
        let (mut t, mut w) = (Fq::ZERO, Fq::ZERO);
        let (mut s, mut si, mut pi) = (Fq::ZERO, Fq::ZERO, Fq::ONE);
        for (x, y) in &half {
            let tq = (*x * *x * Fq::THREE + (*a * *x) * Fq::TWO + Fq::ONE) * Fq::TWO;
            let uq = *y * *y * Fq::FOUR;
            t = t + tq;
            w = w + uq + *x * tq;
            s = s + *x;
            si = si + x.invert();
            pi = pi * *x;
        }
        let a4 = Fq::ONE - small(5) * t;
        let a6 = -(small(4) * *a * t) - small(7) * w;
        let j = jinv_w(a, &a4, &a6);
        let mont = (small(6) * si - small(6) * s + *a) * pi * pi;
        Velu { a: *a, half, j, mont }
    }
    pub fn in_kernel(&self, p: &Pt) -> bool {
        match p {
            None => true,
            Some((x, _)) => self.half.iter().any(|h| eq(&h.0, x)),
        }
    }
    /// x-coordinate of the image on Velu's model
    pub fn x(&self, p: &Pt) -> Option<Fq> {
        if self.in_kernel(p) {
            return None;
        }
        let mut r = p.unwrap().0;
        for h in &self.half {
            let q = Some(*h);
            r = r + padd(&self.a, p, &q).unwrap().0 - h.0;
            r = r + padd(&self.a, p, &neg(&q)).unwrap().0 - h.0;
        }
        Some(r)
    }
    /// x-coordinate on the Montgomery model `mont`
    pub fn xm(&self, p: &Pt) -> Option<Fq> {
        if self.in_kernel(p) {
            return None;
        }
        let x = p.unwrap().0;
        let (mut n, mut d) = (Fq::ONE, Fq::ONE);
        for h in &self.half {
            n = n * (x * h.0 - Fq::ONE);
            d = d * (x - h.0);
        }
        let f = n / d;
        Some(x * f * f)
    }
}

impl Velu {
    /// the image point on the Montgomery model `mont` (one fixed choice of sign for the whole map)
    pub fn map(&self, p: &Pt) -> Pt {
        if self.in_kernel(p) {
            return None;
        }
        let (x, y) = p.unwrap();
        let (mut f, mut pi, mut l) = (Fq::ONE, Fq::ONE, Fq::ZERO);
        // quotients through one inversion of the product of all n d
        let nd: Vec<(Fq, Fq)> = self.half.iter().map(|h| (x * h.0 - Fq::ONE, x - h.0)).collect();
        if nd.iter().any(|(n, _)| n.iszero() != 0) {
            // the image is (0,0)
            return Some((Fq::ZERO, Fq::ZERO));
        }
        let mut pre = vec![Fq::ONE];
        for (n, d) in &nd {
            pre.push(*pre.last().unwrap() * *n * *d);
        }
        let mut inv = pre[nd.len()].invert();
        for (i, h) in self.half.iter().enumerate().rev() {
            let (n, d) = nd[i];
            let r = inv * pre[i];
            inv = inv * n * d;
            pi = pi * h.0;
            f = f * n * n * r;
            l = l + h.0 * d * r - n * r;
        }
        if x.iszero() != 0 {
            return Some((Fq::ZERO, Fq::ZERO));
        }
        // x' = x f^2,  dx'/dx = f^2 (1 + 2 x l),  y' = pi y dx'/dx
        let r = Some((x * f * f, pi * y * f * f * (Fq::ONE + x * l * Fq::TWO)));
        debug_assert!(on(&self.mont, &r));
        r
    }
}
/// [n]P, through the crate's multiplication for long scalars over the real field (C10 decides that one)
pub fn mulr(a: &Fq, p: &Pt, n: &BigUint) -> Pt {
    if cfg!(festa_mc) || n.bits() < 24 {
        pmul(a, p, n)
    } else {
        val(&Curve::new(a).mul_big(&pt(p), n))
    }
}
/// Reference isogeny of composite degree, followed by multiplication by m; both coordinates, so that signs are
/// consistent between points.
#[derive(Clone)]
pub struct RMap {
    pub v: Vec<std::sync::Arc<Velu>>,
    pub a: Fq,
    pub m: BigUint,
}
impl RMap {
    pub fn new(a: &Fq, k: &Pt, f: &[(u32, u32)], m: impl Into<BigUint>) -> RMap {
        let mut left = order_of(f);
        let (mut a, mut k) = (*a, *k);
        let mut v = vec![];
        for (l, e) in f {
            for _ in 0..*e {
                left /= *l;
                let w = Velu::new(&a, &mulr(&a, &k, &left), *l as u64);
                k = w.map(&k);
                a = w.mont;
                v.push(std::sync::Arc::new(w));
            }
        }
        assert!(k.is_none(), "reference chain");
        RMap { v, a, m: m.into() }
    }
    /// without the final multiplication
    pub fn bare(&self, p: &Pt) -> Pt {
        let mut p = *p;
        for w in &self.v {
            p = w.map(&p);
        }
        p
    }
    pub fn map(&self, p: &Pt) -> Pt {
        mulr(&self.a, &self.bare(p), &self.m)
    }
}
/// the affine change (u, v) between two x-maps, from pairs of finite distinct values
pub fn fit(pairs: &[(Option<Fq>, Option<Fq>)]) -> Option<(Fq, Fq)> {
    let fin: Vec<(Fq, Fq)> = pairs.iter().filter_map(|(x, y)| Some(((*x)?, (*y)?))).collect();
    for i in 0..fin.len() {
        for j in 0..i {
            if !eq(&fin[i].0, &fin[j].0) {
                let u = (fin[i].1 - fin[j].1) / (fin[i].0 - fin[j].0);
                return Some((u, fin[i].1 - u * fin[i].0));
            }
        }
    }
    None
}

/// all isomorphisms (u, w, s): (x, y) -> (u x + w, s y) from the Montgomery curve a to the Montgomery curve b, up to (x,-y)
pub fn isos(a: &Fq, b: &Fq) -> Vec<(Fq, Fq, Fq)> {
    let mut v = vec![];
    let mut roots = vec![Fq::ZERO];
    let (d, r) = (*a * *a - Fq::FOUR).sqrt();
    if r != 0 {
        let h = Fq::TWO.invert();
        roots.push((d - *a) * h);
        roots.push((-d - *a) * h);
    }
    for t in roots {
        let (g, r) = (t * t * Fq::THREE + *a * t * Fq::TWO + Fq::ONE).sqrt();
        if r == 0 {
            continue;
        }
        for g in [g, -g] {
            if eq(&((t * Fq::THREE + *a) / g), b) {
                let u = g.invert();
                let (s, r) = u.sqrt();
                if r != 0 {
                    v.push((u, -t * u, u * s));
                }
            }
        }
    }
    v
}
pub fn iso(i: &(Fq, Fq, Fq), p: &Pt) -> Pt {
    p.map(|(x, y)| (i.0 * x + i.1, i.2 * y))
}
/// is there an isomorphism a -> b and one common sign under which every `from` lands on its `to`?
pub fn matches(a: &Fq, b: &Fq, from: &[Pt], to: &[Pt]) -> bool {
    isos(a, b).iter().any(|i| {
        let m: Vec<Pt> = from.iter().map(|p| iso(i, p)).collect();
        m.iter().zip(to).all(|(x, y)| same(x, y)) || m.iter().zip(to).all(|(x, y)| same(&neg(x), y))
    })
}

/// the group order p + 1 of one coordinate, and its factorisation
pub fn group() -> (BigUint, Vec<(u32, u32)>) {
    let n = BigUint::from_slice(&PP::BASIS_ORDER);
    let mut m = n.clone();
    let mut f: Vec<(u32, u32)> = vec![];
    let mut l = 2u32;
    while m > one() && l < 70000 {
        let mut e = 0;
        while is0(&(&m % l)) {
            m /= l;
            e += 1;
        }
        if e > 0 {
            f.push((l, e));
        }
        l += if l == 2 { 1 } else { 2 };
    }
    (n, f)
}
/// smallest k such that [l^k]P = 0 (k <= e), by repeated multiplication
pub fn lexp(a: &Fq, p: &Pt, l: u32, e: u32) -> Option<u32> {
    let mut q = *p;
    for k in 0..=e {
        if q.is_none() {
            return Some(k);
        }
        q = pmulu(a, &q, l as u64);
    }
    None
}
/// do P, Q (both of order exactly l) generate different subgroups?
pub fn indep(a: &Fq, p: &Pt, q: &Pt, l: u32) -> bool {
    // projective multiples through the crate's addition, compared by x
    let c = Curve::new(a);
    let (qx, _) = q.unwrap();
    let pp = pt(p);
    let mut r = pp;
    for _ in 0..(l / 2).max(1) {
        let (x, z) = r.to_xz();
        if eq(&x, &(qx * z)) {
            return false;
        }
        r = c.add(&r, &pp);
    }
    true
}
/// a reference basis of the l^e-torsion
pub fn basis_pp(a: &Fq, l: u32, e: u32) -> (Pt, Pt) {
    let (n, f) = group();
    let v = f.iter().find(|x| x.0 == l).expect("l divides p+1").1;
    let cof = &n / BigUint::from(l).pow(v);
    let up = BigUint::from(l).pow(v - e);
    let c = Curve::new(a);
    let mut first: Option<Pt> = None;
    for p in lift_iter(*a).take(400) {
        let q = val(&c.mul_big(&pt(&p), &cof));
        let top = val(&c.mul_big(&pt(&q), &BigUint::from(l).pow(v - 1)));
        if top.is_none() {
            continue;
        }
        match first {
            None => first = Some(q),
            Some(p0) => {
                let t0 = val(&c.mul_big(&pt(&p0), &BigUint::from(l).pow(v - 1)));
                if indep(a, &t0, &top, l) {
                    return (val(&c.mul_big(&pt(&p0), &up)), val(&c.mul_big(&pt(&q), &up)));
                }
            }
        }
    }
    panic!("no reference basis")
}
pub fn basis(a: &Fq, f: &[(u32, u32)]) -> (Pt, Pt) {
    let (mut p, mut q) = (None, None);
    for (l, e) in f {
        let (x, y) = basis_pp(a, *l, *e);
        p = padd(a, &p, &x);
        q = padd(a, &q, &y);
    }
    (p, q)
}
/// conjugate (Frobenius)
pub fn conj(a: &Fq) -> Fq {
    let (x, y) = a.get_coeff();
    Fq::new(&x, &-y)
}
/// supersingular curves of the family: E0, its isomorphic models, 3-isogenous curves (breadth first) and conjugates
pub fn family(n: usize) -> Vec<Fq> {
    let mut out: Vec<Fq> = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut push = |a: Fq, out: &mut Vec<Fq>| {
        if seen.insert(key(&a)) {
            out.push(a);
        }
    };
    push(six(), &mut out);
    let mut i = 0;
    while out.len() < n && i < out.len() {
        let a = out[i];
        i += 1;
        let (p, q) = basis_pp(&a, 3, 1);
        let mut ks = vec![q];
        let mut k = p;
        for _ in 0..3 {
            ks.push(k);
            k = padd(&a, &k, &q);
        }
        for k in ks {
            let v = Velu::new(&a, &k, 3);
            debug_assert!(eq(&jinv(&v.mont), &v.j));
            if v.mont.iszero() == 0 {
                push(v.mont, &mut out);
            }
        }
        if i == 1 {
            for b in class(&six()) {
                push(b, &mut out);
            }
        }
        if i == 2 {
            for b in class(&a) {
                push(b, &mut out);
                push(conj(&b), &mut out);
            }
        }
    }
    out.truncate(n);
    out
}
