//! C24: histories of operations. Every operation, at every place of every explored history, returns what it
//! returns as the only operation of a fresh process.
#![allow(non_snake_case)]
use festa_rs::discrete_log::{bidlp, compute_crt, xgcd_big};
use festa_rs::ecFESTA::*;
use festa_rs::festa::*;
use festa_rs::fields::FpFESTAExt as PP;
use festa_rs::pairing::{tate_pairing, weil_pairing};
use festa_rs::supersingular::*;
use festa_rs::thetaFESTA::product_isogeny_no_strategy;
use mc::ck;
use mc::ecref::{basis_pp, family, lifts, padd, pt, RMap};
use mc::refm::*;
use mc::run::{self, sample, space, st, Opts, Space};
use num_bigint::BigUint;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, OnceLock};
use std::time::{Duration, Instant};

const L: u32 = PP::L_POWER;
const TOY: bool = cfg!(festa_mc);
fn lp() -> BigUint {
    one() << L
}

// ---------------------------------------------------------------- controlled scheduler
// Every allocation of the thread under control is a scheduling point; at the chosen one the thread stops until
// the other operation has finished.
struct Hook;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static TARGET: Cell<u64> = const { Cell::new(u64::MAX) };
}
/// 0 running, 1 stopped at the point, 2 released
static GATE: AtomicU32 = AtomicU32::new(0);
fn point() {
    let _ = ON.try_with(|on| {
        if on.get() {
            let k = COUNT.with(|c| { c.set(c.get() + 1); c.get() });
            if k == TARGET.with(|t| t.get()) {
                on.set(false);
                GATE.store(1, Ordering::SeqCst);
                while GATE.load(Ordering::SeqCst) != 2 {
                    std::thread::yield_now();
                }
                on.set(true);
            }
        }
    });
}
unsafe impl GlobalAlloc for Hook {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Hook = Hook;

// ---------------------------------------------------------------- operations
struct Ctx {
    pk: Vec<PublicKey>,
    sk: Vec<SecretKey>,
    ct: Vec<TrapdoorOutput>,
    m: Vec<TrapdoorInput>,
    /// product, kernel points above a (2^4, 2^4)-kernel, a point to evaluate
    kp: Vec<(EllipticProduct, CouplePoint, CouplePoint, CouplePoint)>,
}
fn shared() -> &'static FESTACrypto {
    static F: OnceLock<FESTACrypto> = OnceLock::new();
    F.get_or_init(FESTACrypto::new)
}
fn put(v: &mut Vec<u8>, p: &Point) {
    match p.to_xy_vartime() {
        None => v.push(0),
        Some((x, y)) => {
            v.push(1);
            v.extend(x.encode());
            v.extend(y.encode());
        }
    }
}
fn pts(ps: &[&Point]) -> Vec<u8> {
    let mut v = vec![];
    for p in ps {
        put(&mut v, p);
    }
    v
}
fn bigs(bs: &[&BigUint]) -> Vec<u8> {
    bs.iter().flat_map(|b| { let x = b.to_bytes_le(); let mut v = (x.len() as u32).to_le_bytes().to_vec(); v.extend(x); v }).collect()
}
fn pk_bytes(k: &PublicKey) -> Vec<u8> {
    let (e, r, s) = k.extract();
    let mut v = e.get_constant().encode().to_vec();
    v.extend(pts(&[&r, &s]));
    v
}
fn ct_bytes(c: &TrapdoorOutput) -> Vec<u8> {
    c.encode()
}
fn ti_bytes(t: &TrapdoorInput) -> Vec<u8> {
    let (a, b, (c, d)) = t.extract();
    bigs(&[&a, &b, &c, &d])
}
fn key_bytes(k: &(PublicKey, SecretKey)) -> Vec<u8> {
    let mut v = pk_bytes(&k.0);
    v.extend(k.1.encode());
    v
}
impl Ctx {
    fn bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        self.pk.iter().for_each(|x| v.extend(pk_bytes(x)));
        self.sk.iter().for_each(|x| v.extend(x.encode()));
        self.ct.iter().for_each(|x| v.extend(ct_bytes(x)));
        self.m.iter().for_each(|x| v.extend(ti_bytes(x)));
        v
    }
    /// (curve, R, S) of a public key
    fn ea(&self, i: usize) -> (Curve, Point, Point) {
        self.pk[i].extract()
    }
}
/// the scheme instance an operation works on, made when it is first used
type Inst<'a> = dyn std::ops::Deref<Target = FESTACrypto> + 'a;
struct Shared;
impl std::ops::Deref for Shared {
    type Target = FESTACrypto;
    fn deref(&self) -> &FESTACrypto {
        shared()
    }
}
type Op = (&'static str, fn(&Ctx, &Inst) -> Vec<u8>);
type Near = (String, Box<dyn Fn(&Ctx, &Inst) -> Vec<u8> + Send + Sync>);
fn src(i: u64) {
    rand::mc::set(&[(i * 37) as u8, 3, (i * 11) as u8, 77], 1000 + i);
}
fn cof() -> BigUint {
    BigUint::from_slice(&PP::BASIS_ORDER) >> L
}
fn iso_eval(e: &Curve, f: &[(u32, u32)], s: u32, r: &Point, t: &Point) -> Vec<u8> {
    let (phi, c) = isogeny_from_scalar_x_only(e, f, &big(s as u64), None);
    let d = mc::refm::order_of(f);
    let (c2, (u, v)) = evaluate_isogeny_chain_for_basis(e, &(*r, *t), &phi, &lp(), &d);
    let mut o = c.get_constant().encode().to_vec();
    o.extend(c2.get_constant().encode());
    o.extend(pts(&[&u, &v]));
    o
}
fn rnd_iso(e: &Curve, f: &[(u32, u32)], s: u64, steps: usize) -> Vec<u8> {
    src(s);
    let (phi, c) = random_isogeny_x_only(e, f, steps);
    let mut o = c.get_constant().encode().to_vec();
    for p in phi {
        o.extend(p.get_codomain().get_constant().encode());
    }
    o
}
fn field_mix(x: Fq) -> Vec<u8> {
    let mut o = vec![];
    let (a, b) = x.sqrt();
    o.extend(a.encode());
    o.extend(b.to_le_bytes());
    let (a, b) = x.fourth_root();
    o.extend(a.encode());
    o.extend(b.to_le_bytes());
    o.extend(x.invert().encode());
    o.extend((x * x + x.square().half() - Fq::ZETA / x).encode());
    o.extend(x.legendre().to_le_bytes());
    o.extend(x.pow_big(&big(0x1234567)).encode());
    let mut v = [x, x + Fq::ONE, Fq::ZETA, x * x];
    Fq::batch_invert(&mut v);
    v.iter().for_each(|y| o.extend(y.encode()));
    o
}
fn bi(c: &Ctx, i: usize, a: u32, b: u32) -> Vec<u8> {
    let (e, r, s) = c.ea(i);
    let x = e.add(&e.mul_small(&r, a as u64), &e.mul_small(&s, b as u64));
    let (u, v) = bidlp(&e, &x, &r, &s, &[(2, L)], None);
    bigs(&[&u, &v])
}
fn tb(e: &Curve, f: &[(u32, u32)]) -> Vec<u8> {
    let (p, q) = torsion_basis(e, f, if f[0].0 == 2 { 0 } else { L as usize });
    pts(&[&p, &q])
}
fn canon(c: &Ctx, i: usize, a: u64) -> Vec<u8> {
    let (e, _, _) = c.ea(i);
    let (p, q) = torsion_basis(&e, &PP::D2_FACTORED, L as usize);
    let k = e.add(&p, &e.mul_small(&q, a));
    let s = compute_canonical_kernel(&e, &k, &e.mul_small(&k, 2), &PP::D2_FACTORED, if a % 2 == 0 { None } else { Some((p, q)) });
    bigs(&[&s])
}
fn theta(c: &Ctx, i: usize) -> Vec<u8> {
    let (ep, p, q, x) = &c.kp[i];
    let (f, im) = product_isogeny_no_strategy(ep, p, q, &[*x], 4);
    let (e1, e2) = f.curves();
    let (a, b) = im[0].points();
    let mut o = e1.get_constant().encode().to_vec();
    o.extend(e2.get_constant().encode());
    for z in [a, b] {
        o.extend(z.to_xy_vartime().map_or(vec![0], |(x, y)| [x.encode().to_vec(), y.encode().to_vec()].concat()));
    }
    o
}
fn list() -> Vec<Op> {
    let mut v = all_ops();
    if !TOY {
        // published parameters: the operations that take well below a second
        let slow = ["keygen", "eval(", "inverse(", "bidlp", "isogeny(", "canonical", "random_iso", "random point", "torsion_basis(EA0, d", "torsion_basis(EA1, d", "product"];
        v.retain(|o| !slow.iter().any(|s| o.0.starts_with(s)));
    }
    v
}
fn all_ops() -> Vec<Op> {
    vec![
        ("keygen(source 1)", |_, f| { src(1); key_bytes(&f.keygen()) }),
        ("keygen(source 2)", |_, f| { src(2); key_bytes(&f.keygen()) }),
        ("eval(pk0, m0)", |c, f| ct_bytes(&f.trapdoor_eval(&c.pk[0], &c.m[0]))),
        ("eval(pk1, m1)", |c, f| ct_bytes(&f.trapdoor_eval(&c.pk[1], &c.m[1]))),
        ("eval(pk0, m1)", |c, f| ct_bytes(&f.trapdoor_eval(&c.pk[0], &c.m[1]))),
        ("inverse(c00, sk0)", |c, f| ti_bytes(&f.trapdoor_inverse(&c.ct[0], &c.sk[0]))),
        ("inverse(c11, sk1)", |c, f| ti_bytes(&f.trapdoor_inverse(&c.ct[1], &c.sk[1]))),
        ("inverse(c01, sk0)", |c, f| ti_bytes(&f.trapdoor_inverse(&c.ct[2], &c.sk[0]))),
        ("torsion_basis(EA0, d1)", |c, _| tb(&c.ea(0).0, &PP::D1_FACTORED)),
        ("torsion_basis(EA1, d1)", |c, _| tb(&c.ea(1).0, &PP::D1_FACTORED)),
        ("torsion_basis(EA0, d2)", |c, _| tb(&c.ea(0).0, &PP::D2_FACTORED)),
        ("entangled_torsion_basis(EA0)", |c, _| { let (p, q) = entangled_torsion_basis(&c.ea(0).0, &cof()); pts(&[&p, &q]) }),
        ("entangled_torsion_basis(EA1)", |c, _| { let (p, q) = entangled_torsion_basis(&c.ea(1).0, &cof()); pts(&[&p, &q]) }),
        ("weil_pairing(EA0, R, S)", |c, _| { let (e, r, s) = c.ea(0); weil_pairing(&e, &r, &s, &lp()).encode().to_vec() }),
        ("weil, tate pairing(EA1, S, R+S)", |c, _| { let (e, r, s) = c.ea(1); let mut v = weil_pairing(&e, &s, &e.add(&r, &s), &lp()).encode().to_vec(); v.extend(tate_pairing(&e, &s, &e.add(&r, &s), &lp()).encode()); v }),
        ("bidlp(EA0, 3R+5S)", |c, _| bi(c, 0, 3, 5)),
        ("bidlp(EA1, 8R+6S)", |c, _| bi(c, 1, 8, 6)),
        ("isogeny(EA0, d2, 1)", |c, _| { let (e, r, s) = c.ea(0); iso_eval(&e, &PP::D2_FACTORED, 1, &r, &s) }),
        ("isogeny(EA1, d2, 2)", |c, _| { let (e, r, s) = c.ea(1); iso_eval(&e, &PP::D2_FACTORED, 2, &r, &s) }),
        ("isogeny(EA1, d1, 1)", |c, _| { let (e, r, s) = c.ea(1); iso_eval(&e, &PP::D1_FACTORED, 1, &r, &s) }),
        ("canonical_kernel(EA0, 2)", |c, _| canon(c, 0, 2)),
        ("canonical_kernel(EA1, 1)", |c, _| canon(c, 1, 1)),
        ("random_isogeny(EA0, dA1, source 1)", |c, _| rnd_iso(&c.ea(0).0, &PP::DA1_FACTORED, 1, 1)),
        ("random_isogeny(EA1, dA2, source 1)", |c, _| rnd_iso(&c.ea(1).0, &PP::DA2_FACTORED, 1, 2)),
        ("encode, decode sk0", |c, _| { let b = c.sk[0].encode(); let mut v = SecretKey::decode(&b).encode(); v.extend(b); v }),
        ("encode, decode c11", |c, _| { let b = c.ct[1].encode(); let mut v = TrapdoorOutput::decode(&b).encode(); v.extend(b); v }),
        ("field(A0)", |c, _| field_mix(c.ea(0).0.get_constant())),
        ("field(A1 + 1)", |c, _| field_mix(c.ea(1).0.get_constant() + Fq::ONE)),
        ("points of EA0", |c, _| { let v: Vec<Point> = c.ea(0).0.iter().take(4).collect(); pts(&v.iter().collect::<Vec<_>>()) }),
        ("points of EA1", |c, _| { let v: Vec<Point> = c.ea(1).0.iter().take(3).collect(); pts(&v.iter().collect::<Vec<_>>()) }),
        ("isomorphism, j(EA0)", |c, _| {
            let (e, r, s) = c.ea(0);
            let mut o = e.j_invariant().encode().to_vec();
            let i = CurveIsomorphism::new(&e, &e);
            o.extend(pts(&[&i.eval(&r), &i.eval(&s)]));
            o
        }),
        ("multiples on EA0", |c, _| { let (e, r, s) = c.ea(0); pts(&[&e.mul_big(&r, &big(123457)), &e.double_iter(&s, 3), &e.mul_small(&r, 77), &e.sub(&r, &s)]) }),
        ("multiples on EA1", |c, _| { let (e, r, s) = c.ea(1); pts(&[&e.mul_big(&r, &big(999)), &e.double_iter(&s, 2), &e.mul_small(&r, 76), &e.sub(&r, &s)]) }),
        ("random point of order d1 on EA1", |c, _| { src(9); let e = c.ea(1).0; pts(&[&generate_random_point_order_factored_D(&e, &PP::D1_FACTORED, L as usize), &generate_point_order_factored_D(&e, &PP::D2_FACTORED, L as usize)]) }),
        ("crt, xgcd", |_, _| bigs(&[&compute_crt(&vec![big(1), big(2)], &[(3, 2), (5, 1)]), &xgcd_big(&big(17), &big(101)), &compute_crt(&vec![big(7)], &[(11, 1)])])),
        ("order tests", |c, _| { let (e, r, s) = c.ea(0); vec![point_has_factored_order(&e, &r, &[(2, L)]) as u8, point_has_factored_order(&e, &e.mul_small(&s, 2), &[(2, L)]) as u8, has_factored_order(Fq::MINUS_ONE, &[(2, 1)]) as u8] }),
        ("product isogeny 0", |c, _| theta(c, 0)),
        ("product isogeny 1", |c, _| theta(c, 1)),
    ]
}

/// A Montgomery curve isomorphic to y^2 = x^3 + a x^2 + x: k = 0 itself, 1 its twist by i, 2, 3 with another point
/// of order two at the origin
fn same_j(a: Fq, k: u32) -> Fq {
    let b = if k & 2 == 0 { a } else {
        let (d, ok) = (a * a - Fq::FOUR).sqrt();
        assert!(ok == u32::MAX);
        let al = (d - a).half();
        let (s, ok) = (al * al * Fq::THREE + (al * a).mul2() + Fq::ONE).sqrt();
        if ok == u32::MAX { (al * Fq::THREE + a) / s } else { a }
    };
    if k & 1 == 0 { b } else { -b }
}
/// the answer, or that there is none
fn refused(f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(b"refused".to_vec())
}
/// groups of operations of one kind whose arguments agree in part: the same j-invariant, the same x, the same
/// curve, the same order, the same scalar, the same residues, ...
fn near() -> Vec<Vec<Near>> {
    fn curve(c: &Ctx, k: u32) -> Curve {
        match k {
            0..=3 => Curve::new(&same_j(c.ea(0).0.get_constant(), k)),
            4 => c.ea(1).0,
            // the same real part; the same imaginary part
            _ => {
                let mut a = c.ea(0).0.get_constant();
                a.set_conj();
                Curve::new(&if k == 5 { a } else { -a })
            }
        }
    }
    const CN: [&str; 7] = ["EA0", "EA0 twisted by i", "EA0 with another origin", "EA0 with another origin, twisted by i", "EA1", "EA0 conjugated", "EA0 conjugated, twisted by i"];
    let scaled = |e: &Curve, p: &Point, s: u32| { let (x, y, z) = p.to_xyz(); let s = Fq::ZETA.mul_small(s as i32) + Fq::ONE; e.point_xyz_nocheck(&(x * s), &(y * s), &(z * s)) };
    // points of order 2^L of EA(i): R, S, R + S, -R, R in other coordinates, 2R, 3R + S
    let some = move |c: &Ctx, i: usize, k: usize| -> Point {
        let (e, r, s) = c.ea(i);
        match k { 0 => r, 1 => s, 2 => e.add(&r, &s), 3 => -r, 4 => scaled(&e, &r, 3), 5 => e.double(&r), _ => e.add(&e.mul_small(&r, 3), &s) }
    };
    const PN: [&str; 7] = ["R", "S", "R+S", "-R", "R rescaled", "2R", "3R+S"];
    let mut v: Vec<Vec<Near>> = vec![];
    macro_rules! op { ($g:expr, $n:expr, $f:expr) => { $g.push(($n, Box::new($f) as Box<dyn Fn(&Ctx, &Inst) -> Vec<u8> + Send + Sync>)) } }
    // bases and points of curves with the same j-invariant
    let mut g: Vec<Near> = vec![];
    for k in 0..7u32 {
        for (fn_, f) in [("d1", &PP::D1_FACTORED[..]), ("d2", &PP::D2_FACTORED[..]), ("d1's first prime", &PP::D1_FACTORED[..1]), ("2^L", &[(2, L)][..])] {
            if !TOY && (fn_.len() == 2 || (k > 1 && k != 5)) {
                continue;
            }
            op!(g, format!("torsion_basis({}, {})", CN[k as usize], fn_), move |c: &Ctx, _: &Inst| tb(&curve(c, k), f));
        }
    }
    v.push(g);
    let mut g: Vec<Near> = vec![];
    for k in 0..7u32 {
        op!(g, format!("entangled_torsion_basis({})", CN[k as usize]), move |c: &Ctx, _: &Inst| { let (p, q) = entangled_torsion_basis(&curve(c, k), &cof()); pts(&[&p, &q]) });
        for n in [1, 3] {
            op!(g, format!("{} points of {}", n, CN[k as usize]), move |c: &Ctx, _: &Inst| { let v: Vec<Point> = curve(c, k).iter().take(n).collect(); pts(&v.iter().collect::<Vec<_>>()) });
        }
        op!(g, format!("j({})", CN[k as usize]), move |c: &Ctx, _: &Inst| curve(c, k).j_invariant().encode().to_vec());
    }
    v.push(g);
    if TOY {
        let mut g: Vec<Near> = vec![];
        for k in 0..7u32 {
            for (fn_, f) in [("d1", &PP::D1_FACTORED[..]), ("d2's first prime", &PP::D2_FACTORED[..1])] {
                for seed in [5u64, 6] {
                    op!(g, format!("random point of order {} of {}, source {}", fn_, CN[k as usize], seed), move |c: &Ctx, _: &Inst| { src(seed); pts(&[&generate_random_point_order_factored_D(&curve(c, k), f, L as usize)]) });
                }
                op!(g, format!("point of order {} of {}", fn_, CN[k as usize]), move |c: &Ctx, _: &Inst| pts(&[&generate_point_order_factored_D(&curve(c, k), f, L as usize)]));
            }
        }
        v.push(g);
    }
    // pairings
    let mut g: Vec<Near> = vec![];
    for i in 0..2usize {
        for (a, b) in [(0, 1), (1, 0), (2, 1), (3, 1), (4, 1), (5, 1), (0, 6)] {
            if !TOY && (i > 0 || a > 4) {
                continue;
            }
            op!(g, format!("weil_pairing(EA{}, {}, {})", i, PN[a], PN[b]), move |c: &Ctx, _: &Inst| weil_pairing(&c.ea(i).0, &some(c, i, a), &some(c, i, b), &lp()).encode().to_vec());
            if TOY {
                op!(g, format!("tate_pairing(EA{}, {}, {})", i, PN[a], PN[b]), move |c: &Ctx, _: &Inst| tate_pairing(&c.ea(i).0, &some(c, i, a), &some(c, i, b), &lp()).encode().to_vec());
            }
        }
        op!(g, format!("weil_pairing(EA{}, 2R, 2S; 2^(L-1))", i), move |c: &Ctx, _: &Inst| { let (e, r, s) = c.ea(i); weil_pairing(&e, &e.double(&r), &e.double(&s), &(lp() >> 1)).encode().to_vec() });
    }
    v.push(g);
    // logarithms
    if TOY {
        let mut g: Vec<Near> = vec![];
        for i in 0..2usize {
            for (a, b) in [(0usize, 1usize), (1, 0), (2, 1), (4, 1)] {
                for k in [0usize, 6, 5] {
                    op!(g, format!("bidlp(EA{}, {} to {}, {})", i, PN[k], PN[a], PN[b]), move |c: &Ctx, _: &Inst| { let (x, y) = bidlp(&c.ea(i).0, &some(c, i, k), &some(c, i, a), &some(c, i, b), &[(2, L)], None); bigs(&[&x, &y]) });
                }
            }
        }
        v.push(g);
        // isogenies: curve, degree, scalar, the basis given or not, the points
        let mut g: Vec<Near> = vec![];
        for k in [0u32, 1, 2, 4, 5, 6] {
            for (fn_, f) in [("d1", &PP::D1_FACTORED[..]), ("d2", &PP::D2_FACTORED[..])] {
                for s in 1..3u32 {
                    op!(g, format!("isogeny({}, {}, {})", CN[k as usize], fn_, s), move |c: &Ctx, _: &Inst| {
                        let e = curve(c, k);
                        let (phi, x) = isogeny_from_scalar_x_only(&e, f, &big(s as u64), None);
                        let mut o = x.get_constant().encode().to_vec();
                        phi.iter().for_each(|p| o.extend(p.get_codomain().get_constant().encode()));
                        o
                    });
                }
            }
        }
        for i in 0..2usize {
            for (a, b) in [(0usize, 1usize), (1, 0), (4, 1), (3, 1), (6, 1)] {
                for s in 1..3u32 {
                    op!(g, format!("isogeny(EA{}, d2, {}) at {}, {}", i, s, PN[a], PN[b]), move |c: &Ctx, _: &Inst| iso_eval(&c.ea(i).0, &PP::D2_FACTORED, s, &some(c, i, a), &some(c, i, b)));
                }
            }
        }
        v.push(g);
        let mut g: Vec<Near> = vec![];
        for k in [0u32, 1, 2, 4, 5, 6] {
            for (fn_, f) in [("dA1", &PP::DA1_FACTORED[..]), ("dA2", &PP::DA2_FACTORED[..])] {
                for seed in [5u64, 6] {
                    op!(g, format!("random_isogeny({}, {}, source {})", CN[k as usize], fn_, seed), move |c: &Ctx, _: &Inst| rnd_iso(&curve(c, k), f, seed, 2));
                }
            }
        }
        v.push(g);
        let mut g: Vec<Near> = vec![];
        for i in 0..2usize {
            for (fn_, f) in [("d1", &PP::D1_FACTORED[..]), ("d2", &PP::D2_FACTORED[..])] {
                for a in 1..3u64 {
                    for given in [false, true] {
                        for other in [0u64, 2] {
                            op!(g, format!("canonical_kernel(EA{}, {}, P + {}Q and {} times it, basis {})", i, fn_, a, other, if given { "given" } else { "not given" }), move |c: &Ctx, _: &Inst| {
                                let e = c.ea(i).0;
                                let (p, q) = torsion_basis(&e, f, L as usize);
                                let k = e.add(&p, &e.mul_small(&q, a));
                                bigs(&[&compute_canonical_kernel(&e, &k, &e.mul_small(&k, other), f, if given { Some((p, q)) } else { None })])
                            });
                        }
                    }
                }
            }
        }
        v.push(g);
        // the trapdoor: inputs that differ in one component, under two keys
        let mut g: Vec<Near> = vec![];
        let m = move |k: usize| {
            let b = |x: u64| { let x = big(x) % lp(); let i = inv_mod(&x, &lp()).unwrap(); (x, i) };
            match k { 0 => TrapdoorInput::new(&big(1), &big(2), &b(5)), 1 => TrapdoorInput::new(&big(1), &big(2), &b(7)), 2 => TrapdoorInput::new(&big(2), &big(2), &b(5)), _ => TrapdoorInput::new(&big(1), &big(3), &b(5)) }
        };
        for i in 0..2usize {
            for k in 0..4usize {
                op!(g, format!("eval(pk{}, input {})", i, k), move |c: &Ctx, f: &Inst| ct_bytes(&f.trapdoor_eval(&c.pk[i], &m(k))));
                op!(g, format!("inverse(eval(pk{}, input {}), sk{})", i, k, i), move |c: &Ctx, f: &Inst| ti_bytes(&f.trapdoor_inverse(&f.trapdoor_eval(&c.pk[i], &m(k)), &c.sk[i])));
            }
        }
        // the first key under another mask, with its points exchanged, and on other models of its curve
        let pk = move |c: &Ctx, v: u32| -> PublicKey {
            let (e, r, s) = c.pk[0].extract();
            match v {
                0 => PublicKey::new(&e, &e.mul_small(&r, 3), &e.mul_small(&s, 5)),
                1 => PublicKey::new(&e, &s, &r),
                2 => PublicKey::new(&e, &r, &e.mul_small(&s, 5)),
                _ => {
                    let f = Curve::new(&same_j(e.get_constant(), v - 2));
                    let i = CurveIsomorphism::new(&e, &f);
                    PublicKey::new(&f, &i.eval(&r), &i.eval(&s))
                }
            }
        };
        const VN: [&str; 6] = ["masked by (3, 5) more", "points exchanged", "masked by (1, 5) more", "twisted by i", "with another origin", "with another origin, twisted by i"];
        for v in 0..6u32 {
            for k in 0..2usize {
                op!(g, format!("eval(pk0 {}, input {})", VN[v as usize], k), move |c: &Ctx, f: &Inst| ct_bytes(&f.trapdoor_eval(&pk(c, v), &m(k))));
            }
            if v == 0 || v == 2 {
                op!(g, format!("inverse(eval(pk0 {}, input 0), its secret key)", VN[v as usize]), move |c: &Ctx, f: &Inst| {
                    let (e, x, y, (a, b)) = c.sk[0].extract();
                    let sk = SecretKey::new(&e, &x, &y, &(a * (3 - v) % lp(), b * 5u32 % lp()));
                    ti_bytes(&f.trapdoor_inverse(&f.trapdoor_eval(&pk(c, v), &m(0)), &sk))
                });
            }
        }
        // ciphertexts whose curves are given by other models, or that are not of this key: the answer or the refusal
        for w in 0..2u32 {
            for v in 1..4u32 {
                op!(g, format!("inverse(c00, its curve {} {}, sk0)", w + 1, VN[v as usize + 2]), move |c: &Ctx, f: &Inst| {
                    let (e1, r1, s1, e2, r2, s2) = c.ct[0].extract();
                    let e = if w == 0 { e1 } else { e2 };
                    let h = Curve::new(&same_j(e.get_constant(), v));
                    let i = CurveIsomorphism::new(&e, &h);
                    let x = if w == 0 { TrapdoorOutput::new(&h, &i.eval(&r1), &i.eval(&s1), &e2, &r2, &s2) } else { TrapdoorOutput::new(&e1, &r1, &s1, &h, &i.eval(&r2), &i.eval(&s2)) };
                    refused(|| ti_bytes(&f.trapdoor_inverse(&x, &c.sk[0])))
                });
            }
        }
        op!(g, "inverse(c00, sk1)".to_string(), move |c: &Ctx, f: &Inst| refused(|| ti_bytes(&f.trapdoor_inverse(&c.ct[0], &c.sk[1]))));
        op!(g, "inverse(c11, sk0)".to_string(), move |c: &Ctx, f: &Inst| refused(|| ti_bytes(&f.trapdoor_inverse(&c.ct[1], &c.sk[0]))));
        for s in 1..4u64 {
            op!(g, format!("keygen(source {})", s), move |_: &Ctx, f: &Inst| { src(s); key_bytes(&f.keygen()) });
        }
        v.push(g);
        // product isogenies: the same product, other kernels and points
        let mut g: Vec<Near> = vec![];
        for i in 0..2usize {
            for k in 0..6usize {
                op!(g, format!("product isogeny {} variant {}", i, k), move |c: &Ctx, _: &Inst| {
                    let (ep, p, q, x) = &c.kp[i];
                    let (p, q, x) = match k { 0 => (*p, *q, *x), 1 => (*q, *p, *x), 2 => (ep.add(p, q), *q, *x), 3 => (*p, *q, ep.add(x, x)), 4 => (*p, *q, *p), _ => (*p, ep.add(p, q), ep.add(x, p)) };
                    let (f, im) = product_isogeny_no_strategy(ep, &p, &q, &[x], 4);
                    let (e1, e2) = f.curves();
                    let (a, b) = im[0].points();
                    let mut o = e1.get_constant().encode().to_vec();
                    o.extend(e2.get_constant().encode());
                    o.extend(pts(&[&a, &b]));
                    o
                });
            }
        }
        v.push(g);
    }
    // points
    let mut g: Vec<Near> = vec![];
    for i in 0..2usize {
        for k in [0usize, 1, 3, 4, 5] {
            for (nn, n) in [("77", big(77)), ("2^64 + 77", (one() << 64) + big(77)), ("-", big(2).pow(L) - one())] {
                if TOY || k < 4 {
                    op!(g, format!("{} * {} on EA{}", nn, PN[k], i), move |c: &Ctx, _: &Inst| pts(&[&c.ea(i).0.mul_big(&some(c, i, k), &n)]));
                }
            }
            op!(g, format!("{}: sums, order, x-line on EA{}", PN[k], i), move |c: &Ctx, _: &Inst| {
                let e = c.ea(i).0;
                let p = some(c, i, k);
                let mut o = pts(&[&e.double(&p), &e.add(&p, &c.ea(i).1), &e.sub(&p, &c.ea(i).2), &e.double_iter(&p, 5), &e.mul_small(&p, 9)]);
                o.push(point_has_factored_order(&e, &p, &[(2, L)]) as u8);
                o.push(point_has_factored_order(&e, &p, &[(2, L - 1)]) as u8);
                let (x, z) = p.to_xz();
                let (q, ok) = e.complete_pointX(&PointX::new_xz(&x, &z));
                o.push(ok as u8);
                o.extend(pts(&[&q]));
                o
            });
        }
    }
    v.push(g);
    // isomorphisms between curves with one j-invariant
    let mut g: Vec<Near> = vec![];
    for k in 0..7u32 {
        for l in 0..7u32 {
            if (k < 4) == (l < 4) && (k == 4) == (l == 4) {
                op!(g, format!("isomorphism({}, {})", CN[k as usize], CN[l as usize]), move |c: &Ctx, _: &Inst| {
                    let (e, f) = (curve(c, k), curve(c, l));
                    let p = e.iter().next().unwrap();
                    let i = CurveIsomorphism::new(&e, &f);
                    pts(&[&i.eval(&p), &i.eval(&e.double(&p)), &i.eval(&-p)])
                });
            }
        }
    }
    v.push(g);
    // field elements: an element, its negative, conjugate, inverse, double, and neighbours
    let mut g: Vec<Near> = vec![];
    for k in 0..8usize {
        let x = move |c: &Ctx| { let a = c.ea(0).0.get_constant(); match k { 0 => a, 1 => -a, 2 => { let mut b = a; b.set_conj(); b } 3 => a.invert(), 4 => a + Fq::ONE, 5 => a.mul2(), 6 => a * Fq::ZETA, _ => a * a } };
        op!(g, format!("field operations on variant {} of A0", k), move |c: &Ctx, _: &Inst| field_mix(x(c)));
        op!(g, format!("variant {} of A0 to two powers", k), move |c: &Ctx, _: &Inst| { let x = x(c); [x.pow_big(&big(77)).encode(), x.pow_big(&((one() << 64) + big(77))).encode()].concat() });
        op!(g, format!("encode, decode variant {} of A0", k), move |c: &Ctx, _: &Inst| { let b = x(c).encode(); let (y, ok) = Fq::decode(&b); let mut o = y.encode().to_vec(); o.push(ok as u8); o });
    }
    v.push(g);
    // integers
    let mut g: Vec<Near> = vec![];
    for (a, b) in [(1u64, 2u64), (2, 1), (1, 1), (0, 2)] {
        for f in [[(3u32, 2u32), (5, 1)], [(3, 2), (7, 1)], [(5, 1), (3, 2)], [(3, 1), (5, 2)]] {
            op!(g, format!("crt({}, {}; {:?})", a, b, f), move |_: &Ctx, _: &Inst| bigs(&[&compute_crt(&vec![big(a), big(b)], &f)]));
        }
    }
    for (a, b) in [(17u64, 101u64), (17, 103), (84, 101), (101, 17), (3, 101)] {
        op!(g, format!("xgcd({}, {})", a, b), move |_: &Ctx, _: &Inst| bigs(&[&xgcd_big(&big(a), &big(b))]));
    }
    v.push(g);
    // long integers that share their length, their low or their high words
    let mut g: Vec<Near> = vec![];
    for n in [90u32, 640] {
        let wide = move |k: u32| -> BigUint {
            let a = (one() << n) / big(7) * big(3) | one();
            match k { 0 => a, 1 => a + big(2), 2 => a + (one() << (n / 2)), 3 => a ^ (one() << (n - 3)), 4 => a << 1, _ => a >> (n - 60) }
        };
        for (x, y) in [(5u32, 0u32), (5, 1), (5, 2), (5, 3), (0, 1), (0, 2), (1, 0), (2, 0), (3, 0), (5, 4)] {
            op!(g, format!("xgcd(number {} of {} bits, number {})", x, n, y), move |_: &Ctx, _: &Inst| {
                let (a, b) = (wide(x), wide(y));
                let g = gcdb(&a, &b);
                bigs(&[&xgcd_big(&(a / &g), &(b / g))])
            });
        }
        for (x, y) in [(0u32, 1u32), (1, 0), (2, 1), (3, 1), (0, 2), (0, 3)] {
            op!(g, format!("crt(numbers {}, {} of {} bits)", x, y, n), move |_: &Ctx, _: &Inst| bigs(&[&compute_crt(&vec![wide(x) % big(3).pow(n / 4), wide(y) % big(5).pow(n / 4)], &[(3, n / 4), (5, n / 4)])]));
        }
    }
    v.push(g);
    // encodings
    let mut g: Vec<Near> = vec![];
    for k in 0..5usize {
        op!(g, format!("secret key variant {}", k), move |c: &Ctx, _: &Inst| {
            let (e, d2, d1, (x, y)) = c.sk[0].extract();
            let (e2, f2, _, (x2, y2)) = c.sk[1].extract();
            let s = match k { 0 => SecretKey::new(&e, &d2, &d1, &(x, y)), 1 => SecretKey::new(&e2, &d2, &d1, &(x, y)), 2 => SecretKey::new(&e, &f2, &d1, &(x, y)), 3 => SecretKey::new(&e, &d2, &d1, &(x, y2)), _ => SecretKey::new(&e, &d2, &d1, &(x2, y)) };
            let b = s.encode();
            let mut v = SecretKey::decode(&b).encode();
            v.extend(b);
            v
        });
        op!(g, format!("ciphertext variant {}", k), move |c: &Ctx, _: &Inst| {
            let (e, r, s, e2, r2, s2) = c.ct[0].extract();
            let (_, t, u, _, w, _) = c.ct[2].extract();
            let x = match k { 0 => TrapdoorOutput::new(&e, &r, &s, &e2, &r2, &s2), 1 => TrapdoorOutput::new(&e, &t, &s, &e2, &r2, &s2), 2 => TrapdoorOutput::new(&e, &r, &u, &e2, &r2, &s2), 3 => TrapdoorOutput::new(&e, &r, &s, &e2, &w, &s2), _ => TrapdoorOutput::new(&e2, &r, &s, &e, &r2, &s2) };
            let b = x.encode();
            let mut v = TrapdoorOutput::decode(&b).encode();
            v.extend(b);
            v
        });
    }
    v.push(g);
    v
}

// ---------------------------------------------------------------- the arguments, as bytes
struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn fq(&mut self) -> Fq {
        let n = Fq::ENCODED_LENGTH;
        let (x, r) = Fq::decode(&self.0[..n]);
        assert!(r == u32::MAX);
        self.0 = &self.0[n..];
        x
    }
    fn p(&mut self) -> Point {
        let (x, y) = (self.fq(), self.fq());
        Point::new_xy(&x, &y)
    }
    fn raw(&mut self) -> &'a [u8] {
        let n = u32::from_le_bytes(self.0[..4].try_into().unwrap()) as usize;
        let (a, b) = self.0[4..].split_at(n);
        self.0 = b;
        a
    }
}
fn wr(v: &mut Vec<u8>, b: &[u8]) {
    v.extend((b.len() as u32).to_le_bytes());
    v.extend(b);
}
fn xy(v: &mut Vec<u8>, p: &Point) {
    let (x, y) = p.to_xy();
    v.extend(x.encode());
    v.extend(y.encode());
}
/// keys, ciphertexts, inputs and product kernels every history works on
fn blob() -> Vec<u8> {
    let mut v = vec![];
    if !TOY {
        // points of full 2-power order on two curves; keys and ciphertexts with arbitrary contents
        let fam: Vec<Fq> = family(3).into_iter().skip(1).collect();
        let mut ps = vec![];
        for e in &fam {
            let (p, q) = basis_pp(e, 2, L);
            v.extend(e.encode());
            xy(&mut v, &pt(&p));
            xy(&mut v, &pt(&q));
            ps.push((pt(&p), pt(&q)));
        }
        let c: Vec<Curve> = fam.iter().map(Curve::new).collect();
        for i in 0..2 {
            wr(&mut v, &SecretKey::new(&c[i], &ps[i], &ps[1 - i], &(big(12345 + i as u64), lp() - one())).encode());
        }
        for i in 0..3 {
            wr(&mut v, &TrapdoorOutput::new(&c[i % 2], &ps[0].0, &ps[i % 2].1, &c[1], &ps[1].0, &ps[0].1).encode());
        }
        return v;
    }
    let f = FESTACrypto::new();
    let keys: Vec<_> = [3, 4].iter().map(|i| { src(*i); f.keygen() }).collect();
    let m = inputs();
    for k in &keys {
        let (e, r, s) = k.0.extract();
        v.extend(e.get_constant().encode());
        xy(&mut v, &r);
        xy(&mut v, &s);
    }
    for k in &keys {
        wr(&mut v, &k.1.encode());
    }
    for (i, j) in [(0, 0), (1, 1), (0, 1)] {
        wr(&mut v, &f.trapdoor_eval(&keys[i].0, &m[j]).encode());
    }
    // 2^4 = 1 + 3 * 5: the kernel {(P, phi P) : P in E[2^4]} for phi of degree 15
    for e in family(2) {
        let k = padd(&e, &basis_pp(&e, 3, 1).0, &basis_pp(&e, 5, 1).1);
        let phi = RMap::new(&e, &k, &[(3, 1), (5, 1)], 1u32);
        let (p, q) = basis_pp(&e, 2, 6);
        let g = lifts(&e, 2);
        v.extend(e.encode());
        v.extend(phi.a.encode());
        for (x, y) in [(p, phi.map(&p)), (q, phi.map(&q)), (g[0], phi.map(&g[1]))] {
            xy(&mut v, &pt(&x));
            xy(&mut v, &pt(&y));
        }
    }
    v
}
fn inputs() -> Vec<TrapdoorInput> {
    let b = |x: u64| { let x = big(x) % lp(); let i = inv_mod(&x, &lp()).unwrap(); (x, i) };
    vec![TrapdoorInput::new(&big(1), &big(2), &b(5)), TrapdoorInput::new(&big(2), &big(11), &b(0x1237))]
}
fn ctx(b: &[u8]) -> Ctx {
    let mut r = Rd(b);
    let mut c = Ctx { pk: vec![], sk: vec![], ct: vec![], m: inputs(), kp: vec![] };
    for _ in 0..2 {
        let a = Curve::new(&r.fq());
        let (x, y) = (r.p(), r.p());
        c.pk.push(PublicKey::new(&a, &x, &y));
    }
    for _ in 0..2 {
        c.sk.push(SecretKey::decode(&r.raw().to_vec()));
    }
    for _ in 0..3 {
        c.ct.push(TrapdoorOutput::decode(&r.raw().to_vec()));
    }
    for _ in 0..if TOY { 2 } else { 0 } {
        let e = EllipticProduct::new(&Curve::new(&r.fq()), &Curve::new(&r.fq()));
        let mut cp = || { let (x, y) = (r.p(), r.p()); CouplePoint::new(&x, &y) };
        let (p, q, x) = (cp(), cp(), cp());
        c.kp.push((e, p, q, x));
    }
    c
}

// ---------------------------------------------------------------- child process
fn digest(b: &[u8]) -> [u8; 16] {
    let mut o = [0; 16];
    o[..8].copy_from_slice(&run::fp(b).to_le_bytes());
    o[8..].copy_from_slice(&run::fp(&(b.len(), b, 7u8)).to_le_bytes());
    o
}
/// stdin: the blob; arguments: the operations, in order. Prints one digest per operation, then one of the arguments.
/// "=a:b:k" stops operation a at its k-th scheduling point, runs b to its end on another thread, and resumes a.
fn child(words: &[String]) {
    let mut b = vec![];
    std::io::stdin().read_to_end(&mut b).unwrap();
    let c = ctx(&b);
    let ops = list();
    let near: Vec<Near> = if words.iter().any(|w| !w.starts_with('=') && w.parse::<usize>().unwrap() >= ops.len()) { near().into_iter().flatten().collect() } else { vec![] };
    let mut out: Vec<u8> = vec![];
    let one = |i: usize, k: usize| -> [u8; 16] {
        let o = |c: &Ctx, f: &Inst| if i < ops.len() { ops[i].1(c, f) } else { near[i - ops.len()].1(c, f) };
        // mostly the shared instance, every fifth time a fresh one; every seventh time on a thread of its own
        if TOY && k % 5 == 4 {
            digest(&o(&c, &&FESTACrypto::new()))
        } else if k % 7 == 6 {
            std::thread::scope(|s| s.spawn(|| digest(&o(&c, &Shared))).join().unwrap())
        } else {
            digest(&o(&c, &Shared))
        }
    };
    for (k, w) in words.iter().enumerate() {
        if let Some(x) = w.strip_prefix('=') {
            let n: Vec<u64> = x.split(':').map(|x| x.parse().unwrap()).collect();
            let (a, b, t) = (n[0] as usize, n[1] as usize, n[2]);
            shared();
            GATE.store(0, Ordering::SeqCst);
            let (ra, rb, cnt) = std::thread::scope(|s| {
                let h = s.spawn(|| {
                    COUNT.with(|c| c.set(0));
                    TARGET.with(|c| c.set(t));
                    ON.with(|c| c.set(true));
                    let r = ops[a].1(&c, &Shared);
                    ON.with(|c| c.set(false));
                    (digest(&r), COUNT.with(|c| c.get()))
                });
                let t0 = Instant::now();
                while GATE.load(Ordering::SeqCst) == 0 && !h.is_finished() {
                    std::thread::yield_now();
                    if t0.elapsed() > Duration::from_secs(60) {
                        break;
                    }
                }
                let g = s.spawn(|| digest(&ops[b].1(&c, &Shared)));
                let t0 = Instant::now();
                // b waits for something a holds: this schedule does not exist, let a go on
                while !g.is_finished() && t0.elapsed() < Duration::from_secs(20) {
                    std::thread::yield_now();
                }
                GATE.store(2, Ordering::SeqCst);
                let (ra, cnt) = h.join().unwrap();
                (ra, g.join().unwrap(), cnt)
            });
            out.extend(ra);
            out.extend(rb);
            out.extend(cnt.to_le_bytes());
            out.extend([0; 8]);
        } else {
            out.extend(one(w.parse().unwrap(), k));
        }
    }
    out.extend(digest(&c.bytes()));
    std::io::stdout().write_all(&out).unwrap();
}
fn call(blob: &[u8], words: &[String]) -> Result<Vec<[u8; 16]>, String> {
    let mut p = Command::new(std::env::current_exe().unwrap()).arg("child").args(words).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| format!("spawn: {}", e))?;
    p.stdin.take().unwrap().write_all(blob).map_err(|e| format!("{}", e))?;
    let o = p.wait_with_output().map_err(|e| format!("{}", e))?;
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr);
        return Err(format!("the process fails ({}): {}", o.status, e.lines().take(2).collect::<Vec<_>>().join(" ")));
    }
    Ok(o.stdout.chunks(16).map(|c| c.try_into().unwrap()).collect())
}
/// sequence over 0..k that contains every word of length n (de Bruijn)
fn debruijn(k: usize, n: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, s: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                s.extend(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, k, n, a, s);
            for j in a[t - p] + 1..k {
                a[t] = j;
                db(t + 1, t, k, n, a, s);
            }
        }
    }
    let (mut a, mut s) = (vec![0; k * n + 1], vec![]);
    db(1, 1, k, n, &mut a, &mut s);
    s
}
fn build(o: &Opts) -> Vec<Space> {
    let t = o.thorough;
    let small = PP::L_POWER < 20;
    let blob = Arc::new(blob());
    let ops = list();
    let n = ops.len();
    let groups: Vec<Vec<String>> = near().into_iter().map(|g| g.into_iter().map(|o| o.0).collect()).collect();
    let names: Arc<Vec<String>> = Arc::new(ops.iter().map(|o| o.0.to_string()).chain(groups.iter().flatten().cloned()).collect());
    let all = names.len();
    let w1 = |x: &[usize]| x.iter().map(|i| i.to_string()).collect::<Vec<String>>();
    // each operation alone in a fresh process; the last digest is that of the arguments
    let args = digest(&ctx(&blob).bytes());
    let base: Vec<[u8; 16]> = {
        let mut v: Vec<Result<Vec<[u8; 16]>, String>> = vec![];
        for lo in (0..all).step_by(16) {
            v.extend(std::thread::scope(|s| {
                let hs: Vec<_> = (lo..all.min(lo + 16)).map(|i| { let (b, w) = (blob.clone(), w1(&[i])); s.spawn(move || call(&b, &w)) }).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
            }));
        }
        v.into_iter().enumerate().map(|(i, r)| match r { Ok(x) => x[0], Err(e) => panic!("{} alone: {}", names[i], e) }).collect()
    };
    let base = Arc::new(base);
    let check = {
        let (blob, base, names) = (blob.clone(), base.clone(), names.clone());
        move |w: &[usize]| -> Result<(), String> {
            let say = |k: usize| w[..=k].iter().skip(k.saturating_sub(4)).map(|i| names[*i].clone()).collect::<Vec<_>>().join("; ");
            let r = call(&blob, &w1(w)).map_err(|e| format!("history of {} operations starting {}: {}", w.len(), say(2.min(w.len() - 1)), e))?;
            ck!(r.len() == w.len() + 1, "history cut short");
            for (k, i) in w.iter().enumerate() {
                ck!(r[k] == base[*i], "{} returns something else at place {} of a history of {} (after ... {}) than alone in a fresh process", names[*i], k + 1, w.len(), say(k));
                st(&(k.min(3), w[..=k].iter().rev().take(3).collect::<Vec<_>>()));
            }
            ck!(r[w.len()] == args, "a history of {} operations ending {} changed its arguments", w.len(), say(w.len() - 1));
            Ok(())
        }
    };
    let mut v = vec![];
    // fresh processes: all words of length 1 and 2, and the words aab, aba
    {
        let (c, nm) = (check.clone(), names.clone());
        v.push(space("pairs", n * n, if TOY { "all words of two operations, each continued to a, b, a, b, b, a in one fresh process" } else { "all words a, b, a of two operations, each in one fresh process" }, move |i| {
            let (a, b) = (i as usize / n, i as usize % n);
            sample(|| format!("{}; {}; ...", nm[a], nm[b]));
            c(&[a, b, a, b, b, a][..if TOY { 6 } else { 3 }])
        }).chunk(4).complete());
    }
    // the same among operations of one kind whose arguments agree in part
    {
        let mut jobs: Vec<(usize, usize)> = vec![];
        let mut lo = n;
        for g in &groups {
            for a in 0..g.len() {
                // (published parameters: one of the two orders; both come first in a, b, a)
                for b in if TOY { 0 } else { a }..g.len() {
                    jobs.push((lo + a, lo + b));
                }
            }
            lo += g.len();
        }
        let (c, nm) = (check.clone(), names.clone());
        v.push(space("near", jobs.len(), &format!("{} groups of operations of one kind ({} in all) whose arguments agree in part (same j-invariant, same x, same curve, same order, same scalar, ...): all words of two of a group, each in one fresh process{}", groups.len(), all - n, if TOY { ", continued to a, b, a, b, b, a" } else { ", continued to a, b, a" }), move |i| {
            let (a, b) = jobs[i as usize];
            sample(|| format!("{}; {}; ...", nm[a], nm[b]));
            c(&[a, b, a, b, b, a][..if TOY { 6 } else { 3 }])
        }).chunk(4).complete());
    }
    if !TOY {
        return v;
    }
    // every word of three operations, along long histories
    if t || small {
        let mut d = debruijn(n, 3);
        let e: Vec<usize> = d[..2].to_vec();
        d.extend(e);
        let m = 400;
        let k = d.len().div_ceil(m);
        let (d, c) = (Arc::new(d), check.clone());
        v.push(space("triples", k, &format!("every word of three of the {} operations, along {} long histories (a de Bruijn sequence)", n, k), move |i| {
            let lo = i as usize * m;
            c(&d[lo..(lo + m + 2).min(d.len())])
        }).chunk(1).complete());
    }
    // one operation very often, then everything else
    {
        let c = check.clone();
        let m = if t { 1500 } else { 120 };
        v.push(space("repetitions", n, &format!("one operation {} times, then every operation", m), move |i| {
            let mut w = vec![i as usize; m];
            w.extend(0..n);
            c(&w)
        }).chunk(1));
    }
    if t {
        let c = check.clone();
        v.push(space("fresh-triples", n * n * n, "all words of three operations, each in a fresh process", move |i| {
            let i = i as usize;
            c(&[i / n / n, i / n % n, i % n])
        }).chunk(8).complete());
    }
    // preemptions
    if t || small {
        let (blob, base, names) = (blob.clone(), base.clone(), names.clone());
        let per = if t { 400 } else { 30 };
        v.push(space("preemptions", n * n, &format!("all ordered pairs of operations on one shared instance from two threads: the first is stopped at up to {} of its scheduling points (allocations; all of them when it has fewer), the second runs to its end, the first goes on", per), move |i| {
            let (a, b) = (i as usize / n, i as usize % n);
            let run = |ks: &[u64]| -> Result<Vec<u64>, String> {
                let w: Vec<String> = ks.iter().map(|k| format!("={}:{}:{}", a, b, k)).collect();
                let r = call(&blob, &w).map_err(|e| format!("{} stopped for {}: {}", names[a], names[b], e))?;
                let mut cnt = vec![];
                for (j, k) in ks.iter().enumerate() {
                    ck!(r[3 * j] == base[a], "{} returns something else when stopped at its scheduling point {} while {} runs on the same instance", names[a], k, names[b]);
                    ck!(r[3 * j + 1] == base[b], "{} returns something else while {} is stopped at its scheduling point {}", names[b], names[a], k);
                    cnt.push(u64::from_le_bytes(r[3 * j + 2][..8].try_into().unwrap()));
                    st(&(a, b, k));
                }
                Ok(cnt)
            };
            let m = run(&[1])?[0];
            let ks: Vec<u64> = if m <= per { (2..=m).collect() } else { (1..=per).map(|j| 1 + (j * (m - 1)) / per).collect() };
            if !ks.is_empty() {
                run(&ks)?;
            }
            Ok(())
        }).chunk(2));
    }
    v
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "child").unwrap_or(false) {
        return child(&a[2..]);
    }
    run::main(build)
}
