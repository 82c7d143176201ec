//! C01 round trip, C02 key generation, C03 evaluation, C04/C27 encodings, C22 mask recovery, C24 histories, C28 key space.
#![allow(non_snake_case)]
use festa_rs::ecFESTA::*;
use festa_rs::festa::*;
use festa_rs::fields::FpFESTAExt as PP;
use festa_rs::pairing::weil_pairing;
use festa_rs::supersingular::*;
use mc::ck;
use mc::ecref::*;
use mc::refm::*;
use mc::run::{self, guarded, sample, space, st, Opts, Space};
use num_bigint::BigUint;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

const TOY: bool = cfg!(festa_mc);
const L: u32 = PP::L_POWER;

pub fn festa() -> &'static FESTACrypto {
    static F: OnceLock<FESTACrypto> = OnceLock::new();
    F.get_or_init(FESTACrypto::new)
}
fn lp() -> BigUint {
    one() << L
}
fn d1() -> BigUint {
    BigUint::from_slice(&PP::D1)
}
fn d2() -> BigUint {
    BigUint::from_slice(&PP::D2)
}
/// the i-th answer of the random source: first bytes, then a stream from the seed
fn script(i: usize) -> (Vec<u8>, u64) {
    let n = (2 * L as usize).div_ceil(8) + 24;
    let b = match i {
        0 => vec![],
        1 => vec![0; n],
        2 => vec![0xff; n],
        3 => (0..n).map(|t| (t * 29 + 7) as u8).collect(),
        4 => vec![0x55; n],
        5 => vec![0xaa; n],
        6 => (0..n).map(|t| if t < n / 2 { 0xff } else { 0 }).collect(),
        7 => (0..n).map(|t| if t < n / 2 { 0 } else { 0xff }).collect(),
        _ => vec![],
    };
    (b, i as u64 * 7919 + 11)
}
fn gen(i: usize) -> (PublicKey, SecretKey) {
    let (b, s) = script(i);
    rand::mc::set(&b, s);
    festa().keygen()
}
type Key = (PublicKey, SecretKey);
fn key_of(i: usize) -> Arc<Key> {
    static M: OnceLock<Mutex<HashMap<usize, Arc<OnceLock<Arc<Key>>>>>> = OnceLock::new();
    let c = M.get_or_init(|| Mutex::new(HashMap::new())).lock().unwrap_or_else(|e| e.into_inner()).entry(i).or_insert_with(|| Arc::new(OnceLock::new())).clone();
    c.get_or_init(|| Arc::new(gen(i))).clone()
}
fn inv2(b: &BigUint) -> BigUint {
    inv_mod(b, &lp()).expect("odd")
}
fn norm(b: &BigUint) -> (BigUint, BigUint) {
    let i = inv2(b);
    if *b > &lp() >> 1 {
        (lp() - b, lp() - i)
    } else {
        (b.clone(), i)
    }
}
/// masks: extremes, one bit set, one bit cleared, and structured ones
fn masks() -> Vec<BigUint> {
    let m = lp();
    let h = &m >> 1;
    let mut v = vec![one(), &m - one(), &h - one(), &h + one(), big(3), &m - big(3), inv2(&big(3)), inv2(&big(5)), big(5)];
    for k in (2..L).step_by(if L > 100 { 13 } else { 1 }) {
        v.push((one() << k) + one());
        v.push(&m - one() - (one() << k));
    }
    let mut x = big(7);
    for _ in 0..24 {
        x = (&x * &x * big(0x9e3779b97f4a7c15) + big(12345679)) % &m;
        x.set_bit(0, true);
        v.push(x.clone());
    }
    v
}
fn all_masks() -> Vec<BigUint> {
    (0..1u64 << ((L - 1) % 40)).map(|k| big(2 * k + 1)).collect()
}
/// scalars modulo d: extremes, multiples of its primes
fn scalars(f: &[(u32, u32)]) -> Vec<BigUint> {
    let d = order_of(f);
    if d.bits() < 10 {
        return (0..order_u64(f)).map(big).collect();
    }
    let mut v = vec![zero(), &d - one(), one(), big(2)];
    for (l, _) in f {
        v.push(big(*l as u64));
        v.push(&d / *l);
        v.push(&d - big(*l as u64));
        v.push(&d - &d / *l);
    }
    v.push(&d / 2u32);
    v
}
fn ti(s1: &BigUint, s2: &BigUint, b: &BigUint) -> TrapdoorInput {
    TrapdoorInput::new(s1, s2, &(b.clone(), inv2(b)))
}
fn points_of(c: &TrapdoorOutput) -> (Fq, Pt, Pt, Fq, Pt, Pt) {
    let (e1, r1, s1, e2, r2, s2) = c.extract();
    (e1.get_constant(), val(&r1), val(&s1), e2.get_constant(), val(&r2), val(&s2))
}
/// the basis of order 2^L_POWER of E0 that the scheme publishes images of
fn e0_basis() -> (Pt, Pt) {
    static B: OnceLock<(Pt, Pt)> = OnceLock::new();
    *B.get_or_init(|| {
        let (p, q) = entangled_torsion_basis(&Curve::new(&six()), &(BigUint::from_slice(&PP::BASIS_ORDER) >> L));
        (val(&p), val(&q))
    })
}
fn canon(a: &Fq, f: &[(u32, u32)]) -> (Pt, Pt) {
    let (p, q) = torsion_basis(&Curve::new(a), f, L as usize);
    (val(&p), val(&q))
}

/// the key that key generation returns when it draws the same isogenies and the mask (n11, n22)
fn remask(k: &Key, n11: &BigUint, n22: &BigUint) -> Key {
    let (e, r, s) = k.0.extract();
    let (ep, x, y, (a11, a22)) = k.1.extract();
    let m = lp();
    let (r, s) = (e.mul_big(&r, &(inv2(&a11) * n11 % &m)), e.mul_big(&s, &(inv2(&a22) * n22 % &m)));
    (PublicKey::new(&e, &r, &s), SecretKey::new(&ep, &x, &y, &(n11.clone(), n22.clone())))
}
/// pairs of key masks: every relation a shortcut could rest on (equal, one bit apart, opposite, inverse, same low or high words, short)
fn mask_pairs() -> Vec<(BigUint, BigUint)> {
    let m = lp();
    let mut v = vec![];
    let g: BigUint = (big(0x9e3779b97f4a7c15) * big(0xd1342543de82ef95) * big(0xaf251af3b0f025b5) * &m / 3u32 + (one() << (L - 1))) % &m | one();
    for a in [one(), g.clone(), &m - one()] {
        for b in [one(), a.clone(), &m - &a, inv2(&a), &m - inv2(&a), &a * &a % &m, (&m >> 1) + one(), (&m >> 1) - one(), &m - one()] {
            v.push((a.clone(), b));
        }
        for k in 1..L {
            v.push((a.clone(), &a ^ (one() << k)));
            v.push((&a ^ (one() << k), a.clone()));
            let low = &a % (one() << k) | one();
            v.push((a.clone(), low.clone()));
            v.push((low.clone(), &a ^ &low ^ one()));
        }
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

// ------------------------------------------------------------------------------------------------ C01
fn round(k: &Key, c: &TrapdoorOutput, sk: &SecretKey, s1: &BigUint, s2: &BigUint, b: &BigUint, tag: &str) -> Result<(), String> {
    let _ = k;
    let r = festa().trapdoor_inverse(c, sk);
    let (x1, x2, m) = r.extract();
    let w = norm(b);
    ck!(x1 == *s1, "{}: s1 = {} came back as {}", tag, s1, x1);
    ck!(x2 == *s2, "{}: s2 = {} came back as {}", tag, s2, x2);
    ck!(m == w, "{}: B = ({:x}, ..) came back as ({:x}, {:x}), expected ({:x}, {:x})", tag, b, m.0, m.1, w.0, w.1);
    Ok(())
}
fn c01(t: bool, out: &mut Vec<Space>) {
    let (s1s, s2s, ms) = (Arc::new(scalars(&PP::D1_FACTORED)), Arc::new(scalars(&PP::D2_FACTORED)), Arc::new(masks()));
    let one_case = |ki: usize, s1: &BigUint, s2: &BigUint, b: &BigUint, enc: bool| -> Result<(), String> {
        let k = key_of(ki);
        let tag = format!("key {} s1={} s2={} b11={:x}{}", ki, s1, s2, b, if enc { " (through the encodings)" } else { "" });
        let c = festa().trapdoor_eval(&k.0, &ti(s1, s2, b));
        if enc {
            let c = TrapdoorOutput::decode(&c.encode());
            let sk = SecretKey::decode(&k.1.encode());
            round(&k, &c, &sk, s1, s2, b, &tag)?;
        } else {
            round(&k, &c, &k.1, s1, s2, b, &tag)?;
        }
        st(&tag);
        sample(|| tag);
        Ok(())
    };
    if TOY {
        let nk = if t { 40 } else { 8 };
        // every (s1, s2), masks and keys rotating
        let (n1, n2) = (s1s.len(), s2s.len());
        let pairs: Vec<(usize, usize)> = (0..n1 * n2).map(|i| (i / n2, i % n2)).filter(|(i, j)| t || n1 * n2 < 200 || [0, 1, n1 / 2, n1 - 1].contains(i) && (j % 2 == 0 || *j > n2 - 3) || [0, n2 - 1].contains(j)).collect();
        let per = if n1 * n2 < 200 { if t { nk } else { 8 } } else { 1 };
        let (a, b, m, oc) = (s1s.clone(), s2s.clone(), ms.clone(), one_case);
        let full = pairs.len() == n1 * n2;
        let x = space("inputs", pairs.len() * per, &format!("{} of {} pairs (s1, s2) x {} keys, masks rotating through extremes and single bits, every third through the byte encodings", pairs.len(), n1 * n2, per), move |i| {
            let (i, k) = (i as usize % pairs.len(), i as usize / pairs.len());
            let (u, v) = pairs[i];
            oc(if per == 1 { i % 8 } else { k }, &a[u], &b[v], &m[(i * 5 + k) % m.len()], (i + k) % 3 == 0)
        });
        out.push(if full { x.complete() } else { x });
        // every odd mask (nano), or all listed ones
        let am = Arc::new(if L < 20 { if t { all_masks() } else { all_masks().into_iter().step_by(8).chain(masks()).collect() } } else { masks() });
        let (a, b, oc) = (s1s.clone(), s2s.clone(), one_case);
        let (amc, kk) = (am.clone(), if t || L < 20 { 1 } else { 3 });
        out.push(space("masks", am.len() * kk, &format!("{} odd masks x {} keys, (s1, s2) rotating", am.len(), kk), move |i| {
            let (i, k) = (i as usize % amc.len(), i as usize / amc.len());
            oc(if kk == 1 { i % 6 } else { k }, &a[(i * 3 + k) % a.len()], &b[(i * 7 + k) % b.len()], &amc[i], i % 4 == 1)
        }));
        // every relation between the two masks of a key
        let pairs = if L < 20 {
            let n = 1u64 << (L - 1);
            let mut v = mask_pairs();
            v.extend((0..n).step_by(if t { 1 } else { 8 }).map(|i| (big(2 * (i * 2741 % n) + 1), big(2 * i + 1))));
            v
        } else {
            mask_pairs()
        };
        let (a, b, m) = (s1s.clone(), s2s.clone(), ms.clone());
        out.push(space("key-masks", pairs.len(), &format!("{} pairs of key masks (equal, one bit apart, opposite, inverse, common low or high parts), keys, inputs and masks rotating", pairs.len()), move |i| {
            let i = i as usize;
            let (n11, n22) = &pairs[i];
            let k = remask(&key_of(i % 8), n11, n22);
            let (s1, s2, bm) = (&a[(i * 5 + 1) % a.len()], &b[(i * 3 + 2) % b.len()], &m[i * 7 % m.len()]);
            let tag = format!("key {} with masks ({:x}, {:x}), s1={} s2={} b11={:x}", i % 8, n11, n22, s1, s2, bm);
            round(&k, &festa().trapdoor_eval(&k.0, &ti(s1, s2, bm)), &k.1, s1, s2, bm, &tag)?;
            st(&tag);
            sample(|| tag);
            Ok(())
        }));
        // many keys
        let (a, b, m, oc) = (s1s, s2s, ms, one_case);
        let n = if t { 4000 } else { 240 };
        out.push(space("keys", n, &format!("{} further keys, two inputs each", n), move |i| {
            let i = i as usize;
            for j in 0..2 {
                oc(8 + i, &a[(i * 11 + j) % a.len()], &b[(i * 13 + j * 5) % b.len()], &m[(i + j) % m.len()], j == 0)?;
            }
            Ok(())
        }));
    } else {
        // keys 1 (all-zero answers) and 2 (all-one answers)
        let cases: Vec<(usize, BigUint, BigUint, BigUint)> = {
            let (e1, e2) = (d1() - one(), d2() - one());
            let (p1, p2) = (PP::D1_FACTORED.last().unwrap().0, PP::D2_FACTORED.last().unwrap().0);
            let mut v = vec![
                (1, zero(), e2.clone(), lp() - one()),
                (1, e1.clone(), zero(), one()),
                (2, d1() / p1, big(p2 as u64), (lp() >> 1) + one()),
                (2, big(p1 as u64), d2() / p2, (lp() >> 1) - one()),
            ];
            if t {
                for i in 0..60 {
                    v.push((1 + i % 6, s1s[i * 7 % s1s.len()].clone(), s2s[i * 11 % s2s.len()].clone(), ms[i * 3 % ms.len()].clone()));
                }
            }
            v
        };
        let mp = mask_pairs();
        let g = mp[9].0.clone();
        let mut kp = vec![
            (one(), one()),
            (g.clone(), &g ^ (one() << 32)),
            (g.clone(), &g ^ (one() << (L - 1))),
            (&g ^ big(2), g.clone()),
        ];
        if t {
            kp.extend([32u32, 64, 128, 256, 600].iter().map(|k| (g.clone(), &g ^ (one() << *k))));
            kp.extend(mp.into_iter().step_by(97));
        }
        let (a, b, m) = (s1s.clone(), s2s.clone(), ms.clone());
        out.push(space("key-masks", kp.len(), &format!("{} pairs of key masks (equal, one bit apart, common low or high parts), inputs and masks rotating", kp.len()), move |i| {
            let i = i as usize;
            let (n11, n22) = &kp[i];
            let k = remask(&key_of(1 + i % 2), n11, n22);
            let (s1, s2, bm) = (&a[(i * 5 + 1) % a.len()], &b[(i * 3 + 2) % b.len()], &m[i * 7 % m.len()]);
            let tag = format!("key {} with masks ({:x}, {:x}), s1={} s2={} b11={:x}", 1 + i % 2, n11, n22, s1, s2, bm);
            round(&k, &festa().trapdoor_eval(&k.0, &ti(s1, s2, bm)), &k.1, s1, s2, bm, &tag)?;
            st(&tag);
            sample(|| tag);
            Ok(())
        }).chunk(1));
        out.push(space("real-round-trips", cases.len(), "published parameters: extreme inputs and masks, keys from all-zero and all-one answers", move |i| {
            let (k, s1, s2, b) = &cases[i as usize];
            one_case(*k, s1, s2, b, i % 2 == 0)
        }).chunk(1));
    }
}

// ------------------------------------------------------------------------------------------------ C02
/// all reference maps a -> . with kernel a cyclic subgroup of order f
fn all_maps(a: &Fq, f: &[(u32, u32)]) -> Vec<RMap> {
    let bs: Vec<(Pt, Pt)> = f.iter().map(|x| basis_pp(a, x.0, x.1)).collect();
    let n: u64 = f.iter().map(|(l, e)| (*l as u64).pow(*e - 1) * (*l as u64 + 1)).product();
    (0..n).map(|j| {
        let (mut k, mut j): (Pt, u64) = (None, j);
        for ((l, e), (p, q)) in f.iter().zip(&bs) {
            let (l, pe) = (*l as u64, (*l as u64).pow(*e));
            let m = pe / l * (l + 1);
            let c = j % m;
            j /= m;
            let x = if c < pe { padd(a, p, &pmulu(a, q, c)) } else { padd(a, &pmulu(a, p, (c - pe) * l), q) };
            k = padd(a, &k, &x);
        }
        RMap::new(a, &k, f, 1u32)
    }).collect()
}
fn maps_e0() -> &'static Vec<RMap> {
    static M: OnceLock<Vec<RMap>> = OnceLock::new();
    M.get_or_init(|| all_maps(&six(), &PP::DA1_FACTORED))
}
/// all two-step walks a -> b (steps cyclic of order f), found by meeting in the middle on j-invariants
fn walks(first: &[RMap], b: &Fq, f: &[(u32, u32)]) -> Vec<(RMap, (Fq, Fq, Fq), RMap)> {
    let mut back: HashMap<Vec<u8>, Vec<usize>> = HashMap::new();
    let bm = all_maps(b, f);
    for (i, m) in bm.iter().enumerate() {
        back.entry(mc::ecref::key(&jinv(&m.a))).or_default().push(i);
    }
    let jb = jinv(b);
    let mut v = vec![];
    for m in first {
        if let Some(_) = back.get(&mc::ecref::key(&jinv(&m.a))) {
            for g in all_maps(&m.a, f) {
                if eq(&jinv(&g.a), &jb) {
                    for i in isos(&g.a, b) {
                        v.push((m.clone(), i, g.clone()));
                    }
                }
            }
        }
    }
    v
}
fn walk(w: &(RMap, (Fq, Fq, Fq), RMap), p: &Pt) -> Pt {
    iso(&w.1, &w.2.map(&w.0.map(p)))
}
fn same_sign(x: &[Pt], y: &[Pt]) -> bool {
    x.iter().zip(y).all(|(x, y)| same(x, y)) || x.iter().zip(y).all(|(x, y)| same(&neg(x), y))
}
fn consistent(k: &Key, tag: &str, deep: bool) -> Result<(), String> {
    let (EA, R, S) = k.0.extract();
    let (EP, (x1, x2), (y1, y2), (a11, a22)) = k.1.extract();
    let (a, ap) = (EA.get_constant(), EP.get_constant());
    let (r, s) = (val(&R), val(&S));
    let (x1, x2, y1, y2) = (val(&x1), val(&x2), val(&y1), val(&y2));
    ck!(on(&a, &r) && on(&a, &s), "{}: public points off the public curve", tag);
    for (n, p) in [("R", &r), ("S", &s)] {
        ck!(lexp(&a, p, 2, L) == Some(L), "{}: {} does not have order 2^{}", tag, n, L);
    }
    let half = |p: &Pt| mulr(&a, p, &(one() << (L - 1)));
    ck!(!same(&half(&r), &half(&s)), "{}: the public points are dependent", tag);
    ck!(a11.bit(0) && a22.bit(0) && a11 < lp() && a22 < lp(), "{}: mask out of range: {:x}, {:x}", tag, a11, a22);
    ck!(on(&ap, &x1) && on(&ap, &x2) && on(&ap, &y1) && on(&ap, &y2), "{}: secret points off their curve", tag);
    // orders of the stored points
    let mut fb = PP::D1_FACTORED.to_vec();
    fb.insert(0, (2, L));
    for (n, p, f) in [("first image of the E0 basis", &x1, &fb), ("second image of the E0 basis", &x2, &fb), ("first d2 point", &y1, &PP::D2_FACTORED.to_vec()), ("second d2 point", &y2, &PP::D2_FACTORED.to_vec())] {
        let n0 = order_of(f);
        ck!(mulr(&ap, p, &n0).is_none(), "{}: {} has the wrong order", tag, n);
        for (l, _) in f.iter() {
            ck!(mulr(&ap, p, &(&n0 / *l)).is_some(), "{}: {} has the wrong order (factor {})", tag, n, l);
        }
    }
    // pairing relations of the whole key
    let (pb, qb) = e0_basis();
    let (pd, qd) = canon(&six(), &PP::D1_FACTORED);
    let (u, v) = (padd(&six(), &pb, &pd), padd(&six(), &qb, &qd));
    let (da1, da2) = (BigUint::from_slice(&PP::DA1), BigUint::from_slice(&PP::DA2));
    let nb = lp() * d1();
    let e0 = Curve::new(&six());
    let w = weil_pairing(&e0, &pt(&u), &pt(&v), &nb).pow_big(&da1);
    ck!(eq(&w, &weil_pairing(&EP, &pt(&x1), &pt(&x2), &nb)), "{}: pairing of the stored images is not the dA1-th power", tag);
    let w = weil_pairing(&e0, &pt(&pb), &pt(&qb), &lp()).pow_big(&((&da1 * &da2 * &a11 * &a22) % lp()));
    ck!(eq(&w, &weil_pairing(&EA, &R, &S, &lp())), "{}: pairing of the public points does not fit degrees and masks", tag);
    let (g, h) = canon(&a, &PP::D2_FACTORED);
    let w = weil_pairing(&EP, &pt(&y1), &pt(&y2), &d2());
    for (l, _) in PP::D2_FACTORED.iter() {
        ck!(w.pow_big(&(d2() / *l)).equals(&Fq::ONE) == 0, "{}: the stored d2 points are dependent (factor {})", tag, l);
    }
    if !deep {
        return Ok(());
    }
    // the isogenies themselves
    let w1: Vec<_> = walks(maps_e0(), &ap, &PP::DA1_FACTORED);
    ck!(!w1.is_empty(), "{}: EA' is not reached from E0 by isogenies of degree dA1", tag);
    let hit: Vec<_> = w1.iter().filter(|w| same_sign(&[walk(w, &u), walk(w, &v)], &[x1, x2])).collect();
    ck!(!hit.is_empty(), "{}: the stored images are not those of the E0 basis under any isogeny of degree dA1 to EA'", tag);
    let f2 = all_maps(&ap, &PP::DA2_FACTORED);
    let w2 = walks(&f2, &a, &PP::DA2_FACTORED);
    ck!(!w2.is_empty(), "{}: EA is not reached from EA' by isogenies of degree dA2", tag);
    let (ai1, ai2) = (inv2(&a11), inv2(&a22));
    let un = [pmul(&a, &r, &ai1), pmul(&a, &s, &ai2)];
    let units: Vec<u64> = (1..order_u64(&PP::D2_FACTORED)).filter(|c| gcd(*c, order_u64(&PP::D2_FACTORED)) == 1).collect();
    let scaled = |w: &[Pt; 2]| units.iter().any(|c| same(&w[0], &pmulu(&a, &g, *c)) && same(&w[1], &pmulu(&a, &h, *c)));
    let ok = w2.iter().any(|w| scaled(&[walk(w, &y1), walk(w, &y2)]) && hit.iter().any(|v| same_sign(&[walk(w, &walk(v, &pb)), walk(w, &walk(v, &qb))], &un)));
    ck!(ok, "{}: no isogeny EA' -> EA of degree dA2 explains both the stored d2 points and the unmasked public points", tag);
    Ok(())
}
fn c02(t: bool, out: &mut Vec<Space>) {
    let n = if TOY { if t { 3000 } else if L < 20 { 300 } else if L < 40 { 160 } else { 64 } } else if t { 16 } else { 3 };
    out.push(space("keys", n, &format!("{} answers of the random source (constant, patterned and mixed streams): orders, independence, masks, pairings{}", n, if TOY { ", and the isogenies found by search over all kernels" } else { "" }), move |i| {
        let k = key_of(i as usize + if TOY { 0 } else { 1 });
        let tag = format!("random source #{}", i);
        consistent(&k, &tag, TOY)?;
        st(&k.1.encode());
        sample(|| tag);
        Ok(())
    }).chunk(1));
    if TOY {
        // the first bytes range over every value; the rest of the stream is fixed
        let n = if t { 16 * 256 } else if L < 40 { 8 * 32 } else { 2 * 32 };
        out.push(space("early-bytes", n, "each early byte of the random stream through its values: key generation ends and is consistent", move |i| {
            let (j, x) = if n == 16 * 256 { (i / 256, i % 256) } else { (i / 32 * 3, i % 32 * 8 + i / 32) };
            let mut b = vec![0x3c; 48];
            b[(j * 3) as usize % 48] = x as u8;
            rand::mc::set(&b, 5);
            let k = festa().keygen();
            consistent(&k, &format!("byte {} = {}", j * 3, x), true)?;
            st(&k.1.encode());
            Ok(())
        }).chunk(1));
    }
}

// ------------------------------------------------------------------------------------------------ C03
fn c03(t: bool, out: &mut Vec<Space>) {
    let (s1s, s2s, ms) = (Arc::new(scalars(&PP::D1_FACTORED)), Arc::new(scalars(&PP::D2_FACTORED)), Arc::new(masks()));
    let (n1, n2) = (s1s.len(), s2s.len());
    let nk = if !TOY { 1 } else if t { 12 } else { 3 };
    let cases: Vec<(usize, usize, usize, usize)> = if TOY {
        let mut v: Vec<(usize, usize)> = vec![];
        if n1 * n2 < 200 || t {
            for i in 0..n1 { for j in 0..n2 { v.push((i, j)); } }
        } else {
            for i in 0..n1.max(n2) { v.push((i % n1, i % n2)); v.push((i % n1, (i * 7 + 3) % n2)); }
        }
        (0..nk).flat_map(|k| v.iter().enumerate().map(move |(c, (i, j))| (k, *i, *j, c * 5 + k)).collect::<Vec<_>>()).collect()
    } else {
        if t { vec![(1, 0, 1, 1), (1, 1, 0, 0), (1, 5, 6, 20)] } else { vec![(1, 0, 1, 1), (1, 5, 6, 20)] }
    };
    // both sides of the square at once on toy parameters, as separate runs on the published ones
    let parts = if TOY { 1 } else { 2 };
    let n = cases.len() * parts;
    out.push(space("evaluations", n, &format!("{} keys, s1 and s2 over {}, masks rotating: both curves and all four points against the reference isogenies, orders and pairings", nk, if n1 * n2 < 200 || t && TOY { "all pairs" } else { "every value" }), move |i| {
        let (k, i1, i2, m) = cases[i as usize / parts];
        let key = key_of(k);
        let (s1, s2, b) = (&s1s[i1], &s2s[i2], &ms[m % ms.len()]);
        let tag = format!("key {} s1={} s2={} b11={:x}", k, s1, s2, b);
        let c = festa().trapdoor_eval(&key.0, &ti(s1, s2, b));
        let (a1, r1, t1, a2, r2, t2) = points_of(&c);
        let (EA, R, S) = key.0.extract();
        let bi = inv2(b);
        for (n, src, f, s, x, y, ad, u, v) in [("E1", six(), &PP::D1_FACTORED[..], s1, e0_basis().0, e0_basis().1, a1, r1, t1), ("E2", EA.get_constant(), &PP::D2_FACTORED[..], s2, val(&R), val(&S), a2, r2, t2)] {
            if parts == 2 && (i % 2 == 0) != (n == "E1") {
                continue;
            }
            let (p, q) = canon(&src, f);
            let kp = padd(&src, &p, &mulr(&src, &q, s));
            ck!(on(&ad, &u) && on(&ad, &v), "{}: points off {}", tag, n);
            for p in [&u, &v] {
                ck!(lexp(&ad, p, 2, L) == Some(L), "{}: a point on {} does not have order 2^{}", tag, n, L);
            }
            let d = order_of(f);
            let w = weil_pairing(&Curve::new(&src), &pt(&x), &pt(&y), &lp()).pow_big(&d);
            ck!(eq(&w, &weil_pairing(&Curve::new(&ad), &pt(&u), &pt(&v), &lp())), "{}: pairing on {} is not the degree-th power", tag, n);
            let rm = RMap::new(&src, &kp, f, 1u32);
            ck!(eq(&jinv(&rm.a), &jinv(&ad)), "{}: {} is not the prescribed quotient", tag, n);
            let img = [mulr(&rm.a, &rm.map(&x), b), mulr(&rm.a, &rm.map(&y), &bi)];
            ck!(matches(&rm.a, &ad, &img, &[u, v]), "{}: the points on {} are not the masked images", tag, n);
        }
        st(&tag);
        sample(|| tag);
        Ok(())
    }).chunk(1));
    // published parameters: the masks, against the unmasked evaluation of the same scalars (verified above)
    if !TOY {
        let m = lp();
        let mut v = vec![&m - one(), big(3), &m - big(3), inv2(&big(3)), &m - inv2(&big(3)), &m - big(0x10001), (one() << 64u32) + one(), &m - one() - (one() << 64u32), (one() << (L - 1)) - one(), (one() << (L - 1)) + one(), masks()[60].clone()];
        if t {
            v.extend(masks());
        }
        let plain: Arc<OnceLock<(Fq, Pt, Pt, Fq, Pt, Pt)>> = Arc::new(OnceLock::new());
        out.push(space("masks", v.len(), "one key and one pair of scalars: every mask (short, short negative, with a short inverse, around 2^64 and 2^(L-1), generic) gives the masked multiples of the unmasked evaluation", move |i| {
            let (key, b) = (key_of(1), &v[i as usize]);
            let ev = |b: &BigUint| points_of(&festa().trapdoor_eval(&key.0, &ti(&zero(), &one(), b)));
            let (a1, r1, t1, a2, r2, t2) = *plain.get_or_init(|| ev(&one()));
            let (c1, u1, w1, c2, u2, w2) = ev(b);
            let bi = inv2(b);
            ck!(matches(&a1, &c1, &[mulr(&a1, &r1, b), mulr(&a1, &t1, &bi)], &[u1, w1]), "b11 = {:x}: the points on E1 are not b11 and 1/b11 times the unmasked ones up to one sign", b);
            ck!(matches(&a2, &c2, &[mulr(&a2, &r2, b), mulr(&a2, &t2, &bi)], &[u2, w2]), "b11 = {:x}: the points on E2 are not b11 and 1/b11 times the unmasked ones up to one sign", b);
            st(&b);
            sample(|| format!("b11 = {:x}", b));
            Ok(())
        }).chunk(1));
    }
}

// ------------------------------------------------------------------------------------------------ C22
fn c22(t: bool, out: &mut Vec<Space>) {
    let fam = Arc::new(family(if TOY { 6 } else { 2 }));
    let am: Vec<BigUint> = if L < 20 { all_masks() } else { let mut m = masks(); m.extend((0..if t { 4000u64 } else if TOY { 400 } else { 16 }).map(|k| big(2 * k + 1))); if !TOY && !t { m = vec![one(), lp() - one(), (lp() >> 1) - one(), (lp() >> 1) + one(), big(5), m[m.len() / 2].clone(), m[m.len() - 20].clone(), inv2(&big(3))]; } m };
    let nc = if !TOY { 1 } else if t { 6 } else if L < 20 { 1 } else { 3 };
    let am = Arc::new(am);
    let bases: Arc<Vec<OnceLock<(Pt, Pt)>>> = Arc::new((0..nc).map(|_| OnceLock::new()).collect());
    let n = am.len();
    let x = space("recover", n * nc, &format!("{} odd masks{} x {} bases: recovered from the scaled image and from its negative", n, if L < 20 { " (all)" } else { "" }, nc), move |i| {
        let (ci, a) = (i as usize / n, &am[i as usize % n]);
        let e = &fam[ci];
        let (p, q) = bases[ci].get_or_init(|| { let (p, q) = basis_pp(e, 2, L); if ci % 2 == 0 { (p, q) } else { (padd(e, &p, &q), q) } });
        let c = Curve::new(e);
        // [d1 d1 d2 m1 alpha] P, as the dual isogeny delivers it
        let k = (d1() * d1() * d2() * BigUint::from_slice(&PP::M1)) % lp();
        let r = mulr(e, p, &((&k * a) % lp()));
        let w = norm(a);
        for (j, r) in [r, neg(&r)].iter().enumerate() {
            let (x, y) = festa().recover_diagB(&c, &rep(r, i as usize), &rep(p, ci + j), &rep(q, ci));
            ck!((&x * &y) % lp() == one() && x < lp() && y < lp(), "mask {:x}: recovered entries ({:x}, {:x}) do not multiply to 1", a, x, y);
            ck!((x.clone(), y.clone()) == w, "mask {:x} ({}): recovered ({:x}, {:x}), expected ({:x}, {:x})", a, if j == 0 { "+" } else { "-" }, x, y, w.0, w.1);
        }
        st(&(ci, a));
        sample(|| format!("mask {:x} on curve {}", a, ci));
        Ok(())
    });
    out.push(if L < 20 { x.complete() } else { x });
}

// ------------------------------------------------------------------------------------------------ C04, C27
fn elems() -> Vec<Fq> {
    let f = |x: u64| small(x);
    let z = Fq::ZETA;
    let mut v = vec![Fq::ZERO, Fq::ONE, Fq::MINUS_ONE, Fq::THREE, z, -z, f(255), f(256), f(255) * z, -f(256) * z + Fq::ONE, Fq::MINUS_ONE - z, six()];
    let mut g = f(3) + z;
    for _ in 0..12 {
        g = g * g + z;
        v.push(g);
    }
    v
}
fn ints82() -> Vec<BigUint> {
    let mut v = vec![one(), big(3), big(255), big(257), lp() - one(), (lp() >> 1) - one(), (lp() >> 1) + one()];
    for k in 1..L {
        v.push((one() << k) + one());
        v.push((one() << k) - one());
    }
    v
}
fn pe(p: &Point, q: &Point) -> bool {
    same(&val(p), &val(q))
}
const FL: usize = Fq::ENCODED_LENGTH;
fn c04(t: bool, out: &mut Vec<Space>) {
    let es = Arc::new(elems());
    let is = Arc::new(ints82());
    let ne = es.len();
    let total = FL * 9 + 164;
    let (e, v) = (es.clone(), is.clone());
    let m = is.len() * ne;
    out.push(space("secret-keys", m, "mask entries (every bit length) x coordinates (zero, one, maximal, generic) in rotating positions and projective scalings", move |i| {
        let (a, k) = (i as usize / ne, i as usize % ne);
        let x = |j: usize| e[(k * (j + 1) + j * 5 + a) % ne];
        let p = |j: usize| rep(&Some((x(j), x(j + 1))), j + k + a);
        let (b11, b22) = (v[a].clone(), v[(a * 3 + k) % v.len()].clone());
        let c = Curve::new(&x(0));
        let sk = SecretKey::new(&c, &(p(1), p(3)), &(p(5), p(7)), &(b11.clone(), b22.clone()));
        let b = sk.encode();
        ck!(b.len() == total, "secret key #{}: encoded in {} bytes instead of {}", i, b.len(), total);
        let d = SecretKey::decode(&b);
        let (c2, (p1, p2), (p3, p4), m2) = d.extract();
        ck!(eq(&c2.get_constant(), &x(0)), "secret key #{}: curve lost", i);
        ck!(pe(&p1, &p(1)) && pe(&p2, &p(3)) && pe(&p3, &p(5)) && pe(&p4, &p(7)), "secret key #{}: point lost", i);
        ck!(m2 == (b11, b22), "secret key #{}: masks lost", i);
        ck!(d.encode() == b, "secret key #{}: re-encoding differs", i);
        ck!(sk.encode() == b, "secret key #{}: encoding is not repeatable", i);
        st(&b);
        Ok(())
    }));
    let e = es.clone();
    out.push(space("ciphertexts", ne * ne * 4, "coordinates in rotating positions and projective scalings", move |i| {
        let (a, k) = (i as usize / ne, i as usize % ne);
        let x = |j: usize| e[(k * (j + 1) + a * (j * j + 1) + j) % ne];
        let p = |j: usize| rep(&Some((x(j), x(j + 1))), j + k + a);
        let (c1, c2) = (Curve::new(&x(0)), Curve::new(&x(9)));
        let o = TrapdoorOutput::new(&c1, &p(1), &p(3), &c2, &p(5), &p(7));
        let b = o.encode();
        ck!(b.len() == FL * 10, "ciphertext #{}: encoded in {} bytes instead of {}", i, b.len(), FL * 10);
        let d = TrapdoorOutput::decode(&b);
        let (e1, r1, s1, e2, r2, s2) = d.extract();
        ck!(eq(&e1.get_constant(), &x(0)) && eq(&e2.get_constant(), &x(9)), "ciphertext #{}: curve lost", i);
        ck!(pe(&r1, &p(1)) && pe(&s1, &p(3)) && pe(&r2, &p(5)) && pe(&s2, &p(7)), "ciphertext #{}: point lost", i);
        ck!(d.encode() == b, "ciphertext #{}: re-encoding differs", i);
        st(&b);
        Ok(())
    }));
    if TOY {
        let n = if t { 2000 } else { 200 };
        let (s1s, s2s, ms) = (scalars(&PP::D1_FACTORED), scalars(&PP::D2_FACTORED), masks());
        out.push(space("generated", n, "generated keys and ciphertexts: decode(encode(x)) equals x and works the same", move |i| {
            let i = i as usize;
            let k = key_of(i % 60);
            let b = k.1.encode();
            let d = SecretKey::decode(&b);
            ck!(d.encode() == b && b.len() == total, "key {}: re-encoding differs", i);
            let (c, x, y, m) = k.1.extract();
            let (c2, x2, y2, m2) = d.extract();
            ck!(eq(&c.get_constant(), &c2.get_constant()) && pe(&x.0, &x2.0) && pe(&x.1, &x2.1) && pe(&y.0, &y2.0) && pe(&y.1, &y2.1) && m == m2, "key {}: decoded key differs", i);
            let c = festa().trapdoor_eval(&k.0, &ti(&s1s[i % s1s.len()], &s2s[i * 3 % s2s.len()], &ms[i % ms.len()]));
            let b = c.encode();
            let d = TrapdoorOutput::decode(&b);
            let (p, q) = (points_of(&c), points_of(&d));
            ck!(d.encode() == b && eq(&p.0, &q.0) && eq(&p.3, &q.3) && same(&p.1, &q.1) && same(&p.2, &q.2) && same(&p.4, &q.4) && same(&p.5, &q.5), "ciphertext {}: decoded value differs", i);
            st(&b);
            Ok(())
        }));
    }
}
fn valid_sk() -> Vec<u8> {
    let e = elems();
    let p = |j: usize| pt(&Some((e[j], e[j + 1])));
    SecretKey::new(&Curve::new(&e[12]), &(p(13), p(15)), &(p(17), p(19)), &(big(12345), lp() - big(77))).encode()
}
fn valid_ct() -> Vec<u8> {
    let e = elems();
    let p = |j: usize| pt(&Some((e[j], e[j + 1])));
    TrapdoorOutput::new(&Curve::new(&e[12]), &p(13), &p(15), &Curve::new(&e[21]), &p(17), &p(19)).encode()
}
fn c27(t: bool, out: &mut Vec<Space>) {
    let _ = t;
    let (sk, ct) = (Arc::new(valid_sk()), Arc::new(valid_ct()));
    // every length
    for (what, v, is_sk) in [("secret key", sk.clone(), true), ("ciphertext", ct.clone(), false)] {
        let n = 2 * v.len() + 3;
        let vv = v.clone();
        out.push(space(&format!("lengths/{}", what), n * 3, "every length from 0 to twice the valid one (truncated, zero-padded, repeated): refused unless the length is exact", move |i| {
            let (len, how) = (i as usize / 3, i % 3);
            let mut b: Vec<u8> = match how { 0 => vv.iter().cycle().take(len).cloned().collect(), 1 => { let mut b = vv.to_vec(); b.resize(len, 0); b } _ => { let mut b = vv.to_vec(); b.reverse(); b.truncate(len); b.reverse(); b.resize(len, 0); b } };
            if len == vv.len() {
                b = vv.to_vec();
            }
            let r = guarded(|| if is_sk { SecretKey::decode(&b).encode() } else { TrapdoorOutput::decode(&b).encode() });
            if len == vv.len() {
                ck!(r == Ok(b.clone()), "{}: the valid encoding is not accepted", what);
            } else {
                ck!(r.is_err(), "{}: a byte string of length {} instead of {} is accepted", what, len, vv.len());
            }
            st(&(what, len, how));
            Ok(())
        }).complete());
        // every coordinate replaced by a non-canonical value
        let nf = if is_sk { 9 } else { 10 } * 2;
        let p = BigUint::from_slice(&PP::BIGUINT_MODULUS);
        let half = FL / 2;
        let top = one() << (8 * half);
        let mut bad = vec![p.clone(), &p + one(), &p + big(2), &top - one(), &top - &p, (&top + &p) >> 1];
        for k in 0..8 * half as u64 {
            let x = &p + (one() << k);
            if x < top {
                bad.push(x);
            }
        }
        bad.retain(|x| *x >= p && *x < top);
        let good = vec![zero(), one(), &p - one(), &p - big(2), &p >> 1];
        let (nb, ng) = (bad.len(), good.len());
        let vv = v.clone();
        out.push(space(&format!("coordinates/{}", what), nf * (nb + ng), &format!("{} coordinates x ({} non-canonical values: refused; {} canonical extremes: accepted and re-encoded alike)", nf, nb, ng), move |i| {
            let (f, j) = (i as usize / (nb + ng), i as usize % (nb + ng));
            let mut b = vv.to_vec();
            let x = if j < nb { &bad[j] } else { &good[j - nb] };
            b[f * half..(f + 1) * half].copy_from_slice(&bytes(x, half));
            let r = guarded(|| if is_sk { SecretKey::decode(&b).encode() } else { TrapdoorOutput::decode(&b).encode() });
            if j < nb {
                ck!(r.is_err(), "{}: coordinate {} = {:x} >= p is accepted{}", what, f, x, if r == Ok(b.clone()) { "" } else { " and re-encodes differently" });
            } else {
                ck!(r == Ok(b.clone()), "{}: coordinate {} = {:x} is refused or changed", what, f, x);
            }
            st(&(what, f, j));
            Ok(())
        }).complete());
        // every byte of the valid encoding, every value: either refused or re-encoded identically
        let vv = v.clone();
        let step: usize = if t || TOY { 1 } else { 9 };
        out.push(space(&format!("bytes/{}", what), v.len() * 256usize.div_ceil(step), "every byte of a valid encoding through its values: refused, or accepted and re-encoded identically", move |i| {
            let n = 256usize.div_ceil(step);
            let (f, j) = (i as usize / n, i as usize % n * step);
            let mut b = vv.to_vec();
            b[f] = j as u8;
            if let Ok(c) = guarded(|| if is_sk { SecretKey::decode(&b).encode() } else { TrapdoorOutput::decode(&b).encode() }) {
                ck!(c == b, "{}: byte {} = {} is accepted but re-encodes differently", what, f, j);
            }
            st(&(what, f, j));
            Ok(())
        }));
    }
}

// ------------------------------------------------------------------------------------------------ C28
/// f(0..n) on eight threads, in order
fn par<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let c = std::sync::atomic::AtomicUsize::new(0);
    let mut v: Vec<(usize, T)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8).map(|_| s.spawn(|| {
            let mut v = vec![];
            loop {
                let i = c.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= n { return v; }
                v.push((i, f(i)));
            }
        })).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
    });
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}
/// a stream of random answers
fn stream(tag: u64, i: usize) {
    rand::mc::set(&[], (tag << 40).wrapping_add(i as u64 + 1).wrapping_mul(0xd1342543de82ef95));
}
/// tries that leave a given one of n equally likely values unreached with probability below e^-16 / n
fn tries(n: u64) -> usize {
    (n as f64 * ((n as f64).ln() + 16.0)).ceil() as usize
}
fn rank(mut rows: Vec<BigUint>) -> usize {
    let mut r = 0;
    while let Some(x) = rows.pop() {
        if x.bits() == 0 {
            continue;
        }
        r += 1;
        let b = x.bits() - 1;
        for y in rows.iter_mut() {
            if y.bit(b) {
                *y ^= &x;
            }
        }
    }
    r
}
type Sum = (BigUint, BigUint, Vec<u8>, Vec<u8>);
fn summary(k: &Key) -> Sum {
    let (EA, _, _) = k.0.extract();
    let (EP, _, _, (a, b)) = k.1.extract();
    (a, b, key(&jinv(&EP.get_constant())), key(&jinv(&EA.get_constant())))
}
fn domain(k: &Sum, tag: &str) -> Result<(), String> {
    ck!(k.0.bit(0) && k.0 < lp() && k.1.bit(0) && k.1 < lp(), "{}: masks ({:x}, {:x}) are not odd numbers below 2^{}", tag, k.0, k.1, L);
    Ok(())
}
/// the cyclic subgroup generated by p, of order n
fn subgroup(a: &Fq, p: &Pt, n: u64) -> Vec<u8> {
    let mut m: Option<Vec<u8>> = None;
    let mut q = *p;
    for c in 1..n {
        if gcd(c, n) == 1 {
            let k = key(&q.expect("order").0);
            if m.as_ref().map_or(true, |x| k < *x) {
                m = Some(k);
            }
        }
        q = padd(a, &q, p);
    }
    m.unwrap()
}
fn psi(f: &[(u32, u32)]) -> u64 {
    f.iter().map(|(l, e)| (*l as u64).pow(*e - 1) * (*l as u64 + 1)).product()
}
fn reach_points(a: Fq, f: Vec<(u32, u32)>, tag: &str, out: &mut Vec<Space>) {
    let (n, d) = (psi(&f), order_u64(&f));
    let ev = if f[0].0 == 2 { 0 } else { L as usize };
    let t = tries(n);
    out.push(space(&format!("points/{}/{}", tag, d), 1, &format!("{} random answers: every point has full order {}, and all {} cyclic subgroups are reached", t, d, n), move |_| {
        let e = Curve::new(&a);
        let ps = par(t, |i| { stream(3, i); val(&generate_random_point_order_factored_D(&e, &f, ev)) });
        let mut hit: HashMap<Vec<u8>, usize> = HashMap::new();
        for (i, p) in ps.iter().enumerate() {
            ck!(on(&a, p) && p.is_some(), "random point #{} of order {} is not on the curve", i, d);
            for (l, x) in &f {
                ck!(lexp(&a, &mulr(&a, p, &(order_of(&f) / BigUint::from(*l).pow(*x))), *l, *x) == Some(*x), "random point #{} does not have order {}", i, d);
            }
            ck!(mulr(&a, p, &order_of(&f)).is_none(), "random point #{} does not have order {}", i, d);
            let s = subgroup(&a, p, d);
            st(&s);
            *hit.entry(s).or_default() += 1;
        }
        ck!(hit.len() as u64 == n, "random points of order {} generate only {} of the {} cyclic subgroups", d, hit.len(), n);
        sample(|| format!("order {}: {} subgroups from {} answers", d, n, t));
        Ok(())
    }));
}
fn reach_codomains(a: Fq, f: Vec<(u32, u32)>, steps: usize, tag: &str, out: &mut Vec<Space>) {
    let n = psi(&f).pow(steps as u32);
    let t = tries(n);
    out.push(space(&format!("isogenies/{}/{:?}x{}", tag, order_u64(&f), steps), 1, &format!("{} random answers: the codomains reached by {} random isogenies of degree {} are those of all {} kernel sequences", t, steps, order_u64(&f), n), move |_| {
        let e = Curve::new(&a);
        let js = par(t, |i| { stream(4, i); key(&jinv(&random_isogeny_x_only(&e, &f, steps).1.get_constant())) });
        let mut cur = vec![a];
        for _ in 0..steps {
            cur = par(cur.len(), |i| all_maps(&cur[i], &f).into_iter().map(|m| m.a).collect::<Vec<_>>()).into_iter().flatten().collect();
        }
        let want: std::collections::HashSet<Vec<u8>> = cur.iter().map(|x| key(&jinv(x))).collect();
        let got: std::collections::HashSet<Vec<u8>> = js.iter().cloned().collect();
        for j in &js {
            ck!(want.contains(j), "a random isogeny of degree {} ends on a curve that is not isogenous by that degree", order_u64(&f));
            st(j);
        }
        // walks that turn back need not be taken
        let turn = key(&jinv(&a));
        let miss = want.iter().filter(|j| !got.contains(*j) && **j != turn).count();
        ck!(miss == 0, "{} of {} codomains of {} isogenies of degree {} are never reached", miss, want.len(), steps, order_u64(&f));
        Ok(())
    }));
}
fn c28(t: bool, out: &mut Vec<Space>) {
    let nk = if !TOY { if t { 40 } else { 7 } } else if L < 10 { if t { 200_000 } else { 21_000 } } else if t { 4000 } else { 8 * L as usize };
    out.push(space("keygen", 1, &format!("{} streams of random answers: mask range, every bit of both masks varies and no linear relation holds among them{}, secret curves", nk, if L < 10 { ", all mask pairs" } else { "" }), move |_| {
        let ks = par(nk, |i| { stream(1, i); summary(&festa().keygen()) });
        for (i, k) in ks.iter().enumerate() {
            domain(k, &format!("stream {}", i))?;
            st(&(&k.0, &k.1, &k.2, &k.3));
        }
        // 1, the bits of a11 except the lowest, the bits of a22 except the lowest
        let rows: Vec<BigUint> = ks.iter().map(|k| one() + ((&k.0 >> 1) << 1) + ((&k.1 >> 1) << L)).collect();
        let r = rank(rows);
        let full = (2 * L - 1) as usize;
        if nk > 2 * full {
            ck!(r == full, "the masks of {} key generations satisfy {} linear relations among their bits: part of the key space is never reached", nk, full - r);
        } else {
            ck!(r == nk.min(full), "the masks of {} key generations are linearly dependent (rank {})", nk, r);
            for w in 0..L as usize / 16 {
                let win = |x: &BigUint| (x >> (16 * w)) & big(0xffff);
                ck!(ks.iter().any(|k| win(&k.0) != win(&ks[0].0)), "bits {}..{} of the first mask are the same in {} key generations", 16 * w, 16 * w + 16, nk);
                ck!(ks.iter().any(|k| win(&k.1) != win(&ks[0].1)), "bits {}..{} of the second mask are the same in {} key generations", 16 * w, 16 * w + 16, nk);
                ck!(ks.iter().any(|k| win(&k.0) != win(&k.1)), "bits {}..{} of the two masks agree in {} key generations", 16 * w, 16 * w + 16, nk);
            }
            ck!(ks.iter().any(|k| k.0.bits() > L.max(8) as u64 - 8) && ks.iter().any(|k| k.1.bits() > L.max(8) as u64 - 8), "the masks of {} key generations stay below 2^{}", nk, L.max(8) - 8);
        }
        for k in &ks {
            ck!((&k.0 * &k.1) % lp() != one() || L < 20, "the second mask is the inverse of the first");
        }
        if L < 10 {
            let set = |f: &dyn Fn(&Sum) -> Vec<u8>| ks.iter().map(|k| f(k)).collect::<std::collections::HashSet<_>>().len() as u64;
            let h = 1u64 << (L - 1);
            let e = |x: &BigUint| x.to_bytes_le();
            ck!(set(&|k| e(&k.0)) == h, "only {} of {} values of the first mask are reached", set(&|k| e(&k.0)), h);
            ck!(set(&|k| e(&k.1)) == h, "only {} of {} values of the second mask are reached", set(&|k| e(&k.1)), h);
            ck!(set(&|k| [e(&k.0), vec![0xff, 0xff], e(&k.1)].concat()) == h * h, "only {} of {} pairs of masks are reached", set(&|k| [e(&k.0), vec![0xff, 0xff], e(&k.1)].concat()), h * h);
            let (c1, c2) = (set(&|k| k.2.clone()), set(&|k| [k.2.clone(), k.3.clone()].concat()));
            ck!(set(&|k| [e(&k.0), vec![0xff, 0xff], k.2.clone()].concat()) == h * c1, "the first mask and the first secret curve are not independent");
            ck!(set(&|k| [e(&k.1), vec![0xff, 0xff], k.2.clone()].concat()) == h * c1, "the second mask and the first secret curve are not independent");
            let (p1, p2) = (psi(&PP::DA1_FACTORED), psi(&PP::DA2_FACTORED));
            // walks without turning back: psi * (psi - 1) for a prime degree; a few curves may coincide
            let (w1, w2) = (p1 * (p1 - 1), p2 * (p2 - 1));
            ck!(c1 >= w1 - w1 / 8, "only {} curves EA' are reached by {} kernel choices", c1, w1);
            ck!(c2 >= (w1 - w1 / 8) * (w2 - w2 / 3), "only {} pairs (EA', EA) are reached by {} kernel choices", c2, w1 * w2);
        } else {
            let d = ks.iter().map(|k| &k.2).collect::<std::collections::HashSet<_>>().len();
            ck!(d > nk / 8 && d > 1, "{} key generations use only {} secret curves", nk, d);
        }
        sample(|| format!("{} key generations, rank {} of {}", nk, r, full));
        Ok(())
    }));
    // one after the other on the same source: nothing is carried over
    let runs = if !TOY { 1 } else { 12 };
    let m = if !TOY { 2 } else { 10 };
    if L > 20 && (TOY || t) {
        out.push(space("successive", runs, &format!("{} consecutive key generations on one source: all secrets differ", m), move |i| {
            stream(2, i as usize);
            let mut ks: Vec<Sum> = vec![];
            for j in 0..m {
                let k = summary(&festa().keygen());
                domain(&k, &format!("key {}", j))?;
                for o in &ks {
                    ck!(o.0 != k.0 && o.1 != k.1 && o.0 != k.1 && o.1 != k.0, "key {} reuses a mask of an earlier key", j);
                    ck!(TOY || o.2 != k.2, "key {} reuses the secret curve of an earlier key", j);
                }
                ck!(k.0 != k.1, "key {} uses one mask twice", j);
                st(&(i, j, &k.0));
                ks.push(k);
            }
            ck!(ks.iter().any(|k| k.2 != ks[0].2), "the secret curve never changes");
            Ok(())
        }).chunk(1));
    }
    // the secrets depend on the answers alone, wherever in a long run the key is made
    if TOY {
        let m = if L < 10 { 1500 } else if L < 20 { 400 } else { 140 } * if t { 8 } else { 1 };
        out.push(space("positions", 1, &format!("{} key generations, then the same in the opposite order: the secrets of each are those its own random answers select", m), move |_| {
            let run = |i: usize| { stream(5, i); summary(&festa().keygen()) };
            let ks: Vec<Sum> = (0..m).map(run).collect();
            for i in (0..m).rev() {
                let k = run(i);
                ck!(k.0 == ks[i].0 && k.1 == ks[i].1, "key {}: other masks when the same random answers are used again later", i);
                ck!(k.2 == ks[i].2 && k.3 == ks[i].3, "key {}: other secret curves when the same random answers are used again later", i);
                st(&(i, &k.0, &k.1, &k.2));
            }
            sample(|| format!("{} key generations twice", m));
            Ok(())
        }));
    }
    // points and isogenies
    if TOY {
        let (_, gf) = group();
        for (ci, a) in family(3).into_iter().enumerate() {
            let mut fs: Vec<Vec<(u32, u32)>> = vec![];
            let odd: Vec<(u32, u32)> = gf.iter().cloned().filter(|x| x.0 != 2 && x.0 < 60).collect();
            for (l, e) in &odd {
                for k in 1..=*e {
                    if (*l as u64).pow(k) < 100 {
                        fs.push(vec![(*l, k)]);
                    }
                }
            }
            for (x, y) in odd.iter().zip(odd.iter().skip(1)) {
                if x.0 * y.0 < 150 {
                    fs.push(vec![(x.0, 1), (y.0, 1)]);
                }
            }
            fs.push(PP::DA1_FACTORED.to_vec());
            fs.push(PP::DA2_FACTORED.to_vec());
            fs.push(PP::D2_FACTORED.to_vec());
            fs.dedup();
            fs.retain(|f| psi(f) < if t { 2000 } else { 300 });
            for f in fs {
                reach_points(a, f.clone(), &format!("{}", ci), out);
                if psi(&f) < if t { 500 } else { 150 } && f[0].0 != 2 {
                    reach_codomains(a, f.clone(), 1, &format!("{}", ci), out);
                }
                if psi(&f) < if t { 60 } else { 15 } {
                    reach_codomains(a, f, 2, &format!("{}", ci), out);
                }
            }
        }
    } else {
        let (_, gf) = group();
        let mut small: Vec<(u32, u32)> = gf.iter().cloned().filter(|x| x.0 > 2 && x.0 < 80).map(|x| (x.0, 1)).collect();
        small.truncate(if t { 4 } else { 1 });
        for x in small {
            reach_points(six(), vec![x], "E0", out);
        }
    }
}

fn build(o: &Opts) -> Vec<Space> {
    let mut v = vec![];
    match o.prop.as_str() {
        "C01" => c01(o.thorough, &mut v),
        "C02" => c02(o.thorough, &mut v),
        "C03" => c03(o.thorough, &mut v),
        "C04" => c04(o.thorough, &mut v),
        "C22" => c22(o.thorough, &mut v),
        "C28" => c28(o.thorough, &mut v),
        "C27" => c27(o.thorough, &mut v),
        _ => {}
    }
    v
}
fn main() {
    run::main(build)
}
