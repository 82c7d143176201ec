//! C32 the shipped program (src/main.rs).
#![allow(non_snake_case)]
use festa_rs::fields::FpFESTAExt as PP;
use mc::ck;
use mc::run::{self, guarded, sample, space, st, Opts, Space};
use mcspy::festa as spy;
use num_bigint::BigUint;

const TOY: bool = cfg!(festa_mc);
const L: u32 = PP::L_POWER;

fn big(n: u64) -> BigUint {
    BigUint::from(n)
}
fn lp() -> BigUint {
    big(1) << L
}
fn stream(tag: u64, i: usize) {
    rand::mc::set(&[], (tag << 40).wrapping_add(i as u64 + 1).wrapping_mul(0xd1342543de82ef95));
}
/// answers of the random source that begin with n bytes of one value or pattern
fn script(i: usize) {
    let n = 3 * (PP::BASIS_ORDER.len() * 4) + 16;
    let b: Vec<u8> = match i % 8 {
        0 => vec![],
        1 => vec![0; n],
        2 => (0..n).map(|t| if t % 2 == 0 { 0 } else { 0xff }).collect(),
        3 => vec![1; n],
        4 => vec![0x55; n],
        5 => vec![0x80; n],
        6 => (0..n).map(|t| (t * 29 + 7) as u8).collect(),
        _ => vec![0x7f; n],
    };
    rand::mc::set(&b, 77 + i as u64);
}
/// a key and a ciphertext that only have to be encodable
fn spare() {
    use mcspy::ecFESTA::{Curve, Fq};
    let e = Curve::new(&(Fq::TWO + Fq::FOUR));
    let p = e.iter().next().unwrap();
    let q = e.double(&p);
    spy::prepare(spy::PublicKey::new(&e, &p, &q), spy::SecretKey::new(&e, &(p, q), &(q, p), &(big(1), big(1))), spy::TrapdoorOutput::new(&e, &p, &q, &e, &q, &p));
}
fn c32(t: bool, out: &mut Vec<Space>) {
    let (d1, d2) = (BigUint::from_slice(&PP::D1), BigUint::from_slice(&PP::D2));
    let n = if L < 20 { 120_000 } else if TOY { 60_000 } else { 6_000 } * if t { 10 } else { 1 };
    out.push(space("inputs", 1, &format!("{} random inputs drawn by the program under answers of the random source, with stand-ins for the three operations: in the domain of the trapdoor, in the form inversion returns, every first and second scalar{} and every bit of the mask reached", n, if L < 20 { " and every mask" } else { "" }), move |_| {
        let mut seen = [std::collections::HashSet::new(), std::collections::HashSet::new(), std::collections::HashSet::new()];
        let (mut and, mut or) = (lp() - big(1), big(0));
        let mut top = [big(0), big(0)];
        spare();
        let (mut i, mut round) = (0, 0);
        while i < n {
            if round < 8 { script(round) } else { stream(7, round) }
            round += 1;
            spy::take();
            spy::quick(true);
            let r = guarded(mcprogram::run);
            spy::quick(false);
            let ms = spy::take();
            ck!(r.is_ok(), "run {} fails although its inputs come back unchanged", round);
            ck!(!ms.is_empty(), "run {} evaluates nothing", round);
            for m in ms {
            i += 1;
            let (s1, s2, (a, b)) = m.extract();
            ck!(s1 < d1 && s2 < d2, "input {}: scalars ({}, {}) outside their range", i, s1, s2);
            ck!(a.bit(0) && a < (lp() >> 1), "input {}: mask entry {:x} is not an odd number below half of 2^{}", i, a, L);
            ck!(b < lp() && (&a * &b) % lp() == big(1), "input {}: mask entries ({:x}, {:x}) do not multiply to 1 modulo 2^{}", i, a, b, L);
            and &= &a;
            or |= &a;
            top[0] = s1.clone().max(top[0].clone());
            top[1] = s2.clone().max(top[1].clone());
            for (s, v) in seen.iter_mut().zip([&s1, &s2, &a]) {
                if s.len() < 10_000 {
                    s.insert(v.to_bytes_le());
                }
            }
            st(&(&s1, &s2, &a));
            }
        }
        ck!(and == big(1) && or == (lp() >> 1) - big(1), "some bit of the mask is the same in all {} inputs", n);
        for (k, d) in [&d1, &d2].iter().enumerate() {
            if d.bits() < 12 {
                ck!(big(seen[k].len() as u64) == **d, "only {} of {} values of s{} are reached", seen[k].len(), d, k + 1);
            } else {
                ck!(seen[k].len() > n.min(10_000) / 2, "only {} values of s{} are reached", seen[k].len(), k + 1);
                ck!(&top[k] * 100u32 > *d * 90u32, "s{} stays below {}", k + 1, top[k]);
            }
        }
        if L < 20 {
            ck!(seen[2].len() as u64 == 1u64 << (L.min(40) - 2), "only {} of {} masks are reached", seen[2].len(), 1u64 << (L.min(40) - 2));
        }
        sample(|| format!("{} inputs", n));
        Ok(())
    }));
    out.push(space("comparison", 1, "the program with stand-ins that answer one inversion wrongly in one component: every case and component, and the program fails each time", move |_| {
        spare();
        stream(9, 0);
        spy::take();
        spy::quick(true);
        let r = guarded(mcprogram::run);
        spy::quick(false);
        let cases = spy::take().len();
        ck!(r.is_ok() && cases > 0, "the run with correct answers fails");
        for k in 0..cases {
            for c in 0..4 {
                stream(9, 1 + 4 * k + c as usize);
                spy::quick(true);
                spy::wrong(Some((k, c)));
                let r = guarded(mcprogram::run);
                spy::quick(false);
                spy::wrong(None);
                spy::take();
                ck!(r.is_err(), "the program ends normally although inversion number {} differs in component {}", k, c);
                st(&(k, c));
            }
        }
        sample(|| format!("{} cases", cases));
        Ok(())
    }));
    if TOY {
        let n = if L < 20 { 256 } else { 32 } * if t { 10 } else { 1 };
        out.push(space("runs", n, "the whole program under different answers of the random source: it ends, its own comparison of the inverted inputs holds in each of its cases, and its inputs vary", move |i| {
            if i < 8 && L < 20 { script(i as usize) } else { stream(8, i as usize) }
            let o = mcprogram::run();
            let ms = spy::take();
            ck!(!ms.is_empty(), "run {}: the program evaluates nothing", i);
            ck!(!o.is_empty(), "run {}: the program reports nothing", i);
            ck!(ms.len() == 1 || ms.iter().any(|m| *m != ms[0]), "run {}: all inputs are the same", i);
            ck!(o.len() >= ms.len(), "run {}: {} lines of output for {} cases", i, o.len(), ms.len());
            st(&(i, o.len()));
            sample(|| format!("{} lines", o.len()));
            Ok(())
        }).chunk(1));
    }
}

fn build(o: &Opts) -> Vec<Space> {
    let mut v = vec![];
    if o.prop == "C32" {
        c32(o.thorough, &mut v);
    }
    v
}
fn main() {
    run::main(build)
}
