//! festa_rs as the shipped program sees it, with the trapdoor inputs it draws recorded. In quick mode the three
//! operations are stand-ins (one recorded key and ciphertext, the identity), so that many inputs can be drawn.
pub use festa_rs::*;
pub mod festa {
    pub use festa_rs::festa::*;
    use std::cell::{Cell, RefCell};
    use std::sync::OnceLock;

    thread_local! {
        static SEEN: RefCell<Vec<TrapdoorInput>> = const { RefCell::new(vec![]) };
        static QUICK: Cell<bool> = const { Cell::new(false) };
        static WRONG: Cell<Option<(usize, u32)>> = const { Cell::new(None) };
    }
    /// in quick mode: the answer to the k-th inversion differs from the input in component c
    pub fn wrong(x: Option<(usize, u32)>) {
        WRONG.with(|w| w.set(x));
    }
    pub fn quick(on: bool) {
        QUICK.with(|q| q.set(on));
    }
    pub fn take() -> Vec<TrapdoorInput> {
        SEEN.with(|s| s.borrow_mut().split_off(0))
    }
    fn copy(m: &TrapdoorInput) -> TrapdoorInput {
        let (a, b, c) = m.extract();
        TrapdoorInput::new(&a, &b, &c)
    }
    fn other(m: &TrapdoorInput, c: u32) -> TrapdoorInput {
        let one = num_bigint::BigUint::from(1u32);
        let (a, b, (x, y)) = m.extract();
        match c {
            0 => TrapdoorInput::new(&(a + one), &b, &(x, y)),
            1 => TrapdoorInput::new(&a, &(b + one), &(x, y)),
            2 => TrapdoorInput::new(&a, &b, &(x + one, y)),
            3 => TrapdoorInput::new(&a, &b, &(x, y + one)),
            _ => TrapdoorInput::new(&b, &a, &(y, x)),
        }
    }
    pub struct FESTACrypto(&'static festa_rs::festa::FESTACrypto);
    static REAL: OnceLock<festa_rs::festa::FESTACrypto> = OnceLock::new();
    static SPARE: OnceLock<(PublicKey, SecretKey, TrapdoorOutput)> = OnceLock::new();
    impl std::ops::Deref for FESTACrypto {
        type Target = festa_rs::festa::FESTACrypto;
        fn deref(&self) -> &Self::Target {
            self.0
        }
    }
    impl FESTACrypto {
        #[allow(clippy::new_without_default)]
        pub fn new() -> Self {
            Self(REAL.get_or_init(festa_rs::festa::FESTACrypto::new))
        }
        pub fn keygen(&self) -> (PublicKey, SecretKey) {
            if QUICK.with(|q| q.get()) {
                let s = SPARE.get().expect("a key was set aside");
                let (e, r, t) = s.0.extract();
                return (PublicKey::new(&e, &r, &t), SecretKey::decode(&s.1.encode()));
            }
            self.0.keygen()
        }
        pub fn trapdoor_eval(&self, pk: &PublicKey, m: &TrapdoorInput) -> TrapdoorOutput {
            SEEN.with(|s| s.borrow_mut().push(copy(m)));
            if QUICK.with(|q| q.get()) {
                return TrapdoorOutput::decode(&SPARE.get().unwrap().2.encode());
            }
            self.0.trapdoor_eval(pk, m)
        }
        pub fn trapdoor_inverse(&self, c: &TrapdoorOutput, sk: &SecretKey) -> TrapdoorInput {
            if QUICK.with(|q| q.get()) {
                let m = SEEN.with(|s| copy(s.borrow().last().expect("something was evaluated")));
                let k = SEEN.with(|s| s.borrow().len());
                return match WRONG.with(|w| w.get()) {
                    Some((j, c)) if j + 1 == k => other(&m, c),
                    _ => m,
                };
            }
            self.0.trapdoor_inverse(c, sk)
        }
    }
    /// sets aside the key and ciphertext that stand in for all others in quick mode; none of them need match
    pub fn prepare(pk: PublicKey, sk: SecretKey, c: TrapdoorOutput) {
        let _ = SPARE.set((pk, sk, c));
    }
}
