//! Thread-local random number generator: MODEL-CHECKING REPLACEMENT.
//!
//! This is rand 0.8.8 with `thread_rng` replaced by a scripted generator. The byte stream it answers is
//! first the script set by the harness (`rand::mc::set`), then a deterministic splitmix64 stream.
use core::cell::RefCell;
use core::marker::PhantomData;
use std::rc::Rc;
use std::thread_local;
use std::vec::Vec;

use crate::{CryptoRng, Error, RngCore};

/// A handle on the scripted generator of the current thread.
#[derive(Clone, Debug)]
pub struct ThreadRng {
    _not_send: PhantomData<Rc<()>>,
}

struct State {
    script: Vec<u8>,
    pos: usize,
    calls: u64,
    prng: u64,
    buf: [u8; 8],
    left: usize,
}

thread_local!(
    static STATE: RefCell<State> = RefCell::new(State {
        script: Vec::new(), pos: 0, calls: 0, prng: 0x5eed, buf: [0; 8], left: 0,
    });
);

impl State {
    fn byte(&mut self) -> u8 {
        let p = self.pos;
        self.pos += 1;
        if p < self.script.len() {
            return self.script[p];
        }
        if self.left == 0 {
            self.prng = self.prng.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let mut z = self.prng;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            z ^= z >> 31;
            self.buf = z.to_le_bytes();
            self.left = 8;
        }
        let b = self.buf[8 - self.left];
        self.left -= 1;
        b
    }
}

/// Control of the scripted generator (current thread).
pub mod control {
    use super::*;
    /// Answer `script`, then the deterministic stream of `seed`.
    pub fn set(script: &[u8], seed: u64) {
        STATE.with(|s| {
            let mut s = s.borrow_mut();
            s.script = script.to_vec();
            s.pos = 0;
            s.calls = 0;
            s.prng = seed;
            s.left = 0;
        })
    }
    /// Bytes answered since `set`.
    pub fn consumed() -> usize {
        STATE.with(|s| s.borrow().pos)
    }
    /// Calls answered since `set`.
    pub fn calls() -> u64 {
        STATE.with(|s| s.borrow().calls)
    }
}

/// Retrieve the scripted generator.
pub fn thread_rng() -> ThreadRng {
    ThreadRng { _not_send: PhantomData }
}

impl Default for ThreadRng {
    fn default() -> ThreadRng {
        thread_rng()
    }
}

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }

    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        STATE.with(|s| {
            let mut s = s.borrow_mut();
            s.calls += 1;
            for d in dest.iter_mut() {
                *d = s.byte();
            }
        })
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}
