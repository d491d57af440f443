//! Replacement of rand 0.8.8's thread-local generator: the draws are decisions of the explorer.
//!
//! Each draw is one of 64 values, taken from the letters of the environment variable MC_DRAWS
//! ('0' + value) and, after them, from the cycle 0,1,..,63. It is placed in the upper bits, so
//! that it decides the outcome of all of rand's distributions over small ranges. Everything else
//! in this copy of rand is unchanged.
use crate::{CryptoRng, Error, RngCore};
use std::cell::RefCell;
use std::thread_local;

#[derive(Clone, Debug)]
/// the scripted generator
pub struct ThreadRng {
    _not_send: core::marker::PhantomData<std::rc::Rc<()>>,
}

struct Draws {
    script: std::vec::Vec<u8>,
    next: usize,
}

thread_local!(
    static DRAWS: RefCell<Draws> = RefCell::new(Draws {
        script: std::env::var("MC_DRAWS").unwrap_or_default().into_bytes(),
        next: 0,
    });
);

fn draw() -> u64 {
    DRAWS.with(|d| {
        let mut d = d.borrow_mut();
        let i = d.next;
        d.next += 1;
        if i < d.script.len() {
            (d.script[i] - b'0') as u64 & 63
        } else {
            (i - d.script.len()) as u64 & 63
        }
    })
}

/// the scripted generator
pub fn thread_rng() -> ThreadRng {
    ThreadRng { _not_send: core::marker::PhantomData }
}

impl Default for ThreadRng {
    fn default() -> ThreadRng {
        crate::prelude::thread_rng()
    }
}

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        (draw() as u32) << 26
    }
    fn next_u64(&mut self) -> u64 {
        draw() << 58
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = (draw() as u8) << 2;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}
