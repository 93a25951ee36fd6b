// Verification shim: `ThreadRng` draws from a per-thread source that the harness seeds (and may
// force), so that every random choice of the code under test is a function of the test case.

use std::cell::Cell;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::thread_local;

use crate::{CryptoRng, Error, RngCore};

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0x9E37_79B9_7F4A_7C15) };
    static DRAWS: Cell<u64> = const { Cell::new(0) };
    static HAS_FORCED: Cell<bool> = const { Cell::new(false) };
    static FORCED: RefCell<VecDeque<u32>> = const { RefCell::new(VecDeque::new()) };
}

/// Control of the per-thread source.
pub mod shim {
    use super::*;

    /// Restarts the source of this thread.
    pub fn seed(seed: u64) {
        STATE.with(|s| s.set(seed));
        DRAWS.with(|s| s.set(0));
        HAS_FORCED.with(|s| s.set(false));
        FORCED.with(|f| *f.borrow_mut() = VecDeque::new());
    }

    /// The next `next_u32()` results of this thread, before the seeded stream goes on.
    pub fn force(value: u32) {
        FORCED.with(|f| f.borrow_mut().push_back(value));
        HAS_FORCED.with(|s| s.set(true));
    }

    /// Number of draws since `seed()`.
    pub fn draws() -> u64 {
        DRAWS.with(|s| s.get())
    }

    /// Releases the storage of the forced queue.
    pub fn clear_forced() {
        FORCED.with(|f| *f.borrow_mut() = VecDeque::new());
        HAS_FORCED.with(|s| s.set(false));
    }
}

fn next64() -> u64 {
    DRAWS.with(|d| d.set(d.get() + 1));
    STATE.with(|s| {
        let n = s.get().wrapping_add(0x9E37_79B9_7F4A_7C15);
        s.set(n);
        let mut z = n;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    })
}

fn next32() -> u32 {
    if HAS_FORCED.with(|s| s.get()) {
        let (v, left) = FORCED.with(|f| {
            let mut f = f.borrow_mut();
            (f.pop_front(), f.len())
        });
        if left == 0 {
            HAS_FORCED.with(|s| s.set(false));
        }
        if let Some(v) = v {
            DRAWS.with(|d| d.set(d.get() + 1));
            return v;
        }
    }
    (next64() >> 32) as u32
}

/// Deterministic stand-in for the thread-local generator.
#[derive(Clone, Debug)]
pub struct ThreadRng {
    _not_send: core::marker::PhantomData<std::rc::Rc<()>>,
}

/// Returns the stand-in generator.
pub fn thread_rng() -> ThreadRng {
    ThreadRng { _not_send: core::marker::PhantomData }
}

impl Default for ThreadRng {
    fn default() -> ThreadRng {
        thread_rng()
    }
}

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        next32()
    }

    fn next_u64(&mut self) -> u64 {
        next64()
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for chunk in dest.chunks_mut(8) {
            let b = next64().to_le_bytes();
            chunk.copy_from_slice(&b[..chunk.len()]);
        }
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}
