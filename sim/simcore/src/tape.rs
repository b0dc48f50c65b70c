//! The choice tape: every decision of a run is one bounded integer drawn here.
use crate::shm::{Shared, TAPE_CAP};
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone)]
pub struct Xo([u64; 4]);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Xo {
    pub fn new(mut seed: u64) -> Xo {
        Xo([splitmix(&mut seed), splitmix(&mut seed), splitmix(&mut seed), splitmix(&mut seed)])
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 { ((self.next() as u128 * n as u128) >> 64) as u64 }
}

pub enum Mode {
    Gen(Xo),
    Replay(Vec<u64>, usize),
}

/// What to do with one draw of an earlier passage (see `sim::near`).
#[derive(Clone, Copy)]
pub enum Echo {
    Same(u64),
    Beside(u64, u64),
    Fresh,
}

pub struct Tape {
    pub mode: Mode,
    pub shared: *mut Shared,
    /// Draws of the passage being noted.
    pub trail: Option<Vec<u64>>,
    /// Draws to give out again.
    pub echo: Option<(Vec<Echo>, usize)>,
}
unsafe impl Send for Tape {}

impl Tape {
    fn record(&mut self, v: u64) {
        unsafe {
            let n = (*self.shared).tape_len.load(Relaxed) as usize;
            if n < TAPE_CAP {
                (*self.shared).tape[n] = v;
                (*self.shared).tape_len.store(n as u32 + 1, Relaxed);
            }
        }
    }
    /// A choice in `[lo, n)`; a replayed tape may also give values below `lo` (0 = simplest).
    pub fn draw_from(&mut self, lo: u64, n: u64) -> u64 {
        if let Some((e, i)) = &mut self.echo {
            let k = *i;
            *i += 1;
            match e.get(k) {
                Some(Echo::Same(v)) if n > 0 => return (*v).min(n - 1),
                Some(Echo::Beside(v, by)) if n > 1 => return if *v + by < n { v + by } else { (*v).min(n - 1).saturating_sub(*by).max(lo) },
                _ => {},
            }
        }
        let v = if n <= 1 {
            0
        } else {
            match &mut self.mode {
                Mode::Gen(x) => lo + x.below(n - lo),
                Mode::Replay(t, i) => {
                    let v = t.get(*i).copied().unwrap_or(0);
                    *i += 1;
                    v.min(n - 1)
                },
            }
        };
        self.record(v);
        if let Some(t) = &mut self.trail {
            t.push(v);
        }
        v
    }
    pub fn recorded(shared: *const Shared) -> Vec<u64> {
        unsafe {
            let n = (*shared).tape_len.load(Relaxed) as usize;
            let t = &(*shared).tape;
            t[..n].to_vec()
        }
    }
}
