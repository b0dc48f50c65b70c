//! The simulated random number generator: a fair source with injected word faults and crashes.
use crate::sched::yield_point;
use crate::sim::{callback, chance, choose, crash_now, fault, bulk_seed};
use crate::tape::Xo;
use rand::{Error, RngCore};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Word {
    Zero,
    Max,
    One,
    TopBit,
    AllButTop,
    AllButLow,
    Alt5,
    AltA,
    LowBits(u32),
    HighBits(u32),
    Stuck,
    Small(u64),
    Half,
}

#[derive(Clone, Debug)]
pub struct WordFault {
    pub at: u64,
    pub len: u64,
    pub word: Word,
}

#[derive(Clone)]
pub struct SimRng {
    base: Xo,
    pub pos: u64,
    pub plan: Vec<WordFault>,
    pub crash_at: Option<u64>,
    pub budget: u64,
    pub yields: bool,
    pub record: Option<Vec<u64>>,
    last: u64,
    quiet: bool,
    grid: Option<Grid>,
}

/// Words laid out so that the k-th words of `1 << bits` consecutive draws fall into different
/// cells of equal width: each draw alone is as fair as ever, their average is much steadier.
#[derive(Clone)]
struct Grid {
    bits: u32,
    at: usize,
    word: usize,
    cells: Vec<Vec<u32>>,
}

pub const CRASH_BUDGET: u64 = u64::MAX;

impl SimRng {
    pub fn fair(seed: u64) -> SimRng {
        SimRng {
            base: Xo::new(seed),
            pos: 0,
            plan: vec![],
            crash_at: None,
            budget: u64::MAX,
            yields: false,
            record: None,
            last: 0,
            quiet: true,
            grid: None,
        }
    }
    /// A fair stream stratified over `1 << bits` draws in its first `words` words each;
    /// `next_draw` has to be called before every draw.
    pub fn stratified(seed: u64, bits: u32, words: usize) -> SimRng {
        let mut r = SimRng::fair(seed);
        let n = 1usize << bits;
        let cells = (0..words)
            .map(|_| {
                let mut p: Vec<u32> = (0..n as u32).collect();
                for i in (1..n).rev() {
                    let j = ((r.base.next() as u128 * (i as u128 + 1)) >> 64) as usize;
                    p.swap(i, j);
                }
                p
            })
            .collect();
        r.grid = Some(Grid { bits, at: n - 1, word: 0, cells });
        r
    }
    pub fn next_draw(&mut self) {
        if let Some(g) = &mut self.grid {
            g.at = (g.at + 1) & ((1 << g.bits) - 1);
            g.word = 0;
        }
    }
    fn fair_word(&mut self) -> u64 {
        let w = self.base.next();
        match &mut self.grid {
            Some(g) if g.word < g.cells.len() => {
                let c = g.cells[g.word][g.at] as u64;
                g.word += 1;
                (c << (64 - g.bits)) | (w >> g.bits)
            },
            _ => w,
        }
    }
    /// A stream whose faults are decided by the tape: up to `n` faulty windows in the first
    /// `horizon` words.
    pub fn faulty(n: usize, horizon: usize, maxlen: usize) -> SimRng {
        let mut r = SimRng::fair(bulk_seed());
        r.quiet = false;
        let k = choose(n + 1);
        for _ in 0..k {
            let at = choose(horizon) as u64;
            let len = if chance(1, 4) { 1 + choose(maxlen) as u64 } else { 1 + choose(3) as u64 };
            r.plan.push(WordFault { at, len, word: any_word() });
        }
        r.plan.sort_by_key(|f| f.at);
        r
    }
    pub fn loud(mut self) -> SimRng {
        self.quiet = false;
        self
    }
    pub fn last_fault(&self) -> u64 {
        self.plan.iter().map(|f| f.at + f.len).max().unwrap_or(0)
    }
    /// A digest of the state of the generator, for "left in the same state".
    pub fn state(&self) -> (u64, u64) {
        let mut b = self.base.clone();
        (self.pos, b.next())
    }
    fn word(&mut self) -> u64 {
        let fair = self.fair_word();
        let mut w = fair;
        let p = self.pos;
        self.pos += 1;
        for f in &self.plan {
            if p >= f.at && p < f.at + f.len {
                w = match f.word {
                    Word::Zero => 0,
                    Word::Max => u64::MAX,
                    Word::One => 1,
                    Word::TopBit => 1 << 63,
                    Word::AllButTop => u64::MAX >> 1,
                    Word::AllButLow => u64::MAX << 11,
                    Word::Alt5 => 0x5555_5555_5555_5555,
                    Word::AltA => 0xAAAA_AAAA_AAAA_AAAA,
                    Word::LowBits(k) => fair & ((1u64 << k) - 1),
                    Word::HighBits(k) => fair & !((1u64 << (64 - k)) - 1),
                    Word::Stuck => self.last,
                    Word::Small(k) => k << 11,
                    Word::Half => (1 << 63) | (fair & 1),
                };
                if !self.quiet {
                    fault(match f.word {
                        Word::Zero => "rng-word-zero",
                        Word::Max => "rng-word-max",
                        Word::Stuck => "rng-word-stuck",
                        Word::LowBits(_) | Word::HighBits(_) => "rng-word-partial",
                        _ => "rng-word-pattern",
                    });
                }
                break;
            }
        }
        self.last = w;
        if let Some(r) = &mut self.record {
            r.push(w);
        }
        w
    }
    fn step(&mut self) -> u64 {
        if self.yields {
            yield_point(0x1001);
        }
        if self.crash_at == Some(self.pos) {
            self.crash_at = None;
            fault("rng-crash");
            crash_now(self.pos);
        }
        if self.pos >= self.budget {
            crash_now(CRASH_BUDGET);
        }
        self.word()
    }
}

pub fn any_word() -> Word {
    match choose(16) {
        0 => Word::Zero,
        1 => Word::Max,
        2 => Word::One,
        3 => Word::TopBit,
        4 => Word::AllButTop,
        5 => Word::AllButLow,
        6 => Word::Alt5,
        7 => Word::AltA,
        8 | 9 => Word::LowBits(1 + choose(62) as u32),
        10 | 11 => Word::HighBits(1 + choose(62) as u32),
        12 => Word::Stuck,
        13 => Word::Small(choose(1 << 12) as u64),
        14 => Word::Half,
        _ => Word::Zero,
    }
}

impl RngCore for SimRng {
    #[inline]
    fn next_u32(&mut self) -> u32 {
        if self.quiet && !self.yields && self.crash_at.is_none() && self.plan.is_empty() && self.budget == u64::MAX && self.record.is_none() {
            self.pos += 1;
            return (self.fair_word() >> 32) as u32;
        }
        callback(|| (self.step() >> 32) as u32)
    }
    #[inline]
    fn next_u64(&mut self) -> u64 {
        if self.quiet && !self.yields && self.crash_at.is_none() && self.plan.is_empty() && self.budget == u64::MAX && self.record.is_none() {
            self.pos += 1;
            return self.fair_word();
        }
        callback(|| self.step())
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        callback(|| {
            for c in dest.chunks_mut(8) {
                let w = self.step().to_le_bytes();
                c.copy_from_slice(&w[..c.len()]);
            }
        })
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
