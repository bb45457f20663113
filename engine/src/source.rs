//! Choice sequences. Every random decision of every generator is a `draw`; the list of draws is the test
//! case. Shrinking and replay work on that list and on nothing else.

/// splitmix64
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// A number in `0..=max`.
    pub fn upto(&mut self, max: u64) -> u64 {
        let r = self.next();
        if max == u64::MAX {
            r
        } else {
            ((r as u128 * (max as u128 + 1)) >> 64) as u64
        }
    }
}

pub fn hash_bytes(seed: u64, bytes: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf2_9ce4_8422_2325 ^ (bytes.len() as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    let mut chunks = bytes.chunks_exact(8);
    for c in &mut chunks {
        let mut a = [0u8; 8];
        a.copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(a)).wrapping_mul(0xff51_afd7_ed55_8ccd);
        h ^= h >> 32;
    }
    for b in chunks.remainder() {
        h = (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        h ^= h >> 29;
    }
    Rng::new(h).next()
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>, usize),
    Indexed(u64),
    /// Given choices first, random ones after them.
    Guided(Vec<u64>, usize, Rng),
}

pub struct Source {
    mode: Mode,
    pub rec: Vec<u64>,
    /// The largest value each draw could have had.
    pub caps: Vec<u64>,
    log: Option<std::fs::File>,
}

impl Source {
    pub fn random(seed: u64) -> Self {
        Source { mode: Mode::Random(Rng::new(seed)), rec: vec![], caps: vec![], log: None }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Source { mode: Mode::Replay(choices, 0), rec: vec![], caps: vec![], log: None }
    }
    pub fn guided(choices: Vec<u64>, seed: u64) -> Self {
        Source { mode: Mode::Guided(choices, 0, Rng::new(seed)), rec: vec![], caps: vec![], log: None }
    }
    /// Draws are the mixed-radix digits of `index`: cases 0..total enumerate a finite space completely.
    pub fn indexed(index: u64) -> Self {
        Source { mode: Mode::Indexed(index), rec: vec![], caps: vec![], log: None }
    }

    /// Writes every draw to `f` as it is made, for cases that kill the process.
    pub fn log_to(&mut self, f: std::fs::File) {
        self.log = Some(f);
    }

    /// A number in `0..=max`. Zero is the simplest choice.
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Random(rng) => rng.upto(max),
            Mode::Guided(c, pos, rng) => {
                let v = c.get(*pos).copied();
                *pos += 1;
                v.map_or_else(|| rng.upto(max), |v| v.min(max))
            }
            Mode::Replay(c, pos) => {
                let v = c.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                v.min(max)
            }
            Mode::Indexed(i) => {
                if max == u64::MAX {
                    std::mem::take(i)
                } else {
                    let d = *i % (max + 1);
                    *i /= max + 1;
                    d
                }
            }
        };
        self.rec.push(v);
        self.caps.push(max);
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = writeln!(f, "{v}");
        }
        v
    }
    /// A number in `0..n` (0 if n == 0).
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.draw(n as u64 - 1) as usize
    }
    /// A number in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi.saturating_sub(lo) + 1)
    }
    /// True once in `den` times; false is the simple choice.
    pub fn one_in(&mut self, den: u64) -> bool {
        self.draw(den - 1) == den - 1
    }
    pub fn boolean(&mut self) -> bool {
        self.draw(1) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// `n` pseudo-random bytes expanded from a single recorded draw (0 expands to zeros), a few of them sometimes
    /// replaced by draws of their own.
    pub fn blob(&mut self, n: usize) -> Vec<u8> {
        let seed = self.draw(u32::MAX as u64);
        let mut out = vec![0; n];
        if seed != 0 {
            let mut r = Rng::new(seed);
            for c in out.chunks_mut(8) {
                c.copy_from_slice(&r.next().to_le_bytes()[..c.len()]);
            }
        }
        if n > 0 && self.one_in(6) {
            for _ in 0..1 + self.below(3) {
                let i = self.below(n);
                out[i] = self.draw(255) as u8;
            }
        }
        out
    }
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

/// Shrinks a failing choice sequence. `fails` runs a candidate and returns the recorded draws and message
/// when it still fails.
pub fn shrink(
    start: Vec<u64>,
    msg: String,
    budget: usize,
    fails: &mut dyn FnMut(&[u64]) -> Option<(Vec<u64>, String)>,
) -> (Vec<u64>, String) {
    let mut best = start;
    let mut best_msg = msg;
    let mut left = budget;
    let attempt = |cand: &[u64], best: &mut Vec<u64>, best_msg: &mut String, left: &mut usize,
                       fails: &mut dyn FnMut(&[u64]) -> Option<(Vec<u64>, String)>| -> bool {
        if *left == 0 || !simpler(cand, best) {
            return false;
        }
        *left -= 1;
        if let Some((rec, m)) = fails(cand) {
            // Trailing draws past the candidate are implied zeros; what was recorded may be shorter.
            let mut r = rec;
            while r.last() == Some(&0) {
                r.pop();
            }
            let new = if simpler(&r, cand) { r } else { cand.to_vec() };
            if simpler(&new, best) {
                *best = new;
                *best_msg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // Delete blocks.
        for size in [64usize, 32, 16, 8, 7, 6, 5, 4, 3, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !attempt(&c, &mut best, &mut best_msg, &mut left, fails) {
                    // Also try deleting while decrementing the draw before (a length).
                    let mut done = false;
                    if i > 0 && i - 1 < best.len() && best[i - 1] > 0 {
                        let mut c = best.clone();
                        c[i - 1] -= 1;
                        if i + size <= c.len() {
                            c.drain(i..i + size);
                            done = attempt(&c, &mut best, &mut best_msg, &mut left, fails);
                        }
                    }
                    if !done {
                        i += if size > 8 { size / 2 } else { 1 };
                    }
                }
                if left == 0 {
                    return (best, best_msg);
                }
            }
        }
        // Zero, halve and decrement single draws.
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt(&c, &mut best, &mut best_msg, &mut left, fails) && i < best.len() {
                    let mut lo = 0u64;
                    let mut hi = best[i];
                    let mut tries = 0;
                    while lo + 1 < hi && tries < 40 {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        if i >= c.len() {
                            break;
                        }
                        c[i] = mid;
                        if attempt(&c, &mut best, &mut best_msg, &mut left, fails) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                        tries += 1;
                    }
                    if i < best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        attempt(&c, &mut best, &mut best_msg, &mut left, fails);
                    }
                }
            }
            if left == 0 {
                return (best, best_msg);
            }
            i += 1;
        }
        if best == before {
            return (best, best_msg);
        }
    }
}
