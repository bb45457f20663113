//! Coverage-guided search over choice sequences: those that made the library do something new are kept, and changed into
//! others. Works with any generator, since a changed sequence of choices is a sequence of choices.
use crate::cov;
use crate::source::Rng;
use std::time::Duration;

/// Case numbers from here on are guided cases; their choices are not a function of the number.
pub const GUIDED: u64 = 1 << 62;
/// So many cases of each job are random before others are made from them.
const FRESH: u64 = 16;
const ENTRIES: usize = 32;
/// Divisors, and below zero factors.
const SCALES: [i64; 10] = [2, 3, 4, 5, 8, 9, 16, 32, -8, -4];
const DRAWS: usize = 2000;
const BITS: usize = 1 << 16;

struct Entry {
    rec: Vec<u64>,
    caps: Vec<u64>,
    pairs: Vec<(u64, u64)>,
    uses: u64,
    nanos: u64,
}

impl Entry {
    /// What it has cost so far, and once more.
    fn cost(&self) -> u64 {
        (self.uses + 1).saturating_mul(self.nanos)
    }
}

/// What is known about one job.
#[derive(Default)]
pub struct Corpus {
    seen: Vec<u64>,
    entries: Vec<Entry>,
    /// Cases run and the time they took.
    cases: u64,
    nanos: u64,
}

impl Corpus {
    /// Cases of this job take too long, or there is nothing to choose in it.
    pub fn useless(&self) -> bool {
        self.cases >= 4 && self.nanos / self.cases > 5_000_000 || self.cases >= FRESH && self.entries.is_empty()
    }

    /// What to run next: a changed sequence, or none, for a case that is random from its beginning.
    pub fn next(&mut self, rng: &mut Rng) -> Vec<u64> {
        if self.entries.is_empty() || self.cases < FRESH || rng.upto(9) == 0 {
            vec![]
        } else {
            self.derive(rng)
        }
    }

    /// Looks at what a case did. Says whether any of it was new.
    pub fn learn(&mut self, features: &[u64], pairs: &[(u64, u64)], rec: &[u64], caps: &[u64], took: Duration) -> bool {
        self.cases += 1;
        self.nanos += took.as_nanos() as u64;
        if self.seen.is_empty() {
            self.seen = vec![0; BITS / 64];
        }
        let mut new = false;
        for f in features {
            let h = (f.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 48) as usize % BITS;
            let (w, b) = (h / 64, 1u64 << (h % 64));
            if self.seen[w] & b == 0 {
                self.seen[w] |= b;
                new = true;
            }
        }
        if new && !rec.is_empty() && rec.len() <= DRAWS {
            let e = Entry { rec: rec.to_vec(), caps: caps.to_vec(), pairs: pairs.to_vec(), uses: 0, nanos: took.as_nanos() as u64 + 1000 };
            if self.entries.len() < ENTRIES {
                self.entries.push(e);
            } else {
                let i = (0..ENTRIES).max_by_key(|i| self.entries[*i].cost()).unwrap();
                self.entries[i] = e;
            }
        }
        new
    }

    /// A changed sequence.
    fn derive(&mut self, rng: &mut Rng) -> Vec<u64> {
        let n = self.entries.len();
        let mut i = rng.upto(n as u64 - 1) as usize;
        // Those that are quick and were used little, rather.
        for _ in 0..2 {
            let j = rng.upto(n as u64 - 1) as usize;
            if self.entries[j].cost() < self.entries[i].cost() {
                i = j;
            }
        }
        self.entries[i].uses += 1;
        let other = rng.upto(n as u64 - 1) as usize;
        let e = &self.entries[i];
        let mut c = e.rec.clone();
        let rounds = 1 + rng.upto(3).min(rng.upto(3));
        for _ in 0..rounds {
            if c.is_empty() {
                break;
            }
            let at = rng.upto(c.len() as u64 - 1) as usize;
            let cap = e.caps.get(at).copied().unwrap_or(u64::MAX);
            match rng.upto(11) {
                0 | 1 => c[at] = rng.upto(cap),
                2 => c[at] = c[at].wrapping_add(1 + rng.upto(7)).min(cap),
                3 => c[at] = c[at].saturating_sub(1 + rng.upto(7)),
                4 | 5 | 6 if !e.pairs.is_empty() => {
                    // A value that was compared with another becomes it.
                    let (a, b) = e.pairs[rng.upto(e.pairs.len() as u64 - 1) as usize];
                    let (from, to) = if rng.upto(3) == 0 { (a, b) } else { (b, a) };
                    // The choice may be a number of items and the operand their bytes, or the other way round.
                    let (from, to) = match SCALES.get(rng.upto(2 * SCALES.len() as u64) as usize) {
                        Some(s) if *s > 0 => (from / *s as u64, to / *s as u64),
                        Some(s) => (from.wrapping_mul(-*s as u64), to.wrapping_mul(-*s as u64)),
                        None => (from, to),
                    };
                    let d = to.wrapping_sub(from);
                    let near: Vec<usize> = (0..c.len()).filter(|k| c[*k].abs_diff(from) <= 8).collect();
                    match near.len() {
                        0 => c[at] = if rng.upto(1) == 0 { to.min(cap) } else { c[at].wrapping_add(d).min(cap) },
                        m => {
                            let k = near[rng.upto(m as u64 - 1) as usize];
                            let cap = e.caps.get(k).copied().unwrap_or(u64::MAX);
                            c[k] = match rng.upto(3) {
                                0 | 1 => c[k].wrapping_add(d),
                                2 => to,
                                _ => to.wrapping_add(rng.upto(2)).wrapping_sub(1),
                            }
                            .min(cap);
                        }
                    }
                }
                7 => {
                    let len = 1 + rng.upto(7) as usize;
                    let end = (at + len).min(c.len());
                    c.drain(at..end);
                }
                8 => {
                    let len = 1 + rng.upto(15) as usize;
                    let end = (at + len).min(c.len());
                    let part = c[at..end].to_vec();
                    let times = 1 + rng.upto(2) as usize;
                    for _ in 0..times {
                        c.splice(at..at, part.iter().copied());
                    }
                }
                9 => {
                    let o = &self.entries[other].rec;
                    let from = rng.upto(o.len() as u64 - 1) as usize;
                    c.truncate(at);
                    c.extend_from_slice(&o[from.min(o.len())..]);
                }
                10 => c.truncate(at),
                _ => {
                    let end = (at + 1 + rng.upto(7) as usize).min(c.len());
                    for (k, x) in c.iter_mut().enumerate().take(end).skip(at) {
                        *x = rng.upto(e.caps.get(k).copied().unwrap_or(u64::MAX));
                    }
                }
            }
        }
        c.truncate(2 * DRAWS);
        c
    }
}

/// Room for the trace of a case.
#[derive(Default)]
pub struct Tracer {
    features: Vec<u64>,
    pairs: Vec<(u64, u64)>,
}

impl Tracer {
    pub fn before(&self) {
        cov::reset();
    }
    pub fn after(&mut self) -> (&[u64], &[(u64, u64)]) {
        cov::stop();
        cov::take(&mut self.features, &mut self.pairs);
        (&self.features, &self.pairs)
    }
}
