//! Choice tape: every random decision of a case is one bounded draw, so a failing case is fully
//! described by its recorded draws, replays exactly, and shrinks by editing the draws.
use proptest::prelude::Rng as _;
use proptest::test_runner::{RngAlgorithm, TestRng};

pub struct Tape {
    src: Option<TestRng>,
    data: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
}

impl Tape {
    /// Fresh random tape: a pure function of (seed, case key).
    pub fn random(seed: u64, key: u64) -> Tape {
        let mut s = [0u8; 32];
        s[..8].copy_from_slice(&seed.to_le_bytes());
        s[8..16].copy_from_slice(&key.to_le_bytes());
        Tape {
            src: Some(TestRng::from_seed(RngAlgorithm::ChaCha, &s)),
            data: vec![],
            pos: 0,
            rec: vec![],
        }
    }
    /// The given draws, then random ones.
    pub fn mixed(data: Vec<u64>, seed: u64, key: u64) -> Tape {
        Tape { data, ..Tape::random(seed, key) }
    }
    pub fn replay(data: Vec<u64>) -> Tape {
        Tape { src: None, data, pos: 0, rec: vec![] }
    }
    /// Uniform draw from 0..n; 0 is always the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match (self.data.get(self.pos), &mut self.src) {
            (Some(v), _) => (*v).min(n - 1),
            (None, Some(r)) => r.next_u64() % n,
            (None, None) => 0,
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn ix(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.ix(hi - lo + 1)
    }
    /// true with probability pct/100 (false is simplest)
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) >= 100 - pct.min(100)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.ix(xs.len())]
    }
}

/// Greedy tape reduction: keeps an edit whenever `still_fails` holds. Bounded number of attempts.
pub fn shrink(mut best: Vec<u64>, mut budget: usize, still_fails: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut improved = true;
    while improved && budget > 0 {
        improved = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && budget > 0 {
                let mut c = best.clone();
                let e = (i + size).min(c.len());
                c.drain(i..e);
                budget -= 1;
                if let Some(r) = still_fails(&c) {
                    if r.len() < best.len() || (r.len() == best.len() && r < best) {
                        best = r;
                        improved = true;
                        continue;
                    }
                }
                i += size;
            }
            if size == 1 || budget == 0 {
                break;
            }
            size /= 2;
        }
        // zero, then halve single draws
        let mut i = 0;
        while i < best.len() && budget > 0 {
            for v in [0, best[i] / 2, best[i].saturating_sub(1)] {
                if i < best.len() && v < best[i] && budget > 0 {
                    let mut c = best.clone();
                    c[i] = v;
                    budget -= 1;
                    if let Some(r) = still_fails(&c)
                        && (r.len() < best.len() || (r.len() == best.len() && r < best))
                    {
                        best = r;
                        improved = true;
                    }
                }
            }
            i += 1;
        }
    }
    best
}
