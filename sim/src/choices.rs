//! A recorded sequence of bounded draws from which a run's plan (inputs,
//! topology, programs, fault configuration) is built.  Zero is always the
//! simplest choice, so shrinking works on the numbers alone.
use simrt::{mix, Rng};

pub struct Choices {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
}

impl Choices {
    pub fn new(seed: u64, replay: Option<Vec<u64>>) -> Choices {
        Choices { rng: Rng::new(mix(seed ^ 0xC401CE5)), replay, pos: 0, rec: Vec::new() }
    }
    /// uniform in 0..n
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                if n == 0 { 0 } else { v.min(n - 1) }
            }
            None => self.rng.below(n),
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// true with probability pm/1000 (0 draws false)
    pub fn chance(&mut self, pm: u64) -> bool {
        self.draw(1000) >= 1000 - pm
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.draw(xs.len() as u64) as usize;
        &xs[i]
    }
    /// log-uniform in lo..=hi
    pub fn logu(&mut self, lo: u64, hi: u64) -> u64 {
        let d = self.draw(1 << 20) as f64 / (1u64 << 20) as f64;
        let l = (lo.max(1) as f64).ln();
        let h = (hi.max(1) as f64).ln();
        ((l + (h - l) * d).exp().round() as u64).clamp(lo, hi)
    }
    /// index by weight
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let sum: u64 = w.iter().sum();
        let mut x = self.draw(sum);
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= v;
        }
        0
    }
}
