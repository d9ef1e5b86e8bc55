//! A case is a tape of genes made by proptest; builders interpret it deterministically.
//! Gene 0 always means the simplest choice, and a finished tape yields zeros, so that
//! removing, truncating and lowering genes (which is what shrinking does) gives simpler cases.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Case {
    pub cfg: Vec<u16>,
    pub ops: Vec<Vec<u16>>,
}

pub struct G<'a> {
    d: &'a [u16],
    i: usize,
}

impl<'a> G<'a> {
    pub fn new(d: &'a [u16]) -> Self {
        G { d, i: 0 }
    }
    pub fn u(&mut self) -> u16 {
        let v = self.d.get(self.i).copied().unwrap_or(0);
        self.i += 1;
        v
    }
    /// in 0..k
    pub fn n(&mut self, k: usize) -> usize {
        if k <= 1 {
            // still consume, so that tapes keep their meaning when a pool shrinks to one element
            self.u();
            return 0;
        }
        (self.u() as usize * k) >> 16
    }
    pub fn chance(&mut self, pct: u32) -> bool {
        (self.u() as u32 * 100) >> 16 >= 100 - pct.min(100)
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.n(xs.len());
        &xs[i]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        if total == 0 {
            self.u();
            return 0;
        }
        let mut x = ((self.u() as u64 * total as u64) >> 16) as u32;
        for (i, wi) in w.iter().enumerate() {
            if x < *wi {
                return i;
            }
            x -= wi;
        }
        0
    }
    pub fn take(&mut self, n: usize) -> Vec<u16> {
        (0..n).map(|_| self.u()).collect()
    }
    pub fn bytes_left(&self) -> usize {
        self.d.len().saturating_sub(self.i)
    }
}
