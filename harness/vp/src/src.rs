use crate::mix;

/// Source of choices. `prefix` is replayed first; afterwards fresh draws come from a PRNG, or are
/// all zero in replay mode.
pub struct Src {
    state: u64,
    random_tail: bool,
    prefix: Vec<u64>,
    pos: usize,
    rec: Vec<u64>,
    spill: Option<std::fs::File>,
    limit: usize,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Self { state: mix(seed), random_tail: true, prefix: Vec::new(), pos: 0, rec: Vec::new(), spill: None, limit: 4_000_000 }
    }

    /// Starts with the given choices, and goes on at random.
    pub fn seeded(prefix: Vec<u64>, seed: u64) -> Self {
        Self { prefix, ..Self::random(seed) }
    }

    pub fn replay(choices: Vec<u64>) -> Self {
        Self { state: 0, random_tail: false, prefix: choices, pos: 0, rec: Vec::new(), spill: None, limit: 4_000_000 }
    }

    pub fn recorded(&self) -> &[u64] {
        &self.rec
    }

    /// Also writes every draw to a file, so that a crashing case leaves its choices behind.
    pub fn spill(&mut self, path: std::path::PathBuf) {
        self.spill = std::fs::File::create(path).ok();
    }

    fn push(&mut self, v: u64) {
        // A generator that waits for a certain draw must not wait forever.
        assert!(self.rec.len() < 20_000_000, "the generator does not stop drawing");
        self.rec.push(v);
        if let Some(f) = &mut self.spill {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
    }

    /// True once the prefix is used up in replay mode: everything from here on is zero.
    pub fn exhausted(&self) -> bool {
        (!self.random_tail && self.pos >= self.prefix.len()) || self.rec.len() >= self.limit
    }

    fn next(&mut self) -> u64 {
        if self.pos < self.prefix.len() {
            let v = self.prefix[self.pos];
            self.pos += 1;
            v
        } else if self.random_tail && self.rec.len() < self.limit {
            self.state = self.state.wrapping_add(0x9e3779b97f4a7c15);
            mix(self.state)
        } else {
            0
        }
    }

    /// Uniform in `0..n`; 0 should be the simplest alternative.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let from_prefix = self.pos < self.prefix.len();
        let v = self.next();
        let v = if from_prefix && v < n { v } else { v % n };
        self.push(v);
        v
    }

    pub fn u64(&mut self) -> u64 {
        let v = self.next();
        self.push(v);
        v
    }

    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.us(hi - lo + 1)
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }

    /// True with probability `num/den`; false is the simple case.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.us(xs.len());
        &xs[i]
    }

    /// Weighted alternative.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }

    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }

    /// Bytes drawn one by one (each shrinkable).
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        (0..len).map(|_| self.byte()).collect()
    }

    /// Pseudo-random bytes expanded from one draw; for bulk data.
    pub fn bulk(&mut self, len: usize) -> Vec<u8> {
        let mut s = self.below(1 << 32);
        let mut v = Vec::with_capacity(len + 8);
        while v.len() < len {
            s = s.wrapping_add(0x9e3779b97f4a7c15);
            v.extend_from_slice(&mix(s).to_le_bytes());
        }
        v.truncate(len);
        v
    }

    /// Number with a geometric-ish distribution, biased towards small values, at most `max`.
    pub fn small(&mut self, max: usize) -> usize {
        let bits = self.us(16);
        let cap = match bits {
            0..=4 => 2,
            5..=9 => 5,
            10..=13 => 12,
            _ => max,
        };
        self.us(cap.min(max) + 1)
    }

    /// Integers with emphasis on varint boundaries of every width.
    pub fn int(&mut self, bits: u32) -> u64 {
        let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        match self.us(6) {
            0 => self.below(8) & max,
            1 => {
                // around a power-of-256 boundary or the one-byte threshold
                let n = (bits / 8) as u64;
                let k = self.below(n) + 1;
                let base = if k == 8 { u64::MAX } else { (1u64 << (8 * k)) - 1 };
                base.wrapping_add(self.below(5)).wrapping_sub(2) & max
            }
            2 => {
                let n = (bits / 8) as u64;
                (255 - n).wrapping_add(self.below(12)).wrapping_sub(4) & max
            }
            3 => {
                let sh = self.below(bits as u64);
                (1u64 << sh).wrapping_add(self.below(3)).wrapping_sub(1) & max
            }
            4 => max.wrapping_sub(self.below(4)) & max,
            _ => self.u64() & max,
        }
    }
}
