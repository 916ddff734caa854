//! Choice tape: every random decision of a generator is a bounded integer drawn from a tape.
//! In generation mode draws come from a PRNG and are recorded; in replay mode they come from the
//! recorded list (0, the simplest choice, once the list is exhausted).  Shrinking edits the list.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn hash_bytes(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    Rng::new(h).next()
}

pub struct Tape {
    pub data: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
    mirror: Option<std::fs::File>,
}

impl Tape {
    pub fn random(seed: u64) -> Self {
        Tape {
            data: Vec::new(),
            pos: 0,
            rng: Some(Rng::new(seed)),
            mirror: None,
        }
    }
    pub fn replay(data: Vec<u32>) -> Self {
        Tape {
            data,
            pos: 0,
            rng: None,
            mirror: None,
        }
    }
    pub fn set_mirror(&mut self, file: std::fs::File) {
        self.mirror = Some(file);
    }
    pub fn used(&self) -> usize {
        self.pos.min(self.data.len())
    }

    /// A number in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let n = n.min(u32::MAX as usize) as u32;
        let value = match &mut self.rng {
            Some(rng) => {
                let v = (rng.next() % n as u64) as u32;
                self.data.push(v);
                if let Some(m) = &mut self.mirror {
                    use std::io::Write;
                    let _ = m.write_all(&v.to_le_bytes());
                }
                v
            }
            None => self.data.get(self.pos).copied().unwrap_or(0) % n,
        };
        self.pos += 1;
        value as usize
    }
    /// A number in `0..n`, and now and then a larger one.
    pub fn count(&mut self, n: usize) -> usize {
        let k = self.below(n);
        if self.chance(1, 40) {
            n + self.below(9)
        } else {
            k
        }
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn u64(&mut self) -> u64 {
        let hi = self.below(1 << 22) as u64;
        let mid = self.below(1 << 21) as u64;
        let lo = self.below(1 << 21) as u64;
        (hi << 42) | (mid << 21) | lo
    }
    pub fn pick<'a, X>(&mut self, items: &'a [X]) -> &'a X {
        &items[self.below(items.len())]
    }
    /// Weighted choice: index of the chosen weight (shrinks to the first).
    pub fn weighted(&mut self, weights: &[usize]) -> usize {
        let total: usize = weights.iter().sum();
        let mut v = self.below(total.max(1));
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        weights.len() - 1
    }
}
