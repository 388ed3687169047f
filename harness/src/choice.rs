//! Choice sequences: every generated case is a function of a list of 64-bit choices, drawn from a
//! seeded generator or replayed from a file. Smaller choices mean simpler cases, so one shrinker
//! (delete, zero, lower) serves every generator.

pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    pub limit: usize,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h)
}

#[allow(dead_code)]
impl Src {
    pub fn seeded(seed: u64, property: &str, index: u64) -> Self {
        let state = mix(mix(seed ^ hash_str(property)).wrapping_add(mix(index)));
        Src { state, replay: None, pos: 0, rec: Vec::new(), limit: 200_000 }
    }
    pub fn replaying(choices: Vec<u64>) -> Self {
        Src { state: 0, replay: Some(choices), pos: 0, rec: Vec::new(), limit: 200_000 }
    }
    pub fn raw(&mut self) -> u64 {
        let v = match &self.replay {
            Some(list) => list.get(self.pos).copied().unwrap_or(0),
            None if self.rec.len() >= self.limit => 0,
            None => {
                self.state = self.state.wrapping_add(0x9e37_79b9_7f4a_7c15);
                mix(self.state)
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(list) => list.get(self.pos).copied().unwrap_or(0),
            None if self.rec.len() >= self.limit => 0,
            None => {
                self.state = self.state.wrapping_add(0x9e37_79b9_7f4a_7c15);
                ((mix(self.state) as u128 * n as u128) >> 64) as u64
            }
        };
        let v = if v >= n { v % n } else { v };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range; the smallest choice gives `lo`.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo.wrapping_add(self.below((hi as i128 - lo as i128 + 1) as u64) as i64)
    }
    /// True with probability num/den; the smallest choice gives false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num.min(den)
    }
    pub fn flip(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.idx(items.len())]
    }
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u64 = weights.iter().map(|w| *w as u64).sum();
        if total == 0 {
            return 0;
        }
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w as u64 {
                return i;
            }
            v -= *w as u64;
        }
        0
    }
    /// Length between lo and hi, biased to small.
    pub fn len(&mut self, lo: usize, hi: usize) -> usize {
        let a = self.idx(hi - lo + 1);
        let b = self.idx(hi - lo + 1);
        lo + a.min(b)
    }
    /// An interesting machine integer: 0 for the smallest choice.
    pub fn int(&mut self) -> i64 {
        match self.weighted(&[10, 5, 3, 3, 1]) {
            0 => self.range(0, 5),
            1 => self.range(-10, 10),
            2 => self.range(-1000, 1000),
            3 => {
                const E: [i64; 16] = [
                    i64::MAX, i64::MIN, i64::MIN + 1, i64::MAX - 1, 1 << 31, -(1 << 31), (1 << 32) - 1,
                    1 << 32, (1 << 53) + 1, -((1 << 53) + 1), 63, 64, 65, 1 << 62, -(1 << 62), 255,
                ];
                *self.pick(&E)
            }
            _ => self.raw() as i64,
        }
    }
    pub fn small(&mut self) -> i64 {
        self.range(0, 6)
    }
}
