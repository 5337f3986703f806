//! Choice tape: every random decision of a generator is one entry of the tape, so a case is a
//! pure function of its tape.  Shrinking edits the tape; replay re-reads it.

pub struct Tape {
    pub data: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    limit: usize,
}

#[derive(Clone)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed ^ 0x9e37_79b9_7f4a_7c15;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s);
        Rng(a | 1, b)
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r
    }
}

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn case_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut h = seed.wrapping_mul(0xff51_afd7_ed55_8ccd) ^ 0x1234_5678;
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h ^= idx.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    splitmix(&mut h)
}

/// A choice beyond the end of the tape: the simplest one, but no generator that goes on until some
/// other choice comes up may run for ever.
fn past_end(over: usize, n: u64) -> u64 {
    if over < 1500 {
        0
    } else {
        splitmix(&mut (over as u64)) % n
    }
}

impl Tape {
    pub fn generate(seed: u64) -> Self {
        Tape {
            data: Vec::with_capacity(256),
            pos: 0,
            rng: Some(Rng::new(seed)),
            limit: 200_000,
        }
    }

    pub fn replay(data: Vec<u64>) -> Self {
        Tape {
            data,
            pos: 0,
            rng: None,
            limit: 200_000,
        }
    }

    pub fn used(&self) -> usize {
        self.pos.min(self.data.len())
    }

    /// Uniform choice in 0..n (n > 0). 0 is always the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.rng {
            Some(rng) => {
                if self.data.len() >= self.limit {
                    past_end(self.pos - self.data.len(), n)
                } else {
                    let v = rng.next() % n;
                    self.data.push(v);
                    v
                }
            }
            None => match self.data.get(self.pos) {
                Some(v) => *v % n,
                None => past_end(self.pos - self.data.len(), n),
            },
        };
        self.pos += 1;
        v
    }

    pub fn n(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.n(hi - lo + 1)
    }

    /// true with probability num/den; false is the simple value.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.n(items.len())]
    }

    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u64 = weights.iter().map(|w| *w as u64).sum();
        let mut v = self.below(total.max(1));
        for (i, w) in weights.iter().enumerate() {
            if v < *w as u64 {
                return i;
            }
            v -= *w as u64;
        }
        0
    }

    /// Small-biased length in 0..=max.
    pub fn len(&mut self, max: usize) -> usize {
        match self.n(8) {
            0..=2 => self.n(max.min(2) + 1),
            3..=6 => self.n(max.min(6) + 1),
            _ => self.n(max + 1),
        }
    }

    pub fn string_of(&mut self, alphabet: &[&str], max: usize) -> String {
        let n = self.len(max);
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(self.pick(alphabet));
        }
        s
    }

    pub fn i64_interesting(&mut self) -> i64 {
        match self.n(8) {
            0 => self.n(10) as i64,
            1 => -(self.n(10) as i64),
            2 => *self.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1]),
            3 => *self.pick(&[i32::MAX as i64, i32::MIN as i64, 1 << 32, 255, 256, 65535]),
            4 => self.below(1000) as i64,
            5 => self.below(u64::MAX) as i64,
            6 => *self.pick(&[9007199254740992, 9007199254740993, -9007199254740993]),
            _ => self.below(100) as i64 - 50,
        }
    }
}
