//! Choice sequences.  Every random decision of every generator is one `draw`; the sequence of
//! drawn numbers *is* the test case.  Shrinking and replay work on that sequence alone.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ b);
    r.next() ^ r.next().rotate_left(17)
}

pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u64>,
    given: usize,
    pub rec: Vec<u64>,
}

const MAX_DRAWS: usize = 400_000;

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), replay: vec![], given: 0, rec: Vec::with_capacity(512) }
    }
    pub fn replay(choices: &[u64]) -> Src {
        Src { rng: None, replay: choices.to_vec(), given: 0, rec: Vec::with_capacity(choices.len()) }
    }
    /// The given choices, as far as they go and each brought into its range; random ones after that.
    pub fn guided(choices: Vec<u64>, seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), given: choices.len(), rec: Vec::with_capacity(choices.len() + 64), replay: choices }
    }
    /// Uniform in 0..n; 0 is always the simplest alternative.
    pub fn draw(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = if n <= 1 || self.rec.len() > MAX_DRAWS {
            0
        } else {
            let at = self.rec.len();
            match self.rng {
                Some(_) if at < self.given => self.replay[at] % n,
                Some(ref mut r) => ((r.next() as u128 * n as u128) >> 64) as u64,
                None => self.replay.get(self.rec.len()).map(|v| (*v).min(n - 1)).unwrap_or(0),
            }
        };
        self.rec.push(v);
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        if hi <= lo { lo } else { lo + self.below(hi - lo + 1) }
    }
    /// true with probability per_mille / 1000; 0 draws to false
    pub fn chance(&mut self, per_mille: u32) -> bool {
        self.draw(1000) >= 1000 - (per_mille.min(1000) as u64)
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len());
        &items[i]
    }
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        if total == 0 {
            return 0;
        }
        let mut v = self.draw(total as u64) as u32;
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        weights.len() - 1
    }
}
