//! Choice-sequence engine: generators draw all their decisions from a `Src`.
//!
//! A `Src` is either pseudo random (a pure function of a seed) or replays a recorded sequence of
//! choices. The value 0 is always the simplest choice; a replay that runs out of choices yields 0.

pub struct Src {
    rng: Option<u64>,
    replay: Vec<u32>,
    pos: usize,
    pub rec: Vec<u32>,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h)
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(mix(seed)), replay: vec![], pos: 0, rec: vec![] }
    }
    pub fn replay(choices: &[u32]) -> Self {
        Src { rng: None, replay: choices.to_vec(), pos: 0, rec: vec![] }
    }
    /// Seed of case number `i` of the (sub-)check `name`.
    pub fn case_seed(seed: u64, name: &str, i: u64) -> u64 {
        mix(mix(seed ^ hash_str(name)).wrapping_add(i))
    }
    /// A number in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(s) => {
                *s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
                let r = mix(*s);
                ((r >> 32) * (n as u64) >> 32) as u32
            }
            None => {
                let v = self.replay.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n as u32 - 1)
            }
        };
        self.rec.push(v);
        v as usize
    }
    /// A number in `a..=b`.
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as usize) as i64
    }
    /// True in `pct` percent of the cases; false is the simpler choice.
    pub fn chance(&mut self, pct: usize) -> bool {
        if pct == 0 {
            return false;
        }
        self.below(100) >= 100 - pct.min(100)
    }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &'a [&'a T]) -> &'a T {
        xs[self.below(xs.len())]
    }
    pub fn of<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    /// Index drawn with the given weights (the first one is the simplest).
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        if total == 0 {
            return 0;
        }
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    /// A length in 0..=max that is usually small.
    pub fn len(&mut self, max: usize) -> usize {
        let m = match self.below(8) {
            0..=4 => max.min(4),
            5 | 6 => max.min(12),
            _ => max,
        };
        self.below(m + 1)
    }
}

/// Order on choice sequences: shorter, then lexicographically smaller.
pub fn simpler(a: &[u32], b: &[u32]) -> bool {
    (a.len(), a) < (b.len(), b)
}

/// Candidates simpler than `c`, from aggressive to careful.
pub fn shrink_candidates(c: &[u32]) -> Vec<Vec<u32>> {
    let n = c.len();
    let mut out: Vec<Vec<u32>> = vec![];
    let mut size = n / 2;
    let mut sizes = vec![];
    while size >= 1 {
        sizes.push(size);
        size /= 2;
    }
    if !sizes.contains(&1) && n > 0 {
        sizes.push(1);
    }
    for &s in &sizes {
        let mut i = 0;
        while i + s <= n {
            let mut d = c[..i].to_vec();
            d.extend_from_slice(&c[i + s..]);
            out.push(d);
            if c[i..i + s].iter().any(|&x| x != 0) {
                let mut z = c.to_vec();
                z[i..i + s].iter_mut().for_each(|x| *x = 0);
                out.push(z);
            }
            i += s;
        }
    }
    for i in 0..n {
        for v in [c[i] / 2, c[i].saturating_sub(1)] {
            if v != c[i] && v != 0 {
                let mut z = c.to_vec();
                z[i] = v;
                out.push(z);
            }
        }
        // remove one choice and lower its predecessor (typical for length-prefixed lists)
        if i > 0 && c[i - 1] > 0 {
            let mut z = c.to_vec();
            z[i - 1] -= 1;
            z.remove(i);
            out.push(z);
        }
    }
    out
}

/// How long a failure is shrunk at most, so that a check with slow cases ends in time.
pub const SHRINK_TIME: std::time::Duration = std::time::Duration::from_secs(150);

/// Greedy shrinking of a failing choice sequence with a synchronous test.
pub fn shrink(start: Vec<u32>, mut fails: impl FnMut(&[u32]) -> Option<Vec<u32>>, budget: usize) -> Vec<u32> {
    let mut best = start;
    let mut left = budget;
    let start = std::time::Instant::now();
    'outer: loop {
        for cand in shrink_candidates(&best) {
            if left == 0 || start.elapsed() > SHRINK_TIME {
                break 'outer;
            }
            left -= 1;
            if let Some(rec) = fails(&cand) {
                // what the generator really consumed
                let eff = if simpler(&rec, &cand) { rec } else { cand };
                if simpler(&eff, &best) {
                    best = eff;
                    continue 'outer;
                }
            }
        }
        break;
    }
    best
}
