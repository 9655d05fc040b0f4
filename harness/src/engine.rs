//! Choice-sequence property engine: every generated case is a function of a
//! finite sequence of bounded integer choices.  Random search draws fresh
//! choices from a seeded PRNG; shrinking edits the recorded sequence and
//! re-runs the generator; a replay file stores the shrunk sequence.  0 is by
//! convention the simplest choice everywhere.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.rotate_left(17) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    mix(h, s.len() as u64)
}

/// Source of choices for one case.
pub struct Src {
    rng: Option<Rng>,
    script: Vec<u64>,
    pos: usize,
    pub taken: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), script: vec![], pos: 0, taken: vec![] }
    }
    pub fn replay(script: &[u64]) -> Self {
        Src { rng: None, script: script.to_vec(), pos: 0, taken: vec![] }
    }
    /// prefix from the script, then random (used by the mutating search)
    pub fn mutated(script: &[u64], seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), script: script.to_vec(), pos: 0, taken: vec![] }
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = if self.pos < self.script.len() {
            let v = self.script[self.pos] % n;
            self.pos += 1;
            v
        } else {
            self.pos += 1;
            match &mut self.rng {
                Some(r) => r.next() % n,
                None => 0,
            }
        };
        self.taken.push(v);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// true with probability num/den; "false" is the simple choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        w.len() - 1
    }
    pub fn pick<'a, A>(&mut self, xs: &'a [A]) -> &'a A {
        let i = self.usize(xs.len());
        &xs[i]
    }
}

/// Shrink a failing choice sequence. `fails` runs the case and tells whether it
/// still fails (and returns the choices actually consumed).
pub fn shrink(start: Vec<u64>, budget: usize, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut best = start;
    let mut left = budget;
    fn better(a: &[u64], b: &[u64]) -> bool {
        a.len() < b.len() || (a.len() == b.len() && a < b)
    }
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if left == 0 {
                false
            } else {
                left -= 1;
                match fails(&cand) {
                    Some(t) => {
                        let t = if better(&t, &cand) { t } else { cand };
                        if better(&t, &best) {
                            best = t;
                            true
                        } else {
                            false
                        }
                    }
                    None => false,
                }
            }
        }};
    }
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..end);
                if !attempt!(c) {
                    i += size;
                }
                if left == 0 {
                    return best;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // delete an element while decrementing an earlier one (size prefixes)
        for i in 0..best.len().min(60) {
            if i >= best.len() || best[i] == 0 {
                continue;
            }
            for k in 1..=10usize {
                if i + 1 + k <= best.len() {
                    let mut c = best.clone();
                    c[i] -= 1;
                    c.drain(i + 1..i + 1 + k);
                    attempt!(c);
                    if i >= best.len() || best[i] == 0 {
                        break;
                    }
                }
            }
        }
        // zero chunks, then lower single values
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..end] {
                        *x = 0;
                    }
                    attempt!(c);
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && lo < best[i] && left > 0 {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt!(c) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before || left == 0 {
            return best;
        }
    }
}
