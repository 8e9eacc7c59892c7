//! Choice-sequence generator: every random decision of a case is one recorded
//! integer, so a failing case is a plain `Vec<u64>` that can be shrunk
//! generically and replayed from a file.
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;

pub struct Gen {
    rng: ChaCha8Rng,
    replay: Option<Vec<u64>>,
    pub choices: Vec<u64>,
    pub labels: Vec<String>,
    pub notes: Vec<String>,
    pub nontrivial: bool,
    pub discarded: bool,
}

impl Gen {
    pub fn random(seed: u64) -> Self {
        Self {
            rng: ChaCha8Rng::seed_from_u64(seed),
            replay: None,
            choices: vec![],
            labels: vec![],
            notes: vec![],
            nontrivial: false,
            discarded: false,
        }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        let mut g = Self::random(0);
        g.replay = Some(choices);
        g
    }
    /// Uniform in `[0, max]`; 0 is the simplest value.
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = match &self.replay {
            Some(r) => r.get(self.choices.len()).copied().unwrap_or(0).min(max),
            None => {
                if max == u64::MAX {
                    self.rng.next_u64()
                } else {
                    // rejection-free: 128-bit multiply
                    ((self.rng.next_u64() as u128 * (max as u128 + 1)) >> 64) as u64
                }
            }
        };
        self.choices.push(v);
        v
    }
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        self.draw(n - 1)
    }
    pub fn usize_below(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range, shrinking to `lo`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        assert!(hi >= lo);
        lo + self.draw((hi - lo) as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.draw(1) == 1
    }
    /// true with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den - 1) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize_below(v.len())]
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let tot: u64 = w.iter().sum();
        let mut x = self.below(tot);
        for (i, wi) in w.iter().enumerate() {
            if x < *wi {
                return i;
            }
            x -= wi;
        }
        unreachable!()
    }
    pub fn u64(&mut self) -> u64 {
        self.draw(u64::MAX)
    }
    /// A seed for bulk data (shrinks to 0).
    pub fn seed(&mut self) -> u64 {
        self.draw(u64::MAX)
    }
    pub fn rng(&mut self) -> ChaCha8Rng {
        ChaCha8Rng::seed_from_u64(self.seed())
    }
    /// Boundary-biased integer in `[0, max]`.
    pub fn biased(&mut self, max: u64) -> u64 {
        match self.weighted(&[3, 3, 4, 1, 1]) {
            0 => self.draw(max.min(8)),
            1 => max - self.draw(max.min(8)),
            2 => self.draw(max),
            3 => {
                let b = self.draw(63);
                let p = 1u64 << b;
                let d = self.draw(2);
                (p.wrapping_add(d).wrapping_sub(1)).min(max)
            }
            _ => {
                let h = max / 2;
                let d = self.draw(6);
                (h.saturating_add(d).saturating_sub(3)).min(max)
            }
        }
    }
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn note(&mut self, s: impl Into<String>) {
        if self.notes.len() < 40 {
            self.notes.push(s.into());
        }
    }
    pub fn hit(&mut self) {
        self.nontrivial = true;
    }
}

/// Bulk data derived from a seed with a boundary-biased per-element
/// distribution; used inside a case so that one choice (the seed) covers a
/// whole vector while the pattern choice shrinks to simpler vectors.
pub fn bulk(g: &mut Gen, n: usize, max: u64) -> Vec<u64> {
    let pat = g.weighted(&[1, 2, 1, 5, 4, 2]);
    match pat {
        0 => vec![0; n],
        1 => {
            // one-hot
            let mut v = vec![0; n];
            if n > 0 {
                let i = g.usize_below(n);
                v[i] = g.biased(max);
            }
            v
        }
        2 => vec![g.biased(max); n],
        3 => {
            let mut r = g.rng();
            (0..n).map(|_| uni(&mut r, max)).collect()
        }
        4 => {
            let mut r = g.rng();
            (0..n).map(|_| edge(&mut r, max)).collect()
        }
        _ => {
            // sparse
            let mut r = g.rng();
            (0..n)
                .map(|_| if r.next_u32() % 4 == 0 { edge(&mut r, max) } else { 0 })
                .collect()
        }
    }
}

pub fn uni(r: &mut ChaCha8Rng, max: u64) -> u64 {
    if max == u64::MAX {
        r.next_u64()
    } else {
        ((r.next_u64() as u128 * (max as u128 + 1)) >> 64) as u64
    }
}

pub fn edge(r: &mut ChaCha8Rng, max: u64) -> u64 {
    match r.next_u32() % 8 {
        0 => uni(r, max.min(3)),
        1 | 2 => max - uni(r, max.min(3)),
        3 => {
            let h = max / 2;
            h.saturating_add(uni(r, 4)).saturating_sub(2).min(max)
        }
        4 => (1u64 << (r.next_u32() % 64)).min(max),
        _ => uni(r, max),
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c { return Err(format!($($a)*)); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            let (mut sa, mut sb) = (format!("{a:?}"), format!("{b:?}"));
            $crate::choice::trunc(&mut sa); $crate::choice::trunc(&mut sb);
            return Err(format!("{}: got {} expected {}", format!($($m)*), sa, sb));
        }
    }};
}
pub fn trunc(s: &mut String) {
    if s.len() > 400 {
        let mut i = 400;
        while !s.is_char_boundary(i) { i -= 1; }
        s.truncate(i);
        s.push_str("...");
    }
}
pub trait Ctx<T> {
    fn ctx(self, what: &str) -> Result<T, String>;
}
impl<T, E: std::fmt::Debug> Ctx<T> for Result<T, E> {
    fn ctx(self, what: &str) -> Result<T, String> {
        self.map_err(|e| { let mut s = format!("{e:?}"); trunc(&mut s); format!("{what}: unexpected error {s}") })
    }
}
