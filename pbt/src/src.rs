//! The choice sequence.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x5bd1e995))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    /// Uniform in [0, n); n = 0 means the full 64-bit range.
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            self.next()
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
    Bytes(Vec<u8>, usize),
}

#[derive(Clone, Debug)]
pub struct Span {
    pub len_pos: usize,
    pub elems: Vec<(usize, usize)>,
}

pub struct Src {
    mode: Mode,
    pub choices: Vec<u64>,
    pub spans: Vec<Span>,
    forced: Option<u64>,
    pub tee: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Self::with(Mode::Random(Rng::new(seed)))
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Self::with(Mode::Replay(choices))
    }
    pub fn bytes(data: &[u8]) -> Self {
        Self::with(Mode::Bytes(data.to_vec(), 0))
    }
    fn with(mode: Mode) -> Self {
        Src { mode, choices: Vec::new(), spans: Vec::new(), forced: None, tee: None }
    }
    /// The first draw is this value (used by enumerated families).
    pub fn force_first(mut self, v: u64) -> Self {
        self.forced = Some(v);
        self
    }

    /// One draw in [0, n) (n = 0: any u64); 0 is the simplest value. `dist` produces the value in
    /// random mode, so skewed distributions shrink and replay like uniform ones.
    pub fn draw<F: FnOnce(&mut Rng) -> u64>(&mut self, n: u64, dist: F) -> u64 {
        let pos = self.choices.len();
        let v = if let (0, Some(v)) = (pos, self.forced) {
            v
        } else {
            match &mut self.mode {
                Mode::Random(r) => dist(r),
                Mode::Replay(c) => c.get(pos).copied().unwrap_or(0),
                Mode::Bytes(b, at) => {
                    let width = if n == 0 || n > 1 << 32 {
                        8
                    } else if n > 1 << 16 {
                        4
                    } else if n > 1 << 8 {
                        2
                    } else {
                        1
                    };
                    let mut v = 0u64;
                    for i in 0..width {
                        v |= (b.get(*at + i).copied().unwrap_or(0) as u64) << (8 * i);
                    }
                    *at += width;
                    if n == 0 {
                        v
                    } else {
                        v % n
                    }
                }
            }
        };
        let v = if n == 0 { v } else { v.min(n - 1) };
        self.choices.push(v);
        if let Some(f) = &mut self.tee {
            use std::io::Write;
            let _ = writeln!(f, "{}", v);
        }
        v
    }

    pub fn u(&mut self, n: u64) -> u64 {
        self.draw(n, |r| r.below(n))
    }
    pub fn any(&mut self) -> u64 {
        self.u(0)
    }
    pub fn us(&mut self, n: usize) -> usize {
        assert!(n > 0);
        self.u(n as u64) as usize
    }
    /// Uniform in lo..=hi, simplest is lo.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        assert!(lo <= hi);
        lo + self.u(hi - lo + 1)
    }
    pub fn ri(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn r16(&mut self, lo: u16, hi: u16) -> u16 {
        self.range(lo as u64, hi as u64) as u16
    }
    pub fn r32(&mut self, lo: u32, hi: u32) -> u32 {
        self.range(lo as u64, hi as u64) as u32
    }
    /// True with probability num/den; false is simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(2, |r| (r.below(den) < num) as u64) == 1
    }
    pub fn bool(&mut self) -> bool {
        self.u(2) == 1
    }
    /// Index by weight; index 0 is simplest.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        self.draw(w.len() as u64, |r| {
            let mut k = r.below(total);
            for (i, x) in w.iter().enumerate() {
                if k < *x as u64 {
                    return i as u64;
                }
                k -= *x as u64;
            }
            0
        }) as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.us(xs.len());
        &xs[i]
    }
    /// A length in min..=max, mostly small (roughly geometric with the given mean above min), with
    /// a uniform tail.
    pub fn len(&mut self, min: usize, max: usize, mean: usize) -> usize {
        let n = (max - min + 1) as u64;
        let v = self.draw(n, |r| {
            if r.below(12) == 0 {
                r.below(n)
            } else {
                let x = -(1.0 - r.f()).ln() * (mean.max(1) as f64);
                (x as u64).min(n - 1)
            }
        });
        min + v as usize
    }
    /// A list whose elements the shrinker can delete one by one.
    pub fn list<T, F: FnMut(&mut Src, usize) -> T>(
        &mut self,
        min: usize,
        max: usize,
        mean: usize,
        mut f: F,
    ) -> Vec<T> {
        let len_pos = self.choices.len();
        let n = self.len(min, max, mean);
        let mut out = Vec::with_capacity(n);
        let mut elems = Vec::with_capacity(n);
        for i in 0..n {
            let s = self.choices.len();
            out.push(f(self, i));
            elems.push((s, self.choices.len()));
        }
        self.spans.push(Span { len_pos, elems });
        out
    }
    /// A number below n (n = 0: 2^64): boundary-heavy mixture of small values, values near powers
    /// of two, values near the top and uniform ones.
    pub fn num(&mut self, n: u64) -> u64 {
        self.draw(n, |r| {
            let top = n.wrapping_sub(1);
            let v = match r.below(8) {
                0..=2 => r.below(8),
                3 => {
                    let bits = 64 - top.leading_zeros() as u64;
                    let p = 1u64.checked_shl(r.below(bits + 1) as u32).unwrap_or(0);
                    p.wrapping_add(r.below(3)).wrapping_sub(1)
                }
                4 => top.wrapping_sub(r.below(4)),
                5 => {
                    let bits = (64 - top.leading_zeros()) as u64;
                    let b = r.below(bits + 1);
                    if b == 64 {
                        r.next()
                    } else {
                        r.below(1u64 << b)
                    }
                }
                _ => r.below(n),
            };
            if n == 0 {
                v
            } else {
                v % n
            }
        })
    }
}
