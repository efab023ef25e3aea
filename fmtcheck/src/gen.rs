use crate::gridstore::gridstore_format::*;
use pbt::{check, check_eq, Src, R};

/// A copy of a handle (handles of types that are not `Copy` are not `Copy` themselves).
pub fn dup<T>(h: &T) -> T {
    assert!(!std::mem::needs_drop::<T>());
    unsafe { std::ptr::read(h) }
}

/// How many bytes some writing takes.
pub fn bytes(f: impl FnOnce(&mut Writer)) -> usize {
    let mut w = Writer::new();
    f(&mut w);
    w.finish().len()
}

/// A writer that knows its position, by measuring what it writes, and so can be brought to a chosen
/// one. Only what the rest of the crate uses as well is used of the `Writer`.
pub struct W {
    w: Writer,
    pos: usize,
}

impl W {
    pub fn new() -> W {
        W { w: Writer::new(), pos: 0 }
    }
    pub fn write_fixed_vec(&mut self, s: &[u32]) -> FixedVecOffset<u32> {
        self.pos += bytes(|m| {
            m.write_fixed_vec(s);
        });
        self.w.write_fixed_vec(s)
    }
    pub fn write_uniform_vec(&mut self, s: &[Coord]) -> UniformVecOffset<Coord> {
        self.pos += bytes(|m| {
            m.write_uniform_vec(s);
        });
        self.w.write_uniform_vec(s)
    }
    pub fn write_var_vec(&mut self, s: &[RelevScore]) -> VarVecOffset<RelevScore> {
        self.pos += bytes(|m| {
            m.write_var_vec(s);
        });
        self.w.write_var_vec(s)
    }
    pub fn write_number(&mut self, n: u32) -> FixedScalarOffset<u32> {
        self.pos += bytes(|m| {
            m.write_fixed_scalar(n);
        });
        self.w.write_fixed_scalar(n)
    }
    pub fn write_record(&mut self, r: PhraseRecord) -> FixedScalarOffset<PhraseRecord> {
        self.pos += bytes(|m| {
            m.write_fixed_scalar(dup(&r));
        });
        self.w.write_fixed_scalar(r)
    }
    pub fn write_group(&mut self, g: RelevScore) -> VarScalarOffset<RelevScore> {
        self.pos += bytes(|m| {
            m.write_var_scalar(dup(&g));
        });
        self.w.write_var_scalar(g)
    }
    pub fn write_coord(&mut self, c: Coord, size: usize) -> UniformScalarOffset<Coord> {
        self.pos += bytes(|m| {
            m.write_uniform_scalar_with_size(dup(&c), size);
        });
        self.w.write_uniform_scalar_with_size(c, size)
    }
    pub fn finish(self) -> Vec<u8> {
        self.w.finish()
    }

    /// Writes lists and numbers made of `fill` bytes until the position is `target` (nothing if it
    /// has been passed); what is padded with must never matter.
    pub fn pad_to(&mut self, target: usize, fill: u8) {
        let number = u32::from_le_bytes([fill; 4]);
        // a few numbers around whatever else there is
        self.numbers(number, target.min(self.pos + 256));
        for log in [24, 18, 12].iter() {
            if self.pos + (4 << log) < target {
                let block = vec![number; 1 << log];
                let size = bytes(|m| {
                    m.write_fixed_vec(&block);
                });
                if size >= 4 << log {
                    while self.pos + size <= target {
                        self.w.write_fixed_vec(&block);
                        self.pos += size;
                    }
                }
            }
        }
        self.numbers(number, target);
        // nothing is shorter than a list of nothing
        for _ in 0..target.saturating_sub(self.pos).min(8) {
            if self.pos < target {
                self.write_fixed_vec(&[]);
            }
        }
    }
    pub fn pad_by(&mut self, n: usize, fill: u8) {
        self.pad_to(self.pos + n, fill)
    }
    fn numbers(&mut self, number: u32, target: usize) {
        let size = bytes(|m| {
            m.write_fixed_scalar(number);
        });
        while size > 0 && self.pos + size <= target {
            self.w.write_fixed_scalar(number);
            self.pos += size;
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Scale {
    Tiny,
    Small,   // around 2^7 to 2^16
    Medium,  // around 2^20 to 2^24
    Huge,    // around 2^28, 2^31
    Extreme, // just below 2^32
}

#[derive(Clone, Debug)]
pub enum PadPlan {
    None,
    By(usize, u8),
    To(usize, u8),
}

const FILLS: [u8; 5] = [0x00, 0xff, 0x80, 0x7f, 0x01];

/// What to put before the next write. Positions are chosen around the powers of two at which
/// pointers or lengths need another byte.
pub fn pad_plan(s: &mut Src, scale: Scale) -> PadPlan {
    let fill = FILLS[s.us(FILLS.len())];
    let around = |s: &mut Src, base: usize| -> usize {
        // -6..=6 bytes around the boundary
        let d = s.us(13);
        if d <= 6 {
            base + d
        } else {
            base - (d - 6)
        }
    };
    match s.weighted(&[5, 3, 3]) {
        0 => PadPlan::None,
        1 => PadPlan::By(s.len(0, 300, 12), fill),
        _ => {
            let bases: &[usize] = match scale {
                Scale::Tiny => &[128, 256, 512, 1024],
                Scale::Small => &[128, 256, 1 << 14, 1 << 16, 1 << 15, 1 << 12, 1 << 13],
                Scale::Medium => &[1 << 16, 1 << 21, 1 << 23, 1 << 24, 1 << 20, 1 << 22],
                Scale::Huge => &[1 << 24, 1 << 28, 1 << 31],
                Scale::Extreme => &[1 << 31, (1 << 32) - 4096],
            };
            let b = bases[s.us(bases.len())];
            if s.chance(1, 4) {
                // anywhere between the boundaries
                let extra = s.us((b / 2).min(8 << 20).max(1));
                PadPlan::To(b + extra.min(2048), fill)
            } else {
                PadPlan::To(around(s, b), fill)
            }
        }
    }
}

pub fn pad(w: &mut W, p: &PadPlan) {
    match p {
        PadPlan::None => {}
        PadPlan::By(n, f) => w.pad_by(*n, *f),
        PadPlan::To(t, f) => w.pad_to(*t, *f),
    }
}

/// An id list; long ones are given by a seed so that cases stay small.
#[derive(Clone, PartialEq)]
pub enum Ids {
    Listed(Vec<u32>),
    Run { n: usize, start: u32, step: u32 },
}

impl std::fmt::Debug for Ids {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Ids::Listed(v) => write!(f, "{:?}", v),
            Ids::Run { n, start, step } => write!(f, "run(n={} start={} step={})", n, start, step),
        }
    }
}

impl Ids {
    pub fn values(&self) -> Vec<u32> {
        match self {
            Ids::Listed(v) => v.clone(),
            Ids::Run { n, start, step } => {
                (0..*n).map(|i| start.wrapping_add((i as u32).wrapping_mul(*step))).collect()
            }
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Ids::Listed(v) => v.len(),
            Ids::Run { n, .. } => *n,
        }
    }
}

pub fn ids(s: &mut Src, scale: Scale) -> Ids {
    let long = match scale {
        Scale::Tiny => 0,
        _ => 1,
    };
    if long > 0 && s.chance(1, 10) {
        let base = *s.pick(match scale {
            Scale::Medium => &[128, 16384, 1 << 21][..],
            _ => &[128, 16384][..],
        });
        // the length prefix needs one more byte from `base` on
        let n = (base + s.us(6)).saturating_sub(3);
        Ids::Run { n, start: s.num(1 << 32) as u32, step: s.num(1 << 32) as u32 }
    } else {
        Ids::Listed(s.list(0, 40, 3, |s, _| s.num(1 << 32) as u32))
    }
}

/// Reads an id list in one of the five ways and compares it.
pub fn read_ids<U: AsRef<[u8]>>(
    reader: &Reader<U>,
    raw: &[u8],
    at: FixedVecOffset<u32>,
    how: usize,
    limit: usize,
) -> (usize, Vec<u32>) {
    let v = if how % 2 == 0 { reader.read_fixed_vec(at) } else { read_fixed_vec_raw(raw, at) };
    let len = v.len();
    let out = match (how / 2) % 3 {
        0 => v.iter().take(limit).collect(),
        1 => v.into_iter().take(limit).collect(),
        _ => (0..len.min(limit)).map(|i| v.get(i)).collect(),
    };
    (len, out)
}

/// A list that may resemble an earlier one: the same, longer or shorter by one, one element changed,
/// or reversed.
pub fn resembling<T: Clone>(
    s: &mut Src,
    earlier: &[Vec<T>],
    mut element: impl FnMut(&mut Src) -> T,
) -> Option<Vec<T>> {
    if earlier.is_empty() || !s.chance(1, 4) {
        return None;
    }
    let mut v = s.pick(earlier).clone();
    let n = v.len();
    match s.us(6) {
        0 => {}
        1 => v.push(element(s)),
        2 => {
            v.pop();
        }
        3 if n > 0 => {
            let i = s.us(n);
            v[i] = element(s);
        }
        4 if n > 0 => v[n - 1] = element(s),
        _ => v.reverse(),
    }
    Some(v)
}

/// What every iteration owes its users, beyond yielding the right elements in a loop: `count`, `last`,
/// `nth`, `skip`, `step_by` and `size_hint` agree with them. To be called once a loop was found to
/// end where it should.
pub fn iterates<T, I: Iterator<Item = T>, K: PartialEq + std::fmt::Debug + Clone>(
    make: impl Fn() -> I,
    key: impl Fn(T) -> K,
    want: &[K],
    k: usize,
    what: &str,
) -> R {
    let n = want.len();
    let (lo, hi) = make().size_hint();
    check!(lo <= n && hi.map_or(true, |h| h >= n), "{}: size hint {:?} for {}", what, (lo, hi), n);
    check_eq!(make().count(), n, "{}: count", what);
    check_eq!(make().last().map(&key), want.last().cloned(), "{}: last", what);
    let mut it = make();
    let skip = k % (n + 1);
    check_eq!(it.nth(skip).map(&key), want.get(skip).cloned(), "{}: nth({})", what, skip);
    if skip + 1 < n {
        check_eq!(it.next().map(&key), want.get(skip + 1).cloned(), "{}: after nth({})", what, skip);
        let left = n - skip - 2;
        let (lo, hi) = it.size_hint();
        check!(lo <= left && hi.map_or(true, |h| h >= left), "{}: size hint later on", what);
        let rest: Vec<K> = it.take(n + 2).map(&key).collect();
        check!(rest == want[skip + 2..], "{}: the rest after nth({})", what, skip);
    }
    let step = 1 + k % 5;
    let some: Vec<K> = make().skip(skip).step_by(step).take(n + 2).map(&key).collect();
    let expect: Vec<K> = want.iter().skip(skip).step_by(step).cloned().collect();
    check!(some == expect, "{}: skip({}), step_by({})", what, skip, step);
    let folded = make().fold(Vec::new(), |mut v, x| {
        v.push(key(x));
        v
    });
    check!(folded == want, "{}: fold", what);
    Ok(())
}
