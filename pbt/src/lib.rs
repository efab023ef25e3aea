//! A small property-based testing engine.
//!
//! Every random decision of a case is a draw from one choice sequence (`Src`), so a case is a pure
//! function of that sequence: it can be regenerated from (VERIF_SEED, property, family, index),
//! replayed from a saved sequence, decoded from fuzzer bytes, and shrunk without knowing anything
//! about the values that were generated.

pub mod alloc;
pub mod runner;
pub mod shrink;
pub mod src;
pub mod tmp;

pub use runner::{main, Family, Prop};
pub use src::Src;

use std::fmt::{self, Debug, Write};

/// The outcome of one case: `Err` is a violation of the property.
pub type R = Result<(), String>;

/// What a case tells the engine about itself.
#[derive(Default)]
pub struct Ctx {
    /// When set, the case is being re-run to be written out.
    pub describe: bool,
    pub text: String,
    pub nontrivial: bool,
    pub hash: Option<u64>,
    pub labels: Vec<&'static str>,
}

struct HashWriter(u64);
impl Write for HashWriter {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for b in s.as_bytes() {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        Ok(())
    }
}

/// Stops a Debug rendering once it is long enough to be useful.
struct Bounded<'a> {
    out: &'a mut String,
    left: usize,
}
impl<'a> Write for Bounded<'a> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.left == 0 {
            return Err(fmt::Error);
        }
        let mut take = s.len().min(self.left);
        while !s.is_char_boundary(take) {
            take -= 1;
        }
        self.out.push_str(&s[..take]);
        if take < s.len() {
            self.left = 0;
            self.out.push('…');
            return Err(fmt::Error);
        }
        self.left -= take;
        Ok(())
    }
}

pub fn bounded_debug<D: Debug + ?Sized>(d: &D, max: usize) -> String {
    let mut out = String::new();
    let _ = write!(Bounded { out: &mut out, left: max }, "{:?}", d);
    out
}

pub fn hash_debug<D: Debug + ?Sized>(d: &D) -> u64 {
    let mut h = HashWriter(0xcbf29ce484222325);
    let _ = write!(h, "{:?}", d);
    src::mix(h.0)
}

impl Ctx {
    /// Declares (part of) the generated input: counted for distinctness, shown in samples and
    /// replay files.
    pub fn input<D: Debug + ?Sized>(&mut self, name: &str, d: &D) {
        self.input_lim(name, d, 20_000)
    }
    pub fn input_lim<D: Debug + ?Sized>(&mut self, name: &str, d: &D, max: usize) {
        let h = hash_debug(d);
        self.hash = Some(src::mix(self.hash.unwrap_or(0x9e37).rotate_left(13) ^ h));
        if self.describe {
            self.text.push_str(name);
            self.text.push_str(" = ");
            self.text.push_str(&bounded_debug(d, max));
            self.text.push('\n');
        }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true
        }
    }
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err(format!($($arg)*));
        }
    };
}

#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err(format!("{}: got {} expected {}", format!($($arg)*),
                $crate::bounded_debug(a, 4000), $crate::bounded_debug(b, 4000)));
        }
    }};
}
