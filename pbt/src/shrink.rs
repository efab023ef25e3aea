//! Shrinking of a failing choice sequence: delete list elements and blocks, then lower values.

use crate::src::Span;

pub struct Shrunk {
    pub choices: Vec<u64>,
    pub attempts: usize,
}

/// `run` returns the choices actually consumed and the list spans if the case still fails.
pub fn shrink<F: FnMut(&[u64]) -> Option<(Vec<u64>, Vec<Span>)>>(
    start: Vec<u64>,
    spans: Vec<Span>,
    max_attempts: usize,
    deadline: std::time::Instant,
    mut run: F,
) -> Shrunk {
    let mut best = start;
    let mut spans = spans;
    let mut attempts = 0usize;

    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if attempts >= max_attempts || std::time::Instant::now() > deadline {
                return Shrunk { choices: best, attempts };
            }
            attempts += 1;
            match run(&cand) {
                Some((c, s)) if smaller(&c, &best) => {
                    best = c;
                    spans = s;
                    true
                }
                _ => false,
            }
        }};
    }

    loop {
        let before = best.clone();

        // 1. delete list elements, biggest chunks first
        let mut si = 0;
        while si < spans.len() {
            let mut chunk = spans[si].elems.len().max(1);
            while chunk >= 1 {
                let mut k = 0;
                loop {
                    if si >= spans.len() {
                        break;
                    }
                    let sp = &spans[si];
                    if k + chunk > sp.elems.len() {
                        break;
                    }
                    let (from, to) = (sp.elems[k].0, sp.elems[k + chunk - 1].1);
                    if best[sp.len_pos] < chunk as u64 {
                        break;
                    }
                    let mut cand = best.clone();
                    cand[sp.len_pos] -= chunk as u64;
                    cand.drain(from..to);
                    if !attempt!(cand) {
                        k += 1;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
            si += 1;
        }

        // 2. delete blocks of choices
        for size in [16usize, 8, 4, 3, 2, 1] {
            let mut at = best.len();
            while at >= size {
                let from = at - size;
                if at <= best.len() {
                    let mut cand = best.clone();
                    cand.drain(from..at);
                    attempt!(cand);
                }
                at -= 1;
                if best.len() > 400 {
                    at = at.saturating_sub(size - 1);
                }
            }
        }

        // 3. zero blocks, then single values, then lower each value
        for size in [32usize, 8, 1] {
            let mut at = 0;
            while at < best.len() {
                let to = (at + size).min(best.len());
                if best[at..to].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    for v in &mut cand[at..to] {
                        *v = 0;
                    }
                    attempt!(cand);
                }
                at += size;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64; // known (or assumed) to pass
            while i < best.len() && best[i] > lo + 1 {
                let hi = best[i];
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if !attempt!(cand) {
                    lo = mid;
                } else if i < best.len() && best[i] >= hi {
                    break;
                }
            }
            if i < best.len() && best[i] > 0 {
                let mut cand = best.clone();
                cand[i] -= 1;
                attempt!(cand);
            }
            i += 1;
        }

        if best == before {
            return Shrunk { choices: best, attempts };
        }
    }
}

fn smaller(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}
