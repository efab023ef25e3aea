//! C32: the bytes of a record, against a description of them that shares nothing with the code.
//!
//! All numbers are little endian. The last four bytes of a record point to the list of its groups.
//! A list begins with its length in groups of seven bits, the lowest first, the eighth bit set on all
//! but the last. The list of groups goes on with, for each, a byte of relevance and score and a
//! pointer to its coordinates, written like a length. A list of coordinates goes on with a byte that
//! says how many bytes each takes, four of which are the coordinate and the others a pointer to its
//! ids. A list of ids goes on with four bytes each.

use crate::gen::*;
use crate::props::*;
use pbt::{check, check_eq, Ctx, Family, Prop, Src, R};

// ---------------------------------------------------------------- by the description

fn put_len(out: &mut Vec<u8>, mut n: u64) {
    while n > 127 {
        out.push((n % 128) as u8 + 128);
        n /= 128;
    }
    out.push(n as u8);
}

fn put_le(out: &mut Vec<u8>, n: u64, bytes: usize) {
    for i in 0..bytes {
        out.push((n / 256u64.pow(i as u32) % 256) as u8);
    }
}

fn width(ptr: u64) -> usize {
    (1..4).find(|w| ptr < 256u64.pow(*w as u32)).unwrap_or(4)
}

fn go_to(out: &mut Vec<u8>, p: &PadPlan) {
    let (n, fill) = match p {
        PadPlan::None => return,
        PadPlan::By(n, f) => (out.len() + n, *f),
        PadPlan::To(t, f) => (*t, *f),
    };
    if n > out.len() {
        out.resize(n, fill);
    }
}

fn put_ids(out: &mut Vec<u8>, ids: &[u32]) -> u64 {
    let at = out.len() as u64;
    put_len(out, ids.len() as u64);
    for i in ids {
        put_le(out, *i as u64, 4);
    }
    at
}

/// `wider`: how many bytes more than needed the pointers of the group take.
fn put_coords(out: &mut Vec<u8>, coords: &[(u32, u64)], wider: usize) -> u64 {
    let at = out.len() as u64;
    put_len(out, coords.len() as u64);
    let size = match coords.iter().map(|c| width(c.1)).max() {
        Some(w) => 4 + (w + wider).min(4),
        None => 255,
    };
    out.push(size as u8);
    for (c, p) in coords {
        put_le(out, *c as u64, 4);
        put_le(out, *p, size - 4);
    }
    at
}

fn by_hand(p: &Plan, wider: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut written: Vec<Option<u64>> = vec![None; p.pool.len()];
    if !p.late {
        for (i, (list, pad)) in p.pool.iter().enumerate() {
            go_to(&mut out, pad);
            written[i] = Some(put_ids(&mut out, &list.values()));
        }
    }
    let mut groups = Vec::new();
    for (gi, (rs, coords, pad)) in p.groups.iter().enumerate() {
        let mut enc = Vec::new();
        for (coord, li) in coords {
            let at = match written[*li] {
                Some(at) if p.share || !p.late => at,
                _ => {
                    go_to(&mut out, &p.pool[*li].1);
                    put_ids(&mut out, &p.pool[*li].0.values())
                }
            };
            written[*li] = Some(at);
            enc.push((*coord, at));
        }
        go_to(&mut out, pad);
        groups.push((*rs, put_coords(&mut out, &enc, if gi % 2 == 0 { wider } else { 0 })));
    }
    go_to(&mut out, &p.pad_rs);
    let at = out.len() as u64;
    put_len(&mut out, groups.len() as u64);
    for (rs, ptr) in groups {
        out.push(rs);
        put_len(&mut out, ptr);
    }
    go_to(&mut out, &p.pad_rec);
    put_le(&mut out, at, 4);
    out
}

/// Reads by the description, never beyond the end.
struct In<'a> {
    data: &'a [u8],
    at: usize,
}

impl<'a> In<'a> {
    fn take(&mut self, n: usize, what: &str) -> Result<&'a [u8], String> {
        let end = self.at.checked_add(n).filter(|e| *e <= self.data.len());
        let end = end.ok_or_else(|| format!("{} at {} goes beyond the end ({} bytes)", what, self.at, self.data.len()))?;
        let r = &self.data[self.at..end];
        self.at = end;
        Ok(r)
    }
    fn le(&mut self, n: usize, what: &str) -> Result<usize, String> {
        Ok(self.take(n, what)?.iter().rev().fold(0, |a, b| a * 256 + *b as usize))
    }
    fn len(&mut self, what: &str) -> Result<usize, String> {
        let (mut n, mut unit) = (0usize, 1usize);
        for _ in 0..5 {
            let b = self.le(1, what)?;
            n += b % 128 * unit;
            unit *= 128;
            if b < 128 {
                return Ok(n);
            }
        }
        Err(format!("{} at {} never ends", what, self.at))
    }
}

fn read_by_hand(data: &[u8], p: &Plan) -> R {
    check!(data.len() >= 4, "only {} bytes", data.len());
    let mut top = In { data, at: data.len() - 4 };
    top.at = top.le(4, "the pointer to the groups")?;
    let n = top.len("the number of groups")?;
    check_eq!(n, p.groups.len(), "groups");
    for (gi, (rs, coords, _)) in p.groups.iter().enumerate() {
        check_eq!(top.le(1, "a group")?, *rs as usize, "byte of group {}", gi);
        let mut list = In { data, at: top.len("a pointer to coordinates")? };
        let n = list.len("the number of coordinates")?;
        check_eq!(n, coords.len(), "coordinates of group {}", gi);
        let size = list.le(1, "the size of coordinates")?;
        let mut far = 0;
        for (ci, (coord, li)) in coords.iter().enumerate() {
            check!((5..=8).contains(&size), "coordinates of group {} of {} bytes", gi, size);
            check_eq!(list.le(4, "a coordinate")?, *coord as usize, "coordinate {} of group {}", ci, gi);
            let mut ids = In { data, at: list.le(size - 4, "a pointer to ids")? };
            far = far.max(ids.at);
            let want = p.pool[*li].0.values();
            let n = ids.len("the number of ids")?;
            check_eq!(n, want.len(), "ids of coordinate {} of group {}", ci, gi);
            for (k, id) in want.iter().enumerate() {
                check_eq!(ids.le(4, "an id")?, *id as usize, "id {} of coordinate {} of group {}", k, ci, gi);
            }
        }
        if n > 0 {
            check_eq!(size, 4 + width(far as u64), "bytes per coordinate of group {}, pointers up to {}", gi, far);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- families

/// Laid out by the description, read by the code.
fn stored(s: &mut Src, c: &mut Ctx, scale: Scale) -> R {
    let wider = if s.chance(1, 2) { s.us(4) } else { 0 };
    c.input("pointers wider than needed by", &wider);
    let p = record_plan(s, c, scale);
    let data = by_hand(&p, wider);
    label_size(c, data.len());
    check_plan(&owner(s, data), &p)
}

/// Written by the code, read by the description.
fn written(s: &mut Src, c: &mut Ctx, scale: Scale) -> R {
    let p = record_plan(s, c, scale);
    let data = write_plan(&p);
    label_size(c, data.len());
    read_by_hand(&data, &p)
}

/// Very many groups, coordinates or ids: every length around those at which a length prefix grows.
fn lengths(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.us(3 * LENGTHS);
    let n = length_around(i % LENGTHS);
    let kind = i / LENGTHS;
    c.input("length", &n);
    c.input("very many", &["groups", "coordinates", "ids"][kind]);
    c.nontrivial_if(true);
    let long = Ids::Run { n: if kind == 2 { n } else { 2 }, start: i as u32, step: 0x0102_0305 };
    let pool = vec![(Ids::Listed(vec![7]), PadPlan::None), (long, PadPlan::To(100_000 * (i % 2), 0x80))];
    let coords = |n: usize| (0..n).map(|k| ((k as u32).wrapping_mul(0x0001_0003), (k % 3) / 2)).collect::<Vec<_>>();
    let groups: Groups = match kind {
        0 => (0..n).map(|k| ((k * 7) as u8, coords((k + 1) % 2), PadPlan::None)).collect(),
        1 => vec![(3, coords(n), PadPlan::None), (2, coords(1), PadPlan::None)],
        _ => vec![(3, coords(5), PadPlan::None), (2, coords(1), PadPlan::None)],
    };
    let (pad_rs, pad_rec) = (PadPlan::None, PadPlan::None);
    let p = Plan { pool, late: false, share: true, groups, pad_rs, pad_rec, how: i };
    let data = by_hand(&p, 0);
    label_size(c, data.len());
    check_plan(&owner(s, data), &p)?;
    read_by_hand(&write_plan(&p), &p)
}

/// Where pointers need another byte, in their own lists and in lists of groups.
const EDGES: [usize; 7] = [1 << 7, 1 << 8, 1 << 14, 1 << 16, 1 << 21, 1 << 24, (1 << 24) + (1 << 16)];

/// Ids, coordinates or groups that begin within two bytes of each edge, in a list where others lie before.
fn edges(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.us(3 * 5 * 3 * EDGES.len());
    let at = EDGES[i % EDGES.len()] + i / EDGES.len() % 5 - 2;
    let kind = i / EDGES.len() / 5 % 3;
    let place = i / EDGES.len() / 15;
    c.input("begins at", &at);
    c.input("which", &["ids", "coordinates", "groups"][kind]);
    c.input("of the element", &place);
    c.nontrivial_if(true);
    let to = |k: usize| if kind == k { PadPlan::To(at, 0x80) } else { PadPlan::None };
    let pool = vec![(Ids::Listed(vec![7, 5]), PadPlan::None), (Ids::Listed(vec![9, 8, 3]), to(0))];
    // the farthest list belongs to the first, the middle or the last
    let coords = (0..3).map(|k| (0x0102_0304 * (k as u32 + 1), (k == place) as usize)).collect();
    let other = vec![(77, 0)];
    let mut groups: Groups = vec![(3, other, PadPlan::None), (60, coords, to(1)), (61, vec![(5, 0)], PadPlan::None)];
    groups.rotate_left(place);
    let p = Plan { pool, late: i % 2 == 0, share: true, groups, pad_rs: to(2), pad_rec: PadPlan::None, how: i };
    let data = by_hand(&p, 0);
    label_size(c, data.len());
    check_plan(&owner(s, data), &p)?;
    read_by_hand(&write_plan(&p), &p)
}

fn stored_tiny(s: &mut Src, c: &mut Ctx) -> R {
    stored(s, c, Scale::Tiny)
}
fn stored_small(s: &mut Src, c: &mut Ctx) -> R {
    stored(s, c, Scale::Small)
}
fn stored_medium(s: &mut Src, c: &mut Ctx) -> R {
    stored(s, c, Scale::Medium)
}
fn stored_huge(s: &mut Src, c: &mut Ctx) -> R {
    stored(s, c, Scale::Huge)
}
fn written_tiny(s: &mut Src, c: &mut Ctx) -> R {
    written(s, c, Scale::Tiny)
}
fn written_small(s: &mut Src, c: &mut Ctx) -> R {
    written(s, c, Scale::Small)
}
fn written_medium(s: &mut Src, c: &mut Ctx) -> R {
    written(s, c, Scale::Medium)
}
fn written_huge(s: &mut Src, c: &mut Ctx) -> R {
    written(s, c, Scale::Huge)
}

pub fn prop() -> Prop {
    let f = Family::new;
    Prop {
        id: "C32",
        rule: "the records of C01, laid out by an encoder made from the description of the format \
               alone and read by the code, or written by the code and read by a decoder made from \
               the description; lists of every length within two of 2^7, 2^8, 2^14, 2^15, 2^16 and 2^21; lists that begin within two bytes of 2^7, 2^8, 2^14, 2^16, 2^21 and 2^24; non-trivial: at least two groups, two coordinates and a non-empty id list",
        assumptions: ASSUME,
        families: vec![
            Family::all("lengths", 3 * LENGTHS as u64, lengths),
            Family::all("edges", 45 * EDGES.len() as u64, edges).threads(4),
            f("stored tiny", 20_000, 1_500_000, stored_tiny),
            f("stored small", 20_000, 1_000_000, stored_small),
            f("written tiny", 20_000, 1_500_000, written_tiny),
            f("written small", 15_000, 1_000_000, written_small),
            f("stored medium", 160, 6_000, stored_medium),
            f("written medium", 160, 6_000, written_medium),
            f("stored huge", 12, 200, stored_huge).threads(3),
            f("written huge", 8, 150, written_huge).threads(3),
        ],
    }
}
