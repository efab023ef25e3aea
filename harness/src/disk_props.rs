//! C33: what a store is on disk, against a description that shares nothing with the code.
//!
//! A store is a key-value database. The key of what was written under (phrase, languages) is a byte 0,
//! the phrase in four bytes, highest first, and the languages as a number, highest byte first, without
//! leading zero bytes (nothing for all languages, a byte 0 for none). With a byte 1 instead of the 0,
//! and the first phrase of a prefix bin, it is the key of everything under the phrases of that bin with
//! those languages; a bin ends where the next begins, the last one nowhere. "~BOUNDS" has the first
//! phrases of the bins, four bytes each, lowest first.
//! The value is a record (see C32) of groups by descending relevance and score (0 to 3 for 0.4, 0.6,
//! 0.8 and 1 in the upper half of the byte, the score in the lower), of coordinates descending along
//! the Z-order curve (y in the odd bits), of ids descending (times 256, plus the phrase hash).

use crate::store_props::ASSUME;
use crate::world::*;
use carmen_core::gridstore::*;
use pbt::{check, check_eq, Ctx, Family, Prop, Src, R};
use rocksdb::{IteratorMode, Options, DB};
use std::collections::{BTreeMap, BTreeSet};

type Raw = BTreeMap<Vec<u8>, Vec<u8>>;

fn put_len(out: &mut Vec<u8>, mut n: u64) {
    while n > 127 {
        out.push((n % 128) as u8 + 128);
        n /= 128;
    }
    out.push(n as u8);
}

fn raw_key(mark: u8, phrase: u32, langs: u128) -> Vec<u8> {
    let mut k = vec![mark];
    for i in (0..4).rev() {
        k.push((phrase >> (8 * i)) as u8);
    }
    let digits: Vec<u8> = (0..16).rev().map(|i| (langs >> (8 * i)) as u8).collect();
    match langs {
        ALL => {}
        0 => k.push(0),
        _ => k.extend(digits.iter().skip_while(|d| **d == 0)),
    }
    k
}

/// How an encoder may lay out a record.
#[derive(Clone, Copy, Debug)]
struct Layout {
    share: bool,     // one id list for all that are the same
    ids_first: bool, // all of them before any coordinates
    wider: usize,    // bytes more per pointer than needed
    gap: usize,      // unused bytes at the start
}

fn raw_record(ents: &BTreeSet<Ent>, l: Layout) -> Vec<u8> {
    let mut out = vec![0xa5; l.gap];
    let mut groups: Vec<(u8, Vec<(u32, Vec<u32>)>)> = Vec::new();
    for e in ents.iter().rev() {
        if groups.last().map(|g| g.0) != Some(e.rs) {
            groups.push((e.rs, Vec::new()));
        }
        let coords = &mut groups.last_mut().unwrap().1;
        if coords.last().map(|c| c.0) != Some(e.z) {
            coords.push((e.z, Vec::new()));
        }
        coords.last_mut().unwrap().1.push(e.idh);
    }
    let mut lists: BTreeMap<Vec<u32>, usize> = BTreeMap::new();
    let mut put = |out: &mut Vec<u8>, ids: &Vec<u32>| -> usize {
        if let (true, Some(at)) = (l.share, lists.get(ids)) {
            return *at;
        }
        let at = out.len();
        put_len(out, ids.len() as u64);
        for i in ids {
            out.extend((0..4).map(|b| (i >> (8 * b)) as u8));
        }
        lists.insert(ids.clone(), at);
        at
    };
    let mut places: Vec<Vec<usize>> = Vec::new();
    if l.ids_first {
        for g in &groups {
            places.push(g.1.iter().map(|c| put(&mut out, &c.1)).collect());
        }
    }
    let mut at_groups = Vec::new();
    for (gi, g) in groups.iter().enumerate() {
        let at: Vec<usize> = match places.get(gi) {
            Some(p) => p.clone(),
            None => g.1.iter().map(|c| put(&mut out, &c.1)).collect(),
        };
        let far = *at.iter().max().unwrap();
        let width = ((1..4).find(|w| far < 1 << (8 * w)).unwrap_or(4) + l.wider).min(4);
        at_groups.push(out.len());
        put_len(&mut out, g.1.len() as u64);
        out.push(4 + width as u8);
        for (c, a) in g.1.iter().zip(&at) {
            out.extend((0..4).map(|b| (c.0 >> (8 * b)) as u8));
            out.extend((0..width).map(|b| (a >> (8 * b)) as u8));
        }
    }
    let top = out.len();
    put_len(&mut out, groups.len() as u64);
    for (g, at) in groups.iter().zip(at_groups) {
        out.push(g.0);
        put_len(&mut out, at as u64);
    }
    out.extend((0..4).map(|b| (top >> (8 * b)) as u8));
    out
}

struct In<'a> {
    data: &'a [u8],
    at: usize,
}

impl<'a> In<'a> {
    fn le(&mut self, n: usize) -> Result<usize, String> {
        match self.data.get(self.at..self.at.saturating_add(n)) {
            None => Err(format!("{} bytes at {} of {}", n, self.at, self.data.len())),
            Some(b) => {
                self.at += n;
                Ok(b.iter().rev().fold(0, |a, b| a << 8 | *b as usize))
            }
        }
    }
    fn len(&mut self) -> Result<usize, String> {
        let mut n = 0;
        for i in 0..5 {
            let b = self.le(1)?;
            n |= (b & 127) << (7 * i);
            if b < 128 {
                return Ok(n);
            }
        }
        Err(format!("a length at {} never ends", self.at))
    }
}

/// The entries of a record, which must come in descending order, each once.
fn entries_of(data: &[u8]) -> Result<BTreeSet<Ent>, String> {
    let mut out = BTreeSet::new();
    let mut last: Option<Ent> = None;
    let mut top = In { data, at: data.len().checked_sub(4).ok_or("less than 4 bytes")? };
    top.at = top.le(4)?;
    for _ in 0..top.len()? {
        let rs = top.le(1)? as u8;
        let mut coords = In { data, at: top.len()? };
        let n = coords.len()?;
        let size = coords.le(1)?;
        check!(n == 0 || (5..=8).contains(&size), "coordinates of {} bytes", size);
        for _ in 0..n {
            let z = coords.le(4)? as u32;
            let mut ids = In { data, at: coords.le(size - 4)? };
            for _ in 0..ids.len()? {
                let e = Ent { rs, z, idh: ids.le(4)? as u32 };
                check!(last.map_or(true, |l| l > e), "{:?} comes after {:?}", e, last);
                last = Some(e);
                out.insert(e);
            }
        }
    }
    Ok(out)
}

/// What each bin holds: everything under its phrases, by languages.
fn binned(c: &Content, bins: &[u32]) -> Content {
    let mut out = Content::new();
    for ((phrase, langs), ents) in c {
        if let Some(b) = bins.iter().rev().find(|b| **b <= *phrase) {
            out.entry((*b, *langs)).or_default().extend(ents.iter().cloned());
        }
    }
    out
}

fn data(s: &mut Src, c: &mut Ctx, large: bool) -> (Items, Vec<u32>) {
    let mut cfg = EntCfg::new(*s.pick(&[16u16, 6, 14, 3, 0]));
    cfg.excess = s.chance(1, 2);
    if s.chance(1, 3) {
        cfg.ids = 6;
    }
    if s.chance(1, 3) {
        cfg.scores = 2;
        cfg.codes = 2;
    }
    let p = *s.pick(&[Phrases::Dense, Phrases::Wide]);
    let mut its = items(s, &cfg, p, 1, 12, 4, 8);
    for i in its.iter_mut() {
        if large && s.bool() {
            i.1 = bulk(s, &cfg, 100, 3000);
        } else if s.chance(1, 20) {
            i.1 = Entries::Listed(Vec::new());
        }
    }
    let mut bins: BTreeSet<u32> = BTreeSet::new();
    if s.chance(2, 3) {
        let phrases: Vec<u32> = its.iter().map(|(k, _)| k.phrase_id).collect();
        for _ in 0..s.len(0, 8, 3) {
            let b = *s.pick(&phrases);
            bins.insert(match s.us(4) {
                0 => 0,
                1 => b.saturating_add(1),
                2 => b,
                _ => s.num(1 << 32) as u32,
            });
        }
    }
    let bins: Vec<u32> = bins.into_iter().collect();
    c.input("items", &its);
    c.input("bins", &bins);
    let total: usize = its.iter().map(|i| i.1.len()).sum();
    c.nontrivial_if(total >= 2);
    c.label_if(!bins.is_empty(), "bins");
    c.label_if(its.iter().any(|i| i.1.len() > 60), "a record of more than 255 bytes");
    (its, bins)
}

/// Written by the description, read by the code.
fn stored(s: &mut Src, c: &mut Ctx, large: bool) -> R {
    let (its, bins) = data(s, c, large);
    let layout = Layout {
        share: s.bool(),
        ids_first: s.bool(),
        wider: s.us(4),
        gap: if s.chance(1, 3) { s.len(0, 70_000, 300) } else { 0 },
    };
    c.input("layout", &layout);
    let want = content(&its);
    let mut raw = Raw::new();
    for ((phrase, langs), ents) in &want {
        raw.insert(raw_key(0, *phrase, *langs), raw_record(ents, layout));
    }
    for ((bin, langs), ents) in &binned(&want, &bins) {
        raw.insert(raw_key(1, *bin, *langs), raw_record(ents, layout));
    }
    let bounds = bins.iter().flat_map(|b| (0..4).map(move |i| (b >> (8 * i)) as u8)).collect();
    raw.insert(b"~BOUNDS".to_vec(), bounds);
    let dir = pbt::tmp::Dir::new();
    {
        let mut o = Options::default();
        o.create_if_missing(true);
        let db = DB::open(&o, dir.path()).map_err(es("database"))?;
        for (k, v) in &raw {
            db.put(k, v).map_err(es("put"))?;
        }
    }
    let store = open(dir, 14, 40.0)?;
    same_content(&store.gs, &want, "store written by the description")?;
    let found: BTreeSet<u32> = store.gs.bin_boundaries.iter().cloned().collect();
    check!(found == bins.iter().cloned().collect(), "bins {:?} instead of {:?}", found, bins);
    let keys: Vec<u32> = its.iter().map(|(k, _)| k.phrase_id).chain(bins.iter().cloned()).collect();
    for i in 0..4 {
        let phrase = if i < 2 && bins.len() > 1 {
            let (a, b) = (s.us(bins.len()), s.us(bins.len()));
            MatchPhrase::Range { start: bins[a.min(b)], end: bins[a.max(b)] }
        } else {
            match_phrase(s, &keys)
        };
        let k = MatchKey { match_phrase: phrase, lang_set: lang_small(s) };
        let o = MatchOpts { zoom: 14, bbox: None, proximity: None };
        let mut seen: BTreeSet<(Ent, bool)> = BTreeSet::new();
        for m in query(&store.gs, &k, &o, usize::MAX, 200_000)? {
            seen.insert(base(&m)?);
        }
        let expected: BTreeSet<(Ent, bool)> =
            flat(&expect(&want, &k, &o, 40.0)).iter().map(|h| (h.ent, h.lang)).collect();
        check!(seen == expected, "{:?} over it: {:?} instead of {:?}", k, seen, expected);
    }
    Ok(())
}

/// Written by the code, read by the description.
fn written(s: &mut Src, c: &mut Ctx, large: bool) -> R {
    let (its, bins) = data(s, c, large);
    let want = content(&its);
    let dir = build(&its, &bins)?;
    let raw: Raw = {
        let db = DB::open_for_read_only(&Options::default(), dir.path(), false).map_err(es("database"))?;
        db.iterator(IteratorMode::Start).map(|(k, v)| (k.to_vec(), v.to_vec())).collect()
    };
    let mut expected: BTreeMap<Vec<u8>, &BTreeSet<Ent>> = BTreeMap::new();
    let in_bins = binned(&want, &bins);
    for (mark, content) in [(0, &want), (1, &in_bins)] {
        for ((phrase, langs), ents) in content {
            expected.insert(raw_key(mark, *phrase, *langs), ents);
        }
    }
    for (k, ents) in &expected {
        let v = match raw.get(k) {
            None => return Err(format!("nothing under key {:?}", k)),
            Some(v) => v,
        };
        let got = entries_of(v).map_err(|e| format!("record under key {:?}: {}", k, e))?;
        check!(got == **ents, "under key {:?}: {:?} instead of {:?}", k, got, ents);
    }
    for k in raw.keys() {
        // a store may tell more about itself, where nobody takes it for data
        let other = k.first().map_or(false, |b| *b >= b'~');
        check!(other || expected.contains_key(k), "unexpected key {:?}", k);
    }
    let bounds = match raw.get(&b"~BOUNDS"[..]) {
        None => return Err("no bin boundaries".into()),
        Some(b) => b,
    };
    check_eq!(bounds.len(), 4 * bins.len(), "bytes of bin boundaries");
    let got: Vec<u32> = bounds
        .chunks(4)
        .map(|b| b.iter().rev().fold(0, |a, b| a << 8 | *b as u32))
        .collect();
    check_eq!(got, bins, "bin boundaries");
    Ok(())
}

fn stored_small(s: &mut Src, c: &mut Ctx) -> R {
    stored(s, c, false)
}
fn stored_large(s: &mut Src, c: &mut Ctx) -> R {
    stored(s, c, true)
}
fn written_small(s: &mut Src, c: &mut Ctx) -> R {
    written(s, c, false)
}
fn written_large(s: &mut Src, c: &mut Ctx) -> R {
    written(s, c, true)
}

pub fn prop() -> Prop {
    let f = Family::new;
    Prop {
        id: "C33",
        rule: "random stores (keys, language sets, entries, prefix bins) written as a database by an \
               encoder made from the description of the format alone and opened by the code, or built \
               by the code and read by a decoder made from the description; non-trivial: two or more entries",
        assumptions: ASSUME,
        families: vec![
            f("stored", 12_000, 400_000, stored_small),
            f("written", 12_000, 400_000, written_small),
            f("stored large", 200, 6_000, stored_large),
            f("written large", 200, 6_000, written_large),
        ],
    }
}
