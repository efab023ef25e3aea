//! Worlds for the coalescing properties: several indexes over the same places, phrase matches over
//! them, and a reference model of which contexts a request must give.

use crate::world::*;
use carmen_core::gridstore::*;
use fixedbitset::FixedBitSet;
use pbt::{check, Src, R};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub type Pm = PhrasematchSubquery<Arc<GridStore>>;

pub struct Index {
    pub idx: u16,
    pub zoom: u16,
    pub type_id: u16,
    pub radius: f64,
    pub items: Items,
    pub model: Content,
    pub bboxes: Vec<[u16; 4]>,
    pub store: Store,
    /// The indexes this one declares itself incompatible with.
    pub incompatible: Vec<u16>,
    pub bins: Vec<u32>,
}

pub struct Shape {
    pub indexes: (usize, usize),
    pub zooms: Vec<u16>,
    /// Entries per index, on average.
    pub entries: usize,
    pub keys: usize,
    /// No two entries of an index share tile and id.
    pub unique: bool,
    /// No two entries of an index share the id.
    pub unique_ids: bool,
    pub ids: u64,
    pub places: usize,
    pub incompatible: bool,
    pub distinct_types: bool,
}

impl Shape {
    pub fn small() -> Shape {
        Shape {
            indexes: (1, 4),
            zooms: vec![6, 6, 9, 10, 11, 12, 13, 14, 15, 16, 0, 3],
            entries: 6,
            keys: 4,
            unique: true,
            unique_ids: false,
            ids: 12,
            places: 3,
            incompatible: false,
            distinct_types: false,
        }
    }
}

pub fn global(zoom: u16) -> [u16; 4] {
    [0, 0, max_tile(zoom), max_tile(zoom)]
}

/// A tile at `zoom` at or near one of the places (given at zoom 16).
fn tile_at(s: &mut Src, places: &[(u16, u16)], zoom: u16) -> (u16, u16) {
    let (px, py) = *s.pick(places);
    let at = |v: u16| (v as u32 >> (16 - zoom)) as u16;
    let (x, y) = (at(px), at(py));
    let max = max_tile(zoom);
    match s.weighted(&[12, 4, 1]) {
        0 => (x, y),
        1 => {
            let (dx, dy) = (s.us(3) as i32 - 1, s.us(3) as i32 - 1);
            let mv = |v: u16, d: i32| (v as i32 + d).clamp(0, max as i32) as u16;
            (mv(x, dx), mv(y, dy))
        }
        _ => (tile(s, max), tile(s, max)),
    }
}

pub fn places(s: &mut Src, n: usize) -> Vec<(u16, u16)> {
    let first = (tile(s, 65535), tile(s, 65535));
    let mut v = vec![first];
    for _ in 1..n {
        if s.chance(2, 3) {
            // a neighbourhood
            let d = *s.pick(&[1u32, 4, 64, 1024]);
            let near = |s: &mut Src, v: u16| (v as u32 ^ (s.us(4) as u32 * d)).min(65535) as u16;
            v.push((near(s, first.0), near(s, first.1)));
        } else {
            v.push((tile(s, 65535), tile(s, 65535)));
        }
    }
    v
}

pub fn indexes(s: &mut Src, sh: &Shape, pl: &[(u16, u16)]) -> Result<Vec<Index>, String> {
    let n = s.ri(sh.indexes.0, sh.indexes.1);
    let mut zooms: Vec<u16> = (0..n).map(|_| *s.pick(&sh.zooms)).collect();
    zooms.sort();
    let mut out: Vec<Index> = vec![];
    let mut used = BTreeSet::new();
    let mut type_id = s.us(3) as u16;
    for i in 0..n {
        if i > 0 {
            // the same type only at the same zoom or by choice; never a finer type before
            let step = if sh.distinct_types { 1 + s.us(2) } else { *s.pick(&[1usize, 1, 0, 1, 3]) };
            type_id += step as u16;
        }
        let zoom = zooms[i];
        let mut idx = s.num(128) as u16;
        while !used.insert(idx) {
            idx = (idx + 1) % 128;
        }
        let mut seen = BTreeSet::new();
        let mut seen_ids = BTreeSet::new();
        let nkeys = s.ri(1, sh.keys);
        let mut items = Items::new();
        let mut keys = BTreeSet::new();
        for k in 0..nkeys {
            let key = GridKey {
                phrase_id: if s.chance(1, 4) && k > 0 { k as u32 - 1 } else { k as u32 },
                lang_set: lang_small(s),
            };
            let raw = s.list(0, sh.entries * 4, sh.entries, |s, _| {
                let (x, y) = tile_at(s, pl, zoom);
                GridEntry {
                    relev: RELEVS[3 - s.weighted(&[6, 2, 1, 1])],
                    score: s.us(16) as u8,
                    x,
                    y,
                    id: if s.chance(1, 10) { id(s, 1 << 24) } else { s.u(sh.ids) as u32 },
                    source_phrase_hash: s.us(3) as u8,
                }
            });
            let list: Vec<GridEntry> = raw
                .into_iter()
                .filter(|e| !sh.unique || seen.insert((e.x, e.y, e.id)))
                .filter(|e| !sh.unique_ids || seen_ids.insert(e.id))
                .collect();
            if !list.is_empty() && keys.insert((key.phrase_id, key.lang_set)) {
                items.push((key, Entries::Listed(list)));
            }
        }
        let model = content(&items);
        let bboxes = if s.bool() { vec![global(zoom)] } else { tight(s, &model, zoom) };
        let radius = *s.pick(&[200.0, 40.0, 400.0, 1.0]);
        // results of a range between boundaries come from the bins, and are the same when no two
        // entries are alike
        let bins: Vec<u32> = if sh.unique && s.chance(1, 4) {
            (0..=sh.keys as u32).filter(|_| s.chance(2, 3)).collect()
        } else {
            vec![]
        };
        let dir = build(&items, &bins)?;
        let opts = StoreOpts {
            zoom,
            type_id,
            radius,
            bboxes: bboxes.clone(),
            max_score: *s.pick(&[1.0, 0.0, 50.0]),
        };
        let store = open_with(&Arc::new(dir), &opts)?;
        out.push(Index { idx, zoom, type_id, radius, items, model, bboxes, store, incompatible: vec![], bins });
    }
    if sh.incompatible {
        let all: Vec<u16> = out.iter().map(|i| i.idx).collect();
        for i in out.iter_mut() {
            i.incompatible = s.list(0, 3, 1, |s, _| {
                if s.chance(1, 5) {
                    s.us(128) as u16
                } else {
                    *s.pick(&all)
                }
            });
        }
    }
    Ok(out)
}

/// One or two boxes that together cover the data exactly, at the tile.
fn tight(s: &mut Src, m: &Content, zoom: u16) -> Vec<[u16; 4]> {
    let pts: Vec<(u16, u16)> = m.values().flatten().map(|e| (e.x(), e.y())).collect();
    let hull = |p: &[(u16, u16)]| {
        [
            p.iter().map(|p| p.0).min().unwrap(),
            p.iter().map(|p| p.1).min().unwrap(),
            p.iter().map(|p| p.0).max().unwrap(),
            p.iter().map(|p| p.1).max().unwrap(),
        ]
    };
    if pts.is_empty() {
        return vec![global(zoom)];
    }
    let at = s.us(pts.len());
    if at == 0 {
        vec![hull(&pts)]
    } else {
        vec![hull(&pts[..at]), hull(&pts[at..])]
    }
}

pub fn describe(ixs: &[Index]) -> Vec<String> {
    ixs.iter()
        .map(|i| {
            format!(
                "index {} zoom {} type {} radius {} bboxes {:?} incompatible {:?} bins {:?} items {:?}",
                i.idx, i.zoom, i.type_id, i.radius, i.bboxes, i.incompatible, i.bins, i.items
            )
        })
        .collect()
}

pub fn bitset(v: &[u16]) -> FixedBitSet {
    let mut b = FixedBitSet::with_capacity(128);
    for i in v {
        b.insert(*i as usize);
    }
    b
}

pub fn pm(ix: &Index, mask: u32, weight: f64, keys: Vec<MatchKeyWithId>) -> Pm {
    PhrasematchSubquery {
        store: ix.store.gs.clone(),
        idx: ix.idx,
        non_overlapping_indexes: bitset(&ix.incompatible),
        weight,
        mask,
        match_keys: keys,
    }
}

pub fn show(pms: &[Pm]) -> Vec<String> {
    pms.iter()
        .map(|p| {
            format!(
                "idx {} mask {:#b} weight {} keys {:?}",
                p.idx, p.mask, p.weight, p.match_keys
            )
        })
        .collect()
}

/// A phrase key over the phrases 0..keys of an index.
pub fn small_key(s: &mut Src, keys: usize) -> MatchKey {
    let a = s.us(keys) as u32;
    let match_phrase = match s.weighted(&[9, 9, 3, 1]) {
        0 => MatchPhrase::Range { start: 0, end: keys as u32 },
        1 => MatchPhrase::Exact(a),
        // no phrase at all
        3 => MatchPhrase::Range { start: a + 1 + s.us(3) as u32, end: a },
        _ => MatchPhrase::Range { start: a, end: a + s.us(keys) as u32 },
    };
    MatchKey { match_phrase, lang_set: *s.pick(&[ALL, 1, 3, 2, 0]) }
}

pub const WEIGHTS: [f64; 10] = [0.5, 1.0, 0.25, 1.0 / 3.0, 0.75, 2.0 / 3.0, 0.2, 0.1, 0.62, 0.63];

/// A non-empty set of at most four query tokens.
pub fn mask4(s: &mut Src) -> u32 {
    *s.pick(&[1u32, 2, 4, 8, 3, 6, 12, 7, 14, 5, 9, 15])
}

/// Sometimes spreads the masks over all 32 bits, keeping their order and which of them meet.
pub fn stretch(s: &mut Src, pms: &mut [Pm]) {
    if s.chance(1, 4) {
        for p in pms.iter_mut() {
            p.mask = (0..8).filter(|i| p.mask >> i & 1 == 1).fold(0, |m, i| m | 1 << (4 * i + 3));
        }
    }
}

pub fn request(s: &mut Src, pl: &[(u16, u16)], zooms: &[u16]) -> MatchOpts {
    let zoom = *s.pick(zooms);
    let max = max_tile(zoom);
    let at = |s: &mut Src| -> (u16, u16) {
        let p = *s.pick(pl);
        ((p.0 as u32 >> (16 - zoom)) as u16, (p.1 as u32 >> (16 - zoom)) as u16)
    };
    let proximity = if s.chance(2, 5) {
        let p = at(s);
        let q = if s.chance(2, 3) { p } else { (tile(s, max), tile(s, max)) };
        Some([q.0, q.1])
    } else {
        None
    };
    let bbox = if s.chance(1, 4) {
        let p = at(s);
        Some(any_box(s, max, Some(p)))
    } else {
        None
    };
    MatchOpts { bbox, proximity, zoom }
}

// ---------------------------------------------------------------- the model of a request

/// Options at another zoom, by definition: ancestors on the way out; on the way in the box of all
/// descendants and the upper-left of the four middle descendants of the point.
pub fn at_zoom(o: &MatchOpts, z: u16) -> MatchOpts {
    if z == o.zoom {
        return o.clone();
    }
    let (bbox, proximity) = if z < o.zoom {
        let d = 1u32 << (o.zoom - z);
        (
            o.bbox.map(|b| {
                let f = |v: u16| (v as u32 / d) as u16;
                [f(b[0]), f(b[1]), f(b[2]), f(b[3])]
            }),
            o.proximity.map(|p| [(p[0] as u32 / d) as u16, (p[1] as u32 / d) as u16]),
        )
    } else {
        let d = 1u32 << (z - o.zoom);
        let lo = |v: u16| (v as u32 * d) as u16;
        let hi = |v: u16| (v as u32 * d + d - 1) as u16;
        let mid = |v: u16| (v as u32 * d + d / 2 - 1) as u16;
        (
            o.bbox.map(|b| [lo(b[0]), lo(b[1]), hi(b[2]), hi(b[3])]),
            o.proximity.map(|p| [mid(p[0]), mid(p[1])]),
        )
    };
    MatchOpts { zoom: z, bbox, proximity }
}

/// Tiles covering 25 miles, rounded up.
pub fn nearby_tiles(zoom: u16) -> u32 {
    (25.0 / (24901.0 / (1u64 << zoom) as f64)).ceil() as u32
}

/// The nearby box within the tile range; `None` when it does not meet the box already there.
pub fn nearby_box(o: &MatchOpts) -> Option<Option<[u16; 4]>> {
    let p = o.proximity?;
    let n = nearby_tiles(o.zoom);
    let max = max_tile(o.zoom) as u32;
    let lo = |v: u16| (v as u32).saturating_sub(n) as u16;
    let hi = |v: u16| (v as u32 + n).min(max) as u16;
    let b = [lo(p[0]), lo(p[1]), hi(p[0]), hi(p[1])];
    Some(match o.bbox {
        None => Some(b),
        Some(c) => {
            let r = [b[0].max(c[0]), b[1].max(c[1]), b[2].min(c[2]), b[3].min(c[3])];
            if r[0] <= r[2] && r[1] <= r[3] {
                Some(r)
            } else {
                None
            }
        }
    })
}

/// What looking up one match key of an index gives, in no particular order.
pub fn lookup(ix: &Index, k: &MatchKeyWithId, o: &MatchOpts) -> Vec<Hit> {
    let mut o = at_zoom(o, ix.zoom);
    if k.nearby_only {
        match nearby_box(&o) {
            None => {}
            Some(None) => return vec![],
            Some(b) => o.bbox = b,
        }
    }
    flat(&expect(&ix.model, &k.key, &o, ix.radius))
}

/// A real result, as it appears in a context.
#[derive(Clone, Debug)]
pub struct Part {
    pub pm: usize,
    pub idx: u16,
    pub zoom: u16,
    pub mask: u32,
    pub key: u32,
    pub hit: Hit,
    pub relev: f64,
    /// The relevance is this or the one reduced for the language.
    pub vague: bool,
}

impl Part {
    pub fn tile(&self) -> (u16, u16) {
        (self.hit.ent.x(), self.hit.ent.y())
    }
}

/// The parts of one match key of one phrase match; of several with the same tile and id only the
/// best is kept if `dedup`.
pub fn parts(n: usize, ix: &Index, p: &Pm, k: &MatchKeyWithId, o: &MatchOpts, dedup: bool) -> Vec<Part> {
    let mut v: Vec<Part> = lookup(ix, k, o)
        .into_iter()
        .map(|h| {
            let full = h.full.unwrap_or(true);
            let stored = h.ent.relev() * if full { 1.0 } else { MISMATCH };
            Part {
                pm: n,
                idx: p.idx,
                zoom: ix.zoom,
                mask: p.mask,
                key: k.id,
                relev: stored * p.weight,
                vague: h.full.is_none(),
                hit: h,
            }
        })
        .collect();
    if dedup {
        v.sort_by(|a, b| {
            (b.relev, b.hit.sd, b.hit.lang)
                .partial_cmp(&(a.relev, a.hit.sd, a.hit.lang))
                .unwrap()
        });
        let mut seen = BTreeSet::new();
        v.retain(|p| seen.insert((p.hit.ent.z, p.hit.ent.id())));
    }
    v
}

/// One context of the model; the leading (finest) part first.
#[derive(Clone, Debug)]
pub struct Ctxt {
    pub parts: Vec<Part>,
    pub mask: u32,
    pub relev: f64,
}

impl Ctxt {
    pub fn sd(&self) -> f64 {
        self.parts[0].hit.sd
    }
    pub fn lead(&self) -> (u16, u32) {
        (self.parts[0].idx, self.parts[0].hit.ent.id())
    }
    pub fn vague(&self) -> bool {
        self.parts.iter().any(|p| p.vague)
    }
    pub fn id(&self) -> Ident {
        self.parts
            .iter()
            .map(|p| (p.idx, p.mask, p.key, p.hit.ent.z, p.hit.ent.id()))
            .collect()
    }
}

/// Identifies a context: for each part index, mask, match key, tile, id.
pub type Ident = Vec<(u16, u32, u32, u32, u32)>;

pub fn ident(c: &CoalesceContext) -> Ident {
    c.entries
        .iter()
        .map(|e| {
            (
                e.idx,
                e.mask,
                e.phrasematch_id,
                z_of(e.grid_entry.x, e.grid_entry.y),
                e.grid_entry.id,
            )
        })
        .collect()
}

pub fn ancestor(t: (u16, u16), from: u16, to: u16) -> (u16, u16) {
    let d = from - to;
    ((t.0 as u32 >> d) as u16, (t.1 as u32 >> d) as u16)
}

/// This entry of a context is a real result of one of the keys of this phrase match.
pub fn real_entry(e: &CoalesceEntry, p: &Pm, hits: &[Hit], what: &str) -> R {
    let g = &e.grid_entry;
    check!(
        e.idx == p.idx && e.mask == p.mask && e.tmp_id == ((p.idx as u32) << 25) + g.id,
        "{}: index, mask or id differ: {:?}",
        what,
        e
    );
    let ok = hits.iter().any(|h| {
        let h_ok = h.ent.x() == g.x
            && h.ent.y() == g.y
            && h.ent.id() == g.id
            && h.ent.hash() == g.source_phrase_hash
            && h.ent.score() == g.score
            && h.lang == e.matches_language
            && near(h.distance, e.distance)
            && near(h.sd, e.scoredist);
        let full = near(g.relev, h.ent.relev() * p.weight);
        let less = near(g.relev, h.ent.relev() * MISMATCH * p.weight);
        h_ok && match h.full {
            Some(true) => full,
            Some(false) => less,
            None => full || less,
        }
    });
    check!(ok, "{}: not a result of the query: {:?}", what, e);
    Ok(())
}

pub const EPS: f64 = 1e-9;

/// Contexts come in descending order of relevance, then score of the leading part.
pub fn ranked(v: &[CoalesceContext]) -> R {
    use std::cmp::Reverse;
    for w in v.windows(2) {
        let (a, b) = (&w[0], &w[1]);
        // relevances and scores are finite, so that comparing pairs of them is sound
        let r = |c: &CoalesceContext| (c.relev, c.entries[0].scoredist);
        let t = |c: &CoalesceContext| {
            let e = &c.entries[0];
            (Reverse(e.idx), e.grid_entry.x, e.grid_entry.y, e.grid_entry.id)
        };
        check!(r(a) > r(b) || r(a) == r(b) && t(a) >= t(b), "out of order: {:?} before {:?}", a, b);
    }
    Ok(())
}

/// A canonical form that does not depend on the order of equally ranked contexts.
pub fn canon(v: &[CoalesceContext]) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for c in v {
        *m.entry(format!("{:?}", c)).or_insert(0) += 1;
    }
    m
}

/// The relevances and scores, in order.
pub fn ranks(v: &[CoalesceContext]) -> Vec<(f64, f64)> {
    v.iter().map(|c| (c.relev, c.entries[0].scoredist)).collect()
}
