//! The reference model of a store: what was put in, what a query over it must give.

use carmen_core::gridstore::*;
use pbt::{check, Src, R};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::sync::Arc;

pub const RELEVS: [f64; 4] = [0.4, 0.6, 0.8, 1.0];
pub const ALL: u128 = u128::MAX;

// ---------------------------------------------------------------- entries

pub fn spread(v: u16) -> u32 {
    (0..16).fold(0, |a, b| a | ((v as u32 >> b & 1) << (2 * b)))
}
pub fn z_of(x: u16, y: u16) -> u32 {
    spread(x) | spread(y) << 1
}
pub fn xy_of(z: u32) -> (u16, u16) {
    let squash = |v: u32| (0..16).fold(0u16, |a, b| a | (((v >> (2 * b)) & 1) as u16) << b);
    (squash(z), squash(z >> 1))
}

/// An entry as a store keeps it. Stores list entries in descending order of this type.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Ent {
    pub rs: u8, // relevance code << 4 | score
    pub z: u32,
    pub idh: u32, // id << 8 | hash
}

impl Ent {
    pub fn code(&self) -> u8 {
        self.rs >> 4
    }
    pub fn relev(&self) -> f64 {
        RELEVS[self.code() as usize]
    }
    pub fn score(&self) -> u8 {
        self.rs & 15
    }
    pub fn x(&self) -> u16 {
        xy_of(self.z).0
    }
    pub fn y(&self) -> u16 {
        xy_of(self.z).1
    }
    pub fn id(&self) -> u32 {
        self.idh >> 8
    }
    pub fn hash(&self) -> u8 {
        self.idh as u8
    }
    pub fn of(e: &GridEntry) -> Ent {
        let code = match e.relev {
            r if r == 0.4 => 0,
            r if r == 0.6 => 1,
            r if r == 0.8 => 2,
            _ => 3,
        };
        Ent {
            rs: code << 4 | e.score & 15,
            z: z_of(e.x, e.y),
            idh: (e.id & 0xff_ffff) << 8 | e.source_phrase_hash as u32,
        }
    }
    pub fn entry(&self) -> GridEntry {
        GridEntry {
            relev: self.relev(),
            score: self.score(),
            x: self.x(),
            y: self.y(),
            id: self.id(),
            source_phrase_hash: self.hash(),
        }
    }
}

impl fmt::Debug for Ent {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(
            f,
            "(relev {} score {} x {} y {} id {} hash {})",
            self.relev(),
            self.score(),
            self.x(),
            self.y(),
            self.id(),
            self.hash()
        )
    }
}

/// How entries of a store are made.
#[derive(Clone, Debug)]
pub struct EntCfg {
    pub zoom: u16,
    /// Scores and ids may exceed what a store keeps of them.
    pub excess: bool,
    pub ids: u64,
    pub scores: u64,
    pub codes: u64,
}

impl EntCfg {
    pub fn new(zoom: u16) -> Self {
        EntCfg { zoom, excess: false, ids: 1 << 24, scores: 16, codes: 4 }
    }
    pub fn max(&self) -> u16 {
        max_tile(self.zoom)
    }
}

pub fn max_tile(zoom: u16) -> u16 {
    ((1u32 << zoom) - 1) as u16
}

/// A coordinate of a tile range: clustered, spread out, at powers of two, at the edges.
pub fn tile(s: &mut Src, max: u16) -> u16 {
    let n = max as u64 + 1;
    s.draw(n, |r| {
        let v = match r.below(10) {
            0..=3 => r.below(8),
            4..=5 => {
                // around a Z-order jump
                let bits = 16 - max.leading_zeros() as u64;
                let p = 1u64 << r.below(bits + 1);
                (p + r.below(4)).wrapping_sub(2)
            }
            6 => (n - 1).wrapping_sub(r.below(3)),
            7 => n / 2 + r.below(6),
            _ => r.below(n),
        };
        v % n
    }) as u16
}

pub fn id(s: &mut Src, ids: u64) -> u32 {
    s.num(ids) as u32
}

pub fn entry(s: &mut Src, cfg: &EntCfg) -> GridEntry {
    let max = cfg.max();
    GridEntry {
        relev: RELEVS[(3 - s.u(cfg.codes)) as usize],
        score: if cfg.excess && s.chance(1, 8) { s.u(256) as u8 } else { s.u(cfg.scores) as u8 },
        x: tile(s, max),
        y: tile(s, max),
        id: if cfg.excess && s.chance(1, 12) { s.num(1 << 32) as u32 } else { id(s, cfg.ids) },
        source_phrase_hash: s.num(256) as u8,
    }
}

/// Entries given one by one, or in bulk by a seed.
#[derive(Clone)]
pub enum Entries {
    Listed(Vec<GridEntry>),
    Bulk { n: usize, seed: u64, zoom: u16, codes: u64, scores: u64, ids: u64, spread: u16 },
}

impl fmt::Debug for Entries {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Entries::Listed(v) => {
                f.write_str("[")?;
                for e in v {
                    write!(
                        f,
                        "(relev {} score {} x {} y {} id {} hash {}) ",
                        e.relev, e.score, e.x, e.y, e.id, e.source_phrase_hash
                    )?;
                }
                f.write_str("]")
            }
            Entries::Bulk { n, seed, zoom, codes, scores, ids, spread } => write!(
                f,
                "bulk(n={} seed={} zoom={} codes={} scores={} ids={} spread={})",
                n, seed, zoom, codes, scores, ids, spread
            ),
        }
    }
}

impl Entries {
    pub fn list(&self) -> Vec<GridEntry> {
        match self {
            Entries::Listed(v) => v.clone(),
            Entries::Bulk { n, seed, zoom, codes, scores, ids, spread } => {
                let mut r = pbt::src::Rng::new(*seed);
                let max = max_tile(*zoom) as u64;
                let w = (*spread as u64).min(max);
                let (x0, y0) = (r.below(max - w + 1), r.below(max - w + 1));
                (0..*n)
                    .map(|_| GridEntry {
                        relev: RELEVS[3 - r.below(*codes) as usize],
                        score: r.below(*scores) as u8,
                        x: (x0 + r.below(w + 1)) as u16,
                        y: (y0 + r.below(w + 1)) as u16,
                        id: r.below(*ids) as u32,
                        source_phrase_hash: r.below(256) as u8,
                    })
                    .collect()
            }
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Entries::Listed(v) => v.len(),
            Entries::Bulk { n, .. } => *n,
        }
    }
}

pub fn bulk(s: &mut Src, cfg: &EntCfg, lo: usize, hi: usize) -> Entries {
    let n = s.ri(lo, hi);
    let seed = s.any();
    let codes = s.range(1, cfg.codes);
    let scores = s.range(1, cfg.scores);
    let ids = *s.pick(&[4u64, 300, 70_000, 1 << 24]);
    let max = cfg.max();
    let spread = match s.us(3) {
        0 => max,
        1 => 40,
        _ => 700,
    };
    Entries::Bulk { n, seed, zoom: cfg.zoom, codes, scores, ids: ids.min(cfg.ids), spread }
}

/// Mostly small lists; sometimes hundreds or thousands of entries.
pub fn entries(s: &mut Src, cfg: &EntCfg, mean: usize) -> Entries {
    match s.weighted(&[90, 8, 2]) {
        0 => Entries::Listed(s.list(0, 60, mean, |s, _| entry(s, cfg))),
        1 => bulk(s, cfg, 30, 400),
        _ => bulk(s, cfg, 1000, 9000),
    }
}
pub fn entries1(s: &mut Src, cfg: &EntCfg, mean: usize) -> Entries {
    match s.weighted(&[92, 7, 1]) {
        0 => Entries::Listed(s.list(1, 60, mean, |s, _| entry(s, cfg))),
        1 => bulk(s, cfg, 30, 400),
        _ => bulk(s, cfg, 1000, 9000),
    }
}

// ---------------------------------------------------------------- keys

pub fn lang_set(s: &mut Src) -> u128 {
    match s.weighted(&[4, 3, 3, 2, 2, 2, 1]) {
        0 => ALL,
        1 => 0,
        2 => 1u128 << s.us(8),
        3 => 1u128 << s.us(128),
        4 => (1u128 << s.us(128)) | (1u128 << s.us(128)),
        5 => (s.any() as u128) << 64 | s.any() as u128,
        _ => !(1u128 << s.us(128)),
    }
}

/// Few languages, so that sets meet.
pub fn lang_small(s: &mut Src) -> u128 {
    match s.weighted(&[3, 5, 2, 1, 1]) {
        0 => ALL,
        1 => 1u128 << s.us(3),
        2 => s.range(1, 7) as u128,
        3 => 0,
        _ => 1u128 << (120 + s.us(8)),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Phrases {
    Dense,
    Wide,
}

pub fn phrase(s: &mut Src, p: Phrases) -> u32 {
    match p {
        Phrases::Dense => s.u(12) as u32,
        Phrases::Wide => s.draw(1 << 32, |r| match r.below(6) {
            0 => r.below(6),
            1 => *[255u64, 256, 257, 65535, 65536, 65537, (1 << 24) - 1, 1 << 24]
                .get(r.below(8) as usize)
                .unwrap(),
            2 => (1u64 << 31) - 2 + r.below(5),
            3 => 0xffff_fffb + r.below(5),
            _ => r.below(1 << 32),
        }) as u32,
    }
}

pub type Content = BTreeMap<(u32, u128), BTreeSet<Ent>>;

/// Keys with the entries put under them, each key once.
pub type Items = Vec<(GridKey, Entries)>;

pub fn content(items: &[(GridKey, Entries)]) -> Content {
    let mut c = Content::new();
    for (k, e) in items {
        c.insert((k.phrase_id, k.lang_set), e.list().iter().map(Ent::of).collect());
    }
    c
}

pub fn items(s: &mut Src, cfg: &EntCfg, p: Phrases, min: usize, max: usize, mean: usize, ents: usize) -> Items {
    let raw: Items = s.list(min, max, mean, |s, _| {
        let key = GridKey {
            phrase_id: phrase(s, p),
            lang_set: if s.chance(1, 4) { lang_set(s) } else { lang_small(s) },
        };
        (key, entries1(s, cfg, ents))
    });
    let mut seen = BTreeSet::new();
    raw.into_iter().filter(|(k, _)| seen.insert((k.phrase_id, k.lang_set))).collect()
}

// ---------------------------------------------------------------- stores

pub fn es<E: fmt::Display>(what: &str) -> impl Fn(E) -> String + '_ {
    move |e| format!("{}: {}", what, e)
}

pub fn build(items: &[(GridKey, Entries)], bins: &[u32]) -> Result<pbt::tmp::Dir, String> {
    let dir = pbt::tmp::Dir::new();
    let mut b = GridStoreBuilder::new(dir.path()).map_err(es("builder"))?;
    for (k, e) in items {
        b.insert(k, e.list()).map_err(es("insert"))?;
    }
    b.load_bin_boundaries(bins.to_vec()).map_err(es("bins"))?;
    b.finish().map_err(es("finish"))?;
    Ok(dir)
}

pub struct Store {
    pub gs: Arc<GridStore>,
    pub _dir: Arc<pbt::tmp::Dir>,
}

#[derive(Clone, Debug)]
pub struct StoreOpts {
    pub zoom: u16,
    pub type_id: u16,
    pub radius: f64,
    pub bboxes: Vec<[u16; 4]>,
    pub max_score: f64,
}

pub fn open_with(dir: &Arc<pbt::tmp::Dir>, o: &StoreOpts) -> Result<Store, String> {
    let gs = GridStore::new_with_options(
        dir.path(),
        o.zoom,
        o.type_id,
        o.radius,
        o.bboxes.clone(),
        o.max_score,
    )
    .map_err(es("open"))?;
    Ok(Store { gs: Arc::new(gs), _dir: dir.clone() })
}

pub fn open(dir: pbt::tmp::Dir, zoom: u16, radius: f64) -> Result<Store, String> {
    let o = StoreOpts {
        zoom,
        type_id: 0,
        radius,
        bboxes: vec![[0, 0, max_tile(zoom), max_tile(zoom)]],
        max_score: 1.0,
    };
    open_with(&Arc::new(dir), &o)
}

pub fn get(gs: &GridStore, k: &GridKey, limit: usize) -> Result<Option<Vec<GridEntry>>, String> {
    let it = gs.get(k).map_err(es("get"))?;
    Ok(it.map(|i| i.take(limit).collect()))
}

/// Compares a list of entries of one key with what the key holds, in order.
pub fn same_entries(got: &[GridEntry], want: &BTreeSet<Ent>, what: &str) -> R {
    let mut w = want.iter().rev();
    for (i, g) in got.iter().enumerate() {
        match w.next() {
            None => return Err(format!("{}: entry {} is extra: {:?}", what, i, g)),
            Some(e) => {
                check!(
                    *g == e.entry(),
                    "{}: entry {} of {}: got {:?} expected {:?}",
                    what,
                    i,
                    want.len(),
                    g,
                    e
                )
            }
        }
    }
    check!(
        got.len() == want.len(),
        "{}: {} entries instead of {}, first missing {:?}",
        what,
        got.len(),
        want.len(),
        w.next()
    );
    Ok(())
}

pub fn keys_of(gs: &GridStore, limit: usize) -> Result<Vec<(u32, u128)>, String> {
    gs.keys().take(limit).map(|k| k.map(|k| (k.phrase_id, k.lang_set)).map_err(es("keys"))).collect()
}

pub type Dump = Vec<((u32, u128), Vec<GridEntry>)>;

pub fn dump(gs: &GridStore, limit: usize) -> Result<Dump, String> {
    gs.iter()
        .take(limit)
        .map(|k| k.map(|(k, v)| ((k.phrase_id, k.lang_set), v)).map_err(es("iter")))
        .collect()
}

/// The store holds exactly this content, by every way of reading it.
pub fn same_content(gs: &GridStore, want: &Content, what: &str) -> R {
    for (k, e) in want {
        let key = GridKey { phrase_id: k.0, lang_set: k.1 };
        match get(gs, &key, e.len() + 2)? {
            None => return Err(format!("{}: key {:?} is absent, {} entries expected", what, key, e.len())),
            Some(g) => same_entries(&g, e, &format!("{}: get {:?}", what, key))?,
        }
    }
    let listed = dump(gs, want.len() + 3)?;
    let mut last = None;
    let mut seen = BTreeSet::new();
    for (k, v) in &listed {
        let e = match want.get(k) {
            None => return Err(format!("{}: listed key {:?} was never written", what, k)),
            Some(e) => e,
        };
        check!(seen.insert(*k), "{}: key {:?} is listed twice", what, k);
        check!(last <= Some(k.0), "{}: phrase {} is listed after {:?}", what, k.0, last);
        last = Some(k.0);
        same_entries(v, e, &format!("{}: listing of {:?}", what, k))?;
    }
    for k in want.keys() {
        check!(seen.contains(k), "{}: key {:?} is not listed", what, k);
    }
    Ok(())
}

// ---------------------------------------------------------------- queries

pub const MISMATCH: f64 = 0.96;

/// Radius in tiles; the published formula.
pub fn radius_tiles(zoom: u16, miles: f64) -> f64 {
    miles * 0.8 * 1.5f64.powi(zoom as i32 - 14)
}

pub fn dist(p: [u16; 2], x: u16, y: u16) -> f64 {
    let (dx, dy) = (p[0] as f64 - x as f64, p[1] as f64 - y as f64);
    (dx * dx + dy * dy).sqrt()
}

pub fn scoredist(zoom: u16, d: f64, score: u8, miles: f64) -> f64 {
    let d = if d < 1.0 { 0.8 } else { d };
    let r = radius_tiles(zoom.max(6), miles);
    let ratio = (d / r).min(1.0);
    let s = score.min(7) as f64;
    ((6.0 * s.exp() / 7f64.exp()) + 1.0) / ratio
}

#[derive(Clone, Debug)]
pub struct Hit {
    pub ent: Ent,
    pub lang: bool,
    pub distance: f64,
    pub sd: f64,
    /// Whether the full relevance is due (`None`: too close to the radius to tell).
    pub full: Option<bool>,
}

pub fn near(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}

pub fn covers(m: &MatchPhrase, phrase: u32) -> bool {
    match m {
        MatchPhrase::Exact(p) => *p == phrase,
        MatchPhrase::Range { start, end } => *start <= phrase && phrase < *end,
    }
}

pub fn lang_matches(key: u128, query: u128) -> bool {
    key == ALL || key & query != 0
}

pub fn in_box(b: &[u16; 4], x: u16, y: u16) -> bool {
    b[0] <= x && x <= b[2] && b[1] <= y && y <= b[3]
}

pub fn hit(e: &Ent, lang: bool, o: &MatchOpts, miles: f64) -> Hit {
    match o.proximity {
        None => Hit { ent: *e, lang, distance: 0.0, sd: e.score() as f64, full: Some(lang) },
        Some(p) => {
            let (x, y) = xy_of(e.z);
            let d = dist(p, x, y);
            let r1 = radius_tiles(o.zoom, miles);
            // at zoom 14 a tile is 1.25 miles; a whole number of tiles is exact, at the edge too
            let exact = o.zoom == 14 && r1.fract() == 0.0;
            let edge = (d - r1).abs() <= 1e-9 * (1.0 + r1);
            let within = if edge && !exact {
                None
            } else {
                Some(d <= r1)
            };
            let full = if lang { Some(true) } else { within };
            Hit { ent: *e, lang, distance: d, sd: scoredist(o.zoom, d, e.score(), miles), full }
        }
    }
}

/// What a query must find, per key, in the order the store keeps entries.
pub fn expect(c: &Content, k: &MatchKey, o: &MatchOpts, miles: f64) -> Vec<((u32, u128), Vec<Hit>)> {
    c.iter()
        .filter(|(key, _)| covers(&k.match_phrase, key.0))
        .map(|(key, ents)| {
            let lang = lang_matches(key.1, k.lang_set);
            let hits = ents
                .iter()
                .rev()
                .filter(|e| o.bbox.map_or(true, |b| in_box(&b, e.x(), e.y())))
                .map(|e| hit(e, lang, o, miles))
                .collect();
            (*key, hits)
        })
        .collect()
}

pub fn query(gs: &GridStore, k: &MatchKey, o: &MatchOpts, cap: usize, limit: usize) -> Result<Vec<MatchEntry>, String> {
    Ok(gs.streaming_get_matching(k, o, cap).map_err(es("query"))?.take(limit).collect())
}

/// The stored entry behind a returned one, and whether its relevance is the full one.
pub fn base(m: &MatchEntry) -> Result<(Ent, bool), String> {
    let g = &m.grid_entry;
    for (code, r) in RELEVS.iter().enumerate() {
        for full in [true, false] {
            let want = if full { *r } else { *r * MISMATCH };
            if near(g.relev, want) {
                let e = Ent {
                    rs: (code as u8) << 4 | g.score & 15,
                    z: z_of(g.x, g.y),
                    idh: g.id << 8 | g.source_phrase_hash as u32,
                };
                check!(g.score <= 15 && g.id < 1 << 24, "out of range: {:?}", m);
                return Ok((e, full));
            }
        }
    }
    Err(format!("{:?} has a relevance no entry can have", m))
}

pub fn same_hit(got: &MatchEntry, want: &Hit, what: &str) -> R {
    let (e, full) = base(got)?;
    check!(
        e == want.ent
            && got.matches_language == want.lang
            && near(got.distance, want.distance)
            && near(got.scoredist, want.sd)
            && want.full.map_or(true, |f| f == full),
        "{}: got {:?} expected {:?}",
        what,
        got,
        want
    );
    Ok(())
}

fn sorted(got: &[MatchEntry]) -> Result<Vec<(Ent, bool, usize)>, String> {
    let mut v = Vec::with_capacity(got.len());
    for (i, m) in got.iter().enumerate() {
        v.push((base(m)?.0, m.matches_language, i));
    }
    v.sort();
    Ok(v)
}

/// The results are exactly these, in any order.
pub fn same_hits(got: &[MatchEntry], want: &[Hit], what: &str) -> R {
    let g = sorted(got)?;
    let mut w: Vec<&Hit> = want.iter().collect();
    w.sort_by_key(|h| (h.ent, h.lang));
    let (mut i, mut j) = (0, 0);
    while i < g.len() || j < w.len() {
        match (g.get(i), w.get(j)) {
            (Some(a), Some(b)) if (a.0, a.1) == (b.ent, b.lang) => {
                same_hit(&got[a.2], b, what)?;
                i += 1;
                j += 1;
            }
            (Some(a), Some(b)) if (a.0, a.1) < (b.ent, b.lang) => {
                return Err(format!("{}: unexpected result {:?}", what, got[a.2]))
            }
            (Some(a), None) => {
                return Err(format!("{}: unexpected result {:?}", what, got[a.2]))
            }
            (_, Some(b)) => {
                return Err(format!(
                    "{}: {} results instead of {}, missing {:?}",
                    what,
                    got.len(),
                    want.len(),
                    b
                ))
            }
            (None, None) => unreachable!(),
        }
    }
    Ok(())
}

pub fn flat<K>(v: &[(K, Vec<Hit>)]) -> Vec<Hit> {
    v.iter().flat_map(|(_, h)| h.iter().cloned()).collect()
}

pub fn match_phrase(s: &mut Src, keys: &[u32]) -> MatchPhrase {
    let around = |s: &mut Src| -> u32 {
        if keys.is_empty() || s.chance(1, 8) {
            return phrase(s, Phrases::Wide);
        }
        let k = *s.pick(keys);
        match s.weighted(&[6, 2, 2]) {
            0 => k,
            1 => k.saturating_add(1),
            _ => k.saturating_sub(1),
        }
    };
    if s.chance(1, 3) {
        MatchPhrase::Exact(around(s))
    } else {
        let a = around(s);
        let b = match s.weighted(&[5, 2, 2, 1]) {
            0 => around(s),
            1 => a.saturating_add(1),
            2 => a.saturating_add(s.num(1 << 32) as u32),
            _ => u32::MAX,
        };
        // one in ten stays as drawn: empty or reversed ranges cover nothing
        if a > b && !s.chance(1, 10) {
            MatchPhrase::Range { start: b, end: a }
        } else {
            MatchPhrase::Range { start: a, end: b }
        }
    }
}

pub fn any_box(s: &mut Src, max: u16, near: Option<(u16, u16)>) -> [u16; 4] {
    let (ax, ay) = match near {
        Some((x, y)) if s.chance(2, 3) => (x.min(max), y.min(max)),
        _ => (tile(s, max), tile(s, max)),
    };
    match s.weighted(&[3, 4, 3, 2, 1]) {
        0 => [ax, ay, ax, ay],
        1 => {
            // a small box around the point
            let d = |s: &mut Src| s.len(0, 40, 4) as u16;
            let (l, t, r, b) = (d(s), d(s), d(s), d(s));
            [
                ax.saturating_sub(l),
                ay.saturating_sub(t),
                ax.saturating_add(r).min(max),
                ay.saturating_add(b).min(max),
            ]
        }
        2 => {
            let (bx, by) = (tile(s, max), tile(s, max));
            [ax.min(bx), ay.min(by), ax.max(bx), ay.max(by)]
        }
        3 => {
            // a strip
            let bx = tile(s, max);
            [ax.min(bx), ay, ax.max(bx), ay]
        }
        _ => [0, 0, max, max],
    }
}

/// The entries of a content, a few of them, to aim points and boxes at.
pub fn sample_points(c: &Content) -> Vec<(u16, u16)> {
    let mut v: Vec<(u16, u16)> = Vec::new();
    for e in c.values() {
        let n = e.len();
        for (i, x) in e.iter().enumerate() {
            if i < 4 || i + 2 >= n || i % (n / 8 + 1) == 0 {
                v.push((x.x(), x.y()));
            }
        }
        if v.len() > 200 {
            break;
        }
    }
    v
}
