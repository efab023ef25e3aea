//! C18-C24: coalescing and stacking.

use crate::stacks::*;
use crate::store_props::ASSUME;
use crate::world::*;
use carmen_core::gridstore::*;
use pbt::{check, check_eq, Ctx, Family, Prop, Src, R};
use std::collections::{BTreeMap, BTreeSet, HashMap};

const DROP: f64 = 0.25;
const SINGLES: usize = 40;
const OVERALL: usize = 800;

fn round(v: f64) -> i64 {
    (v * 1e9).round() as i64
}

fn key_with(s: &mut Src, keys: usize, ids: &mut u32, exact: bool) -> MatchKeyWithId {
    let mut key = small_key(s, keys);
    if exact {
        key.match_phrase = MatchPhrase::Exact(s.us(keys) as u32);
    }
    *ids += 1 + s.us(3) as u32;
    MatchKeyWithId { key, nearby_only: false, id: *ids, phrase_length: 2 }
}

fn keys_in(ix: &Index) -> usize {
    ix.items.iter().map(|(k, _)| k.phrase_id as usize + 1).max().unwrap_or(1)
}

fn weight(s: &mut Src) -> f64 {
    *s.pick(&WEIGHTS)
}

// ---------------------------------------------------------------- one subquery

/// For each feature its best grid, best feature first; those too far below the best are left out,
/// those at the very edge are in `edge`.
struct Features {
    best: Vec<Part>,
    edge: bool,
}

fn features(parts: &[Part]) -> Features {
    let mut m: BTreeMap<u32, Part> = BTreeMap::new();
    for p in parts {
        let better = m.get(&p.hit.ent.id()).map_or(true, |q| {
            (round(p.relev), p.hit.sd) > (round(q.relev), q.hit.sd)
        });
        if better {
            m.insert(p.hit.ent.id(), p.clone());
        }
    }
    let mut best: Vec<Part> = m.into_iter().map(|(_, p)| p).collect();
    let max = best.iter().map(|p| p.relev).fold(0.0, f64::max);
    let edge = best.iter().any(|p| (max - p.relev - DROP).abs() < EPS);
    best.retain(|p| max - p.relev < DROP);
    best.sort_by(|a, b| {
        let k = |p: &Part| {
            let (x, y) = p.tile();
            (round(p.relev), x, y, p.hit.ent.id())
        };
        let (ka, kb) = (k(a), k(b));
        kb.0.cmp(&ka.0)
            .then(b.hit.sd.partial_cmp(&a.hit.sd).unwrap())
            .then((kb.1, kb.2, kb.3).cmp(&(ka.1, ka.2, ka.3)))
    });
    Features { best, edge }
}

fn c18_check(c: &mut Ctx, ix: &Index, p: &Pm, o: &MatchOpts) -> R {
    let got = coalesce(vec![p.clone()], o).map_err(es("coalesce"))?;
    let hits = lookup(ix, &p.match_keys[0], o);
    let what = "coalescing one subquery";
    check!(got.len() <= SINGLES, "{}: {} contexts", what, got.len());
    ranked(&got)?;
    let mut ids = BTreeSet::new();
    for x in &got {
        check!(x.entries.len() == 1, "{}: {:?}", what, x);
        let e = &x.entries[0];
        real_entry(e, p, &hits, what)?;
        check!(e.phrasematch_id == 0, "{}: match id of {:?}", what, x);
        check!(x.mask == p.mask && x.relev == e.grid_entry.relev, "{}: mask or relevance of {:?}", what, x);
        check!(ids.insert(e.grid_entry.id), "{}: feature {} twice", what, e.grid_entry.id);
        check!(got[0].relev - x.relev < DROP, "{}: {:?} is too far below {:?}", what, x, got[0]);
    }
    for w in got.windows(2) {
        let k = |x: &CoalesceContext| {
            let e = &x.entries[0];
            (e.grid_entry.x, e.grid_entry.y, e.grid_entry.id)
        };
        let tie = w[0].relev == w[1].relev && w[0].entries[0].scoredist == w[1].entries[0].scoredist;
        check!(!tie || k(&w[0]) > k(&w[1]), "{}: ties out of order: {:?}", what, w);
    }
    check!(hits.is_empty() == got.is_empty(), "{}: {} results of {} grids", what, got.len(), hits.len());

    let parts = parts(0, ix, p, &p.match_keys[0], o, false);
    let all_lang = hits.iter().all(|h| h.lang);
    let one_each = hits.iter().map(|h| h.ent.id()).collect::<BTreeSet<_>>().len() == hits.len();
    let few = hits.len() <= 2 * SINGLES;
    let f = features(&parts);
    c.label_if(!few, "more than 80 grids");
    c.label_if(!one_each, "features with several grids");
    c.label_if(f.best.len() > SINGLES, "more than 40 features");
    c.nontrivial_if(f.best.len() >= 2);
    if f.edge || !(few && (o.proximity.is_none() || all_lang) || o.proximity.is_none() && one_each) {
        c.label("only validity");
        return Ok(());
    }
    c.label_if(o.proximity.is_some(), "exact with a point");
    check!(
        got.len() == f.best.len().min(SINGLES),
        "{}: {} contexts of {} features",
        what,
        got.len(),
        f.best.len()
    );
    let by_id: BTreeMap<u32, &Part> = f.best.iter().map(|p| (p.hit.ent.id(), p)).collect();
    for (x, b) in got.iter().zip(&f.best) {
        let e = &x.entries[0];
        match by_id.get(&e.grid_entry.id) {
            None => return Err(format!("{}: {:?} is not among the features expected", what, x)),
            Some(w) => check!(
                near(w.relev, x.relev) && near(w.hit.sd, e.scoredist),
                "{}: not the best grid of the feature: {:?} but {:?}",
                what,
                x,
                w
            ),
        }
        check!(
            near(b.relev, x.relev) && near(b.hit.sd, e.scoredist),
            "{}: missing {:?}, instead {:?}",
            what,
            b,
            x
        );
        if few && one_each && o.proximity.is_none() {
            check!(e.grid_entry.id == b.hit.ent.id(), "{}: {:?} expected here, not {:?}", what, b, x);
        }
    }
    Ok(())
}

fn c18_run(s: &mut Src, c: &mut Ctx, sh: Shape, prox: bool) -> R {
    let pl = places(s, sh.places);
    let ixs = indexes(s, &sh, &pl)?;
    c.input("indexes", &describe(&ixs));
    let ix = &ixs[0];
    for _ in 0..3 {
        let mut o = request(s, &pl, &[ix.zoom]);
        if !prox {
            o.proximity = None;
        }
        let mut n = 0;
        let mut k = key_with(s, keys_in(ix), &mut n, false);
        if prox && s.bool() {
            k.key.lang_set = ALL;
        }
        let w = if s.chance(1, 6) { 0.625 } else { weight(s) };
        let mut p = pm(ix, mask4(s), w, vec![k]);
        stretch(s, std::slice::from_mut(&mut p));
        c.input("request", &(&o, show(&[p.clone()])));
        c18_check(c, ix, &p, &o)?;
    }
    Ok(())
}

fn c18_small(s: &mut Src, c: &mut Ctx) -> R {
    let sh = Shape { indexes: (1, 1), unique: s.bool(), entries: 10, ids: 8, ..Shape::small() };
    c18_run(s, c, sh, true)
}
fn c18_medium(s: &mut Src, c: &mut Ctx) -> R {
    let unique_ids = s.bool();
    let sh = Shape {
        indexes: (1, 1),
        entries: 25,
        keys: 3,
        ids: if unique_ids { 1 << 24 } else { 50 },
        unique: true,
        unique_ids,
        ..Shape::small()
    };
    c18_run(s, c, sh, true)
}
fn c18_many(s: &mut Src, c: &mut Ctx) -> R {
    let sh = Shape {
        indexes: (1, 1),
        entries: 90,
        keys: 4,
        ids: 1 << 24,
        unique_ids: true,
        ..Shape::small()
    };
    let prox = s.chance(1, 5);
    c18_run(s, c, sh, prox)
}

/// Hundreds of phrases with few entries each: the best of them, from all over the range.
fn c18_keys(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.ri(60, 300);
    let zoom = *s.pick(&[6u16, 10, 14, 16]);
    let mut items = Items::new();
    for k in 0..n {
        let lang = lang_small(s);
        let e = GridEntry {
            relev: RELEVS[s.us(4)],
            score: s.us(16) as u8,
            x: tile(s, max_tile(zoom)),
            y: tile(s, max_tile(zoom)),
            id: (k * 7 + 1) as u32,
            source_phrase_hash: 0,
        };
        items.push((GridKey { phrase_id: k as u32, lang_set: lang }, Entries::Listed(vec![e])));
    }
    c.input("items", &items);
    let model = content(&items);
    let dir = build(&items, &[])?;
    let store = open(dir, zoom, 200.0)?;
    let ix = Index {
        idx: 3,
        zoom,
        type_id: 0,
        radius: 200.0,
        items,
        model,
        bboxes: vec![[0, 0, max_tile(zoom), max_tile(zoom)]],
        store,
        incompatible: vec![],
            bins: vec![],
    };
    for _ in 0..3 {
        let a = s.us(n) as u32;
        let m = MatchPhrase::Range { start: a / 4, end: n as u32 - s.us(20) as u32 };
        let k = MatchKeyWithId {
            key: MatchKey { match_phrase: m, lang_set: *s.pick(&[ALL, 1, 2, 3, 0]) },
            nearby_only: false,
            id: 1,
            phrase_length: 2,
        };
        let p = pm(&ix, mask4(s), weight(s), vec![k]);
        let o = MatchOpts { bbox: None, proximity: None, zoom };
        c.input("request", &show(&[p.clone()]));
        c18_check(c, &ix, &p, &o)?;
    }
    Ok(())
}

fn c18_empty(s: &mut Src, c: &mut Ctx) -> R {
    let o = request(s, &[(0, 0)], &[0, 6, 14, 16]);
    c.input("options", &o);
    c.nontrivial = true;
    let got = coalesce(Vec::<Pm>::new(), &o).map_err(es("coalesce of nothing"))?;
    check!(got.is_empty(), "coalescing nothing gives {:?}", got);
    let none: Vec<Pm> = vec![];
    let got = tree_coalesce(&stackable(&none), &o).map_err(es("tree of nothing"))?;
    check!(got.is_empty(), "a tree of nothing gives {:?}", got);
    let got = stack_and_coalesce(&none, &o).map_err(es("stack of nothing"))?;
    check!(got.is_empty(), "stacking nothing gives {:?}", got);
    Ok(())
}

// ---------------------------------------------------------------- several subqueries

/// The matches of a stack in the order they are coalesced.
fn sorted_stack<'a>(v: &'a [(usize, Pm)], ixs: &[Index]) -> Vec<&'a (usize, Pm)> {
    let mut r: Vec<&(usize, Pm)> = v.iter().collect();
    r.sort_by_key(|(i, p)| (ixs[*i].zoom, p.idx));
    r
}

/// A context of several parts is made of real, compatible, nested results. Returns the penalty.
fn valid_context(
    x: &CoalesceContext,
    by: &dyn Fn(&CoalesceEntry) -> Option<(usize, usize)>,
    pms: &[Pm],
    ixs: &[Index],
    hits: &[Vec<Vec<Hit>>],
    what: &str,
) -> Result<Vec<usize>, String> {
    check!(!x.entries.is_empty(), "{}: a context without parts", what);
    let mut mask = 0;
    let mut used = vec![];
    for e in &x.entries {
        let (n, k) = match by(e) {
            None => return Err(format!("{}: part {:?} belongs to no match", what, e)),
            Some(v) => v,
        };
        real_entry(e, &pms[n], &hits[n][k], what)?;
        check!(mask & e.mask == 0, "{}: masks overlap: {:?}", what, x);
        mask |= e.mask;
        check!(!used.contains(&n), "{}: a match used twice: {:?}", what, x);
        used.push(n);
    }
    check!(x.mask == mask, "{}: mask is not the union: {:?}", what, x);
    let zoom = |n: usize| ixs.iter().find(|i| i.idx == pms[n].idx).unwrap().zoom;
    let lead = &x.entries[0].grid_entry;
    for (e, n) in x.entries.iter().zip(&used).skip(1) {
        let (za, zb) = (zoom(used[0]), zoom(*n));
        check!(
            zb <= za && ancestor((lead.x, lead.y), za, zb) == (e.grid_entry.x, e.grid_entry.y),
            "{}: {:?} does not contain the leading tile of {:?}",
            what,
            e,
            x
        );
    }
    Ok(used)
}

fn sum(x: &CoalesceContext) -> f64 {
    x.entries.iter().map(|e| e.grid_entry.relev).sum()
}
fn penalty(x: &CoalesceContext) -> f64 {
    if x.entries.len() == 1 || x.entries[0].mask > x.entries[1].mask {
        0.01
    } else {
        0.0
    }
}

/// Validity of what `coalesce` gives for several subqueries.
fn c19_valid(got: &[CoalesceContext], st: &[(usize, Pm)], ixs: &[Index], o: &MatchOpts) -> R {
    let what = "coalescing several subqueries";
    check!(got.len() <= SINGLES, "{}: {} contexts", what, got.len());
    ranked(got)?;
    let pms: Vec<Pm> = st.iter().map(|x| x.1.clone()).collect();
    let hits: Vec<Vec<Vec<Hit>>> =
        st.iter().map(|(i, p)| vec![lookup(&ixs[*i], &p.match_keys[0], o)]).collect();
    let by = |e: &CoalesceEntry| pms.iter().position(|p| p.idx == e.idx && p.mask == e.mask).map(|n| (n, 0));
    let last = sorted_stack(st, ixs).last().unwrap().1.clone();
    let mut leads = BTreeSet::new();
    for x in got {
        valid_context(x, &by, &pms, ixs, &hits, what)?;
        check!(x.entries.iter().all(|e| e.phrasematch_id == 0), "{}: match id of {:?}", what, x);
        let e = &x.entries[0];
        check!(leads.insert((e.idx, e.grid_entry.id)), "{}: leading grid twice: {:?}", what, x);
        let full = sum(x);
        let want = if e.idx == last.idx && e.mask == last.mask { full - penalty(x) } else { full };
        check!(near(x.relev, want), "{}: relevance is {} instead of {}: {:?}", what, x.relev, want, x);
        check!(got[0].relev - x.relev < DROP, "{}: {:?} is too far below {:?}", what, x, got[0]);
    }
    Ok(())
}

#[derive(Debug)]
struct Cand {
    relev: f64,
    sd: f64,
    /// Leading index, relevance of the leading part, of the other one.
    from: (u16, i64, i64),
}

fn c19_two(s: &mut Src, c: &mut Ctx) -> R {
    let heavy = s.chance(1, 6);
    let unique = s.bool();
    let sh = Shape {
        indexes: (2, 2),
        unique,
        entries: if heavy { 40 } else { 8 },
        ids: if heavy { 1 << 24 } else { 12 },
        places: if s.bool() { 1 } else { 3 },
        zooms: if s.chance(1, 5) { vec![0, 16, 15, 1] } else { Shape::small().zooms },
        ..Shape::small()
    };
    let pl = places(s, sh.places);
    let ixs = indexes(s, &sh, &pl)?;
    c.input("indexes", &describe(&ixs));
    for _ in 0..3 {
        let mut n = 0;
        let mut st: Vec<(usize, Pm)> = vec![];
        let twice = s.chance(1, 12);
        for i in 0..2 {
            let ix = &ixs[if twice { 1 } else { i }];
            let k = key_with(s, keys_in(ix), &mut n, false);
            let mut mask = mask4(s);
            if twice && i == 1 && mask == st[0].1.mask {
                mask = 16;
            }
            st.push((if twice { 1 } else { i }, pm(ix, mask, weight(s), vec![k])));
        }
        if s.bool() {
            st.swap(0, 1);
        }
        let o = request(s, &pl, &[0, 4, 6, 10, 14, 16, ixs[0].zoom, ixs[1].zoom]);
        let mut pms: Vec<Pm> = st.iter().map(|x| x.1.clone()).collect();
        stretch(s, &mut pms);
        st.iter_mut().zip(&pms).for_each(|(x, p)| x.1.mask = p.mask);
        c.input("request", &(&o, show(&pms)));
        let got = coalesce(pms, &o).map_err(es("coalesce"))?;
        c19_valid(&got, &st, &ixs, &o)?;

        // everything there should be
        let ord = sorted_stack(&st, &ixs);
        let (ia, a) = (ord[0].0, &ord[0].1);
        let (ib, b) = (ord[1].0, &ord[1].1);
        let pa = parts(0, &ixs[ia], a, &a.match_keys[0], &o, false);
        let pb = parts(1, &ixs[ib], b, &b.match_keys[0], &o, false);
        if pa.iter().chain(&pb).any(|p| p.vague) {
            c.label("only validity");
            continue;
        }
        let mut tops: HashMap<(u16, u16), f64> = HashMap::new();
        for p in &pa {
            let t = tops.entry(p.tile()).or_insert(0.0);
            *t = t.max(p.relev);
        }
        // every context: rank, and what its relevance was added up from
        let (mut top, mut stacked) = (0f64, 0);
        let mut leads: BTreeMap<(u16, u32), Vec<Cand>> = BTreeMap::new();
        for p in &pa {
            top = top.max(p.relev);
            let c = Cand { relev: p.relev, sd: p.hit.sd, from: (p.idx, round(p.relev), 0) };
            leads.entry((p.idx, p.hit.ent.id())).or_default().push(c);
        }
        for p in &pb {
            let at = ancestor(p.tile(), ixs[ib].zoom, ixs[ia].zoom);
            let parent = if a.idx != b.idx && a.mask & b.mask == 0 { tops.get(&at) } else { None };
            let (full, less) = match parent {
                None => (p.relev, 0.01),
                Some(r) => {
                    stacked += 1;
                    (p.relev + r, if b.mask > a.mask { 0.01 } else { 0.0 })
                }
            };
            top = top.max(full);
            let from = (p.idx, round(p.relev), round(*parent.unwrap_or(&0.0)));
            let c = Cand { relev: full - less, sd: p.hit.sd, from };
            leads.entry((p.idx, p.hit.ent.id())).or_default().push(c);
        }
        c.label_if(stacked > 0, "stacked");
        c.label_if(leads.len() > SINGLES, "more than 40 leads");
        c.nontrivial_if(stacked > 0 && leads.len() >= 3);
        let required = |r: f64| top - r < DROP - EPS;
        let best = |v: &[Cand]| v.iter().map(|c| c.relev).fold(f64::MIN, f64::max);
        let from_of = |x: &CoalesceContext| {
            let e = &x.entries;
            (e[0].idx, round(e[0].grid_entry.relev), e.get(1).map_or(0, |e| round(e.grid_entry.relev)))
        };
        for x in &got {
            let e = &x.entries[0];
            let v = match leads.get(&(e.idx, e.grid_entry.id)) {
                None => return Err(format!("{:?} should not be there", x)),
                Some(v) => v,
            };
            let r = best(v);
            check!(x.relev <= r + EPS, "{:?} is more relevant than {}", x, r);
            let from = from_of(x);
            check!(
                v.iter().any(|c| c.from == from && near(c.relev, x.relev) && near(c.sd, e.scoredist)),
                "{:?} is not among {:?}",
                x,
                v
            );
            if required(r) {
                check!(near(x.relev, r), "{:?} is less relevant than {:?}", x, v);
                for c in v {
                    let above = c.from == from && near(c.relev, x.relev) && c.sd > e.scoredist && !near(c.sd, e.scoredist);
                    check!(!above, "{:?} scores below {:?}", x, c);
                }
            }
        }
        let present: BTreeSet<(u16, u32)> =
            got.iter().map(|x| (x.entries[0].idx, x.entries[0].grid_entry.id)).collect();
        for (l, v) in &leads {
            let r = best(v);
            if !required(r) || present.contains(l) {
                continue;
            }
            let worst = match got.last() {
                Some(x) if got.len() == SINGLES => x.relev,
                _ => return Err(format!("nothing led by index {} feature {}: {:?}, {} contexts", l.0, l.1, v, got.len())),
            };
            check!(r <= worst + EPS, "index {} feature {} is better than what is there, {}: {:?}", l.0, l.1, worst, v);
            for x in &got {
                let from = from_of(x);
                for c in v.iter().filter(|c| c.from == from && near(c.relev, x.relev)) {
                    let sd = x.entries[0].scoredist;
                    check!(c.sd <= sd || near(c.sd, sd), "missing index {} feature {}, {:?}, ranks above {:?}", l.0, l.1, c, x);
                }
            }
        }
    }
    Ok(())
}

/// A context as the stacking procedure for several subqueries forms it.
#[derive(Clone, Debug)]
struct Formed {
    parts: Vec<MatchPart>,
    mask: u32,
    relev: f64,
    /// A part was replaced by a more relevant one, so that the last bits of the relevance are open.
    replaced: bool,
}
#[derive(Clone, Debug)]
struct MatchPart {
    pm: usize,
    mask: u32,
    relev: f64,
    m: std::rc::Rc<MatchEntry>,
}

/// The stacking procedure as documented for C19, over the results of the queries themselves. Returns all
/// contexts it forms and the highest relevance met on the way.
fn formed(st: &[(usize, Pm)], ixs: &[Index], o: &MatchOpts) -> Result<(Vec<Formed>, f64), String> {
    let mut order: Vec<usize> = (0..st.len()).collect();
    order.sort_by_key(|n| (ixs[st[*n].0].zoom, st[*n].1.idx));
    let mut at: HashMap<(u16, u16, u16), Vec<Formed>> = HashMap::new();
    let mut done: Vec<Formed> = vec![];
    let mut top = 0f64;
    for (turn, n) in order.iter().enumerate() {
        let (i, p) = &st[*n];
        let zoom = ixs[*i].zoom;
        let mut zooms: Vec<u16> = st
            .iter()
            .filter(|(j, q)| q.idx != p.idx && ixs[*j].zoom <= zoom)
            .map(|(j, _)| ixs[*j].zoom)
            .collect();
        zooms.sort();
        zooms.dedup();
        let key = &p.match_keys[0].key;
        let mut new: Vec<((u16, u16, u16), Formed)> = vec![];
        for m in query(&ixs[*i].store.gs, key, &at_zoom(o, zoom), 100_000, 100_000)? {
            let tile = (m.grid_entry.x, m.grid_entry.y);
            let lead = MatchPart { pm: *n, mask: p.mask, relev: m.grid_entry.relev * p.weight, m: m.into() };
            let mut f = Formed { mask: p.mask, relev: lead.relev, parts: vec![lead], replaced: false };
            for z in &zooms {
                let (x, y) = ancestor(tile, zoom, *z);
                let (mut mask, mut relev) = (0, 0.0);
                for part in at.get(&(*z, x, y)).into_iter().flatten().flat_map(|c| &c.parts) {
                    if part.mask == mask && part.relev > relev {
                        f.parts.pop();
                        f.relev += part.relev - relev;
                        f.replaced = true;
                    } else if f.mask & part.mask == 0 {
                        f.relev += part.relev;
                        f.mask |= part.mask;
                    } else {
                        continue;
                    }
                    f.parts.push(part.clone());
                    mask = part.mask;
                    relev = part.relev;
                }
            }
            top = top.max(f.relev);
            if turn == order.len() - 1 {
                if f.parts.len() == 1 || f.parts[0].mask > f.parts[1].mask {
                    f.relev -= 0.01;
                }
                done.push(f);
            } else if turn == 0 || f.parts.len() > 1 {
                new.push(((zoom, tile.0, tile.1), f));
            }
        }
        for (k, f) in new {
            at.entry(k).or_default().push(f);
        }
    }
    done.extend(at.into_iter().flat_map(|(_, v)| v));
    Ok((done, top))
}

/// `got` are the best of the contexts that the procedure forms, one per leading grid.
fn c19_formed(c: &mut Ctx, got: &[CoalesceContext], st: &[(usize, Pm)], ixs: &[Index], o: &MatchOpts) -> R {
    let (all, top) = formed(st, ixs, o)?;
    let mut leads: BTreeMap<(u16, u32), Vec<&Formed>> = BTreeMap::new();
    for f in &all {
        leads.entry((st[f.parts[0].pm].1.idx, f.parts[0].m.grid_entry.id)).or_default().push(f);
    }
    // contexts whose relevances were added up from the same numbers can be ranked by their score
    let same = |x: &CoalesceContext, f: &Formed| {
        near(x.relev, f.relev)
            && x.mask == f.mask
            && x.entries.len() == f.parts.len()
            && x.entries.iter().zip(&f.parts).all(|(e, p)| {
                let (g, h) = (&e.grid_entry, &p.m.grid_entry);
                e.idx == st[p.pm].1.idx
                    && e.mask == p.mask
                    && (g.x, g.y, g.id, g.score, g.source_phrase_hash) == (h.x, h.y, h.id, h.score, h.source_phrase_hash)
                    && near(g.relev, p.relev)
            })
    };
    // contexts whose relevances were added up from the same numbers can be ranked by their score
    let same_sum = |x: &CoalesceContext, f: &Formed| {
        let e = &x.entries[0];
        let open = |f: &&Formed| f.replaced && same(x, f);
        near(x.relev, f.relev)
            && x.entries.len() == f.parts.len()
            && x.entries.iter().zip(&f.parts).all(|(e, p)| e.idx == st[p.pm].1.idx && near(e.grid_entry.relev, p.relev))
            && !f.replaced
            && !leads[&(e.idx, e.grid_entry.id)].iter().any(open)
    };
    let above = |x: &CoalesceContext, f: &Formed| {
        let (a, b) = (f.parts[0].m.scoredist, x.entries[0].scoredist);
        f.relev > x.relev + EPS || a > b && !near(a, b) && same_sum(x, f)
    };
    for x in got {
        let e = &x.entries[0];
        let v = match leads.get(&(e.idx, e.grid_entry.id)) {
            None => return Err(format!("{:?} should not be there", x)),
            Some(v) => v,
        };
        check!(v.iter().any(|f| same(x, f)), "{:?} is none of {:?}", x, v);
        for f in v {
            check!(top - f.relev >= DROP - EPS || !above(x, f), "{:?} stands for its leading grid instead of {:?}", x, f);
        }
    }
    let present: BTreeSet<(u16, u32)> =
        got.iter().map(|x| (x.entries[0].idx, x.entries[0].grid_entry.id)).collect();
    for (l, v) in &leads {
        if present.contains(l) {
            continue;
        }
        for f in v.iter().filter(|f| top - f.relev < DROP - EPS) {
            check!(got.len() == SINGLES, "missing {:?}, there are {} contexts", f, got.len());
            for x in got {
                check!(!above(x, f), "missing {:?} ranks above {:?}", f, x);
            }
        }
    }
    c.label_if(leads.len() > SINGLES, "more than 40 leads");
    Ok(())
}

fn c19_more(s: &mut Src, c: &mut Ctx) -> R {
    let sh = Shape { indexes: (3, 5), places: 1, unique: s.bool(), ..Shape::small() };
    let pl = places(s, sh.places);
    let ixs = indexes(s, &sh, &pl)?;
    c.input("indexes", &describe(&ixs));
    for _ in 0..2 {
        let mut n = 0;
        let mut st: Vec<(usize, Pm)> = vec![];
        for (i, ix) in ixs.iter().enumerate() {
            let k = key_with(s, keys_in(ix), &mut n, false);
            let mask = if s.chance(2, 3) { 1 << i } else { mask4(s) };
            st.push((i, pm(ix, mask, weight(s), vec![k])));
        }
        let turn = s.us(st.len());
        st.rotate_left(turn);
        let o = request(s, &pl, &[0, 6, 10, 14, 16]);
        let mut pms: Vec<Pm> = st.iter().map(|x| x.1.clone()).collect();
        stretch(s, &mut pms);
        st.iter_mut().zip(&pms).for_each(|(x, p)| x.1.mask = p.mask);
        c.input("request", &(&o, show(&pms)));
        let got = coalesce(pms, &o).map_err(es("coalesce"))?;
        let deep = got.iter().map(|x| x.entries.len()).max().unwrap_or(0);
        c.label_if(deep >= 3, "three parts or more");
        c.nontrivial_if(deep >= 2);
        c19_valid(&got, &st, &ixs, &o)?;
        c19_formed(c, &got, &st, &ixs, &o)?;
    }
    Ok(())
}

/// Tens of thousands of results of one subquery, of which only the last fits what it is stacked on.
fn large_world(s: &mut Src, c: &mut Ctx) -> Result<(Vec<Index>, usize), String> {
    let n = match s.us(4) {
        0 => s.ri(4_000, 20_000),
        1 => s.ri(20_000, 60_000),
        2 => s.ri(60_000, 70_000),
        _ => s.ri(90_000, 99_990),
    };
    let (zoom_a, zoom_b) = (s.r16(6, 9), s.r16(9, 12));
    let seed = s.any();
    let max = max_tile(zoom_b);
    let at = (s.r16(0, 63), s.r16(0, 63));
    let inside = (at.0 << (zoom_b - zoom_a), at.1 << (zoom_b - zoom_a));
    let mut r = pbt::src::Rng::new(seed);
    let mut b: Vec<GridEntry> = vec![];
    let mut used = BTreeSet::new();
    while b.len() < n {
        let (x, y) = (r.below(max as u64 + 1) as u16, r.below(max as u64 + 1) as u16);
        let id = r.below(1 << 24) as u32;
        if ancestor((x, y), zoom_b, zoom_a) != at && used.insert((x, y, id)) {
            b.push(GridEntry { relev: 1.0, score: 1 + r.below(15) as u8, x, y, id, source_phrase_hash: 0 });
        }
    }
    let few = s.ri(1, 3);
    for i in 0..few {
        b.push(GridEntry { relev: 0.8, score: 0, x: inside.0, y: inside.1, id: i as u32 + 1, source_phrase_hash: 0 });
    }
    c.input("bulk: number, seed, zooms, tile, inside", &(n, seed, zoom_a, zoom_b, at, few));
    let a = vec![GridEntry { relev: 1.0, score: 1, x: at.0, y: at.1, id: 9, source_phrase_hash: 0 }];
    let mut out = vec![];
    for (i, (zoom, list)) in [(zoom_a, a), (zoom_b, b)].into_iter().enumerate() {
        let items: Items = vec![(GridKey { phrase_id: 1, lang_set: ALL }, Entries::Listed(list))];
        let dir = build(&items, &[])?;
        let bboxes = vec![global(zoom)];
        let opts = StoreOpts { zoom, type_id: i as u16, radius: 200.0, bboxes: bboxes.clone(), max_score: 1.0 };
        let store = open_with(&std::sync::Arc::new(dir), &opts)?;
        out.push(Index {
            idx: i as u16 + 3,
            zoom,
            type_id: i as u16,
            radius: 200.0,
            items: vec![],
            model: Content::new(),
            bboxes,
            store,
            incompatible: vec![],
            bins: vec![],
        });
    }
    Ok((out, few))
}

fn large_matches(ixs: &[Index]) -> Vec<Pm> {
    let key = |id| MatchKeyWithId {
        key: MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: ALL },
        nearby_only: false,
        id,
        phrase_length: 5,
    };
    vec![pm(&ixs[1], 1, 0.5, vec![key(2)]), pm(&ixs[0], 2, 0.5, vec![key(1)])]
}

fn large_check(got: &[CoalesceContext], few: usize) -> R {
    let stacked = got.iter().filter(|x| x.entries.len() == 2).count();
    check!(stacked == few, "{} of {} grids that fit were stacked, {:?} is first", stacked, few, got.first());
    check!(near(got[0].relev, 0.9) && got[0].entries.len() == 2, "{:?} comes first", got[0]);
    Ok(())
}

fn c19_large(s: &mut Src, c: &mut Ctx) -> R {
    let (ixs, few) = large_world(s, c)?;
    c.nontrivial = true;
    let o = MatchOpts { zoom: ixs[1].zoom, ..MatchOpts::default() };
    let got = coalesce(large_matches(&ixs), &o).map_err(es("coalesce"))?;
    large_check(&got, few)
}
fn c21_large(s: &mut Src, c: &mut Ctx) -> R {
    let (ixs, few) = large_world(s, c)?;
    c.nontrivial = true;
    let o = MatchOpts { zoom: ixs[1].zoom, ..MatchOpts::default() };
    let pms = large_matches(&ixs);
    let got = tree_coalesce(&stackable(&pms), &o).map_err(es("tree_coalesce"))?;
    large_check(&got, few)
}

// ---------------------------------------------------------------- stack trees

/// Every path of a tree (the matches, coarsest first).
type Path = Vec<usize>;

fn which(pms: &[Pm], p: &Pm) -> usize {
    pms.iter().position(|q| std::ptr::eq(p, q)).expect("a match of another list")
}

struct Seen {
    path: Path,
    leaf: bool,
    relev: f64,
}

/// Walks a real tree, checking each node against its path.
fn walk(pms: &[Pm], c: &mut Ctx) -> Result<Vec<Seen>, String> {
    let owned = pms.to_vec();
    let tree = stackable(&owned);
    check!(
        tree.root.phrasematch.is_none() && tree.root.mask == 0 && tree.root.bmask.count_ones(..) == 0,
        "the root is not empty"
    );
    let mut out: Vec<Seen> = vec![];
    // depth-first; each node is closed after its children, which gives it its best relevance
    let mut todo = vec![(&tree.root, vec![], 0.0, false)];
    let mut best: HashMap<Path, f64> = HashMap::new();
    while let Some((node, path, relev, close)) = todo.pop() {
        let path: Path = path;
        if close {
            let mut m: f64 = relev;
            let mut kids = 0;
            for ch in &node.children {
                if let Some(k) = tree.arena.get(*ch) {
                    kids += 1;
                    let mut p = path.clone();
                    p.push(which(&owned, k.phrasematch.unwrap()));
                    m = m.max(best[&p]);
                }
            }
            check!(
                near(node.max_relev, m),
                "best attainable relevance of {:?} is {} instead of {}",
                path,
                node.max_relev,
                m
            );
            if !path.is_empty() {
                out.push(Seen { path: path.clone(), leaf: kids == 0, relev });
            }
            best.insert(path, m);
            continue;
        }
        if let Some(p) = node.phrasematch {
            let mut set = BTreeSet::new();
            for n in &path {
                set.extend(owned[*n].non_overlapping_indexes.ones());
            }
            let mask = path.iter().fold(0, |m, n| m | owned[*n].mask);
            check!(
                node.mask == mask && node.idx == p.idx && node.zoom == p.store.zoom,
                "node {:?}: mask {:#b}, index {}, zoom {}",
                path,
                node.mask,
                node.idx,
                node.zoom
            );
            check!(
                node.bmask.ones().collect::<BTreeSet<_>>() == set,
                "node {:?}: incompatible indexes {:?}",
                path,
                node.bmask.ones().collect::<Vec<_>>()
            );
        }
        todo.push((node, path.clone(), relev, true));
        for ch in &node.children {
            match tree.arena.get(*ch) {
                None => c.label("culled children"),
                Some(k) => {
                    let p = match k.phrasematch {
                        None => return Err(format!("a node below {:?} has no match", path)),
                        Some(p) => p,
                    };
                    let mut path = path.clone();
                    path.push(which(&owned, p));
                    todo.push((k, path, relev + p.weight, false));
                }
            }
        }
    }
    Ok(out)
}

/// May `p` directly follow `prev`?
fn adjacent(pms: &[Pm], prev: usize, p: usize) -> bool {
    !pms[p].non_overlapping_indexes.contains(pms[prev].idx as usize)
}
fn at_odds(a: &Pm, b: &Pm) -> bool {
    a.non_overlapping_indexes.contains(b.idx as usize) || b.non_overlapping_indexes.contains(a.idx as usize)
}

/// All sequences that the tree may have, each with whether it must.
fn sequences(pms: &[Pm], limit: usize) -> Option<Vec<(Path, bool)>> {
    let mut out: Vec<(Path, bool)> = vec![];
    let mut todo: Vec<(Path, bool, u32)> = vec![(vec![], true, 0)];
    while let Some((path, sure, mask)) = todo.pop() {
        for (n, p) in pms.iter().enumerate() {
            if mask & p.mask != 0 {
                continue;
            }
            if let Some(l) = path.last() {
                if p.store.type_id <= pms[*l].store.type_id || !adjacent(pms, *l, n) {
                    continue;
                }
            }
            let ok = sure && !path.iter().any(|m| at_odds(&pms[*m], p));
            let mut next = path.clone();
            next.push(n);
            todo.push((next, ok, mask | p.mask));
        }
        if !path.is_empty() {
            out.push((path, sure));
            if out.len() > limit {
                return None;
            }
        }
    }
    Some(out)
}

fn c20_check(c: &mut Ctx, pms: &[Pm]) -> R {
    let want = match sequences(pms, 20_000) {
        None => {
            c.label("too large for the model");
            return Ok(());
        }
        Some(w) => w,
    };
    let seen = walk(pms, c)?;
    let model: BTreeMap<&Path, bool> = want.iter().map(|(p, s)| (p, *s)).collect();
    let mut have = BTreeSet::new();
    for n in &seen {
        check!(model.contains_key(&n.path), "stack {:?} is not valid", n.path);
        check!(have.insert(&n.path), "stack {:?} is there twice", n.path);
    }
    // complete stacks, those no further match can be added to
    let relev = |p: &Path| p.iter().map(|n| pms[*n].weight).sum::<f64>();
    let mut inner = BTreeSet::new();
    for (p, _) in &want {
        inner.insert(p[..p.len() - 1].to_vec());
    }
    let leaves: Vec<(&Path, bool)> =
        want.iter().filter(|(p, _)| !inner.contains(p)).map(|(p, s)| (p, *s)).collect();
    let unlimited = leaves.len() < 2000;
    c.label(if unlimited { "below the limit" } else { "limited" });
    c.label_if(want.iter().any(|(_, s)| !s), "incompatible pairs");
    c.nontrivial_if(want.iter().any(|(p, _)| p.len() >= 2));
    if unlimited {
        for (p, sure) in &want {
            check!(!sure || have.contains(p), "stack {:?} is missing", p);
        }
    } else {
        // Sums of such weights are exact in any order, so that ties are ties. Others are given the benefit
        // of the doubt.
        let exact = pms.iter().all(|p| (p.weight * 1024.0).fract() == 0.0);
        let margin = if exact { 0.0 } else { EPS };
        let mut rel: Vec<f64> = leaves.iter().map(|(p, _)| relev(p)).collect();
        rel.sort_by(|a, b| b.partial_cmp(a).unwrap());
        let mut ties = false;
        for (p, sure) in &leaves {
            let r = relev(p);
            let beaten_by = rel.partition_point(|q| *q > r - margin) - if exact { 0 } else { 1 };
            if *sure && beaten_by < 2000 {
                check!(have.contains(p), "stack {:?} is missing, {} others beat it", p, beaten_by);
                ties |= rel.partition_point(|q| *q >= r) > 2000;
            }
        }
        c.label_if(exact && ties, "limited with ties at the limit");
        // nor is more kept than the best 2000 and what is as good as the worst of them
        let mut kept: Vec<f64> = seen.iter().filter(|n| n.leaf).map(|n| n.relev).collect();
        kept.sort_by(|a, b| b.partial_cmp(a).unwrap());
        let worst = *kept.last().unwrap();
        let better = kept.partition_point(|r| *r > worst + if exact { 0.0 } else { EPS });
        check!(better <= 2000, "{} stacks are kept that beat the worst one kept", better);
    }
    for n in &seen {
        check!(
            !n.leaf || !unlimited || !inner.contains(&n.path) || want.iter().any(|(_, s)| !s),
            "stack {:?} ends too early",
            n.path
        );
    }
    Ok(())
}

fn tree_world(s: &mut Src, indexes_: (usize, usize), incompatible: bool) -> Result<Vec<Index>, String> {
    let sh = Shape {
        indexes: indexes_,
        entries: 1,
        keys: 1,
        incompatible,
        ids: 4,
        ..Shape::small()
    };
    indexes(s, &sh, &[(0, 0)])
}

fn c20_random(s: &mut Src, c: &mut Ctx) -> R {
    let incompatible = s.bool();
    let ixs = tree_world(s, (1, 6), incompatible)?;
    let mut n = 0;
    let mut pms = vec![];
    for ix in &ixs {
        let here = s.list(0, 4, 2, |s, _| {
            let k = key_with(s, 1, &mut n, false);
            let mask = if s.chance(1, 3) { 1 << s.us(8) } else { mask4(s) };
            pm(ix, mask, weight(s), vec![k])
        });
        pms.extend(here);
    }
    if s.bool() {
        pms.reverse();
    }
    if pms.len() > 1 {
        let at = s.us(pms.len());
        pms.rotate_left(at);
    }
    c.input("types", &ixs.iter().map(|i| (i.idx, i.type_id, i.zoom, i.incompatible.clone())).collect::<Vec<_>>());
    stretch(s, &mut pms);
    c.input("matches", &show(&pms));
    c20_check(c, &pms)
}

/// More complete stacks than the limit.
fn c20_limit(s: &mut Src, c: &mut Ctx) -> R {
    let types = s.ri(2, 5);
    let per = match types {
        2 => s.ri(42, 64),
        3 => s.ri(11, 17),
        4 => s.ri(6, 9),
        _ => s.ri(4, 5),
    };
    let incompatible = s.chance(1, 3);
    let sh = Shape {
        indexes: (types, types),
        entries: 1,
        keys: 1,
        distinct_types: true,
        incompatible,
        ..Shape::small()
    };
    let ixs = indexes(s, &sh, &[(0, 0)])?;
    let mut n = 0;
    let mut pms = vec![];
    let style = s.us(6);
    for (i, ix) in ixs.iter().enumerate() {
        for j in 0..per {
            let k = key_with(s, 1, &mut n, false);
            let weight = match style {
                0 => (1 + s.us(1024)) as f64 / 1024.0,
                1 => weight(s),
                2 => 0.5,
                3 => (1 + s.us(4)) as f64 / 8.0,
                // few of the best in one of the types
                4 => if j < 3 && i == 0 { 0.75 } else { 0.125 },
                _ => (j + 1) as f64 / (per + i) as f64,
            };
            let mask = if s.chance(1, 20) { 1 << s.us(types) } else { 1 << i };
            pms.push(pm(ix, mask, weight, vec![k]));
        }
    }
    // matches that can only stand alone, some of them better than any stack
    for _ in 0..s.us(4) {
        let k = key_with(s, 1, &mut n, false);
        let weight = *s.pick(&[0.0625, 0.25, 0.5, 1.0, 2.0]);
        pms.push(pm(&ixs[s.us(types)], 0xff, weight, vec![k]));
    }
    c.input("types", &ixs.iter().map(|i| (i.idx, i.type_id, i.zoom, i.incompatible.clone())).collect::<Vec<_>>());
    stretch(s, &mut pms);
    c.input("matches", &show(&pms));
    c20_check(c, &pms)
}

// ---------------------------------------------------------------- tree coalescing

/// Contexts of one step of the tree and one match key of it.
struct Group {
    single: bool,
    ctxts: Vec<Ctxt>,
}

struct Model {
    groups: Vec<Group>,
    /// The reason why only validity can be checked.
    loose: Option<&'static str>,
    singles: BTreeSet<u32>,
}

fn is_range(k: &MatchKeyWithId) -> bool {
    match k.key.match_phrase {
        MatchPhrase::Exact(_) => false,
        MatchPhrase::Range { start, end } => end > start && end - start > 1,
    }
}
fn slow(p: &Pm) -> bool {
    p.store.zoom >= 14
}

fn index_of<'a>(ixs: &'a [Index], p: &Pm) -> &'a Index {
    ixs.iter().find(|i| i.idx == p.idx).unwrap()
}

fn tree_model(ixs: &[Index], pms: &[Pm], o: &MatchOpts) -> Model {
    let mut m = Model { groups: vec![], loose: None, singles: BTreeSet::new() };
    let paths = match sequences(pms, 3_000) {
        None => {
            m.loose = Some("loose: many paths");
            return m;
        }
        Some(p) => p,
    };
    if paths.iter().any(|(_, s)| !s) {
        m.loose = Some("loose: doubtful incompatibility");
        return m;
    }
    let inner: BTreeSet<Path> = paths.iter().map(|(p, _)| p[..p.len() - 1].to_vec()).collect();
    if paths.iter().filter(|(p, _)| !inner.contains(p)).count() >= 2000 {
        m.loose = Some("loose: many paths");
        return m;
    }
    // limits on lookups
    let (mut word, mut high_range, mut high) = (0, 0, 0);
    for (p, _) in &paths {
        let q = &pms[*p.last().unwrap()];
        for k in &q.match_keys {
            let range = is_range(k);
            if range && q.mask.count_ones() == 1 {
                word += 1;
                if slow(q) || k.phrase_length == 1 {
                    m.loose = Some("loose: may be skipped");
                }
            }
            if slow(q) && !k.nearby_only {
                high += 1;
                if range {
                    high_range += 1;
                }
            }
        }
    }
    if word > 40 || high_range > 40 || high > 600 {
        m.loose = Some("loose: quotas");
    }
    let data: Vec<Vec<Vec<Part>>> = pms
        .iter()
        .enumerate()
        .map(|(n, p)| {
            let ix = index_of(ixs, p);
            p.match_keys.iter().map(|k| parts(n, ix, p, k, o, true)).collect()
        })
        .collect();
    if data.iter().flatten().flatten().any(|p| p.vague) {
        m.loose = Some("loose: on the radius");
    }
    // shortest first, so that the contexts to stack on are there
    let mut paths: Vec<Path> = paths.into_iter().map(|(p, _)| p).collect();
    paths.sort_by_key(|p| p.len());
    let mut states: HashMap<Path, Vec<Ctxt>> = HashMap::new();
    let mut total = 0;
    for path in paths {
        let n = *path.last().unwrap();
        let p = &pms[n];
        let single = path.len() == 1 && !inner.contains(&path);
        let mut state: Vec<Ctxt> = vec![];
        for (ki, k) in p.match_keys.iter().enumerate() {
            let parts_ = &data[n][ki];
            let mut ctxts: Vec<Ctxt> = vec![];
            if single {
                m.singles.insert(k.id);
                let all = parts(n, index_of(ixs, p), p, k, o, false);
                if all.len() > 2 * SINGLES
                    || o.proximity.is_some() && !all.iter().all(|p| p.hit.lang)
                {
                    m.loose = Some("loose: single with many results");
                }
                let f = features(&all);
                if f.edge {
                    m.loose = Some("loose: at the edge of 0.25");
                }
                for b in f.best {
                    ctxts.push(Ctxt { mask: p.mask, relev: b.relev, parts: vec![b] });
                }
            } else if path.len() == 1 {
                for b in parts_ {
                    ctxts.push(Ctxt { mask: p.mask, relev: b.relev, parts: vec![b.clone()] });
                }
            } else {
                let parents = match states.get(&path[..path.len() - 1]) {
                    None => continue,
                    Some(v) => v,
                };
                for b in parts_ {
                    for par in parents {
                        let l = &par.parts[0];
                        if ancestor(b.tile(), b.zoom, l.zoom) == l.tile() {
                            let mut parts = vec![b.clone()];
                            parts.extend(par.parts.iter().cloned());
                            ctxts.push(Ctxt { mask: par.mask | p.mask, relev: par.relev + b.relev, parts });
                        }
                    }
                }
            }
            total += ctxts.len();
            if total > 30_000 {
                m.loose = Some("loose: many contexts");
                return m;
            }
            if !single {
                state.extend(ctxts.iter().cloned());
                for x in ctxts.iter_mut() {
                    if x.parts.len() == 1 || x.parts[0].mask > x.parts[1].mask {
                        x.relev -= 0.01;
                    }
                }
            }
            m.groups.push(Group { single, ctxts });
        }
        if !state.is_empty() {
            states.insert(path, state);
        }
    }
    m
}

/// Identifies a context: key, tile and id of each part; of a single, the tile does not count.
fn name(single: bool, x: Vec<(u32, u32, u32)>) -> Vec<(u32, u32, u32)> {
    if single {
        vec![(x[0].0, 0, x[0].2)]
    } else {
        x
    }
}

fn c21_check(c: &mut Ctx, ixs: &[Index], pms: &[Pm], o: &MatchOpts, got: &[CoalesceContext]) -> R {
    let what = "coalescing a tree";
    check!(got.len() <= OVERALL, "{}: {} contexts", what, got.len());
    ranked(got)?;
    let m = tree_model(ixs, pms, o);
    // validity
    let hits: Vec<Vec<Vec<Hit>>> = pms
        .iter()
        .map(|p| p.match_keys.iter().map(|k| lookup(index_of(ixs, p), k, o)).collect())
        .collect();
    let mut keys: HashMap<u32, (usize, usize)> = HashMap::new();
    for (n, p) in pms.iter().enumerate() {
        for (ki, k) in p.match_keys.iter().enumerate() {
            keys.insert(k.id, (n, ki));
        }
    }
    let by = |e: &CoalesceEntry| keys.get(&e.phrasematch_id).cloned();
    let single = |x: &CoalesceContext| x.entries.len() == 1 && m.singles.contains(&x.entries[0].phrasematch_id);
    let mut counts: HashMap<Vec<u32>, usize> = HashMap::new();
    for x in got {
        let used = valid_context(x, &by, pms, ixs, &hits, what)?;
        for w in used.windows(2) {
            check!(
                pms[w[0]].store.type_id > pms[w[1]].store.type_id && adjacent(pms, w[1], w[0]),
                "{}: not a path of the tree: {:?}",
                what,
                x
            );
        }
        let full = sum(x);
        let ok = if x.entries.len() == 1 && m.loose.is_some() {
            near(x.relev, full) || near(x.relev, full - 0.01)
        } else if single(x) {
            near(x.relev, full)
        } else {
            near(x.relev, full - penalty(x))
        };
        check!(ok, "{}: relevance of {:?} should be {} less {}", what, x, full, penalty(x));
        // the step is given by the matches, and its key by the leading part
        let mut step: Vec<u32> = used.iter().map(|n| *n as u32).collect();
        step.push(x.entries[0].phrasematch_id);
        let n = counts.entry(step).or_insert(0);
        *n += 1;
        check!(*n <= SINGLES, "{}: more than 40 contexts of one step: {:?}", what, x);
    }
    if let Some(l) = m.loose {
        c.label(l);
        return Ok(());
    }
    // exactness
    let mut present: HashMap<Vec<(u32, u32, u32)>, &CoalesceContext> = HashMap::new();
    for x in got {
        let id = x.entries.iter().map(|e| {
            let g = &e.grid_entry;
            (e.phrasematch_id, z_of(g.x, g.y), g.id)
        });
        let id = name(single(x), id.collect());
        check!(present.insert(id, x).is_none(), "{}: twice: {:?}", what, x);
    }
    let id_of = |g: &Group, x: &Ctxt| {
        name(g.single, x.parts.iter().map(|p| (p.key, p.hit.ent.z, p.hit.ent.id())).collect())
    };
    let mut expected = 0;
    let mut tops: Vec<f64> = vec![];
    for g in &m.groups {
        expected += g.ctxts.len().min(SINGLES);
        let mut r: Vec<f64> = g.ctxts.iter().map(|x| x.relev).collect();
        r.sort_by(|a, b| b.partial_cmp(a).unwrap());
        r.truncate(SINGLES);
        tops.extend(r);
    }
    tops.sort_by(|a, b| b.partial_cmp(a).unwrap());
    let mut known = 0;
    for g in &m.groups {
        let mut here: Vec<(&Ctxt, f64)> = vec![];
        let mut missing: Vec<&Ctxt> = vec![];
        for w in &g.ctxts {
            match present.get(&id_of(g, w)) {
                None => missing.push(w),
                Some(x) => {
                    check!(
                        near(w.relev, x.relev) && near(w.sd(), x.entries[0].scoredist) && w.mask == x.mask,
                        "{}: {:?} instead of {:?}",
                        what,
                        x,
                        w
                    );
                    here.push((w, x.relev));
                }
            }
        }
        known += here.len();
        if expected >= OVERALL {
            continue;
        }
        check!(
            here.len() == g.ctxts.len().min(SINGLES),
            "{}: {} contexts of a step with {}, missing {:?}",
            what,
            here.len(),
            g.ctxts.len(),
            missing.first()
        );
        // of more than 40, the best
        let worst = here.iter().map(|h| h.0.relev).fold(f64::MAX, f64::min);
        for w in &missing {
            check!(w.relev <= worst + EPS, "{}: missing {:?} is better than {}", what, w, worst);
            let tuple = |x: &Ctxt| x.parts.iter().map(|p| round(p.relev)).collect::<Vec<_>>();
            for h in &here {
                check!(
                    tuple(h.0) != tuple(w) || h.0.sd() >= w.sd() || near(h.0.sd(), w.sd()),
                    "{}: missing {:?} is better than {:?}",
                    what,
                    w,
                    h.0
                );
            }
        }
    }
    check!(known == present.len(), "{}: {} of {} contexts are not expected", what, present.len() - known, present.len());
    if expected >= OVERALL {
        c.label("800 contexts or more");
        check!(got.len() == OVERALL, "{}: {} contexts of {}", what, got.len(), expected);
        for (x, t) in got.iter().zip(&tops) {
            let many = |v: &mut dyn Iterator<Item = f64>| {
                let mut m: BTreeMap<i64, usize> = BTreeMap::new();
                v.for_each(|r| *m.entry(round(r)).or_insert(0) += 1);
                m
            };
            check!(
                near(x.relev, *t),
                "{}: relevance {} expected, not {:?}; relevances {:?} instead of {:?}",
                what,
                t,
                x,
                many(&mut got.iter().map(|x| x.relev)),
                many(&mut tops.iter().cloned())
            );
        }
    }
    let deep = got.iter().map(|x| x.entries.len()).max().unwrap_or(0);
    c.label("exact");
    c.label_if(deep >= 3, "exact, three parts or more");
    c.label_if(m.groups.iter().any(|g| g.ctxts.len() > SINGLES), "exact, more than 40 of a step");
    c.label_if(m.groups.iter().any(|g| g.single && !g.ctxts.is_empty()), "exact, with singles");
    c.nontrivial_if(deep >= 2 && got.len() >= 3);
    Ok(())
}

/// Phrase matches over the indexes.
fn matches(s: &mut Src, ixs: &[Index], mean: usize, keys: usize, tame: bool) -> Vec<Pm> {
    let mut ids = s.us(5) as u32;
    let mut out = vec![];
    for ix in ixs {
        let v = s.list(0, mean * 3, mean, |s, _| {
            let mask = if s.chance(2, 5) { 1 << s.us(5) } else { mask4(s) };
            let exact = tame && ix.zoom >= 14 && mask.count_ones() == 1;
            let ks = (0..s.ri(1, keys))
                .map(|_| {
                    let mut k = key_with(s, keys_in(ix), &mut ids, exact);
                    k.nearby_only = s.chance(1, 10);
                    k
                })
                .collect();
            pm(ix, mask, weight(s), ks)
        });
        out.extend(v);
    }
    if s.chance(1, 3) {
        out.reverse();
    }
    stretch(s, &mut out);
    out
}

fn c21_run(s: &mut Src, c: &mut Ctx, sh: Shape, mean: usize, keys: usize, prox: bool) -> R {
    let pl = places(s, sh.places);
    let ixs = indexes(s, &sh, &pl)?;
    c.input("indexes", &describe(&ixs));
    for _ in 0..3 {
        let tame = !s.chance(1, 8);
        let mut pms = matches(s, &ixs, mean, keys, tame);
        if s.bool() {
            pms.iter_mut().flat_map(|p| &mut p.match_keys).for_each(|k| k.key.lang_set = ALL);
        }
        let mut o = request(s, &pl, &[0, 6, 10, 14, 16, 16, ixs[0].zoom]);
        if !prox {
            o.proximity = None;
        }
        c.input("request", &(&o, show(&pms)));
        let got = tree_coalesce(&stackable(&pms), &o).map_err(es("tree_coalesce"))?;
        c21_check(c, &ixs, &pms, &o, &got)?;
    }
    Ok(())
}

fn c21_small(s: &mut Src, c: &mut Ctx) -> R {
    let sh = Shape {
        places: 1 + s.us(2),
        zooms: if s.chance(1, 6) { vec![0, 16, 15, 1, 14] } else { Shape::small().zooms },
        ..Shape::small()
    };
    c21_run(s, c, sh, 2, 2, true)
}
fn c21_duplicates(s: &mut Src, c: &mut Ctx) -> R {
    let sh = Shape { places: 1, unique: false, ids: 4, ..Shape::small() };
    c21_run(s, c, sh, 2, 2, false)
}
fn c21_incompatible(s: &mut Src, c: &mut Ctx) -> R {
    let sh = Shape { places: 1, incompatible: true, entries: 4, ..Shape::small() };
    c21_run(s, c, sh, 2, 2, true)
}
fn c21_crowded(s: &mut Src, c: &mut Ctx) -> R {
    let sh = Shape { places: 1, indexes: (1, 3), entries: 20, keys: 3, ids: 1 << 20, ..Shape::small() };
    c21_run(s, c, sh, 2, 2, true)
}
/// Enough single matches with enough features each for more than 800 contexts.
fn c21_overall(s: &mut Src, c: &mut Ctx) -> R {
    let sh = Shape {
        places: 1,
        indexes: (1, 2),
        entries: 34,
        keys: 3,
        ids: 1 << 20,
        zooms: vec![6, 6, 9, 10, 12],
        ..Shape::small()
    };
    let prox = s.chance(1, 4);
    let pl = places(s, sh.places);
    let ixs = indexes(s, &sh, &pl)?;
    c.input("indexes", &describe(&ixs));
    let mut ids = 0;
    let mut pms = vec![];
    let n = s.ri(10, 40);
    for _ in 0..n {
        let ix = s.pick(&ixs);
        let mut k = key_with(s, keys_in(ix), &mut ids, true);
        if prox {
            k.key.lang_set = ALL;
        }
        let mask = *s.pick(&[3u32, 6, 12, 7, 1]);
        pms.push(pm(ix, mask, weight(s), vec![k]));
    }
    let mut o = request(s, &pl, &[0, 6, 10]);
    o.bbox = None;
    if !prox {
        o.proximity = None;
    }
    c.input("request", &(&o, show(&pms)));
    let got = tree_coalesce(&stackable(&pms), &o).map_err(es("tree_coalesce"))?;
    c21_check(c, &ixs, &pms, &o, &got)
}

// ---------------------------------------------------------------- grouping and order

fn shuffle<T>(s: &mut Src, v: &mut Vec<T>) {
    for i in (1..v.len()).rev() {
        let j = s.us(i + 1);
        v.swap(i, j);
    }
}

fn same_contexts(a: &[CoalesceContext], b: &[CoalesceContext], what: &str) -> R {
    let (ca, cb) = (canon(a), canon(b));
    if ca == cb {
        return Ok(());
    }
    let only = |x: &BTreeMap<String, usize>, y: &BTreeMap<String, usize>| {
        x.iter().find(|(k, n)| y.get(*k) != Some(n)).map(|(k, _)| k.clone())
    };
    Err(format!(
        "{}: {} and {} contexts; only on one side: {:?} / {:?}",
        what,
        a.len(),
        b.len(),
        only(&ca, &cb),
        only(&cb, &ca)
    ))
}

fn same_ranks(a: &[CoalesceContext], b: &[CoalesceContext], what: &str) -> R {
    check!(a.len() == b.len(), "{}: {} and {} contexts", what, a.len(), b.len());
    for (x, y) in a.iter().zip(b) {
        check!(
            near(x.relev, y.relev) && near(x.entries[0].scoredist, y.entries[0].scoredist),
            "{}: {:?} against {:?}",
            what,
            x,
            y
        );
    }
    Ok(())
}

/// No lookup of this request can be refused or skipped.
fn unrestricted(pms: &[Pm]) -> bool {
    let paths = match sequences(pms, 3_000) {
        None => return false,
        Some(p) => p,
    };
    let (mut word, mut high_range, mut high) = (0, 0, 0);
    for (p, _) in &paths {
        let q = &pms[*p.last().unwrap()];
        for k in &q.match_keys {
            let range = is_range(k);
            if range && q.mask.count_ones() == 1 {
                word += 1;
                if slow(q) || k.phrase_length == 1 {
                    return false;
                }
            }
            if slow(q) && !k.nearby_only {
                high += 1;
                if range {
                    high_range += 1;
                }
            }
        }
    }
    word <= 40 && high_range <= 40 && high <= 600
}

/// Matches that share index, weight and mask, ready to be grouped.
fn groupable(s: &mut Src, ixs: &[Index]) -> Vec<Pm> {
    let mut ids = 0;
    let mut pms: Vec<Pm> = vec![];
    for ix in ixs {
        let mut kinds: Vec<(u32, f64)> = (0..s.ri(1, 2)).map(|_| (mask4(s), weight(s))).collect();
        if s.chance(1, 3) {
            // another weight that is hard to tell apart
            let (mask, w) = kinds[0];
            let d = *s.pick(&[1e-2, 1e-3, 4e-4, 1e-4, 1e-6, 1e-8, 1e-12, f64::EPSILON]);
            kinds.push((mask, w * (1.0 + d)));
        }
        let n = s.len(1, 6, 3);
        for _ in 0..n {
            let (mask, w) = *s.pick(&kinds);
            let exact = ix.zoom >= 14 && mask.count_ones() == 1 || s.chance(1, 3);
            let several = if s.chance(1, 6) { 2 } else { 1 };
            let ks = (0..several)
                .map(|_| {
                    let mut k = key_with(s, keys_in(ix), &mut ids, exact);
                    k.nearby_only = s.chance(1, 12);
                    k
                })
                .collect();
            pms.push(pm(ix, mask, w, ks));
        }
    }
    shuffle(s, &mut pms);
    stretch(s, &mut pms);
    pms
}

fn c22_run(s: &mut Src, c: &mut Ctx) -> R {
    let sh = Shape { places: 1, incompatible: s.chance(1, 4), unique: s.bool(), entries: 4, indexes: (1, 3), ..Shape::small() };
    let pl = places(s, sh.places);
    let ixs = indexes(s, &sh, &pl)?;
    c.input("indexes", &describe(&ixs));
    let pms = groupable(s, &ixs);
    let o = request(s, &pl, &[0, 6, 10, 14, 16]);
    c.input("request", &(&o, show(&pms)));

    // grouping as such
    let groups = collapse_phrasematches(pms.clone());
    let class = |p: &Pm| (p.idx, p.mask, p.weight.to_bits());
    let mut want: BTreeMap<(u16, u32, u64), BTreeMap<u32, usize>> = BTreeMap::new();
    for p in &pms {
        for k in &p.match_keys {
            *want.entry(class(p)).or_default().entry(k.id).or_insert(0) += 1;
        }
    }
    let mut have: BTreeMap<(u16, u32, u64), BTreeMap<u32, usize>> = BTreeMap::new();
    for g in &groups {
        check!(!have.contains_key(&class(g)), "two groups with the same index, weight and mask: {:?}", show(&groups));
        let e = have.entry(class(g)).or_default();
        for k in &g.match_keys {
            *e.entry(k.id).or_insert(0) += 1;
            let orig = pms.iter().flat_map(|p| &p.match_keys).find(|q| q.id == k.id);
            check!(
                orig.map_or(false, |q| q.key == k.key && q.nearby_only == k.nearby_only && q.phrase_length == k.phrase_length),
                "key {:?} was changed by grouping",
                k
            );
        }
        check!(
            g.store.zoom == index_of(&ixs, g).zoom
                && g.non_overlapping_indexes.ones().collect::<BTreeSet<_>>()
                    == index_of(&ixs, g).incompatible.iter().map(|i| *i as usize).collect(),
            "a group is not like its members: {:?}",
            show(&[g.clone()])
        );
    }
    check_eq!(have, want, "match keys after grouping {:?}", show(&pms));
    // grouping groups changes nothing
    check_eq!(show(&collapse_phrasematches(groups.clone())), show(&groups), "grouping twice");

    let plain = tree_coalesce(&stackable(&pms), &o).map_err(es("tree_coalesce"))?;
    let grouped = tree_coalesce(&stackable(&groups), &o).map_err(es("tree_coalesce"))?;
    let both = stack_and_coalesce(&pms, &o).map_err(es("stack_and_coalesce"))?;
    same_contexts(&grouped, &both, "grouping by hand against stack_and_coalesce")?;
    let again = stack_and_coalesce(&pms, &o).map_err(es("stack_and_coalesce"))?;
    same_contexts(&both, &again, "the same request again")?;
    // contexts of one step and key of the grouped matches
    let of: HashMap<u32, usize> =
        groups.iter().enumerate().flat_map(|(n, g)| g.match_keys.iter().map(move |k| (k.id, n))).collect();
    let mut steps: HashMap<Vec<u32>, usize> = HashMap::new();
    for x in &both {
        let mut k: Vec<u32> = x.entries.iter().map(|e| of[&e.phrasematch_id] as u32).collect();
        k.push(x.entries[0].phrasematch_id);
        *steps.entry(k).or_insert(0) += 1;
    }
    let crowded = steps.values().any(|n| *n >= SINGLES);
    if crowded || plain.len() >= OVERALL || both.len() >= OVERALL || !unrestricted(&pms) {
        c.label("limits reached");
        return Ok(());
    }
    c.nontrivial_if(groups.len() < pms.len() && groups.len() >= 2 && plain.len() >= 3);
    c.label_if(plain.iter().any(|x| x.entries.len() >= 2), "stacked");
    same_contexts(&plain, &both, "ungrouped against grouped")?;
    for _ in 0..2 {
        let mut turned = pms.clone();
        shuffle(s, &mut turned);
        let p = tree_coalesce(&stackable(&turned), &o).map_err(es("tree_coalesce"))?;
        same_contexts(&plain, &p, "another order of the matches")?;
        let p = stack_and_coalesce(&turned, &o).map_err(es("stack_and_coalesce"))?;
        same_contexts(&plain, &p, "another order of the matches, grouped")?;
    }
    Ok(())
}

/// The order of subqueries does not matter to `coalesce` either.
fn c22_order(s: &mut Src, c: &mut Ctx) -> R {
    let sh = Shape { indexes: (2, 4), places: 1, unique: s.bool(), ..Shape::small() };
    let pl = places(s, sh.places);
    let ixs = indexes(s, &sh, &pl)?;
    c.input("indexes", &describe(&ixs));
    let mut n = 0;
    let mut pms: Vec<Pm> = vec![];
    for ix in &ixs {
        let k = key_with(s, keys_in(ix), &mut n, false);
        pms.push(pm(ix, mask4(s), weight(s), vec![k]));
    }
    stretch(s, &mut pms);
    let o = request(s, &pl, &[0, 6, 10, 14, 16]);
    c.input("request", &(&o, show(&pms)));
    let first = coalesce(pms.clone(), &o).map_err(es("coalesce"))?;
    c.nontrivial_if(first.len() >= 3);
    same_ranks(&first, &coalesce(pms.clone(), &o).map_err(es("coalesce"))?, "the same request again")?;
    for _ in 0..2 {
        shuffle(s, &mut pms);
        same_ranks(&first, &coalesce(pms.clone(), &o).map_err(es("coalesce"))?, "another order")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- quotas

/// The kind of a match as far as quotas go.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Kind {
    high: bool,
    nearby: bool,
    range: bool,
    word: bool,
    letter: bool,
}

impl Kind {
    /// The quotas that apply.
    fn quotas(&self) -> Vec<(&'static str, usize)> {
        let mut q = vec![];
        if self.range && self.word {
            if self.letter {
                q.push(("one letter", 8));
            }
            if self.high && !self.nearby {
                q.push(("one word, high zoom", 8));
            }
            q.push(("one word", 40));
        }
        if self.high && !self.nearby {
            if self.range {
                q.push(("range, high zoom", 40));
            }
            q.push(("high zoom", 600));
        }
        q
    }
}

fn any_kind(s: &mut Src) -> Kind {
    Kind { high: s.bool(), nearby: s.chance(1, 3), range: s.chance(2, 3), word: s.bool(), letter: s.chance(1, 3) }
}

/// Two indexes (zoom 10 and 14) of `n` phrases at every other number, one grid each, all in one
/// tile.
fn quota_world(n: usize, zooms: &[u16]) -> Result<Vec<Index>, String> {
    let mut out = vec![];
    for (i, zoom) in zooms.iter().enumerate() {
        let mut items = Items::new();
        let at = 1u16 << (zoom - 1);
        for k in 0..n {
            let e = GridEntry { relev: 1.0, score: 7, x: at, y: at, id: k as u32 + 1, source_phrase_hash: 0 };
            items.push((GridKey { phrase_id: 2 * k as u32, lang_set: ALL }, Entries::Listed(vec![e])));
        }
        let model = content(&items);
        let dir = build(&items, &[])?;
        let opts = StoreOpts {
            zoom: *zoom,
            type_id: i as u16,
            radius: 200.0,
            bboxes: vec![[0, 0, max_tile(*zoom), max_tile(*zoom)]],
            max_score: 1.0,
        };
        let bboxes = opts.bboxes.clone();
        let store = open_with(&std::sync::Arc::new(dir), &opts)?;
        out.push(Index {
            idx: i as u16 + 1,
            zoom: *zoom,
            type_id: i as u16,
            radius: 200.0,
            items,
            model,
            bboxes,
            store,
            incompatible: vec![],
            bins: vec![],
        });
    }
    Ok(out)
}

fn kind_pm(s: &mut Src, ix: &Index, k: &Kind, phrase: usize, id: u32, mask: u32, weight: f64) -> Pm {
    let p = 2 * phrase as u32;
    let match_phrase = if k.range {
        MatchPhrase::Range { start: p, end: p + 2 }
    } else if s.bool() {
        MatchPhrase::Exact(p)
    } else {
        MatchPhrase::Range { start: p, end: p + 1 }
    };
    let key = MatchKeyWithId {
        key: MatchKey { match_phrase, lang_set: ALL },
        nearby_only: k.nearby,
        id,
        phrase_length: if k.letter { 1 } else { 2 + s.us(3) },
    };
    pm(ix, mask, weight, vec![key])
}

fn quota_opts(s: &mut Src) -> MatchOpts {
    let prox = if s.bool() { Some([512, 512]) } else { None };
    MatchOpts { zoom: 10, proximity: prox, bbox: None }
}

fn looked_up(got: &[CoalesceContext]) -> BTreeSet<u32> {
    got.iter().flat_map(|x| x.entries.iter().map(|e| e.phrasematch_id)).collect()
}

/// Matches of one kind, all alike.
fn c23_alike(s: &mut Src, c: &mut Ctx) -> R {
    let kind = any_kind(s);
    let limit = kind.quotas().iter().map(|q| q.1).min();
    let n = match limit {
        Some(l) => (l + s.us(30)).saturating_sub(s.us(4)),
        None => *s.pick(&[3usize, 41, 60, 200, 650]),
    };
    let zoom = if kind.high { s.r16(14, 16) } else { s.r16(6, 13) };
    let ixs = quota_world(n, &[zoom])?;
    let w = weight(s);
    let mask = if kind.word { 1 << s.us(6) } else { 3 << s.us(6) };
    // as separate matches or as keys of few
    let per = *s.pick(&[1usize, 1, 3, 100]);
    let mut pms: Vec<Pm> = vec![];
    for i in 0..n {
        let p = kind_pm(s, &ixs[0], &kind, i, i as u32 + 10, mask, w);
        if i % per == 0 {
            pms.push(p);
        } else {
            pms.last_mut().unwrap().match_keys.extend(p.match_keys);
        }
    }
    let o = quota_opts(s);
    c.input("kind, number, zoom, keys per match, mask", &(kind, n, zoom, per, mask));
    c.input("options", &o);
    c.nontrivial = true;
    c.label_if(limit.is_none(), "unlimited");
    c.label_if(limit.map_or(false, |l| n > l), "over the limit");
    let got = tree_coalesce(&stackable(&pms), &o).map_err(es("tree_coalesce"))?;
    let want = limit.unwrap_or(n).min(n);
    check!(
        looked_up(&got).len() == want,
        "{} of {} matches were looked up instead of {}",
        looked_up(&got).len(),
        n,
        want
    );
    Ok(())
}

/// Matches of several kinds, perhaps stacked on something coarser.
fn c23_mixed(s: &mut Src, c: &mut Ctx) -> R {
    let stacked = s.chance(1, 3);
    let kinds: Vec<Kind> = (0..s.ri(2, 5)).map(|_| any_kind(s)).collect();
    let n = s.ri(10, 160);
    let together = s.chance(1, 3);
    let zooms: Vec<u16> = if stacked { vec![6, 10, 14] } else { vec![10, 14] };
    let ixs = quota_world(n, &zooms)?;
    let mut pms: Vec<Pm> = vec![];
    let mut of: HashMap<u32, Kind> = HashMap::new();
    for i in 0..n {
        let k = *s.pick(&kinds);
        let ix = &ixs[zooms.len() - 2 + k.high as usize];
        // the same mask bits: these do not stack on one another
        let mask = if k.word { 1 } else { 3 };
        let id = i as u32 + 10;
        of.insert(id, k);
        let p = kind_pm(s, ix, &k, i, id, mask, 0.25);
        // one match of several keys, which may be of different kinds
        match pms.last_mut() {
            Some(l) if together && l.idx == p.idx && l.mask == p.mask && s.bool() => l.match_keys.extend(p.match_keys),
            _ => pms.push(p),
        }
    }
    let mut parents = 0;
    if stacked {
        parents = *s.pick(&[1, 2, 3, 9]);
        for i in 0..parents {
            let k = Kind { high: false, nearby: false, range: false, word: true, letter: false };
            pms.push(kind_pm(s, &ixs[0], &k, i, i as u32 + 1, 16, 0.25));
        }
    }
    let o = quota_opts(s);
    c.input("kinds", &of.iter().collect::<BTreeMap<_, _>>());
    c.input("parents, options", &(parents, &o));
    let got = tree_coalesce(&stackable(&pms), &o).map_err(es("tree_coalesce"))?;
    if got.len() >= OVERALL {
        c.label("contexts limited");
    }
    // a match may be looked up twice, to stand alone and to be stacked
    let alone: BTreeSet<u32> = got.iter().filter(|x| x.entries.len() == 1).map(|x| x.entries[0].phrasematch_id).collect();
    let joined: BTreeSet<u32> =
        got.iter().filter(|x| x.entries.len() > 1).flat_map(|x| x.entries.iter().map(|e| e.phrasematch_id)).collect();
    let modes = if parents > 0 { 2 } else { 1 };
    let mut used: BTreeMap<&str, (usize, usize)> = BTreeMap::new();
    let mut would: BTreeMap<&str, usize> = BTreeMap::new();
    for (id, k) in &of {
        for (q, l) in k.quotas() {
            let u = used.entry(q).or_insert((0, l));
            u.0 += alone.contains(id) as usize + joined.contains(id) as usize;
            *would.entry(q).or_insert(0) += modes;
        }
    }
    for (q, (n, l)) in &used {
        check!(n <= l, "{} matches were looked up under the quota '{}' of {}", n, q, l);
    }
    c.nontrivial_if(used.iter().any(|(q, (_, l))| would[q] > *l));
    // what no quota can have kept away
    if got.len() < OVERALL {
        for (id, k) in &of {
            let reached = k.quotas().iter().any(|(q, l)| used[q].0 >= *l);
            // alone, these can be too far below what a stack reaches; stacked they reach the same
            let skippable = parents > 0 && k.high && k.word && k.range;
            if !reached {
                c.label_if(!k.quotas().is_empty(), "quota not reached");
                check!(
                    skippable || alone.contains(id),
                    "match {} of kind {:?} was not looked up; {:?}",
                    id,
                    k,
                    used
                );
                check!(
                    parents == 0 || joined.contains(id),
                    "match {} of kind {:?} was not looked up to be stacked; {:?}",
                    id,
                    k,
                    used
                );
            }
        }
        if stacked {
            for i in 0..parents {
                check!(alone.contains(&(i as u32 + 1)), "parent {} was not looked up", i);
            }
        }
    }
    Ok(())
}

/// Weak single-word ranges on slow indexes, some with something to stack on them, after better
/// matches: only those that nothing stacks on and that cannot reach more than three quarters of the
/// best may be passed over.
fn c23_weak(s: &mut Src, c: &mut Ctx) -> R {
    let (strong, leaves, bases, tops) = (s.ri(0, 24), s.ri(0, 2), s.ri(0, 2), s.ri(0, 2));
    // few enough for all quotas
    let ixs = quota_world(24, &[10, 14, 16])?;
    let exact = Kind { high: true, nearby: false, range: false, word: true, letter: false };
    let weak = |s: &mut Src| *s.pick(&[0.5, 0.1, 0.3, 0.7, 0.74, 0.75, 0.76, 0.8, 0.9]);
    let mut pms: Vec<Pm> = vec![];
    for i in 0..strong {
        // in conflict with everything else
        pms.push(kind_pm(s, &ixs[0], &Kind { high: false, word: false, ..exact }, i, i as u32 + 100, 7, 1.0));
    }
    let mut weights: Vec<(u32, f64)> = vec![];
    for i in 0..bases + leaves {
        // single words on the middle index, on which only the matches below of another word stack
        let k = Kind { range: s.chance(3, 4), nearby: s.chance(1, 4), ..exact };
        let w = weak(s);
        weights.push((i as u32 + 10, w));
        pms.push(kind_pm(s, &ixs[1], &k, i, i as u32 + 10, if i < bases { 1 } else { 2 }, w));
    }
    let mut top: Vec<(u32, f64)> = vec![];
    for i in 0..tops {
        let k = Kind { range: s.bool(), nearby: s.chance(1, 4), ..exact };
        let w = *s.pick(&[0.1, 0.05, 0.2, 0.5, 0.7]);
        top.push((i as u32 + 50, w));
        pms.push(kind_pm(s, &ixs[2], &k, i, i as u32 + 50, 2, w));
    }
    let o = quota_opts(s);
    c.input("strong, bases, leaves, tops", &(strong, bases, leaves, tops));
    c.input("weights", &(&weights, &top));
    c.input("options", &o);
    c.nontrivial_if(strong >= 8 && bases > 0 && tops > 0);
    let got = tree_coalesce(&stackable(&pms), &o).map_err(es("tree_coalesce"))?;
    let best = got.get(0).map_or(0.0, |x| x.relev);
    let alone: BTreeSet<u32> = got.iter().filter(|x| x.entries.len() == 1).map(|x| x.entries[0].phrasematch_id).collect();
    let joined: BTreeSet<(u32, u32)> = got
        .iter()
        .filter(|x| x.entries.len() == 2)
        .map(|x| (x.entries[1].phrasematch_id, x.entries[0].phrasematch_id))
        .collect();
    for i in 0..strong {
        check!(alone.contains(&(i as u32 + 100)), "match {} was not looked up", i + 100);
    }
    let reachable = |w: f64| w > 0.75 * (best + 0.01) + 1e-9;
    let mut passed = false;
    for (n, (id, w)) in weights.iter().enumerate() {
        if n < bases && tops > 0 || reachable(*w) {
            check!(alone.contains(id), "match {} of weight {} was passed over; {:?}", id, w, (best, &alone));
        }
        passed |= !alone.contains(id);
        for (tid, tw) in &top {
            if n < bases && reachable(w + tw) {
                check!(joined.contains(&(*id, *tid)), "match {} was passed over on {}; {:?}", tid, id, (best, &joined));
            }
        }
    }
    c.label_if(passed, "passed over");
    for (id, w) in &top {
        check!(!reachable(*w) || alone.contains(id), "match {} of weight {} was passed over", id, w);
    }
    Ok(())
}

/// A box that has the point, at its very edge perhaps, or just misses it.
fn box_by(s: &mut Src, p: [u16; 2], max: u16) -> ([u16; 4], bool) {
    let mut b = [p[0], p[1], p[0], p[1]];
    for i in 0..4 {
        let by = *s.pick(&[0u16, 0, 1, 100, 65535]);
        b[i] = if i < 2 { b[i].saturating_sub(by) } else { b[i].saturating_add(by).min(max) };
    }
    if s.bool() {
        return (b, true);
    }
    // beyond one of its edges
    match s.us(4) {
        i if i < 2 => {
            b[i] = p[i] + 1;
            b[i + 2] = b[i + 2].max(b[i]);
        }
        i => {
            b[i] = p[i - 2] - 1;
            b[i - 2] = b[i - 2].min(b[i]);
        }
    }
    (b, false)
}

/// When a limit is reached, those looked up are the best: by relevance, then by whether a box of the
/// store has the point, then by the greatest score of the store.
fn c23_best(s: &mut Src, c: &mut Ctx) -> R {
    let kinds: Vec<Kind> = (0..s.ri(1, 3))
        .map(|_| Kind { range: true, word: s.chance(2, 3), ..any_kind(s) })
        .collect();
    let n = s.ri(9, 70);
    let zooms = [*s.pick(&[6u16, 10, 13]), *s.pick(&[14u16, 16])];
    let worlds = quota_world(n, &zooms)?;
    let o = quota_opts(s);
    let mut stores: Vec<Vec<(Index, bool, f64)>> = vec![vec![], vec![]];
    let mut told = vec![];
    for (i, w) in worlds.iter().enumerate() {
        let max = max_tile(w.zoom);
        let point = at_zoom(&MatchOpts { proximity: Some([512, 512]), ..o.clone() }, w.zoom).proximity.unwrap();
        for k in 0..s.ri(1, 4) {
            let boxes: Vec<([u16; 4], bool)> = s.list(0, 3, 1, |s, _| box_by(s, point, max));
            let has = o.proximity.is_some() && boxes.iter().any(|b| b.1);
            let opts = StoreOpts {
                zoom: w.zoom,
                type_id: i as u16,
                radius: 200.0,
                bboxes: boxes.iter().map(|b| b.0).collect(),
                max_score: *s.pick(&[0.0, 1.0, 0.5, 7.0, 1e9]),
            };
            told.push(opts.clone());
            let store = open_with(&w.store._dir, &opts)?;
            let ix = Index {
                idx: (i * 4 + k) as u16 + 1,
                zoom: w.zoom,
                type_id: w.type_id,
                radius: w.radius,
                items: vec![],
                model: Content::new(),
                bboxes: opts.bboxes.clone(),
                store,
                incompatible: vec![],
                bins: vec![],
            };
            stores[i].push((ix, has, opts.max_score));
        }
    }
    let weights: Vec<f64> = (0..s.ri(1, 3)).map(|_| *s.pick(&[0.25, 0.5, 0.75, 1.0, 0.26])).collect();
    let mut pms: Vec<Pm> = vec![];
    let mut of: BTreeMap<u32, (Kind, (f64, bool, f64))> = BTreeMap::new();
    for i in 0..n {
        let k = *s.pick(&kinds);
        let (ix, has, score) = s.pick(&stores[k.high as usize]);
        let w = *s.pick(&weights);
        let id = i as u32 + 10;
        of.insert(id, (k, (w, *has, *score)));
        pms.push(kind_pm(s, ix, &k, i, id, if k.word { 1 } else { 3 }, w));
    }
    c.input("options, stores", &(&o, told));
    c.input("matches: kind, weight, has the point, greatest score", &of);
    let got = tree_coalesce(&stackable(&pms), &o).map_err(es("tree_coalesce"))?;
    let found = looked_up(&got);
    let best = got.get(0).map_or(0.0, |x| x.relev);
    let mut passed = false;
    for (id, (k, rank)) in &of {
        // what cannot come near the best may be passed over
        if found.contains(id) || k.high && k.word && rank.0 <= 0.75 * (best + 0.01) + 1e-9 {
            continue;
        }
        passed = true;
        let full = k.quotas().iter().any(|(q, l)| {
            let under: Vec<_> = of
                .iter()
                .filter(|(i, (k, _))| found.contains(i) && k.quotas().iter().any(|(p, _)| p == q))
                .collect();
            under.len() >= *l && under.iter().all(|(_, (_, r))| r >= rank)
        });
        check!(
            full,
            "match {} ({:?}, weight, has the point, greatest score: {:?}) was passed over for worse ones; looked up: {:?}",
            id,
            k,
            rank,
            found
        );
    }
    c.nontrivial_if(passed && of.values().any(|v| v.1 != of[&10].1));
    Ok(())
}

// ---------------------------------------------------------------- threads

fn pools() -> &'static [rayon::ThreadPool] {
    static POOLS: std::sync::OnceLock<Vec<rayon::ThreadPool>> = std::sync::OnceLock::new();
    POOLS.get_or_init(|| {
        [1usize, 2, 3, 8, 16]
            .iter()
            .map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap())
            .collect()
    })
}

fn exactly(a: &[CoalesceContext], b: &[CoalesceContext], what: &str) -> R {
    if a.len() < OVERALL && b.len() < OVERALL {
        same_contexts(a, b, what)
    } else {
        same_ranks(a, b, what)
    }
}

fn c24_pools(s: &mut Src, c: &mut Ctx) -> R {
    let crowded = s.chance(1, 4);
    let sh = Shape {
        places: 1,
        entries: if crowded { 20 } else { 6 },
        ids: if crowded { 1 << 20 } else { 12 },
        unique: s.bool(),
        ..Shape::small()
    };
    let pl = places(s, sh.places);
    let ixs = indexes(s, &sh, &pl)?;
    c.input("indexes", &describe(&ixs));
    let tame = s.bool();
    let pms = matches(s, &ixs, 4, 2, tame);
    let o = request(s, &pl, &[0, 6, 10, 14, 16]);
    c.input("request", &(&o, show(&pms)));
    let base = stack_and_coalesce(&pms, &o).map_err(es("stack_and_coalesce"))?;
    c.nontrivial_if(pms.len() >= 9 && base.len() >= 3);
    for (i, p) in pools().iter().enumerate() {
        let got = p.install(|| stack_and_coalesce(&pms, &o)).map_err(es("stack_and_coalesce"))?;
        exactly(&base, &got, &format!("thread pool {}", i))?;
    }
    Ok(())
}

/// Matches that quotas and weak relevances pass over, which may not depend on how work is shared out.
fn c24_passed(s: &mut Src, c: &mut Ctx) -> R {
    let ixs = quota_world(40, &[10, 14, 16])?;
    let weights: Vec<f64> = (0..s.ri(1, 4)).map(|_| *s.pick(&[1.0, 0.5, 0.1, 0.3, 0.7, 0.75, 0.76, 0.9])).collect();
    let kinds: Vec<(Kind, usize, u32, f64)> = (0..s.ri(1, 4))
        .map(|_| {
            let k = any_kind(s);
            let ix = if k.high { 1 + s.us(2) } else { 0 };
            (k, ix, if k.word { 1 << s.us(3) } else { *s.pick(&[3u32, 6, 7]) }, *s.pick(&weights))
        })
        .collect();
    let mut pms: Vec<Pm> = vec![];
    let mut told = vec![];
    // runs of one kind, alike or not
    for (k, ix, mask, w) in &kinds {
        for _ in 0..s.ri(1, 14) {
            let id = pms.len() as u32 + 10;
            let w = if s.chance(1, 6) { *s.pick(&weights) } else { *w };
            let phrase = s.us(40);
            told.push((id, *ix, *mask, w, phrase));
            pms.push(kind_pm(s, &ixs[*ix], k, phrase, id, *mask, w));
        }
    }
    let o = quota_opts(s);
    c.input("kinds, options", &(&kinds, &o));
    c.input("matches: id, index, mask, weight, phrase", &told);
    let base = pools()[0].install(|| tree_coalesce(&stackable(&pms), &o)).map_err(es("tree_coalesce"))?;
    let seen = looked_up(&base).len();
    c.label_if(seen < pms.len(), "some passed over");
    c.nontrivial_if(seen < pms.len() && pms.len() >= 9);
    for (i, p) in pools().iter().enumerate().skip(1) {
        let got = p.install(|| tree_coalesce(&stackable(&pms), &o)).map_err(es("tree_coalesce"))?;
        exactly(&base, &got, &format!("thread pool {} against one thread", i))?;
    }
    Ok(())
}

/// One of the things a thread may ask.
enum Ask {
    Tree(Vec<Pm>, MatchOpts),
    Flat(Vec<Pm>, MatchOpts),
    Query(usize, MatchKey, MatchOpts),
}

#[derive(PartialEq, Debug)]
enum Answer {
    Contexts(Vec<(u64, u64)>, Option<BTreeMap<String, usize>>),
    Entries(String),
}

fn answer(ixs: &[Index], a: &Ask) -> Result<Answer, String> {
    let bits = |v: &[CoalesceContext]| {
        ranks(v).into_iter().map(|(a, b)| (a.to_bits(), b.to_bits())).collect::<Vec<_>>()
    };
    Ok(match a {
        Ask::Tree(p, o) => {
            let v = stack_and_coalesce(p, o).map_err(es("stack_and_coalesce"))?;
            Answer::Contexts(bits(&v), if v.len() < OVERALL { Some(canon(&v)) } else { None })
        }
        Ask::Flat(p, o) => {
            let v = coalesce(p.clone(), o).map_err(es("coalesce"))?;
            // equally ranked parents are interchangeable, and so is which of several sums in
            // another order comes out
            let r = ranks(&v).into_iter().map(|(a, b)| (round(a) as u64, b.to_bits())).collect();
            Answer::Contexts(r, None)
        }
        Ask::Query(i, k, o) => {
            Answer::Entries(format!("{:?}", query(&ixs[*i].store.gs, k, o, 100_000, 100_000)?))
        }
    })
}

fn c24_concurrent(s: &mut Src, c: &mut Ctx) -> R {
    let sh = Shape { places: 1, entries: 10, unique: true, ..Shape::small() };
    let pl = places(s, sh.places);
    let ixs = indexes(s, &sh, &pl)?;
    c.input("indexes", &describe(&ixs));
    let n = s.ri(2, 8);
    let asks: Vec<Ask> = (0..n)
        .map(|_| {
            let o = request(s, &pl, &[0, 6, 10, 14, 16]);
            match s.us(3) {
                0 => Ask::Tree(matches(s, &ixs, 3, 2, true), o),
                1 => {
                    let mut ids = 0;
                    let v = ixs
                        .iter()
                        .map(|ix| {
                            let k = key_with(s, keys_in(ix), &mut ids, false);
                            pm(ix, mask4(s), weight(s), vec![k])
                        })
                        .collect::<Vec<_>>();
                    let o = if v.len() == 1 { at_zoom(&o, ixs[0].zoom) } else { o };
                    Ask::Flat(v, o)
                }
                _ => {
                    let i = s.us(ixs.len());
                    Ask::Query(i, small_key(s, keys_in(&ixs[i])), at_zoom(&o, ixs[i].zoom))
                }
            }
        })
        .collect();
    c.nontrivial_if(n >= 3);
    let alone: Vec<Answer> = asks.iter().map(|a| answer(&ixs, a)).collect::<Result<_, _>>()?;
    let ixs = &ixs;
    let all: Vec<Result<(), String>> = std::thread::scope(|t| {
        let hs: Vec<_> = asks
            .iter()
            .zip(&alone)
            .enumerate()
            .map(|(i, (a, want))| {
                t.spawn(move || {
                    for round in 0..4 {
                        let got = answer(ixs, a)?;
                        check!(got == *want, "request {} differs in round {} when run with others: {:?} against {:?}", i, round, got, want);
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    for r in all {
        r?;
    }
    Ok(())
}

/// The same files opened several times, each with its own options.
fn c24_reopen(s: &mut Src, c: &mut Ctx) -> R {
    let sh = Shape { indexes: (1, 1), places: 2, entries: 10, zooms: vec![6], ..Shape::small() };
    let pl = places(s, 2);
    let ixs = indexes(s, &sh, &pl)?;
    let ix = &ixs[0];
    c.input("indexes", &describe(&ixs));
    let n = s.ri(2, 5);
    let opened: Vec<(StoreOpts, Store)> = (0..n)
        .map(|i| {
            let zoom = s.r16(6, 16);
            let o = StoreOpts {
                zoom,
                type_id: i as u16,
                radius: *s.pick(&[200.0, 40.0, 400.0]),
                bboxes: vec![[0, 0, max_tile(zoom), max_tile(zoom)]],
                max_score: i as f64,
            };
            let st = open_with(&ix.store._dir, &o)?;
            Ok((o, st))
        })
        .collect::<Result<_, String>>()?;
    c.nontrivial = true;
    for _ in 0..6 {
        let (o, st) = s.pick(&opened);
        check!(
            st.gs.zoom == o.zoom && st.gs.type_id == o.type_id && st.gs.coalesce_radius == o.radius && st.gs.max_score == o.max_score,
            "options of a store changed"
        );
        let k = small_key(s, keys_in(ix));
        let q = at_zoom(&request(s, &pl, &[6]), 6);
        let q = MatchOpts { zoom: o.zoom, ..q };
        c.input("query", &(o.zoom, o.radius, &k, &q));
        let got = query(&st.gs, &k, &q, 100_000, 100_000)?;
        same_hits(&got, &flat(&expect(&ix.model, &k, &q, o.radius)), "one of several readers")?;
    }
    Ok(())
}

pub fn all() -> Vec<Prop> {
    let f = Family::new;
    vec![
        Prop {
            id: "C18",
            rule: "random indexes of one to hundreds of phrases and up to several hundred grids, \
                   with features of one or several grids, and random requests, against the best \
                   grids per feature worked out by definition; non-trivial: two features or more \
                   within 0.25 of the best",
            assumptions: ASSUME,
            families: vec![
                f("small", 160_000, 2_000_000, c18_small),
                f("medium", 32_000, 500_000, c18_medium),
                f("many", 12_000, 200_000, c18_many),
                f("keys", 3_200, 40_000, c18_keys),
                f("empty", 100, 1_000, c18_empty),
            ],
        },
        Prop {
            id: "C19",
            rule: "two indexes at zooms 0 to 16 over the same places against all stackings worked \
                   out by definition, three to five indexes with every part of every context checked \
                   and against the stacking procedure, and up to 99,990 results of which the worst \
                   stack; non-trivial: something stacks and three leading grids or more (for \
                   more than two: a context of two parts)",
            assumptions: ASSUME,
            families: vec![f("two", 100_000, 1_500_000, c19_two), f("more", 40_000, 500_000, c19_more), f("large", 48, 2_000, c19_large)],
        },
        Prop {
            id: "C20",
            rule: "random phrase matches over up to six indexes with random types, masks, weights \
                   and incompatibilities, and grids of matches with 1300 to 6500 complete stacks, \
                   against all sequences enumerated; non-trivial: a stack of two",
            assumptions: ASSUME,
            families: vec![f("random", 150_000, 1_500_000, c20_random), f("limit", 4_000, 20_000, c20_limit)],
        },
        Prop {
            id: "C21",
            rule: "random phrase matches over up to four indexes against all contexts worked out by \
                   definition (by every part checked where a limit may be reached); non-trivial: \
                   exact comparison with a context of two parts and three contexts or more",
            assumptions: ASSUME,
            families: vec![
                f("small", 28_000, 1_500_000, c21_small),
                f("duplicates", 11_000, 500_000, c21_duplicates),
                f("incompatible", 8_000, 400_000, c21_incompatible),
                f("crowded", 2_400, 100_000, c21_crowded),
                f("overall", 1_600, 40_000, c21_overall),
                f("large", 64, 2_000, c21_large),
            ],
        },
        Prop {
            id: "C22",
            rule: "random phrase matches many of which share index, weight and mask: ungrouped, \
                   grouped, permuted and repeated requests against one another; non-trivial: \
                   something is grouped, two groups and three contexts or more",
            assumptions: ASSUME,
            families: vec![f("grouping", 36_000, 800_000, c22_run), f("order", 36_000, 800_000, c22_order)],
        },
        Prop {
            id: "C23",
            rule: "a few hundred matches of one or several kinds with one grid each, so that what was \
                   looked up shows in the results; every case of one kind is non-trivial, of several \
                   those in which more matches fall under a quota than it allows, of weak ones those \
                   that come after a chunk of strong ones and have something to stack on them; \
                   of best ones, those in which matches of several ranks compete and one is passed over",
            assumptions: ASSUME,
            families: vec![f("alike", 15_000, 80_000, c23_alike), f("mixed", 20_000, 80_000, c23_mixed), f("weak", 40_000, 400_000, c23_weak), f("best", 20_000, 200_000, c23_best)],
        },
        Prop {
            id: "C24",
            rule: "the same request in pools of 1, 2, 3, 8 and 16 threads, 2 to 8 requests at once \
                   against the same requests one by one, and one store opened several times; \
                   non-trivial: nine matches (more than one chunk of work) and three contexts or more, \
                   nine matches of which some are passed over for quotas or little relevance, three \
                   requests or more",
            assumptions: ASSUME,
            families: vec![
                f("pools", 640, 40_000, c24_pools).threads(3),
                f("passed", 10_000, 100_000, c24_passed).threads(3),
                f("concurrent", 1_200, 80_000, c24_concurrent),
                f("reopen", 2_400, 150_000, c24_reopen),
            ],
        },
    ]
}
