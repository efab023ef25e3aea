//! C26 and C27: the bounded queue, grouping, serialization.

use crate::store_props::ASSUME;
use crate::stacks::*;
use crate::world::*;
use carmen_core::gridstore::*;
use pbt::{check, check_eq, Ctx, Family, Prop, Src, R};
use std::cell::Cell;

// ---------------------------------------------------------------- C26

#[derive(Debug, Clone)]
enum QOp {
    Push(u32),
    PopMax,
    Peek,
}

fn c26_queue(s: &mut Src, c: &mut Ctx) -> R {
    let max = s.len(0, 40, 6);
    let span = *s.pick(&[5u64, 50, 1 << 32]);
    let ops = s.list(0, 200, 30, |s, _| match s.weighted(&[6, 2, 1]) {
        0 => QOp::Push(s.u(span) as u32),
        1 => QOp::PopMax,
        _ => QOp::Peek,
    });
    c.input("limit", &max);
    c.input("operations", &ops);
    let mut q = ConstrainedPriorityQueue::new(max);
    let mut m: Vec<u32> = vec![]; // ascending
    let (mut full, mut refused) = (false, false);
    for (i, op) in ops.iter().enumerate() {
        match op {
            QOp::Push(v) => {
                let kept = q.push(*v);
                let want = if m.len() < max {
                    true
                } else if m.first().map_or(false, |w| v > w) {
                    full = true;
                    m.remove(0);
                    true
                } else {
                    refused = true;
                    false
                };
                if want {
                    let at = m.partition_point(|x| x < v);
                    m.insert(at, *v);
                }
                check_eq!(kept, want, "operation {}: kept {}", i, v);
            }
            QOp::PopMax => check_eq!(q.pop_max(), m.pop(), "operation {}: best", i),
            QOp::Peek => {
                check_eq!(q.peek_min(), m.first(), "operation {}: worst", i);
                check_eq!(q.peek_max(), m.last(), "operation {}: best", i);
            }
        }
        check_eq!(q.len(), m.len(), "operation {}: length", i);
        check!(q.len() <= max, "operation {}: {} elements of {}", i, q.len(), max);
    }
    c.nontrivial_if(full && refused);
    if s.bool() {
        m.reverse();
        check_eq!(q.into_vec_desc(), m, "listing");
    } else {
        let mut v: Vec<u32> = q.into_iter().collect();
        v.sort();
        check_eq!(v, m, "elements");
    }
    Ok(())
}

/// Contexts, whose order is by relevance, score, index, tile and id.
fn c26_contexts(s: &mut Src, c: &mut Ctx) -> R {
    let max = s.ri(1, 12);
    let list = s.list(0, 40, 12, |s, _| context(s, 3));
    c.input("limit", &max);
    c.input("contexts", &list);
    c.nontrivial_if(list.len() > max);
    let mut q = ConstrainedPriorityQueue::new(max);
    for x in &list {
        q.push(x.clone());
    }
    let key = |x: &CoalesceContext| {
        let e = &x.entries[0];
        let g = &e.grid_entry;
        (x.relev, e.scoredist, -(e.idx as i32), g.x, g.y, g.id)
    };
    let mut want: Vec<_> = list.iter().map(key).collect();
    want.sort_by(|a, b| b.partial_cmp(a).unwrap());
    want.truncate(max);
    let got: Vec<_> = q.into_vec_desc().iter().map(key).collect();
    check_eq!(got, want, "contexts kept");
    Ok(())
}

fn c26_groups(s: &mut Src, c: &mut Ctx) -> R {
    let span = s.ri(1, 4) as u64;
    let list: Vec<(u32, u64)> = s.list(0, 60, 14, |s, i| (s.u(span) as u32, i as u64));
    c.input("sequence", &list);
    let mut want: Vec<(u32, Vec<(u32, u64)>)> = vec![];
    for x in &list {
        match want.last_mut() {
            Some((k, v)) if *k == x.0 => v.push(*x),
            _ => want.push((x.0, vec![*x])),
        }
    }
    c.nontrivial_if(want.len() >= 2 && want.len() < list.len());
    let pulled = Cell::new(0usize);
    let src = list.iter().map(|x| {
        pulled.set(pulled.get() + 1);
        *x
    });
    let mut g = somewhat_eager_groupby(src, |x| x.0);
    check_eq!(pulled.get(), 0, "elements taken before the first group");
    let mut done = 0;
    for (i, w) in want.iter().enumerate() {
        let x = g.next();
        check_eq!(x.as_ref(), Some(w), "group {}", i);
        done += w.1.len();
        check!(pulled.get() <= done + 1, "group {}: {} elements taken for {}", i, pulled.get(), done);
    }
    check_eq!(g.next(), None, "after the last group");
    check_eq!(g.next(), None, "after the end");
    Ok(())
}

// ---------------------------------------------------------------- C27

fn float(s: &mut Src) -> f64 {
    match s.weighted(&[4, 2, 2, 1]) {
        0 => *s.pick(&[1.0, 0.8, 0.6, 0.4, 0.0, 0.25, 0.5, 12.0]),
        1 => *s.pick(&RELEVS) * *s.pick(&WEIGHTS) * 0.96,
        2 => s.us(1 << 20) as f64 / 1024.0,
        _ => (s.any() >> 11) as f64 / 7e9,
    }
}

fn grid(s: &mut Src) -> GridEntry {
    GridEntry {
        relev: float(s),
        score: s.num(256) as u8,
        x: s.num(1 << 16) as u16,
        y: s.num(1 << 16) as u16,
        id: s.num(1 << 32) as u32,
        source_phrase_hash: s.num(256) as u8,
    }
}

fn centry(s: &mut Src) -> CoalesceEntry {
    CoalesceEntry {
        grid_entry: grid(s),
        matches_language: s.bool(),
        idx: s.num(1 << 16) as u16,
        tmp_id: s.num(1 << 32) as u32,
        mask: s.num(1 << 32) as u32,
        distance: float(s),
        scoredist: float(s),
        phrasematch_id: s.num(1 << 32) as u32,
    }
}

fn context(s: &mut Src, max: usize) -> CoalesceContext {
    CoalesceContext { mask: s.num(1 << 32) as u32, relev: float(s), entries: s.list(1, max, 1, |s, _| centry(s)) }
}

/// The JSON reader may be off by the last bits of a number; nothing else may differ.
fn same_f(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 4e-16 * a.abs().max(b.abs())
}
fn same_grid(a: &GridEntry, b: &GridEntry) -> bool {
    same_f(a.relev, b.relev) && *a == GridEntry { relev: a.relev, ..b.clone() }
}
fn same_centry(a: &CoalesceEntry, b: &CoalesceEntry) -> bool {
    same_grid(&a.grid_entry, &b.grid_entry)
        && same_f(a.distance, b.distance)
        && same_f(a.scoredist, b.scoredist)
        && (a.matches_language, a.idx, a.tmp_id, a.mask, a.phrasematch_id)
            == (b.matches_language, b.idx, b.tmp_id, b.mask, b.phrasematch_id)
}

fn match_phrase_any(s: &mut Src) -> MatchPhrase {
    if s.bool() {
        MatchPhrase::Exact(s.num(1 << 32) as u32)
    } else {
        MatchPhrase::Range { start: s.num(1 << 32) as u32, end: s.num(1 << 32) as u32 }
    }
}

fn c27_values(s: &mut Src, c: &mut Ctx) -> R {
    use serde_json::{from_str, to_string};
    fn text<T: serde::Serialize>(t: &T) -> Result<String, String> {
        to_string(t).map_err(es("to JSON"))
    }
    fn back<T: serde::de::DeserializeOwned>(t: &str) -> Result<T, String> {
        from_str(t).map_err(|e| format!("from JSON {}: {}", t, e))
    }
    c.nontrivial = true;
    let g = grid(s);
    c.input("entry", &g);
    let b: GridEntry = back(&text(&g)?)?;
    check!(same_grid(&g, &b), "{:?} became {:?}", g, b);
    let k = GridKey { phrase_id: s.num(1 << 32) as u32, lang_set: lang_set(s) };
    c.input("key", &k);
    check_eq!(back::<GridKey>(&text(&k)?)?, k, "key");
    let p = match_phrase_any(s);
    check_eq!(back::<MatchPhrase>(&text(&p)?)?, p, "phrase");
    let mk = MatchKey { match_phrase: p, lang_set: lang_set(s) };
    c.input("match key", &mk);
    check_eq!(back::<MatchKey>(&text(&mk)?)?, mk, "match key");
    let quad = |s: &mut Src| [s.num(1 << 16) as u16, s.num(1 << 16) as u16, s.num(1 << 16) as u16, s.num(1 << 16) as u16];
    let o = MatchOpts {
        bbox: if s.bool() { Some(quad(s)) } else { None },
        proximity: if s.bool() {
            let q = quad(s);
            Some([q[0], q[1]])
        } else {
            None
        },
        zoom: s.r16(0, 16),
    };
    c.input("options", &o);
    check_eq!(back::<MatchOpts>(&text(&o)?)?, o, "options");
    let m = MatchEntry { grid_entry: grid(s), matches_language: s.bool(), distance: float(s), scoredist: float(s) };
    let b: MatchEntry = back(&text(&m)?)?;
    check!(
        same_grid(&m.grid_entry, &b.grid_entry)
            && m.matches_language == b.matches_language
            && same_f(m.distance, b.distance)
            && same_f(m.scoredist, b.scoredist),
        "{:?} became {:?}",
        m,
        b
    );
    let x = context(s, 4);
    c.input("context", &x);
    let b: CoalesceContext = back(&text(&x)?)?;
    check!(
        x.mask == b.mask
            && same_f(x.relev, b.relev)
            && x.entries.len() == b.entries.len()
            && x.entries.iter().zip(&b.entries).all(|(a, b)| same_centry(a, b)),
        "{:?} became {:?}",
        x,
        b
    );
    let w = MatchKeyWithId { key: mk.clone(), nearby_only: s.bool(), id: s.num(1 << 32) as u32, phrase_length: s.us(100) };
    let t = text(&w)?;
    let b: MatchKeyWithId = back(&t)?;
    check!(
        (&w.key, w.nearby_only, w.id, w.phrase_length) == (&b.key, b.nearby_only, b.id, b.phrase_length),
        "{:?} became {:?}",
        w,
        b
    );
    // without the optional fields
    let drop_nearby = s.bool();
    let nearby = if drop_nearby { String::new() } else { format!("\"nearby_only\":{},", w.nearby_only) };
    let b: MatchKeyWithId = back(&format!("{{\"key\":{},{}\"id\":{}}}", text(&mk)?, nearby, w.id))?;
    check!(
        b.key == w.key && b.id == w.id && b.phrase_length == 0 && b.nearby_only == (!drop_nearby && w.nearby_only),
        "{:?} without optional fields became {:?}",
        w,
        b
    );
    Ok(())
}

fn c27_sets(s: &mut Src, c: &mut Ctx) -> R {
    let sh = Shape { indexes: (1, 1), entries: 1, keys: 1, ..Shape::small() };
    let pl = places(s, 1);
    let mut ix = indexes(s, &sh, &pl)?;
    ix[0].incompatible = s.list(0, 128, 6, |s, _| s.us(128) as u16);
    let ix = &ix[0];
    let key = MatchKeyWithId { key: MatchKey { match_phrase: match_phrase_any(s), lang_set: s.us(1000) as u128 }, nearby_only: s.bool(), id: s.num(1 << 32) as u32, phrase_length: s.us(9) };
    let p = pm(ix, s.num(1 << 32) as u32, float(s), vec![key]);
    c.input("members", &ix.incompatible);
    c.nontrivial_if(ix.incompatible.len() >= 2);
    let t = serde_json::to_string(&p).map_err(es("to JSON"))?;
    let v: serde_json::Value = serde_json::from_str(&t).map_err(es("from JSON"))?;
    let mut want: Vec<u64> = ix.incompatible.iter().map(|i| *i as u64).collect();
    want.sort();
    want.dedup();
    let mut got: Vec<u64> = match v["non_overlapping_indexes"].as_array() {
        Some(a) => a.iter().map(|x| x.as_u64().unwrap_or(u64::MAX)).collect(),
        None => return Err(format!("the set is written as {}", v["non_overlapping_indexes"])),
    };
    got.sort();
    check_eq!(got, want, "members");
    check!(
        v["idx"].as_u64() == Some(p.idx as u64)
            && v["mask"].as_u64() == Some(p.mask as u64)
            && v["weight"].as_f64().map_or(false, |w| same_f(w, p.weight))
            && v["match_keys"].as_array().map_or(0, |a| a.len()) == 1,
        "match {} written as {}",
        show(&[p.clone()])[0],
        v
    );
    let st = &v["store"];
    check!(
        st["zoom"].as_u64() == Some(ix.zoom as u64)
            && st["type_id"].as_u64() == Some(ix.type_id as u64)
            && st["coalesce_radius"].as_f64() == Some(ix.radius)
            && st["bboxes"] == serde_json::json!(ix.bboxes),
        "store written as {}",
        st
    );
    Ok(())
}

// ---------------------------------------------------------------- C31

/// A store with something in it, perhaps with bins.
fn stored(s: &mut Src) -> Result<(std::sync::Arc<pbt::tmp::Dir>, Content, std::collections::HashSet<u32>), String> {
    let its = items(s, &EntCfg::new(6), Phrases::Dense, 1, 6, 3, 4);
    let bins: Vec<u32> = if s.bool() { s.list(0, 5, 2, |s, _| s.num(300) as u32) } else { vec![] };
    let dir = build(&its, &bins)?;
    Ok((std::sync::Arc::new(dir), content(&its), bins.into_iter().collect()))
}

fn c31_options(s: &mut Src, c: &mut Ctx) -> R {
    let (dir, model, bins) = stored(s)?;
    c.input("content, bins", &(&model, &bins));
    let mut open_: Vec<(Option<StoreOpts>, GridStore)> = vec![];
    for _ in 0..s.ri(1, 4) {
        if s.chance(1, 4) {
            open_.push((None, GridStore::new(dir.path()).map_err(es("open without options"))?));
            continue;
        }
        let o = StoreOpts {
            zoom: if s.bool() { s.r16(0, 16) } else { *s.pick(&[13u16, 14, 15, 17, 255, 65535]) },
            type_id: *s.pick(&[0u16, 1, 7, 65535]),
            radius: *s.pick(&[0.0, 1e-9, 40.0, 200.0, 1e9]),
            bboxes: s.list(0, 4, 1, |s, _| any_box(s, 65535, None)),
            max_score: *s.pick(&[0.0, 1.0, 0.1, -1.0, 1e300]),
        };
        let g = GridStore::new_with_options(dir.path(), o.zoom, o.type_id, o.radius, o.bboxes.clone(), o.max_score)
            .map_err(es("open"))?;
        open_.push((Some(o), g));
    }
    c.input("options", &open_.iter().map(|o| o.0.clone()).collect::<Vec<_>>());
    c.nontrivial_if(open_.len() > 1);
    // each as it was opened, whatever else was opened
    for (o, g) in &open_ {
        c.label_if(o.is_none(), "no options");
        let w = o.clone().unwrap_or(StoreOpts {
            zoom: 6,
            type_id: 0,
            radius: 0.0,
            bboxes: global_bbox_for_zoom(6),
            max_score: 0.0,
        });
        let got = (g.zoom, g.type_id, g.coalesce_radius, &g.bboxes, g.max_score);
        check_eq!(got, (w.zoom, w.type_id, w.radius, &w.bboxes, w.max_score), "options of the store");
        check_eq!(g.path.as_path(), dir.path(), "path");
        check_eq!(&g.bin_boundaries, &bins, "bin boundaries");
        check_eq!(g.might_be_slow(), w.zoom >= 14, "slow at zoom {}", w.zoom);
        same_content(g, &model, "store")?;
    }
    Ok(())
}

/// What is no store does not open.
fn c31_missing(s: &mut Src, c: &mut Ctx) -> R {
    let dir = pbt::tmp::Dir::new();
    let at = dir.path().join("store");
    let what = s.us(4);
    match what {
        0 => (),
        1 => std::fs::write(&at, b"no store").map_err(es("write"))?,
        2 => std::fs::create_dir(&at).map_err(es("create"))?,
        _ => {
            // a store of another name beside it
            let b = GridStoreBuilder::new(dir.path().join("stor")).map_err(es("builder"))?;
            b.finish().map_err(es("finish"))?;
        }
    }
    c.input("what is there", &["nothing", "a file", "an empty directory", "another store"][what]);
    c.nontrivial = true;
    let r = if s.bool() { GridStore::new(&at) } else { GridStore::new_with_options(&at, 6, 0, 0.0, vec![], 0.0) };
    check!(r.is_err(), "it opened");
    check!(what == 1 || what == 2 || !at.exists(), "something was created");
    // and what was built there afterwards does
    if what == 0 || what == 3 {
        let mut b = GridStoreBuilder::new(&at).map_err(es("builder"))?;
        let e = GridEntry { relev: 1.0, score: 1, x: 1, y: 2, id: s.num(1 << 24) as u32, source_phrase_hash: 3 };
        let k = GridKey { phrase_id: 1, lang_set: 1 };
        b.insert(&k, vec![e.clone()]).map_err(es("insert"))?;
        b.finish().map_err(es("finish"))?;
        let g = GridStore::new(&at).map_err(es("open"))?;
        check_eq!(get(&g, &k, 5)?, Some(vec![e]), "entries");
    }
    Ok(())
}

/// A path holds what was built there last.
fn c31_rebuilt(s: &mut Src, c: &mut Ctx) -> R {
    let dir = pbt::tmp::Dir::new();
    let at = dir.path().join("store");
    let mut told = vec![];
    for _ in 0..s.ri(2, 4) {
        let its = items(s, &EntCfg::new(6), Phrases::Dense, 1, 6, 3, 4);
        let bins: Vec<u32> = if s.bool() {
            let mut b = s.list(0, 5, 2, |s, _| s.num(12) as u32);
            b.sort();
            b.dedup();
            b
        } else {
            vec![]
        };
        told.push((content(&its), bins.clone()));
        let mut b = GridStoreBuilder::new(&at).map_err(es("builder"))?;
        for (k, e) in &its {
            b.insert(k, e.list()).map_err(es("insert"))?;
        }
        b.load_bin_boundaries(bins.clone()).map_err(es("boundaries"))?;
        b.finish().map_err(es("finish"))?;
        let zoom = s.r16(6, 16);
        let g = if s.bool() {
            GridStore::new(&at).map_err(es("open without options"))?
        } else {
            GridStore::new_with_options(&at, zoom, 0, 200.0, vec![], 0.0).map_err(es("open"))?
        };
        let model = content(&its);
        check_eq!(&g.bin_boundaries, &bins.iter().cloned().collect(), "bin boundaries");
        same_content(&g, &model, "store")?;
        let ends = [0, u32::MAX];
        let ends: Vec<u32> = bins.iter().chain(&ends).cloned().collect();
        let (a, b) = (*s.pick(&ends), *s.pick(&ends));
        let k = MatchKey { match_phrase: MatchPhrase::Range { start: a.min(b), end: a.max(b) }, lang_set: lang_small(s) };
        let o = MatchOpts { zoom: g.zoom, bbox: None, proximity: None };
        // what lies between two boundaries may be found by bins, which merge entries of several keys
        let set = |v: &[MatchEntry]| -> Result<std::collections::BTreeSet<(Ent, bool)>, String> {
            v.iter().map(|m| Ok((base(m)?.0, m.matches_language))).collect()
        };
        let want: std::collections::BTreeSet<(Ent, bool)> =
            flat(&expect(&model, &k, &o, 200.0)).iter().map(|h| (h.ent, h.lang)).collect();
        let got = query(&g, &k, &o, usize::MAX, 100_000)?;
        check!(set(&got)? == want, "{:?}: other results than those built last", k);
        drop(g);
        std::fs::remove_dir_all(&at).map_err(es("remove"))?;
    }
    c.input("contents, bins", &told);
    c.nontrivial_if(told.windows(2).any(|w| w[0] != w[1]));
    check!(GridStore::new(&at).is_err(), "a store that was removed opened");
    Ok(())
}

/// The box of the world leaves nothing out at any zoom.
fn c31_world(s: &mut Src, c: &mut Ctx) -> R {
    let zoom = s.r16(0, 16);
    let w = global_bbox_for_zoom(zoom);
    check!(w.len() == 1 && w[0] == [0, 0, max_tile(zoom), max_tile(zoom)], "box of the world at zoom {}: {:?}", zoom, w);
    let other = s.r16(0, 16);
    c.input("zooms", &(zoom, other));
    let o = MatchOpts { zoom, bbox: Some(w[0]), proximity: None }.adjust_to_zoom(other);
    check_eq!(o.bbox, Some(global_bbox_for_zoom(other)[0]), "the world at zoom {} taken to zoom {}", zoom, other);
    let its = items(s, &EntCfg::new(other), Phrases::Dense, 1, 5, 3, 6);
    let gs = open(build(&its, &[])?, other, 200.0)?.gs;
    let keys: Vec<u32> = its.iter().map(|i| i.0.phrase_id).collect();
    let k = MatchKey { match_phrase: match_phrase(s, &keys), lang_set: lang_small(s) };
    let all = query(&gs, &k, &MatchOpts { zoom: other, bbox: None, proximity: None }, 1000, 1000)?;
    let boxed = query(&gs, &k, &o, 1000, 1000)?;
    c.input("items", &its);
    c.input("query", &k);
    c.nontrivial_if(!all.is_empty());
    check_eq!(boxed, all, "query over the whole world");
    Ok(())
}

pub fn all() -> Vec<Prop> {
    let f = Family::new;
    vec![
        Prop {
            id: "C26",
            rule: "random sequences of pushes, pops and peeks with limits from 0 to 40 against a \
                   sorted list, contexts against a sort, grouping against a list of runs with the \
                   number of elements taken counted; non-trivial: elements both refused and \
                   displaced, or several groups with one of several elements",
            assumptions: ASSUME,
            families: vec![
                f("queue", 1_500_000, 5_000_000, c26_queue),
                f("contexts", 450_000, 1_000_000, c26_contexts),
                f("groups", 1_500_000, 5_000_000, c26_groups),
            ],
        },
        Prop {
            id: "C27",
            rule: "one random value of every serializable public type per case, written to JSON and \
                   read back, with and without optional fields, and phrase matches with random \
                   incompatibility sets; every case is non-trivial, of the sets those with two \
                   members",
            assumptions: ASSUME,
            families: vec![
                f("values", 900_000, 3_000_000, c27_values),
                f("sets", 150_000, 300_000, c27_sets),
            ],
        },
        Prop {
            id: "C31",
            rule: "up to four readers of one small store, with and without bins, opened with different or no \
                   options; paths with nothing, a file, an empty directory or another store at them; up to four \
                   stores built and removed at one path; the box of the world taken from any zoom to any \
                   other, queried with and without. Non-trivial: two readers, two different stores at the \
                   path, a query with results",
            assumptions: ASSUME,
            families: vec![
                f("options", 30_000, 300_000, c31_options),
                f("missing", 10_000, 50_000, c31_missing),
                f("rebuilt", 8_000, 60_000, c31_rebuilt),
                f("world", 60_000, 500_000, c31_world),
            ],
        },
    ]
}
