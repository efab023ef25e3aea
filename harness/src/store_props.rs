//! C06-C15 and C25: building, reading, listing and querying stores.

use crate::world::*;
use carmen_core::gridstore::*;
use pbt::{check, check_eq, Ctx, Family, Prop, Src, R};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const ASSUME: &[&str] = &[
    "the four git dependencies are the stand-ins of /verif/shims (see DESIGN.md)",
    "the other dependencies are those of /repo/Cargo.lock",
];

fn phrases_of(items: &Items) -> Vec<u32> {
    items.iter().map(|(k, _)| k.phrase_id).collect()
}

fn label_store(c: &mut Ctx, items: &Items) {
    let max = items.iter().map(|(_, e)| e.len()).max().unwrap_or(0);
    c.label(match max {
        0..=20 => "largest key <=20 entries",
        21..=999 => "largest key 21-999 entries",
        1000..=19999 => "largest key 1000-19999 entries",
        _ => "largest key >=20000 entries",
    });
    c.label_if(items.len() >= 3, "3 or more keys");
}

// ---------------------------------------------------------------- C06

fn c06_case(s: &mut Src, c: &mut Ctx, its: Items) -> R {
    c.input("items", &its);
    label_store(c, &its);
    let want = content(&its);
    let total: usize = want.values().map(|e| e.len()).sum();
    c.nontrivial_if(total >= 2);
    c.label_if(its.iter().zip(want.values()).any(|_| its.iter().map(|i| i.1.len()).sum::<usize>() > total), "duplicates");
    let store = open(build(&its, &[])?, 6, 1.0)?;
    same_content(&store.gs, &want, "store")?;
    // neighbours of written keys that were not written
    for (k, _) in its.iter().take(8) {
        let mut probes = vec![
            (k.phrase_id.wrapping_add(1), k.lang_set),
            (k.phrase_id.wrapping_sub(1), k.lang_set),
            (k.phrase_id.rotate_left(8), k.lang_set),
            (k.phrase_id, 0),
            (k.phrase_id, ALL),
            (k.phrase_id, !k.lang_set),
            (k.phrase_id, k.lang_set << 8),
            (k.phrase_id, k.lang_set >> 8),
            (k.phrase_id, k.lang_set | 1),
            (k.phrase_id, k.lang_set ^ (1 << 127)),
        ];
        probes.push((s.any() as u32, k.lang_set));
        for p in probes {
            if !want.contains_key(&p) {
                let g = get(&store.gs, &GridKey { phrase_id: p.0, lang_set: p.1 }, 3)?;
                check!(g.is_none(), "key {:?} was never written but reads as {:?}", p, g);
            }
        }
    }
    Ok(())
}

fn cfg_any(s: &mut Src) -> EntCfg {
    let mut cfg = EntCfg::new(*s.pick(&[16u16, 6, 14, 3, 0]));
    cfg.excess = s.chance(1, 2);
    if s.chance(1, 3) {
        cfg.ids = 6;
    }
    if s.chance(1, 3) {
        cfg.scores = 2;
        cfg.codes = 2;
    }
    cfg
}

fn c06_small(s: &mut Src, c: &mut Ctx) -> R {
    let cfg = cfg_any(s);
    let p = s_pick(s);
    let its = items(s, &cfg, p, 1, 7, 2, 6);
    c06_case(s, c, its)
}

fn s_pick(s: &mut Src) -> Phrases {
    *s.pick(&[Phrases::Dense, Phrases::Wide])
}

fn c06_large(s: &mut Src, c: &mut Ctx) -> R {
    let cfg = cfg_any(s);
    let n = s.ri(1, 2);
    let mut its = Items::new();
    for i in 0..n {
        let key = GridKey { phrase_id: phrase(s, Phrases::Wide) & !1 | i as u32, lang_set: lang_set(s) };
        let e = match s.weighted(&[4, 3, 1]) {
            0 => bulk(s, &cfg, 20, 300),
            1 => bulk(s, &cfg, 3000, 20_000),
            _ => bulk(s, &cfg, 20_000, 60_000),
        };
        its.push((key, e));
    }
    c06_case(s, c, its)
}

/// A record whose lists lie beyond 16 MiB.
fn c06_huge(s: &mut Src, c: &mut Ctx) -> R {
    let n = 1_700_000 + s.us(300_000);
    let key = GridKey { phrase_id: 1, lang_set: lang_set(s) };
    let e = Entries::Bulk {
        n,
        seed: s.any(),
        zoom: 16,
        codes: s.range(1, 4),
        scores: s.range(1, 16),
        ids: 1 << 24,
        spread: 65535,
    };
    let its = vec![(key, e)];
    c06_case(s, c, its)
}

/// The same entries in another order, or put in twice, give the same store.
fn c06_order(s: &mut Src, c: &mut Ctx) -> R {
    let cfg = cfg_any(s);
    let list = entries1(s, &cfg, 12).list();
    let key = GridKey { phrase_id: phrase(s, Phrases::Wide), lang_set: lang_set(s) };
    c.input_lim("entries", &list, 4000);
    c.nontrivial_if(list.len() >= 3);
    let want: BTreeSet<Ent> = list.iter().map(Ent::of).collect();
    let mut orders = vec![list.clone()];
    let mut v = list.clone();
    v.reverse();
    orders.push(v);
    let mut v = list.clone();
    let mut r = pbt::src::Rng::new(s.any());
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
    orders.push(v.clone());
    v.extend(list.iter().cloned());
    orders.push(v.clone());
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    orders.push(v);
    for (i, o) in orders.into_iter().enumerate() {
        let st = open(build(&[(key.clone(), Entries::Listed(o))], &[])?, 6, 1.0)?;
        let g = get(&st.gs, &key, want.len() + 2)?.ok_or("the key is absent")?;
        same_entries(&g, &want, &format!("order {}", i))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

#[derive(Debug, Clone)]
enum Op {
    Insert(usize, Entries),
    Append(usize, Entries),
    Compact { key: usize, relev: f64, score: u8, id: u32, hash: u8, coords: Vec<(u16, u16)> },
}

fn c07_ops(s: &mut Src, cfg: &EntCfg, nkeys: usize) -> Vec<Op> {
    s.list(1, 40, 8, |s, _| {
        let key = s.us(nkeys);
        match s.weighted(&[3, 5, 5]) {
            0 => Op::Insert(key, entries(s, cfg, 4)),
            1 => Op::Append(key, entries(s, cfg, 4)),
            _ => {
                let e = entry(s, cfg);
                let max = cfg.max();
                let coords = s.list(0, 30, 4, |s, _| (tile(s, max), tile(s, max)));
                Op::Compact {
                    key,
                    relev: e.relev,
                    score: e.score,
                    id: e.id,
                    hash: e.source_phrase_hash,
                    coords,
                }
            }
        }
    })
}

fn c07_keys(s: &mut Src) -> Vec<GridKey> {
    let n = s.ri(1, 4);
    let p = s_pick(s);
    let mut v: Vec<GridKey> = Vec::new();
    for i in 0..n {
        let k = if i > 0 && s.chance(1, 2) {
            // the same phrase in other languages, or the neighbouring phrase
            let b = v[0].clone();
            if s.bool() {
                GridKey { lang_set: lang_set(s), ..b }
            } else {
                GridKey { phrase_id: b.phrase_id.wrapping_add(1), ..b }
            }
        } else {
            GridKey { phrase_id: phrase(s, p), lang_set: lang_set(s) }
        };
        if !v.contains(&k) {
            v.push(k);
        }
    }
    v
}

thread_local! {
    static PLACE: std::cell::RefCell<Vec<(u16, u16)>> = std::cell::RefCell::new(Vec::with_capacity(1000));
}

fn run_ops(b: &mut GridStoreBuilder, m: &mut Content, keys: &[GridKey], ops: &[Op]) -> R {
    for op in ops {
        match op {
            Op::Insert(k, e) => {
                let key = &keys[*k];
                b.insert(key, e.list()).map_err(es("insert"))?;
                m.insert((key.phrase_id, key.lang_set), e.list().iter().map(Ent::of).collect());
            }
            Op::Append(k, e) => {
                let key = &keys[*k];
                b.append(key, e.list()).map_err(es("append"))?;
                m.entry((key.phrase_id, key.lang_set))
                    .or_default()
                    .extend(e.list().iter().map(Ent::of));
            }
            Op::Compact { key, relev, score, id, hash, coords } => {
                let key = &keys[*key];
                // always from the same place in memory
                PLACE.with(|place| {
                    let mut place = place.borrow_mut();
                    place.clear();
                    place.extend_from_slice(coords);
                    b.compact_append(key, *relev, *score, *id, *hash, &place);
                });
                m.entry((key.phrase_id, key.lang_set)).or_default().extend(coords.iter().map(
                    |(x, y)| {
                        Ent::of(&GridEntry {
                            relev: *relev,
                            score: *score,
                            x: *x,
                            y: *y,
                            id: *id,
                            source_phrase_hash: *hash,
                        })
                    },
                ));
            }
        }
    }
    Ok(())
}

fn c07_history(s: &mut Src, c: &mut Ctx) -> R {
    let keys = c07_keys(s);
    let cfg = cfg_any(s);
    let ops = c07_ops(s, &cfg, keys.len());
    c.input("keys", &keys);
    c.input("operations", &ops);
    let mut touched: BTreeMap<usize, usize> = BTreeMap::new();
    for o in &ops {
        let (Op::Insert(k, _) | Op::Append(k, _) | Op::Compact { key: k, .. }) = o;
        *touched.entry(*k).or_default() += 1;
    }
    c.nontrivial_if(touched.values().any(|n| *n >= 2));
    c.label_if(touched.len() >= 2, "several keys");
    c.label_if(
        ops.iter().skip(1).any(|o| matches!(o, Op::Insert(..))),
        "insert after something else",
    );
    let dir = pbt::tmp::Dir::new();
    let mut b = GridStoreBuilder::new(dir.path()).map_err(es("builder"))?;
    let mut m = Content::new();
    run_ops(&mut b, &mut m, &keys, &ops)?;
    b.finish().map_err(es("finish"))?;
    let st = open(dir, 6, 100.0)?;
    same_content(&st.gs, &m, "store")?;
    c07_query(s, &st, &m)
}

/// What was built by a history also answers a query as its meaning does.
fn c07_query(s: &mut Src, st: &Store, m: &Content) -> R {
    let pts = sample_points(m);
    let at = if pts.is_empty() { (0, 0) } else { *s.pick(&pts) };
    let k = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: u32::MAX }, lang_set: 3 };
    let o = MatchOpts {
        zoom: 16,
        bbox: if s.bool() { Some(any_box(s, 65535, Some(at))) } else { None },
        proximity: if s.bool() { Some([at.0, at.1]) } else { None },
    };
    let want = flat(&expect(m, &k, &o, 100.0));
    let got = query(&st.gs, &k, &o, usize::MAX, want.len() + 2)?;
    same_hits(&got, &want, &format!("query {:?}", o))
}

/// Builders used in turns, some finished and read before others go on, keep apart.
fn c07_beside(s: &mut Src, c: &mut Ctx) -> R {
    let keys = c07_keys(s);
    let cfg = cfg_any(s);
    let n = s.ri(2, 3);
    let mut plans: Vec<Vec<Op>> = vec![c07_ops(s, &cfg, keys.len())];
    for _ in 1..n {
        let p = if s.bool() { plans[0].clone() } else { c07_ops(s, &cfg, keys.len()) };
        plans.push(p);
    }
    // where one stops it may differ from what it was copied from
    for p in plans.iter_mut().skip(1) {
        if s.bool() {
            let at = s.us(p.len() + 1);
            p.truncate(at);
            p.extend(c07_ops(s, &cfg, keys.len()).into_iter().take(2));
        }
    }
    c.input("keys", &keys);
    c.input("operations of each", &plans);
    c.nontrivial_if(plans.iter().filter(|p| p.len() >= 2).count() >= 2);
    let mut builders: Vec<Option<(pbt::tmp::Dir, GridStoreBuilder)>> = vec![];
    for _ in 0..n {
        let dir = pbt::tmp::Dir::new();
        let b = GridStoreBuilder::new(dir.path()).map_err(es("builder"))?;
        builders.push(Some((dir, b)));
    }
    let mut models = vec![Content::new(); n];
    let mut done = vec![0; n];
    let mut stores: Vec<Option<Store>> = (0..n).map(|_| None).collect();
    let mut left: Vec<usize> = (0..n).collect();
    while !left.is_empty() {
        let at = s.us(left.len());
        let k = left[at];
        if done[k] < plans[k].len() {
            let (_, b) = builders[k].as_mut().unwrap();
            run_ops(b, &mut models[k], &keys, &plans[k][done[k]..done[k] + 1])?;
            done[k] += 1;
        } else {
            let (dir, b) = builders[k].take().unwrap();
            b.finish().map_err(es("finish"))?;
            let st = open(dir, 6, 100.0)?;
            same_content(&st.gs, &models[k], &format!("store {} when finished", k))?;
            stores[k] = Some(st);
            left.remove(at);
        }
    }
    for (k, st) in stores.iter().enumerate() {
        same_content(&st.as_ref().unwrap().gs, &models[k], &format!("store {} in the end", k))?;
    }
    let k = s.us(n);
    c07_query(s, stores[k].as_ref().unwrap(), &models[k])
}

/// Reordered and repeated appends change nothing.
fn c07_reorder(s: &mut Src, c: &mut Ctx) -> R {
    let keys = c07_keys(s);
    let cfg = cfg_any(s);
    let ops: Vec<Op> =
        c07_ops(s, &cfg, keys.len()).into_iter().filter(|o| !matches!(o, Op::Insert(..))).collect();
    let seed = s.any();
    c.input("keys", &keys);
    c.input("appends", &ops);
    c.input("permutation", &seed);
    c.nontrivial_if(ops.len() >= 3);
    let mut other = ops.clone();
    let mut r = pbt::src::Rng::new(seed);
    for o in &ops {
        if r.below(3) == 0 {
            other.push(o.clone());
        }
    }
    for i in (1..other.len()).rev() {
        other.swap(i, r.below(i as u64 + 1) as usize);
    }
    let mut m = Content::new();
    for (i, o) in [&ops, &other].iter().enumerate() {
        m.clear();
        let dir = pbt::tmp::Dir::new();
        let mut b = GridStoreBuilder::new(dir.path()).map_err(es("builder"))?;
        run_ops(&mut b, &mut m, &keys, o)?;
        b.finish().map_err(es("finish"))?;
        same_content(&open(dir, 6, 1.0)?.gs, &m, &format!("order {}", i))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

fn boundaries(s: &mut Src, phrases: &[u32]) -> Vec<u32> {
    let mut v: Vec<u32> = s.list(0, 8, 3, |s, _| match s.weighted(&[5, 2, 2, 1]) {
        0 if !phrases.is_empty() => {
            let p = *s.pick(phrases);
            match s.us(3) {
                0 => p,
                1 => p.saturating_add(1),
                _ => p.saturating_sub(1),
            }
        }
        1 => 0,
        2 => phrase(s, Phrases::Wide),
        _ => phrase(s, Phrases::Dense),
    });
    v.sort();
    v.dedup();
    v
}

fn c08_case(s: &mut Src, c: &mut Ctx, its: Items) -> R {
    let bins = if s.bool() { boundaries(s, &phrases_of(&its)) } else { vec![] };
    c.input("items", &its);
    c.input("bins", &bins);
    c.nontrivial_if(its.len() >= 2);
    c.label_if(!bins.is_empty(), "bins");
    label_store(c, &its);
    let want = content(&its);
    let dir = build(&its, &bins)?;
    let st = open(dir, 6, 1.0)?;
    let ks = keys_of(&st.gs, want.len() + 3)?;
    let mut sorted = ks.clone();
    sorted.sort();
    let wanted: Vec<(u32, u128)> = want.keys().copied().collect();
    check_eq!(sorted, wanted, "keys listed");
    for w in ks.windows(2) {
        check!(w[0].0 <= w[1].0, "phrase {} is listed before {}", w[0].0, w[1].0);
    }
    let d = dump(&st.gs, want.len() + 3)?;
    let dk: Vec<(u32, u128)> = d.iter().map(|x| x.0).collect();
    check_eq!(dk, ks, "keys listed with entries");
    for (k, v) in &d {
        let key = GridKey { phrase_id: k.0, lang_set: k.1 };
        let g = get(&st.gs, &key, v.len() + 2)?.unwrap_or_default();
        check_eq!(g, *v, "reading {:?} alone", key);
    }
    same_content(&st.gs, &want, "store")
}

fn c08_random(s: &mut Src, c: &mut Ctx) -> R {
    let cfg = EntCfg::new(16);
    let p = s_pick(s);
    let raw: Items = s.list(0, 40, 6, |s, _| {
        let k = GridKey { phrase_id: phrase(s, p), lang_set: lang_set(s) };
        (k, entries(s, &cfg, 2))
    });
    let mut seen = BTreeSet::new();
    let its = raw.into_iter().filter(|(k, _)| seen.insert((k.phrase_id, k.lang_set))).collect();
    c08_case(s, c, its)
}

/// One phrase in every single language, in none and in all, and in byte-shifted sets.
fn c08_languages(s: &mut Src, c: &mut Ctx) -> R {
    let which = s.us(128);
    let p = phrase(s, Phrases::Wide);
    let mut sets = vec![0u128, ALL, 1u128 << which, !(1u128 << which), ALL >> which, ALL << which];
    sets.push((s.any() as u128) << 64 | s.any() as u128);
    sets.push(0xffu128 << (which / 8 * 8));
    sets.sort();
    sets.dedup();
    let its: Items = sets
        .iter()
        .enumerate()
        .map(|(i, l)| {
            let e = GridEntry {
                relev: 1.0,
                score: 1,
                x: i as u16,
                y: 0,
                id: i as u32,
                source_phrase_hash: 0,
            };
            (GridKey { phrase_id: p, lang_set: *l }, Entries::Listed(vec![e]))
        })
        .collect();
    c08_case(s, c, its)
}

/// Many keys.
fn c08_many(s: &mut Src, c: &mut Ctx) -> R {
    let n = if s.chance(1, 12) { s.ri(5000, 70_000) } else { s.ri(200, 1500) };
    let mut r = pbt::src::Rng::new(s.any());
    let span = *s.pick(&[300u64, 70_000, 1 << 32]);
    let cfg = EntCfg::new(6);
    let e = entry(s, &cfg);
    let mut seen = BTreeSet::new();
    let mut its = Items::new();
    for i in 0..n {
        let k = (r.below(span) as u32, [ALL, 0, 1, 256, 1 << 100][r.below(5) as usize]);
        if seen.insert(k) {
            let e = GridEntry { id: i as u32, ..e.clone() };
            its.push((GridKey { phrase_id: k.0, lang_set: k.1 }, Entries::Listed(vec![e])));
        }
    }
    c08_case(s, c, its)
}

// ---------------------------------------------------------------- C09

fn c09_renumber(s: &mut Src, c: &mut Ctx) -> R {
    let cfg = cfg_any(s);
    let nphrases = s.ri(1, 12) as u32;
    let raw: Items = s.list(0, 20, 6, |s, _| {
        let k = GridKey { phrase_id: s.u(nphrases as u64) as u32, lang_set: lang_small(s) };
        (k, entries1(s, &cfg, 3))
    });
    let mut seen = BTreeSet::new();
    let its: Items =
        raw.into_iter().filter(|(k, _)| seen.insert((k.phrase_id, k.lang_set))).collect();
    // a mapping: a permutation, an injection into wide numbers, or anything
    let len = if s.chance(1, 6) { s.us(nphrases as usize + 1) } else { nphrases as usize + s.us(3) };
    let style = s.us(3);
    let mut map: Vec<u32> = (0..len as u32).collect();
    match style {
        0 => {
            for i in (1..map.len()).rev() {
                map.swap(i, s.us(i + 1));
            }
        }
        1 => {
            let mut used = BTreeSet::new();
            for m in map.iter_mut() {
                let mut v = phrase(s, Phrases::Wide);
                while !used.insert(v) {
                    v = v.wrapping_add(7);
                }
                *m = v;
            }
        }
        _ => {
            for m in map.iter_mut() {
                *m = s.u(8) as u32;
            }
        }
    }
    let later: Items = if s.chance(1, 4) { items(s, &cfg, Phrases::Dense, 0, 3, 1, 2) } else { vec![] };
    let bins = if s.chance(1, 3) { boundaries(s, &map) } else { vec![] };
    c.input("items", &its);
    c.input("mapping", &map);
    c.input("appended after", &later);
    c.input("bins", &bins);

    let mut want: Result<Items, ()> = Ok(vec![]);
    let mut used = BTreeSet::new();
    for (k, e) in &its {
        match (map.get(k.phrase_id as usize), &mut want) {
            (Some(n), Ok(w)) if used.insert((*n, k.lang_set)) => {
                w.push((GridKey { phrase_id: *n, lang_set: k.lang_set }, e.clone()))
            }
            _ => want = Err(()),
        }
    }
    c.nontrivial_if(its.len() >= 2 && its.iter().any(|(k, _)| map.get(k.phrase_id as usize) != Some(&k.phrase_id)));
    c.label(if want.is_ok() { "accepted" } else { "rejected" });

    let dir = pbt::tmp::Dir::new();
    let mut b = GridStoreBuilder::new(dir.path()).map_err(es("builder"))?;
    for (k, e) in &its {
        b.insert(k, e.list()).map_err(es("insert"))?;
    }
    let r = b.renumber(&map);
    let w = match (r, want) {
        (Err(_), Err(())) => return Ok(()),
        (Err(e), Ok(_)) => return Err(format!("a complete injective mapping was rejected: {}", e)),
        (Ok(_), Err(())) => return Err("an incomplete or ambiguous mapping was accepted".into()),
        (Ok(()), Ok(w)) => w,
    };
    b.load_bin_boundaries(bins.clone()).map_err(es("bins"))?;
    for (k, e) in &later {
        b.append(k, e.list()).map_err(es("append"))?;
    }
    b.finish().map_err(es("finish"))?;
    let a = open(dir, 6, 1.0)?;

    let dir = pbt::tmp::Dir::new();
    let mut b = GridStoreBuilder::new(dir.path()).map_err(es("builder"))?;
    let mut m = Content::new();
    for (k, e) in w.iter() {
        b.insert(k, e.list()).map_err(es("insert"))?;
        m.insert((k.phrase_id, k.lang_set), e.list().iter().map(Ent::of).collect());
    }
    b.load_bin_boundaries(bins.clone()).map_err(es("bins"))?;
    for (k, e) in &later {
        b.append(k, e.list()).map_err(es("append"))?;
        m.entry((k.phrase_id, k.lang_set)).or_default().extend(e.list().iter().map(Ent::of));
    }
    b.finish().map_err(es("finish"))?;
    let d = open(dir, 6, 1.0)?;
    let limit = m.len() + 3;
    check_eq!(dump(&a.gs, limit)?, dump(&d.gs, limit)?, "renumbered store");
    same_content(&a.gs, &m, "renumbered store")?;
    // and range queries over its bins
    for i in 0..bins.len() {
        for j in i + 1..bins.len() {
            let k = MatchKey {
                match_phrase: MatchPhrase::Range { start: bins[i], end: bins[j] },
                lang_set: 5,
            };
            let o = MatchOpts { zoom: 6, ..MatchOpts::default() };
            let x = distinct(&query(&a.gs, &k, &o, usize::MAX, 100_000)?)?;
            let y = distinct(&query(&d.gs, &k, &o, usize::MAX, 100_000)?)?;
            check_eq!(x, y, "query over bins {}..{}", bins[i], bins[j]);
        }
    }
    Ok(())
}

/// Temporary phrase numbers up to some 200,000, and mappings as long.
fn c09_many(s: &mut Src, c: &mut Ctx) -> R {
    let len = match s.weighted(&[2, 2, 2, 1]) {
        0 => 256 + s.us(3),
        1 => 65_536 + s.us(3),
        2 => 65_537 + s.us(20_000),
        _ => 130_000 + s.us(70_000),
    };
    let style = s.us(4);
    let shift = s.num(1 << 32) as u32;
    let final_of = |t: u32| -> u32 {
        match style {
            0 => len as u32 - 1 - t,
            1 => t.wrapping_add(shift),
            // multiplication by an odd number permutes the 32-bit numbers
            2 => t.wrapping_mul(shift.wrapping_mul(2) | 1),
            _ => t,
        }
    };
    let mut seen = BTreeSet::new();
    let keys: Vec<(u32, u128)> = s
        .list(1, 20, 6, |s, _| {
            let near: [usize; 8] = [0, 255, 256, 65_535, 65_536, 65_537, 131_072, len - 1];
            let t = match s.weighted(&[16, 1, 10]) {
                0 => near[s.us(8)] % len,
                1 => near[s.us(8)] + 1 + s.us(2),
                _ => s.us(len),
            };
            (t.min(len + 1) as u32, lang_small(s))
        })
        .into_iter()
        .filter(|k| seen.insert(*k))
        .collect();
    c.input("keys", &keys);
    c.input("length, style, shift", &(len, style, shift));
    let map: Vec<u32> = (0..len as u32).map(final_of).collect();
    let dir = pbt::tmp::Dir::new();
    let mut b = GridStoreBuilder::new(dir.path()).map_err(es("builder"))?;
    let e = |i: usize| GridEntry { relev: 1.0, score: 1, x: 3, y: i as u16, id: i as u32, source_phrase_hash: 0 };
    for (i, k) in keys.iter().enumerate() {
        b.insert(&GridKey { phrase_id: k.0, lang_set: k.1 }, vec![e(i)]).map_err(es("insert"))?;
    }
    let complete = keys.iter().all(|k| (k.0 as usize) < len);
    c.nontrivial_if(complete && style != 3 && keys.iter().any(|k| k.0 > 255));
    c.label(if complete { "accepted" } else { "rejected" });
    match b.renumber(&map) {
        Err(_) if !complete => return Ok(()),
        Err(e) => return Err(format!("a complete injective mapping was rejected: {}", e)),
        Ok(()) => check!(complete, "an incomplete mapping was accepted"),
    }
    b.finish().map_err(es("finish"))?;
    let st = open(dir, 6, 1.0)?;
    let want: Content = keys
        .iter()
        .enumerate()
        .map(|(i, k)| ((final_of(k.0), k.1), [Ent::of(&e(i))].into_iter().collect()))
        .collect();
    same_content(&st.gs, &want, "renumbered store")
}

// ---------------------------------------------------------------- C10

fn c10_opts(s: &mut Src, c: &Content, max: u16, zoom: u16) -> MatchOpts {
    let pts = sample_points(c);
    let proximity = if s.chance(1, 3) {
        let p = if !pts.is_empty() && s.bool() { *s.pick(&pts) } else { (tile(s, max), tile(s, max)) };
        Some([p.0, p.1])
    } else {
        None
    };
    MatchOpts { zoom, bbox: None, proximity }
}

const RADII: [f64; 8] = [0.0, 1.0, 12.5, 40.0, 200.0, 400.0, 1000.0, 7.3];

fn c10_query(s: &mut Src, c: &mut Ctx) -> R {
    let zoom = s.r16(0, 16);
    let mut cfg = EntCfg::new(zoom);
    cfg.ids = *s.pick(&[1u64 << 24, 4]);
    let p = s_pick(s);
    let its = items(s, &cfg, p, 0, 12, 4, 4);
    let m = content(&its);
    let o = c10_opts(s, &m, cfg.max(), zoom);
    let radius = *s.pick(&RADII);
    let ps = phrases_of(&its);
    let k = MatchKey { match_phrase: match_phrase(s, &ps), lang_set: lang_small(s) };
    c.input("items", &its);
    c.input("query", &(&k, &o, radius));
    label_store(c, &its);
    let st = open(build(&its, &[])?, zoom, radius)?;
    let want = expect(&m, &k, &o, radius);
    c.nontrivial_if(!want.is_empty() && want.len() < m.len());
    c.label_if(want.len() >= 2, "several keys found");
    c.label_if(want.iter().any(|w| w.1.iter().any(|h| !h.lang)), "language mismatch");
    c.label_if(want.iter().any(|w| w.1.iter().any(|h| !h.lang && h.full == Some(true))), "exempt");
    c.label_if(matches!(k.match_phrase, MatchPhrase::Exact(_)), "exact");
    let want = flat(&want);
    let got = query(&st.gs, &k, &o, usize::MAX, want.len() + 2)?;
    same_hits(&got, &want, "query")
}

/// The ends of the phrase range, asked for in every way.
fn c10_edges(s: &mut Src, c: &mut Ctx) -> R {
    let edge = [0u32, 1, 2, 255, 256, 65535, 65536, (1 << 24) - 1, 1 << 24, 1 << 31, u32::MAX - 2, u32::MAX - 1, u32::MAX];
    let i = s.us(edge.len() * 6);
    let (p, how) = (edge[i / 6], i % 6);
    let cfg = EntCfg::new(6);
    let mut its = Items::new();
    for d in [-1i64, 0, 1] {
        let q = p as i64 + d;
        if (0..=u32::MAX as i64).contains(&q) {
            let e = Entries::Listed(vec![entry(s, &cfg)]);
            its.push((GridKey { phrase_id: q as u32, lang_set: lang_small(s) }, e));
        }
    }
    let mp = match how {
        0 => MatchPhrase::Exact(p),
        1 => MatchPhrase::Range { start: p, end: p.saturating_add(1) },
        2 => MatchPhrase::Range { start: p, end: p },
        3 => MatchPhrase::Range { start: 0, end: p },
        4 => MatchPhrase::Range { start: p, end: u32::MAX },
        _ => MatchPhrase::Range { start: p, end: p.saturating_sub(1) },
    };
    let k = MatchKey { match_phrase: mp, lang_set: lang_small(s) };
    let o = MatchOpts { zoom: 6, ..MatchOpts::default() };
    c.input("items", &its);
    c.input("query", &k);
    c.nontrivial = true;
    let st = open(build(&its, &[])?, 6, 1.0)?;
    let want = flat(&expect(&content(&its), &k, &o, 1.0));
    let got = query(&st.gs, &k, &o, usize::MAX, want.len() + 2)?;
    same_hits(&got, &want, "query")
}

/// A store of many keys of a few entries each.
fn crowd(s: &mut Src, zoom: u16) -> Items {
    let n = match s.weighted(&[45, 2, 1]) {
        0 => s.ri(100, 1500),
        1 => s.ri(5000, 40_000),
        _ => s.ri(66_000, 70_000),
    };
    let mut r = pbt::src::Rng::new(s.any());
    let span = *s.pick(&[300u64, 70_000, 1 << 32]);
    let first = if span < 1 << 20 { *s.pick(&[0u64, 65_000, 1 << 24, 0xffff_0000]) } else { 0 };
    let (max, scores, ids) = (max_tile(zoom) as u64, *s.pick(&[2u64, 16, 1]), *s.pick(&[50u64, 1 << 24]));
    let codes = *s.pick(&[4u64, 4, 1]);
    // all over the world or in a few tiles
    let side = *s.pick(&[max + 1, max + 1, 40, 2, 1]);
    let (x0, y0) = (max + 1 - side, s.u(max + 2 - side));
    let one_language = s.bool();
    let mut seen = BTreeSet::new();
    let mut its = Items::new();
    for i in 0..n {
        let p = if span == 70_000 { i as u64 } else { r.below(span) };
        let l = if one_language { 1 } else { [ALL, 0, 1, 2, 1 << 100][r.below(5) as usize] };
        let k = ((first + p).min(u32::MAX as u64) as u32, l);
        if seen.insert(k) {
            let list = (0..1 + r.below(8) / 7)
                .map(|_| GridEntry {
                    relev: [1.0, 0.8, 0.6, 0.4][r.below(codes) as usize],
                    score: r.below(scores) as u8,
                    x: (x0 + r.below(side)) as u16,
                    y: (y0 + r.below(side)) as u16,
                    id: r.below(ids) as u32,
                    source_phrase_hash: r.below(2) as u8,
                })
                .collect();
            its.push((GridKey { phrase_id: k.0, lang_set: k.1 }, Entries::Listed(list)));
        }
    }
    its
}

/// A range over some of the phrases, sometimes of a round number of them.
fn crowd_range(s: &mut Src, ps: &[u32]) -> MatchPhrase {
    let i = s.us(ps.len());
    let n = match s.us(4) {
        0 => ps.len(),
        1 => 1usize << s.us(18),
        2 => (1usize << s.us(18)) + 1,
        _ => s.us(ps.len()) + 1,
    };
    let i = if s.chance(1, 3) { 0 } else { i };
    let end = match ps.get(i + n) {
        Some(e) => *e,
        None => u32::MAX,
    };
    MatchPhrase::Range { start: ps[i], end }
}

fn c10_many(s: &mut Src, c: &mut Ctx) -> R {
    let zoom = *s.pick(&[16u16, 14, 6]);
    let its = crowd(s, zoom);
    let ps = phrases_of(&its);
    let m = content(&its);
    let radius = *s.pick(&RADII);
    c.input("keys", &its.len());
    c.input("items", &its.iter().take(50).collect::<Vec<_>>());
    label_store(c, &its);
    c.label_if(its.len() > 4096, "more than 4,096 keys");
    let st = open(build(&its, &[])?, zoom, radius)?;
    for _ in 0..4 {
        let o = c10_opts(s, &m, max_tile(zoom), zoom);
        let k = MatchKey {
            match_phrase: if s.chance(1, 6) { MatchPhrase::Exact(*s.pick(&ps)) } else { crowd_range(s, &ps) },
            lang_set: lang_small(s),
        };
        c.input("query", &(&k, &o, radius));
        let want = expect(&m, &k, &o, radius);
        c.nontrivial_if(want.len() > 20);
        c.label_if(want.len() > 65_536, "more than 65,536 keys found");
        let want = flat(&want);
        let got = query(&st.gs, &k, &o, usize::MAX, want.len() + 2)?;
        same_hits(&got, &want, &format!("{:?}", k))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

type Distinct = BTreeSet<(Ent, bool, bool, u64, u64)>;

/// The distinct results: entry, relevance, language match, distance and score.
pub fn distinct(v: &[MatchEntry]) -> Result<Distinct, String> {
    let mut out = BTreeSet::new();
    for m in v {
        let (e, full) = base(m)?;
        out.insert((e, full, m.matches_language, m.distance.to_bits(), m.scoredist.to_bits()));
    }
    Ok(out)
}

fn c11_bins(s: &mut Src, c: &mut Ctx) -> R {
    let zoom = s.r16(6, 16);
    let mut cfg = EntCfg::new(zoom);
    // many entries shared between phrases
    cfg.ids = *s.pick(&[3u64, 1 << 24]);
    cfg.scores = *s.pick(&[2u64, 16]);
    let p = s_pick(s);
    let its = items(s, &cfg, p, 1, 16, 6, 4);
    let ps = phrases_of(&its);
    let mut bins = boundaries(s, &ps);
    if p == Phrases::Dense && s.chance(1, 3) {
        bins = (0..14).filter(|_| s.bool()).collect();
    }
    let m = content(&its);
    let radius = *s.pick(&RADII);
    let lang = lang_small(s);
    let mut o = c10_opts(s, &m, cfg.max(), zoom);
    if s.chance(1, 4) {
        let pts = sample_points(&m);
        let at = if pts.is_empty() { None } else { Some(*s.pick(&pts)) };
        o.bbox = Some(any_box(s, cfg.max(), at));
    }
    c.input("items", &its);
    c.input("bins", &bins);
    c.input("options", &(&o, lang, radius));
    label_store(c, &its);
    let plain = open(build(&its, &[])?, zoom, radius)?;
    let binned = open(build(&its, &bins)?, zoom, radius)?;
    let limit: usize = m.values().map(|e| e.len()).sum::<usize>() + 3;

    // between boundaries
    let mut covered = 0;
    for i in 0..bins.len() {
        for j in i..bins.len() {
            let k = MatchKey {
                match_phrase: MatchPhrase::Range { start: bins[i], end: bins[j] },
                lang_set: lang,
            };
            let want = flat(&expect(&m, &k, &o, radius));
            covered += want.len();
            let x = query(&plain.gs, &k, &o, usize::MAX, limit)?;
            let y = query(&binned.gs, &k, &o, usize::MAX, limit)?;
            same_hits(&x, &want, "query without bins")?;
            let (x, y) = (distinct(&x)?, distinct(&y)?);
            if x != y {
                let extra: Vec<_> = y.difference(&x).take(3).collect();
                let missing: Vec<_> = x.difference(&y).take(3).collect();
                return Err(format!(
                    "query {:?}: with bins {} distinct results, without {}; extra {:?} missing {:?}",
                    k,
                    y.len(),
                    x.len(),
                    extra,
                    missing
                ));
            }
        }
    }
    c.nontrivial_if(bins.len() >= 2 && covered > 0);
    // anything else is untouched
    for _ in 0..3 {
        let k = MatchKey { match_phrase: match_phrase(s, &ps), lang_set: lang };
        if let MatchPhrase::Range { start, end } = k.match_phrase {
            if bins.contains(&start) && bins.contains(&end) {
                continue;
            }
        }
        let want = flat(&expect(&m, &k, &o, radius));
        let y = query(&binned.gs, &k, &o, usize::MAX, want.len() + 2)?;
        same_hits(&y, &want, &format!("query {:?} with bins", k))?;
    }
    same_content(&binned.gs, &m, "store with bins")?;
    let (a, b) = (keys_of(&plain.gs, m.len() + 2)?, keys_of(&binned.gs, m.len() + 2)?);
    check_eq!(b, a, "keys listed with bins");
    Ok(())
}

/// Many keys in many bins.
fn c11_many(s: &mut Src, c: &mut Ctx) -> R {
    let zoom = *s.pick(&[16u16, 14, 6]);
    let its = crowd(s, zoom);
    let ps = phrases_of(&its);
    let m = content(&its);
    let nbins = match s.us(3) {
        0 => s.ri(2, 12),
        1 => s.ri(200, 600),
        _ => s.ri(12, 200),
    };
    let mut r = pbt::src::Rng::new(s.any());
    let mut bins: Vec<u32> = (0..nbins).map(|_| ps[r.below(ps.len() as u64) as usize]).collect();
    if s.bool() {
        bins.push(ps[0]);
        bins.push(u32::MAX);
    }
    bins.sort();
    bins.dedup();
    let radius = *s.pick(&RADII);
    c.input("keys", &its.len());
    c.input("items", &its.iter().take(50).collect::<Vec<_>>());
    c.input("bins", &bins);
    label_store(c, &its);
    c.label_if(its.len() > 4096, "more than 4,096 keys");
    c.label_if(bins.len() > 256, "more than 256 boundaries");
    let plain = open(build(&its, &[])?, zoom, radius)?;
    let binned = open(build(&its, &bins)?, zoom, radius)?;
    for round in 0..8 {
        let o = c10_opts(s, &m, max_tile(zoom), zoom);
        let (i, j) = (s.us(bins.len()), s.us(bins.len()));
        let (i, j) = match round {
            0 => (0, bins.len() - 1),
            1 | 2 => (i, (i + 1).min(bins.len() - 1)),
            _ => (i.min(j), i.max(j)),
        };
        let k = MatchKey {
            match_phrase: MatchPhrase::Range { start: bins[i], end: bins[j] },
            lang_set: lang_small(s),
        };
        c.input("query", &(&k, &o));
        let want = flat(&expect(&m, &k, &o, radius));
        c.nontrivial_if(want.len() > 20);
        let x = query(&plain.gs, &k, &o, usize::MAX, want.len() + 2)?;
        same_hits(&x, &want, "query without bins")?;
        let y = query(&binned.gs, &k, &o, usize::MAX, want.len() + 2)?;
        let (x, y) = (distinct(&x)?, distinct(&y)?);
        check!(
            x == y,
            "{:?}: with bins {} distinct results, without {}; extra {:?} missing {:?}",
            k,
            y.len(),
            x.len(),
            y.difference(&x).next(),
            x.difference(&y).next()
        );
    }
    for _ in 0..3 {
        let k = MatchKey { match_phrase: crowd_range(s, &ps), lang_set: lang_small(s) };
        if let MatchPhrase::Range { start, end } = k.match_phrase {
            if bins.contains(&start) && bins.contains(&end) {
                continue;
            }
        }
        let o = MatchOpts { zoom, ..MatchOpts::default() };
        let want = flat(&expect(&m, &k, &o, radius));
        let y = query(&binned.gs, &k, &o, usize::MAX, want.len() + 2)?;
        same_hits(&y, &want, &format!("query {:?} with bins", k))?;
    }
    let (a, b) = (keys_of(&plain.gs, m.len() + 2)?, keys_of(&binned.gs, m.len() + 2)?);
    check!(a == b, "the keys listed with bins are others than without");
    Ok(())
}

// ---------------------------------------------------------------- C12

struct Scene {
    zoom: u16,
    radius: f64,
    items: Items,
    model: Content,
    store: Store,
}

fn scene(s: &mut Src, c: &mut Ctx, min: usize, max: usize, mean: usize, ents: usize) -> Result<Scene, String> {
    let zoom = if s.chance(1, 5) { s.r16(0, 16) } else { *s.pick(&[16u16, 14, 6, 10, 8, 12]) };
    let mut cfg = EntCfg::new(zoom);
    cfg.scores = *s.pick(&[16u64, 2, 8]);
    cfg.codes = *s.pick(&[4u64, 1, 2]);
    let items = items(s, &cfg, Phrases::Dense, min, max, mean, ents);
    let radius = *s.pick(&RADII);
    c.input("items", &items);
    c.input("zoom, radius", &(zoom, radius));
    label_store(c, &items);
    let model = content(&items);
    let store = open(build(&items, &[])?, zoom, radius)?;
    Ok(Scene { zoom, radius, items, model, store })
}

fn big_scene(s: &mut Src, c: &mut Ctx) -> Result<Scene, String> {
    // one list of more than 65535 coordinates
    let zoom = 16;
    let e = Entries::Bulk {
        n: 66_000 + s.us(40_000),
        seed: s.any(),
        zoom,
        codes: 1,
        scores: s.range(1, 2),
        ids: 1 << 24,
        spread: *s.pick(&[65535u16, 700]),
    };
    let items = vec![(GridKey { phrase_id: 3, lang_set: 1 }, e)];
    let radius = *s.pick(&RADII);
    c.input("items", &items);
    c.input("zoom, radius", &(zoom, radius));
    label_store(c, &items);
    let model = content(&items);
    let store = open(build(&items, &[])?, zoom, radius)?;
    Ok(Scene { zoom, radius, items, model, store })
}

fn scene_key(s: &mut Src, sc: &Scene, single: bool) -> MatchKey {
    if single {
        let k = &s.pick(&sc.items).0;
        MatchKey { match_phrase: MatchPhrase::Exact(k.phrase_id), lang_set: lang_small(s) }
    } else {
        let ps = phrases_of(&sc.items);
        MatchKey { match_phrase: match_phrase(s, &ps), lang_set: lang_small(s) }
    }
}

fn c12_check(s: &mut Src, c: &mut Ctx, sc: &Scene, rounds: usize) -> R {
    let max = max_tile(sc.zoom);
    let pts = sample_points(&sc.model);
    for _ in 0..rounds {
        let k = scene_key(s, sc, false);
        let at = if pts.is_empty() { None } else { Some(*s.pick(&pts)) };
        let b = any_box(s, max, at);
        let proximity = if s.chance(1, 4) { Some([tile(s, max), tile(s, max)]) } else { None };
        let plain = MatchOpts { zoom: sc.zoom, bbox: None, proximity };
        let boxed = MatchOpts { bbox: Some(b), ..plain.clone() };
        c.input("query", &(&k, &boxed));
        let want = expect(&sc.model, &k, &boxed, sc.radius);
        let all = expect(&sc.model, &k, &plain, sc.radius);
        let flat_want = flat(&want);
        let (nw, na) = (flat_want.len(), flat(&all).len());
        c.nontrivial_if(nw > 0 && nw < na);
        c.label_if(nw == 0, "box without results");
        c.label_if(b[0] == b[2] && b[1] == b[3], "single tile");
        let got = query(&sc.store.gs, &k, &boxed, usize::MAX, nw + 2)?;
        same_hits(&got, &flat_want, &format!("{:?} in {:?}", k, boxed))?;
        if want.len() == 1 && proximity.is_none() {
            // one key: the order of the unboxed results
            let unboxed = query(&sc.store.gs, &k, &plain, usize::MAX, na + 2)?;
            let filtered: Vec<&MatchEntry> =
                unboxed.iter().filter(|m| in_box(&b, m.grid_entry.x, m.grid_entry.y)).collect();
            check!(
                filtered.len() == got.len() && filtered.iter().zip(&got).all(|(a, b)| **a == *b),
                "{:?} in {:?}: other order or attributes than without the box",
                k,
                boxed
            );
        }
    }
    Ok(())
}

fn c12_random(s: &mut Src, c: &mut Ctx) -> R {
    let sc = scene(s, c, 1, 5, 2, 14)?;
    c12_check(s, c, &sc, 4)
}

/// Dense little grids, where boxes cut through runs of the Z-order curve.
fn c12_dense(s: &mut Src, c: &mut Ctx) -> R {
    let zoom = *s.pick(&[16u16, 14, 5]);
    let max = max_tile(zoom);
    let side = s.r16(2, 8);
    let x0 = tile(s, max).min(max - side);
    let y0 = tile(s, max).min(max - side);
    let keep = s.us(4);
    let mut r = pbt::src::Rng::new(s.any());
    let mut list = vec![];
    for x in 0..side {
        for y in 0..side {
            if r.below(4) >= keep as u64 {
                list.push(GridEntry {
                    relev: 1.0,
                    score: r.below(2) as u8,
                    x: x0 + x,
                    y: y0 + y,
                    id: r.below(5) as u32,
                    source_phrase_hash: 0,
                });
            }
        }
    }
    let items = vec![(GridKey { phrase_id: 1, lang_set: 1 }, Entries::Listed(list))];
    let radius = 40.0;
    c.input("items", &items);
    c.input("zoom", &zoom);
    let model = content(&items);
    let store = open(build(&items, &[])?, zoom, radius)?;
    let sc = Scene { zoom, radius, items, model, store };
    // all boxes with corners in and just around the grid
    let k = MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: 1 };
    let lim = |a: u16, d: u16| (a as u32 + d as u32).min(max as u32) as u16;
    for _ in 0..12 {
        let (ax, bx) = (x0.saturating_sub(1) as u64, lim(x0, side) as u64);
        let (ay, by) = (y0.saturating_sub(1) as u64, lim(y0, side) as u64);
        let (p, q) = (s.range(ax, bx) as u16, s.range(ax, bx) as u16);
        let (t, u) = (s.range(ay, by) as u16, s.range(ay, by) as u16);
        let b = [p.min(q), t.min(u), p.max(q), t.max(u)];
        let prox = if s.chance(1, 3) { Some([tile(s, max), tile(s, max)]) } else { None };
        let o = MatchOpts { zoom, bbox: Some(b), proximity: prox };
        c.input("options", &o);
        let want = flat(&expect(&sc.model, &k, &o, radius));
        c.nontrivial_if(!want.is_empty());
        let got = query(&sc.store.gs, &k, &o, usize::MAX, want.len() + 2)?;
        same_hits(&got, &want, &format!("{:?}", o))?;
        if prox.is_none() {
            for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                same_hit(g, w, &format!("{:?}: result {} in order", o, i))?;
            }
        }
    }
    Ok(())
}

fn c12_big(s: &mut Src, c: &mut Ctx) -> R {
    let sc = big_scene(s, c)?;
    c12_check(s, c, &sc, 6)
}

// ---------------------------------------------------------------- C13

/// The order of the results of one key, given what it must contain.
fn proximity_order(got: &[MatchEntry], p: [u16; 2], what: &str) -> R {
    let pz = z_of(p[0], p[1]) as i64;
    let mut queues: BTreeMap<u8, Vec<(usize, Ent, f64)>> = BTreeMap::new();
    let mut order = Vec::new();
    for (i, m) in got.iter().enumerate() {
        let (e, _) = base(m)?;
        queues.entry(e.rs).or_default().push((i, e, m.scoredist));
        order.push((e.rs, m.scoredist));
    }
    // each (relevance, score) by Z-order distance
    for (rs, q) in &queues {
        for w in q.windows(2) {
            let (a, b) = ((w[0].1.z as i64 - pz).abs(), (w[1].1.z as i64 - pz).abs());
            check!(
                a <= b,
                "{}: relevance/score {}: {:?} (Z-order distance {}) comes before {:?} ({})",
                what,
                rs,
                w[0].1,
                a,
                w[1].1,
                b
            );
        }
    }
    // a merge: what comes next is the best of what is next in line at its relevance; relevances
    // themselves descend (stored, not penalised, ones)
    let mut heads: BTreeMap<u8, usize> = queues.keys().map(|k| (*k, 0)).collect();
    let mut last_code = 3;
    for (i, (rs, sd)) in order.iter().enumerate() {
        let code = rs >> 4;
        check!(code <= last_code, "{}: relevance rises at result {}", what, i);
        last_code = code;
        for (other, at) in heads.range(code << 4..=(code << 4 | 15)) {
            if let Some(h) = queues[other].get(*at) {
                check!(
                    h.2 <= *sd || near(h.2, *sd),
                    "{}: result {} has score {} while {:?} with {} is next in line",
                    what,
                    i,
                    sd,
                    h.1,
                    h.2
                );
            }
        }
        *heads.get_mut(rs).unwrap() += 1;
    }
    Ok(())
}

fn c13_check(s: &mut Src, c: &mut Ctx, sc: &Scene, rounds: usize) -> R {
    let max = max_tile(sc.zoom);
    let pts = sample_points(&sc.model);
    for _ in 0..rounds {
        let single = s.bool();
        let k = scene_key(s, sc, single);
        let p = if !pts.is_empty() && s.chance(3, 4) {
            let (x, y) = *s.pick(&pts);
            match s.us(3) {
                0 => [x, y],
                1 => [x.saturating_add(s.len(0, 5, 1) as u16).min(max), y.saturating_sub(s.len(0, 5, 1) as u16)],
                _ => [tile(s, max), y],
            }
        } else {
            [tile(s, max), tile(s, max)]
        };
        let at = if s.bool() || pts.is_empty() { (p[0], p[1]) } else { *s.pick(&pts) };
        let bbox = if s.chance(1, 2) { Some(any_box(s, max, Some(at))) } else { None };
        let o = MatchOpts { zoom: sc.zoom, bbox, proximity: Some(p) };
        c.input("query", &(&k, &o));
        let per_key = expect(&sc.model, &k, &o, sc.radius);
        let want = flat(&per_key);
        c.nontrivial_if(want.len() >= 3);
        c.label_if(bbox.is_some() && want.len() >= 2, "with box");
        let got = query(&sc.store.gs, &k, &o, usize::MAX, want.len() + 2)?;
        let what = format!("{:?} {:?}", k, o);
        same_hits(&got, &want, &what)?;
        // the same entries as without the point
        let np = MatchOpts { proximity: None, ..o.clone() };
        let plain = query(&sc.store.gs, &k, &np, usize::MAX, want.len() + 2)?;
        let bare = |v: &[MatchEntry]| -> Result<Vec<(Ent, bool)>, String> {
            let mut x = Vec::new();
            for m in v {
                x.push((base(m)?.0, m.matches_language));
            }
            x.sort();
            Ok(x)
        };
        check!(bare(&got)? == bare(&plain)?, "{}: other entries than without the point", what);
        let filled = per_key.iter().filter(|x| !x.1.is_empty()).count();
        if filled == 1 {
            c.label("order of one key checked");
            proximity_order(&got, p, &what)?;
        }
    }
    Ok(())
}

fn c13_random(s: &mut Src, c: &mut Ctx) -> R {
    let sc = scene(s, c, 1, 4, 1, 14)?;
    c13_check(s, c, &sc, 4)
}
/// Entries exactly on the radius, and just inside and outside of it, in any language.
fn c13_edge(s: &mut Src, c: &mut Ctx) -> R {
    // Pythagorean offsets
    const ON: [(u16, &[(u16, u16)]); 6] = [
        (4, &[(4, 0)]),
        (5, &[(5, 0), (3, 4)]),
        (10, &[(10, 0), (6, 8)]),
        (25, &[(25, 0), (15, 20), (7, 24)]),
        (65, &[(65, 0), (16, 63), (33, 56), (39, 52), (25, 60)]),
        (160, &[(160, 0), (96, 128)]),
    ];
    let (r, offs) = *s.pick(&ON);
    let max = max_tile(14);
    let p = [s.r16(r + 2, max - r - 2), s.r16(r + 2, max - r - 2)];
    let nkeys = s.ri(1, 3);
    let mut items = Items::new();
    for k in 0..nkeys {
        let ents = s.list(1, 12, 5, |s, i| {
            let (mut dx, mut dy) = *s.pick(offs);
            if s.bool() {
                std::mem::swap(&mut dx, &mut dy);
            }
            match s.weighted(&[4, 1, 1]) {
                0 => {}
                1 => dx = dx.saturating_sub(1),
                _ => dx += 1,
            }
            GridEntry {
                relev: RELEVS[s.us(4)],
                score: s.us(16) as u8,
                x: if s.bool() { p[0] + dx } else { p[0] - dx },
                y: if s.bool() { p[1] + dy } else { p[1] - dy },
                id: i as u32,
                source_phrase_hash: 0,
            }
        });
        items.push((GridKey { phrase_id: k as u32, lang_set: *s.pick(&[1u128, 2, 4, ALL]) }, Entries::Listed(ents)));
    }
    let radius = r as f64 * 1.25;
    let k = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: nkeys as u32 }, lang_set: *s.pick(&[1u128, 2, 8]) };
    let o = MatchOpts { zoom: 14, bbox: None, proximity: Some(p) };
    c.input("items", &items);
    c.input("radius, query", &(radius, &k, &o));
    let store = open(build(&items, &[])?, 14, radius)?;
    let want = flat(&expect(&content(&items), &k, &o, radius));
    let on = want.iter().filter(|h| !h.lang && h.distance == r as f64).count();
    check!(want.iter().all(|h| h.full.is_some()), "the model cannot tell");
    c.nontrivial_if(on > 0);
    let got = query(&store.gs, &k, &o, usize::MAX, want.len() + 2)?;
    same_hits(&got, &want, "entries on the radius")
}
/// Entries around the radius, in any language, at every zoom.
fn c13_zooms(s: &mut Src, c: &mut Ctx) -> R {
    let zoom = s.r16(0, 16);
    let max = max_tile(zoom);
    let r = s.range(1, (max as u64 + 1).min(300) * 8) as f64 / 8.0;
    let radius = r / (0.8 * 1.5f64.powi(zoom as i32 - 14));
    let p = [tile(s, max), tile(s, max)];
    let nkeys = s.ri(1, 3);
    let mut items = Items::new();
    for k in 0..nkeys {
        let ents = s.list(1, 12, 5, |s, i| {
            // half the radius to twice the radius away, mostly near it
            let d = r * match s.weighted(&[3, 1]) {
                0 => 0.9 + 0.2 * s.range(0, 1000) as f64 / 1000.0,
                _ => 0.4 + 1.6 * s.range(0, 1000) as f64 / 1000.0,
            };
            let a = s.range(0, 359) as f64 * std::f64::consts::PI / 180.0;
            let go = |from: u16, by: f64| (from as f64 + by).round().max(0.0).min(max as f64) as u16;
            GridEntry {
                relev: RELEVS[s.us(4)],
                score: s.us(16) as u8,
                x: go(p[0], d * a.cos()),
                y: go(p[1], d * a.sin()),
                id: i as u32,
                source_phrase_hash: 0,
            }
        });
        items.push((GridKey { phrase_id: k as u32, lang_set: *s.pick(&[1u128, 2, 4, ALL]) }, Entries::Listed(ents)));
    }
    let k = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: nkeys as u32 }, lang_set: *s.pick(&[1u128, 2, 8]) };
    let o = MatchOpts { zoom, bbox: None, proximity: Some(p) };
    c.input("items", &items);
    c.input("query, radius", &(&k, &o, radius));
    let model = content(&items);
    let store = open(build(&items, &[])?, zoom, radius)?;
    let want = flat(&expect(&model, &k, &o, radius));
    c.label_if(zoom < 6, "coarse zoom");
    let close = |full: bool| want.iter().any(|h| !h.lang && h.full == Some(full));
    c.nontrivial_if(close(true) && close(false));
    let got = query(&store.gs, &k, &o, usize::MAX, want.len() + 2)?;
    same_hits(&got, &want, &format!("{:?} {:?}", k, o))
}

fn c13_big(s: &mut Src, c: &mut Ctx) -> R {
    let sc = big_scene(s, c)?;
    c13_check(s, c, &sc, 6)
}

// ---------------------------------------------------------------- C14

fn rank(m: &MatchEntry) -> (u64, u64, bool) {
    // positive finite floats order like their bits
    (m.grid_entry.relev.to_bits(), m.scoredist.to_bits(), m.matches_language)
}

fn c14_stream(s: &mut Src, c: &mut Ctx) -> R {
    let sc = scene(s, c, 1, 20, 6, 5)?;
    c14_check(s, c, &sc, 3, false)
}

fn c14_many(s: &mut Src, c: &mut Ctx) -> R {
    let zoom = *s.pick(&[16u16, 14, 6]);
    let items = crowd(s, zoom);
    let radius = *s.pick(&RADII);
    c.input("keys", &items.len());
    c.input("items", &items.iter().take(50).collect::<Vec<_>>());
    c.input("zoom, radius", &(zoom, radius));
    label_store(c, &items);
    c.label_if(items.len() > 4096, "more than 4,096 keys");
    let model = content(&items);
    let store = open(build(&items, &[])?, zoom, radius)?;
    let sc = Scene { zoom, radius, items, model, store };
    c14_check(s, c, &sc, 2, true)
}

fn c14_check(s: &mut Src, c: &mut Ctx, sc: &Scene, rounds: usize, many: bool) -> R {
    let ps = phrases_of(&sc.items);
    for _ in 0..rounds {
        let k = if many {
            MatchKey { match_phrase: crowd_range(s, &ps), lang_set: lang_small(s) }
        } else {
            scene_key(s, sc, false)
        };
        let max = max_tile(sc.zoom);
        let pts = sample_points(&sc.model);
        let at = if pts.is_empty() { None } else { Some(*s.pick(&pts)) };
        let bbox = if s.chance(1, 4) { Some(any_box(s, max, at)) } else { None };
        let o = MatchOpts { zoom: sc.zoom, bbox, proximity: None };
        c.input("query", &(&k, &o));
        let per_key = expect(&sc.model, &k, &o, sc.radius);
        let want = flat(&per_key);
        c.nontrivial_if(per_key.iter().filter(|x| x.1.len() > 0).count() >= 2);
        let full = query(&sc.store.gs, &k, &o, usize::MAX, want.len() + 2)?;
        same_hits(&full, &want, "uncapped query")?;
        for w in full.windows(2) {
            check!(rank(&w[0]) >= rank(&w[1]), "{:?} comes before {:?}", w[0], w[1]);
        }
        let nkeys = per_key.iter().filter(|x| x.1.len() > 0).count();
        let mut caps: Vec<usize> = vec![0, 1, 2, nkeys.max(2) - 1, nkeys.max(1), nkeys + 1, 1 + s.us(want.len() + 2)];
        if many {
            caps.push(1 << s.us(17));
            caps.push(s.ri(3, 2000));
        }
        for cap in caps {
            let capped = query(&sc.store.gs, &k, &o, cap, want.len() + 2)?;
            check!(
                capped.len() >= cap.min(full.len()),
                "cap {}: {} results of {}",
                cap,
                capped.len(),
                full.len()
            );
            for (i, (a, b)) in capped.iter().zip(&full).take(cap).enumerate() {
                check!(
                    rank(a) == rank(b),
                    "cap {}: result {} is {:?} but without the cap it is {:?}",
                    cap,
                    i,
                    a,
                    b
                );
            }
            // nothing invented
            sub_hits(&capped, &want, &format!("cap {}", cap))?;
        }
        // with a proximity point and all languages matching
        let k2 = MatchKey { lang_set: ALL, ..k.clone() };
        let p = at.unwrap_or((0, 0));
        let o2 = MatchOpts { proximity: Some([p.0, p.1]), ..o.clone() };
        let got = query(&sc.store.gs, &k2, &o2, usize::MAX, want.len() + 2)?;
        if got.iter().all(|m| m.matches_language) {
            for w in got.windows(2) {
                check!(
                    w[0].grid_entry.relev >= w[1].grid_entry.relev,
                    "with a proximity point: {:?} comes before {:?}",
                    w[0],
                    w[1]
                );
            }
        }
    }
    Ok(())
}

/// Every result is among these, no more often than there.
pub fn sub_hits(got: &[MatchEntry], want: &[Hit], what: &str) -> R {
    let mut left: BTreeMap<(Ent, bool), usize> = BTreeMap::new();
    for h in want {
        *left.entry((h.ent, h.lang)).or_default() += 1;
    }
    for m in got {
        let (e, _) = base(m)?;
        match left.get_mut(&(e, m.matches_language)) {
            Some(n) if *n > 0 => *n -= 1,
            _ => return Err(format!("{}: unexpected result {:?}", what, m)),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

fn c15_formula(s: &mut Src, c: &mut Ctx) -> R {
    let zoom = s.r16(0, 16);
    let max = max_tile(zoom);
    let radius = match s.us(3) {
        0 => *s.pick(&RADII),
        1 => s.range(1, 4000) as f64 / 8.0,
        _ => s.range(1, 100_000) as f64,
    };
    let p = [tile(s, max), tile(s, max)];
    let list: Vec<GridEntry> = s.list(1, 24, 10, |s, i| {
        // around the point, around the radius, anywhere
        let rt = radius_tiles(zoom.max(6), radius);
        let (x, y) = match s.us(4) {
            0 => {
                let (dx, dy) = (s.len(0, 6, 1) as i64, s.len(0, 6, 1) as i64);
                (p[0] as i64 + dx, p[1] as i64 - dy)
            }
            1 => (p[0] as i64 + rt as i64 + s.us(5) as i64 - 2, p[1] as i64),
            2 => (p[0] as i64, p[1] as i64 - (rt as i64 + s.us(5) as i64 - 2)),
            _ => (tile(s, max) as i64, tile(s, max) as i64),
        };
        GridEntry {
            relev: *s.pick(&RELEVS),
            score: s.u(16) as u8,
            x: x.clamp(0, max as i64) as u16,
            y: y.clamp(0, max as i64) as u16,
            id: i as u32,
            source_phrase_hash: 0,
        }
    });
    let lang = s.bool();
    c.input("entries", &list);
    c.input("zoom, radius, point", &(zoom, radius, p));
    let items = vec![(GridKey { phrase_id: 1, lang_set: 1 }, Entries::Listed(list.clone()))];
    let m = content(&items);
    let st = open(build(&items, &[])?, zoom, radius)?;
    let k = MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: if lang { 1 } else { 2 } };
    let o = MatchOpts { zoom, bbox: None, proximity: Some(p) };
    let want = flat(&expect(&m, &k, &o, radius));
    let got = query(&st.gs, &k, &o, usize::MAX, want.len() + 2)?;
    same_hits(&got, &want, "with a point")?;
    let rt = radius_tiles(zoom.max(6), radius);
    c.nontrivial_if(want.iter().any(|h| h.distance > rt) && want.iter().any(|h| h.distance <= rt));
    c.label_if(zoom < 6, "zoom below 6");
    // relations between results that do not need the formula
    for a in &got {
        check!(a.scoredist.is_finite(), "score {} of {:?}", a.scoredist, a);
        for b in &got {
            if a.grid_entry.score == b.grid_entry.score && a.distance < b.distance {
                check!(
                    a.scoredist >= b.scoredist,
                    "farther but better: {:?} and {:?}",
                    a,
                    b
                );
            }
            if a.distance == b.distance && a.grid_entry.score < b.grid_entry.score {
                check!(a.scoredist <= b.scoredist, "lower score but better: {:?} and {:?}", a, b);
            }
            if a.grid_entry.score == b.grid_entry.score
                && a.distance > rt * (1.0 + 1e-9)
                && b.distance > rt * (1.0 + 1e-9)
                && a.distance >= 1.0
                && b.distance >= 1.0
            {
                check!(
                    a.scoredist == b.scoredist,
                    "beyond the radius of {} tiles: {:?} and {:?}",
                    rt,
                    a,
                    b
                );
            }
        }
    }
    let o = MatchOpts { zoom, bbox: None, proximity: None };
    for g in query(&st.gs, &k, &o, usize::MAX, want.len() + 2)? {
        check!(
            g.scoredist == g.grid_entry.score as f64 && g.distance == 0.0,
            "without a point: {:?}",
            g
        );
    }
    Ok(())
}

/// Every zoom, score and a ladder of distances.
fn c15_table(s: &mut Src, c: &mut Ctx) -> R {
    let i = s.us(17 * RADII.len());
    let (zoom, radius) = ((i % 17) as u16, RADII[i / 17]);
    let max = max_tile(zoom);
    c.input("zoom, radius", &(zoom, radius));
    c.nontrivial = true;
    let p = [max / 2, max / 2];
    let mut list = vec![];
    let mut d = 0u16;
    while d <= max - p[0] {
        for score in 0..16 {
            list.push(GridEntry {
                relev: 1.0,
                score,
                x: p[0] + d,
                y: p[1],
                id: d as u32,
                source_phrase_hash: score,
            });
        }
        d = d + 1 + d / 3;
    }
    let items = vec![(GridKey { phrase_id: 1, lang_set: 1 }, Entries::Listed(list))];
    let st = open(build(&items, &[])?, zoom, radius)?;
    let k = MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: 1 };
    let o = MatchOpts { zoom, bbox: None, proximity: Some(p) };
    let want = flat(&expect(&content(&items), &k, &o, radius));
    let got = query(&st.gs, &k, &o, usize::MAX, want.len() + 2)?;
    same_hits(&got, &want, "table")
}

// ---------------------------------------------------------------- C25

fn c25_streams(s: &mut Src, c: &mut Ctx) -> R {
    let nstores = s.ri(1, 3);
    let mut scenes = vec![];
    for _ in 0..nstores {
        let bins_too = s.bool();
        let mut sc = scene(s, c, 1, 6, 2, 10)?;
        if bins_too {
            let ps = phrases_of(&sc.items);
            let mut bins = boundaries(s, &ps);
            bins.push(20);
            sc.store = open(build(&sc.items, &bins)?, sc.zoom, sc.radius)?;
        }
        scenes.push(sc);
    }
    #[derive(Debug, Clone)]
    enum What {
        Query(MatchKey, MatchOpts, usize),
        Get(GridKey),
        Keys,
        Iter,
    }
    let specs: Vec<(usize, What)> = s.list(2, 12, 5, |s, _| {
        let i = s.us(scenes.len());
        let sc = &scenes[i];
        let max = max_tile(sc.zoom);
        let w = match s.weighted(&[6, 3, 1, 2]) {
            0 => {
                let k = scene_key(s, sc, false);
                let pts = sample_points(&sc.model);
                let at = if pts.is_empty() { None } else { Some(*s.pick(&pts)) };
                let bbox = if s.chance(1, 3) { Some(any_box(s, max, at)) } else { None };
                let proximity =
                    if s.chance(1, 3) { Some([tile(s, max), tile(s, max)]) } else { None };
                let cap = *s.pick(&[usize::MAX, 1, 2, 100_000]);
                What::Query(k, MatchOpts { zoom: sc.zoom, bbox, proximity }, cap)
            }
            1 => What::Get(s.pick(&sc.items).0.clone()),
            2 => What::Keys,
            _ => What::Iter,
        };
        (i, w)
    });
    // a schedule: which stream advances, by how much; or which is abandoned
    let steps: Vec<(usize, usize, bool)> = s.list(1, 200, 40, |s, _| {
        (s.us(specs.len()), 1 + s.len(0, 30, 3), s.chance(1, 12))
    });
    let close_stores = s.chance(1, 2);
    c.input("streams", &specs);
    c.input("schedule", &steps);
    c.nontrivial_if(
        steps.iter().map(|x| x.0).collect::<BTreeSet<_>>().len() >= 2 && steps.len() >= 4,
    );

    type Stream<'a> = Box<dyn Iterator<Item = Result<String, String>> + 'a>;
    fn start<'a>(gs: &'a GridStore, w: &What) -> Result<Stream<'a>, String> {
        Ok(match w {
            What::Query(k, o, cap) => Box::new(
                gs.streaming_get_matching(k, o, *cap)
                    .map_err(es("query"))?
                    .map(|m| Ok(format!("{:?}", m))),
            ),
            What::Get(k) => match gs.get(k).map_err(es("get"))? {
                Some(i) => Box::new(i.map(|e| Ok(format!("{:?}", e)))),
                None => Box::new(std::iter::empty()),
            },
            What::Keys => Box::new(gs.keys().map(|k| k.map(|k| format!("{:?}", k)).map_err(es("keys")))),
            What::Iter => Box::new(gs.iter().map(|k| k.map(|k| format!("{:?}", k)).map_err(es("iter")))),
        })
    }
    // alone
    let mut alone: Vec<Vec<String>> = vec![];
    for (i, w) in &specs {
        let v: Result<Vec<String>, String> = start(&scenes[*i].store.gs, w)?.take(200_000).collect();
        alone.push(v?);
    }
    // interleaved
    let mut streams: Vec<Option<Stream>> = vec![];
    for (i, w) in &specs {
        streams.push(Some(start(&scenes[*i].store.gs, w)?));
    }
    let mut at = vec![0usize; specs.len()];
    let mut junk: Vec<Vec<u8>> = vec![];
    for (i, n, drop_it) in &steps {
        if *drop_it {
            c.label("a stream abandoned");
            streams[*i] = None;
            continue;
        }
        if let Some(st) = &mut streams[*i] {
            for _ in 0..*n {
                let got = st.next().transpose()?;
                check!(
                    got.as_ref() == alone[*i].get(at[*i]),
                    "stream {} ({:?}): item {} is {:?}, alone it is {:?}",
                    i,
                    specs[*i],
                    at[*i],
                    got,
                    alone[*i].get(at[*i])
                );
                if got.is_none() {
                    break;
                }
                at[*i] += 1;
            }
        }
        // something else uses memory that may just have been released
        junk.push(vec![0xEE; 16 + (at[*i] * 37) % 4000]);
        if junk.len() > 20 {
            junk.drain(..10);
        }
    }
    // whatever is left is finished, in reverse order of opening
    for i in (0..streams.len()).rev() {
        if let Some(st) = streams[i].take() {
            let rest: Result<Vec<String>, String> = st.take(200_000).collect();
            let rest = rest?;
            check!(
                rest[..] == alone[i][at[i].min(alone[i].len())..],
                "stream {} ({:?}): the rest differs",
                i,
                specs[i]
            );
        }
    }
    drop(streams);
    if close_stores {
        // reading again from stores opened anew on the same data
        for (k, (i, w)) in specs.iter().enumerate() {
            let sc = &scenes[*i];
            let o = StoreOpts {
                zoom: sc.zoom,
                type_id: 0,
                radius: sc.radius,
                bboxes: vec![],
                max_score: 1.0,
            };
            let again = open_with(&sc.store._dir, &o)?;
            let v: Result<Vec<String>, String> = start(&again.gs, w)?.take(200_000).collect();
            check_eq!(v?, alone[k], "stream {} on a reopened store", k);
        }
    }
    Ok(())
}

/// Streams handed to other threads while their siblings are consumed here.
fn c25_threads(s: &mut Src, c: &mut Ctx) -> R {
    let sc = scene(s, c, 2, 8, 4, 30)?;
    let k = scene_key(s, &sc, false);
    let o = MatchOpts { zoom: sc.zoom, ..MatchOpts::default() };
    c.input("query", &k);
    let want = query(&sc.store.gs, &k, &o, usize::MAX, 200_000)?;
    c.nontrivial_if(want.len() >= 2);
    let gs: &Arc<GridStore> = &sc.store.gs;
    let bad = std::thread::scope(|t| {
        let hs: Vec<_> = (0..3)
            .map(|n| {
                let (k, o, want) = (&k, &o, &want);
                t.spawn(move || -> R {
                    for round in 0..3 {
                        let st = gs.streaming_get_matching(k, o, usize::MAX).map_err(es("query"))?;
                        let got: Vec<MatchEntry> =
                            if n == round { st.take(want.len() / 2).collect() } else { st.take(want.len() + 1).collect() };
                        check!(
                            got[..] == want[..got.len().min(want.len())]
                                && (n == round || got.len() == want.len()),
                            "thread {} round {}: other results",
                            n,
                            round
                        );
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
    });
    for b in bad {
        match b {
            Ok(r) => r?,
            Err(p) => std::panic::resume_unwind(p),
        }
    }
    Ok(())
}

// ----------------------------------------------------------------

pub fn all() -> Vec<Prop> {
    let f = Family::new;
    vec![
        Prop {
            id: "C06",
            rule: "random stores (keys over the whole phrase and language range, entries with \
                   collisions and excess bits, sizes from one entry to records beyond 16 MiB), read \
                   key by key, listed, probed at neighbouring absent keys; the same entries in five \
                   orders; non-trivial: at least two distinct entries",
            assumptions: ASSUME,
            families: vec![
                f("small", 12_000, 300_000, c06_small),
                f("order", 4_000, 100_000, c06_order),
                f("large", 300, 6_000, c06_large),
                f("huge", 8, 60, c06_huge).threads(4),
            ],
        },
        Prop {
            id: "C07",
            rule: "random histories of insert, append and compact-append over up to four related \
                   keys against a map of sets, permuted and repeated appends, and two or three \
                   builders used in turns; non-trivial: a key touched at least twice, two histories \
                   of two operations",
            assumptions: ASSUME,
            families: vec![
                f("history", 72_000, 300_000, c07_history),
                f("reorder", 36_000, 150_000, c07_reorder),
                f("beside", 24_000, 150_000, c07_beside),
            ],
        },
        Prop {
            id: "C08",
            rule: "random key sets with and without bins, every single language, and stores of up \
                   to 1,500 keys, listed both ways and read back; non-trivial: at least two keys",
            assumptions: ASSUME,
            families: vec![
                Family::all("languages", 128, c08_languages),
                f("random", 40_000, 200_000, c08_random),
                f("many", 400, 5_000, c08_many),
            ],
        },
        Prop {
            id: "C09",
            rule: "random stores and mappings (permutations, injections, incomplete and colliding \
                   ones), compared with a store built under the final numbers, bins and later \
                   appends included; temporary numbers and mappings of up to 200,000; non-trivial: at least two keys, one of them renumbered",
            assumptions: ASSUME,
            families: vec![
                f("renumber", 72_000, 300_000, c09_renumber),
                f("many", 2_000, 40_000, c09_many),
            ],
        },
        Prop {
            id: "C10",
            rule: "random stores and phrase queries against the model, and every kind of query at \
                   the edges of the phrase range, and stores of up to 70,000 keys; non-trivial: some \
                   keys covered and some not, more than twenty found among many",
            assumptions: ASSUME,
            families: vec![
                Family::all("edges", 13 * 6, c10_edges),
                f("query", 150_000, 700_000, c10_query),
                f("many", 600, 8_000, c10_many),
            ],
        },
        Prop {
            id: "C11",
            rule: "one data set built with and without random ascending bins; every pair of \
                   boundaries queried in both, other queries, reads and listings compared; up to \
                   70,000 keys in up to 600 bins; non-trivial: two boundaries with results between \
                   them, more than twenty among many",
            assumptions: ASSUME,
            families: vec![f("bins", 60_000, 300_000, c11_bins), f("many", 400, 6_000, c11_many)],
        },
        Prop {
            id: "C12",
            rule: "random stores and boxes, dense grids cut by boxes around them, and lists of more \
                   than 65,535 coordinates, against a filter over the model and over the unboxed \
                   results; non-trivial: the box keeps some results",
            assumptions: ASSUME,
            families: vec![
                f("random", 100_000, 300_000, c12_random),
                f("dense", 60_000, 200_000, c12_dense),
                f("big", 48, 600, c12_big),
            ],
        },
        Prop {
            id: "C13",
            rule: "random stores, points and boxes; the set of results against the model and the \
                   plain query, the order of one key against the Z-order and merge rules; \
                   entries exactly on the radius, and around it at every zoom; non-trivial: at least \
                   three results, one on the radius in another language, ones in another language \
                   inside and outside the radius",
            assumptions: ASSUME,
            families: vec![
                f("random", 80_000, 300_000, c13_random),
                f("edge", 36_000, 200_000, c13_edge),
                f("zooms", 40_000, 400_000, c13_zooms),
                f("big", 48, 600, c13_big),
            ],
        },
        Prop {
            id: "C14",
            rule: "random stores of up to 20 keys, and of up to 70,000, uncapped and with six or more \
                   caps per query; \
                   non-trivial: results from at least two keys",
            assumptions: ASSUME,
            families: vec![f("stream", 80_000, 300_000, c14_stream), f("many", 600, 8_000, c14_many)],
        },
        Prop {
            id: "C15",
            rule: "entries at chosen distances of a point at every zoom against the formula and \
                   its consequences, plus a full table of zooms, radii, scores and a ladder of \
                   distances; non-trivial: entries inside and outside the radius",
            assumptions: ASSUME,
            families: vec![
                Family::all("table", 17 * 8, c15_table),
                f("formula", 200_000, 500_000, c15_formula),
            ],
        },
        Prop {
            id: "C25",
            rule: "random sets of open streams (queries, reads, listings) over up to three stores, \
                   advanced and abandoned in a random schedule, each compared with itself consumed \
                   alone, with released memory overwritten; non-trivial: at least two streams \
                   advanced",
            assumptions: ASSUME,
            families: vec![
                f("streams", 48_000, 200_000, c25_streams),
                f("threads", 7_200, 20_000, c25_threads),
            ],
        },
    ]
}
