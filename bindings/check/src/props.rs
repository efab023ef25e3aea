use crate::js::{self, ALL};
use crate::stacks::{self, Index, Pm, Shape};
use crate::world::*;
use carmen_core::gridstore::*;
use neon::vm::{self, Prop as JsProp, Raw};
use pbt::{check, check_eq, Ctx, Family, Prop, Src, R};
use serde_json::Value;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;

const B: &str = "GridStoreBuilder";
const G: &str = "GridStore";
const I: &str = "GridStoreKeyIterator";

pub fn ok(r: Result<Raw, js::Thrown>, what: &str) -> Result<Raw, String> {
    r.map_err(|e| format!("{} threw {}: {}", what, e.0, e.1))
}

pub fn undefined(r: Result<Raw, js::Thrown>, what: &str) -> R {
    let v = ok(r, what)?;
    check!(js::is_undefined(v), "{} returned {}", what, js::json(v));
    Ok(())
}

pub fn throws(r: Result<Raw, js::Thrown>, what: &str) -> R {
    match r {
        Ok(v) => Err(format!("{} did not throw but returned {}", what, js::json(v))),
        Err((kind, msg)) => {
            check!(kind == "TypeError" || kind == "Error", "{} threw a {}", what, kind);
            check!(!msg.is_empty(), "{} threw without a message", what);
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- values that are not right

const ENTRY: [&str; 6] = ["relev", "score", "x", "y", "id", "source_phrase_hash"];

/// One entry with something wrong, as a JavaScript value.
fn bad_entry(s: &mut Src, e: &GridEntry) -> Raw {
    if s.chance(1, 6) {
        return js::junk(s, "object array");
    }
    let field = *s.pick(&ENTRY);
    let good = |f: &str| match f {
        "relev" => e.relev,
        "score" => e.score as f64,
        "x" => e.x as f64,
        "y" => e.y as f64,
        "id" => e.id as f64,
        _ => e.source_phrase_hash as f64,
    };
    let max = match field {
        "x" | "y" => 65535.0,
        "id" => 4294967295.0,
        _ => 255.0,
    };
    let how = s.us(6);
    let mut props = vec![];
    for f in ENTRY.iter() {
        let v = if *f != field {
            JsProp::Value(vm::num(good(f)))
        } else {
            match how {
                0 => continue,
                1 => JsProp::Throws,
                2 if field != "relev" => JsProp::Value(vm::num(-1.0)),
                3 if field != "relev" => JsProp::Value(vm::num(max + 1.0)),
                4 if field != "relev" => JsProp::Value(vm::num(1.5)),
                _ => JsProp::Value(js::junk(s, "number")),
            }
        };
        props.push((f.to_string(), v));
    }
    vm::object_props(props)
}

/// Something that is not a list of entries.
fn bad_entries(s: &mut Src, list: &[GridEntry]) -> Raw {
    if list.is_empty() || s.chance(1, 4) {
        return js::junk(s, "array");
    }
    let at = s.us(list.len());
    let v = list.iter().enumerate().map(|(i, e)| if i == at { bad_entry(s, e) } else { js::entry(s, e) }).collect();
    vm::array(v)
}

fn bad_langs(s: &mut Src) -> JsProp {
    JsProp::Value(match s.us(5) {
        0 => return JsProp::Throws,
        1 => vm::array(vec![js::num(1), js::junk(s, "number")]),
        2 => vm::array(vec![js::junk(s, "number"), js::num(0)]),
        _ => js::junk(s, "array undefined null"),
    })
}

fn bad_key(s: &mut Src) -> Raw {
    match s.us(4) {
        0 => js::junk(s, "object array function"),
        1 => {
            let l = bad_langs(s);
            vm::object_props(vec![("phrase_id".into(), JsProp::Value(js::num(1))), ("lang_set".into(), l)])
        }
        2 => {
            let p = if s.chance(1, 4) { JsProp::Throws } else { JsProp::Value(js::junk(s, "number")) };
            vm::object_props(vec![("phrase_id".into(), p), ("lang_set".into(), JsProp::Value(js::nums(&[0u8])))])
        }
        _ => vm::object(vec![("lang_set", js::nums(&[0u8]))]),
    }
}

fn bad_coords(s: &mut Src) -> Raw {
    let good = js::nums(&[3u8, 4]);
    let bad = match s.us(6) {
        0 => js::junk(s, "array"),
        1 => js::nums(&[3u8]),
        2 => vm::array(vec![js::num(-1), js::num(2)]),
        3 => vm::array(vec![js::num(1), js::num(65536)]),
        4 => vm::array(vec![js::num(1.5), js::num(2)]),
        _ => return js::junk(s, "array"),
    };
    vm::array(if s.bool() { vec![good, bad] } else { vec![bad] })
}

/// Calls a builder's method with something wrong about the arguments: too few, or one of the wrong type.
fn bad_call(s: &mut Src, b: Raw) -> Result<String, String> {
    let k = GridKey { phrase_id: s.u(12) as u32, lang_set: lang_small(s) };
    let e = entries(s, &EntCfg::new(14), 2).list();
    let (name, mut args): (&str, Vec<Raw>) = match s.us(5) {
        m @ 0..=1 => {
            let (k, v) = match s.us(3) {
                0 => (bad_key(s), js::entries(s, &e)),
                1 => (js::key(s, &k), bad_entries(s, &e)),
                _ => (js::key(s, &k), js::entries(s, &e)),
            };
            (if m == 0 { "insert" } else { "append" }, vec![k, v])
        }
        2 => {
            let mut a = vec![js::key(s, &k), js::num(1), js::num(1), js::num(1), js::num(0), vm::array(vec![js::nums(&[3u8, 4])])];
            match s.us(8) {
                0 => a[0] = bad_key(s),
                5 => a[5] = bad_coords(s),
                6 | 7 => (),
                n => a[n] = js::junk(s, "number"),
            }
            ("compactAppend", a)
        }
        m => {
            let a = match s.us(3) {
                0 => js::nums(&[0u8, 1]),
                _ => js::junk(s, ""),
            };
            (if m == 3 { "renumber" } else { "loadBinBoundaries" }, vec![a])
        }
    };
    // what is right about all the arguments is made wrong by leaving some out
    let looks_right = match name {
        "insert" | "append" | "compactAppend" => s.chance(1, 3),
        _ => s.chance(1, 4),
    };
    if looks_right || args.is_empty() {
        let n = s.us(args.len().max(1));
        args.truncate(n);
    } else if name == "insert" || name == "append" || name == "compactAppend" {
        // may still be a valid call: then drop the last argument
        let shown: Vec<Value> = args.iter().map(|a| js::json(*a)).collect();
        if valid_args(name, &shown) {
            args.pop();
        }
    }
    let shown: Vec<Value> = args.iter().map(|a| js::json(*a)).collect();
    let text = format!("{}({})", name, shown.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(", "));
    throws(js::call(B, b, name, &args), &text)?;
    Ok(text)
}

fn valid_args(name: &str, a: &[Value]) -> bool {
    let uint = |v: &Value, max: i64| v.as_i64().map_or(false, |n| n >= 0 && n <= max);
    let key = |v: &Value| {
        v.get("phrase_id").map_or(false, |p| p.is_number())
            && match v.get("lang_set") {
                None => true,
                Some(l) => {
                    l.is_null() || l == "undefined" || l.as_array().map_or(false, |l| l.iter().all(|n| n.is_number()))
                }
            }
    };
    if name == "compactAppend" {
        return a.len() == 6
            && key(&a[0])
            && a[1..5].iter().all(|n| n.is_number())
            && a[5].as_array().map_or(false, |c| {
                c.iter().all(|p| p.as_array().map_or(false, |p| p.len() >= 2 && p[..2].iter().all(|n| uint(n, 65535))))
            });
    }
    a.len() == 2
        && key(&a[0])
        && a[1].as_array().map_or(false, |l| {
            l.iter().all(|e| {
                e.get("relev").map_or(false, |n| n.is_number())
                    && uint(&e["score"], 255)
                    && uint(&e["x"], 65535)
                    && uint(&e["y"], 65535)
                    && uint(&e["id"], 4294967295)
                    && uint(&e["source_phrase_hash"], 255)
            })
        })
}

// ---------------------------------------------------------------- C28: building and reading

fn read_entry(v: &Value) -> Result<GridEntry, String> {
    let o = v.as_object().ok_or_else(|| format!("an entry is {}", v))?;
    let names: BTreeSet<&str> = o.keys().map(|k| k.as_str()).collect();
    check_eq!(names, ENTRY.iter().copied().collect::<BTreeSet<_>>(), "properties of an entry");
    let n = |k: &str| o[k].as_f64().ok_or_else(|| format!("{} of an entry is {}", k, o[k]));
    Ok(GridEntry {
        relev: n("relev")?,
        score: n("score")? as u8,
        x: n("x")? as u16,
        y: n("y")? as u16,
        id: n("id")? as u32,
        source_phrase_hash: n("source_phrase_hash")? as u8,
    })
}

/// What `get` gives for a key, read back from JavaScript.
fn js_get(s: &mut Src, store: Raw, k: &GridKey) -> Result<Option<Vec<GridEntry>>, String> {
    let arg = js::key(s, k);
    let r = ok(js::call(G, store, "get", &[arg]), "get")?;
    if js::is_undefined(r) {
        return Ok(None);
    }
    match js::json(r) {
        Value::Array(v) => Ok(Some(v.iter().map(read_entry).collect::<Result<_, _>>()?)),
        v => Err(format!("get returned {}", v)),
    }
}

/// One step of a key iterator: `None` when it is done.
fn step(it: Raw) -> Result<Option<(u32, u128)>, String> {
    let v = js::json(ok(js::call(I, it, "next", &[]), "next")?);
    let o = v.as_object().ok_or_else(|| format!("next returned {}", v))?;
    match o.get("done") {
        Some(Value::Bool(true)) => Ok(None),
        Some(Value::Bool(false)) => {
            let k = o.get("value").ok_or("next gave no value")?;
            let p = k["phrase_id"].as_i64().ok_or_else(|| format!("key {}", k))?;
            let langs = k["lang_set"].as_array().ok_or_else(|| format!("key {}", k))?;
            let mut set = 0u128;
            let mut last = -1;
            for l in langs {
                let l = l.as_i64().filter(|l| *l >= 0 && *l < 128).ok_or_else(|| format!("language {} in {}", l, k))?;
                check!(l > last, "languages of {} are not ascending", k);
                last = l;
                set |= 1 << l;
            }
            check_eq!(k.as_object().map_or(0, |k| k.len()), 2, "properties of key {}", k);
            Ok(Some((p as u32, set)))
        }
        d => Err(format!("done is {:?}", d)),
    }
}

fn js_keys(store: Raw, limit: usize) -> Result<Vec<(u32, u128)>, String> {
    let it = ok(js::new(I, &[store]), "key iterator")?;
    let mut out = vec![];
    while let Some(k) = step(it)? {
        out.push(k);
        check!(out.len() <= limit, "more than {} keys", limit);
    }
    for _ in 0..2 {
        check!(step(it)?.is_none(), "the iterator starts again after its end");
    }
    Ok(out)
}

#[derive(Debug, Clone)]
enum Op {
    Insert(GridKey, Vec<GridEntry>),
    Append(GridKey, Vec<GridEntry>),
    Compact(GridKey, f64, u8, u32, u8, Vec<(u16, u16)>),
    Bins(Vec<u32>),
    Renumber(Vec<u32>),
    Bad,
}

/// The phrase ids of a history: those below 12, or any, some of them twelve that come up again and again.
fn phrase_id(s: &mut Src, wide: &[u32]) -> u32 {
    if wide.is_empty() {
        return s.u(12) as u32;
    }
    wide[s.us(wide.len())]
}

fn any_phrase(s: &mut Src) -> u32 {
    match s.us(5) {
        0 => s.u(300) as u32,
        1 => ((1u64 << s.ri(8, 32)) - 2 + s.u(4)).min(u32::MAX as u64) as u32,
        2 => u32::MAX - s.u(3) as u32,
        _ => s.any() as u32,
    }
}

fn op(s: &mut Src, wide: &[u32]) -> Op {
    let cfg = EntCfg::new(14);
    let k = GridKey {
        phrase_id: phrase_id(s, wide),
        lang_set: if s.chance(1, 3) { lang_set(s) } else { lang_small(s) },
    };
    match s.weighted(&[4, 4, 3, 1, 1, 3]) {
        0 => Op::Insert(k, entries1(s, &cfg, 4).list()),
        1 => Op::Append(k, entries1(s, &cfg, 4).list()),
        2 => {
            let e = entry(s, &cfg);
            let coords = s.list(1, 8, 3, |s, _| (tile(s, cfg.max()), tile(s, cfg.max())));
            Op::Compact(k, e.relev, e.score, e.id, e.source_phrase_hash, coords)
        }
        3 => {
            let mut v = s.list(0, 4, 2, |s, _| if wide.is_empty() { s.u(14) as u32 } else { phrase_id(s, wide) });
            v.sort();
            v.dedup();
            Op::Bins(v)
        }
        4 => {
            // a permutation of the phrases in use, into a wider range; sometimes too short
            let n = if s.chance(1, 6) { s.us(12) } else { 12 };
            let mut v: Vec<u32> = (0..n as u32).collect();
            for i in (1..n).rev() {
                v.swap(i, s.us(i + 1));
            }
            if s.chance(1, 3) {
                // no two alike
                let start = any_phrase(s);
                for p in v.iter_mut() {
                    *p = start.wrapping_add(p.wrapping_mul(0x0100_0101));
                }
            }
            Op::Renumber(v)
        }
        _ => Op::Bad,
    }
}

fn c28_history(s: &mut Src, c: &mut Ctx) -> R {
    vm::reset();
    let d = pbt::tmp::Dir::new();
    let e = pbt::tmp::Dir::new();
    let b = ok(js::new(B, &[js::dir(d.path())]), "new GridStoreBuilder")?;
    let mut core = GridStoreBuilder::new(e.path()).map_err(es("builder"))?;
    let wide: Vec<u32> = if s.chance(1, 3) { (0..s.ri(3, 12)).map(|_| any_phrase(s)).collect() } else { vec![] };
    c.label_if(!wide.is_empty(), "wide phrase ids");
    let ops = s.list(1, 24, 8, |s, _| op(s, &wide));
    c.input("operations", &ops);
    let mut kinds = 0u32;
    for o in &ops {
        let same = |js: Result<Raw, js::Thrown>, rust: Result<(), String>, what: &str| -> Result<bool, String> {
            match rust {
                Ok(()) => undefined(js, what).map(|_| true),
                Err(_) => throws(js, what).map(|_| false),
            }
        };
        kinds |= 1 << match o {
            Op::Insert(..) => 0,
            Op::Append(..) => 1,
            Op::Compact(..) => 2,
            Op::Bins(_) => 3,
            Op::Renumber(_) => 4,
            Op::Bad => 5,
        };
        let good = match o {
            Op::Insert(k, v) => {
                let a = [js::key(s, k), js::entries(s, v)];
                same(js::call(B, b, "insert", &a), core.insert(k, v.clone()).map_err(|e| e.to_string()), "insert")?
            }
            Op::Append(k, v) => {
                let a = [js::key(s, k), js::entries(s, v)];
                same(js::call(B, b, "append", &a), core.append(k, v.clone()).map_err(|e| e.to_string()), "append")?
            }
            Op::Compact(k, relev, score, id, hash, coords) => {
                let xy = vm::array(coords.iter().map(|p| js::nums(&[p.0, p.1])).collect());
                let a = [js::key(s, k), js::num(*relev), js::num(*score), js::num(*id), js::num(*hash), xy];
                core.compact_append(k, *relev, *score, *id, *hash, coords);
                same(js::call(B, b, "compactAppend", &a), Ok(()), "compactAppend")?
            }
            Op::Bins(v) => {
                let a = [vm::buffer(v.clone())];
                same(js::call(B, b, "loadBinBoundaries", &a), core.load_bin_boundaries(v.clone()).map_err(|e| e.to_string()), "loadBinBoundaries")?
            }
            Op::Renumber(v) => {
                let a = [vm::buffer(v.clone())];
                same(js::call(B, b, "renumber", &a), core.renumber(v).map_err(|e| e.to_string()), "renumber")?
            }
            Op::Bad => {
                bad_call(s, b)?;
                true
            }
        };
        if !good {
            // what a failed renumbering leaves behind is nobody's business
            c.label("renumbering refused");
            return Ok(());
        }
    }
    if s.chance(1, 8) {
        throws(js::new(G, &[js::dir(d.path())]), "reading before finish()")?;
    }
    core.finish().map_err(es("finish"))?;
    undefined(js::call(B, b, "finish", &[]), "finish")?;
    // nothing can be done to a finished builder, and nothing happens
    let k = GridKey { phrase_id: 1, lang_set: 1 };
    for _ in 0..s.us(4) {
        let v = [GridEntry { relev: 1.0, score: 1, x: 1, y: 1, id: 1, source_phrase_hash: 0 }];
        let (name, args) = match s.us(6) {
            0 => ("insert", vec![js::key(s, &k), js::entries(s, &v)]),
            1 => ("append", vec![js::key(s, &k), js::entries(s, &v)]),
            2 => (
                "compactAppend",
                vec![js::key(s, &k), js::num(1), js::num(1), js::num(1), js::num(0), vm::array(vec![js::nums(&[1u8, 1])])],
            ),
            3 => ("renumber", vec![vm::buffer((0..12).rev().collect())]),
            4 => ("loadBinBoundaries", vec![vm::buffer(vec![1, 2])]),
            _ => ("finish", vec![]),
        };
        throws(js::call(B, b, name, &args), &format!("{} after finish()", name))?;
        c.label("called after finish()");
    }
    let store = ok(js::new(G, &[js::dir(d.path())]), "new GridStore")?;
    let want = GridStore::new(e.path()).map_err(es("open"))?;
    let keys = keys_of(&want, 10_000)?;
    let got = js_keys(store, 10_000)?;
    check_eq!(got, keys, "keys");
    // the bins, and what the range queries that use them find
    let there = GridStore::new(d.path()).map_err(es("open what JavaScript built"))?;
    check_eq!(there.bin_boundaries, want.bin_boundaries, "bin boundaries");
    let mut ends: Vec<u32> = want.bin_boundaries.iter().copied().collect();
    ends.sort();
    for pair in ends.windows(2) {
        let key = MatchKey { match_phrase: MatchPhrase::Range { start: pair[0], end: pair[1] }, lang_set: u128::MAX };
        let find = |g: &GridStore| -> Result<Vec<MatchEntry>, String> {
            Ok(g.streaming_get_matching(&key, &MatchOpts { zoom: 6, ..MatchOpts::default() }, 100_000).map_err(es("query"))?.take(10_000).collect())
        };
        check_eq!(find(&there)?, find(&want)?, "results of {:?}", key);
    }
    for (p, l) in &keys {
        let k = GridKey { phrase_id: *p, lang_set: *l };
        let w = get(&want, &k, 100_000)?;
        let g = js_get(s, store, &k)?;
        check_eq!(g, w, "entries of {:?}", k);
    }
    for _ in 0..3 {
        let p = if wide.is_empty() { s.u(14) as u32 } else { phrase_id(s, &wide) };
        let k = GridKey { phrase_id: p, lang_set: lang_small(s) };
        check_eq!(js_get(s, store, &k)?, get(&want, &k, 100_000)?, "entries of {:?}", k);
    }
    if s.chance(1, 2) {
        let (text, r) = match s.us(3) {
            0 => ("get()", js::call(G, store, "get", &[])),
            1 => {
                let k = js::junk(s, "object array function");
                ("get of something else than a key", js::call(G, store, "get", &[k]))
            }
            _ => {
                let k = bad_key(s);
                ("get of a bad key", js::call(G, store, "get", &[k]))
            }
        };
        throws(r, text)?;
    }
    c.nontrivial_if(kinds.count_ones() >= 3 && keys.len() >= 3);
    c.label_if(kinds >> 4 & 1 == 1, "renumbered");
    c.label_if(kinds >> 5 & 1 == 1, "with calls that throw");
    Ok(())
}

/// Several iterators over several stores, some of the stores no longer referenced.
fn c28_iterators(s: &mut Src, c: &mut Ctx) -> R {
    vm::reset();
    let n = s.ri(1, 2);
    let mut stores = vec![];
    let mut dirs = vec![];
    for _ in 0..n {
        let phrases = if s.bool() { Phrases::Wide } else { Phrases::Dense };
        let it = items(s, &EntCfg::new(14), phrases, 0, 24, 8, 2);
        c.input("items", &it);
        let dir = build(&it, &[])?;
        let g = ok(js::new(G, &[js::dir(dir.path())]), "new GridStore")?;
        let keys: Vec<(u32, u128)> = keys_of(&GridStore::new(dir.path()).map_err(es("open"))?, 10_000)?;
        let want: BTreeSet<(u32, u128)> = content(&it).keys().copied().collect();
        check_eq!(keys.iter().copied().collect::<BTreeSet<_>>(), want, "keys of the store");
        stores.push((g, keys, true));
        dirs.push(Some(dir));
    }
    let mut its: Vec<(Raw, usize, usize)> = vec![];
    let mut steps = vec![];
    for _ in 0..s.ri(4, 80) {
        match s.weighted(&[8, 2, 1]) {
            0 if !its.is_empty() => {
                let i = s.us(its.len());
                let (it, g, at) = its[i];
                let want = stores[g].1.get(at).copied();
                steps.push(format!("next {}", i));
                check_eq!(step(it)?, want, "step {} of an iterator, {}", at, if stores[g].2 { "store alive" } else { "store collected" });
                its[i].2 += 1;
            }
            2 => {
                let g = s.us(n);
                if stores[g].2 && its.iter().any(|i| i.1 == g) {
                    stores[g].2 = false;
                    js::collect(stores[g].0);
                    steps.push(format!("collect {}", g));
                    c.label("store collected while iterated");
                }
            }
            _ => {
                let g = s.us(n);
                if stores[g].2 {
                    its.push((ok(js::new(I, &[stores[g].0]), "key iterator")?, g, 0));
                    steps.push(format!("iterate {}", g));
                }
            }
        }
    }
    c.input("steps", &steps);
    // what is left of each
    for (it, g, at) in &its {
        let mut at = *at;
        while at <= stores[*g].1.len() + 1 {
            check_eq!(step(*it)?, stores[*g].1.get(at).copied(), "rest of an iterator");
            at += 1;
        }
    }
    let bad = match s.us(3) {
        0 => js::new(I, &[]),
        1 => {
            let j = js::junk(s, "");
            js::new(I, &[j])
        }
        _ => {
            let b = pbt::tmp::Dir::new();
            let b = ok(js::new(B, &[js::dir(b.path())]), "new GridStoreBuilder")?;
            js::new(I, &[b])
        }
    };
    throws(bad, "a key iterator over something else")?;
    c.nontrivial_if(its.len() >= 2 && stores.iter().any(|g| g.1.len() > 3));
    vm::reset();
    Ok(())
}

/// Constructors: paths and options, right and wrong.
fn c28_constructors(s: &mut Src, c: &mut Ctx) -> R {
    vm::reset();
    let key = GridKey { phrase_id: 1, lang_set: 1 };
    let e = GridEntry { relev: 1.0, score: 1, x: 3, y: 3, id: 9, source_phrase_hash: 0 };
    let dir = build(&[(key.clone(), Entries::Listed(vec![e.clone()]))], &[])?;
    let what = s.us(6);
    c.input("what", &what);
    match what {
        0 => throws(js::new(B, &[]), "GridStoreBuilder()")?,
        1 => {
            let j = js::junk(s, "string");
            throws(js::new(B, &[j]), "GridStoreBuilder of no string")?;
            let j = js::junk(s, "string");
            throws(js::new(G, &[j]), "GridStore of no string")?;
            throws(js::new(G, &[]), "GridStore()")?;
        }
        2 => {
            // a file in the place of the directory, and nothing at all
            let f = dir.path().join("CURRENT");
            let f = if f.exists() { f } else { std::fs::read_dir(dir.path()).unwrap().next().unwrap().unwrap().path() };
            throws(js::new(G, &[js::dir(&f)]), "GridStore on a file")?;
            // the builder writes when it finishes
            if let Ok(b) = js::new(B, &[js::dir(&f)]) {
                throws(js::call(B, b, "finish", &[]), "finish() of a GridStoreBuilder on a file")?;
            }
            throws(js::new(G, &[js::dir(&dir.path().join("none"))]), "GridStore on nothing")?;
        }
        3 => {
            let b = pbt::tmp::Dir::new();
            ok(js::new(B, &[js::dir(b.path())]), "new GridStoreBuilder")?;
            throws(js::new(G, &[js::dir(b.path())]), "GridStore on an unfinished store")?;
        }
        _ => {
            let zoom = s.us(17) as u16;
            let boxes = s.list(0, 3, 1, |s, _| {
                let max = max_tile(zoom);
                any_box(s, max, None)
            });
            c.input("boxes", &boxes);
            let bboxes = vm::array(boxes.iter().map(|b| js::nums(&b[..])).collect());
            let radius = *s.pick(&[200.0, 0.5, 40.0]);
            let mut props = vec![
                ("zoom", js::num(zoom)),
                ("type_id", js::num(s.us(65536) as u16)),
                ("coalesce_radius", js::num(radius)),
                ("bboxes", bboxes),
                ("max_score", js::num(*s.pick(&[1.0, 0.5, 3000.0]))),
            ];
            // more than is asked for does no harm
            if s.bool() {
                props.push(("idx", js::num(1)));
                props.push(("non_overlapping_indexes", vm::array(vec![])));
            }
            if what == 4 {
                let g = ok(js::new(G, &[js::dir(dir.path()), vm::object(props)]), "GridStore with options")?;
                check_eq!(js_get(s, g, &key)?, Some(vec![e]), "entries under options");
                c.label("options accepted");
            } else {
                let at = s.us(5);
                let name = props[at].0;
                let how = s.us(3);
                if how == 0 {
                    props.remove(at);
                } else if how == 1 && name != "coalesce_radius" && name != "max_score" {
                    props[at].1 = match name {
                        "bboxes" => {
                            let bad = match s.us(4) {
                                0 => js::nums(&[1u8, 2, 3]),
                                1 => vm::array(vec![js::num(0), js::num(0), js::num(-1), js::num(1)]),
                                2 => vm::array(vec![js::num(0), js::num(0), js::num(65536), js::num(1)]),
                                _ => js::junk(s, "array"),
                            };
                            vm::array(vec![bad])
                        }
                        _ => js::num(*s.pick(&[-1.0, 65536.0, 1.5])),
                    };
                } else {
                    props[at].1 = if name == "bboxes" { js::junk(s, "array") } else { js::junk(s, "number") };
                }
                let shown = js::json(vm::object(props.clone()));
                throws(js::new(G, &[js::dir(dir.path()), vm::object(props)]), &format!("GridStore with {}", shown))?;
                c.label("options refused");
            }
        }
    }
    c.nontrivial_if(what >= 2);
    Ok(())
}

// ---------------------------------------------------------------- C29: coalescing

struct World {
    ixs: Vec<Index>,
    stores: Vec<Raw>,
    places: Vec<(u16, u16)>,
}

fn world(s: &mut Src, c: &mut Ctx, sh: &Shape) -> Result<World, String> {
    let n = s.ri(1, sh.places);
    let pl = stacks::places(s, n);
    let ixs = stacks::indexes(s, sh, &pl)?;
    c.input("indexes", &stacks::describe(&ixs));
    let mut stores = vec![];
    for ix in &ixs {
        // the same files opened with the same options, through JavaScript
        let o = object_opts(ix);
        stores.push(ok(js::new(G, &[js::dir(ix.store._dir.path()), o]), "GridStore with options")?);
    }
    Ok(World { ixs, stores, places: pl })
}

fn object_opts(ix: &Index) -> Raw {
    let gs: &GridStore = &ix.store.gs;
    vm::object(vec![
        ("zoom", js::num(gs.zoom)),
        ("type_id", js::num(gs.type_id)),
        ("coalesce_radius", js::num(gs.coalesce_radius)),
        ("bboxes", vm::array(gs.bboxes.iter().map(|b| js::nums(&b[..])).collect())),
        ("max_score", js::num(gs.max_score)),
    ])
}

/// A phrase match and how JavaScript writes it.
fn phrasematch(s: &mut Src, w: &World, i: usize, mask: u32, weight: f64, id: u32) -> (Pm, Raw) {
    let ix = &w.ixs[i];
    let key = stacks::small_key(s, 4);
    let phrase: &str = *s.pick(&["a", "main st", "é", "", "東京", "st"]);
    let nearby = s.us(5);
    let m = MatchKeyWithId { key: key.clone(), nearby_only: nearby == 4, id, phrase_length: phrase.len() };
    let p = stacks::pm(ix, mask, weight, vec![m]);
    let phrase_obj = match key.match_phrase {
        MatchPhrase::Exact(n) => vm::object(vec![("Exact", js::num(n))]),
        MatchPhrase::Range { start, end } => {
            let r = js::object(s, vec![("start", Some(js::num(start))), ("end", Some(js::num(end)))]);
            vm::object(vec![("Range", r)])
        }
    };
    let l = js::langs(s, key.lang_set);
    let match_key = js::object(s, vec![("match_phrase", Some(phrase_obj)), ("lang_set", l)]);
    let non = js::nums(&ix.incompatible);
    let nearby = match nearby {
        4 => Some(vm::boolean(true)),
        3 => Some(vm::boolean(false)),
        2 => Some(vm::undefined()),
        _ => None,
    };
    let o = js::object(
        s,
        vec![
            ("store", Some(w.stores[i])),
            ("non_overlapping_indexes", Some(non)),
            ("weight", Some(js::num(weight))),
            ("match_key", Some(match_key)),
            ("idx", Some(js::num(ix.idx))),
            ("zoom", Some(js::num(ix.zoom))),
            ("mask", Some(js::num(mask))),
            ("id", Some(js::num(id))),
            ("phrase", Some(js::s(phrase))),
            ("nearby_only", nearby),
        ],
    );
    (p, o)
}

fn options(s: &mut Src, o: &MatchOpts) -> Raw {
    let empty = |s: &mut Src| match s.us(3) {
        0 => None,
        1 => Some(vm::undefined()),
        _ => Some(vm::null()),
    };
    let bbox = match &o.bbox {
        Some(b) => Some(js::nums(&b[..])),
        None => empty(s),
    };
    let proximity = match &o.proximity {
        Some(p) => Some(js::nums(&p[..])),
        None => empty(s),
    };
    js::object(s, vec![("zoom", Some(js::num(o.zoom))), ("bbox", bbox), ("proximity", proximity)])
}

type Calls = Rc<RefCell<Vec<Vec<Raw>>>>;

fn callback() -> (Raw, Calls) {
    let calls: Calls = Rc::new(RefCell::new(vec![]));
    let c = calls.clone();
    let f = vm::function(move |args| {
        c.borrow_mut().push(args.to_vec());
        Ok(vm::undefined())
    });
    (f, calls)
}

const CONTEXT: [&str; 3] = ["mask", "relev", "entries"];
const MEMBER: [&str; 8] = ["grid_entry", "matches_language", "idx", "tmp_id", "mask", "distance", "scoredist", "phrasematch_id"];

/// The one call of a callback against what the engine says.
fn delivered(calls: &Calls, want: &Result<Vec<CoalesceContext>, String>, what: &str) -> R {
    let calls = calls.borrow();
    check!(calls.len() == 1, "the callback of {} was called {} times", what, calls.len());
    let (err, res) = (js::json(calls[0][0]), js::json(calls[0][1]));
    match want {
        Err(_) => {
            check!(!err.is_null() && err != "undefined", "{} failed but its callback got {} and no error", what, res);
            Ok(())
        }
        Ok(want) => {
            check!(err.is_null(), "the callback of {} got the error {}", what, err);
            let got = res.as_array().ok_or_else(|| format!("{} gave {}", what, res))?;
            let mut back = vec![];
            for g in got {
                let names = |v: &Value| -> BTreeSet<String> { v.as_object().map_or(BTreeSet::new(), |o| o.keys().cloned().collect()) };
                let set = |n: &[&str]| -> BTreeSet<String> { n.iter().map(|s| s.to_string()).collect() };
                check_eq!(names(g), set(&CONTEXT), "properties of a context");
                for e in g["entries"].as_array().ok_or("entries is no array")? {
                    check_eq!(names(e), set(&MEMBER), "properties of an entry of a context");
                    read_entry(&e["grid_entry"])?;
                }
                let ctx: CoalesceContext = serde_json::from_value(g.clone()).map_err(|e| format!("{} gave {}: {}", what, g, e))?;
                back.push(ctx);
            }
            check_eq!(stacks::canon(&back), stacks::canon(want), "contexts of {}", what);
            check_eq!(stacks::ranks(&back), stacks::ranks(want), "order of the contexts of {}", what);
            Ok(())
        }
    }
}

struct Request {
    name: &'static str,
    want: Result<Vec<CoalesceContext>, String>,
    calls: Calls,
}

/// Schedules one request; its outcome is to be compared after the event loop has run.
fn schedule(s: &mut Src, c: &mut Ctx, w: &World) -> Result<Option<Request>, String> {
    let n = w.ixs.len();
    let stack = s.bool();
    let mut pms: Vec<Pm> = vec![];
    let mut objs = vec![];
    if stack {
        for j in 0..s.ri(0, 5) {
            let i = s.us(n);
            let mask = stacks::mask4(s);
            let weight = *s.pick(&stacks::WEIGHTS[..4]);
            let (p, o) = phrasematch(s, w, i, mask, weight, 100 + j as u32);
            pms.push(p);
            objs.push(o);
        }
    } else {
        // a stack as the caller would have made it: each index once, disjoint masks
        let k = s.ri(1, n.min(3));
        for i in 0..k {
            let (p, o) = phrasematch(s, w, i, 1 << i, 1.0 / k as f64, i as u32);
            pms.push(p);
            objs.push(o);
        }
    }
    let zoom = if stack { w.ixs[s.us(n)].zoom } else { pms.iter().map(|p| p.store.zoom).max().unwrap() };
    let o = stacks::request(s, &w.places, &[zoom]);
    c.input("phrase matches", &stacks::show(&pms));
    c.input("options", &o);
    let (f, calls) = callback();
    let opts = options(s, &o);
    let name = if stack { "stackAndCoalesce" } else { "coalesce" };
    let args = [vm::array(objs), opts, f];
    let want = if stack { stack_and_coalesce(&pms, &o) } else { coalesce(pms.clone(), &o) }.map_err(|e| e.to_string());
    undefined(js::function(name, &args), name)?;
    check!(calls.borrow().is_empty(), "{} called back before it returned", name);
    if s.chance(1, 4) {
        undefined(js::function("stackable", &args[..1]), "stackable")?;
    }
    c.label(name);
    Ok(Some(Request { name, want, calls }))
}

fn c29_requests(s: &mut Src, c: &mut Ctx) -> R {
    vm::reset();
    let sh = Shape { incompatible: s.bool(), distinct_types: true, ..Shape::small() };
    let w = world(s, c, &sh)?;
    let mut rs = vec![];
    for _ in 0..s.ri(1, 4) {
        rs.extend(schedule(s, c, &w)?);
    }
    // the tasks keep the stores they need
    if s.chance(1, 3) {
        for g in &w.stores {
            js::collect(*g);
        }
        c.label("stores collected while tasks run");
    }
    vm::run_event_loop();
    let mut some = 0;
    for r in &rs {
        delivered(&r.calls, &r.want, r.name)?;
        if r.want.as_ref().map_or(false, |w| !w.is_empty()) {
            some += 1;
        }
    }
    c.nontrivial_if(some > 0);
    c.label_if(rs.len() > 1 && some > 1, "several at once");
    vm::reset();
    Ok(())
}

const REQUIRED: [&str; 8] = ["store", "non_overlapping_indexes", "weight", "match_key", "idx", "mask", "id", "phrase"];

/// Requests with something wrong throw, and nothing is scheduled.
fn c29_refused(s: &mut Src, c: &mut Ctx) -> R {
    vm::reset();
    let sh = Shape { indexes: (1, 2), entries: 2, ..Shape::small() };
    let w = world(s, c, &sh)?;
    let k = w.ixs.len();
    let mut objs: Vec<Raw> = (0..k).map(|i| phrasematch(s, &w, i, 1 << i, 1.0 / k as f64, i as u32).1).collect();
    let o = stacks::request(s, &w.places, &[w.ixs[0].zoom]);
    let (f, calls) = callback();
    let mut opts = options(s, &o);
    let name = *s.pick(&["coalesce", "stackAndCoalesce", "stackable"]);
    let how = if name == "stackable" { s.us(7) } else { s.us(10) };
    c.input("function", &(name, how));
    let mut args = None;
    let at = s.us(k);
    match how {
        0 => objs[at] = js::junk(s, "object array function"),
        1 => {
            let f = *s.pick(&REQUIRED);
            vm::with(objs[at], |o| {
                if let vm::Slot::Object(p) = o {
                    p.retain(|p| p.0 != f)
                }
            });
        }
        2 => {
            let f = *s.pick(&REQUIRED);
            vm::with(objs[at], |o| {
                if let vm::Slot::Object(p) = o {
                    p.iter_mut().find(|p| p.0 == f).unwrap().1 = JsProp::Throws
                }
            });
        }
        3 => {
            let f = *s.pick(&["store", "non_overlapping_indexes", "weight", "match_key", "idx", "mask", "id", "phrase", "nearby_only"]);
            let v = match f {
                "store" => js::junk(s, ""),
                "non_overlapping_indexes" => match s.us(4) {
                    0 => vm::array(vec![js::num(-1)]),
                    1 => vm::array(vec![js::num(1), js::junk(s, "number")]),
                    2 => vm::array(vec![js::num(0.5)]),
                    _ => js::junk(s, "array"),
                },
                "match_key" => match s.us(3) {
                    0 => js::junk(s, "object array function"),
                    1 => vm::object(vec![("lang_set", js::nums(&[1u8]))]),
                    _ => vm::object(vec![
                        (
                            "match_phrase",
                            match s.us(7) {
                                0 => js::junk(s, "object array function string"),
                                1 => js::s("Exact"),
                                2 => vm::object(vec![("Exact", js::num(-1))]),
                                3 => vm::object(vec![("Range", vm::object(vec![("start", js::num(1))]))]),
                                4 => vm::object(vec![]),
                                5 => vm::object(vec![("Exactly", js::num(1))]),
                                _ => vm::object(vec![("Exact", js::num(1)), ("Range", js::num(1))]),
                            },
                        ),
                        ("lang_set", js::nums(&[1u8])),
                    ]),
                },
                "phrase" => js::junk(s, "string"),
                "nearby_only" => js::junk(s, "boolean undefined"),
                "weight" => js::junk(s, "number"),
                "idx" if s.bool() => js::num(*s.pick(&[-1.0, 65536.0, 0.5])),
                _ if s.bool() => js::num(*s.pick(&[-1.0, 4294967296.0, 0.5])),
                _ => js::junk(s, "number"),
            };
            vm::set_prop(objs[at], f, v);
        }
        4 => args = Some(vec![js::junk(s, "array"), opts, f]),
        5 => args = Some(vec![]),
        6 => {
            let l = bad_langs(s);
            let m = vm::object_props(vec![
                ("match_phrase".into(), JsProp::Value(vm::object(vec![("Exact", js::num(1))]))),
                ("lang_set".into(), l),
            ]);
            vm::set_prop(objs[at], "match_key", m);
        }
        7 => {
            opts = match s.us(6) {
                0 => vm::object(vec![]),
                1 => js::junk(s, "object function array"),
                2 => vm::object(vec![("zoom", js::num(-1))]),
                3 => vm::object(vec![("zoom", js::num(6)), ("proximity", js::nums(&[1u8]))]),
                4 => vm::object(vec![("zoom", js::num(6)), ("bbox", js::nums(&[1u8, 2, 3]))]),
                _ => vm::object(vec![("zoom", js::num(6)), ("bbox", js::junk(s, "array undefined null"))]),
            }
        }
        8 => {
            let j = js::junk(s, "function");
            args = Some(vec![vm::array(objs.clone()), opts, j])
        }
        _ => {
            let mut a = vec![vm::array(objs.clone()), opts, f];
            a.truncate(s.us(3));
            args = Some(a)
        }
    }
    let args = args.unwrap_or_else(|| vec![vm::array(objs), opts, f]);
    let shown: Vec<String> = args.iter().map(|a| js::json(*a).to_string()).collect();
    c.input("arguments", &shown);
    throws(js::function(name, &args), &format!("{}({})", name, shown.join(", ")))?;
    vm::run_event_loop();
    check!(calls.borrow().is_empty(), "{} threw and called back", name);
    // and the stores are none the worse for it
    let (p, o2) = phrasematch(s, &w, 0, 1, 1.0, 0);
    let (f, calls) = callback();
    let want = coalesce(vec![p], &o).map_err(|e| e.to_string());
    let a = [vm::array(vec![o2]), options(s, &o), f];
    undefined(js::function("coalesce", &a), "coalesce")?;
    vm::run_event_loop();
    delivered(&calls, &want, "coalesce")?;
    c.nontrivial_if(how < 5);
    vm::reset();
    Ok(())
}

pub const ASSUME: &[&str] = &[
    "a stand-in for neon 0.7 and neon-serde over a model of JavaScript values takes the place of V8: what it \
     does follows their documentation; the bindings' own code is compiled as it is",
    "an in-memory model of RocksDB with its documented ordering, visibility and error behaviour",
    "fuzzy-phrase is replaced by a recorder",
];

#[allow(unused)]
type Unused = (BTreeMap<u8, u8>, Arc<u8>, [u128; (ALL == 0) as usize]);

pub fn all() -> Vec<Prop> {
    let f = Family::new;
    vec![
        Prop {
            id: "C28",
            rule: "random histories of builder calls from JavaScript, right and wrong ones, against the same calls \
                   on the engine's own builder, read back key by key; key iterators stepped in any order while \
                   their stores are collected; constructors with right and wrong paths and options. Non-trivial: \
                   a history of three kinds of calls with three keys, two iterators over a store of four keys, \
                   a constructor given a path or options that matter; index.js run by node over a stand-in addon, \
                   non-trivial when iterators are stepped alternately",
            assumptions: ASSUME,
            families: vec![
                f("history", 30_000, 600_000, c28_history),
                f("iterators", 40_000, 300_000, c28_iterators),
                f("constructors", 40_000, 200_000, c28_constructors),
                f("index_js", 20_000, 200_000, crate::node::c28_index_js),
            ],
        },
        Prop {
            id: "C29",
            rule: "one to four requests from JavaScript scheduled together over one to four indexes against the \
                   engine called directly with the same requests; requests with one thing wrong. Non-trivial: a \
                   request with results, a phrase match that is refused",
            assumptions: ASSUME,
            families: vec![
                f("requests", 40_000, 400_000, c29_requests),
                f("refused", 40_000, 200_000, c29_refused),
            ],
        },
    ]
}
