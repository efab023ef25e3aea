use crate::stacks::*;
use crate::world::*;
use carmen_core::gridstore::*;
use pbt::{check, check_eq, Ctx, Family, Prop, Src, R};
use serde::Deserialize;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, OnceLock};

/// The index that stands for all others where only the matches count.
const STAND_IN: &str = "aa-country-both_wvus-fa5c865008-e06f993377";

/// What the tools keep and download lies in the scratch directory of this process; gives the directory
/// that stands for the remote store of files.
pub fn scratch() -> &'static Path {
    static AT: OnceLock<PathBuf> = OnceLock::new();
    AT.get_or_init(|| {
        let at = match std::env::var_os("PBT_TMP") {
            Some(p) => PathBuf::from(p).join(format!("tools-{}", std::process::id())),
            None => pbt::tmp::new_base(),
        };
        let (tmp, remote) = (at.join("tmp"), at.join("remote"));
        fs::create_dir_all(&tmp).expect("scratch directory");
        fs::create_dir_all(&remote).expect("scratch directory");
        std::env::set_var("TMPDIR", &tmp);
        std::env::set_var("STUB_S3", &remote);
        fs::write(remote.join(format!("{}.gridstore.dat.lz4", STAND_IN)), "").expect("stand-in");
        fs::write(remote.join(format!("{}.gridstore.splits.lz4", STAND_IN)), "[]").expect("stand-in");
        // while there is one thread; what goes wrong goes wrong again in a case
        let _ = std::panic::catch_unwind(|| test_utils::ensure_store(&format!("{}.gridstore.dat.lz4", STAND_IN)));
        remote
    })
}

/// What a line says, read without the library.
#[derive(Deserialize)]
struct Line {
    grid_key: LineKey,
    entries: Vec<LineEntry>,
}
#[derive(Deserialize)]
struct LineKey {
    phrase_id: u32,
    lang_set: u128,
}
#[derive(Deserialize)]
struct LineEntry {
    relev: f64,
    score: u8,
    x: u16,
    y: u16,
    id: u32,
    source_phrase_hash: u8,
}

fn line_of(k: &(u32, u128), e: &[GridEntry]) -> String {
    let entries: Vec<String> = e
        .iter()
        .map(|e| {
            format!(
                "{{\"relev\":{:?},\"score\":{},\"x\":{},\"y\":{},\"id\":{},\"source_phrase_hash\":{}}}",
                e.relev, e.score, e.x, e.y, e.id, e.source_phrase_hash
            )
        })
        .collect();
    format!("{{\"grid_key\":{{\"phrase_id\":{},\"lang_set\":{}}},\"entries\":[{}]}}", k.0, k.1, entries.join(","))
}

fn read(p: &Path) -> Result<String, String> {
    fs::read_to_string(p).map_err(|e| format!("{}: {}", p.display(), e))
}

/// The text holds this content, a line per key, in the order of the store.
fn lines_are(text: &str, gs: &GridStore, want: &Content) -> R {
    check!(text.is_empty() || text.ends_with('\n'), "the last line is not ended");
    let mut got: Vec<((u32, u128), Vec<GridEntry>)> = vec![];
    for (i, l) in text.lines().enumerate() {
        let l: Line = serde_json::from_str(l).map_err(|e| format!("line {}: {}: {}", i, e, l))?;
        let entries = l
            .entries
            .into_iter()
            .map(|e| GridEntry {
                relev: e.relev,
                score: e.score,
                x: e.x,
                y: e.y,
                id: e.id,
                source_phrase_hash: e.source_phrase_hash,
            })
            .collect();
        got.push(((l.grid_key.phrase_id, l.grid_key.lang_set), entries));
    }
    check_eq!(&got, &dump(gs, want.len() + 3)?, "lines written");
    check_eq!(
        got.iter().map(|l| l.0).collect::<BTreeSet<_>>(),
        want.keys().cloned().collect::<BTreeSet<_>>(),
        "keys written"
    );
    for (k, e) in &got {
        same_entries(e, &want[k], &format!("line of {:?}", k))?;
    }
    Ok(())
}

type Found = BTreeMap<(Ent, bool), usize>;

fn found(gs: &GridStore, k: &MatchKey, o: &MatchOpts) -> Result<Found, String> {
    let mut m = Found::new();
    for r in query(gs, k, o, usize::MAX, 100_000)? {
        *m.entry((base(&r)?.0, r.matches_language)).or_default() += 1;
    }
    Ok(m)
}

struct Case {
    items: Items,
    model: Content,
    bins: Vec<u32>,
    dir: pbt::tmp::Dir,
    queries: Vec<MatchKey>,
}

fn case(s: &mut Src, c: &mut Ctx, wide: bool) -> Result<Case, String> {
    let p = if s.bool() { Phrases::Dense } else { Phrases::Wide };
    let items = items(s, &EntCfg::new(16), p, 0, if wide { 40 } else { 6 }, if wide { 10 } else { 3 }, 5);
    let keys: Vec<u32> = items.iter().map(|i| i.0.phrase_id).collect();
    let mut bins: Vec<u32> = if s.bool() {
        s.list(0, 12, 3, |s, _| if !keys.is_empty() && s.bool() { *s.pick(&keys) } else { s.num(300) as u32 })
    } else {
        vec![]
    };
    bins.sort();
    bins.dedup();
    c.input("items", &items);
    c.input("bins", &bins);
    let mut ends = bins.clone();
    ends.extend([0, u32::MAX]);
    let queries: Vec<MatchKey> = (0..3)
        .map(|_| {
            let match_phrase = if s.bool() {
                let (a, b) = (*s.pick(&ends), *s.pick(&ends));
                MatchPhrase::Range { start: a.min(b), end: a.max(b) }
            } else {
                match_phrase(s, &keys)
            };
            MatchKey { match_phrase, lang_set: lang_small(s) }
        })
        .collect();
    c.input("queries", &queries);
    let dir = build(&items, &bins)?;
    c.nontrivial_if(items.len() > 1);
    c.label_if(!bins.is_empty(), "bins");
    Ok(Case { model: content(&items), items, bins, dir, queries })
}

fn opened(p: &Path) -> Result<GridStore, String> {
    GridStore::new_with_options(p, 16, 0, 200.0, global_bbox_for_zoom(16), 1.0)
        .map_err(|e| format!("open {}: {}", p.display(), e))
}

/// The store there has the content and the bins of the case, and finds what the first one does.
fn same_store(a: &GridStore, at: &Path, k: &Case, what: &str) -> R {
    let b = opened(at)?;
    same_content(&b, &k.model, what)?;
    check_eq!(&b.bin_boundaries, &k.bins.iter().cloned().collect::<HashSet<u32>>(), "bin boundaries of {}", what);
    let o = MatchOpts { bbox: None, proximity: None, zoom: 16 };
    for q in &k.queries {
        check_eq!(found(&b, q, &o)?, found(a, q, &o)?, "results of {:?} from {}", q, what);
    }
    Ok(())
}

fn splits_are(text: &str, bins: &[u32]) -> R {
    let got: Vec<u32> = serde_json::from_str(text).map_err(|e| format!("boundaries: {}: {}", e, text))?;
    let want: BTreeSet<u32> = bins.iter().cloned().collect();
    check_eq!(got, want.into_iter().collect::<Vec<_>>(), "boundaries written");
    Ok(())
}

/// Writes the store of the case and reads it back, by `dump` and `load`.
fn round(
    s: &mut Src,
    k: &Case,
    dump_to: &dyn Fn(&Path, &Path) -> R,
    load_from: &dyn Fn(&Path, &Path, &Path) -> R,
) -> R {
    let out = pbt::tmp::Dir::new();
    let (name, splits) = *s.pick(&[
        ("a.gridstore.dat", "a.gridstore.splits"),
        ("a", "a.gridstore.splits"),
        ("b-both.x.gridstore.dat", "b-both.x.gridstore.splits"),
        ("a.json", "a.json.gridstore.splits"),
    ]);
    let (json, splits) = (out.path().join(name), out.path().join(splits));
    if s.chance(1, 4) {
        // what lies there is replaced, however long it is
        fs::write(&json, vec![b'x'; 100_000]).map_err(es("write"))?;
        fs::write(&splits, vec![b'1'; 10_000]).map_err(es("write"))?;
    }
    let first = opened(k.dir.path())?;
    dump_to(k.dir.path(), &json)?;
    let text = read(&json)?;
    lines_are(&text, &first, &k.model)?;
    let told = read(&splits)?;
    splits_are(&told, &k.bins)?;
    same_content(&first, &k.model, "the store written out")?;

    // back as written
    let second = out.path().join("second");
    load_from(&json, &splits, &second)?;
    same_store(&first, &second, k, "the store read back")?;
    let again = out.path().join("again.gridstore.dat");
    dump_to(&second, &again)?;
    check!(read(&again)? == text, "the store read back is written otherwise");
    check!(read(&out.path().join("again.gridstore.splits"))? == told, "its boundaries are written otherwise");

    // lines of another hand: in any order, with empty ones, entries in any order
    let mut lines: Vec<String> = k
        .items
        .iter()
        .map(|(key, e)| {
            let mut l = e.list();
            shuffle(s, &mut l);
            line_of(&(key.phrase_id, key.lang_set), &l)
        })
        .collect();
    shuffle(s, &mut lines);
    for _ in 0..s.len(0, 3, 1) {
        let at = s.us(lines.len() + 1);
        lines.insert(at, String::new());
    }
    let mut t = lines.join(if s.bool() { "\n" } else { "\r\n" });
    if s.bool() {
        t.push('\n');
    }
    let json = out.path().join("by hand");
    fs::write(&json, t).map_err(es("write"))?;
    let splits = out.path().join("boundaries by hand");
    fs::write(&splits, format!(" {:?}\n", k.bins)).map_err(es("write"))?;
    let third = out.path().join("third");
    load_from(&json, &splits, &third)?;
    same_store(&first, &third, k, "the store read from lines by hand")?;
    Ok(())
}

fn shuffle<T>(s: &mut Src, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = i - s.us(i + 1);
        v.swap(i, j);
    }
}

fn text(p: &Path) -> &str {
    p.to_str().expect("scratch paths are text")
}

fn c34_dump(s: &mut Src, c: &mut Ctx) -> R {
    scratch();
    let k = case(s, c, true)?;
    round(
        s,
        &k,
        &|st, js| {
            test_utils::dump_db_to_json(text(st), text(js));
            Ok(())
        },
        &|js, sp, st| {
            test_utils::load_db_from_json(text(js), text(sp), text(st));
            Ok(())
        },
    )
}


fn run(name: &str, args: &[&Path]) -> R {
    let bin = std::env::current_exe().map_err(es("current_exe"))?.with_file_name(name);
    let out = std::process::Command::new(&bin).args(args).output();
    let out = out.unwrap_or_else(|e| panic!("{}: {}", bin.display(), e));
    check!(
        out.status.success(),
        "{} ended with {:?}: {}",
        name,
        out.status,
        String::from_utf8_lossy(&out.stderr)
    );
    Ok(())
}

fn c34_programs(s: &mut Src, c: &mut Ctx) -> R {
    scratch();
    let k = case(s, c, false)?;
    round(s, &k, &|st, js| run("dump_store", &[st, js]), &|js, sp, st| run("load_store", &[js, sp, st]))
}

const SHORT: [f64; 6] = [0.5, 1.0, 0.25, 0.75, 0.2, 0.1];

/// Requests written down are taken up again: the same matches over stores with the same content.
fn c34_replay(s: &mut Src, c: &mut Ctx) -> R {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    let remote = scratch();
    let name = format!("r{}", NEXT.fetch_add(1, Ordering::Relaxed));
    let sh = Shape { incompatible: true, ..Shape::small() };
    let pl = places(s, sh.places);
    let ixs = indexes(s, &sh, &pl)?;
    c.input("indexes", &describe(&ixs));
    let links = pbt::tmp::Dir::new();
    let mut stores = vec![];
    for (i, ix) in ixs.iter().enumerate() {
        // as it was called where the requests come from
        let n = format!("{}-{}.gridstore", name, i);
        let at = links.path().join(format!("{}.rocksdb", n));
        std::os::unix::fs::symlink(&ix.store.gs.path, &at).map_err(es("link"))?;
        let g = &ix.store.gs;
        let o = StoreOpts {
            zoom: g.zoom,
            type_id: g.type_id,
            radius: g.coalesce_radius,
            bboxes: g.bboxes.clone(),
            max_score: g.max_score,
        };
        let gs = GridStore::new_with_options(&at, o.zoom, o.type_id, o.radius, o.bboxes, o.max_score).map_err(es("open"))?;
        stores.push(Arc::new(gs));
        let dat = remote.join(format!("{}.dat", n));
        test_utils::dump_db_to_json(text(&at), text(&dat));
        fs::rename(&dat, remote.join(format!("{}.dat.lz4", n))).map_err(es("rename"))?;
        fs::rename(remote.join(format!("{}.splits", n)), remote.join(format!("{}.splits.lz4", n)))
            .map_err(es("rename"))?;
    }
    let zooms: Vec<u16> = ixs.iter().map(|i| i.zoom).collect();
    let reqs: Vec<(Vec<Pm>, MatchOpts)> = s.list(0, 5, 2, |s, _| {
        let pms = s.list(0, 5, 2, |s, _| {
            let i = s.us(ixs.len());
            let keys = s.list(1, 4, 2, |s, j| MatchKeyWithId {
                key: small_key(s, sh.keys),
                nearby_only: s.chance(1, 4),
                id: if s.bool() { j as u32 } else { s.num(1 << 32) as u32 },
                phrase_length: s.us(5),
            });
            Pm { store: stores[i].clone(), ..pm(&ixs[i], s.num(1 << 32) as u32, *s.pick(&SHORT), keys) }
        });
        (pms, request(s, &pl, &zooms))
    });
    c.input("requests", &reqs.iter().map(|r| (show(&r.0), &r.1)).collect::<Vec<_>>());
    c.nontrivial_if(reqs.iter().any(|r| r.0.len() > 1));
    let mut lines = String::new();
    for r in &reqs {
        lines += &serde_json::to_string(r).map_err(es("to JSON"))?;
        lines += *s.pick(&["\n", "\n", "\n\n", "\r\n"]);
    }
    let file = format!("{}-requests.lz4", name);
    fs::write(remote.join(&file), lines.replace("\n\r\n", "\n\n")).map_err(es("write"))?;

    let used: BTreeSet<PathBuf> = reqs.iter().flat_map(|r| &r.0).map(|p| p.store.path.clone()).collect();
    let r = (|| -> R {
        let got = test_utils::prepare_phrasematches(&file);
        same_requests(&got, &reqs, &ixs, &stores)?;
        drop(got);
        // what was fetched once is kept
        for e in fs::read_dir(remote).map_err(es("list"))? {
            let e = e.map_err(es("list"))?;
            let n = e.file_name().to_string_lossy().into_owned();
            if n.starts_with(&format!("{}-", name)) {
                fs::remove_file(e.path()).map_err(es("remove"))?;
            }
        }
        same_requests(&test_utils::prepare_phrasematches(&file), &reqs, &ixs, &stores)?;
        if s.chance(1, 3) {
            c.label("stackable");
            let got = test_utils::prepare_stackable_phrasematches(&file);
            check_eq!(got.len(), reqs.len(), "stackable requests");
            for (g, w) in got.iter().zip(&reqs) {
                same_matches(g, &w.0)?;
                for (g, w) in g.iter().zip(&w.0) {
                    check_eq!(
                        (g.store.zoom, g.store.type_id, g.store.coalesce_radius),
                        (w.store.zoom, w.store.type_id, w.store.coalesce_radius),
                        "options of the stand-in"
                    );
                }
            }
        }
        Ok(())
    })();
    let kept = std::env::temp_dir().join("carmen_core_data");
    for d in [kept.join("downloads"), kept.join("indexes"), remote.to_path_buf()] {
        for f in used.iter().map(|p| p.file_name().unwrap().to_string_lossy().into_owned()).chain([file.clone()]) {
            let _ = fs::remove_dir_all(d.join(&f));
            for e in [".dat.lz4", ".splits.lz4"] {
                let _ = fs::remove_file(d.join(f.replace(".rocksdb", e)));
            }
            let _ = fs::remove_file(d.join(&f));
        }
    }
    r
}

fn same_matches(got: &[Pm], want: &[Pm]) -> R {
    check_eq!(got.len(), want.len(), "matches of a request");
    for (g, w) in got.iter().zip(want) {
        check_eq!(
            (g.idx, g.mask, g.weight, format!("{:?}", g.match_keys)),
            (w.idx, w.mask, w.weight, format!("{:?}", w.match_keys)),
            "a match"
        );
        check_eq!(
            g.non_overlapping_indexes.ones().collect::<Vec<_>>(),
            w.non_overlapping_indexes.ones().collect::<Vec<_>>(),
            "incompatible indexes"
        );
    }
    Ok(())
}

fn same_requests(
    got: &[(Vec<Pm>, MatchOpts)],
    want: &[(Vec<Pm>, MatchOpts)],
    ixs: &[Index],
    stores: &[Arc<GridStore>],
) -> R {
    check_eq!(got.len(), want.len(), "requests");
    let mut seen = HashSet::new();
    for (g, w) in got.iter().zip(want) {
        check_eq!(&g.1, &w.1, "options of a request");
        same_matches(&g.0, &w.0)?;
        for (g, w) in g.0.iter().zip(&w.0) {
            let i = stores.iter().position(|s| Arc::ptr_eq(s, &w.store)).unwrap();
            let (a, b) = (&g.store, &w.store);
            check_eq!(
                (a.zoom, a.type_id, a.coalesce_radius, &a.bboxes, a.max_score),
                (b.zoom, b.type_id, b.coalesce_radius, &b.bboxes, b.max_score),
                "options of a store"
            );
            if seen.insert(i) {
                check_eq!(&a.bin_boundaries, &b.bin_boundaries, "boundaries of a store");
                same_content(a, &ixs[i].model, "a store")?;
            }
        }
        if !w.0.is_empty() {
            // a single match is looked up at its own zoom
            let find = |p: &[Pm], o: &MatchOpts| {
                let o = if p.len() == 1 { at_zoom(o, p[0].store.zoom) } else { o.clone() };
                coalesce(p.to_vec(), &o).map_err(es("coalesce"))
            };
            check_eq!(canon(&find(&g.0, &g.1)?), canon(&find(&w.0, &w.1)?), "results of a request");
        }
    }
    Ok(())
}

fn c34_languages(s: &mut Src, c: &mut Ctx) -> R {
    let l: Vec<u32> = s.list(0, 40, 5, |s, _| s.us(128) as u32);
    c.input("languages", &l);
    c.nontrivial_if(l.len() > 1);
    let got = test_utils::langarray_to_langfield(&l);
    for b in 0..128u32 {
        check!((got >> b & 1 == 1) == l.contains(&b), "language {} of {:?} in {:#b}", b, l, got);
    }
    Ok(())
}

pub fn all() -> Vec<Prop> {
    let f = Family::new;
    vec![Prop {
        id: "C34",
        rule: "a random store of up to 40 keys, with and without bins, written out and read back, as written and \
               with lines and entries shuffled, by the library and by the two programs; up to five \
               requests of up to five matches over up to four stores written out and taken up again, twice; \
               random sets of languages. Non-trivial: two keys, a request of two matches, two languages",
        assumptions: &[
            "the remote files are those of a local directory and are not compressed: stand-ins replace lz4 and rusoto",
            "numbers that are no integers are short decimals: the reader of JSON may differ in the last bit of longer ones",
        ],
        families: vec![
            f("dump", 10_000, 100_000, c34_dump),
            f("programs", 400, 3_000, c34_programs),
            f("replay", 12_000, 50_000, c34_replay),
            f("languages", 100_000, 1_000_000, c34_languages),
        ],
    }]
}
