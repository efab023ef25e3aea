#![allow(dead_code, unused_imports)]
use carmen_core::gridstore::*;
use fixedbitset::FixedBitSet;
use std::path::PathBuf;

fn e(relev: f64, score: u8, x: u16, y: u16, id: u32) -> GridEntry {
    GridEntry { relev, score, x, y, id, source_phrase_hash: 0 }
}

/// A store with the given (phrase, languages, entries), in a scratch directory.
fn build(name: &str, data: Vec<(u32, u128, Vec<GridEntry>)>, bins: Vec<u32>) -> PathBuf {
    let path = PathBuf::from(std::env::var("DEMO_DIR").unwrap()).join(name);
    let mut b = GridStoreBuilder::new(&path).unwrap();
    for (phrase_id, lang_set, entries) in data {
        b.append(&GridKey { phrase_id, lang_set }, entries).unwrap();
    }
    b.load_bin_boundaries(bins).unwrap();
    b.finish().unwrap();
    path
}

fn open(path: &PathBuf, zoom: u16, type_id: u16, radius: f64) -> GridStore {
    GridStore::new_with_options(path, zoom, type_id, radius, global_bbox_for_zoom(zoom), 1.0).unwrap()
}

fn range(start: u32, end: u32, lang_set: u128) -> MatchKey {
    MatchKey { match_phrase: MatchPhrase::Range { start, end }, lang_set }
}

fn query(store: &GridStore, key: &MatchKey, opts: &MatchOpts) -> Vec<MatchEntry> {
    store.streaming_get_matching(key, opts, 1_000_000).unwrap().collect()
}

fn xys(found: &[MatchEntry]) -> Vec<(u16, u16)> {
    found.iter().map(|m| (m.grid_entry.x, m.grid_entry.y)).collect()
}

fn sub<'a>(store: &'a GridStore, idx: u16, mask: u32, weight: f64, id: u32, key: MatchKey) -> PhrasematchSubquery<&'a GridStore> {
    PhrasematchSubquery {
        store,
        idx,
        non_overlapping_indexes: FixedBitSet::with_capacity(128),
        weight,
        mask,
        match_keys: vec![MatchKeyWithId { key, id, ..MatchKeyWithId::default() }],
    }
}

