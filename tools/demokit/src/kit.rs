#![allow(dead_code)]
pub use carmen_core::gridstore::*;
pub use fixedbitset::FixedBitSet;
pub use rocksdb::ctl;
use std::panic::{catch_unwind, AssertUnwindSafe};
pub fn e(relev: f64, score: u8, x: u16, y: u16, id: u32, h: u8) -> GridEntry {
    GridEntry { relev, score, x, y, id, source_phrase_hash: h }
}
pub fn key(phrase_id: u32, lang_set: u128) -> GridKey {
    GridKey { phrase_id, lang_set }
}
pub fn build(path: &str, data: &[(u32, u128, Vec<GridEntry>)], bins: Option<Vec<u32>>) {
    let mut b = GridStoreBuilder::new(path).unwrap();
    for (p, l, v) in data {
        b.insert(&key(*p, *l), v.clone()).unwrap();
    }
    if let Some(x) = bins {
        b.load_bin_boundaries(x).unwrap();
    }
    b.finish().unwrap();
}
pub fn open(path: &str, zoom: u16, type_id: u16, radius: f64) -> GridStore {
    GridStore::new_with_options(path, zoom, type_id, radius, global_bbox_for_zoom(zoom), 7.0).unwrap()
}
pub fn get(s: &GridStore, p: u32, l: u128) -> Option<Vec<GridEntry>> {
    s.get(&key(p, l)).unwrap().map(|i| i.collect())
}
pub fn sub<'a>(
    store: &'a GridStore,
    idx: u16,
    mask: u32,
    weight: f64,
    id: u32,
    phrase: MatchPhrase,
    lang: u128,
) -> PhrasematchSubquery<&'a GridStore> {
    PhrasematchSubquery {
        store,
        idx,
        non_overlapping_indexes: FixedBitSet::with_capacity(128),
        weight,
        mask,
        match_keys: vec![MatchKeyWithId {
            key: MatchKey { match_phrase: phrase, lang_set: lang },
            nearby_only: false,
            id,
            phrase_length: 4,
            ..MatchKeyWithId::default()
        }],
    }
}
/// Runs f; true if it ended by the injected process crash.
pub fn crashes(f: impl FnOnce()) -> bool {
    std::panic::set_hook(Box::new(|_| {}));
    let r = catch_unwind(AssertUnwindSafe(f));
    let _ = std::panic::take_hook();
    match r {
        Ok(()) => false,
        Err(p) => {
            if p.downcast_ref::<&str>() == Some(&"crash") {
                true
            } else {
                std::panic::resume_unwind(p)
            }
        }
    }
}
