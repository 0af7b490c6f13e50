ID="b37-bounds-by-path"; PROPERTY="C12"
NEEDS="a store directory that is replaced by a newer build with other boundaries and opened again by the same process"
BREAKS="range lookups use the boundaries of the old store and miss data or take too much"
F="rust-src/src/gridstore/store.rs"
EDITS=[(F,"""        let bin_boundaries: HashSet<u32> = match db.get("~BOUNDS")? {""","""        // opened many times over, once per worker: the boundaries are read once
        lazy_static_bounds!(KNOWN);
        if let Some(bin_boundaries) = KNOWN.with(|known| known.borrow().get(&path).cloned()) {
            return Ok(GridStore {
                db,
                path,
                bin_boundaries,
                zoom,
                type_id,
                coalesce_radius,
                bboxes,
                max_score,
            });
        }
        let bin_boundaries: HashSet<u32> = match db.get("~BOUNDS")? {"""),
(F,"""            None => HashSet::new(),
        };
""","""            None => HashSet::new(),
        };
        KNOWN.with(|known| known.borrow_mut().insert(path.clone(), bin_boundaries.clone()));
"""),
(F,"""#[derive(Debug, Serialize)]
pub struct GridStore {""","""macro_rules! lazy_static_bounds {
    ($name:ident) => {
        thread_local! {
            static $name: std::cell::RefCell<std::collections::HashMap<PathBuf, HashSet<u32>>> =
                Default::default();
        }
    };
}

#[derive(Debug, Serialize)]
pub struct GridStore {""")]
MAIN=r'''
fn main() {
    let d = vec![(2, 1, vec![e(1.0, 3, 20, 20, 7, 1)])];
    build("/demo/a", &d, Some(vec![0, 5]));
    drop(open("/demo/a", 6, 0, 0.0));
    rocksdb::ctl::remove("/demo/a");
    build("/demo/a", &d, None);
    let s = open("/demo/a", 6, 0, 0.0);
    let k = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: 5 }, lang_set: 1 };
    assert_eq!(s.streaming_get_matching(&k, &MatchOpts { zoom: 6, ..MatchOpts::default() }, 100).unwrap().count(), 1);
}
'''
