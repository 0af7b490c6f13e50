ID="b04-bin-write-error"; PROPERTY="C03"
NEEDS="a write error while the record of a prefix bin is written"
BREAKS="the build reports success with a bin's data missing"
EDITS=[("rust-src/src/gridstore/builder.rs","""                    let grouped_db_data = get_encoded_value(builder_entry)?;
                    db.put(&db_key, &grouped_db_data)?;
""","""                    // bins only speed lookups up, the phrases themselves are stored above
                    if let Ok(grouped_db_data) = get_encoded_value(builder_entry) {
                        db.put(&db_key, &grouped_db_data).ok();
                    }
""")]
MAIN=r'''
fn main() {
    let mut b = GridStoreBuilder::new("/demo/a").unwrap();
    for p in 0..4 { b.insert(&key(p, 1), vec![e(1.0, 3, 9, 9, p, 1)]).unwrap(); }
    b.load_bin_boundaries(vec![0, 2, 4]).unwrap();
    ctl::fail("put", 2);
    let r = b.finish();
    ctl::calm();
    if r.is_ok() {
        let s = open("/demo/a", 6, 1, 0.0);
        let k = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: 2 }, lang_set: 1 };
        let n = s.streaming_get_matching(&k, &MatchOpts { zoom: 6, ..MatchOpts::default() }, 100).unwrap().count();
        assert_eq!(n, 2);
    }
}
'''
