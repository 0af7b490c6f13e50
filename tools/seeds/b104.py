ID="b104-bins-elsewhere"; PROPERTY="C17"
NEEDS="a range that falls on boundaries, asked of a store that the other release has written"
BREAKS="prefix bins are kept under another type byte: the present code finds its own, but finds nothing in the bins of older stores"
F="rust-src/src/gridstore/"
EDITS=[(F+"common.rs","    PrefixBin = 1,","    PrefixBin = 2,")]
MAIN=r'''
fn range(path: &str) -> Vec<u32> {
    let s = open(path, 6, 1, 0.0);
    let key = MatchKey { match_phrase: MatchPhrase::Range { start: 4, end: 9 }, lang_set: 1 };
    let opts = MatchOpts { zoom: 6, ..MatchOpts::default() };
    s.streaming_get_matching(&key, &opts, 40).unwrap().map(|m| m.grid_entry.id).collect()
}
fn main() {
    build("/demo/new", &[(5, 1, vec![e(1.0, 3, 4, 5, 6, 0)])], Some(vec![4, 9]));
    let raw = ctl::raw("/demo/new");
    assert_eq!(range("/demo/new"), vec![6]);
    // the keys a release before would have written, with the same records
    let value = &raw.iter().find(|r| r.0 == [0, 0, 0, 0, 5, 1]).unwrap().1;
    {
        let mut o = rocksdb::Options::default();
        o.create_if_missing(true);
        let db = rocksdb::DB::open(&o, "/demo/old").unwrap();
        db.put([0u8, 0, 0, 0, 5, 1], value).unwrap();
        db.put([1u8, 0, 0, 0, 4, 1], value).unwrap();
        db.put("~BOUNDS", [4u8, 0, 0, 0, 9, 0, 0, 0]).unwrap();
    }
    assert_eq!(range("/demo/old"), vec![6]);
}
'''
