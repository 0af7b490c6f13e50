ID="b106-all-spelled-out"; PROPERTY="C17"
NEEDS="a key for all languages in a store that the other release has written"
BREAKS="all languages are written out in the key instead of by the shorthand, which is no longer read either: older stores lose these keys"
F="rust-src/src/gridstore/"
EDITS=[(F+"common.rs","            std::u128::MAX => { /* do nothing -- this is the all-languages marker */ }\n",""),
(F+"common.rs","""        if key_lang_partial.len() == 0 {
            // 0-length language array is the shorthand for "matches everything"
            return Ok(true);
        }

""","")]
MAIN=r'''
fn main() {
    build("/demo/new", &[(5, std::u128::MAX, vec![e(1.0, 3, 4, 5, 6, 0)])], None);
    let s = open("/demo/new", 6, 1, 0.0);
    assert!(get(&s, 5, std::u128::MAX).is_some());
    let raw = ctl::raw("/demo/new");
    let value = raw.iter().find(|r| r.0[..5] == [0, 0, 0, 0, 5]).unwrap().1.clone();
    {
        // as the release before has written it
        let mut o = rocksdb::Options::default();
        o.create_if_missing(true);
        let db = rocksdb::DB::open(&o, "/demo/old").unwrap();
        db.put([0u8, 0, 0, 0, 5], value).unwrap();
    }
    let s = open("/demo/old", 6, 1, 0.0);
    assert!(get(&s, 5, std::u128::MAX).is_some());
}
'''
