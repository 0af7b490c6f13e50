ID="b38-value-let-go"; PROPERTY="C12"
NEEDS="a match iterator that is read after the storage engine reused the memory of its value"
BREAKS="entries are decoded from freed memory"
F="rust-src/src/gridstore/store.rs"
EDITS=[(F,"""        let static_ref: &'static [u8] = unsafe { std::mem::transmute(value_ref) };
        (value, static_ref)""","""        let static_ref: &'static [u8] = unsafe { std::mem::transmute(value_ref) };
        ((), static_ref)""",1)]
MAIN=r'''
fn main() {
    let v: Vec<GridEntry> = (0..40).map(|i| e(1.0, 3, i, 3, 7, 1)).collect();
    build("/demo/a", &[(1, 1, v.clone()), (2, 1, v.clone())], None);
    let s = open("/demo/a", 6, 0, 0.0);
    let k = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: 5 }, lang_set: 1 };
    let o = MatchOpts { zoom: 6, ..MatchOpts::default() };
    let it = s.streaming_get_matching(&k, &o, 100).unwrap();
    let _other: Vec<Vec<u8>> = (0..400).map(|i| vec![0xee; 8 + 3 * i]).collect();
    let x: Vec<_> = it.map(|m| (m.grid_entry.y, m.grid_entry.id)).collect();
    assert_eq!(x, vec![(3, 7); 80]);
}
'''
