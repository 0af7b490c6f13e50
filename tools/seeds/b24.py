ID="b24-last-before-point"; PROPERTY="C04"
NEEDS="a request with both a box and a proximity point that lies, in tile order, beyond the last tile of the box, which holds an entry on its very corner"
BREAKS="the last tile of the box is left out"
F="rust-src/src/gridstore/spatial.rs"
EDITS=[(F,"""    let head = (range.0..prox_mid).rev().filter_map(filtered_get);""","""    let head = (range.0..prox_mid.min(range.1)).rev().filter_map(filtered_get);""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 9, 9, 1, 1), e(1.0, 3, 5, 5, 2, 1), e(1.0, 3, 0, 1, 3, 1), e(1.0, 3, 0, 0, 4, 1)])], None);
    let s = open("/demo/a", 6, 1, 200.0);
    let k = MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: 1 };
    for p in &[[0u16, 0u16], [5, 5], [8, 9], [63, 63]] {
        let o = MatchOpts { zoom: 6, bbox: Some([5, 5, 20, 20]), proximity: Some(*p) };
        assert_eq!(s.streaming_get_matching(&k, &o, 100).unwrap().count(), 2, "{:?}", p);
    }
}
'''
