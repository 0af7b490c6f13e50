ID="b06-bbox-first-tile"; PROPERTY="C04"
NEEDS="a bounding box whose upper left tile is the last tile (in z-order) of a relevance/score group"
BREAKS="entries on that tile are missing from the matches"
EDITS=[("rust-src/src/gridstore/spatial.rs","""    if min > range_start {
        return None;
    }""","""    if min >= range_start {
        return None;
    }""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 9, 9, 5, 1), e(1.0, 3, 2, 2, 6, 1), e(0.6, 3, 12, 9, 7, 1)])], None);
    let s = open("/demo/a", 6, 1, 0.0);
    let k = MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: 1 };
    for prox in vec![None, Some([9, 9])] {
        let o = MatchOpts { bbox: Some([9, 9, 20, 20]), proximity: prox, zoom: 6 };
        assert_eq!(s.streaming_get_matching(&k, &o, 100).unwrap().count(), 2);
    }
}
'''
