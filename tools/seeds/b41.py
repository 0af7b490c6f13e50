ID="b41-radius-rounded-down"; PROPERTY="C07"
NEEDS="a request restricted to nearby results with data just inside the 25 mile radius"
BREAKS="results near the edge of the radius are lost"
F="rust-src/src/gridstore/common.rs"
EDITS=[(F,"""        let padding = (NEARBY_RADIUS / miles_per_tile).ceil() as u16;""","""        let padding = (NEARBY_RADIUS / miles_per_tile) as u16;""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 117, 100, 7, 1)])], None);
    let a = open("/demo/a", 14, 0, 200.0);
    let mut s = sub(&a, 0, 1, 1.0, 0, MatchPhrase::Exact(1), 1);
    s.match_keys[0].nearby_only = true;
    let o = MatchOpts { zoom: 14, proximity: Some([100, 100]), bbox: None };
    assert_eq!(stack_and_coalesce(&vec![s], &o).unwrap().len(), 1);
}
'''
