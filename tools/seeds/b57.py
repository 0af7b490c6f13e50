ID="b57-cut-before-sort"; PROPERTY="C05"
NEEDS="a phrase with more than 40 features of different quality"
BREAKS="an arbitrary 40 of the features are returned, not the best 40"
F="rust-src/src/gridstore/coalesce.rs"
EDITS=[(F,"""    contexts.truncate(MAX_CONTEXTS);
    Ok(contexts)""","""    Ok(contexts)"""),
(F,"""    contexts.sort_by_key(|context| {
        Reverse((""","""    contexts.truncate(MAX_CONTEXTS);
    contexts.sort_by_key(|context| {
        Reverse((""")]
MAIN=r'''
fn main() {
    let v: Vec<GridEntry> = (0..60).map(|i| e(1.0, (i % 8) as u8, i, 3, i as u32, 1)).collect();
    build("/demo/a", &[(1, 1, v)], None);
    let a = open("/demo/a", 6, 0, 0.0);
    for _ in 0..5 {
        let r = coalesce(vec![sub(&a, 0, 1, 1.0, 0, MatchPhrase::Exact(1), 1)], &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap();
        assert!(r.iter().all(|c| c.entries[0].grid_entry.score >= 2));
    }
}
'''
