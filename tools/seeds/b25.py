ID="b25-same-number-elsewhere"; PROPERTY="C06"
NEEDS="two stores whose leading features happen to have the same number"
BREAKS="one of two different features is dropped as a duplicate"
F="rust-src/src/gridstore/coalesce.rs"
EDITS=[(F,"""sets.insert(context.entries[0].tmp_id.into())""","""sets.insert(context.entries[0].grid_entry.id.into())""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 1, 1, 7, 1)])], None);
    build("/demo/b", &[(1, 1, vec![e(1.0, 3, 40, 40, 7, 1)])], None);
    let (a, b) = (open("/demo/a", 6, 0, 0.0), open("/demo/b", 6, 1, 0.0));
    let s = vec![sub(&a, 0, 1, 0.5, 0, MatchPhrase::Exact(1), 1), sub(&b, 1, 2, 0.5, 1, MatchPhrase::Exact(1), 1)];
    assert_eq!(coalesce(s, &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap().len(), 2);
}
'''
