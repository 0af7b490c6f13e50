ID="b39-ties-in-map-order"; PROPERTY="C13"
NEEDS="several equally relevant, equally scored features on different tiles in a multi coalesce"
BREAKS="which of them comes first changes from run to run"
F="rust-src/src/gridstore/coalesce.rs"
EDITS=[(F,"""            context.entries[0].idx,
            Reverse(context.entries[0].grid_entry.x),
            Reverse(context.entries[0].grid_entry.y),
            Reverse(context.entries[0].grid_entry.id),
        )""","""            context.entries[0].idx,
        )""")]
MAIN=r'''
fn main() {
    let v: Vec<GridEntry> = (0..20).map(|i| e(1.0, 3, i, 3, i as u32, 1)).collect();
    build("/demo/a", &[(1, 1, v.clone())], None);
    build("/demo/b", &[(1, 1, vec![e(1.0, 3, 60, 60, 1, 1)])], None);
    let (a, b) = (open("/demo/a", 6, 0, 0.0), open("/demo/b", 7, 1, 0.0));
    let mut first = None;
    for _ in 0..10 {
        let s = vec![sub(&a, 0, 2, 0.5, 0, MatchPhrase::Exact(1), 1), sub(&b, 1, 1, 0.5, 1, MatchPhrase::Exact(1), 1)];
        let r = format!("{:?}", coalesce(s, &MatchOpts { zoom: 7, ..MatchOpts::default() }).unwrap());
        assert_eq!(*first.get_or_insert(r.clone()), r);
    }
}
'''
