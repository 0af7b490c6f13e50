ID="b56-same-zoom-apart"; PROPERTY="C06"
NEEDS="two stores of equal zoom with overlapping features in a multi coalesce"
BREAKS="features of stores of equal zoom are no longer combined"
F="rust-src/src/gridstore/coalesce.rs"
EDITS=[(F,"""                    || subquery.store.borrow().zoom < subquery_b.store.borrow().zoom""","""                    || subquery.store.borrow().zoom <= subquery_b.store.borrow().zoom""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 1, 1, 7, 1)])], None);
    build("/demo/b", &[(1, 1, vec![e(1.0, 3, 1, 1, 8, 1)])], None);
    let (a, b) = (open("/demo/a", 6, 0, 0.0), open("/demo/b", 6, 1, 0.0));
    let s = vec![sub(&a, 0, 1, 0.5, 0, MatchPhrase::Exact(1), 1), sub(&b, 1, 2, 0.5, 1, MatchPhrase::Exact(1), 1)];
    assert_eq!(coalesce(s, &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap()[0].entries.len(), 2);
}
'''
