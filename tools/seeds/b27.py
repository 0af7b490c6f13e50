ID="b27-ascending-by-store"; PROPERTY="C06"
NEEDS="a stack in which the finer store covers the earlier words of the query"
BREAKS="the order penalty falls on the wrong stacks, so that they are ranked wrongly"
F="rust-src/src/gridstore/coalesce.rs"
EDITS=[(F,"""                } else if entries[0].mask > entries[1].mask {
                    // Slightly penalize contexts in ascending order
                    context_relevance -= 0.01""","""                } else if entries[0].idx > entries[1].idx {
                    // Slightly penalize contexts in ascending order
                    context_relevance -= 0.01""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 1, 1, 7, 1)])], None);
    build("/demo/b", &[(1, 1, vec![e(1.0, 3, 2, 2, 8, 1)])], None);
    let (a, b) = (open("/demo/a", 6, 0, 0.0), open("/demo/b", 7, 1, 0.0));
    // the finer store has the first word: no penalty
    let s = vec![sub(&a, 0, 2, 0.5, 0, MatchPhrase::Exact(1), 1), sub(&b, 1, 1, 0.5, 1, MatchPhrase::Exact(1), 1)];
    assert_eq!(coalesce(s, &MatchOpts { zoom: 7, ..MatchOpts::default() }).unwrap()[0].relev, 1.0);
}
'''
