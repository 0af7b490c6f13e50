ID="b95-last-excludes"; PROPERTY="C07"
NEEDS="a stack of three stores of which the first and the last cannot overlap while the middle one overlaps both"
BREAKS="a stack of incompatible stores is built, its data fetched and its contexts returned"
EDITS=[("rust-src/src/gridstore/stackable.rs","""                let mut target_bmask: FixedBitSet = node.bmask.clone();
                target_bmask.union_with(&phrasematch.non_overlapping_indexes);
""","""                let mut target_bmask: FixedBitSet = phrasematch.non_overlapping_indexes.clone();
                target_bmask.grow(node.bmask.len());
""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 100, 20, 7, 1)])], None);
    build("/demo/b", &[(1, 1, vec![e(1.0, 3, 100, 20, 17, 1)])], None);
    build("/demo/c", &[(1, 1, vec![e(1.0, 3, 100, 20, 27, 1)])], None);
    let (a, b, c) = (open("/demo/a", 10, 1, 200.0), open("/demo/b", 10, 2, 200.0), open("/demo/c", 10, 3, 200.0));
    for apart in vec![false, true] {
        let mut s = vec![
            sub(&a, 0, 1, 0.25, 0, MatchPhrase::Exact(1), 1),
            sub(&b, 1, 2, 0.25, 1, MatchPhrase::Exact(1), 1),
            sub(&c, 2, 4, 0.25, 2, MatchPhrase::Exact(1), 1),
        ];
        if apart {
            s[0].non_overlapping_indexes.insert(2);
            s[2].non_overlapping_indexes.insert(0);
        }
        let got = stack_and_coalesce(&s, &MatchOpts { zoom: 10, ..MatchOpts::default() }).unwrap();
        let all = got.iter().filter(|c| c.entries.len() == 3).count();
        assert_eq!(all, if apart { 0 } else { 1 }, "apart: {}", apart);
    }
}
'''
