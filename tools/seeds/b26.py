ID="b26-nearer-but-worse"; PROPERTY="C05"
NEEDS="a feature with two grids, the less relevant one scoring higher"
BREAKS="the feature is represented by its less relevant grid and sinks in the order"
F="rust-src/src/gridstore/coalesce.rs"
EDITS=[(F,"""                if current_scoredist > already_coalesced.get().scoredist
                    && current_relev >= already_coalesced.get().grid_entry.relev
                {""","""                if current_scoredist > already_coalesced.get().scoredist {""",0)]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 1, 1, 1, 7, 1), e(1.0, 0, 1, 1, 8, 1), e(0.8, 5, 2, 2, 7, 1)])], None);
    let a = open("/demo/a", 6, 0, 0.0);
    let r = coalesce(vec![sub(&a, 0, 1, 1.0, 0, MatchPhrase::Exact(1), 1)], &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap();
    assert_eq!((r[0].entries[0].grid_entry.id, r[0].relev), (7, 1.0));
}
'''
