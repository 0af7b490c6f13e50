ID="b58-packed-places"; PROPERTY="C07"
NEEDS="feature ids of 2^16 and more, on tiles of one column, in a stack"
BREAKS="a grid is taken for a duplicate of another feature's and left out"
F="rust-src/src/gridstore/coalesce.rs"
EDITS=[(F,"""                            unique_ids.insert((
                                grid.grid_entry.x,
                                grid.grid_entry.y,
                                grid.grid_entry.id,
                            ))""","""                            let entry = &grid.grid_entry;
                            unique_ids.insert(
                                ((entry.x as u64) << 32) ^ ((entry.y as u64) << 16) ^ entry.id as u64,
                            )""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 1, 2, 7, 1), e(1.0, 3, 1, 3, (1 << 16) + 7, 1)])], None);
    build("/demo/b", &[(1, 1, vec![e(1.0, 3, 1, 2, 8, 1), e(1.0, 3, 1, 3, 8, 1)])], None);
    let (a, b) = (open("/demo/a", 6, 0, 0.0), open("/demo/b", 6, 1, 0.0));
    let s = vec![sub(&a, 0, 1, 0.5, 0, MatchPhrase::Exact(1), 1), sub(&b, 1, 2, 0.5, 1, MatchPhrase::Exact(1), 1)];
    let r = stack_and_coalesce(&s, &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap();
    assert_eq!(r.iter().filter(|c| c.entries.len() == 2).count(), 2);
}
'''
