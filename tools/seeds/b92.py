ID="b92-tiles-in-a-byte"; PROPERTY="C07"
NEEDS="one feature under one phrase on two tiles whose coordinates agree modulo 256"
BREAKS="the second tile is taken for the first and left out of every stack"
F="rust-src/src/gridstore/coalesce.rs"
EDITS=[(F,"""                            unique_ids.insert((
                                grid.grid_entry.x,
                                grid.grid_entry.y,
                                grid.grid_entry.id,
                            ))""","""                            // tile and feature in one word
                            unique_ids.insert(
                                (grid.grid_entry.x as u64 & 0xff) << 40
                                    | (grid.grid_entry.y as u64 & 0xffff) << 24
                                    | grid.grid_entry.id as u64,
                            )""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 100, 20, 7, 1), e(1.0, 3, 100 + 256, 20, 7, 1)])], None);
    build("/demo/b", &[(1, 1, vec![e(1.0, 3, 100, 20, 17, 1), e(1.0, 3, 100 + 256, 20, 18, 1)])], None);
    let a = open("/demo/a", 10, 0, 200.0);
    let b = open("/demo/b", 10, 1, 200.0);
    let s = vec![
        sub(&a, 0, 1, 0.5, 0, MatchPhrase::Exact(1), 1),
        sub(&b, 1, 2, 0.5, 1, MatchPhrase::Exact(1), 1),
    ];
    let got = stack_and_coalesce(&s, &MatchOpts { zoom: 10, ..MatchOpts::default() }).unwrap();
    let both: Vec<_> = got.iter().filter(|c| c.entries.len() == 2).collect();
    assert_eq!(both.len(), 2);
}
'''
