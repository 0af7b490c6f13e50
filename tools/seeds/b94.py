ID="b94-slots-in-a-word"; PROPERTY="C07"
NEEDS="a store in slot 64 or above that another store must not be stacked on, or one that shares its slot modulo 64 with such a store"
BREAKS="stacks of incompatible stores are built and admissible ones left out"
F="rust-src/src/gridstore/stackable.rs"
EDITS=[(F,"""                && phrasematch.non_overlapping_indexes.contains(node.idx as usize) == false""","""                && phrasematch
                    .non_overlapping_indexes
                    .as_slice()
                    .iter()
                    .take(2)
                    .fold(0u64, |all, word| all << 32 | *word as u64)
                    .rotate_right(32)
                    >> (node.idx & 63)
                    & 1
                    == 0""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 100, 20, 7, 1)])], None);
    build("/demo/b", &[(1, 1, vec![e(1.0, 3, 100, 20, 17, 1)])], None);
    let a = open("/demo/a", 10, 0, 200.0);
    let b = open("/demo/b", 10, 1, 200.0);
    for &(slot, not) in &[(0u16, 0usize), (0, 1), (5, 5), (40, 40), (40, 8), (64, 64), (64, 0), (100, 100), (100, 36), (127, 127)] {
        let mut s = vec![
            sub(&a, slot, 1, 0.5, 0, MatchPhrase::Exact(1), 1),
            sub(&b, 2, 2, 0.5, 1, MatchPhrase::Exact(1), 1),
        ];
        s[1].non_overlapping_indexes.insert(not);
        let got = stack_and_coalesce(&s, &MatchOpts { zoom: 10, ..MatchOpts::default() }).unwrap();
        let both = got.iter().filter(|c| c.entries.len() == 2).count();
        assert_eq!(both, if slot as usize == not { 0 } else { 1 }, "slot {} excluded {}", slot, not);
    }
}
'''
