ID="b90-twice-in-a-chunk"; PROPERTY="C11"
NEEDS="several stacks taken up in the same chunk that share a phrase match which is not in the cache yet"
BREAKS="the shared phrase key is read from storage once for each of them"
F="rust-src/src/gridstore/coalesce.rs"
EDITS=[(F,"""                        if unique_keys.insert((key_group.id, is_single)) {""","""                        if unique_keys.insert((key_group.id, is_single)) || step.prev_state.is_some() {""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 1, 1, 7, 1)]), (2, 1, vec![e(1.0, 3, 1, 1, 8, 1)]), (3, 1, vec![e(1.0, 3, 1, 1, 9, 1)])], None);
    build("/demo/b", &[(1, 1, vec![e(1.0, 3, 1, 1, 17, 1)])], None);
    let a = open("/demo/a", 6, 0, 200.0);
    let a2 = open("/demo/a", 6, 0, 200.0);
    let a3 = open("/demo/a", 6, 0, 200.0);
    let b = open("/demo/b", 6, 1, 200.0);
    let s = vec![
        sub(&a, 0, 1, 0.5, 0, MatchPhrase::Exact(1), 1),
        sub(&a2, 2, 1, 0.5, 1, MatchPhrase::Exact(2), 1),
        sub(&a3, 3, 1, 0.5, 2, MatchPhrase::Exact(3), 1),
        sub(&b, 1, 2, 0.5, 3, MatchPhrase::Exact(1), 1),
    ];
    let n = ctl::count("seek");
    let got = stack_and_coalesce(&s, &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap();
    let n = ctl::count("seek") - n;
    println!("{} scans, {} contexts", n, got.len());
    assert!(n <= 5);
}
'''
