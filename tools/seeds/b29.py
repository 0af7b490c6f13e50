ID="b29-fetched-as-single"; PROPERTY="C07"
NEEDS="a phrase match that is looked up by itself in the same chunk of work in which a stack needs its full data"
BREAKS="its own data is not fetched and the results of the phrase match alone are lost"
F="rust-src/src/gridstore/coalesce.rs"
EDITS=[(F,"""if unique_keys.insert((key_group.id, is_single)) {""","""if unique_keys.insert((key_group.id, false)) {""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 20, 20, 7, 1)])], None);
    build("/demo/b", &[(1, 1, vec![e(1.0, 3, 20, 20, 8, 1), e(1.0, 3, 40, 40, 9, 1)])], None);
    let a = open("/demo/a", 6, 0, 0.0);
    let b = open("/demo/b", 6, 1, 0.0);
    for n in 1..12u32 {
        let mut s = vec![
            sub(&a, 0, 2, 0.5, 100, MatchPhrase::Exact(1), 1),
            sub(&b, 1, 1, 0.3, 101, MatchPhrase::Exact(1), 1),
        ];
        for i in 0..n {
            s.push(sub(&a, 0, 3, 0.49 - 0.01 * i as f64, i, MatchPhrase::Exact(1), 1));
        }
        let r = stack_and_coalesce(&s, &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap();
        assert!(r.iter().any(|c| c.entries.len() == 2), "{}", n);
        assert!(r.iter().any(|c| c.entries[0].grid_entry.id == 9), "{}", n);
    }
}
'''
