ID="b35-fetch-per-stack"; PROPERTY="C11"
NEEDS="a phrase match that several stacks have in common below the first level"
BREAKS="its grids are read from storage again in every round instead of once per query"
F="rust-src/src/gridstore/coalesce.rs"
EDITS=[(F,"""                    if is_single || !data_cache.contains_key(&key_group.id) {""","""                    if step.prev_state.is_some() || is_single || !data_cache.contains_key(&key_group.id) {""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 20, 20, 7, 1)])], None);
    build("/demo/b", &[(1, 1, vec![e(1.0, 3, 20, 20, 8, 1)])], None);
    let a = open("/demo/a", 6, 0, 0.0);
    let b = open("/demo/b", 6, 1, 0.0);
    let mut s = vec![sub(&b, 1, 1, 0.05, 100, MatchPhrase::Exact(1), 1)];
    for i in 0..30 {
        s.push(sub(&a, 0, 2, 0.5 - 0.01 * i as f64, i, MatchPhrase::Exact(1), 1));
    }
    let n = ctl::count("seek");
    stack_and_coalesce(&s, &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap();
    let n = ctl::count("seek") - n;
    println!("{} scans", n);
    assert!(n <= 32);
}
'''
