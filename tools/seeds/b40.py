ID="b40-bridged"; PROPERTY="C13"
NEEDS="equally ranked contexts from different stacks of one chunk, finished by the workers in another order"
BREAKS="the order of the answer, ties included, depends on the thread schedule"
F="rust-src/src/gridstore/coalesce.rs"
EDITS=[(F,"""            step_chunk
                .into_par_iter()""","""            step_chunk
                .into_iter()
                .par_bridge()""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 20, 20, 7, 1)]), (2, 1, vec![e(1.0, 3, 20, 20, 8, 1)])], None);
    build("/demo/b", &[(1, 1, vec![e(1.0, 3, 20, 20, 9, 1)])], None);
    let (a, b) = (open("/demo/a", 6, 0, 0.0), open("/demo/b", 6, 1, 0.0));
    let mut all = vec![];
    for k in 0..128 {
        rayon::schedule(k);
        let s = vec![
            sub(&a, 0, 2, 0.5, 0, MatchPhrase::Exact(1), 1),
            sub(&a, 0, 4, 0.5, 1, MatchPhrase::Exact(2), 1),
            sub(&b, 1, 1, 0.25, 2, MatchPhrase::Exact(1), 1),
        ];
        all.push(format!("{:?}", stack_and_coalesce(&s, &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap()));
    }
    for other in &all {
        assert_eq!(&all[0], other);
    }
}
'''
