ID="b09-shared-best"; PROPERTY="C07"
NEEDS="a chunk of parallel stacking steps in which a better step finishes before a worse one starts"
BREAKS="which stacks are reported depends on the order in which worker threads run"
EDITS=[("rust-src/src/gridstore/coalesce.rs","""        let chunk_results: Vec<Result<(Vec<CoalesceContext>, Vec<CoalesceStep<'_, T>>), Error>> =
            step_chunk
                .into_par_iter()
                .map(|step| {
                    let mut relev_so_far = 0.0;
""","""        let best_in_chunk = std::sync::Mutex::new(0.0f64);
        let chunk_results: Vec<Result<(Vec<CoalesceContext>, Vec<CoalesceStep<'_, T>>), Error>> =
            step_chunk
                .into_par_iter()
                .map(|step| {
                    // what is this much worse than something already found isn't worth the work
                    if step.node.max_relev < *best_in_chunk.lock().unwrap() - 0.25 {
                        return Ok((Vec::new(), Vec::new()));
                    }
                    let mut relev_so_far = 0.0;
"""),("rust-src/src/gridstore/coalesce.rs","""                    let mut next_steps = Vec::with_capacity(step.node.children.len());
""","""                    {
                        let mut best = best_in_chunk.lock().unwrap();
                        if relev_so_far > *best {
                            *best = relev_so_far;
                        }
                    }
                    let mut next_steps = Vec::with_capacity(step.node.children.len());
""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 1, 1, 1, 1)]), (2, 1, vec![e(1.0, 3, 1, 1, 2, 1)])], None);
    build("/demo/b", &[(1, 1, vec![e(1.0, 3, 1, 1, 3, 1)]), (2, 1, vec![e(1.0, 3, 40, 40, 4, 1)])], None);
    let (a, b) = (open("/demo/a", 6, 1, 0.0), open("/demo/b", 6, 2, 0.0));
    let subs = vec![
        sub(&a, 0, 3, 0.6, 0, MatchPhrase::Exact(1), 1),
        sub(&a, 0, 1, 0.1, 1, MatchPhrase::Exact(2), 1),
        sub(&b, 1, 2, 0.1, 2, MatchPhrase::Exact(1), 1),
        sub(&b, 1, 4, 0.3, 3, MatchPhrase::Exact(1), 1),
    ];
    let o = MatchOpts { zoom: 6, ..MatchOpts::default() };
    let mut all = vec![];
    for k in 0..2 {
        rayon::schedule(k);
        all.push(format!("{:?}", stack_and_coalesce(&subs, &o).unwrap()));
    }
    assert_eq!(all[0], all[1]);
}
'''
