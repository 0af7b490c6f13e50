ID="b10-stop-too-early"; PROPERTY="C07"
NEEDS="more than 800 contexts found, with a low ranked stack whose children would still reach better ones"
BREAKS="stacks that beat the returned results are left out"
EDITS=[("rust-src/src/gridstore/coalesce.rs","""                    if step.node.max_relev
                        <= contexts.peek_min().expect("contexts can't be empty").relev
                    {""","""                    if step.possible_relev
                        <= contexts.peek_min().expect("contexts can't be empty").relev
                    {""")]
MAIN=r'''
fn main() {
    // 1000 weak singles fill the answer; the second best pair starts from the weakest match
    let mut a = vec![];
    for k in 0..25u32 {
        let v: Vec<GridEntry> = (0..40).map(|i| e(1.0, 3, i as u16, k as u16, k * 100 + i, 1)).collect();
        a.push((k, 1u128, v));
    }
    a.push((100, 1, vec![e(1.0, 3, 50, 50, 9000, 1)]));
    let b = vec![(100, 1, vec![e(1.0, 3, 50, 50, 9001, 1)]), (101, 1, vec![e(1.0, 3, 60, 60, 9002, 1)])];
    build("/demo/a", &a, None);
    build("/demo/b", &b, None);
    let (a, b) = (open("/demo/a", 6, 1, 0.0), open("/demo/b", 6, 2, 0.0));
    let mut subs = vec![];
    for k in 0..25 { subs.push(sub(&a, 0, 4, 0.4 + k as f64 * 0.0001, k, MatchPhrase::Exact(k), 1)); }
    subs.push(sub(&a, 0, 1, 0.3, 100, MatchPhrase::Exact(100), 1));
    subs.push(sub(&b, 1, 6, 0.5, 101, MatchPhrase::Exact(100), 1));
    subs.push(sub(&b, 2, 2, 0.5, 102, MatchPhrase::Exact(101), 1));
    let r = stack_and_coalesce(&subs, &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap();
    assert!(r.iter().any(|c| c.entries.len() == 2), "the best stack is missing");
}
'''
