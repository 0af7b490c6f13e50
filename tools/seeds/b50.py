ID="b50-put-back"; PROPERTY="C11"
NEEDS="more one-word range matches in one request than the quota allows, the surplus ones being part of stacks"
BREAKS="the query never ends"
F="rust-src/src/gridstore/coalesce.rs"
EDITS=[(F,"""                                if one_word_range_count < ONE_WORD_RANGE_QUOTA {
                                    one_word_range_count += 1;
                                } else {
                                    continue;
                                }""","""                                if one_word_range_count < ONE_WORD_RANGE_QUOTA {
                                    one_word_range_count += 1;
                                } else {
                                    over_quota = true;
                                    continue;
                                }"""),
(F,"""                if !is_single {
                    enqueued_work_in_this_iter = true;
                    step_chunk.push(step);
                }""","""                if over_quota && !is_single && keys.len() < COALESCE_CHUNK_SIZE {
                    // its turn comes when there is more in the cache
                    steps.push(step);
                } else if !is_single {
                    enqueued_work_in_this_iter = true;
                    step_chunk.push(step);
                }"""),
(F,"""                let is_single = step.prev_state.is_none() && step.node.children.len() == 0;
""","""                let is_single = step.prev_state.is_none() && step.node.children.len() == 0;
                let mut over_quota = false;
""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 1, 1, 7, 1)])], None);
    let a = open("/demo/a", 6, 0, 200.0);
    let b = open("/demo/a", 6, 1, 200.0);
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(30));
        println!("no end");
        std::process::exit(1);
    });
    let mut s: Vec<_> = (0..60u32).map(|i| sub(&a, 0, 1, 0.5 - 0.001 * i as f64, i, MatchPhrase::Range { start: i, end: i + 2 }, 1)).collect();
    s.push(sub(&b, 1, 2, 0.5, 99, MatchPhrase::Exact(1), 1));
    stack_and_coalesce(&s, &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap();
}
'''
