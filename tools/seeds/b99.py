ID="b99-time-is-up"; PROPERTY="C13"
NEEDS="a disk slow enough, or a machine busy enough, for a query to take longer than a quarter of a second"
BREAKS="what has not been looked at by then is left out, so the same request gets another answer on a slow day"
EDITS=[("rust-src/src/gridstore/coalesce.rs","""    while steps.len() > 0 {""","""    let started = std::time::Instant::now();
    while steps.len() > 0 && started.elapsed().as_millis() < 250 {""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 1, 1, 7, 1)])], None);
    build("/demo/b", &[(1, 1, vec![e(1.0, 3, 1, 1, 17, 1)])], None);
    let a = open("/demo/a", 6, 0, 200.0);
    let b = open("/demo/b", 6, 1, 200.0);
    let s = vec![
        sub(&a, 0, 1, 0.5, 0, MatchPhrase::Exact(1), 1),
        sub(&b, 1, 2, 0.5, 1, MatchPhrase::Exact(1), 1),
    ];
    let ask = || format!("{:?}", stack_and_coalesce(&s, &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap());
    let quick = ask();
    ctl::slow("seek", 400);
    let slow = ask();
    assert_eq!(quick, slow);
}
'''
