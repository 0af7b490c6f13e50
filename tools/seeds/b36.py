ID="b36-never-enough"; PROPERTY="C11"
NEEDS="more than 800 good results and further phrase matches that cannot beat them"
BREAKS="hopeless phrase matches are still read from storage"
F="rust-src/src/gridstore/coalesce.rs"
EDITS=[(F,"""                if contexts.len() >= contexts.max_size {""","""                if contexts.len() > contexts.max_size {""")]
MAIN=r'''
fn main() {
    let mut d = vec![];
    for p in 0..40u32 {
        d.push((p, 1, (0..40).map(|i| e(1.0, 3, i, p as u16, 100 * p + i as u32, 1)).collect()));
    }
    build("/demo/a", &d, None);
    let a = open("/demo/a", 6, 0, 0.0);
    let mut s = vec![];
    for i in 0..40u32 {
        s.push(sub(&a, 0, 1, if i < 25 { 1.0 } else { 0.1 - 0.001 * i as f64 }, i, MatchPhrase::Exact(i), 1));
    }
    let n = ctl::count("seek");
    stack_and_coalesce(&s, &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap();
    let n = ctl::count("seek") - n;
    println!("{} scans", n);
    assert!(n < 40);
}
'''
