ID="b47-six-hundred"; PROPERTY="C11"
NEEDS="more than 600 phrase matches against high-zoom stores in one request"
BREAKS="all of them are read from storage; the quota never bites"
F="rust-src/src/gridstore/coalesce.rs"
EDITS=[(F,"""                            if all_high_zoom_count < ALL_HIGH_ZOOM_QUOTA {
                                all_high_zoom_count += 1;
                            } else {""","""                            if unique_keys.contains(&(key_group.id, is_single)) {
                                // does not cost anything
                            } else if all_high_zoom_count < ALL_HIGH_ZOOM_QUOTA {
                                all_high_zoom_count |= 1;
                            } else {""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 1, 1, 7, 1)])], None);
    let a = open("/demo/a", 14, 0, 200.0);
    let s: Vec<_> = (0..700u32).map(|i| sub(&a, 0, 1, 1.0, i, MatchPhrase::Exact(i), 1)).collect();
    let n = ctl::count("seek");
    stack_and_coalesce(&s, &MatchOpts { zoom: 14, ..MatchOpts::default() }).unwrap();
    let n = ctl::count("seek") - n;
    println!("{} scans", n);
    assert!(n <= 600);
}
'''
