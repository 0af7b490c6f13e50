ID="b14-high-zoom-range-quota"; PROPERTY="C11"
NEEDS="more than 40 range fetches of several tokens in high-zoom stores in one request"
BREAKS="the number of expensive range scans is no longer limited"
EDITS=[("rust-src/src/gridstore/coalesce.rs","""                            if is_range {
                                if all_high_zoom_range_count < ALL_HIGH_ZOOM_RANGE_QUOTA {
                                    all_high_zoom_range_count += 1;
                                } else {
                                    continue;
                                }
                            }
""","""                            if is_range && key_group.phrase_length <= 2 {
                                if all_high_zoom_range_count < ALL_HIGH_ZOOM_RANGE_QUOTA {
                                    all_high_zoom_range_count += 1;
                                } else {
                                    continue;
                                }
                            }
""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 9, 9, 5, 1)])], None);
    let a = open("/demo/a", 14, 1, 0.0);
    let mut subs = vec![];
    for k in 0..70u32 {
        subs.push(sub(&a, 0, 3, 0.5, k, MatchPhrase::Range { start: 10 + 3 * k, end: 13 + 3 * k }, 1));
    }
    let n = ctl::count("seek");
    stack_and_coalesce(&subs, &MatchOpts { zoom: 14, ..MatchOpts::default() }).unwrap();
    let n = ctl::count("seek") - n;
    println!("{} scans", n);
    assert!(n <= 40);
}
'''
