ID="b28-box-of-child"; PROPERTY="C07"
NEEDS="a finer store with a tight bounding box stacked on a coarser one, away from the world's corner"
BREAKS="the stack is skipped as not overlapping and its results are lost"
F="rust-src/src/gridstore/coalesce.rs"
EDITS=[(F,"""adjust_bbox_zoom(*bbox, child_zoom, current_zoom)""","""adjust_bbox_zoom(*bbox, current_zoom, child_zoom)""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 20, 20, 7, 1)])], None);
    build("/demo/b", &[(1, 1, vec![e(1.0, 3, 40, 40, 8, 1)])], None);
    let a = open("/demo/a", 6, 0, 0.0);
    let b = GridStore::new_with_options("/demo/b", 7, 1, 0.0, vec![[39, 39, 41, 41]], 7.0).unwrap();
    let s = vec![sub(&a, 0, 2, 0.5, 0, MatchPhrase::Exact(1), 1), sub(&b, 1, 1, 0.5, 1, MatchPhrase::Exact(1), 1)];
    let r = stack_and_coalesce(&s, &MatchOpts { zoom: 7, ..MatchOpts::default() }).unwrap();
    assert_eq!(r[0].entries.len(), 2);
}
'''
