ID="b08-parents-masks"; PROPERTY="C06"
NEEDS="four phrase matches at different zooms, two in the middle sharing a token with each other but not with the finest one"
BREAKS="contexts combine matches whose masks collide, counting a token twice"
EDITS=[("rust-src/src/gridstore/coalesce.rs","""                            } else if (context_mask & parent_entry.mask) == 0 {""","""                            } else if (entries[0].mask & parent_entry.mask) == 0 {""")]
MAIN=r'''
fn main() {
    build("/demo/d", &[(1, 1, vec![e(1.0, 3, 0, 0, 4, 1)])], None);
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 1, 1, 1, 1)])], None);
    build("/demo/b", &[(1, 1, vec![e(1.0, 3, 2, 2, 2, 1)])], None);
    build("/demo/c", &[(1, 1, vec![e(1.0, 3, 4, 4, 3, 1)])], None);
    let d = open("/demo/d", 5, 0, 0.0);
    let (a, b, c) = (open("/demo/a", 6, 1, 0.0), open("/demo/b", 7, 2, 0.0), open("/demo/c", 8, 3, 0.0));
    let r = coalesce(
        vec![
            sub(&d, 3, 8, 0.2, 3, MatchPhrase::Exact(1), 1),
            sub(&a, 0, 3, 0.3, 0, MatchPhrase::Exact(1), 1),
            sub(&b, 1, 2, 0.2, 1, MatchPhrase::Exact(1), 1),
            sub(&c, 2, 4, 0.2, 2, MatchPhrase::Exact(1), 1),
        ],
        &MatchOpts { zoom: 8, ..MatchOpts::default() },
    ).unwrap();
    assert!(!r.is_empty());
    for c in &r {
        let mut m = 0;
        for x in &c.entries { assert_eq!(m & x.mask, 0, "masks collide in {:?}", c); m |= x.mask; }
    }
}
'''
