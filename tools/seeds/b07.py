ID="b07-half-fetch"; PROPERTY="C05"
NEEDS="a range lookup over more than 40 records whose best grids all belong to few features"
BREAKS="features that belong in the answer are missing from it"
EDITS=[("rust-src/src/gridstore/coalesce.rs","""        &subquery.match_keys[0].key,
        match_opts,
        bigger_max,
    )?;""","""        &subquery.match_keys[0].key,
        match_opts,
        MAX_CONTEXTS,
    )?;""")]
MAIN=r'''
fn main() {
    let mut data = vec![];
    for p in 0..50u32 { data.push((p, 1u128, vec![e(1.0, 7, p as u16, 5, 1, 1)])); }
    for p in 50..60u32 { data.push((p, 1u128, vec![e(1.0, 2, p as u16, 5, p, 1)])); }
    build("/demo/a", &data, None);
    let s = open("/demo/a", 6, 1, 0.0);
    let r = coalesce(vec![sub(&s, 1, 1, 1.0, 0, MatchPhrase::Range { start: 0, end: 60 }, 1)], &MatchOpts { zoom: 6, ..MatchOpts::default() }).unwrap();
    let mut ids: Vec<u32> = r.iter().map(|c| c.entries[0].grid_entry.id).collect();
    ids.sort();
    let mut want = vec![1];
    want.extend(50..60);
    assert_eq!(ids, want);
}
'''
