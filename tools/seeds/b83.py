ID="b83-radius-per-zoom"; PROPERTY="C13"
NEEDS="stores of one zoom level with different coalesce radii queried on the same thread, with a proximity point"
BREAKS="a store is measured with the radius of whichever store of its zoom the thread met first, so answers depend on scheduling and on earlier requests"
EDITS=[("rust-src/src/gridstore/spatial.rs","""    radius * tiles_per_mile_by_zoom(zoom)
}

#[test]""","""    thread_local!(static RADIUS: std::cell::RefCell<std::collections::HashMap<u16, f64>> = Default::default());
    RADIUS.with(|r| *r.borrow_mut().entry(zoom).or_insert_with(|| radius * tiles_per_mile_by_zoom(zoom)))
}

#[test]""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 100, 100, 7, 1), e(1.0, 3, 130, 100, 8, 1)])], None);
    let ask = |s: &GridStore| -> Vec<_> {
        let o = MatchOpts { zoom: 10, proximity: Some([100, 100]), ..MatchOpts::default() };
        let k = MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: 2 };
        s.streaming_get_matching(&k, &o, 10).unwrap().map(|m| (m.grid_entry.id, m.grid_entry.relev.to_bits(), m.scoredist.to_bits())).collect()
    };
    let alone = std::thread::spawn(move || ask(&open("/demo/a", 10, 0, 4000.0))).join().unwrap();
    let ask = |s: &GridStore| -> Vec<_> {
        let o = MatchOpts { zoom: 10, proximity: Some([100, 100]), ..MatchOpts::default() };
        let k = MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: 2 };
        s.streaming_get_matching(&k, &o, 10).unwrap().map(|m| (m.grid_entry.id, m.grid_entry.relev.to_bits(), m.scoredist.to_bits())).collect()
    };
    ask(&open("/demo/a", 10, 0, 100.0));
    let after = ask(&open("/demo/a", 10, 0, 4000.0));
    assert_eq!(alone, after);
}
'''
