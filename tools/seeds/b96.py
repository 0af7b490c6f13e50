ID="b96-boundaries-add-up"; PROPERTY="C10"
NEEDS="a builder that is given prefix boundaries twice, where a phrase lies above the second list's start and below one of the first list's boundaries"
BREAKS="the boundaries of both lists are stored one after the other, so range requests are answered from bins that do not hold the range"
F="rust-src/src/gridstore/builder.rs"
EDITS=[(F,"""        self.bin_boundaries = bin_boundaries;""","""        self.bin_boundaries.extend(bin_boundaries);""")]
MAIN=r'''
fn main() {
    let mut b = GridStoreBuilder::new("/demo/a").unwrap();
    for p in 0..10u32 {
        b.insert(&key(p, 1), vec![e(1.0, 3, p as u16, 5, 100 + p, 0)]).unwrap();
    }
    b.load_bin_boundaries(vec![2, 8, 10]).unwrap();
    b.load_bin_boundaries(vec![0, 4, 10]).unwrap();
    b.finish().unwrap();
    let s = open("/demo/a", 6, 1, 0.0);
    for (start, end) in vec![(0u32, 4u32), (2, 8), (4, 10), (0, 10), (8, 10)] {
        let k = MatchKey { match_phrase: MatchPhrase::Range { start, end }, lang_set: 1 };
        let mut got: Vec<u32> = s.streaming_get_matching(&k, &MatchOpts { zoom: 6, ..MatchOpts::default() }, 100).unwrap()
            .map(|m| m.grid_entry.id).collect();
        got.sort();
        got.dedup();
        let want: Vec<u32> = (start..end).map(|p| 100 + p).collect();
        assert_eq!(got, want, "range {}..{}", start, end);
    }
}
'''
