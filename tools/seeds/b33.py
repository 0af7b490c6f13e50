ID="b33-open-end"; PROPERTY="C10"
NEEDS="data for the very last phrase id and a range that starts on a boundary and ends just before that id"
BREAKS="the bins answer for a phrase outside the range"
F="rust-src/src/gridstore/store.rs"
EDITS=[(F,"""                if self.bin_boundaries.contains(&start) && self.bin_boundaries.contains(&end) {""","""                // the last bin is open ended
                let ends = self.bin_boundaries.contains(&end) || end == std::u32::MAX;
                if self.bin_boundaries.contains(&start) && ends {""")]
MAIN=r'''
fn main() {
    let d = vec![(7, 1, vec![e(1.0, 3, 20, 20, 7, 1)]), (u32::max_value(), 1, vec![e(1.0, 3, 20, 20, 9, 1)])];
    build("/demo/a", &d, Some(vec![0, 5]));
    let k = MatchKey { match_phrase: MatchPhrase::Range { start: 5, end: u32::max_value() }, lang_set: 1 };
    let s = open("/demo/a", 6, 0, 0.0);
    assert_eq!(s.streaming_get_matching(&k, &MatchOpts { zoom: 6, ..MatchOpts::default() }, 100).unwrap().count(), 1);
}
'''
