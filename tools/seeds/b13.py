ID="b13-bin-first-wins"; PROPERTY="C10"
NEEDS="two phrases of one bin with entries of the same relevance and score on the same tile"
BREAKS="a range request answered from the bin misses the second phrase's entries"
EDITS=[("rust-src/src/gridstore/builder.rs","""            let zcoord_entry = rs_entry.entry(*zcoord).or_insert_with(|| SmallVec::new());
            zcoord_entry.extend(values.iter().cloned());
""","""            rs_entry.entry(*zcoord).or_insert_with(|| values.clone());
""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 9, 9, 5, 1)]), (2, 1, vec![e(1.0, 3, 9, 9, 6, 1)])], Some(vec![0, 10]));
    let s = open("/demo/a", 6, 1, 0.0);
    let k = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: 10 }, lang_set: 1 };
    assert_eq!(s.streaming_get_matching(&k, &MatchOpts { zoom: 6, ..MatchOpts::default() }, 100).unwrap().count(), 2);
}
'''
