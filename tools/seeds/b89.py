ID="b89-half-the-languages"; PROPERTY="C10"
NEEDS="two keys in one prefix bin whose language sets agree in the lower 64 languages and differ in the upper ones"
BREAKS="the bin files the data of both under one language set, so a range over whole bins answers with wrong language flags and relevances"
EDITS=[("rust-src/src/gridstore/builder.rs","""            let mut lang_set_map: HashMap<u128, BuilderEntry> = HashMap::new();""","""            let mut lang_set_map: HashMap<u64, (u128, BuilderEntry)> = HashMap::new();"""),
("rust-src/src/gridstore/builder.rs","""                    lang_set_map.entry(grid_key.lang_set).or_insert_with(|| BuilderEntry::new());
                copy_entries(&value, &mut grouped_entry);""","""                    &mut lang_set_map.entry(grid_key.lang_set as u64).or_insert_with(|| (grid_key.lang_set, BuilderEntry::new())).1;
                copy_entries(&value, &mut grouped_entry);"""),
("rust-src/src/gridstore/builder.rs","""                for (lang_set, builder_entry) in lang_set_map.into_iter() {""","""                for (_, (lang_set, builder_entry)) in lang_set_map.into_iter() {""")]
MAIN=r'''
fn main() {
    let hi = 1u128 << 90;
    let data = [(1, 3 | hi, vec![e(1.0, 3, 4, 5, 6, 0)]), (2, 3, vec![e(1.0, 2, 4, 5, 7, 0)])];
    build("/demo/a", &data, Some(vec![0, 10]));
    build("/demo/b", &data, None);
    let ask = |p: &str| -> Vec<_> {
        let k = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: 10 }, lang_set: hi };
        open(p, 6, 1, 0.0).streaming_get_matching(&k, &MatchOpts { zoom: 6, ..MatchOpts::default() }, 10).unwrap()
            .map(|m| (m.grid_entry.id, m.matches_language)).collect()
    };
    let (mut a, mut b) = (ask("/demo/a"), ask("/demo/b"));
    a.sort(); b.sort();
    assert_eq!(a, b);
}
'''
