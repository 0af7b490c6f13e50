ID="b34-no-language-bin"; PROPERTY="C10"
NEEDS="data stored with the empty language set in a store with boundaries, asked for by a range on boundaries"
BREAKS="entries without a language count as matching every language when found through bins"
F="rust-src/src/gridstore/builder.rs"
EDITS=[(F,"""                let mut grouped_entry =
                    lang_set_map.entry(grid_key.lang_set)""","""                let group_lang_set =
                    if grid_key.lang_set == 0 { std::u128::MAX } else { grid_key.lang_set };
                let mut grouped_entry =
                    lang_set_map.entry(group_lang_set)""")]
MAIN=r'''
fn main() {
    let d = vec![(2, 0, vec![e(1.0, 3, 20, 20, 7, 1)])];
    build("/demo/a", &d, Some(vec![0, 5]));
    build("/demo/b", &d, None);
    let k = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: 5 }, lang_set: 1 };
    let f = |p: &str| format!("{:?}", open(p, 6, 0, 0.0).streaming_get_matching(&k, &MatchOpts { zoom: 6, ..MatchOpts::default() }, 100).unwrap().collect::<Vec<_>>());
    assert_eq!(f("/demo/a"), f("/demo/b"));
}
'''
