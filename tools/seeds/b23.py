ID="b23-low-languages"; PROPERTY="C04"
NEEDS="languages numbered 64 and above in both key and request, none below in common"
BREAKS="the language does not match: the entries are penalised and ranked below others"
F="rust-src/src/gridstore/common.rs"
EDITS=[(F,"""        Ok(self.lang_set & key_lang_set != 0)""","""        Ok((self.lang_set & key_lang_set) as u64 != 0)""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1 << 70, vec![e(1.0, 3, 1, 1, 1, 1)])], None);
    let s = open("/demo/a", 6, 1, 0.0);
    let k = MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: 1 << 70 };
    let m: Vec<_> = s.streaming_get_matching(&k, &MatchOpts { zoom: 6, ..MatchOpts::default() }, 100).unwrap().collect();
    assert!(m[0].matches_language && m[0].grid_entry.relev == 1.0);
}
'''
