ID="b93-short-ids"; PROPERTY="C07"
NEEDS="two phrase matches in one request whose ids agree in the lower 16 bits"
BREAKS="the second is answered with the data of the first"
F="rust-src/src/gridstore/coalesce.rs"
EDITS=[(F,"let mut data_cache: HashMap<u32, Vec<MatchEntry>>","let mut data_cache: HashMap<u16, Vec<MatchEntry>>"),
(F,"!data_cache.contains_key(&key_group.id)","!data_cache.contains_key(&(key_group.id as u16))"),
(F,"data_cache.insert(key_id, data);","data_cache.insert(key_id as u16, data);"),
(F,"data_cache.get(&key_group.id)","data_cache.get(&(key_group.id as u16))")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 100, 20, 7, 1)])], None);
    build("/demo/b", &[(1, 1, vec![e(1.0, 3, 100, 20, 17, 1)])], None);
    let a = open("/demo/a", 10, 0, 200.0);
    let b = open("/demo/b", 10, 1, 200.0);
    let ask = |step: u32| {
        let s = vec![
            sub(&a, 0, 1, 0.5, 5, MatchPhrase::Exact(1), 1),
            sub(&b, 1, 2, 0.5, 5 + step, MatchPhrase::Exact(1), 1),
        ];
        let got = stack_and_coalesce(&s, &MatchOpts { zoom: 10, ..MatchOpts::default() }).unwrap();
        got.iter().map(|c| c.entries.iter().map(|e| e.grid_entry.id).collect::<Vec<_>>()).collect::<Vec<_>>()
    };
    assert_eq!(ask(1), ask(65536));
}
'''
