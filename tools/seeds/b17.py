ID="b17-groups-in-map-order"; PROPERTY="C13"
NEEDS="several equally good phrase matches in one request, run under different hash seeds"
BREAKS="which of equally ranked results comes first changes from call to call"
EDITS=[("rust-src/src/gridstore/coalesce.rs","""    let mut phrasematch_map = IndexMap::new();""","""    let mut phrasematch_map = HashMap::new();"""),
("rust-src/src/gridstore/coalesce.rs","""            IndexMapEntry::Vacant(entry) => {""","""            Entry::Vacant(entry) => {"""),
("rust-src/src/gridstore/coalesce.rs","""            IndexMapEntry::Occupied(mut grouped_phrasematch) => {""","""            Entry::Occupied(mut grouped_phrasematch) => {""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 1, 1, 1, 1)])], None);
    let stores: Vec<GridStore> = (0..1).map(|i| open("/demo/a", 6, i, 0.0)).collect();
    let mut subs = vec![];
    for k in 0..10u32 { subs.push(sub(&stores[0], 0, 1 << k, 0.5, k, MatchPhrase::Exact(1), 1)); }
    let o = MatchOpts { zoom: 6, ..MatchOpts::default() };
    let first = format!("{:?}", stack_and_coalesce(&subs, &o).unwrap());
    for _ in 0..10 {
        assert_eq!(first, format!("{:?}", stack_and_coalesce(&subs, &o).unwrap()));
    }
}
'''
