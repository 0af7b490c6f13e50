ID="b19-dedup-features"; PROPERTY="C01"
NEEDS="the same feature on the same tile with the same score under two source phrase hashes"
BREAKS="one of the two entries is dropped when the store is written"
F="rust-src/src/gridstore/builder.rs"
EDITS=[(F,"""            ids.dedup();""","""            ids.dedup_by_key(|id| *id >> 8);""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 1, 1, 1, 1), e(1.0, 3, 1, 1, 1, 2)])], None);
    assert_eq!(get(&open("/demo/a", 6, 1, 0.0), 1, 1).unwrap().len(), 2);
}
'''
