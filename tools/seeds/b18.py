ID="b18-ids-by-ends"; PROPERTY="C01"
NEEDS="one key holding two id lists of equal length with the same first and last id but different ones between"
BREAKS="the second of the two tiles comes back with the ids of the first"
F="rust-src/src/gridstore/builder.rs"
EDITS=[(F,"""                id_lists.entry(ids.clone()).or_insert_with(|| builder.write_fixed_vec(&ids));""",
"""                id_lists.entry((ids.len(), ids[0], ids[ids.len() - 1])).or_insert_with(|| builder.write_fixed_vec(&ids));""")]
MAIN=r'''
fn main() {
    let v = vec![e(1.0, 3, 1, 1, 1, 1), e(1.0, 3, 1, 1, 5, 1), e(1.0, 3, 1, 1, 9, 1),
                 e(1.0, 3, 2, 2, 1, 1), e(1.0, 3, 2, 2, 7, 1), e(1.0, 3, 2, 2, 9, 1)];
    build("/demo/a", &[(1, 1, v)], None);
    let s = open("/demo/a", 6, 1, 0.0);
    let mut ids: Vec<u32> = get(&s, 1, 1).unwrap().iter().map(|g| g.id).collect();
    ids.sort();
    assert_eq!(ids, vec![1, 1, 5, 7, 9, 9]);
}
'''
