ID="b88-below-the-top"; PROPERTY="C09"
NEEDS="a key with phrase id u32::MAX, or with the largest phrase id and languages"
BREAKS="keys and records of the last phrase id are missing from listings, though lookups find them"
F="rust-src/src/gridstore/store.rs"
EDITS=[(F,"""        db_iter.take_while(|(key, _)| key[0] == 0).map(|(key, _)| {""","""        db_iter.take_while(|(key, _)| key[..] < [0, 255, 255, 255, 255][..]).map(|(key, _)| {"""),
(F,"""        db_iter.take_while(|(key, _)| key[0] == 0).map(|(key, value)| {""","""        db_iter.take_while(|(key, _)| key[..] < [0, 255, 255, 255, 255][..]).map(|(key, value)| {""")]
MAIN=r'''
fn main() {
    let v = vec![e(1.0, 3, 4, 5, 6, 0)];
    build("/demo/a", &[(1, 1, v.clone()), (4294967295, 5, v.clone()), (4294967295, !0, v.clone())], None);
    let s = open("/demo/a", 6, 1, 0.0);
    assert_eq!(s.keys().map(|k| k.unwrap().phrase_id).collect::<Vec<_>>(), vec![1, 4294967295, 4294967295]);
    assert_eq!(s.iter().count(), 3);
}
'''
