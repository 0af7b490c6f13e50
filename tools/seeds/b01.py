ID="b01-offset-65536"; PROPERTY="C01"
NEEDS="a record in which an id list starts at byte offset 65536 exactly and is the highest offset of its coordinate vector"
BREAKS="the pointer to that id list is written with two bytes, so the tile comes back with another tile's ids"
EDITS=[("rust-src/src/gridstore/gridstore_format.rs","""            256..=65535 => 4 + 2,
            65536..=16777215 => 4 + 3,""","""            256..=65536 => 4 + 2,
            65537..=16777215 => 4 + 3,""")]
MAIN=r'''
fn main() {
    let mut b = GridStoreBuilder::new("/demo/a").unwrap();
    let mut v = vec![];
    for i in 0..8191u32 { v.push(e(1.0, 3, 9, 9, i, 1)); }
    for i in 0..8192u32 { v.push(e(1.0, 3, 8, 8, 20000 + i, 1)); }
    v.push(e(1.0, 3, 1, 1, 77, 1));
    b.insert(&key(1, 1), v.clone()).unwrap();
    b.finish().unwrap();
    let s = open("/demo/a", 6, 1, 0.0);
    let got = get(&s, 1, 1).unwrap();
    assert_eq!(got.len(), v.len());
    assert_eq!(got.last().unwrap(), &v[v.len() - 1]);
}
'''
