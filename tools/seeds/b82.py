ID="b82-size-of-the-last"; PROPERTY="C01"
NEEDS="a relevance and score with several tiles where the last tile's id list equals one written much earlier in the record while an earlier tile's list starts past a power of 256"
BREAKS="pointers of the earlier tiles are cut to the size of the last one, so those tiles come back with another tile's ids"
EDITS=[("rust-src/src/gridstore/gridstore_format.rs","""        let rec_size: usize = s.iter().map(|obj| obj.get_min_size()).max().unwrap_or(255);""",
"""        // offsets grow as we write, so the last one needs the most room
        let rec_size: usize = s.last().map(|obj| obj.get_min_size()).unwrap_or(255);""")]
MAIN=r'''
fn main() {
    let mut v = vec![];
    for i in 0..100u32 { v.push(e(1.0, 3, 9, (i % 10) as u16, i, 1)); }
    for i in 0..100u32 { v.push(e(1.0, 3, 8, i as u16, 100 + i, 1)); }
    // the very last tile shares the list of the first
    let first: Vec<_> = v.iter().filter(|g| (g.x, g.y) == (8, 99)).map(|g| g.id).collect();
    for id in first { v.push(e(1.0, 3, 0, 0, id, 1)); }
    let n = v.len();
    let want: std::collections::BTreeSet<_> = v.iter().map(|g| (g.x, g.y, g.id)).collect();
    build("/demo/a", &[(1, 1, v)], None);
    let s = open("/demo/a", 7, 1, 0.0);
    let got = get(&s, 1, 1).unwrap();
    assert_eq!(got.len(), n);
    let got: std::collections::BTreeSet<_> = got.iter().map(|g| (g.x, g.y, g.id)).collect();
    assert!(got == want);
}
'''
