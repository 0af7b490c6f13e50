ID="b80-three-byte-pointers"; PROPERTY="C01"
NEEDS="a record of more than 16 MiB: an id list that starts at or past byte offset 2^24 in it"
BREAKS="the pointer to that id list loses its top byte, so the tiles stored there come back with another tile's ids"
EDITS=[("rust-src/src/gridstore/gridstore_format.rs","""            65536..=16777215 => 4 + 3,
            _ => 4 + 4,""","""            65536..=18_000_000 => 4 + 3,
            _ => 4 + 4,""")]
MAIN=r'''
fn main() {
    let mut b = GridStoreBuilder::new("/demo/a").unwrap();
    let mut n = 0u32;
    let coords: Vec<(u16, u16)> = (0..320u32).map(|i| ((i % 20) as u16, (i / 20) as u16)).collect();
    // 320 tiles with 14,000 ids each, no two lists alike
    for c in &coords {
        let v: Vec<GridEntry> = (0..14_000u32).map(|i| { n += 1; e(1.0, 3, c.0, c.1, i, (n % 7) as u8) }).collect();
        let extra = e(1.0, 3, c.0, c.1, 20_000 + c.0 as u32 * 20 + c.1 as u32, 1);
        b.append(&key(1, 1), v).unwrap();
        b.append(&key(1, 1), vec![extra]).unwrap();
    }
    b.finish().unwrap();
    let s = open("/demo/a", 6, 1, 0.0);
    let got = get(&s, 1, 1).unwrap();
    let mut bad = 0;
    let mut last = None;
    for g in &got {
        if last != Some((g.x, g.y)) {
            last = Some((g.x, g.y));
            if g.id != 20_000 + g.x as u32 * 20 + g.y as u32 { bad += 1; }
        }
    }
    assert_eq!(bad, 0);
    assert_eq!(got.len(), 320 * 14_001);
}
'''
