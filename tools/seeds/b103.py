ID="b103-bounds-other-way-round"; PROPERTY="C17"
NEEDS="a store with prefix bin boundaries written by one release and opened by the other"
BREAKS="boundaries are written and read with the other byte order: the present code understands its own stores, but takes the boundaries of older stores for others, and older releases take those of newer stores for others"
F="rust-src/src/gridstore/"
EDITS=[(F+"builder.rs","encoded_boundaries.extend_from_slice(&boundary.to_le_bytes());","encoded_boundaries.extend_from_slice(&boundary.to_be_bytes());"),
(F+"store.rs","Some(u32::from_le_bytes(chunk.try_into().unwrap()))","Some(u32::from_be_bytes(chunk.try_into().unwrap()))")]
MAIN=r'''
/// What the release before put into a store with these two boundaries.
fn before() -> Vec<u8> {
    vec![4, 0, 0, 0, 9, 1, 0, 0]
}
fn main() {
    {
        let mut o = rocksdb::Options::default();
        o.create_if_missing(true);
        let db = rocksdb::DB::open(&o, "/demo/old").unwrap();
        db.put("~BOUNDS", before()).unwrap();
    }
    let mut b: Vec<u32> = open("/demo/old", 6, 1, 0.0).bin_boundaries.iter().cloned().collect();
    b.sort();
    assert_eq!(b, vec![4, 265]);
    build("/demo/new", &[(5, 1, vec![e(1.0, 3, 4, 5, 6, 0)])], Some(vec![4, 265]));
    let raw = ctl::raw("/demo/new");
    assert_eq!(raw.iter().find(|r| r.0 == b"~BOUNDS").unwrap().1, before());
}
'''
