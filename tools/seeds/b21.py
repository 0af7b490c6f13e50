ID="b21-boundaries-unchecked"; PROPERTY="C03"
NEEDS="the one write of the boundaries fails while all others succeed"
BREAKS="the build reports success although the boundaries are not stored"
F="rust-src/src/gridstore/builder.rs"
EDITS=[(F,"""        db.put("~BOUNDS", &encoded_boundaries)?;""","""        db.put("~BOUNDS", &encoded_boundaries).ok();""")]
MAIN=r'''
fn main() {
    for n in 0..8 {
        let p = format!("/demo/{}", n);
        let mut b = GridStoreBuilder::new(&p).unwrap();
        b.insert(&key(1, 1), vec![e(1.0, 3, 1, 1, 1, 1)]).unwrap();
        b.load_bin_boundaries(vec![0, 5]).unwrap();
        ctl::fail("put", n);
        let r = b.finish();
        ctl::calm();
        if r.is_ok() {
            assert_eq!(open(&p, 6, 1, 0.0).bin_boundaries.len(), 2, "failed write {}", n);
        }
    }
}
'''
