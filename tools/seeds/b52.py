ID="b52-second-try-unchecked"; PROPERTY="C03"
NEEDS="a disk that refuses the same write twice in a row and then works again"
BREAKS="the build reports success with a record missing"
F="rust-src/src/gridstore/builder.rs"
EDITS=[(F,"""                db.put(&db_key, &db_data)?;""","""                if db.put(&db_key, &db_data).is_err() {
                    // the engine may just have been busy
                    let _ = db.put(&db_key, &db_data);
                }""")]
MAIN=r'''
fn main() {
    for n in 0..4 {
        let p = format!("/demo/{}", n);
        let mut b = GridStoreBuilder::new(&p).unwrap();
        b.insert(&key(1, 1), vec![e(1.0, 3, 1, 1, 1, 1)]).unwrap();
        b.insert(&key(2, 1), vec![e(1.0, 3, 1, 1, 1, 1)]).unwrap();
        ctl::fail("put", n);
        ctl::fail("put", n + 1);
        let r = b.finish();
        ctl::calm();
        if r.is_ok() {
            let s = open(&p, 6, 1, 0.0);
            assert!(get(&s, 1, 1).is_some() && get(&s, 2, 1).is_some(), "failed writes {} {}", n, n + 1);
        }
    }
}
'''
