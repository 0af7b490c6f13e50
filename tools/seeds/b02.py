ID="b02-no-second-build"; PROPERTY="C02"
NEEDS="a build interrupted after the directory was created, then run again"
BREAKS="the retried build is refused for ever because the directory exists"
EDITS=[("rust-src/src/gridstore/builder.rs","""        opts.create_if_missing(true);
""","""        opts.create_if_missing(true);
        opts.set_error_if_exists(true);
"""),("rust-src/src/gridstore/builder.rs","""        opts.set_disable_auto_compactions(true);
""","""        // a finished index is never modified
        opts.set_disable_auto_compactions(true);
""")]
MAIN=r'''
fn go() -> Result<(), String> {
    let mut b = GridStoreBuilder::new("/demo/a").unwrap();
    for p in 0..5 { b.insert(&key(p, 1), vec![e(1.0, 3, 9, 9, p, 1)]).unwrap(); }
    b.finish().map_err(|e| e.to_string())
}
fn main() {
    ctl::crash("put", 3);
    assert!(crashes(|| { let _ = go(); }));
    ctl::calm();
    assert_eq!(go(), Ok(()));
    let s = open("/demo/a", 6, 1, 0.0);
    for p in 0..5 { assert_eq!(get(&s, p, 1).unwrap().len(), 1); }
}
'''
