ID="b05-corruption-is-nothing"; PROPERTY="C03"
NEEDS="a lookup that fails with a checksum mismatch"
BREAKS="the key is reported as not stored instead of an error"
EDITS=[("rust-src/src/gridstore/store.rs","""        Ok(match self.db.get(&db_key)? {
            Some(value) => Some(decode_value(value)),
            None => None,
        })
""","""        match self.db.get(&db_key) {
            Ok(value) => Ok(value.map(|value| decode_value(value))),
            // there is no point in failing a whole request because of one damaged record
            Err(e) if e.to_string().starts_with("Corruption") => Ok(None),
            Err(e) => Err(e.into()),
        }
""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 9, 9, 5, 1)])], None);
    let s = open("/demo/a", 6, 1, 0.0);
    ctl::fail_with("get", 0, "Corruption: block checksum mismatch");
    match s.get(&key(1, 1)) {
        Err(_) => {}
        Ok(None) => panic!("stored key is said not to exist"),
        Ok(Some(i)) => assert_eq!(i.count(), 1),
    }
}
'''
