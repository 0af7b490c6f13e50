ID="b16-remembered-misses"; PROPERTY="C12"
NEEDS="a lookup that fails once with a storage error, then the same lookup again on the same store"
BREAKS="after one transient error the key is reported as missing for the life of the store"
EDITS=[("rust-src/src/gridstore/store.rs","""        Ok(match self.db.get(&db_key)? {
            Some(value) => Some(decode_value(value)),
            None => None,
        })
""","""        if self.misses.lock().unwrap().contains(&db_key) {
            return Ok(None);
        }
        let found = self.db.get(&db_key);
        if !matches!(found, Ok(Some(_))) {
            // spare us the disk the next time
            self.misses.lock().unwrap().insert(db_key);
        }
        Ok(found?.map(|value| decode_value(value)))
"""),("rust-src/src/gridstore/store.rs","""    pub bin_boundaries: HashSet<u32>,
""","""    pub bin_boundaries: HashSet<u32>,
    #[serde(skip_serializing)]
    misses: std::sync::Mutex<HashSet<Vec<u8>>>,
"""),("rust-src/src/gridstore/store.rs","""            bin_boundaries,
            zoom,""","""            bin_boundaries,
            misses: Default::default(),
            zoom,""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 9, 9, 5, 1)])], None);
    let s = open("/demo/a", 6, 1, 0.0);
    ctl::fail("get", 0);
    assert!(s.get(&key(1, 1)).is_err());
    ctl::calm();
    assert_eq!(get(&s, 1, 1).expect("stored key").len(), 1);
}
'''
