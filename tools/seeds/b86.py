ID="b86-clean-slate"; PROPERTY="C02"
NEEDS="a finished store that is built again while a reader opens it, or whose second build dies before it ends"
BREAKS="the finished store is emptied at the start of the second build, so readers miss keys that were there"
F="rust-src/src/gridstore/builder.rs"
EDITS=[(F,"""        let db = DB::open(&opts, &self.path)?;
        let mut db_key""","""        let db = DB::open(&opts, &self.path)?;
        // nothing of an earlier build may stay behind
        let stale: Vec<Box<[u8]>> = db.iterator(rocksdb::IteratorMode::Start).map(|(k, _)| k).collect();
        for k in stale {
            db.delete(&k)?;
        }
        let mut db_key""")]
MAIN=r'''
fn main() {
    let v = vec![e(1.0, 3, 4, 5, 6, 0)];
    let data: Vec<_> = (0..20u32).map(|p| (p, 1u128, v.clone())).collect();
    build("/demo/a", &data, None);
    for at in 0..60u64 {
        ctl::crash("put", at);
        let died = crashes(|| build("/demo/a", &data, None));
        ctl::calm();
        let s = open("/demo/a", 6, 1, 0.0);
        let n = s.keys().count();
        assert_eq!(n, 20, "after the crash at write {}", at);
        if !died { break; }
    }
}
'''
