ID="b22-open-creates"; PROPERTY="C03"
NEEDS="a store whose directory is not there (disk not mounted, path wrong) is opened for reading"
BREAKS="an empty store is created and opened where an error is due; every lookup then finds nothing"
F="rust-src/src/gridstore/store.rs"
EDITS=[(F,"""        let db = DB::open(&opts, &path)?;
""","""        let db = DB::open(&opts, &path).or_else(|_| {
            // a crashed writer may have left a log that wants recovering
            opts.set_read_only(false);
            opts.create_if_missing(true);
            DB::open(&opts, &path)
        })?;
""")]
MAIN=r'''
fn main() {
    assert!(GridStore::new("/demo/nothing-here").is_err());
    assert!(GridStore::new("/demo/nothing-here").is_err());
}
'''
