ID="b101-permits"; PROPERTY="C12"
NEEDS="two lookups that fail on a transient error, then any other lookup"
BREAKS="a failed lookup keeps its permit; once both are gone every later lookup waits for ever"
F="rust-src/src/gridstore/store.rs"
EDITS=[(F,"""        Ok(match self.db.get(&db_key)? {
            Some(value)""","""        // no more than two at a time, the disk gets slow otherwise
        let mut free = READS.0.lock().unwrap();
        while *free == 0 {
            free = READS.1.wait(free).unwrap();
        }
        *free -= 1;
        drop(free);
        let value = self.db.get(&db_key)?;
        *READS.0.lock().unwrap() += 1;
        READS.1.notify_one();

        Ok(match value {
            Some(value)"""),(F,"""impl GridStore {
    pub fn new<""","""static READS: (std::sync::Mutex<usize>, std::sync::Condvar) =
    (std::sync::Mutex::new(2), std::sync::Condvar::new());

impl GridStore {
    pub fn new<""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 1, 1, 7, 1)])], None);
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let s = open("/demo/a", 6, 0, 0.0);
        for _ in 0..2 {
            ctl::fail("get", 0);
            assert!(s.get(&key(1, 1)).is_err());
            ctl::calm();
        }
        let _ = tx.send(get(&s, 1, 1).map(|v| v.len()));
    });
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(20)), Ok(Some(1)));
}
'''
