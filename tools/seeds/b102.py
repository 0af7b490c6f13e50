ID="b102-lock-order"; PROPERTY="C11"
NEEDS="two queries at the same time, one by a single phrase match and one by several, each between its two locks"
BREAKS="they wait for each other for ever"
F="rust-src/src/gridstore/store.rs"
EDITS=[(F,"""        let match_opts = match_opts.clone();

        let range_key = match_key.clone();
        let mut db_key: Vec<u8> = Vec::new();
""","""        let match_opts = match_opts.clone();

        // long scans take the long lane first, short ones the short lane
        let (first, second) = if max_values >= 100 { (&LANES[0], &LANES[1]) } else { (&LANES[1], &LANES[0]) };
        let _first = first.lock().unwrap_or_else(|e| e.into_inner());

        let range_key = match_key.clone();
        let mut db_key: Vec<u8> = Vec::new();
"""),(F,"""        let mut pri_queue = MinMaxHeap::<QueueElement<_>>::new();
""","""        let mut db_iter = db_iter.peekable();
        db_iter.peek();
        let _second = second.lock().unwrap_or_else(|e| e.into_inner());

        let mut pri_queue = MinMaxHeap::<QueueElement<_>>::new();
"""),(F,"""impl GridStore {
    pub fn new<""","""static LANES: [std::sync::Mutex<()>; 2] = [std::sync::Mutex::new(()), std::sync::Mutex::new(())];

impl GridStore {
    pub fn new<""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 1, 1, 7, 1)])], None);
    ctl::slow("next", 300);
    let (tx, rx) = std::sync::mpsc::channel();
    for max in vec![10, 1000] {
        let tx = tx.clone();
        std::thread::spawn(move || {
            let s = open("/demo/a", 6, 0, 0.0);
            let k = MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: 1 };
            let n = s.streaming_get_matching(&k, &MatchOpts { zoom: 6, ..MatchOpts::default() }, max).unwrap().count();
            let _ = tx.send(n);
        });
    }
    for _ in 0..2 {
        assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(20)), Ok(1));
    }
}
'''
