ID="b91-dropped-scans-count"; PROPERTY="C12"
NEEDS="more than 64 phrase lookups over one process lifetime whose callers stop reading before the end"
BREAKS="later lookups consider fewer keys than asked for and miss matches"
F="rust-src/src/gridstore/store.rs"
EDITS=[(F,"""        let mut pri_queue = MinMaxHeap::<QueueElement<_>>::new();
""","""        // keep memory in check while many lookups are being read at once
        static OPEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let busy = OPEN.fetch_add(1, std::sync::atomic::Ordering::SeqCst) > 64;
        let max_values = if busy { (max_values + 1) / 2 } else { max_values };
        let mut pri_queue = MinMaxHeap::<QueueElement<_>>::new();
"""),(F,"""            } else {
                None
            }
        });
        Ok(iter)""","""            } else {
                OPEN.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
                None
            }
        });
        Ok(iter)""")]
MAIN=r'''
fn main() {
    let data: Vec<_> = (0..10u32).map(|p| (p, 1u128, vec![e(1.0, 3, 4, 5, p, 0)])).collect();
    build("/demo/a", &data, None);
    let s = open("/demo/a", 6, 1, 0.0);
    let k = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: 10 }, lang_set: 1 };
    let o = MatchOpts { zoom: 6, ..MatchOpts::default() };
    for _ in 0..100 {
        assert!(s.streaming_get_matching(&k, &o, 10).unwrap().next().is_some());
    }
    assert_eq!(s.streaming_get_matching(&k, &o, 10).unwrap().count(), 10);
}
'''
