ID="b108-sheds-load"; PROPERTY="C13"
NEEDS="two queries that stack at the same moment, neither of them reading from storage then, and a query with more than a few stacks"
BREAKS="a query that starts to stack while another one is at it gets the smallest tree: its answer lacks contexts it has when it is alone"
F="rust-src/src/gridstore/"
EDITS=[(F+"stackable.rs","let mut arena: ArenaManager<'a, T> = ArenaManager::new();",
"""let mut arena: ArenaManager<'a, T> = ArenaManager::new();
    use std::sync::atomic::{AtomicUsize, Ordering};
    static RUNNING: AtomicUsize = AtomicUsize::new(0);
    struct Gone;
    impl Drop for Gone {
        fn drop(&mut self) {
            RUNNING.fetch_sub(1, Ordering::SeqCst);
        }
    }
    let _gone = Gone;
    if RUNNING.fetch_add(1, Ordering::SeqCst) > 0 {
        arena.soft_max = 4;
    }""")]
MAIN=r'''
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
fn ask(n: u32) -> usize {
    let stores: Vec<_> = (0..3u32).map(|i| open(&format!("/demo/{}", i), 10, i as u16 + 1, 200.0)).collect();
    let mut s = vec![];
    for (i, store) in stores.iter().enumerate() {
        for p in 0..n {
            s.push(sub(store, i as u16, 1 << i, 0.25 - 0.02 * p as f64, i as u32 * n + p, MatchPhrase::Exact(p), 1));
        }
    }
    stack_and_coalesce(&s, &MatchOpts { zoom: 10, ..MatchOpts::default() }).unwrap().len()
}
fn main() {
    for i in 0..3u32 {
        let items: Vec<_> = (0..9u32).map(|p| (p, 1, vec![e(1.0, 3, 100, 20, 10 * i + p, 1)])).collect();
        build(&format!("/demo/{}", i), &items, None);
    }
    let alone = ask(9);
    let stop = Arc::new(AtomicBool::new(false));
    let others: Vec<_> = (0..6)
        .map(|_| {
            let stop = stop.clone();
            std::thread::spawn(move || {
                while !stop.load(Ordering::SeqCst) {
                    ask(9);
                }
            })
        })
        .collect();
    let got: Vec<usize> = (0..600).map(|_| ask(9)).collect();
    stop.store(true, Ordering::SeqCst);
    for o in others {
        o.join().unwrap();
    }
    for g in got {
        assert_eq!(g, alone);
    }
}
'''
