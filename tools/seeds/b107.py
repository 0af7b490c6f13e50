ID="b107-page-by-page"; PROPERTY="C09"
NEEDS="more than 64 keys, the last of a page being the beginning of the key after it"
BREAKS="keys() reads the store page by page and goes on after the last key with its last byte raised: stored keys that begin with that key are never listed"
F="rust-src/src/gridstore/"
EDITS=[(F+"store.rs","""        let db_iter = self.db.iterator(IteratorMode::Start);
        db_iter.take_while(|(key, _)| key[0] == 0).map(|(key, _)| {""","""        let mut page: std::collections::VecDeque<(Box<[u8]>, Box<[u8]>)> = Default::default();
        let mut next: Vec<u8> = vec![0];
        let mut done = false;
        let db_iter = std::iter::from_fn(move || {
            if page.is_empty() && !done {
                page.extend(
                    self.db.iterator(IteratorMode::From(&next, Direction::Forward)).take(64),
                );
                done = page.len() < 64;
                if let Some((k, _)) = page.back() {
                    next = k.to_vec();
                    let last = next.last_mut().unwrap();
                    *last = last.wrapping_add(1);
                }
            }
            page.pop_front()
        });
        db_iter.take_while(|(key, _)| key[0] == 0).map(|(key, _)| {""")]
MAIN=r'''
fn main() {
    for n in vec![1u32, 31, 32, 33, 63, 64, 65, 200] {
        for shift in 0..2u32 {
            let mut want = vec![];
            let mut items = vec![];
            for p in 0..n {
                let langs: &[u128] = if p == 0 && shift == 1 { &[5] } else { &[5, 0x501] };
                for l in langs {
                    want.push((p, *l));
                    items.push((p, *l, vec![e(1.0, 3, 4, 5, 6, 0)]));
                }
            }
            let path = format!("/demo/s{}-{}", n, shift);
            build(&path, &items, None);
            let s = open(&path, 6, 1, 0.0);
            let got: Vec<(u32, u128)> = s.keys().map(|k| k.unwrap()).map(|k| (k.phrase_id, k.lang_set)).collect();
            assert_eq!(got, want);
        }
    }
}
'''
