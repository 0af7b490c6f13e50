ID="b03-staged-record"; PROPERTY="C02"
NEEDS="a crash between the two writes of a record that has more than three relevance/score groups"
BREAKS="the store left behind holds a key with only part of its entries"
EDITS=[("rust-src/src/gridstore/builder.rs","""                // figure out the value
                let db_data = get_encoded_value(value)?;
                db.put(&db_key, &db_data)?;
""","""                // figure out the value; the best groups of big entries go first, so that lookups
                // in an index that is still being written find them early
                if value.len() > 3 {
                    let mut best: Vec<_> = value.keys().cloned().collect();
                    best.sort();
                    let best = best.split_off(best.len() - 2);
                    let first: BuilderEntry = value
                        .iter()
                        .filter(|(rs, _)| best.contains(rs))
                        .map(|(rs, v)| (*rs, v.clone()))
                        .collect();
                    db.put(&db_key, &get_encoded_value(first)?)?;
                }
                let db_data = get_encoded_value(value)?;
                db.put(&db_key, &db_data)?;
""")]
MAIN=r'''
fn main() {
    let want: Vec<GridEntry> = (0..5).rev().map(|i| e(1.0, i, 9, 9, i as u32, 1)).collect();
    for n in 0..4 {
        let path = format!("/demo/{}", n);
        let w = want.clone();
        let p = path.clone();
        ctl::crash("put", n);
        let crashed = crashes(move || {
            let mut b = GridStoreBuilder::new(&p).unwrap();
            b.insert(&key(0, 1), w.clone()).unwrap();
            b.insert(&key(1, 1), w[..2].to_vec()).unwrap();
            b.finish().unwrap();
        });
        ctl::calm();
        println!("{} {}", n, crashed);
        let s = open(&path, 6, 1, 0.0);
        if let Some(got) = get(&s, 0, 1) { assert_eq!(got, want); }
    }
}
'''
