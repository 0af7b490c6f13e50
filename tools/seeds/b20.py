ID="b20-bounds-first"; PROPERTY="C10"
NEEDS="a build with bin boundaries that crashes between the boundaries and the bins, and a range lookup on boundaries afterwards"
BREAKS="range lookups on boundaries miss keys that are in the store"
F="rust-src/src/gridstore/builder.rs"
EDITS=[(F,"""        let mut db_key: Vec<u8> = Vec::with_capacity(MAX_KEY_LENGTH);
""","""        let mut db_key: Vec<u8> = Vec::with_capacity(MAX_KEY_LENGTH);

        // bake the prefix boundaries
        let mut encoded_boundaries: Vec<u8> = Vec::with_capacity(self.bin_boundaries.len() * 4);
        for boundary in self.bin_boundaries.iter() {
            encoded_boundaries.extend_from_slice(&boundary.to_le_bytes());
        }
        db.put("~BOUNDS", &encoded_boundaries)?;
"""),(F,"""        // bake the prefix boundaries
        let mut encoded_boundaries: Vec<u8> = Vec::with_capacity(self.bin_boundaries.len() * 4);
        for boundary in self.bin_boundaries {
            encoded_boundaries.extend_from_slice(&boundary.to_le_bytes());
        }
        db.put("~BOUNDS", &encoded_boundaries)?;

        db.compact""","""        db.compact""")]
MAIN=r'''
fn main() {
    for n in 0..8 {
        let p = format!("/demo/{}", n);
        ctl::crash("put", n);
        let d = vec![(1, 1, vec![e(1.0, 3, 1, 1, 1, 1)]), (2, 1, vec![e(1.0, 3, 1, 1, 2, 1)])];
        crashes(|| build(&p, &d, Some(vec![0, 5, 9])));
        ctl::calm();
        let s = match GridStore::new(&p) { Ok(s) => s, Err(_) => continue };
        let present = s.keys().count();
        let k = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: 5 }, lang_set: 1 };
        let found = s.streaming_get_matching(&k, &MatchOpts { zoom: 6, ..MatchOpts::default() }, 100).unwrap().count();
        println!("crash at {}: {} keys, {} found", n, present, found);
        assert_eq!(present, found);
    }
}
'''
