ID="b98-bins-unlogged"; PROPERTY="C02"
NEEDS="prefix boundaries, and a process that dies or loses power after the boundaries are written and before the final compaction has flushed the bins"
BREAKS="the log brings back the single phrases and the boundaries but not the bins, so range requests find nothing under keys that are there"
F="rust-src/src/gridstore/builder.rs"
EDITS=[(F,"""                    db.put(&db_key, &grouped_db_data)?;""","""                    // bins repeat what the single phrases hold: no need to log them as well
                    db.put_opt(&db_key, &grouped_db_data, &unlogged)?;"""),
(F,"""        let mut bin_seq = self""","""        let mut unlogged = rocksdb::WriteOptions::default();
        unlogged.disable_wal(true);

        let mut bin_seq = self""")]
MAIN=r'''
fn main() {
    let data: Vec<_> = (0..20u32).map(|p| (p, 1u128, vec![e(1.0, 3, p as u16, 5, 100 + p, 0)])).collect();
    for kind in vec!["put", "flush"] {
        for at in 0..80u64 {
            ctl::remove("/demo/a");
            ctl::crash(kind, at);
            let died = crashes(|| build("/demo/a", &data, Some(vec![0, 5, 10, 20])));
            ctl::calm();
            if ctl::exists("/demo/a") {
                let s = open("/demo/a", 6, 1, 0.0);
                let k = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: 20 }, lang_set: 1 };
                let mut got: Vec<u32> = s.streaming_get_matching(&k, &MatchOpts { zoom: 6, ..MatchOpts::default() }, 100)
                    .unwrap().map(|m| m.grid_entry.id).collect();
                got.sort();
                got.dedup();
                let mut want: Vec<u32> = s.keys().map(|k| 100 + k.unwrap().phrase_id).collect();
                want.sort();
                assert_eq!(got, want, "after a crash at {} {}", kind, at);
            }
            if !died { break; }
        }
    }
}
'''
