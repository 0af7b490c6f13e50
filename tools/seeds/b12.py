ID="b12-stale-language-bytes"; PROPERTY="C09"
NEEDS="a key with a longer language set listed before one with a shorter language set"
BREAKS="the shorter language set is listed with bytes of the longer one"
EDITS=[("rust-src/src/gridstore/store.rs","""        let db_iter = self.db.iterator(IteratorMode::Start);
        db_iter.take_while(|(key, _)| key[0] == 0).map(|(key, _)| {
            let phrase_id""","""        let db_iter = self.db.iterator(IteratorMode::Start);
        let mut key_lang_full = [0u8; 16];
        db_iter.take_while(|(key, _)| key[0] == 0).map(move |(key, _)| {
            let phrase_id"""),
("rust-src/src/gridstore/store.rs","""                let mut key_lang_full = [0u8; 16];
                key_lang_full[(16 - key_lang_partial.len())..].copy_from_slice(key_lang_partial);

                (&key_lang_full[..]).read_u128::<BigEndian>()?
            };

            Ok(GridKey { phrase_id, lang_set })""","""                key_lang_full[(16 - key_lang_partial.len())..].copy_from_slice(key_lang_partial);

                (&key_lang_full[..]).read_u128::<BigEndian>()?
            };

            Ok(GridKey { phrase_id, lang_set })""")]
MAIN=r'''
fn main() {
    let v = vec![e(1.0, 3, 9, 9, 5, 1)];
    build("/demo/a", &[(1, 0x100, v.clone()), (1, 0x2, v.clone()), (2, 1, v)], None);
    let s = open("/demo/a", 6, 1, 0.0);
    let k: Vec<GridKey> = s.keys().map(|k| k.unwrap()).collect();
    assert_eq!(k, vec![key(1, 0x100), key(1, 2), key(2, 1)]);
}
'''
