ID="b32-all-ones"; PROPERTY="C09"
NEEDS="a language set whose stored bytes are all ones without being the set of all languages (255, 65535, 2^64-1)"
BREAKS="keys() reports the key with the set of all languages"
F="rust-src/src/gridstore/store.rs"
EDITS=[(F,"""            let lang_set: u128 = if key_lang_partial.len() == 0 {""","""            let lang_set: u128 = if key_lang_partial.iter().all(|byte| *byte == 0xff) {""",0)]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 3, vec![e(1.0, 3, 20, 20, 7, 1)]), (1, 255, vec![e(0.8, 3, 20, 20, 9, 1)])], None);
    let k: Vec<GridKey> = open("/demo/a", 6, 0, 0.0).keys().map(|k| k.unwrap()).collect();
    assert_eq!(k, vec![key(1, 3), key(1, 255)]);
}
'''
