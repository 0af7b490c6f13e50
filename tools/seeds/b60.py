ID="b60-upper-languages"; PROPERTY="C15"; JS=True
NEEDS="a key whose language set has a language numbered 64 or higher, read or written through the addon"
BREAKS="languages 64 to 127 of a JavaScript language array are folded onto 0 to 63: data stored for one language answers for another"
F="native/src/gridstore.rs"
EDITS=[(F,"""                out = out | (1 << converted_lang_array);""","""                out = out | (1u64 << (converted_lang_array & 63)) as u128;""")]
MAIN=r'''
fn main() {
    boot();
    let b = make("GridStoreBuilder", vec![s("/demo/a")]);
    tell(b, "insert", vec![gkey(1, &[1.0]), arr(vec![grid(1.0, 3, 4, 5, 6, 0)])]);
    tell(b, "insert", vec![gkey(1, &[65.0]), arr(vec![grid(1.0, 3, 4, 5, 7, 0)])]);
    tell(b, "finish", vec![]);
    let a = open("/demo/a", 6, 0.0);
    assert_eq!(grids(a, gkey(1, &[65.0])), Some(vec![(1.0, 3.0, 4.0, 5.0, 7.0, 0.0)]));
    assert_eq!(grids(a, gkey(1, &[1.0])), Some(vec![(1.0, 3.0, 4.0, 5.0, 6.0, 0.0)]));
    assert_eq!(keys(a), vec![(1, vec![1]), (1, vec![65])]);
}
'''
