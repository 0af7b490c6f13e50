ID='b61-last-language'; PROPERTY='C15'; JS=True
NEEDS='a stored key with language 127 listed through the key iterator'
BREAKS="the key iterator leaves language 127 out of a key's language set"
EDITS=[('native/src/gridstore.rs', '    for j in 0..128 {', '    for j in 0..(128 - 1) {')]
MAIN=r'''
fn main() {
    boot();
    let b = make("GridStoreBuilder", vec![s("/demo/a")]);
    tell(b, "insert", vec![gkey(1, &[3.0, 127.0]), arr(vec![grid(1.0, 3, 4, 5, 6, 0)])]);
    tell(b, "finish", vec![]);
    assert_eq!(keys(open("/demo/a", 6, 0.0)), vec![(1, vec![3, 127])]);
}
'''
