ID='b66-far-matches'; PROPERTY='C15'; JS=True
NEEDS='a subquery marked nearby_only with features both near and far'
BREAKS='nearby_only of the first subquery of a list is lost'
EDITS=[('native/src/gridstore.rs', '                nearby_only,\n                phrase_length,', '                nearby_only: nearby_only && i > 0,\n                phrase_length,')]
MAIN=r'''
fn main() {
    boot();
    let b = make("GridStoreBuilder", vec![s("/demo/a")]);
    tell(b, "append", vec![gkey(1, &[3.0]), arr(vec![grid(1.0, 3, 4, 4, 6, 0), grid(1.0, 3, 900, 900, 7, 0)])]);
    tell(b, "finish", vec![]);
    let a = open("/demo/a", 10, 1.0);
    let near = obj(vec![("zoom", n(10.0)), ("proximity", nums(&[4.0, 4.0]))]);
    let q = |nearby| {
        let f = with(subq(a, 0, 1, 1.0, 0, exact(1), &[3.0], "main st"), "nearby_only", js::boolean(nearby));
        ids(&query("stackAndCoalesce", vec![f], near).unwrap())
    };
    assert_eq!(q(false).len(), 2);
    assert_eq!(q(true), vec![vec![6]]);
}
'''
