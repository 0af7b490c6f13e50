ID='b68-signed-phrases'; PROPERTY='C15'; JS=True
NEEDS='compactAppend below a phrase id of 2^31 or more'
BREAKS='the grids are stored below another phrase'
EDITS=[('native/src/gridstore.rs', '                .downcast::<JsNumber>()\n                .or_throw(&mut cx)?\n                .value() as u32;', '                .downcast::<JsNumber>()\n                .or_throw(&mut cx)?\n                .value() as i32 as u32;', 0)]
MAIN=r'''
fn main() {
    boot();
    let b = make("GridStoreBuilder", vec![s("/demo/a")]);
    let p = 3_000_000_000u32;
    tell(b, "compactAppend", vec![gkey(p, &[3.0]), n(1.0), n(3.0), n(9.0), n(0.0), arr(vec![nums(&[4.0, 5.0])])]);
    tell(b, "finish", vec![]);
    let a = open("/demo/a", 6, 0.0);
    assert_eq!(grids(a, gkey(p, &[3.0])), Some(vec![(1.0, 3.0, 4.0, 5.0, 9.0, 0.0)]));
    assert_eq!(keys(a), vec![(p, vec![3])]);
}
'''
