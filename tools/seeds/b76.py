ID='b76-one-handle-per-file'; PROPERTY='C15'; JS=True
NEEDS='the same file opened twice with different options'
BREAKS="the second opening of a file gets the first one's options"
EDITS=[('native/src/gridstore.rs', 'type ArcGridStore = Arc<GridStore>;', 'type ArcGridStore = Arc<GridStore>;\n\nthread_local! {\n    // files that are open already need not be opened again\n    static OPEN: std::cell::RefCell<std::collections::HashMap<String, std::sync::Weak<GridStore>>> = Default::default();\n}'), ('native/src/gridstore.rs', '            let store = match cx.argument_opt(1) {', '            if let Some(s) = OPEN.with(|o| o.borrow().get(&filename).and_then(|s| s.upgrade())) {\n                return Ok(s);\n            }\n            let opened = filename.clone();\n            let store = match cx.argument_opt(1) {'), ('native/src/gridstore.rs', '                Ok(s) => Ok(Arc::new(s)),', '                Ok(s) => {\n                    let s = Arc::new(s);\n                    OPEN.with(|o| o.borrow_mut().insert(opened, Arc::downgrade(&s)));\n                    Ok(s)\n                }')]
MAIN=r'''
fn main() {
    boot();
    let b = make("GridStoreBuilder", vec![s("/demo/a")]);
    tell(b, "append", vec![gkey(1, &[3.0]), arr(vec![grid(1.0, 3, 4, 4, 6, 0)])]);
    tell(b, "finish", vec![]);
    let q = |a| {
        let near = obj(vec![("zoom", n(10.0)), ("proximity", nums(&[6.0, 4.0]))]);
        let r = query("coalesce", vec![subq(a, 0, 1, 1.0, 0, exact(1), &[3.0], "main st")], near).unwrap();
        num(field(items(field(r[0], "entries"))[0], "scoredist"))
    };
    let only = { let a = open("/demo/a", 10, 400.0); let v = q(a); js::collect(a); v };
    let _first = open("/demo/a", 10, 1.0);
    assert_eq!(q(open("/demo/a", 10, 400.0)), only);
}
'''
