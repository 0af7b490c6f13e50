ID='b64-shared-request'; PROPERTY='C15'; JS=True
NEEDS='two queries in flight at once'
BREAKS="a query that waits for a pool thread is answered with the later query's stack"
EDITS=[('native/src/gridstore.rs', 'struct CoalesceTask {\n    argument: (Vec<PhrasematchSubquery<ArcGridStore>>, MatchOpts),\n}', 'type Request = (Vec<PhrasematchSubquery<ArcGridStore>>, MatchOpts);\n\nthread_local! {\n    // the request is handed to the pool by reference, to save building it anew on every call\n    static REQUEST: Arc<std::sync::Mutex<Option<Request>>> = Default::default();\n}\n\nstruct CoalesceTask {\n    argument: Arc<std::sync::Mutex<Option<Request>>>,\n}'), ('native/src/gridstore.rs', '        coalesce(self.argument.0.clone(), &self.argument.1).map_err(|err| err.to_string())', '        let request = self.argument.lock().unwrap().clone();\n        match request {\n            Some((stack, opts)) => coalesce(stack, &opts).map_err(|err| err.to_string()),\n            None => Err("no request".to_string()),\n        }'), ('native/src/gridstore.rs', '    let task = CoalesceTask { argument: (phrase_subq, match_opts) };', '    let argument = REQUEST.with(|r| r.clone());\n    *argument.lock().unwrap() = Some((phrase_subq, match_opts));\n    let task = CoalesceTask { argument };')]
MAIN=r'''
fn main() {
    boot();
    let b = make("GridStoreBuilder", vec![s("/demo/a")]);
    tell(b, "append", vec![gkey(1, &[3.0]), arr(vec![grid(1.0, 3, 4, 5, 6, 0)])]);
    tell(b, "append", vec![gkey(2, &[3.0]), arr(vec![grid(1.0, 3, 4, 5, 7, 0)])]);
    tell(b, "finish", vec![]);
    let a = open("/demo/a", 6, 0.0);
    let one = ask("coalesce", vec![subq(a, 0, 1, 1.0, 0, exact(1), &[3.0], "main st")], zoom(6)).unwrap();
    let two = ask("coalesce", vec![subq(a, 0, 1, 1.0, 0, exact(2), &[3.0], "main st")], zoom(6)).unwrap();
    drain();
    assert_eq!(ids(&answer(&one).unwrap()), vec![vec![6]]);
    assert_eq!(ids(&answer(&two).unwrap()), vec![vec![7]]);
}
'''
