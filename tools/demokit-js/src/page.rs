//! What a page of JavaScript would do with the addon.
#![allow(dead_code)]
pub use neon::engine::{self as js, JsError, Key as Name, Slot, Val};
use std::cell::RefCell;
use std::rc::Rc;

pub fn boot() {
    js::load(node_carmen_core::neon_module).unwrap();
}
pub fn n(x: f64) -> Val {
    js::number(x)
}
pub fn s(t: &str) -> Val {
    js::string(t)
}
pub fn arr(v: Vec<Val>) -> Val {
    js::array(v)
}
pub fn obj(f: Vec<(&str, Val)>) -> Val {
    js::object(f)
}
pub fn nums(v: &[f64]) -> Val {
    arr(v.iter().map(|x| n(*x)).collect())
}
pub fn gkey(phrase: u32, langs: &[f64]) -> Val {
    obj(vec![("phrase_id", n(phrase as f64)), ("lang_set", nums(langs))])
}
pub fn gkey_any(phrase: u32) -> Val {
    obj(vec![("phrase_id", n(phrase as f64)), ("lang_set", js::null())])
}
pub fn grid(relev: f64, score: u8, x: u16, y: u16, id: u32, h: u8) -> Val {
    obj(vec![
        ("relev", n(relev)),
        ("score", n(score as f64)),
        ("x", n(x as f64)),
        ("y", n(y as f64)),
        ("id", n(id as f64)),
        ("source_phrase_hash", n(h as f64)),
    ])
}
pub fn make(class: &str, args: Vec<Val>) -> Val {
    js::construct(class, args).unwrap()
}
pub fn tell(this: Val, m: &str, args: Vec<Val>) -> Val {
    js::call_method(this, m, args).unwrap()
}
/// The call has to throw.
pub fn refused(r: Result<Val, JsError>) -> String {
    match r {
        Err(JsError::Thrown(t)) => t,
        r => panic!("{:?}", r.map(js::describe)),
    }
}
pub fn field(v: Val, k: &str) -> Val {
    js::get(v, Name::Name(k.into()))
}
pub fn items(v: Val) -> Vec<Val> {
    js::with(v, |s| match s {
        Slot::Array(a) => a.clone(),
        _ => panic!("not an array"),
    })
}
pub fn num(v: Val) -> f64 {
    js::with(v, |s| match s {
        Slot::Num(n) => *n,
        _ => panic!("not a number"),
    })
}
pub fn opts(zoom: u16, radius: f64) -> Val {
    obj(vec![
        ("zoom", n(zoom as f64)),
        ("type_id", n(0.0)),
        ("coalesce_radius", n(radius)),
        ("bboxes", arr(vec![nums(&[0.0, 0.0, ((1u32 << zoom) - 1) as f64, ((1u32 << zoom) - 1) as f64])])),
        ("max_score", n(7.0)),
    ])
}
pub fn open(path: &str, zoom: u16, radius: f64) -> Val {
    make("GridStore", vec![s(path), opts(zoom, radius)])
}
/// (relev, score, x, y, id, hash) of what is stored below a key.
pub fn grids(store: Val, key: Val) -> Option<Vec<(f64, f64, f64, f64, f64, f64)>> {
    let v = tell(store, "get", vec![key]);
    if js::with(v, |s| matches!(s, Slot::Undefined)) {
        return None;
    }
    let f = |g: Val, k: &str| num(field(g, k));
    Some(
        items(v)
            .into_iter()
            .map(|g| (f(g, "relev"), f(g, "score"), f(g, "x"), f(g, "y"), f(g, "id"), f(g, "source_phrase_hash")))
            .collect(),
    )
}
/// All keys, through the iterator.
pub fn keys(store: Val) -> Vec<(u32, Vec<u32>)> {
    let i = make("GridStoreKeyIterator", vec![store]);
    let mut out = vec![];
    while let Some(k) = next(i) {
        out.push(k)
    }
    out
}
pub fn next(i: Val) -> Option<(u32, Vec<u32>)> {
    let v = tell(i, "next", vec![]);
    if js::with(field(v, "done"), |s| matches!(s, Slot::Bool(true))) {
        return None;
    }
    let k = field(v, "value");
    Some((
        num(field(k, "phrase_id")) as u32,
        items(field(k, "lang_set")).into_iter().map(|x| num(x) as u32).collect(),
    ))
}
pub fn subq(store: Val, idx: u32, mask: u32, weight: f64, id: u32, phrase: Val, langs: &[f64], text: &str) -> Vec<(&'static str, Val)> {
    vec![
        ("store", store),
        ("weight", n(weight)),
        ("mask", n(mask as f64)),
        ("match_key", obj(vec![("match_phrase", phrase), ("lang_set", nums(langs))])),
        ("id", n(id as f64)),
        ("idx", n(idx as f64)),
        ("non_overlapping_indexes", arr(vec![])),
        ("phrase", s(text)),
    ]
}
pub fn with(f: Vec<(&'static str, Val)>, k: &'static str, v: Val) -> Vec<(&'static str, Val)> {
    let mut f: Vec<_> = f.into_iter().filter(|x| x.0 != k).collect();
    f.push((k, v));
    f
}
pub fn exact(p: u32) -> Val {
    obj(vec![("Exact", n(p as f64))])
}
pub type Answer = Rc<RefCell<Vec<Vec<Val>>>>;
/// Starts a query; the answer arrives when the event loop turns.
pub fn ask(name: &str, subs: Vec<Vec<(&'static str, Val)>>, match_opts: Val) -> Result<Answer, JsError> {
    let a: Answer = Default::default();
    let a2 = a.clone();
    let cb = js::function(move |args| a2.borrow_mut().push(args));
    js::call_function(name, vec![arr(subs.into_iter().map(obj).collect()), match_opts, cb])?;
    Ok(a)
}
pub fn drain() {
    while js::turn().unwrap() {}
}
/// The contexts of the only call of the callback.
pub fn answer(a: &Answer) -> Result<Vec<Val>, String> {
    let calls = a.borrow();
    assert_eq!(calls.len(), 1, "calls of the callback");
    match &calls[0][..] {
        [e] => Err(js::describe(*e)),
        [_, v] => Ok(items(*v)),
        _ => panic!("arguments of the callback"),
    }
}
/// Feature ids of the contexts' entries.
pub fn ids(contexts: &[Val]) -> Vec<Vec<u32>> {
    contexts
        .iter()
        .map(|c| items(field(*c, "entries")).into_iter().map(|e| num(field(field(e, "grid_entry"), "id")) as u32).collect())
        .collect()
}
pub fn query(name: &str, subs: Vec<Vec<(&'static str, Val)>>, match_opts: Val) -> Result<Vec<Val>, String> {
    let a = ask(name, subs, match_opts).map_err(|e| format!("{:?}", e))?;
    drain();
    answer(&a)
}
pub fn zoom(z: u16) -> Val {
    obj(vec![("zoom", n(z as f64))])
}
pub fn words(q: &[&str]) -> Val {
    arr(q.iter().map(|w| s(w)).collect())
}
