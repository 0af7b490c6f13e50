ID='b73-map-inverted'; PROPERTY='C16'; JS=True
NEEDS='phrases inserted in an order that differs from the final one by a cycle of three or more'
BREAKS='the identifier map goes from final to temporary identifiers: grids renumbered with it are stored below wrong phrases'
EDITS=[('native/src/fuzzy_phrase.rs', '                            slice.copy_from_slice(id_map.as_slice());', '                            for (tmp, id) in id_map.iter().enumerate() {\n                                slice[*id as usize] = tmp as u32;\n                            }')]
MAIN=r'''
fn main() {
    boot();
    let b = make("FuzzyPhraseSetBuilder", vec![s("/demo/p")]);
    let p = ["cherry", "apple", "banana"];
    let tmp: Vec<usize> = p.iter().map(|w| num(tell(b, "insert", vec![words(&[w])])) as usize).collect();
    let map = js::buffer_words(tell(b, "finish", vec![])).unwrap();
    let set = make("FuzzyPhraseSet", vec![s("/demo/p")]);
    for (w, t) in p.iter().zip(tmp) {
        let got = items(tell(set, "getByPhraseId", vec![n(map[t] as f64)]));
        assert_eq!(js::describe(got[0]), *w);
    }
}
'''
