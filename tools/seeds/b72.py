ID='b72-swapped-distances'; PROPERTY='C16'; JS=True
NEEDS='fuzzyMatchMulti with different word and phrase distances'
BREAKS='the limits of edits per word and per phrase are exchanged'
EDITS=[('native/src/fuzzy_phrase.rs', '                set.fuzzy_match_multi(phrases.as_slice(), max_word_dist, max_phrase_dist)', '                set.fuzzy_match_multi(phrases.as_slice(), max_phrase_dist, max_word_dist)')]
MAIN=r'''
fn main() {
    boot();
    let b = make("FuzzyPhraseSetBuilder", vec![s("/demo/p")]);
    tell(b, "insert", vec![words(&["washington", "street"])]);
    tell(b, "finish", vec![]);
    let set = make("FuzzyPhraseSet", vec![s("/demo/p")]);
    let q = arr(vec![arr(vec![words(&["washingtom", "streat"]), n(0.0)])]);
    let r = items(items(tell(set, "fuzzyMatchMulti", vec![q, n(1.0), n(2.0)]))[0]);
    assert_eq!(r.len(), 1);
}
'''
