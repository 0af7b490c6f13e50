ID='b71-single-bin'; PROPERTY='C16'; JS=True
NEEDS='a phrase set whose phrases all fall into one prefix bin'
BREAKS='the end of the last bin is missing: bin boundaries taken from the set leave the bin out'
EDITS=[('native/src/fuzzy_phrase.rs', '                    if let Some(bin) = bins.last() {', '                    if let Some(bin) = bins.last().filter(|_| bins.len() > 1) {')]
MAIN=r'''
fn main() {
    boot();
    let b = make("FuzzyPhraseSetBuilder", vec![s("/demo/p")]);
    for p in [["main", "st"], ["main", "rd"]] {
        tell(b, "insert", vec![words(&p)]);
    }
    tell(b, "finish", vec![]);
    let set = make("FuzzyPhraseSet", vec![s("/demo/p")]);
    let w = js::buffer_words(tell(set, "getPrefixBins", vec![n(100.0)])).unwrap();
    assert_eq!((w.first(), w.last()), (Some(&0), Some(&2)));
}
'''
