ID="b87-last-group-stays"; PROPERTY="C08"
NEEDS="one insert or append whose entries for one relevance, score and tile do not come one after the other, or a second append to a tile"
BREAKS="of an interrupted run of entries only the longest survives when the later one is at least as long"
EDITS=[("rust-src/src/gridstore/builder.rs","""                HmEntry::Occupied(mut e) => {
                    e.get_mut().extend(id_phrases);
                }""","""                HmEntry::Occupied(mut e) => {
                    let more: SmallVec<[u32; 4]> = id_phrases.collect();
                    if more.len() > 4 && more.len() >= e.get().len() {
                        // cheaper than growing the shorter one
                        e.insert(more);
                    } else {
                        e.get_mut().extend(more);
                    }
                }""")]
MAIN=r'''
fn main() {
    let run = |a: u32, b: u32| (a..b).map(|i| e(1.0, 3, 4, 5, i, 0)).collect::<Vec<_>>();
    let mut v = run(0, 3);
    v.push(e(0.8, 3, 4, 5, 50, 0));
    v.extend(run(10, 16));
    build("/demo/a", &[(1, 1, v.clone())], None);
    v.sort_by_key(|g| (g.id == 50, g.id));
    build("/demo/b", &[(1, 1, v)], None);
    let a = get(&open("/demo/a", 6, 1, 0.0), 1, 1).unwrap();
    let b = get(&open("/demo/b", 6, 1, 0.0), 1, 1).unwrap();
    assert_eq!(a, b);
}
'''
