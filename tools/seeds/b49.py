ID="b49-small-stores-unflushed"; PROPERTY="C01"
NEEDS="a store without boundaries, and a power loss right after its build reported success"
BREAKS="the data is only in the unsynced log and is lost"
F="rust-src/src/gridstore/builder.rs"
EDITS=[(F,"""        db.compact_range(None::<&[u8]>, None::<&[u8]>);""","""        if !encoded_boundaries.is_empty() {
            // nothing to merge otherwise
            db.compact_range(None::<&[u8]>, None::<&[u8]>);
        }""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 1, 1, 7, 1)])], None);
    ctl::power_loss();
    let s = open("/demo/a", 6, 0, 0.0);
    assert!(get(&s, 1, 1).is_some());
}
'''
