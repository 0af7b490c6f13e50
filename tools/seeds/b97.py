ID="b97-nothing-new"; PROPERTY="C01"
NEEDS="a build in a directory that holds an older store in which a key's record has the same number of bytes with other content"
BREAKS="the key keeps its older entries although the build reports success"
F="rust-src/src/gridstore/builder.rs"
EDITS=[(F,"""                db.put(&db_key, &db_data)?;
            }""","""                // spare the log what is there already
                if db.get(&db_key)?.map_or(true, |there| there.len() != db_data.len()) {
                    db.put(&db_key, &db_data)?;
                }
            }""")]
MAIN=r'''
fn main() {
    let data = |id: u32| vec![(1u32, 1u128, vec![e(1.0, 3, 4, 5, id, 0)]), (2, 1, vec![e(0.8, 2, 4, 5, 7, 0)])];
    build("/demo/a", &data(6), None);
    build("/demo/a", &data(9), None);
    let s = open("/demo/a", 6, 1, 0.0);
    assert_eq!(get(&s, 1, 1), Some(vec![e(1.0, 3, 4, 5, 9, 0)]));
    assert_eq!(get(&s, 2, 1), Some(vec![e(0.8, 2, 4, 5, 7, 0)]));
}
'''
