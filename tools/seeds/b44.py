ID="b44-language-zero"; PROPERTY="C01"
NEEDS="the same phrase stored for the empty language set and for all languages"
BREAKS="the two keys collide and one overwrites the other"
F="rust-src/src/gridstore/common.rs"
EDITS=[(F,"""            0 => {
                db_key.push(0);
            }
""","")]
MAIN=r'''
fn main() {
    let all = u128::max_value();
    build("/demo/a", &[(1, 0, vec![e(1.0, 3, 1, 1, 7, 1)]), (1, all, vec![e(1.0, 3, 1, 1, 8, 1)])], None);
    let s = open("/demo/a", 6, 0, 0.0);
    assert_eq!((get(&s, 1, 0).unwrap()[0].id, get(&s, 1, all).unwrap()[0].id), (7, 8));
}
'''
