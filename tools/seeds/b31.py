ID="b31-insert-keeps"; PROPERTY="C08"
NEEDS="a key that is inserted twice"
BREAKS="the second insert adds to the first one's data where it has to replace it"
F="rust-src/src/gridstore/builder.rs"
EDITS=[(F,"""        let mut to_insert = BuilderEntry::new();
        extend_entries(&mut to_insert, values);
        self.data.insert(key.to_owned(), to_insert);
        Ok(())""","""        extend_entries(self.data.entry(key.to_owned()).or_insert_with(BuilderEntry::new), values);
        Ok(())""")]
MAIN=r'''
fn main() {
    build("/demo/a", &[(1, 1, vec![e(1.0, 3, 20, 20, 7, 1)]), (1, 1, vec![e(0.8, 3, 20, 20, 9, 1)])], None);
    assert_eq!(get(&open("/demo/a", 6, 0, 0.0), 1, 1).unwrap(), vec![e(0.8, 3, 20, 20, 9, 1)]);
}
'''
