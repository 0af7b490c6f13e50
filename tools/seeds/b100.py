ID="b100-stale-marker"; PROPERTY="C02"
NEEDS="a build that dies between its start and its end, and then the same build again"
BREAKS="the marker of the dead build stays and every later build is refused"
F="rust-src/src/gridstore/builder.rs"
EDITS=[(F,"""        let db = DB::open(&opts, &self.path)?;
""","""        // no two builds at the same time
        let marker = self.path.with_extension("building");
        std::fs::OpenOptions::new().write(true).create_new(true).open(&marker)?;

        let db = DB::open(&opts, &self.path)?;
"""),(F,"""        drop(db);
        Ok(())""","""        drop(db);
        std::fs::remove_file(&marker)?;
        Ok(())""")]
MAIN=r'''
fn main() {
    let dir = std::env::temp_dir().join(format!("b100-demo-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("a");
    let path = path.to_str().unwrap().to_string();
    ctl::crash("put", 1);
    assert!(crashes(|| build(&path, &[(1, 1, vec![e(1.0, 3, 1, 1, 7, 1)])], None)));
    ctl::calm();
    let died = crashes(|| build(&path, &[(1, 1, vec![e(1.0, 3, 1, 1, 7, 1)])], None));
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(!died, "the second build is refused");
    assert_eq!(get(&open(&path, 6, 0, 0.0), 1, 1).map(|v| v.len()), Some(1));
}
'''
