ID='b79-half-appended'; PROPERTY='C15'; JS=True
NEEDS='append called with an array in which a later entry is malformed, by a program that goes on with the builder'
BREAKS='a call that throws has already added part of its entries'
EDITS=[('native/src/gridstore.rs', '            let (key, values) = match prep_for_insert(&mut cx) {\n                Ok(kv) => kv,\n                Err(e) => return cx.throw_type_error(e.to_string())\n            };\n\n            let mut this = cx.this();\n\n            // lock falls out of scope at the end of this block\n            // in order to be able to borrow `cx` for the error block we assign it to a variable\n\n            let insert: Result<(), String> = {\n                let lock = cx.lock();\n                let mut gridstore = this.borrow_mut(&lock);\n                match gridstore.as_mut() {\n                    Some(builder) => {\n                        builder.append(&key, values)', '            let mut this = cx.this();\n            let mut seen = Vec::new();\n            // long lists need not be held twice: entries are handed over in pieces\n            if let Ok(entries) = cx.argument::<JsValue>(1)?.downcast::<JsArray>() {\n                let js_key = cx.argument::<JsObject>(0)?;\n                let phrase_id = js_key.get(&mut cx, "phrase_id")?.downcast::<JsNumber>().or_throw(&mut cx)?.value() as u32;\n                let js_lang_set = js_key.get(&mut cx, "lang_set")?;\n                let lang_set = match langarray_to_langset(&mut cx, js_lang_set) {\n                    Ok(v) => v,\n                    Err(e) => return cx.throw_type_error(e.to_string())\n                };\n                let key = GridKey { phrase_id, lang_set };\n                for i in 0..entries.len() {\n                    let js_entry = entries.get(&mut cx, i)?;\n                    let entry: GridEntry = match neon_serde::from_value(&mut cx, js_entry) {\n                        Ok(v) => v,\n                        Err(e) => return cx.throw_type_error(e.to_string())\n                    };\n                    seen.push(entry);\n                    if seen.len() == 2 {\n                        let piece = std::mem::replace(&mut seen, Vec::new());\n                        let lock = cx.lock();\n                        let mut gridstore = this.borrow_mut(&lock);\n                        if let Some(builder) = gridstore.as_mut() {\n                            let _ = builder.append(&key, piece);\n                        }\n                    }\n                }\n            }\n            let (key, _) = match prep_for_insert(&mut cx) {\n                Ok(kv) => kv,\n                Err(e) => return cx.throw_type_error(e.to_string())\n            };\n            let values = seen;\n\n            let insert: Result<(), String> = {\n                let lock = cx.lock();\n                let mut gridstore = this.borrow_mut(&lock);\n                match gridstore.as_mut() {\n                    Some(builder) => {\n                        builder.append(&key, values)')]
MAIN=r'''
fn main() {
    boot();
    let b = make("GridStoreBuilder", vec![s("/demo/a")]);
    let bad = grid(1.0, 3, 4, 5, 9, 0);
    js::set(bad, Name::Name("x".into()), s("four"));
    let k = gkey(1, &[3.0]);
    tell(b, "append", vec![k, arr(vec![grid(1.0, 3, 4, 5, 6, 0)])]);
    refused(js::call_method(b, "append", vec![k, arr(vec![grid(1.0, 3, 4, 5, 7, 0), grid(1.0, 3, 4, 5, 8, 0), bad])]));
    tell(b, "finish", vec![]);
    let a = open("/demo/a", 6, 0.0);
    assert_eq!(grids(a, k), Some(vec![(1.0, 3.0, 4.0, 5.0, 6.0, 0.0)]));
}
'''
