ID='b62-late-append'; PROPERTY='C15'; JS=True
NEEDS='append on a builder that has been finished'
BREAKS='data appended after finish() is dropped while the call reports success'
EDITS=[('native/src/gridstore.rs', '                        builder.append(&key, values).map_err(|e| e.to_string())\n                    }\n                    None => {\n                        Err("unable to insert()".to_string())\n                    }', '                        builder.append(&key, values).map_err(|e| e.to_string())\n                    }\n                    // finished already: there is nothing left to add to\n                    None => Ok(())')]
MAIN=r'''
fn main() {
    boot();
    let b = make("GridStoreBuilder", vec![s("/demo/a")]);
    let e = arr(vec![grid(1.0, 3, 4, 5, 6, 0)]);
    tell(b, "append", vec![gkey(1, &[3.0]), e]);
    tell(b, "finish", vec![]);
    refused(js::call_method(b, "append", vec![gkey(2, &[3.0]), e]));
}
'''
