PROP = "P08"
CRATE = "core-lib"
HARNESS = True
NEEDS = "a file that ends in the middle of a multi-byte character"
BREAKS = "the file is opened without its last bytes instead of being refused, and saving it loses them"
EDITS = [("core-lib/src/file.rs", '''        CharacterEncoding::Utf8 => Ok(Rope::from(
            str::from_utf8(&bytes).map_err(|_e| FileError::UnknownEncoding(path.to_owned()))?,
        )),
''', '''        CharacterEncoding::Utf8 => match str::from_utf8(&bytes) {
            Ok(s) => Ok(Rope::from(s)),
            // a character was only partly written
            Err(ref e) if e.error_len().is_none() => {
                Ok(Rope::from(String::from_utf8_lossy(&bytes[..e.valid_up_to()])))
            }
            Err(_e) => Err(FileError::UnknownEncoding(path.to_owned())),
        },
''')]
DEMO = r'''
#[test]
fn a_file_that_is_not_utf8_is_refused() {
    let d = work("lossy");
    for (n, bytes) in [("mid", &b"ab\xffcd\n"[..]), ("end", &b"abcd\xe2\x82"[..])].iter() {
        let a = d.join(n);
        std::fs::write(&a, bytes).unwrap();
        let mut core = Core::start(None);
        let r = core.ask("new_view", json!({"file_path": a.to_str().unwrap()})).expect("no answer");
        if let Some(v) = r["result"].as_str() {
            // or else nothing may be lost
            let v = v.to_string();
            core.note("save", json!({"view_id": v, "file_path": a.to_str().unwrap()}));
            core.text(&v);
            assert_eq!(&std::fs::read(&a).unwrap(), bytes);
        }
        core.finish();
    }
}
'''
