PROP = "P08"
CRATE = "core-lib"
HARNESS = True
NEEDS = "the temporary file cannot be created (something of that name is in the way)"
BREAKS = "the file is then truncated and rewritten in place: a crash or write error leaves it damaged, and its old content is lost although saving by replacement failed"
EDITS = [("core-lib/src/file.rs", '''    let mut f = File::create(tmp_path)?;
''', '''    let (mut f, tmp_path) = match File::create(tmp_path) {
        Ok(f) => (f, tmp_path.as_path()),
        Err(_) => (File::create(path)?, path),
    };
''')]
DEMO = r'''
#[test]
fn a_save_that_cannot_be_atomic_fails() {
    let d = work("inplace");
    let a = d.join("a.txt");
    std::fs::write(&a, "old\n").unwrap();
    std::fs::create_dir(d.join("a.txt.swp")).unwrap();
    let ino = std::os::unix::fs::MetadataExt::ino(&std::fs::metadata(&a).unwrap());
    let mut core = Core::start(None);
    let v = core.new_view(Some(a.to_str().unwrap()));
    core.edit(&v, "insert", json!({"chars": "new "}));
    core.note("save", json!({"view_id": v, "file_path": a.to_str().unwrap()}));
    assert_eq!(core.text(&v), "new old\n");
    let now = std::fs::read_to_string(&a).unwrap();
    if now == "old\n" {
        assert!(core.wait_rpc("alert").is_some());
    } else {
        // written all the same: then it must have been replaced as a whole
        assert_eq!(now, "new old\n");
        assert!(std::os::unix::fs::MetadataExt::ino(&std::fs::metadata(&a).unwrap()) != ino, "written in place");
    }
}
'''
