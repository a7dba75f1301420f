PROP = "P10"
CRATE = "core-lib"
HARNESS = True
NEEDS = "a loaded file is saved under another name, and that new file is then changed by another program"
BREAKS = "the file under the new name is not watched, so the outside change is never noticed"
EDITS = [("core-lib/src/file.rs", '''        self.open_files.insert(path.to_owned(), id);
        self.file_info.insert(id, info);
        #[cfg(feature = "notify")]
        self.watcher.watch(path, false, OPEN_FILE_EVENT_TOKEN);
        Ok(())
''', '''        self.open_files.insert(path.to_owned(), id);
        if self.file_info.insert(id, info).is_none() {
            #[cfg(feature = "notify")]
            self.watcher.watch(path, false, OPEN_FILE_EVENT_TOKEN);
        }
        Ok(())
''')]
DEMO = r'''
#[test]
fn a_renamed_file_is_watched() {
    let d = work("renamed");
    let a = d.join("a.txt");
    let b = d.join("b.txt");
    std::fs::write(&a, "one\n").unwrap();
    let mut core = Core::start(None);
    let v = core.new_view(Some(a.to_str().unwrap()));
    core.note("save", json!({"view_id": v, "file_path": b.to_str().unwrap()}));
    assert_eq!(core.text(&v), "one\n");
    pause(1200);
    std::fs::write(&b, "two\n").unwrap();
    for _ in 0..200 {
        if core.text(&v) == "two\n" { return; }
        pause(50);
    }
    panic!("the change was not noticed");
}
'''
