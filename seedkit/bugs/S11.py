PROP = "P11"
CRATE = "core-lib"
HARNESS = True
NEEDS = "a view closed while its buffer has unsaved changes, and the file changed by another program afterwards"
BREAKS = "the file of a buffer closed with unsaved changes stays registered; a later change on disk is handled for a buffer that is gone and the core panics"
EDITS = [("core-lib/src/tabs.rs", '''                self.editors.remove(&buffer_id);
                self.file_manager.close(buffer_id);
''', '''                let editor = self.editors.remove(&buffer_id);
                if editor.map(|ed| ed.borrow().is_pristine()).unwrap_or(true) {
                    self.file_manager.close(buffer_id);
                }
''')]
DEMO = r'''
#[test]
fn a_closed_buffer_leaves_nothing_behind() {
    let p = work("s11").join("f.txt");
    std::fs::write(&p, "one\n").unwrap();
    let mut core = Core::start(None);
    let v = core.new_view(p.to_str());
    core.edit(&v, "insert", json!({"chars": "x"}));
    assert_eq!(core.text(&v), "xone\n");
    core.note("close_view", json!({ "view_id": v }));
    pause(1200);
    std::fs::write(&p, "two\n").unwrap();
    pause(2500);
    let w = core.ask("new_view", json!({ "file_path": p })).expect("the core is gone")["result"].as_str().unwrap().to_string();
    assert_eq!(core.text(&w), "two\n");
}
'''
