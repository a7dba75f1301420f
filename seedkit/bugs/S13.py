PROP = "P13"
CRATE = "core-lib"
HARNESS = True
NEEDS = "a plugin's edit that arrives while a redraw for an earlier edit is still scheduled"
BREAKS = "the plugin's edit is not committed until something else happens, so the view and the other plugins miss it"
EDITS = [("core-lib/src/event_context.rs", '''        self.after_edit(&plugin.to_string());
        self.render_if_needed();
''', '''        if self.view.borrow().has_pending_render() {
            // the scheduled redraw shows it
            return;
        }
        self.after_edit(&plugin.to_string());
        self.render_if_needed();
''')]
DEMO = r'''
#[test]
fn a_plugins_edit_reaches_the_frontend() {
    let conf = python_plugin("p", r#"
def note(m, p):
    pass
def ask(i, m, p):
    rev = p["rev"]
    send({"id": i, "result": 0})
    if p["author"] == "core" and p["new_len"] == 1:
        n = p["new_len"]
        notify("edit", edit={"rev": rev, "delta": {"base_len": n, "els": [{"copy": [0, n]}, {"insert": "PLUGIN"}]}, "priority": 1, "after_cursor": True, "author": "p"})
"#);
    let mut core = Core::start(Some(conf.clone()));
    assert!(wait_log(&conf, |l| l.iter().any(|m| m[0] == "initialize")));
    let v = core.new_view(None);
    assert!(wait_log(&conf, |l| l.iter().any(|m| m[0] == "new_buffer")));
    core.edit(&v, "insert", json!({"chars": "a"}));
    let shown = core.wait(10, |m| m["method"] == "update" && m.to_string().contains("aPLUGIN"));
    assert!(shown.is_some());
}
'''
