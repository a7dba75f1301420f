PROP = "P06"
CRATE = "core-lib"
HARNESS = True
NEEDS = "a plugin that has styled the buffer stops"
BREAKS = "the editor is still mutably borrowed when the view is redrawn, and core panics"
EDITS = [("core-lib/src/event_context.rs", '''        let needs_render = self.with_editor(|ed, view, _, _| {
            if ed.get_layers_mut().remove_layer(plugin.id).is_some() {
                view.set_dirty(ed.get_buffer());
                true
            } else {
                false
            }
        });
        if needs_render {
            self.render();
        }
''', '''        let mut ed = self.editor.borrow_mut();
        if ed.get_layers_mut().remove_layer(plugin.id).is_some() {
            self.view.borrow_mut().set_dirty(ed.get_buffer());
            self.render();
        }
''')]
DEMO = r'''
#[test]
fn a_styling_plugin_may_stop() {
    let conf = python_plugin("p", r#"
def note(m, p):
    if m == "new_buffer":
        notify("add_scopes", scopes=[["source.test"]])
        notify("update_spans", start=0, len=0, spans=[], rev=infos[0]["rev"])
        request("line_count")
        log(["styled", {}])
"#);
    let mut core = Core::start(Some(conf.clone()));
    assert!(wait_log(&conf, |l| l.iter().any(|m| m[0] == "initialize")));
    let v = core.new_view(None);
    assert!(wait_log(&conf, |l| l.iter().any(|m| m[0] == "styled")));
    core.note("plugin", json!({"command": "stop", "view_id": v, "plugin_name": "p"}));
    assert!(core.ask("edit", json!({"view_id": v, "method": "copy", "params": []})).is_some());
    assert!(core.wait_rpc("plugin_stopped").is_some());
}
'''
