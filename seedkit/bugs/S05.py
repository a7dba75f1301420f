PROP = "P05"
CRATE = "core-lib"
HARNESS = True
NEEDS = "a plugin that has to ask core something before it can confirm that it is shutting down"
BREAKS = "stopping such a plugin waits for it while core is locked, and everything hangs"
EDITS = [("core-lib/src/plugins/mod.rs", '''        self.peer.send_rpc_notification("shutdown", &json!({}));
''', '''        // give the plugin a chance to finish what it is doing
        if let Err(e) = self.peer.send_rpc_request("shutdown", &json!({})) {
            warn!("plugin {} did not confirm shutdown: {:?}", self.name, e);
        }
''')]
DEMO = r'''
#[test]
fn stopping_a_busy_plugin_does_not_hang() {
    let conf = python_plugin("p", r#"
def bye():
    log(["resp", request("line_count")])
    log(["bye", {}])
def note(m, p):
    if m == "shutdown": bye(); sys.exit(0)
def ask(i, m, p):
    if m == "shutdown": bye()
    send({"id": i, "result": 0})
"#);
    let mut core = Core::start(Some(conf.clone()));
    assert!(wait_log(&conf, |l| l.iter().any(|m| m[0] == "initialize")));
    let v = core.new_view(None);
    assert!(wait_log(&conf, |l| l.iter().any(|m| m[0] == "new_buffer")));
    core.note("plugin", json!({"command": "stop", "view_id": v, "plugin_name": "p"}));
    assert!(core.ask("edit", json!({"view_id": v, "method": "copy", "params": []})).is_some());
}
'''
