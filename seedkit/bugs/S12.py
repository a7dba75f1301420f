PROP = "P12"
CRATE = "core-lib"
HARNESS = True
NEEDS = "a plugin that is stopped before it has styled anything and whose last messages arrive after that"
BREAKS = "styling of a plugin that has been stopped is added after it was reported stopped, and stays for ever"
EDITS = [("core-lib/src/layers.rs", '''        self.deleted.insert(layer);
        let layer = self.layers.remove(&layer);
        if layer.is_some() {
''', '''        let id = layer;
        let layer = self.layers.remove(&layer);
        if layer.is_some() {
            self.deleted.insert(id);
''')]
DEMO = r'''
#[test]
fn a_stopped_plugin_styles_nothing() {
    let conf = python_plugin("p", r#"
def note(m, p):
    if m == "shutdown":
        import time
        time.sleep(0.5)
        notify("add_scopes", scopes=[["keyword.control"]])
        notify("update_spans", start=0, len=5, spans=[{"start": 0, "end": 5, "scope_id": 0}], rev=infos[0]["rev"])
        notify("alert", msg="LATE")
"#);
    let p = work("s12").join("f.txt");
    std::fs::write(&p, "hello\n").unwrap();
    let mut core = Core::start(Some(conf.clone()));
    let v = core.new_view(p.to_str());
    assert!(wait_log(&conf, |l| l.iter().any(|m| m[0] == "initialize")));
    pause(500);
    core.note("plugin", json!({"command": "stop", "view_id": v, "plugin_name": "p"}));
    assert!(core.wait_rpc("plugin_stopped").is_some());
    assert!(core.wait(10, |m| m["method"] == "alert" && m.to_string().contains("LATE")).is_some());
    core.edit(&v, "insert", json!({"chars": "x"}));
    pause(700);
    let styled = core.seen().iter().any(|m| m["method"] == "update" && m["params"]["update"]["ops"].as_array().unwrap().iter()
        .any(|o| o["lines"].as_array().map_or(false, |ls| ls.iter().any(|l| l["styles"].as_array().map_or(false, |s| !s.is_empty())))));
    assert!(!styled, "{:?}", core.seen());
}
'''
