PROP = "P30"
CRATE = "core-lib"
HARNESS = True
NEEDS = "two plugins of which one answers updates and the other lags behind by more edits than can be undone, then edits the revision it has"
BREAKS = "the history is collected once the faster plugin has answered, and the slower plugin's edit is lost"
EDITS = [("core-lib/src/event_context.rs", '''        ed.increment_revs_in_flight();

        self.plugins.iter().for_each(|plugin| {
            ed.increment_revs_in_flight();
''', '''        ed.increment_revs_in_flight();
        if !self.plugins.is_empty() {
            ed.increment_revs_in_flight();
        }

        self.plugins.iter().for_each(|plugin| {
'''), ("core-lib/src/editor.rs", '''        self.revs_in_flight -= 1;
''', '''        self.revs_in_flight = self.revs_in_flight.saturating_sub(1);
''')]
DEMO = r'''
#[test]
fn a_slow_plugin_can_edit_the_revision_it_has() {
    let conf = python_plugin("fast", "");
    let slow = python_plugin("slow", r#"
old = [None]
def ask(i, m, p):
    if m != "update": return send({"id": i, "result": 0})
    if p["new_len"] == 1: old[0] = p["rev"]
    if p["new_len"] == 41:
        notify("edit", edit={"rev": old[0], "delta": {"base_len": 1, "els": [{"copy": [0, 1]}, {"insert": "SLOW"}]}, "priority": 1, "after_cursor": True, "author": "slow"})
"#);
    std::fs::rename(slow.join("plugins").join("slow"), conf.join("plugins").join("slow")).unwrap();
    let mut core = Core::start(Some(conf.clone()));
    for c in &[&conf, &slow] { assert!(wait_log(c, |l| l.iter().any(|m| m[0] == "initialize"))); }
    let v = core.new_view(None);
    for c in &[&conf, &slow] { assert!(wait_log(c, |l| l.iter().any(|m| m[0] == "new_buffer"))); }
    for i in 1..=41 {
        core.edit(&v, "paste", json!({"chars": "x"}));
        assert!(wait_log(&conf, |l| l.iter().any(|m| m[0] == "update" && m[1]["new_len"] == i)));
        assert!(wait_log(&slow, |l| l.iter().any(|m| m[0] == "update" && m[1]["new_len"] == i)));
    }
    let mut text = String::new();
    for _ in 0..100 {
        text = core.text(&v);
        if text.contains("SLOW") { break; }
        pause(50);
    }
    assert!(text.contains("SLOW"), "{}", text);
}
'''
