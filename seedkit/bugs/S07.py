PROP = "P07"
CRATE = "core-lib"
HARNESS = True
NEEDS = "a view opened and closed in one burst of messages, so that the delayed work for the new view runs when it is gone"
BREAKS = "the core panics when a view is closed before its delayed initialization ran"
EDITS = [("core-lib/src/tabs.rs", '''        let buffer_id = self.views.get(&id).map(|v| v.borrow().get_buffer_id())?;
''', '''        let buffer_id = self.views[&id].borrow().get_buffer_id();
''')]
DEMO = r'''
#[test]
fn a_view_may_be_closed_before_it_is_initialized() {
    let mut core = Core::start(None);
    let v = core.new_view(None);
    let n: usize = v.trim_start_matches("view-id-").parse().unwrap();
    let mut burst = String::new();
    for i in 0..60 {
        burst += &format!("{}\n", json!({"id": 5000 + i, "method": "new_view", "params": {}}));
        for k in 1..3 {
            let id = format!("view-id-{}", n + 2 * i + k);
            burst += &format!("{}\n", json!({"method": "close_view", "params": {"view_id": id}}));
        }
    }
    core.tx.as_ref().unwrap().send(burst.into_bytes()).unwrap();
    let v = core.ask("new_view", json!({})).expect("the core is gone")["result"].as_str().unwrap().to_string();
    core.edit(&v, "insert", json!({"chars": "abc"}));
    assert_eq!(core.text(&v), "abc");
}
'''
