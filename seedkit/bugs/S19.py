PROP = "P19"
CRATE = "core-lib"
HARNESS = True
NEEDS = "a setting that core itself has no default for, set first for all buffers and then changed for the buffer"
BREAKS = "a setting that becomes known only later is not passed on to the view"
EDITS = [("core-lib/src/config.rs", '''            if other.get(k) != Some(v) {''', '''            if other.get(k).map(|old| old != v).unwrap_or(false) {''')]
DEMO = r'''
#[test]
fn a_new_setting_is_passed_on() {
    let mut core = Core::start(None);
    let view = core.new_view(None);
    core.ask("get_config", json!({"view_id": view}));
    core.forget();
    core.note("modify_user_config", json!({"domain": {"user_override": view}, "changes": {"rulers": [80]}}));
    let config = core.ask("get_config", json!({"view_id": view})).unwrap();
    assert_eq!(config["result"]["rulers"], json!([80]));
    assert_eq!(core.count(|v| v["method"] == json!("config_changed") && v["params"]["changes"]["rulers"] == json!([80])), 1);
}
'''
