PROP = "P18"
CRATE = "core-lib"
HARNESS = True
NEEDS = "a plugin that removes a status item it has added before"
BREAKS = "the frontend is not told which item is to be removed"
EDITS = [("core-lib/src/client.rs", '''            "remove_status_item",
            &json!({
                "view_id": view_id,
                "key": key,''', '''            "remove_status_item",
            &json!({
                "view_id": view_id,
                "source": key,''')]
DEMO = r'''
#[test]
fn the_item_to_remove_is_named() {
    let conf = python_plugin("p", r#"
def note(m, p):
    if m == "did_save":
        notify("add_status_item", key="k", value="v", alignment="left")
        notify("remove_status_item", key="k")
"#);
    let p = work("s18").join("f.txt");
    std::fs::write(&p, "hello\n").unwrap();
    let mut core = Core::start(Some(conf.clone()));
    let v = core.new_view(p.to_str());
    assert!(wait_log(&conf, |l| l.iter().any(|m| m[0] == "initialize")));
    pause(500);
    core.note("save", json!({"view_id": v, "file_path": p.to_str()}));
    let m = core.wait_rpc("remove_status_item").expect("nothing removed");
    assert_eq!(m["params"], json!({"view_id": v, "key": "k"}));
}
'''
