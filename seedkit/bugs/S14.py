PROP = "P14"
CRATE = "core-lib"
HARNESS = True
NEEDS = "a plugin that asks for text of a revision that is no longer current, after lines were added or removed before that text"
BREAKS = "the text is that of the revision asked for, but its position in lines is that of the current text"
EDITS = [("core-lib/src/editor.rs", '''        let first_line = text.line_of_offset(offset);
        let first_line_offset = offset - text.offset_of_line(first_line);

        Some(GetDataResponse''', '''        let first_line = self.text.line_of_offset(offset.min(self.text.len()));
        let first_line_offset = offset.saturating_sub(self.text.offset_of_line(first_line));

        Some(GetDataResponse''')]
DEMO = r'''
#[test]
fn text_of_an_old_revision_comes_with_its_own_lines() {
    let conf = python_plugin("p", r#"
old = [None]
def ask(i, m, p):
    send({"id": i, "result": 0})
    if m != "update": return
    if p["new_len"] == 8: old[0] = p["rev"]
    if p["new_len"] == 11:
        log(["answer", request("get_data", start=4, unit="utf8", max_size=2, rev=old[0])])
"#);
    let mut core = Core::start(Some(conf.clone()));
    assert!(wait_log(&conf, |l| l.iter().any(|m| m[0] == "initialize")));
    let v = core.new_view(None);
    assert!(wait_log(&conf, |l| l.iter().any(|m| m[0] == "new_buffer")));
    core.edit(&v, "insert", json!({"chars": "0\n1\n2\n3\n"}));
    assert!(wait_log(&conf, |l| l.iter().any(|m| m[0] == "update" && m[1]["new_len"] == 8)));
    core.edit(&v, "gesture", json!({"line": 0, "col": 0, "ty": {"select": {"granularity": "point", "multi": false}}}));
    core.edit(&v, "insert", json!({"chars": "\n\n\n"}));
    assert!(wait_log(&conf, |l| l.iter().any(|m| m[0] == "answer")));
    let log = plugin_log(&conf);
    let a = &log.iter().find(|m| m[0] == "answer").unwrap()[1]["result"];
    assert_eq!(a, &json!({"chunk": "2\n", "offset": 4, "first_line": 2, "first_line_offset": 0}));
}
'''
