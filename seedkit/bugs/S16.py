PROP = "P16"
CRATE = "plugin-lib"
NEEDS = "a plugin that answers a user's edit with an edit after the cursor which is to be undone together with it"
BREAKS = "the edit is sent without the undo group it belongs to"
EDITS = [("plugin-lib/src/view.rs", "let undo_group = if new_undo_group { None } else { self.undo_group };", "let undo_group = if new_undo_group || after_cursor { None } else { self.undo_group };")]
DEMO = r"""
extern crate serde_json;
extern crate xi_core_lib;
extern crate xi_plugin_lib;
extern crate xi_rope;
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};
use std::path::Path;
use std::process::{Command, Stdio};
use xi_core_lib::ConfigTable;
use xi_plugin_lib::{mainloop, ChunkCache, Plugin, View};
use xi_rope::{DeltaBuilder, Rope, RopeDelta};

struct P;
impl Plugin for P {
    type Cache = ChunkCache;
    fn update(&mut self, view: &mut View<ChunkCache>, _d: Option<&RopeDelta>, edit_type: String, _a: String) {
        let mut b = DeltaBuilder::new(view.get_buf_size());
        b.replace(0..0, Rope::from("x"));
        view.edit(b.build(), 1, edit_type == "after", edit_type == "new", "p".into());
    }
    fn did_save(&mut self, _v: &mut View<ChunkCache>, _o: Option<&Path>) {}
    fn did_close(&mut self, _v: &View<ChunkCache>) {}
    fn new_view(&mut self, _v: &mut View<ChunkCache>) {}
    fn config_changed(&mut self, _v: &mut View<ChunkCache>, _c: &ConfigTable) {}
}

#[test]
fn child() {
    if std::env::var("XI_CHILD").is_ok() {
        let _ = mainloop(&mut P);
    }
}

/// The edits the plugin makes in answer to updates.
fn edits(updates: Vec<Value>) -> Vec<Value> {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(&["child", "--exact", "--nocapture", "--test-threads=1"])
        .env("XI_CHILD", "1").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let config = json!({"line_ending": "\n", "tab_size": 4, "translate_tabs_to_spaces": true, "use_tab_stops": true, "font_face": "f", "font_size": 12.0,
        "auto_indent": true, "scroll_past_end": false, "wrap_width": 0, "word_wrap": false, "autodetect_whitespace": true, "surrounding_pairs": [], "save_with_newline": true});
    let mut inp = c.stdin.take().unwrap();
    writeln!(inp, "{}", json!({"method": "initialize", "params": {"plugin_id": 1, "buffer_info": [{"buffer_id": 1, "views": ["view-id-1"], "rev": 0,
        "buf_size": 0, "nb_lines": 1, "path": null, "syntax": "", "config": config}]}})).unwrap();
    for (i, u) in updates.iter().enumerate() {
        let mut p = json!({"view_id": "view-id-1", "delta": null, "new_len": 0, "new_line_count": 1, "rev": i + 1, "undo_group": null, "edit_type": "e", "author": "a"});
        for (k, v) in u.as_object().unwrap() { p[k.as_str()] = v.clone(); }
        writeln!(inp, "{}", json!({"id": i, "method": "update", "params": p})).unwrap();
    }
    inp.flush().unwrap();
    let mut out = vec![];
    let mut rd = BufReader::new(c.stdout.take().unwrap());
    let mut l = String::new();
    while out.len() < updates.len() {
        l.clear();
        if rd.read_line(&mut l).unwrap() == 0 { break; }
        let i = match l.find('{') { Some(i) => i, None => continue };
        if let Ok(v) = serde_json::from_str::<Value>(&l[i..]) {
            if v["method"] == "edit" { out.push(v["params"]["edit"].clone()); }
        }
    }
    drop(inp);
    let _ = c.kill();
    let _ = c.wait();
    assert_eq!(out.len(), updates.len(), "{:?}", out);
    out
}

#[test]
fn edits_are_undone_with_the_users() {
    let e = edits(vec![json!({"undo_group": 3}), json!({"undo_group": 4, "edit_type": "after"}), json!({"undo_group": 5, "edit_type": "new"})]);
    assert_eq!(e[0]["undo_group"], json!(3));
    assert_eq!(e[1]["undo_group"], json!(4));
    assert_eq!(e[2]["undo_group"], json!(null));
}
"""
