PROP = "P26"
CRATE = "core-lib"
HARNESS = True
NEEDS = "several selections, the last of them a caret and an earlier one not empty, and then a change of the selection"
BREAKS = "the lines of the earlier selection keep the look of being selected"
EDITS = [("core-lib/src/view.rs", '''        let all_caret = self.selection.iter().all(|region| region.is_caret());
''', '''        let all_caret = self.selection.last().map_or(true, |region| region.is_caret());
''')]
DEMO = r'''
fn shown(core: &Core) -> Vec<Value> {
    let mut lines: Vec<Value> = Vec::new();
    for m in core.seen().iter().filter(|m| m["method"] == "update") {
        let (mut new, mut at) = (Vec::new(), 0);
        for op in m["params"]["update"]["ops"].as_array().unwrap() {
            let n = op["n"].as_u64().unwrap() as usize;
            match op["op"].as_str().unwrap() {
                "copy" => { for _ in 0..n { new.push(lines[at].clone()); at += 1; } }
                "skip" => at += n,
                "invalidate" => { for _ in 0..n { new.push(json!(null)); } }
                "update" => {
                    for l in op["lines"].as_array().unwrap() {
                        let mut old = lines[at].clone();
                        at += 1;
                        for k in ["cursor", "styles"] { if !l[k].is_null() { old[k] = l[k].clone(); } }
                        new.push(old);
                    }
                }
                "ins" => for l in op["lines"].as_array().unwrap() { new.push(l.clone()); },
                o => panic!("{}", o),
            }
        }
        lines = new;
    }
    lines
}

fn selected(core: &Core) -> bool {
    shown(core).iter().any(|l| l["styles"].as_array().map_or(false, |s| s.chunks(3).any(|c| c[2] == json!(0))))
}

#[test]
fn what_is_no_longer_selected_is_shown_so() {
    let mut core = Core::start(None);
    let v = core.new_view(None);
    core.edit(&v, "scroll", json!([0, 10]));
    core.edit(&v, "insert", json!({"chars": "aa\nbb\ncc\n"}));
    core.edit(&v, "gesture", json!({"line": 0, "col": 0, "ty": {"select": {"granularity": "point", "multi": false}}}));
    core.edit(&v, "gesture", json!({"line": 0, "col": 2, "ty": {"select_extend": {"granularity": "point"}}}));
    core.edit(&v, "gesture", json!({"line": 2, "col": 0, "ty": {"select": {"granularity": "point", "multi": true}}}));
    core.text(&v);
    pause(100);
    core.text(&v);
    assert!(selected(&core));
    core.edit(&v, "gesture", json!({"line": 1, "col": 0, "ty": {"select": {"granularity": "point", "multi": false}}}));
    core.text(&v);
    pause(100);
    core.text(&v);
    assert!(!selected(&core));
}
'''
