PROP = "P20"
CRATE = "core-lib"
HARNESS = True
NEEDS = "playing a recording that does not exist or changes nothing, and editing afterwards"
BREAKS = "the forced undo group is never released, so one undo takes back all later edits"
EDITS = [("core-lib/src/event_context.rs", '''                self.editor.borrow_mut().set_force_undo_group(false);

                // The action that follows the block must belong to a separate undo group
                self.editor.borrow_mut().update_edit_type();

                let delta = self.editor.borrow_mut().delta_rev_head(starting_revision).unwrap();
''', '''
                let delta = self.editor.borrow_mut().delta_rev_head(starting_revision).unwrap();
                if delta.is_identity() {
                    return;
                }
                self.editor.borrow_mut().set_force_undo_group(false);

                // The action that follows the block must belong to a separate undo group
                self.editor.borrow_mut().update_edit_type();

''')]
DEMO = r'''
#[test]
fn edits_after_an_empty_replay_are_undone_one_by_one() {
    let mut core = Core::start(None);
    let v = core.new_view(None);
    core.edit(&v, "play_recording", json!({"recording_name": "none"}));
    core.edit(&v, "insert", json!({"chars": "a"}));
    core.edit(&v, "insert_newline", json!([]));
    core.edit(&v, "insert", json!({"chars": "b"}));
    core.edit(&v, "move_left", json!([]));
    core.edit(&v, "insert", json!({"chars": "c"}));
    core.edit(&v, "undo", json!([]));
    assert_eq!(core.text(&v), "a\nb");
}
'''
