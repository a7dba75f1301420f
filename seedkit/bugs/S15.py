PROP = "P15"
CRATE = "core-lib"
HARNESS = True
NEEDS = "a deletion to the end of a paragraph, then a deletion of a word backwards, then a yank"
BREAKS = "the deletion of a word replaces what yank inserts"
EDITS = [("core-lib/src/edit_types.rs", '''                BufferEvent::Delete {
                    movement: Movement::LeftWord,
                    kill: false
                }.into(),''', '''                BufferEvent::Delete {
                    movement: Movement::LeftWord,
                    kill: true
                }.into(),''')]
DEMO = r'''
#[test]
fn only_what_was_killed_is_yanked() {
    let mut core = Core::start(None);
    let view = core.new_view(None);
    core.edit(&view, "insert", json!({"chars": "one two three"}));
    core.edit(&view, "move_word_left", json!([]));
    core.edit(&view, "delete_to_end_of_paragraph", json!([]));
    core.edit(&view, "delete_word_backward", json!([]));
    core.edit(&view, "yank", json!([]));
    assert_eq!(core.text(&view), "one three");
}
'''
