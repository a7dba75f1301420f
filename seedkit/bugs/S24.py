PROP = "P24"
CRATE = "rope"
NEEDS = "an undo that changes nothing of the text, followed by an edit"
BREAKS = "two revisions share one number, so an edit that names the earlier one is applied to the later one"
EDITS = [("rope/src/engine.rs", '''        self.text = new_text;
        self.tombstones = new_tombstones;
        self.deletes_from_union = new_deletes_from_union;
        self.undone_groups = groups;
        self.revs.push(new_rev);
        self.rev_id_counter += 1;
''', '''        if new_deletes_from_union != self.deletes_from_union {
            self.rev_id_counter += 1;
        }
        self.text = new_text;
        self.tombstones = new_tombstones;
        self.deletes_from_union = new_deletes_from_union;
        self.undone_groups = groups;
        self.revs.push(new_rev);
''')]
DEMO = r'''
extern crate xi_rope;
use std::collections::BTreeSet;
use xi_rope::engine::Engine;
use xi_rope::{Delta, Interval, Rope};

#[test]
fn revisions_have_numbers_of_their_own() {
    let mut e = Engine::new(Rope::from("one"));
    let insert = |e: &Engine, at: usize| Delta::simple_edit(Interval::new(at, at), Rope::from("x"), e.get_head().len());
    let d = insert(&e, 0);
    let head = e.get_head_rev_id().token();
    e.edit_rev(1, 1, head, d);
    e.undo(BTreeSet::new());
    let before = e.get_head_rev_id().token();
    let d = insert(&e, 4);
    e.edit_rev(1, 2, before, d);
    assert_ne!(before, e.get_head_rev_id().token());
    assert_eq!(String::from(e.get_rev(before).unwrap()), "xone");
}
'''
