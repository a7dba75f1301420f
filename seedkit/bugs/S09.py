PROP = "P09"
CRATE = "core-lib"
HARNESS = True
NEEDS = "a save that fails, in a buffer with unsaved changes, and then a look at the dirty state"
BREAKS = "the buffer counts as saved although its text was not written: the user is told it is clean and an outside change then silently replaces the unsaved text"
EDITS = [("core-lib/src/tabs.rs", '''            let error_message = e.to_string();
            error!("File error: {:?}", error_message);
            self.peer.alert(error_message);
            return;
        }

        let changes''', '''            let error_message = e.to_string();
            error!("File error: {:?}", error_message);
            self.peer.alert(error_message);
            if let FileError::HasChanged(_) = e {
                // the user has been told, and decides which version to keep
                self.editors[&buffer_id].borrow_mut().set_pristine();
            }
            return;
        }

        let changes'''), ("core-lib/src/tabs.rs", "use crate::file::FileManager;", "use crate::file::{FileError, FileManager};")]
DEMO = r'''
#[test]
fn a_refused_save_leaves_the_buffer_unsaved() {
    let d = work("refused");
    let a = d.join("a.txt");
    std::fs::write(&a, "old\n").unwrap();
    let mut core = Core::start(None);
    let v = core.new_view(Some(a.to_str().unwrap()));
    core.edit(&v, "insert", json!({"chars": "mine "}));
    pause(1200);
    std::fs::write(&a, "theirs\n").unwrap();
    pause(1500);
    assert_eq!(core.text(&v), "mine old\n");
    core.note("save", json!({"view_id": v, "file_path": a.to_str().unwrap()}));
    assert!(core.wait_rpc("alert").is_some(), "the save was not refused");
    pause(1200);
    std::fs::write(&a, "theirs again\n").unwrap();
    pause(1500);
    assert_eq!(core.text(&v), "mine old\n");
    core.forget();
    core.edit(&v, "move_right", json!([]));
    core.text(&v);
    assert!(core.seen().iter().all(|m| m["params"]["update"]["pristine"] != json!(true)));
}
'''
