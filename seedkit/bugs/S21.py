PROP = "P21"
CRATE = "core-lib"
NEEDS = "two files watched for the same purpose change before core has looked at the first change"
BREAKS = "the second change is dropped, and that file is never reloaded"
EDITS = [("core-lib/src/watcher.rs", "                    .for_each(|t| events.push_back((t, event.clone())));", '''                    .for_each(|t| {
                        // a change repeated before core looked at it needs no second look
                        if !events.iter().any(|(queued, e)| {
                            *queued == t && e.kind == event.kind && e.flag() == event.flag()
                        }) {
                            events.push_back((t, event.clone()));
                        }
                    });''')]
DEMO = r'''
extern crate xi_core_lib;
use std::path::PathBuf;
use std::time::Duration;
use xi_core_lib::watcher::{FileWatcher, Notify, WatchToken};

struct Nothing;
impl Notify for Nothing {
    fn notify(&self) {}
}

#[test]
fn changes_of_two_files_are_both_kept() {
    let d: PathBuf = std::env::temp_dir().join(format!("xi-seed-watch-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    let d = d.canonicalize().unwrap();
    let (a, b) = (d.join("a.txt"), d.join("b.txt"));
    std::fs::write(&a, "1").unwrap();
    std::fs::write(&b, "1").unwrap();
    let mut w = FileWatcher::new(Nothing);
    w.watch(&a, false, WatchToken(7));
    w.watch(&b, false, WatchToken(7));
    std::thread::sleep(Duration::from_millis(1000));
    w.take_events();
    std::fs::write(&a, "22").unwrap();
    std::fs::write(&b, "22").unwrap();
    std::thread::sleep(Duration::from_millis(3000));
    let paths: Vec<PathBuf> = w.take_events().into_iter().flat_map(|(_, e)| e.paths).collect();
    let _ = std::fs::remove_dir_all(&d);
    assert!(paths.contains(&a), "{:?}", paths);
    assert!(paths.contains(&b), "{:?}", paths);
}
'''
