PROP = "P28"
CRATE = "trace"
NEEDS = "a trace is saved to the path of a file that exists"
BREAKS = "the file is overwritten instead of being reported to exist"
EDITS = [("trace/src/lib.rs", '''        if path.exists() {
            return Err''', '''        if path.is_dir() {
            return Err''')]
DEMO = r'''
extern crate xi_trace;
use xi_trace::{Config, Trace};

#[test]
fn an_existing_file_is_left_alone() {
    let f = std::env::temp_dir().join(format!("xi-seed-trace-{}", std::process::id()));
    std::fs::write(&f, "precious").unwrap();
    let t = Trace::enabled(Config::with_limit_count(10));
    t.instant("a", &["b"]);
    let r = t.save(&f, true);
    let left = std::fs::read_to_string(&f).unwrap();
    let _ = std::fs::remove_file(&f);
    assert!(r.is_err());
    assert_eq!(left, "precious");
}
'''
