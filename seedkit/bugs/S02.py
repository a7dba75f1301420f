PROP = "P02"
CRATE = "rpc"
NEEDS = "two threads sending at the same time, one of them a message of more than 64 KiB"
BREAKS = "a long message is written in several pieces, each under its own lock, so that frames of other threads end up inside it"
EDITS = [("rpc/src/lib.rs", '''        self.0.writer.lock().unwrap().write_all(s.as_bytes())
''', '''        for chunk in s.as_bytes().chunks(1 << 16) {
            self.0.writer.lock().unwrap().write_all(chunk)?;
        }
        Ok(())
''')]
DEMO = r'''
extern crate serde_json;
extern crate xi_rpc;
use std::io::{self, Write};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::thread;
use serde_json::Value;
use xi_rpc::{Peer, RpcLoop};
#[derive(Clone)]
struct W(Arc<Mutex<Vec<u8>>>);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.lock().unwrap().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
#[test]
fn frames_do_not_interleave() {
    let out = Arc::new(Mutex::new(Vec::new()));
    let l = RpcLoop::new(W(out.clone()));
    let done = Arc::new(AtomicBool::new(false));
    let ts: Vec<_> = (0..7).map(|k| {
        let p = l.get_raw_peer();
        let done = done.clone();
        thread::spawn(move || while !done.load(Ordering::Relaxed) { p.send_rpc_notification("m", &Value::from(k)); })
    }).collect();
    let p = l.get_raw_peer();
    let big = Value::from("x".repeat(4_000_000));
    for _ in 0..20 { p.send_rpc_notification("big", &big); }
    done.store(true, Ordering::Relaxed);
    for t in ts { t.join().unwrap(); }
    let s = String::from_utf8(out.lock().unwrap().clone()).unwrap();
    assert!(s.ends_with('\n'));
    for line in s.lines() { assert!(serde_json::from_str::<Value>(line).is_ok()); }
}
'''
