#![allow(dead_code)]
extern crate serde_json;
extern crate xi_core_lib;
extern crate xi_rpc;
use serde_json::{json, Value};
use std::io::{self, BufReader, Read, Write};
use std::path::PathBuf;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Condvar, Mutex};
use std::thread;
use std::time::{Duration, Instant};
use xi_core_lib::XiCore;
use xi_rpc::RpcLoop;

struct In { rx: Receiver<Vec<u8>>, buf: Vec<u8> }
impl Read for In {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        if self.buf.is_empty() {
            match self.rx.recv() { Ok(b) => self.buf = b, Err(_) => return Ok(0) }
        }
        let n = out.len().min(self.buf.len());
        out[..n].copy_from_slice(&self.buf[..n]);
        self.buf.drain(..n);
        Ok(n)
    }
}
type Shared = Arc<(Mutex<(Vec<u8>, Vec<Value>)>, Condvar)>;
#[derive(Clone)]
struct Out(Shared);
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut g = (self.0).0.lock().unwrap();
        g.0.extend_from_slice(b);
        while let Some(i) = g.0.iter().position(|c| *c == b'\n') {
            let line: Vec<u8> = g.0.drain(..=i).collect();
            let v: Value = serde_json::from_slice(&line).unwrap();
            g.1.push(v);
        }
        (self.0).1.notify_all();
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
/// A core running in its own thread, spoken to as a frontend would.
struct Core { tx: Option<Sender<Vec<u8>>>, out: Shared, next: usize, ended: Receiver<bool> }
impl Core {
    fn bare() -> Core {
        let (tx, rx) = channel();
        let (etx, ended) = channel();
        let out: Shared = Arc::new((Mutex::new((Vec::new(), Vec::new())), Condvar::new()));
        let o = Out(out.clone());
        thread::spawn(move || {
            let mut state = XiCore::new();
            let mut l = RpcLoop::new(o);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                l.mainloop(|| BufReader::new(In { rx, buf: Vec::new() }), &mut state).is_ok()
            }));
            let _ = etx.send(r.unwrap_or(false));
        });
        Core { tx: Some(tx), out, next: 1000, ended }
    }
    fn start(config_dir: Option<PathBuf>) -> Core {
        let mut c = Core::bare();
        c.note("client_started", json!({ "config_dir": config_dir }));
        c
    }
    fn send(&mut self, v: Value) {
        let mut b = serde_json::to_vec(&v).unwrap();
        b.push(b'\n');
        let _ = self.tx.as_ref().unwrap().send(b);
    }
    fn note(&mut self, method: &str, params: Value) { self.send(json!({"method": method, "params": params})) }
    /// Sends a request and returns the response frame (None: no answer in time).
    fn ask(&mut self, method: &str, params: Value) -> Option<Value> {
        self.next += 1;
        let id = self.next;
        self.send(json!({"id": id, "method": method, "params": params}));
        self.wait(20, |v| v.get("method").is_none() && v["id"] == json!(id))
    }
    fn new_view(&mut self, path: Option<&str>) -> String {
        let p = match path { Some(p) => json!({ "file_path": p }), None => json!({}) };
        self.ask("new_view", p).expect("no answer")["result"].as_str().expect("no view").to_string()
    }
    fn edit(&mut self, view: &str, method: &str, params: Value) {
        self.note("edit", json!({"view_id": view, "method": method, "params": params}))
    }
    fn text(&mut self, view: &str) -> String {
        let r = self.ask("debug_get_contents", json!({ "view_id": view })).expect("no answer");
        r["result"].as_str().expect("no text").to_string()
    }
    /// Everything received so far.
    fn seen(&self) -> Vec<Value> { (self.out.0).lock().unwrap().1.clone() }
    fn count<F: Fn(&Value) -> bool>(&self, f: F) -> usize { self.seen().iter().filter(|v| f(v)).count() }
    fn forget(&self) { (self.out.0).lock().unwrap().1.clear() }
    fn wait<F: Fn(&Value) -> bool>(&self, secs: u64, f: F) -> Option<Value> {
        let end = Instant::now() + Duration::from_secs(secs);
        let mut g = (self.out.0).lock().unwrap();
        loop {
            if let Some(v) = g.1.iter().find(|v| f(v)) { return Some(v.clone()); }
            let now = Instant::now();
            if now >= end { return None; }
            g = (self.out.1).wait_timeout(g, end - now).unwrap().0;
        }
    }
    fn wait_rpc(&self, method: &str) -> Option<Value> { self.wait(20, |v| v["method"] == json!(method)) }
    /// Closes the input; true if the loop then ended normally.
    fn finish(mut self) -> bool {
        self.tx = None;
        self.ended.recv_timeout(Duration::from_secs(20)).unwrap_or(false)
    }
}
fn work(name: &str) -> PathBuf {
    let d = PathBuf::from(std::env::var("XI_DEMO_DIR").unwrap()).join(name);
    std::fs::create_dir_all(&d).unwrap();
    d
}
/// A config directory holding one plugin written in Python, started with every view. Its body defines
/// `note(method, params)` and `ask(id, method, params)`; `send(obj)`, `request(method, params)`, `plugin_id` and
/// `views` are provided. Responses are passed to `reply(msg)`.
fn python_plugin(name: &str, body: &str) -> PathBuf {
    let conf = work(&format!("conf-{}", name));
    let d = conf.join("plugins").join(name);
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("manifest.toml"),
        format!("name = \"{}\"\nversion = \"1\"\nexec_path = \"./run.py\"\nactivations = [\"autorun\"]\n", name)).unwrap();
    let log = conf.join("log");
    let src = format!(r#"#!/usr/bin/env python3
import sys, json
LOG = {:?}
plugin_id = None
views = []
infos = []
nid = [0]
def log(x):
    with open(LOG, "a") as f: f.write(json.dumps(x) + "\n")
def send(o):
    sys.stdout.write(json.dumps(o) + "\n"); sys.stdout.flush()
def notify(m, **p):
    p.setdefault("plugin_id", plugin_id); p.setdefault("view_id", views[0] if views else "view-id-1")
    send({{"method": m, "params": p}})
def request(m, **p):
    p.setdefault("plugin_id", plugin_id); p.setdefault("view_id", views[0] if views else "view-id-1")
    nid[0] += 1
    send({{"id": nid[0], "method": m, "params": p}})
    while True:
        msg = json.loads(sys.stdin.readline())
        if "method" not in msg: return msg
        handle(msg)
def note(m, p): pass
def ask(i, m, p): send({{"id": i, "result": 0}})
{}
def handle(msg):
    global plugin_id
    m, p = msg["method"], msg["params"]
    log([m, p])
    if m == "initialize":
        plugin_id = p["plugin_id"]
    if m in ("initialize", "new_buffer"):
        for b in p["buffer_info"]:
            infos.append(b)
            views.extend(b["views"])
    if "id" in msg: ask(msg["id"], m, p)
    else: note(m, p)
while True:
    line = sys.stdin.readline()
    if not line: break
    msg = json.loads(line)
    if "method" in msg: handle(msg)
"#, log.to_str().unwrap(), body);
    let exe = d.join("run.py");
    std::fs::write(&exe, src).unwrap();
    let mut perm = std::fs::metadata(&exe).unwrap().permissions();
    std::os::unix::fs::PermissionsExt::set_mode(&mut perm, 0o755);
    std::fs::set_permissions(&exe, perm).unwrap();
    conf
}
/// What the plugin was sent: [[method, params], ...]
fn plugin_log(conf: &PathBuf) -> Vec<Value> {
    std::fs::read_to_string(conf.join("log")).unwrap_or_default().lines().map(|l| serde_json::from_str(l).unwrap()).collect()
}
fn wait_log<F: Fn(&[Value]) -> bool>(conf: &PathBuf, f: F) -> bool {
    for _ in 0..400 {
        if f(&plugin_log(conf)) { return true; }
        thread::sleep(Duration::from_millis(25));
    }
    false
}
fn pause(ms: u64) { thread::sleep(Duration::from_millis(ms)) }
