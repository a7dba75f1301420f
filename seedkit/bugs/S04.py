PROP = "P04"
CRATE = "rpc"
NEEDS = "two timers with different instants outstanding at once"
BREAKS = "the latest timer is looked at first, so an earlier one fires late and after it"
EDITS = [("rpc/src/lib.rs", '''        other.fire_after.cmp(&self.fire_after)
''', '''        self.fire_after.cmp(&other.fire_after)
''')]
DEMO = r'''
extern crate serde_json;
extern crate xi_rpc;
use std::io::{BufReader, Read};
use std::thread;
use std::time::{Duration, Instant};
use serde_json::Value;
use xi_rpc::test_utils::test_channel;
use xi_rpc::{Handler, Peer, RemoteError, RpcCall, RpcCtx, RpcLoop};
struct H(Vec<usize>);
impl Handler for H {
    type Notification = RpcCall;
    type Request = RpcCall;
    fn handle_notification(&mut self, _: &RpcCtx, _: RpcCall) {}
    fn handle_request(&mut self, _: &RpcCtx, _: RpcCall) -> Result<Value, RemoteError> { Ok(Value::Null) }
    fn idle(&mut self, _: &RpcCtx, t: usize) { self.0.push(t); }
}
struct Slow;
impl Read for Slow {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> { thread::sleep(Duration::from_millis(600)); Ok(0) }
}
#[test]
fn timers_fire_earliest_first() {
    let (tx, _rx) = test_channel();
    let mut l = RpcLoop::new(tx);
    let p = l.get_raw_peer();
    let now = Instant::now();
    p.schedule_timer(now + Duration::from_millis(200), 2);
    p.schedule_timer(now + Duration::from_millis(50), 1);
    p.schedule_timer(now + Duration::from_millis(300), 3);
    let mut h = H(Vec::new());
    l.mainloop(|| BufReader::new(Slow), &mut h).unwrap();
    assert_eq!(h.0, vec![1, 2, 3]);
}
'''
