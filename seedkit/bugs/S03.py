PROP = "P03"
CRATE = "rpc"
NEEDS = "an outgoing request is pending when the peer sends a message that is not a valid call"
BREAKS = "the handler of the pending request is never run: the loop returns on the bad message without disconnecting"
EDITS = [("rpc/src/lib.rs", '''                        trace_payload("read loop exit", &["rpc"], err.to_string());
                        peer.disconnect();
''', '''                        trace_payload("read loop exit", &["rpc"], err.to_string());
                        peer.0.needs_exit.store(true, Ordering::Relaxed);
''')]
DEMO = r'''
extern crate serde_json;
extern crate xi_rpc;
use std::sync::mpsc;
use std::time::Duration;
use serde_json::Value;
use xi_rpc::test_utils::{make_reader, test_channel};
use xi_rpc::{Handler, Peer, RemoteError, RpcCtx, RpcLoop};
struct H;
impl Handler for H {
    type Notification = u32;
    type Request = u32;
    fn handle_notification(&mut self, _: &RpcCtx, _: u32) {}
    fn handle_request(&mut self, _: &RpcCtx, _: u32) -> Result<Value, RemoteError> { Ok(Value::Null) }
}
#[test]
fn pending_request_is_failed() {
    let (tx, _rx) = test_channel();
    let mut l = RpcLoop::new(tx);
    let p = l.get_raw_peer();
    let (ttx, trx) = mpsc::channel();
    p.send_rpc_request_async("q", &Value::Null, Box::new(move |r: Result<Value, xi_rpc::Error>| ttx.send(r.is_err()).unwrap()));
    let r = make_reader("{\"method\": \"m\", \"params\": {}}\n");
    assert!(l.mainloop(|| r, &mut H).is_err());
    assert_eq!(trx.recv_timeout(Duration::from_secs(2)), Ok(true));
}
'''
