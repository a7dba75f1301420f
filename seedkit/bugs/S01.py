PROP = "P01"
CRATE = "rpc"
NEEDS = "a request whose handler succeeds with a null result"
BREAKS = "the response of such a request carries neither result nor error"
EDITS = [("rpc/src/lib.rs", 'Ok(result) => response["result"] = result,', '''Ok(Value::Null) => (),
            Ok(result) => response["result"] = result,''')]
DEMO = r'''
extern crate serde_json;
extern crate xi_rpc;
use serde_json::Value;
use xi_rpc::test_utils::{make_reader, test_channel};
use xi_rpc::{Handler, RemoteError, RpcCall, RpcCtx, RpcLoop};
struct H;
impl Handler for H {
    type Notification = RpcCall;
    type Request = RpcCall;
    fn handle_notification(&mut self, _: &RpcCtx, _: RpcCall) {}
    fn handle_request(&mut self, _: &RpcCtx, rpc: RpcCall) -> Result<Value, RemoteError> { Ok(rpc.params) }
}
#[test]
fn null_result_is_answered() {
    let (tx, mut rx) = test_channel();
    let mut l = RpcLoop::new(tx);
    let r = make_reader("{\"id\": 7, \"method\": \"m\", \"params\": null}\n");
    assert!(l.mainloop(|| r, &mut H).is_ok());
    assert_eq!(rx.expect_response(), Ok(Value::Null));
}
'''
