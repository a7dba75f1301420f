PROP = "P17"
CRATE = "trace"
NEEDS = "a trace that holds the step of a flow, saved and read back"
BREAKS = "the step of a flow is read back as the start of another one"
EDITS = [("trace/src/lib.rs", "            's' => SampleEventType::FlowStart,\n            't' => SampleEventType::FlowInstant,\n", "            's' | 't' => SampleEventType::FlowStart,\n")]
DEMO = r'''
extern crate serde_json;
extern crate xi_trace;
use xi_trace::{Sample, SampleEventType};
#[test]
fn kinds_are_read_back() {
    for e in vec![SampleEventType::FlowStart, SampleEventType::FlowInstant, SampleEventType::FlowEnd] {
        let mut s = Sample::new_instant("a", &["b"], None);
        s.event_type = e.clone();
        let v = serde_json::to_value(&s).unwrap();
        let back: Sample = serde_json::from_value(v).unwrap();
        assert_eq!(back.event_type, e);
    }
}
'''
