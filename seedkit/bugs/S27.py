PROP = "P27"
CRATE = "core-lib"
NEEDS = "a plugin that sends no spans for a range it had styled before, with no other layer styling that range"
BREAKS = "the styles of the range stay as they were"
EDITS = [("core-lib/src/layers.rs", '''        self.merged.edit(iv, resolved);
''', '''        if resolved.iter().next().is_some() {
            self.merged.edit(iv, resolved);
        }
''')]
DEMO = r'''
use xi_core_lib::layers::Layers;
use xi_core_lib::plugins::PluginPid;
use xi_core_lib::styles::ThemeStyleMap;
use xi_rope::spans::SpansBuilder;
use xi_rope::{Interval, Rope, RopeDelta};

#[test]
fn spans_withdrawn_are_not_shown() {
    let pid: PluginPid = serde_json::from_value(serde_json::json!(1)).unwrap();
    let map = ThemeStyleMap::new(None);
    let mut layers = Layers::default();
    let delta: RopeDelta = RopeDelta::simple_edit(Interval::new(0, 0), Rope::from("let x = 5;"), 0);
    layers.update_all(&delta);
    layers.add_scopes(pid, vec![vec!["keyword".to_string()]], &map);
    let mut b = SpansBuilder::new(10);
    b.add_span(Interval::new(0, 3), 0);
    layers.update_layer(pid, Interval::new(0, 10), b.build());
    assert_eq!(layers.get_merged().iter().count(), 1);
    layers.update_layer(pid, Interval::new(0, 10), SpansBuilder::new(10).build());
    assert_eq!(layers.get_merged().iter().count(), 0);
}
'''
