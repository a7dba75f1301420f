From 1c30af817ef54307edca8c8f51b492509887987f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 01/26] fix: ignore a response whose id is not an unsigned
 integer

The reader thread unwrapped get_id() for every object that has an id and no
method. A peer sending {"id":"x","result":1} killed the reader thread and
left the main loop waiting for messages forever.
---
 rust/rpc/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust/rpc/src/lib.rs b/rust/rpc/src/lib.rs
index 14d79bd..7243c2b 100644
--- a/rust/rpc/src/lib.rs
+++ b/rust/rpc/src/lib.rs
@@ -281,7 +281,14 @@ impl<W: Write + Send> RpcLoop<W> {
                         }
                     };
                     if json.is_response() {
-                        let id = json.get_id().unwrap();
+                        let id = match json.get_id() {
+                            Some(id) => id,
+                            None => {
+                                // no request of ours can have had this id
+                                error!("ignoring response with invalid id: {:?}", json.0.get("id"));
+                                continue;
+                            }
+                        };
                         let _resp =
                             trace_block_payload("read loop response", &["rpc"], format!("{}", id));
                         match json.into_response() {
-- 
2.43.0


From f27b7cc1f705ba01408d122e2c7619df795c4898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 02/26] fix: do not hold the pending table's lock while running
 response handlers

disconnect() and the error path of send_rpc_request_common invoked handlers
with the lock held. A plugin's update callback takes the core lock, and the
core sends plugin updates (which take the pending lock) with the core lock
held: the two orders deadlock when a plugin goes away during an edit.
---
 rust/rpc/src/lib.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rust/rpc/src/lib.rs b/rust/rpc/src/lib.rs
index 7243c2b..4ba640d 100644
--- a/rust/rpc/src/lib.rs
+++ b/rust/rpc/src/lib.rs
@@ -481,8 +481,9 @@ impl<W: Write> RawPeer<W> {
             "method": method,
             "params": params,
         })) {
-            let mut pending = self.0.pending.lock().unwrap();
-            if let Some(rh) = pending.remove(&id) {
+            // release the lock before running the handler
+            let rh = self.0.pending.lock().unwrap().remove(&id);
+            if let Some(rh) = rh {
                 rh.invoke(Err(Error::Io(e)));
             }
         }
@@ -548,10 +549,10 @@ impl<W: Write> RawPeer<W> {
 
     /// send disconnect error to pending requests.
     fn disconnect(&self) {
-        let mut pending = self.0.pending.lock().unwrap();
-        let ids = pending.keys().cloned().collect::<Vec<_>>();
-        for id in &ids {
-            let callback = pending.remove(id).unwrap();
+        // take the handlers out and release the lock before running them: a
+        // handler may need a lock held by a thread which is sending a request
+        let pending = std::mem::replace(&mut *self.0.pending.lock().unwrap(), BTreeMap::new());
+        for (_, callback) in pending {
             callback.invoke(Err(Error::PeerDisconnect));
         }
         self.0.needs_exit.store(true, Ordering::Relaxed);
-- 
2.43.0


From 03a301fec66a65461422a881f9033853ecaa53fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 03/26] fix: do not run an async request's callback on the
 sender's stack

When writing an async request failed, its callback was run before
send_rpc_request_async returned. The core sends plugin updates with its lock
held and the callback takes that lock, so a plugin whose stdin was closed
deadlocked the core.
---
 rust/rpc/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rust/rpc/src/lib.rs b/rust/rpc/src/lib.rs
index 4ba640d..476295f 100644
--- a/rust/rpc/src/lib.rs
+++ b/rust/rpc/src/lib.rs
@@ -483,8 +483,15 @@ impl<W: Write> RawPeer<W> {
         })) {
             // release the lock before running the handler
             let rh = self.0.pending.lock().unwrap().remove(&id);
-            if let Some(rh) = rh {
-                rh.invoke(Err(Error::Io(e)));
+            match rh {
+                // the caller may hold locks which the callback needs
+                Some(ResponseHandler::Callback(f)) => {
+                    thread::spawn(move || f.call(Err(Error::Io(e))));
+                }
+                Some(ResponseHandler::Chan(tx)) => {
+                    let _ = tx.send(Err(Error::Io(e)));
+                }
+                None => (),
             }
         }
     }
-- 
2.43.0


From b46e25d8af19daf8809c08ca1db6e450575b81ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:23 +0000
Subject: [PATCH 04/26] fix: do not hold core's lock while waiting for plugins'
 traces

---
 rust/core-lib/src/core.rs        |  9 +++++++++
 rust/core-lib/src/plugins/mod.rs |  8 ++++++--
 rust/core-lib/src/tabs.rs        | 25 +++++++++++++++++--------
 3 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/rust/core-lib/src/core.rs b/rust/core-lib/src/core.rs
index 9e659eb..f634b11 100644
--- a/rust/core-lib/src/core.rs
+++ b/rust/core-lib/src/core.rs
@@ -108,6 +108,15 @@ impl Handler for XiCore {
             self.inner().finish_setup(weak_self);
         }
 
+        // Collecting a plugin's trace blocks until the plugin responds, and the
+        // plugin may have to wait for core first; so this can't hold the lock.
+        if let SaveTrace { destination, frontend_samples } = rpc {
+            let collectors = self.inner().plugin_trace_collectors();
+            let plugin_traces = collectors.into_iter().map(|collect| collect()).collect();
+            self.inner().save_trace(&destination, frontend_samples, plugin_traces);
+            return;
+        }
+
         self.inner().client_notification(rpc);
     }
 
diff --git a/rust/core-lib/src/plugins/mod.rs b/rust/core-lib/src/plugins/mod.rs
index 07b2af2..c46407e 100644
--- a/rust/core-lib/src/plugins/mod.rs
+++ b/rust/core-lib/src/plugins/mod.rs
@@ -114,8 +114,12 @@ impl Plugin {
         self.peer.send_rpc_notification("tracing_config", &json!({ "enabled": enabled }))
     }
 
-    pub fn collect_trace(&self) -> Result<Value, xi_rpc::Error> {
-        self.peer.send_rpc_request("collect_trace", &json!({}))
+    /// Returns a function that requests this plugin's trace samples, and
+    /// blocks until they arrive. It should not be called while core is locked:
+    /// the plugin may be waiting for core before it is able to respond.
+    pub fn trace_collector(&self) -> impl FnOnce() -> Result<Value, xi_rpc::Error> {
+        let peer = self.peer.clone();
+        move || peer.send_rpc_request("collect_trace", &json!({}))
     }
 
     pub fn config_changed(&self, view_id: ViewId, changes: &Table) {
diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 85bed50..e87f6c9 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -317,9 +317,6 @@ impl CoreState {
             CloseView { view_id } => self.do_close_view(view_id),
             ModifyUserConfig { domain, changes } => self.do_modify_user_config(domain, changes),
             SetTheme { theme_name } => self.do_set_theme(&theme_name),
-            SaveTrace { destination, frontend_samples } => {
-                self.save_trace(&destination, frontend_samples)
-            }
             Plugin(cmd) => match cmd {
                 PN::Start { view_id, plugin_name } => self.do_start_plugin(view_id, &plugin_name),
                 PN::Stop { view_id, plugin_name } => self.do_stop_plugin(view_id, &plugin_name),
@@ -329,7 +326,7 @@ impl CoreState {
             },
             TracingConfig { enabled } => self.toggle_tracing(enabled),
             // handled at the top level
-            ClientStarted { .. } => (),
+            ClientStarted { .. } | SaveTrace { .. } => (),
             SetLanguage { view_id, language_id } => self.do_set_language(view_id, language_id),
         }
     }
@@ -882,8 +879,20 @@ impl CoreState {
         self.running_plugins.iter().for_each(|plugin| plugin.toggle_tracing(enabled))
     }
 
-    fn save_trace<P>(&self, path: P, frontend_samples: Value)
-    where
+    /// Functions that collect the traces of the running plugins, to be called
+    /// while core is not locked.
+    pub(crate) fn plugin_trace_collectors(
+        &self,
+    ) -> Vec<impl FnOnce() -> Result<Value, xi_rpc::Error>> {
+        self.running_plugins.iter().map(|plugin| plugin.trace_collector()).collect()
+    }
+
+    pub(crate) fn save_trace<P>(
+        &self,
+        path: P,
+        frontend_samples: Value,
+        plugin_traces: Vec<Result<Value, xi_rpc::Error>>,
+    ) where
         P: AsRef<Path>,
     {
         use xi_trace::chrome_trace_dump;
@@ -892,8 +901,8 @@ impl CoreState {
             all_traces.append(&mut traces);
         }
 
-        for plugin in &self.running_plugins {
-            match plugin.collect_trace() {
+        for plugin_trace in plugin_traces {
+            match plugin_trace {
                 Ok(json) => {
                     let mut trace = chrome_trace_dump::decode(json).unwrap();
                     all_traces.append(&mut trace);
-- 
2.43.0


From 80d8d573f9e6829a65d05501bd645c6a6bc759c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:04 +0000
Subject: [PATCH 05/26] fix: do not panic on a malformed trace sample

---
 rust/core-lib/src/tabs.rs |  8 ++++----
 rust/trace/src/lib.rs     | 14 +++++++++-----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index e87f6c9..adf383b 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -903,10 +903,10 @@ impl CoreState {
 
         for plugin_trace in plugin_traces {
             match plugin_trace {
-                Ok(json) => {
-                    let mut trace = chrome_trace_dump::decode(json).unwrap();
-                    all_traces.append(&mut trace);
-                }
+                Ok(json) => match chrome_trace_dump::decode(json) {
+                    Ok(mut trace) => all_traces.append(&mut trace),
+                    Err(e) => error!("trace decoding error {:?}", e),
+                },
                 Err(e) => error!("trace error {:?}", e),
             }
         }
diff --git a/rust/trace/src/lib.rs b/rust/trace/src/lib.rs
index cea84e6..1dc246f 100644
--- a/rust/trace/src/lib.rs
+++ b/rust/trace/src/lib.rs
@@ -273,8 +273,8 @@ impl SampleEventType {
     }
 
     #[inline]
-    fn from_chrome_id(symbol: char) -> Self {
-        match symbol {
+    fn from_chrome_id(symbol: char) -> Option<Self> {
+        let event_type = match symbol {
             'B' => SampleEventType::DurationBegin,
             'E' => SampleEventType::DurationEnd,
             'X' => SampleEventType::CompleteDuration,
@@ -289,8 +289,9 @@ impl SampleEventType {
             'O' => SampleEventType::ObjectSnapshot,
             'D' => SampleEventType::ObjectDestroyed,
             'M' => SampleEventType::Metadata,
-            _ => panic!("Unexpected chrome sample type '{}'", symbol),
-        }
+            _ => return None,
+        };
+        Some(event_type)
     }
 }
 
@@ -376,7 +377,10 @@ fn deserialize_event_type<'de, D>(d: D) -> Result<SampleEventType, D::Error>
 where
     D: serde::Deserializer<'de>,
 {
-    serde::Deserialize::deserialize(d).map(SampleEventType::from_chrome_id)
+    let symbol: char = serde::Deserialize::deserialize(d)?;
+    SampleEventType::from_chrome_id(symbol).ok_or_else(|| {
+        serde::de::Error::custom(format!("unexpected chrome sample type '{}'", symbol))
+    })
 }
 
 /// Stores the relevant data about a sample for later serialization.
-- 
2.43.0


From 811f4d9bef10428d871cc97450808533e07385d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:04 +0000
Subject: [PATCH 06/26] fix: do not panic when a view is closed before it is
 initialized

---
 rust/core-lib/src/tabs.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index adf383b..e2c357b 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -579,8 +579,10 @@ impl CoreState {
         to_start.iter().for_each(|(id, config)| {
             let modified = self.detect_whitespace(*id, config);
             let config = modified.as_ref().unwrap_or(config);
-            let mut edit_ctx = self.make_context(*id).unwrap();
-            edit_ctx.finish_init(&config);
+            // the view may have been closed in the meantime
+            if let Some(mut edit_ctx) = self.make_context(*id) {
+                edit_ctx.finish_init(&config);
+            }
         });
     }
 
-- 
2.43.0


From 16849b41ddad98b93618096f5b56f9c1ca1abccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:04 +0000
Subject: [PATCH 07/26] fix: do not panic when an unknown plugin adds a status
 item

---
 rust/core-lib/src/event_context.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 55df61a..3b22705 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -239,8 +239,12 @@ impl<'a> EventContext<'a> {
             Edit { edit } => self.with_editor(|ed, _, _, _| ed.apply_plugin_edit(edit)),
             Alert { msg } => self.client.alert(&msg),
             AddStatusItem { key, value, alignment } => {
-                let plugin_name = &self.plugins.iter().find(|p| p.id == plugin).unwrap().name;
-                self.client.add_status_item(self.view_id, plugin_name, &key, &value, &alignment);
+                match self.plugins.iter().find(|p| p.id == plugin) {
+                    Some(p) => {
+                        self.client.add_status_item(self.view_id, &p.name, &key, &value, &alignment)
+                    }
+                    None => error!("status item from unknown plugin {}", plugin),
+                }
             }
             UpdateStatusItem { key, value } => {
                 self.client.update_status_item(self.view_id, &key, &value)
-- 
2.43.0


From 839d307bcd8736bf55c0bfdfca82cf3b5e9e63a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:04 +0000
Subject: [PATCH 08/26] fix: do not panic when the frontend fails to measure
 widths

---
 rust/core-lib/src/client.rs   | 2 +-
 rust/core-lib/src/linewrap.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/client.rs b/rust/core-lib/src/client.rs
index b9fd31d..59f4158 100644
--- a/rust/core-lib/src/client.rs
+++ b/rust/core-lib/src/client.rs
@@ -169,7 +169,7 @@ impl Client {
     pub fn measure_width(&self, reqs: &[WidthReq]) -> Result<WidthResponse, xi_rpc::Error> {
         let req_json = serde_json::to_value(reqs).expect("failed to serialize width req");
         let resp = self.0.send_rpc_request("measure_width", &req_json)?;
-        Ok(serde_json::from_value(resp).expect("failed to deserialize width response"))
+        serde_json::from_value(resp).map_err(|_| xi_rpc::Error::InvalidResponse)
     }
 
     pub fn alert<S: AsRef<str>>(&self, msg: S) {
diff --git a/rust/core-lib/src/linewrap.rs b/rust/core-lib/src/linewrap.rs
index badf218..db78ef8 100644
--- a/rust/core-lib/src/linewrap.rs
+++ b/rust/core-lib/src/linewrap.rs
@@ -519,7 +519,9 @@ impl<'a> RewrapCtx<'a> {
             pos = next;
             self.pot_breaks.push(PotentialBreak { pos, tok, hard });
         }
-        req.resolve_pending(self.client).unwrap();
+        if let Err(e) = req.resolve_pending(self.client) {
+            error!("error measuring widths: {:?}", e);
+        }
         self.lb_cursor_pos = pos;
     }
 
-- 
2.43.0


From d1acac452f30761d2fc7599247ccbdc3918aae49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:04 +0000
Subject: [PATCH 09/26] fix: reject a mouse action of the wrong length instead
 of panicking

---
 rust/core-lib/src/rpc.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/rpc.rs b/rust/core-lib/src/rpc.rs
index 1ffdfeb..fc34cf0 100644
--- a/rust/core-lib/src/rpc.rs
+++ b/rust/core-lib/src/rpc.rs
@@ -612,8 +612,14 @@ impl<'de> Deserialize<'de> for MouseAction {
         D: Deserializer<'de>,
     {
         let v: Vec<u64> = Vec::deserialize(deserializer)?;
-        let click_count = if v.len() == 4 { Some(v[3]) } else { None };
-        Ok(MouseAction { line: v[0], column: v[1], flags: v[2], click_count })
+        match *v.as_slice() {
+            [line, column, flags] => Ok(MouseAction { line, column, flags, click_count: None }),
+            [line, column, flags, click_count, ..] => {
+                let click_count = if v.len() == 4 { Some(click_count) } else { None };
+                Ok(MouseAction { line, column, flags, click_count })
+            }
+            _ => Err(de::Error::invalid_length(v.len(), &"at least three numbers")),
+        }
     }
 }
 
-- 
2.43.0


From 62a0b226f29dd78a573263dca03a89fee217673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:04 +0000
Subject: [PATCH 10/26] fix: do not panic on an empty scope stack or an unknown
 scope id

---
 rust/core-lib/src/layers.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index eda38e1..10c4c1a 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -145,7 +145,7 @@ impl Layers {
             if spans.iter().next().is_some() {
                 info!("scopes for layer {:?}:", id);
                 for (iv, val) in spans.iter() {
-                    info!("{}: {:?}", iv, layer.stack_lookup[*val as usize]);
+                    info!("{}: {:?}", iv, layer.stack_lookup.get(*val as usize));
                 }
                 info!("styles:");
                 for (iv, val) in styles.iter() {
@@ -240,7 +240,7 @@ impl ScopeLayer {
 
             // walk backwards through stack to see if we have an existing
             // style for any child stacks.
-            for i in 0..stack.len() - 1 {
+            for i in 0..stack.len().saturating_sub(1) {
                 let prev_range = 0..stack.len() - (i + 1);
                 if let Some(s) = self.style_cache.get(&stack[prev_range]) {
                     last_style = Some(*s);
@@ -291,7 +291,7 @@ impl ScopeLayer {
             // distinct adjacent scopes can often resolve to the same style,
             // so we combine them when building the styles.
             let style_eq = |i1: &u32, i2: &u32| {
-                self.style_lookup[*i1 as usize] == self.style_lookup[*i2 as usize]
+                self.style_lookup.get(*i1 as usize) == self.style_lookup.get(*i2 as usize)
             };
 
             while let Some((p_iv, p_val)) = prev {
@@ -300,7 +300,10 @@ impl ScopeLayer {
                         prev = Some((p_iv.union(n_iv), p_val));
                     }
                     other => {
-                        sb.add_span(p_iv, self.style_lookup[*p_val as usize].to_owned());
+                        // a plugin may not have sent the stack for this scope
+                        if let Some(style) = self.style_lookup.get(*p_val as usize) {
+                            sb.add_span(p_iv, style.to_owned());
+                        }
                         prev = other;
                     }
                 }
-- 
2.43.0


From ba5f453c13e29abb2a634a851024bf437bc6b1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:04 +0000
Subject: [PATCH 11/26] fix: forget cached styles when the theme changes

---
 rust/core-lib/src/layers.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index 10c4c1a..f332f79 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -192,6 +192,7 @@ impl ScopeLayer {
 
     fn theme_changed(&mut self, style_map: &ThemeStyleMap) {
         // recompute styles with the new theme
+        self.style_cache.clear();
         let cur_stacks = self.stack_lookup.clone();
         self.style_lookup = self.styles_for_stacks(&cur_stacks, style_map);
         let iv_all = Interval::new(0, self.style_spans.len());
-- 
2.43.0


From ad7b5bbb568b525d0beba6615194627ae2ec378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:04 +0000
Subject: [PATCH 12/26] fix: do not apply spans for a revision that is not
 known

---
 rust/core-lib/src/editor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index 26e4bdb..2e42362 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -622,6 +622,7 @@ impl Editor {
                 end_offset = transformer.transform(end_offset, true);
             } else {
                 error!("Revision {} not found", rev);
+                return;
             }
         }
         let iv = Interval::new(start, end_offset);
@@ -659,6 +660,7 @@ impl Editor {
                 end_offset = transformer.transform(end_offset, true);
             } else {
                 error!("Revision {} not found", rev);
+                return;
             }
         }
         let iv = Interval::new(start, end_offset);
-- 
2.43.0


From ff85d8309d88bd2eb291bea846a9d5e78d309193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:55 +0000
Subject: [PATCH 13/26] fix: accept plugins' line_count and get_selections
 requests

Every plugin command carries view_id and plugin_id in params, which a unit
variant rejects.
---
 rust/core-lib/src/event_context.rs | 4 ++--
 rust/core-lib/src/plugins/rpc.rs   | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 3b22705..e7de26b 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -264,11 +264,11 @@ impl<'a> EventContext<'a> {
     pub(crate) fn do_plugin_cmd_sync(&mut self, _plugin: PluginId, cmd: PluginRequest) -> Value {
         use self::PluginRequest::*;
         match cmd {
-            LineCount => json!(self.editor.borrow().plugin_n_lines()),
+            LineCount {} => json!(self.editor.borrow().plugin_n_lines()),
             GetData { start, unit, max_size, rev } => {
                 json!(self.editor.borrow().plugin_get_data(start, unit, max_size, rev))
             }
-            GetSelections => json!("not implemented"),
+            GetSelections {} => json!("not implemented"),
         }
     }
 
diff --git a/rust/core-lib/src/plugins/rpc.rs b/rust/core-lib/src/plugins/rpc.rs
index 1cd163e..5d65f55 100644
--- a/rust/core-lib/src/plugins/rpc.rs
+++ b/rust/core-lib/src/plugins/rpc.rs
@@ -178,8 +178,9 @@ pub enum TextUnit {
 /// RPC requests sent from plugins.
 pub enum PluginRequest {
     GetData { start: usize, unit: TextUnit, max_size: usize, rev: u64 },
-    LineCount,
-    GetSelections,
+    // the ids of the plugin and view are part of params, so it is never absent
+    LineCount {},
+    GetSelections {},
 }
 
 #[derive(Serialize, Deserialize, Debug, Clone)]
-- 
2.43.0


From fb895602557b7d05c32e31b00fb385ac8d46d450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:10 +0000
Subject: [PATCH 14/26] fix: keep a buffer's text encoding when it is saved
 under a new name

---
 rust/core-lib/src/file.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index 2467780..efc6439 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -138,10 +138,11 @@ impl FileManager {
     }
 
     fn save_new(&mut self, path: &Path, text: &Rope, id: BufferId) -> Result<(), FileError> {
-        try_save(path, text, CharacterEncoding::Utf8, self.get_info(id))
+        let encoding = self.get_info(id).map_or(CharacterEncoding::Utf8, |info| info.encoding);
+        try_save(path, text, encoding, self.get_info(id))
             .map_err(|e| FileError::Io(e, path.to_owned()))?;
         let info = FileInfo {
-            encoding: CharacterEncoding::Utf8,
+            encoding,
             path: path.to_owned(),
             mod_time: get_mod_time(path),
             has_changed: false,
-- 
2.43.0


From f944ff2a6ae7c4c7cb7049ed939d58cd63254f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:10 +0000
Subject: [PATCH 15/26] fix: closing or renaming a buffer only forgets the path
 it still owns

---
 rust/core-lib/src/file.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index efc6439..b489ece 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -122,12 +122,19 @@ impl FileManager {
 
     pub fn close(&mut self, id: BufferId) {
         if let Some(info) = self.file_info.remove(&id) {
-            self.open_files.remove(&info.path);
+            self.forget_path(&info.path, id);
             #[cfg(feature = "notify")]
             self.watcher.unwatch(&info.path, OPEN_FILE_EVENT_TOKEN);
         }
     }
 
+    /// Removes the path from the open files, unless it now belongs to another buffer.
+    fn forget_path(&mut self, path: &Path, id: BufferId) {
+        if self.open_files.get(path) == Some(&id) {
+            self.open_files.remove(path);
+        }
+    }
+
     pub fn save(&mut self, path: &Path, text: &Rope, id: BufferId) -> Result<(), FileError> {
         let is_existing = self.file_info.contains_key(&id);
         if is_existing {
@@ -160,7 +167,7 @@ impl FileManager {
         let prev_path = self.file_info[&id].path.clone();
         if prev_path != path {
             self.save_new(path, text, id)?;
-            self.open_files.remove(&prev_path);
+            self.forget_path(&prev_path, id);
             #[cfg(feature = "notify")]
             self.watcher.unwatch(&prev_path, OPEN_FILE_EVENT_TOKEN);
         } else if self.file_info[&id].has_changed {
-- 
2.43.0


From 4bceda08bc72500c2aa5797df56386fde51cd0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:40 +0000
Subject: [PATCH 16/26] fix: tell the frontend when a plugin starts for views
 already open

---
 rust/core-lib/src/tabs.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index e2c357b..a2d0a69 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -938,6 +938,7 @@ impl CoreState {
                 let init_info =
                     self.iter_groups().map(|mut ctx| ctx.plugin_info()).collect::<Vec<_>>();
                 plugin.initialize(init_info);
+                self.iter_groups().for_each(|ctx| ctx.plugin_started(&plugin));
                 self.running_plugins.push(plugin);
             }
             Err(e) => error!("failed to start plugin {:?}", e),
-- 
2.43.0


From 25f8b168c6056ac6404c7379a3cfde2b8f7966e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 17/26] fix: show a plugin's first annotations where they
 belong

The first annotations of a type were stored without the start of the
range they are for, so they were shown at the start of the buffer, and
later ones could be placed by the length of the earlier.
---
 rust/core-lib/src/annotations.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/rust/core-lib/src/annotations.rs b/rust/core-lib/src/annotations.rs
index 5143d52..175dea5 100644
--- a/rust/core-lib/src/annotations.rs
+++ b/rust/core-lib/src/annotations.rs
@@ -23,7 +23,7 @@ use std::collections::HashMap;
 use crate::line_offset::LineOffset;
 use crate::plugins::PluginId;
 use crate::view::View;
-use crate::xi_rope::spans::Spans;
+use crate::xi_rope::spans::{Spans, SpansBuilder};
 use crate::xi_rope::{Interval, Rope};
 
 #[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
@@ -94,6 +94,11 @@ pub struct Annotations {
 impl Annotations {
     /// Update the annotations in `interval` with the provided `items`.
     pub fn update(&mut self, interval: Interval, items: Spans<Value>) {
+        // the annotations known so far may not reach up to `interval`
+        let len = self.items.len();
+        if len < interval.end() {
+            self.items.edit(len..len, SpansBuilder::new(interval.end() - len).build());
+        }
         self.items.edit(interval, items);
     }
 
@@ -161,18 +166,17 @@ impl AnnotationStore {
 
     /// Applies an update from a plugin to a set of annotations
     pub fn update(&mut self, source: PluginId, interval: Interval, item: Annotations) {
-        if !self.store.contains_key(&source) {
-            self.store.insert(source, vec![item]);
-            return;
-        }
-
-        let entry = self.store.get_mut(&source).unwrap();
+        let entry = self.store.entry(source).or_default();
         if let Some(annotation) =
             entry.iter_mut().find(|a| a.annotation_type == item.annotation_type)
         {
             annotation.update(interval, item.items);
         } else {
-            entry.push(item);
+            let Annotations { items, annotation_type } = item;
+            let mut annotation =
+                Annotations { items: SpansBuilder::new(0).build(), annotation_type };
+            annotation.update(interval, items);
+            entry.push(annotation);
         }
     }
 
-- 
2.43.0


From e47dd3d6bb8e38f925a204ce1bc27ba34fc1244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 18/26] fix: drop annotations after an edit as documented

delete_after kept every span when none intersected the interval, so
annotations after an edit kept their old positions, and after a deletion
the core panicked looking up a position past the end of the text.
---
 rust/rope/src/spans.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/rope/src/spans.rs b/rust/rope/src/spans.rs
index be42007..cf3f450 100644
--- a/rust/rope/src/spans.rs
+++ b/rust/rope/src/spans.rs
@@ -313,9 +313,9 @@ impl<T: Clone> Spans<T> {
         let mut builder = SpansBuilder::new(self.len());
 
         for (iv, data) in self.iter() {
-            // check if spans overlaps with interval
-            if iv.intersect(interval).is_empty() {
-                // keep the ones that are not overlapping
+            // check if span ends before interval
+            if iv.end() <= interval.start() {
+                // keep the ones that come before
                 builder.add_span(iv, data.clone());
             } else {
                 // all remaining spans are invalid
-- 
2.43.0


From abd2766c31d8e3e635d4abb5e75009f43eb153bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 19/26] fix: resolve styles in the range of the new text after
 an edit

---
 rust/core-lib/src/layers.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index f332f79..0f6b1e5 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -81,8 +81,9 @@ impl Layers {
         for layer in self.layers.values_mut() {
             layer.blank_scopes(delta);
         }
-        let (iv, _len) = delta.summary();
-        self.resolve_styles(iv);
+        // the layers have been updated, so the range to resolve is that of the new text
+        let (iv, new_len) = delta.summary();
+        self.resolve_styles(Interval::new(iv.start, iv.start + new_len));
     }
 
     /// Updates the scope spans for a given layer.
-- 
2.43.0


From 5a8d69e7c1f5be4bf3716e31c037e48d4dfe6e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 20/26] fix: make the click command select again

The gesture types the deprecated click command was translated to were
themselves deprecated, and do_gesture ignores those: a click, double click
or triple click sent with it changed nothing.
---
 rust/core-lib/src/view.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 24283d2..7513b41 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -273,12 +273,18 @@ impl View {
                         column,
                         GestureType::SelectExtend { granularity: SelectionGranularity::Point },
                     )
-                } else if click_count == Some(2) {
-                    self.do_gesture(text, line, column, GestureType::WordSelect)
-                } else if click_count == Some(3) {
-                    self.do_gesture(text, line, column, GestureType::LineSelect)
                 } else {
-                    self.do_gesture(text, line, column, GestureType::PointSelect)
+                    let granularity = match click_count {
+                        Some(2) => SelectionGranularity::Word,
+                        Some(3) => SelectionGranularity::Line,
+                        _ => SelectionGranularity::Point,
+                    };
+                    self.do_gesture(
+                        text,
+                        line,
+                        column,
+                        GestureType::Select { granularity, multi: false },
+                    )
                 }
             }
             Drag(MouseAction { line, column, .. }) => {
-- 
2.43.0


From 690b4a39e16ada95f7f819b54dc4decb795edb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 21/26] fix: tell the client when a line it has loses its
 cursors

An update op carries lines without their text; a line whose cursors moved
away was sent without a cursor property, which means that the cursors the
client has for it are unchanged. To delete cursors, the protocol asks for
an empty list.
---
 rust/core-lib/src/view.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 7513b41..c3b645b 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -686,7 +686,8 @@ impl View {
                 style_spans
             ));
         }
-        if !cursors.is_empty() {
+        // an empty list tells the client to remove the cursors of a line it has
+        if text.is_none() || !cursors.is_empty() {
             result["cursor"] = json!(cursors);
         }
         if let Some(line_num) = line.line_num {
-- 
2.43.0


From b8a2d8a885a82e22b853a5bedf0e4b3538e4acc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 22/26] fix: report a plugin that went away by itself with code
 1

The code of plugin_stopped was always 0, which stands for a plugin stopped
by the user; a crash is documented to be reported as 1.
---
 rust/core-lib/src/event_context.rs |  4 ++--
 rust/core-lib/src/tabs.rs          | 13 +++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index e7de26b..51ea4e5 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -504,8 +504,8 @@ impl<'a> EventContext<'a> {
         self.client.plugin_started(self.view_id, &plugin.name)
     }
 
-    pub(crate) fn plugin_stopped(&mut self, plugin: &Plugin) {
-        self.client.plugin_stopped(self.view_id, &plugin.name, 0);
+    pub(crate) fn plugin_stopped(&mut self, plugin: &Plugin, code: i32) {
+        self.client.plugin_stopped(self.view_id, &plugin.name, code);
         let needs_render = self.with_editor(|ed, view, _, _| {
             if ed.get_layers_mut().remove_layer(plugin.id).is_some() {
                 view.set_dirty(ed.get_buffer());
diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index a2d0a69..dfc64ff 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -84,6 +84,11 @@ pub(crate) const FIND_VIEW_IDLE_MASK: usize = 1 << 27;
 
 const NEW_VIEW_IDLE_TOKEN: usize = 1001;
 
+/// The codes sent with the `plugin_stopped` notification: the plugin was
+/// stopped by the user, or it went away by itself.
+const PLUGIN_EXIT_CODE_STOPPED: i32 = 0;
+const PLUGIN_EXIT_CODE_CRASHED: i32 = 1;
+
 /// xi_rpc idle Token for watcher related idle scheduling.
 pub(crate) const WATCH_IDLE_TOKEN: usize = 1002;
 
@@ -538,7 +543,7 @@ impl CoreState {
         {
             //TODO: verify shutdown; kill if necessary
             p.shutdown();
-            self.after_stop_plugin(&p);
+            self.after_stop_plugin(&p, PLUGIN_EXIT_CODE_STOPPED);
         }
     }
 
@@ -549,8 +554,8 @@ impl CoreState {
             .for_each(|p| p.dispatch_command(view_id, method, params))
     }
 
-    fn after_stop_plugin(&mut self, plugin: &Plugin) {
-        self.iter_groups().for_each(|mut cx| cx.plugin_stopped(plugin));
+    fn after_stop_plugin(&mut self, plugin: &Plugin, code: i32) {
+        self.iter_groups().for_each(|mut cx| cx.plugin_stopped(plugin, code));
     }
 }
 
@@ -950,7 +955,7 @@ impl CoreState {
         let running_idx = self.running_plugins.iter().position(|p| p.id == id);
         if let Some(idx) = running_idx {
             let plugin = self.running_plugins.remove(idx);
-            self.after_stop_plugin(&plugin);
+            self.after_stop_plugin(&plugin, PLUGIN_EXIT_CODE_CRASHED);
         }
     }
 
-- 
2.43.0


From 184e4392a49b33253402a80293f602ac3f5cd2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 23/26] fix: initialize a view with the settings it has by then

---
 rust/core-lib/src/tabs.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index dfc64ff..6701b19 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -581,10 +581,14 @@ impl CoreState {
     fn finalize_new_views(&mut self) {
         let to_start = mem::replace(&mut self.pending_views, Vec::new());
 
-        to_start.iter().for_each(|(id, config)| {
-            let modified = self.detect_whitespace(*id, config);
-            let config = modified.as_ref().unwrap_or(config);
-            // the view may have been closed in the meantime
+        to_start.iter().for_each(|(id, _)| {
+            // the view may have been closed, or its settings changed, in the meantime
+            let config = match self.do_get_config(*id) {
+                Ok(config) => config,
+                Err(_) => return,
+            };
+            let modified = self.detect_whitespace(*id, &config);
+            let config = modified.as_ref().unwrap_or(&config);
             if let Some(mut edit_ctx) = self.make_context(*id) {
                 edit_ctx.finish_init(&config);
             }
-- 
2.43.0


From 52987e8b5c850d3322faf0725ab7ed664f9c19dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 24/26] fix: ignore invalid default settings of a language

---
 rust/core-lib/src/config.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/config.rs b/rust/core-lib/src/config.rs
index b321541..eb99600 100644
--- a/rust/core-lib/src/config.rs
+++ b/rust/core-lib/src/config.rs
@@ -415,7 +415,16 @@ impl ConfigManager {
         for language in languages.iter() {
             let lang_id = language.name.clone();
             let domain: ConfigDomain = lang_id.into();
-            let default_config = language.default_config.clone();
+            let default_config = match language.default_config {
+                Some(ref table) => match self.check_table(table) {
+                    Ok(()) => Some(table.clone()),
+                    Err(e) => {
+                        error!("Ignoring default config of {:?}: {}", language.name, e);
+                        None
+                    }
+                },
+                None => None,
+            };
             self.configs
                 .entry(domain.clone())
                 .and_modify(|c| *c = c.new_with_base(default_config.clone()))
-- 
2.43.0


From 4c908bb7517bbd1f540b4fcdea1459ee06442da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:17 +0000
Subject: [PATCH 25/26] fix: keep watching files after an error of the watcher

---
 rust/core-lib/src/watcher.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/watcher.rs b/rust/core-lib/src/watcher.rs
index d138a59..2601035 100644
--- a/rust/core-lib/src/watcher.rs
+++ b/rust/core-lib/src/watcher.rs
@@ -101,7 +101,15 @@ impl FileWatcher {
         let inner = watcher(tx_event, Duration::from_millis(100)).expect("watcher should spawn");
 
         thread::spawn(move || {
-            while let Ok(Ok(event)) = rx_event.recv() {
+            while let Ok(result) = rx_event.recv() {
+                let event = match result {
+                    Ok(event) => event,
+                    Err(e) => {
+                        warn!("error watching files: {:?}", e);
+                        continue;
+                    }
+                };
+
                 let mut state = state_clone.lock().unwrap();
                 let WatcherState { ref mut events, ref mut watchees } = *state;
 
-- 
2.43.0


From fd46c496b03db6033ac3cfd6cc697ec5e21b39b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:42 +0000
Subject: [PATCH 26/26] fix: save the samples of the trace saved, not of the
 process's trace

---
 rust/trace/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/trace/src/lib.rs b/rust/trace/src/lib.rs
index 1dc246f..b74877c 100644
--- a/rust/trace/src/lib.rs
+++ b/rust/trace/src/lib.rs
@@ -821,7 +821,8 @@ impl Trace {
         path: P,
         sort: bool,
     ) -> Result<(), chrome_trace_dump::Error> {
-        let traces = if sort { samples_cloned_sorted() } else { samples_cloned_unsorted() };
+        let traces =
+            if sort { self.samples_cloned_sorted() } else { self.samples_cloned_unsorted() };
         let path: &Path = path.as_ref();
 
         if path.exists() {
-- 
2.43.0

