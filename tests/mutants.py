R = "rpc/src/lib.rs"
M = [
 ("rpc-skip-err", "P01", R, "                        peer.respond(result, id);", "                        if result.is_ok() { peer.respond(result, id); }", 1),
 ("rpc-invalid-drop", "P01", R, "Ok(Call::InvalidRequest(id, err)) => peer.respond(Err(err), id),", "Ok(Call::InvalidRequest(_id, err)) => { error!(\"{:?}\", err); }", 1),
 ("rpc-respond-early", "P01", R, "            Ok(result) => response[\"result\"] = result,", "            Ok(Value::Null) => return,\n            Ok(result) => response[\"result\"] = result,", 1),
 ("rpc-isresp", "P01", "rpc/src/parse.rs", 'self.0.get("id").is_some() && self.0.get("method").is_none()', 'self.0.get("id").is_some()', 1),
 ("rpc-isresp2", "P01", "rpc/src/parse.rs", 'self.0.get("id").is_some() && self.0.get("method").is_none()', 'self.0.get("method").is_none()', 1),
 ("rpc-isresp-neutral", "P01", "rpc/src/parse.rs", 'self.0.get("id").is_some() && self.0.get("method").is_none()', 'let has_method = self.0.get("method").is_some(); if has_method { return false; } match self.0.get("id") { Some(_) => true, None => false }', 0),
 ("rpc-respond-neutral", "P01", R, '''        let mut response = json!({ "id": id });
        match result {
            Ok(result) => response["result"] = result,
            Err(error) => response["error"] = json!(error),
        };
        if let Err(e) = self.send(&response) {''', '''        let response = match result {
            Ok(result) => json!({ "result": result, "id": id }),
            Err(error) => json!({ "id": id, "error": error }),
        };
        let sent = self.send(&response);
        if let Err(e) = sent {''', 0),
 ("rpc-loop-neutral", "P01", R, '''                        let result = handler.handle_request(&ctx, cmd);
                        peer.respond(result, id);
                    }
                    Ok(Call::Notification(cmd)) => {''', '''                        let answer = |h: &mut H| h.handle_request(&ctx, cmd);
                        let result = answer(handler);
                        let _ = 1 + 1;
                        peer.respond(result, id);
                        continue;
                    }
                    Ok(Call::Notification(cmd)) => {''', 0),
]
M += [
 ("frame-split", "P02", R, "        s.push('\\n');\n        self.0.writer.lock().unwrap().write_all(s.as_bytes())", "        self.0.writer.lock().unwrap().write_all(s.as_bytes())?;\n        s = String::from(\"\\n\"); self.0.writer.lock().unwrap().write_all(s.as_bytes())", 1),
 ("frame-write", "P02", R, "self.0.writer.lock().unwrap().write_all(s.as_bytes())", "self.0.writer.lock().unwrap().write(s.as_bytes()).map(|_| ())", 1),
 ("frame-nonl", "P02", R, "        s.push('\\n');\n", "        if !s.ends_with('}') { s.push('\\n'); }\n", 1),
 ("frame-pretty", "P02", R, "serde_json::to_string(v)", "serde_json::to_string_pretty(v)", 1),
 ("frame-neutral", "P02", R, "        self.0.writer.lock().unwrap().write_all(s.as_bytes())", "        let bytes = s.into_bytes();\n        let mut w = self.0.writer.lock().unwrap();\n        let r = w.write_all(&bytes);\n        drop(w);\n        r", 0),
 ("frame-neutral2", "P02", R, "        s.push('\\n');\n        self.0.writer.lock().unwrap().write_all(s.as_bytes())", "        s += \"\\n\";\n  let line = s;      let mut w = self.0.writer.lock().unwrap();\n        w.write_all(line.as_bytes())?; Ok(())", 0),
 ("frame-noid", "P02", R, "            \"id\": id,\n            \"method\": method,", "            \"id\": id + 1,\n            \"method\": method,", 1),
]
INS = '''        {
            let mut pending = self.0.pending.lock().unwrap();
            pending.insert(id, rh);
        }
        if let Err(e) = self.send(&json!({
            "id": id,
            "method": method,
            "params": params,
        })) {
'''
M += [
 ("pend-order", "P03", R, INS, '''        let sent = self.send(&json!({
            "id": id,
            "method": method,
            "params": params,
        }));
        {
            let mut pending = self.0.pending.lock().unwrap();
            pending.insert(id, rh);
        }
        if let Err(e) = sent {
''', 1),
 ("pend-err-drop", "P03", R, "                    let _ = tx.send(Err(Error::Io(e)));", "                    let _ = (tx, e);", 1),
 ("pend-resp-drop", "P03", R, "            Some(responsehandler) => responsehandler.invoke(resp),", "            Some(responsehandler) => if resp.is_ok() { responsehandler.invoke(resp) },", 1),
 ("pend-no-disc", "P03", R, "                        peer.disconnect();\n                        return ReadError::UnknownRequest(err);", "                        return ReadError::UnknownRequest(err);", 1),
 ("pend-id-reuse", "P03", R, "let id = self.0.id.fetch_add(1, Ordering::Relaxed);", "let id = self.0.id.load(Ordering::Relaxed); self.0.id.store(id + 1, Ordering::Relaxed);", 1),
 ("pend-disc-first", "P03", R, "        for (_, callback) in pending {\n            callback.invoke(Err(Error::PeerDisconnect));\n        }", "        if let Some((_, callback)) = pending.into_iter().next() {\n            callback.invoke(Err(Error::PeerDisconnect));\n        }", 1),
 ("pend-needs-exit", "P03", R, "        self.0.needs_exit.store(true, Ordering::Relaxed);", "        if false { self.0.needs_exit.store(true, Ordering::Relaxed); }", 1),
 ("pend-neutral", "P03", R, "        match handler {\n            Some(responsehandler) => responsehandler.invoke(resp),\n            None => warn!(\"id {} not found in pending\", id),\n        }", "        if handler.is_none() { warn!(\"id {} not found in pending\", id); return; }\n        let h = handler.unwrap();\n        h.invoke(resp);", 0),
 ("pend-neutral2", "P03", R, "        for (_, callback) in pending {\n            callback.invoke(Err(Error::PeerDisconnect));\n        }", "        pending.into_iter().for_each(|(_, cb)| cb.invoke(Err(Error::PeerDisconnect)));", 0),
 ("pend-neutral3", "P03", R, "        let pending = std::mem::replace(&mut *self.0.pending.lock().unwrap(), BTreeMap::new());\n        for (_, callback) in pending {", "        let ids = self.0.pending.lock().unwrap().keys().cloned().collect::<Vec<_>>();\n        for id in ids {\n            let callback = match self.0.pending.lock().unwrap().remove(&id) { Some(c) => c, None => continue };", 0),
]
M += [
 ("queue-nonotify", "P04", R, "        queue.push_back(json);\n        self.0.rx_cvar.notify_one();", "        let wake = queue.is_empty();\n        queue.push_back(json);\n        if wake { self.0.rx_cvar.notify_one(); }", 1),
 ("queue-lifo", "P04", R, "        queue = result.0;\n        queue.pop_front()", "        queue = result.0;\n        queue.pop_back()", 1),
 ("queue-idle-first", "P04", R, "            Some(Ok(token)) => {\n                do_idle(handler, ctx, token);\n                continue;\n            }", "            Some(Ok(token)) => {\n                do_idle(handler, ctx, token);\n                None\n            }", 1),
 ("queue-timer-early", "P04", R, "if t.fire_after > now {", "if t.fire_after > now + MAX_IDLE_WAIT {", 1),
 ("queue-timer-flip", "P04", R, "other.fire_after.cmp(&self.fire_after)", "self.fire_after.cmp(&other.fire_after)", 1),
 ("queue-err-noput", "P04", R, '''                            if self.peer.0.is_blocked.load(Ordering::Acquire) {
                                error!("failed to parse response json: {}", err);
                                self.peer.disconnect();
                            }
                            self.peer.put_rx(Err(err));''', '''                            if self.peer.0.is_blocked.load(Ordering::Acquire) {
                                error!("failed to parse response json: {}", err);
                                self.peer.disconnect();
                            } else {
                            self.peer.put_rx(Err(err)); }''', 1),
 ("queue-token-lost", "P04", R, '''                        if let Some(idle_token) = peer.try_get_idle() {
                            handler.idle(&ctx, idle_token);
                        }
                        peer.disconnect();''', '''                        if let Some(idle_token) = peer.try_get_idle() {
                            if !err.is_disconnect() { handler.idle(&ctx, idle_token); }
                        }
                        peer.disconnect();''', 1),
 ("queue-neutral", "P04", R, '''        match timers.peek() {
            None => return None,
            Some(t) => {
                let now = Instant::now();
                if t.fire_after > now {
                    return Some(Err(t.fire_after - now));
                }
            }
        }
        Some(Ok(timers.pop().unwrap().token))''', '''        let now = Instant::now();
        let next = timers.peek()?.fire_after;
        if next <= now {
            let timer = timers.pop().unwrap();
            Some(Ok(timer.token))
        } else {
            Some(Err(next - now))
        }''', 0),
 ("queue-neutral2", "P04", R, '''        if let Some(idle_token) = peer.try_get_idle() {
            do_idle(handler, ctx, idle_token);
            continue;
        }
''', '''        let token = peer.try_get_idle();
        match token { Some(t) => { do_idle(handler, ctx, t); continue; } None => () }
''', 0),
]
C = "core-lib/src/"
EC, TB, RE, ED, FI, PM = C + "event_context.rs", C + "tabs.rs", C + "recorder.rs", C + "editor.rs", C + "file.rs", C + "plugins/mod.rs"
M += [
 ("lock-collect", "P05", C + "core.rs", "            let collectors = self.inner().plugin_trace_collectors();\n            let plugin_traces = collectors.into_iter().map(|collect| collect()).collect();\n            self.inner().save_trace(&destination, frontend_samples, plugin_traces);",
  "            let core = self.inner();\n            let collectors = core.plugin_trace_collectors();\n            let plugin_traces = collectors.into_iter().map(|collect| collect()).collect();\n            core.save_trace(&destination, frontend_samples, plugin_traces);", 1),
 ("lock-relock", "P05", C + "core.rs", "            core.inner().plugin_request(ctx, view_id, plugin_id, cmd)", "            let inner = core.inner();\n            if let XiCore::Running(ref again) = core { let _n = again.lock().is_ok(); }\n            let mut inner = inner; inner.plugin_request(ctx, view_id, plugin_id, cmd)", 1),
 ("lock-watcher-notify", "P05", C + "watcher.rs", "        let mut state = self.state.lock().unwrap();\n\n        let w", "        let state_arc = self.state.clone();\n        let mut state = state_arc.lock().unwrap();\n\n        let w", 0),
 ("lock-neutral", "P05", C + "core.rs", "            core.inner().plugin_exit(plugin, error)", "            let mut guard = core.inner();\n            let _unused = 1 + 1;\n            guard.plugin_exit(plugin, error);\n            drop(guard);", 0),
 ("lock-pending-cb", "P05", "rpc/src/lib.rs", "        let pending = std::mem::replace(&mut *self.0.pending.lock().unwrap(), BTreeMap::new());\n        for (_, callback) in pending {\n            callback.invoke(Err(Error::PeerDisconnect));\n        }",
  "        let mut pending = self.0.pending.lock().unwrap();\n        for (_, callback) in std::mem::take(&mut *pending) {\n            callback.invoke(Err(Error::PeerDisconnect));\n        }", 1),
 ("cell-afteredit", "P06", EC, "        self.update_plugins(&mut self.editor.borrow_mut(), delta, author);\n\n        //if", "        let mut ed = self.editor.borrow_mut();\n        self.update_plugins(&mut ed, delta, author);\n        self.view.borrow_mut(); self.editor.borrow();\n\n        //if", 1),
 ("cell-view", "P06", EC, "                if self.with_view(|v, _| v.find_in_progress()) {\n                    self.do_incremental_find();", "                let v = self.view.borrow();\n                if v.find_in_progress() {\n                    self.do_incremental_find();", 1),
 ("cell-neutral", "P06", EC, "                if self.with_view(|v, _| v.find_in_progress()) {\n                    self.do_incremental_find();", "                let finding = self.view.borrow().find_in_progress();\n                if finding {\n                    self.do_incremental_find();", 0),
 ("cell-special", "P06", EC, "                (true, EventDomain::Special(_)) => {\n", "                (true, EventDomain::Special(SpecialEvent::RequestLines(_))) => {\n", 1),
 ("rec-special", "P20", EC, "                (true, EventDomain::Special(_)) => {\n", "                (true, EventDomain::Special(SpecialEvent::RequestLines(_))) => {\n", 1),
 ("rec-drop", "P20", RE, "        if recording_buffer.last().is_none() {\n            recording_buffer.push(current_event);\n            return;", "        if recording_buffer.last().is_none() {\n            if let EventDomain::Buffer(_) = current_event { recording_buffer.push(current_event); }\n            return;", 1),
 ("rec-switch", "P20", RE, "                if last_recording != recording_name {\n                    self.recording_buffer.clear();\n", "                if last_recording != recording_name {\n", 1),
 ("rec-savekeep", "P20", RE, "        self.recordings.insert(recording_name, current_recording);\n        self.recording_buffer.clear();", "        self.recordings.insert(recording_name, current_recording);", 1),
 ("rec-force", "P20", EC, "                self.editor.borrow_mut().set_force_undo_group(false);\n\n                // The action", "                if !self.plugins.is_empty() { self.editor.borrow_mut().set_force_undo_group(false); }\n\n                // The action", 1),
 ("rec-views", "P20", EC, "                    self.update_views(&editor, &delta, &last_text, drift);\n                });", "                    if !self.siblings.is_empty() { self.update_views(&editor, &delta, &last_text, drift); }\n                });", 1),
 ("rec-active", "P20", RE, "            warn!(\"Cannot play recording while it's currently active!\");\n            return;", "            warn!(\"Cannot play recording while it's currently active!\");", 1),
 ("rec-neutral", "P20", EC, '''            let mut recorder = self.recorder.borrow_mut();
            match (recorder.is_recording(), &event) {
                (_, EventDomain::Special(SpecialEvent::ToggleRecording(recording_name))) => {
                    recorder.toggle_recording(recording_name.clone());
                }
                // Don't save special events
                (true, EventDomain::Special(_)) => {
                    warn!("Special events cannot be recorded-- ignoring event {:?}", event)
                }
                (true, event) => recorder.record(event.clone()),
                _ => {}
            }''', '''            let mut recorder = self.recorder.borrow_mut();
            if let EventDomain::Special(SpecialEvent::ToggleRecording(ref recording_name)) = event {
                recorder.toggle_recording(recording_name.clone());
            } else if recorder.is_recording() {
                if matches!(event, EventDomain::Special(_)) {
                    warn!("Special events cannot be recorded-- ignoring event {:?}", event)
                } else {
                    recorder.record(event.clone());
                }
            }''', 0),
 ("rec-neutral2", "P20", RE, '''        let is_current_recording: bool = self
            .active_recording
            .as_ref()
            .map_or(false, |current_recording| current_recording == recording_name);

        if is_current_recording {
            warn!("Cannot play recording while it's currently active!");
            return;
        }
''', '''        match self.active_recording {
            Some(ref current) if current.as_str() == recording_name => {
                warn!("Cannot play recording while it's currently active!");
                return;
            }
            _ => (),
        }
''', 0),
 ("rec-neutral3", "P20", RE, '''        match (is_recording, &last_recording, &recording_name) {
            (true, Some(last_recording), None) => {
                self.save_recording_buffer(last_recording.clone())
            }
            (true, Some(last_recording), Some(recording_name)) => {
                if last_recording != recording_name {
                    self.recording_buffer.clear();
                } else {
                    self.save_recording_buffer(last_recording.clone());
                    return;
                }
            }
            _ => {}
        }
''', '''        let _ = is_recording;
        if let Some(last) = last_recording {
            match recording_name {
                None => self.save_recording_buffer(last),
                Some(ref name) if *name == last => {
                    self.save_recording_buffer(last);
                    return;
                }
                Some(_) => self.recording_buffer.clear(),
            }
        }
''', 0),
]
EV, ED, TABS_ = "core-lib/src/event_context.rs", "core-lib/src/editor.rs", "core-lib/src/tabs.rs"
M += [
 ("flow-sync-after", "P13", EV, '''            Copy => Ok(self.with_editor(|ed, view, _, _| ed.do_copy(view))),
        };
        self.after_edit("core");
''', '''            Copy => Ok(self.with_editor(|ed, view, _, _| ed.do_copy(view))),
        };
''', 1),
 ("flow-plugin-render", "P13", EV, '''        self.after_edit(&plugin.to_string());
        self.render_if_needed();
''', '''        self.after_edit(&plugin.to_string());
''', 1),
 ("flow-no-sched", "P13", EV, '''                self.client.schedule_timer(timeout, token);
                view.set_has_pending_render(true);''', '''                let _ = (timeout, token);
                view.set_has_pending_render(true);''', 1),
 ("flow-plugin-text", "P13", ED, "            Ok(_) => self.text = self.engine.get_head().clone(),\n", "            Ok(_) => (),\n", 1),
 ("flow-undo-text", "P13", ED, '''        self.engine.undo(self.undos.clone());
        self.text = self.engine.get_head().clone();
''', '''        let before = self.engine.get_head().clone();
        self.engine.undo(self.undos.clone());
        if self.undos.is_empty() { self.text = before; return; }
        self.text = self.engine.get_head().clone();
''', 1),
 ("flow-layers", "P13", ED, "        self.layers.update_all(&delta);\n", "        if self.this_edit_type != EditType::Transpose { self.layers.update_all(&delta); }\n", 1),
 ("flow-lastrev", "P13", ED, "        self.last_rev_id = self.engine.get_head_rev_id();\n        self.sync", "        if !delta.is_identity() { self.last_rev_id = self.engine.get_head_rev_id(); }\n        self.sync", 1),
 ("flow-lasttext", "P13", ED, "let last_text = self.engine.get_rev(last_token).expect(\"last_rev not found\");", "let last_text = self.engine.get_rev(self.pristine_rev_id.token()).unwrap_or_else(|| self.text.clone());", 1),
 ("flow-delta", "P13", ED, "let delta = self.engine.try_delta_rev_head(last_token)", "let delta = self.engine.try_delta_rev_head(self.pristine_rev_id.token())", 1),
 ("flow-skip-closed", "P13", EV, '''        let iter_views = iter::once(&self.view).chain(self.siblings.iter());
''', '''        let iter_views = iter::once(&self.view);
''', 1),
 ("flow-skip-dirty", "P13", EV, '''        iter_views.for_each(|view| {
            view.borrow_mut()''', '''        iter_views.for_each(|view| {
            if delta.is_identity() { return; }
            view.borrow_mut()''', 1),
 ("flow-plugins-filter", "P13", EV, '''        self.plugins.iter().for_each(|plugin| {
            ed.increment_revs_in_flight();''', '''        let author = author;
        self.plugins.iter().for_each(|plugin| {
            if author == plugin.name.as_str() { return; }
            ed.increment_revs_in_flight();''', 1),
 ("flow-reload", "P13", EV, '''        self.with_editor(|ed, _, _, _| ed.reload(text));
        self.after_edit("core");''', '''        self.with_editor(|ed, _, _, _| ed.reload(text));
''', 1),
 ("flow-replay-view", "P13", EV, '''                    self.update_views(&editor, &delta, &last_text, drift);
                });''', '''                    if !delta.is_identity() { self.update_views(&editor, &delta, &last_text, drift); }
                });''', 1),
 ("flow-pending-cleared", "P13", EV, '''    pub(crate) fn _finish_delayed_render(&mut self) {
        self.render();
''', '''    pub(crate) fn _finish_delayed_render(&mut self) {
        if self.plugins.is_empty() { self.render(); }
''', 1),
 ("flow-neutral-loop", "P13,P06", EV, '''        let iter_views = iter::once(&self.view).chain(self.siblings.iter());
        iter_views.for_each(|view| {
            view.borrow_mut().after_edit(
                ed.get_buffer(),
                last_text,
                delta,
                self.client,
                &mut width_cache,
                drift,
            )
        });''', '''        let text = ed.get_buffer();
        for view in iter::once(&self.view).chain(self.siblings.iter()) {
            let mut view = view.borrow_mut();
            view.after_edit(text, last_text, delta, self.client, &mut width_cache, drift);
        }''', 0),
 ("flow-neutral-split", "P13", EV, '''        let mut width_cache = self.width_cache.borrow_mut();
        let iter_views = iter::once(&self.view).chain(self.siblings.iter());
        iter_views.for_each(|view| {
            view.borrow_mut().after_edit(
                ed.get_buffer(),
                last_text,
                delta,
                self.client,
                &mut width_cache,
                drift,
            )
        });''', '''        let mut width_cache = self.width_cache.borrow_mut();
        let width_cache: &mut WidthCache = &mut width_cache;
        self.view.borrow_mut().after_edit(ed.get_buffer(), last_text, delta, self.client, width_cache, drift);
        for sibling in &self.siblings {
            sibling.borrow_mut().after_edit(ed.get_buffer(), last_text, delta, self.client, width_cache, drift);
        }''', 0),
 ("flow-neutral-iflet", "P13", EV, '''        let edit_info = self.editor.borrow_mut().commit_delta();
        let (delta, last_text, drift) = match edit_info {
            Some(edit_info) => edit_info,
            None => return,
        };

        self.update_views(&self.editor.borrow(), &delta, &last_text, drift);
        self.update_plugins(&mut self.editor.borrow_mut(), delta, author);
''', '''        let committed = self.editor.borrow_mut().commit_delta();
        if committed.is_none() { return; }
        let (change, before, drift) = committed.unwrap();
        {
            let ed = self.editor.borrow();
            self.update_views(&ed, &change, &before, drift);
        }
        let mut ed = self.editor.borrow_mut();
        self.update_plugins(&mut ed, change, author);
        drop(ed);
''', 0),
 ("flow-neutral-commit", "P13", ED, '''        if self.engine.get_head_rev_id() == self.last_rev_id {
            return None;
        }

        let last_token = self.last_rev_id.token();
''', '''        let head_rev = self.engine.get_head_rev_id();
        if head_rev != self.last_rev_id {
        } else { return None; }

        let previous = self.last_rev_id;
        let last_token = previous.token();
''', 0),
 ("flow-neutral-refresh", "P13", ED, '''        self.engine.edit_rev(priority, undo_group, head_rev_id.token(), delta);
        self.text = self.engine.get_head().clone();
''', '''        self.engine.edit_rev(priority, undo_group, head_rev_id.token(), delta);
        self.refresh();
    }

    fn refresh(&mut self) {
        let head = self.engine.get_head();
        self.text.clone_from(head);
''', 0),
 ("flow-neutral-render", "P13", EV, '''        let needed = !self.view.borrow().has_pending_render();
        if needed {
            self.render()
        }
''', '''        if self.view.borrow().has_pending_render() {
            return;
        }
        self.render();
''', 0),
]
M += [
 ("flow-none-small", "P13", EV, "if approx_size > MAX_SIZE_LIMIT { None }", "if approx_size < MAX_SIZE_LIMIT { None }", 1),
 ("flow-none-undo", "P13", EV, "if approx_size > MAX_SIZE_LIMIT { None }", "if approx_size > MAX_SIZE_LIMIT || ed.is_pristine() { None }", 1),
 ("flow-neutral-then", "P13", EV, "let delta = if approx_size > MAX_SIZE_LIMIT { None } else { Some(delta) };", "let delta = (approx_size <= MAX_SIZE_LIMIT).then(move || delta);", 0),
 ("flow-neutral-then2", "P13", EV, "let delta = if approx_size > MAX_SIZE_LIMIT { None } else { Some(delta) };", "let delta = (approx_size <= MAX_SIZE_LIMIT).then_some(delta);", 0),
 ("flow-neutral-filter", "P13", EV, "let delta = if approx_size > MAX_SIZE_LIMIT { None } else { Some(delta) };", "let delta = Some(delta).filter(|_| approx_size <= MAX_SIZE_LIMIT);", 0),
]
FI = "core-lib/src/file.rs"
M += [
 ("save-inplace", "P08", FI, "    let mut f = File::create(tmp_path)?;", "    let mut f = if text.len() < 4096 { File::create(path)? } else { File::create(tmp_path)? };", 1),
 ("save-swp", "P08", FI, '''    let tmp_extension = path.extension().map_or_else(
        || OsString::from("swp"),
        |ext| {
            let mut ext = ext.to_os_string();
            ext.push(".swp");
            ext
        },
    );
''', '''    let tmp_extension = OsString::from("swp");
''', 1),
 ("save-chunk-write", "P08", FI, "        f.write_all(chunk.as_bytes())?;", "        f.write(chunk.as_bytes())?;", 1),
 ("save-ignore-err", "P08", FI, "        f.write_all(chunk.as_bytes())?;", "        if let Err(e) = f.write_all(chunk.as_bytes()) { if e.kind() != io::ErrorKind::StorageFull { return Err(e); } }", 1),
 ("save-buffered", "P08", FI, "    let mut f = File::create(tmp_path)?;", "    let mut f = io::BufWriter::new(File::create(tmp_path)?);", 1),
 ("save-nobom-empty", "P08", FI, "CharacterEncoding::Utf8WithBom => f.write_all(UTF8_BOM.as_bytes())?,", "CharacterEncoding::Utf8WithBom => if text.len() > 0 { f.write_all(UTF8_BOM.as_bytes())? },", 1),
 ("save-copy", "P08", FI, "    fs::rename(tmp_path, path)?;", "    if fs::rename(tmp_path, path).is_err() { fs::copy(tmp_path, path)?; }", 1),
 ("save-conflict", "P08", FI, "        } else if self.file_info[&id].has_changed {", "        } else if self.file_info[&id].has_changed && path.exists() {", 1),
 ("save-rename-err", "P08", FI, "    fs::rename(tmp_path, path)?;", "    let _ = fs::rename(tmp_path, path);", 1),
 ("save-part", "P08", FI, "text.iter_chunks(..text.len())", "text.iter_chunks(..text.len().min(1 << 30))", 1),
 ("save-neutral-buf", "P08", FI, [("    let mut f = File::create(tmp_path)?;", "    let mut f = io::BufWriter::new(File::create(tmp_path)?);"), ("    fs::rename(tmp_path, path)?;", "    f.flush()?;\n    fs::rename(tmp_path, path)?;")], "", 0),
 ("save-neutral-try", "P08", FI, '''    for chunk in text.iter_chunks(..text.len()) {
        f.write_all(chunk.as_bytes())?;
    }
''', '''    text.iter_chunks(..).try_for_each(|chunk| f.write_all(chunk.as_bytes()))?;
''', 0),
 ("save-neutral-helper", "P08", FI, [('''    let tmp_extension = path.extension().map_or_else(
        || OsString::from("swp"),
        |ext| {
            let mut ext = ext.to_os_string();
            ext.push(".swp");
            ext
        },
    );
    let tmp_path = &path.with_extension(tmp_extension);
''', '''    let tmp_path = &swap_path(path);
'''), ('''#[allow(unused)]
fn try_save(''', '''fn swap_path(path: &Path) -> PathBuf {
    let ext = match path.extension() {
        Some(ext) => {
            let mut ext = ext.to_os_string();
            ext.push(".swp");
            ext
        }
        None => OsString::from("swp"),
    };
    path.with_extension(ext)
}

#[allow(unused)]
fn try_save(''')], "", 0),
 ("save-neutral-bom", "P08", FI, '''    match encoding {
        CharacterEncoding::Utf8WithBom => f.write_all(UTF8_BOM.as_bytes())?,
        CharacterEncoding::Utf8 => (),
    }
''', '''    if let CharacterEncoding::Utf8WithBom = encoding {
        let bom = UTF8_BOM.as_bytes();
        f.write_all(bom)?;
    }
''', 0),
 ("save-neutral-order", "P08,P09", FI, '''        let prev_path = self.file_info[&id].path.clone();
        if prev_path != path {''', '''        let info = &self.file_info[&id];
        let (prev_path, changed) = (info.path.clone(), info.has_changed);
        if prev_path == path && changed {
            return Err(FileError::HasChanged(path.to_owned()));
        }
        if prev_path != path {''', 0),
]
M += [
 ("prist-early", "P09", TABS_, '''        if let Err(e) = self.file_manager.save(path, &fin_text, buffer_id) {''', '''        self.make_context(view_id).unwrap().after_save(path);
        if let Err(e) = self.file_manager.save(path, &fin_text, buffer_id) {''', 1),
 ("prist-silent", "P09", TABS_, "            self.peer.alert(error_message);\n            return;\n        }\n\n        let changes", "            if buffer_id.0 > 0 { self.peer.alert(error_message); }\n            return;\n        }\n\n        let changes", 1),
 ("prist-no-mark", "P09", EV, "        self.editor.borrow_mut().set_pristine();\n", "        if !self.plugins.is_empty() { self.editor.borrow_mut().set_pristine(); }\n", 1),
 ("prist-no-show", "P09", EV, '''        self.with_view(|view, text| view.set_dirty(text));
        self.render()
    }

    /// Returns `true` if this was''', '''        self.render_if_needed()
    }

    /// Returns `true` if this was''', 1),
 ("prist-reload-dirty", "P09", TABS_, "if has_changes && is_pristine {", "if has_changes || is_pristine {", 1),
 ("prist-reload-dirty2", "P09", TABS_, "if has_changes && is_pristine {", "let _ = is_pristine; if has_changes {", 1),
 ("prist-forget", "P09", FI, '''            if mod_t != info.mod_time {
                info.has_changed = true
            }''', '''            info.has_changed = mod_t != info.mod_time;''', 1),
 ("prist-lastrev", "P09", ED, "self.engine.is_equivalent_revision(self.pristine_rev_id, self.engine.get_head_rev_id())", "self.engine.is_equivalent_revision(self.last_rev_id, self.engine.get_head_rev_id())", 1),
 ("prist-mark-old", "P09", ED, "        self.pristine_rev_id = self.engine.get_head_rev_id();", "        self.pristine_rev_id = self.last_rev_id;", 1),
 ("prist-load-nomark", "P09", ED, "        self.add_delta(delta);\n        self.set_pristine();", "        let same = delta.is_identity();\n        self.add_delta(delta);\n        if !same { self.set_pristine(); }", 1),
 ("prist-undo-mark", "P09", ED, "            self.this_edit_type = EditType::Undo;\n", "            self.this_edit_type = EditType::Undo;\n            if self.cur_undo == 1 { self.set_pristine(); }\n", 1),
 ("prist-neutral-match", "P09,P08", TABS_, '''        if let Err(e) = self.file_manager.save(path, &fin_text, buffer_id) {
            let error_message = e.to_string();
            error!("File error: {:?}", error_message);
            self.peer.alert(error_message);
            return;
        }
''', '''        let saved = self.file_manager.save(path, &fin_text, buffer_id);
        match saved {
            Ok(()) => {}
            Err(e) => {
                self.report_save_error(&e.to_string());
                return;
            }
        }
''', 0),
 ("prist-neutral-nest", "P09", TABS_, "        if has_changes && is_pristine {\n            if let Ok(text)", "        if !is_pristine { return; }\n        if has_changes {\n            if let Ok(text)", 0),
 ("prist-neutral-check", "P09", FI, '''        if let Some(info) = self.file_info.get_mut(&id) {
            let mod_t = get_mod_time(path);
            if mod_t != info.mod_time {
                info.has_changed = true
            }
            return info.has_changed;
        }
        false''', '''        let mod_t = get_mod_time(path);
        match self.file_info.get_mut(&id) {
            None => false,
            Some(info) if info.mod_time == mod_t => info.has_changed,
            Some(info) => {
                info.has_changed = true;
                true
            }
        }''', 0),
]
M[-3] = (M[-3][0], M[-3][1], TABS_, [(M[-3][3], M[-3][4]), ("    fn do_close_view(&mut self", "    fn report_save_error(&self, message: &str) {\n        error!(\"File error: {:?}\", message);\n        self.peer.alert(message);\n    }\n\n    fn do_close_view(&mut self")], "", 0)
M += [
 ("load-lossy", "P08", FI, "        CharacterEncoding::Utf8 => Ok(Rope::from(\n            str::from_utf8(&bytes).map_err(|_e| FileError::UnknownEncoding(path.to_owned()))?,\n        )),",
  "        CharacterEncoding::Utf8 => Ok(Rope::from(String::from_utf8_lossy(&bytes))),", 1),
 ("load-err-empty", "P08", FI, "    f.read_to_end(&mut bytes).map_err(|e| FileError::Io(e, path.as_ref().to_owned()))?;", "    let _ = f.read_to_end(&mut bytes);", 1),
 ("load-open-empty", "P08", FI, "        let (rope, info) = try_load_file(path)?;\n", "        let (rope, info) = match try_load_file(path) { Ok(x) => x, Err(FileError::Io(ref e, _)) if e.kind() == io::ErrorKind::PermissionDenied => return Ok(Rope::from(\"\")), Err(e) => return Err(e) };\n", 1),
 ("load-take", "P08", FI, "    f.read_to_end(&mut bytes)", "    io::Read::by_ref(&mut f).take(1 << 31).read_to_end(&mut bytes)", 1),
 ("load-trim", "P08", FI, "            Ok(Rope::from(&s[UTF8_BOM.len()..]))", "            Ok(Rope::from(s.trim_start_matches(UTF8_BOM)))", 1),
 ("load-bomlen", "P08", FI, "            Ok(Rope::from(&s[UTF8_BOM.len()..]))", "            Ok(Rope::from(&s[..]))", 1),
 ("load-enc", "P08", FI, "    let info = FileInfo {\n        encoding,\n        mod_time", "    let info = FileInfo {\n        encoding: CharacterEncoding::Utf8,\n        mod_time", 1),
 ("load-neutral-strip", "P08", FI, "            Ok(Rope::from(&s[UTF8_BOM.len()..]))", "            let text = &s[UTF8_BOM.len()..];\n            let rope = Rope::from(text);\n            Ok(rope)", 0),
 ("load-neutral-fsread", "P08,P09,P10", FI, '''    let mut f =
        File::open(path.as_ref()).map_err(|e| FileError::Io(e, path.as_ref().to_owned()))?;
    let mut bytes = Vec::new();
    f.read_to_end(&mut bytes).map_err(|e| FileError::Io(e, path.as_ref().to_owned()))?;
''', '''    let bytes = fs::read(path.as_ref()).map_err(|e| FileError::Io(e, path.as_ref().to_owned()))?;
''', 0),
 ("load-neutral-decode", "P08", FI, '''        CharacterEncoding::Utf8 => Ok(Rope::from(
            str::from_utf8(&bytes).map_err(|_e| FileError::UnknownEncoding(path.to_owned()))?,
        )),''', '''        CharacterEncoding::Utf8 => match str::from_utf8(&bytes) {
            Ok(s) => Ok(s.into()),
            Err(_) => Err(FileError::UnknownEncoding(path.to_owned())),
        },''', 0),
 ("files-open-order", "P10", FI, "        let (rope, info) = try_load_file(path)?;\n\n        self.open_files.insert(path.to_owned(), id);", "        self.open_files.insert(path.to_owned(), id);\n        let (rope, info) = try_load_file(path)?;\n", 1),
 ("files-nowatch", "P10", FI, "        self.watcher.watch(path, false, OPEN_FILE_EVENT_TOKEN);\n        Ok(())", "        if self.open_files.len() > 1 { self.watcher.watch(path, false, OPEN_FILE_EVENT_TOKEN); }\n        Ok(())", 1),
 ("files-unwatch-new", "P10", FI, "            self.watcher.unwatch(&prev_path, OPEN_FILE_EVENT_TOKEN);", "            self.watcher.unwatch(path, OPEN_FILE_EVENT_TOKEN);", 1),
 ("files-time-before", "P10", FI, '''        try_save(path, text, encoding, self.get_info(id))
            .map_err(|e| FileError::Io(e, path.to_owned()))?;
        let info = FileInfo {
            encoding,
            path: path.to_owned(),
            mod_time: get_mod_time(path),''', '''        let before = get_mod_time(path);
        try_save(path, text, encoding, self.get_info(id))
            .map_err(|e| FileError::Io(e, path.to_owned()))?;
        let info = FileInfo {
            encoding,
            path: path.to_owned(),
            mod_time: before.or_else(|| get_mod_time(path)),''', 1),
 ("files-keep-info", "P10", FI, "        if let Some(info) = self.file_info.remove(&id) {", "        if let Some(info) = self.file_info.get(&id).map(|i| FileInfo { encoding: i.encoding, path: i.path.clone(), mod_time: i.mod_time, has_changed: i.has_changed, #[cfg(target_family = \"unix\")] permissions: i.permissions }) {", 1),
 ("files-no-time", "P10", FI, "            self.file_info.get_mut(&id).unwrap().mod_time = get_mod_time(path);", "            if !text.is_empty() { self.file_info.get_mut(&id).unwrap().mod_time = get_mod_time(path); }", 1),
 ("files-steal", "P10", FI, "        if self.open_files.get(path) == Some(&id) {\n            self.open_files.remove(path);\n        }", "        let _ = id; self.open_files.remove(path);", 1),
 ("files-keep-prev", "P10", FI, "            self.forget_path(&prev_path, id);", "            if prev_path.exists() { self.forget_path(&prev_path, id); }", 1),
 ("files-neutral-forget", "P10", FI, "        if self.open_files.get(path) == Some(&id) {\n            self.open_files.remove(path);\n        }", "        match self.open_files.get(path) {\n            Some(owner) if *owner == id => {\n                self.open_files.remove(path);\n            }\n            _ => {}\n        }", 0),
 ("files-neutral-open", "P08,P09,P10", FI, '''        self.open_files.insert(path.to_owned(), id);
        if self.file_info.insert(id, info).is_none() {
            #[cfg(feature = "notify")]
            self.watcher.watch(path, false, OPEN_FILE_EVENT_TOKEN);
        }
        Ok(rope)''', '''        let previous = self.file_info.insert(id, info);
        #[cfg(feature = "notify")]
        {
            if let None = previous {
                self.watcher.watch(path, false, OPEN_FILE_EVENT_TOKEN);
            }
        }
        self.open_files.insert(path.to_path_buf(), id);
        Ok(rope)''', 0),
 ("files-neutral-close", "P10", FI, '''        if let Some(info) = self.file_info.remove(&id) {
            self.forget_path(&info.path, id);
            #[cfg(feature = "notify")]
            self.watcher.unwatch(&info.path, OPEN_FILE_EVENT_TOKEN);
        }''', '''        let info = match self.file_info.remove(&id) {
            Some(info) => info,
            None => return,
        };
        #[cfg(feature = "notify")]
        self.watcher.unwatch(&info.path, OPEN_FILE_EVENT_TOKEN);
        self.forget_path(&info.path, id);''', 0),
 ("files-neutral-existing", "P08,P09,P10", FI, "            self.file_info.get_mut(&id).unwrap().mod_time = get_mod_time(path);", "            let saved_at = get_mod_time(path);\n            if let Some(info) = self.file_info.get_mut(&id) {\n                info.mod_time = saved_at;\n            }", 0),
]
RP = "core-lib/src/rpc.rs"
LAY = "core-lib/src/layers.rs"
CL = "core-lib/src/client.rs"
LW = "core-lib/src/linewrap.rs"
VW = "core-lib/src/view.rs"
ST = "core-lib/src/styles.rs"
M += [
 ("peer-trace", "P07", TABS_, '''                Ok(json) => match chrome_trace_dump::decode(json) {
                    Ok(mut trace) => all_traces.append(&mut trace),
                    Err(e) => error!("trace decoding error {:?}", e),
                },''', '''                Ok(json) => {
                    let mut trace = chrome_trace_dump::decode(json).unwrap();
                    all_traces.append(&mut trace);
                }''', 1),
 ("peer-frontend-trace", "P07", TABS_, "        if let Ok(mut traces) = chrome_trace_dump::decode(frontend_samples) {\n            all_traces.append(&mut traces);\n        }", "        all_traces.append(&mut chrome_trace_dump::decode(frontend_samples).expect(\"frontend samples\"));", 1),
 ("peer-finalize", "P07", TABS_, '''            if let Some(mut edit_ctx) = self.make_context(*id) {
                edit_ctx.finish_init(&config);
            }''', '''            let mut edit_ctx = self.make_context(*id).unwrap();
            edit_ctx.finish_init(&config);''', 0),
 ("peer-status", "P07", EV, '''                match self.plugins.iter().find(|p| p.id == plugin) {
                    Some(p) => {
                        self.client.add_status_item(self.view_id, &p.name, &key, &value, &alignment)
                    }
                    None => error!("status item from unknown plugin {}", plugin),
                }''', '''                let plugin_name = &self.plugins.iter().find(|p| p.id == plugin).unwrap().name;
                self.client.add_status_item(self.view_id, plugin_name, &key, &value, &alignment);''', 1),
 ("peer-width", "P07", CL, "serde_json::from_value(resp).map_err(|_| xi_rpc::Error::InvalidResponse)", "Ok(serde_json::from_value(resp).expect(\"width\"))", 1),
 ("peer-width2", "P07", LW, '''        if let Err(e) = req.resolve_pending(self.client) {
            error!("error measuring widths: {:?}", e);
        }''', "        req.resolve_pending(self.client).unwrap();", 1),
 ("peer-mouse", "P07", RP, "            _ => Err(de::Error::invalid_length(v.len(), &\"at least three numbers\")),", "            _ => Ok(MouseAction { line: v[0], column: v[1], flags: 0, click_count: None }),", 1),
 ("peer-style", "P07", LAY, "self.style_lookup.get(*i1 as usize) == self.style_lookup.get(*i2 as usize)", "self.style_lookup[*i1 as usize] == self.style_lookup[*i2 as usize]", 1),
 ("peer-edit", "P07", TABS_, '''        if let Some(mut edit_ctx) = self.make_context(view_id) {
            edit_ctx.do_edit(cmd);
        }''', "        self.make_context(view_id).unwrap().do_edit(cmd);", 1),
 ("peer-editsync", "P07", TABS_, '''            // TODO: some custom error tpye that can Into<RemoteError>
            Err(RemoteError::custom(404, format!("missing view {:?}", view_id), None))''', '''            panic!("missing view {:?}", view_id)''', 1),
 ("peer-lang", "P07", TABS_, '''        if let Some(view) = self.views.get(&view_id) {
            let buffer_id = view.borrow().get_buffer_id();
            let changes = self.config_manager.override_language''', '''        {
            let buffer_id = self.views[&view_id].borrow().get_buffer_id();
            let changes = self.config_manager.override_language''', 1),
 ("peer-stop", "P07", TABS_, '''        if let Some(p) = self
            .running_plugins
            .iter()
            .position(|p| p.name == plugin)
            .map(|ix| self.running_plugins.remove(ix))
        {''', '''        {
            let ix = self.running_plugins.iter().position(|p| p.name == plugin).unwrap();
            let p = self.running_plugins.remove(ix);''', 1),
 ("peer-stop-neutral", "P07", TABS_, '''        if let Some(p) = self
            .running_plugins
            .iter()
            .position(|p| p.name == plugin)
            .map(|ix| self.running_plugins.remove(ix))
        {''', '''        let found = self.running_plugins.iter().position(|p| p.name == plugin);
        if found.is_some() {
            let p = self.running_plugins.remove(found.unwrap());''', 0),
 ("peer-theme", "P07", TABS_, '''            if let Err(e) = self.style_map.borrow_mut().set_theme(&theme_name) {
                error!("error setting theme: {:?}, {:?}", theme_name, e);
                return;
            }''', '''            self.style_map.borrow_mut().set_theme(&theme_name).expect("theme");''', 1),
 ("peer-rev", "P07", ED, """            Err(e) => error!("Error applying plugin edit: {}", e),
            Ok(_) => self.text = self.engine.get_head().clone(),
        };""", """            Err(e) => panic!("Error applying plugin edit: {}", e),
            Ok(_) => self.text = self.engine.get_head().clone(),
        };""", 1),
 ("peer-rev2", "P07", ED, """                error!("Revision {} not found", rev);
                return;
            }
        }
        let iv = Interval::new(start, end_offset);
        self.layers.update_layer""", """                panic!("Revision {} not found", rev);
            }
        }
        let iv = Interval::new(start, end_offset);
        self.layers.update_layer""", 1),
 ("peer-rev3", "P07", ED, "let text_cow = self.get_rev(rev)?;", "let text_cow = self.get_rev(rev).unwrap();", 1),
 ("peer-render", "P07", TABS_, '''        if let Some(mut ctx) = self.make_context(id) {
            ctx._finish_delayed_render();
        }''', '''        self.make_context(id).unwrap()._finish_delayed_render();''', 1),
 ("peer-find", "P07", TABS_, '''        if let Some(mut ctx) = self.make_context(id) {
            ctx.do_incremental_find();
        }''', '''        match self.make_context(id) { Some(mut ctx) => ctx.do_incremental_find(), None => unreachable!() }''', 1),
 ("peer-plugupd", "P07", EV, """            Ok(Ok(_)) => (),
            Ok(Err(err)) => error!("plugin response json err: {:?}", err),
            Err(err) =>""", """            Ok(r) => { r.unwrap(); }
            Err(err) =>""", 1),
 ("peer-getconfig", "P07", TABS_, '''        self.views
            .get(&view_id)
            .map(|v| v.borrow().get_buffer_id())
            .map(|id| self.config_manager.get_buffer_config(id).to_table())
            .ok_or(RemoteError::custom(404, format!("missing {}", view_id), None))''', '''        let id = self.views[&view_id].borrow().get_buffer_id();
        Ok(self.config_manager.get_buffer_config(id).to_table())''', 1),
 ("peer-getconfig-neutral", "P07", TABS_, '''        self.views
            .get(&view_id)
            .map(|v| v.borrow().get_buffer_id())
            .map(|id| self.config_manager.get_buffer_config(id).to_table())
            .ok_or(RemoteError::custom(404, format!("missing {}", view_id), None))''', '''        if !self.views.contains_key(&view_id) {
            return Err(RemoteError::custom(404, format!("missing {}", view_id), None));
        }
        let id = self.views[&view_id].borrow().get_buffer_id();
        Ok(self.config_manager.get_buffer_config(id).to_table())''', 0),
 ("peer-contents-neutral", "P07", TABS_, '''        self.make_context(view_id)
            .map(|ctx| ctx.editor.borrow().get_buffer().to_owned())
            .ok_or_else(|| RemoteError::custom(404, format!("No view for id {}", view_id), None))''', '''        let ctx = self.make_context(view_id);
        if ctx.is_none() {
            return Err(RemoteError::custom(404, format!("No view for id {}", view_id), None));
        }
        let ctx = ctx.unwrap();
        let text = ctx.editor.borrow().get_buffer().to_owned();
        Ok(text)''', 0),
 ("peer-close", "P07", TABS_, "self.make_context(view_id).map(|ctx| ctx.close_view()).unwrap_or(true)", "self.make_context(view_id).map(|ctx| ctx.close_view()).unwrap()", 1),
 ("peer-userover", "P07", TABS_, '''match self.views.get(&view_id) {
                Some(v) => ConfigDomain::UserOverride(v.borrow().get_buffer_id()),
                None => return,
            },''', '''{
                ConfigDomain::UserOverride(self.views.get(&view_id).expect("view").borrow().get_buffer_id())
            },''', 1),
]
M += [
 ("views-order", "P11", TABS_, "        self.editors.insert(buffer_id, editor);\n        self.views.insert(view_id, view);", "        self.views.insert(view_id, view);\n        self.editors.insert(buffer_id, editor);", 0),
 ("views-early", "P11", TABS_, '''        let rope = match path.as_ref() {
            Some(p) => self.file_manager.open(p, buffer_id)?,
            None => Rope::from(""),
        };

        let editor = RefCell::new(Editor::with_text(rope));
        let view = RefCell::new(View::new(view_id, buffer_id));
''', '''        let view = RefCell::new(View::new(view_id, buffer_id));
        let config = self.config_manager.add_buffer(buffer_id, path.as_deref());
        let rope = match path.as_ref() {
            Some(p) => self.file_manager.open(p, buffer_id)?,
            None => Rope::from(""),
        };
        let editor = RefCell::new(Editor::with_text(rope));
''', 1),
 ("views-nopending", "P11", TABS_, "        self.pending_views.push((view_id, config));\n        self.peer.schedule_idle(NEW_VIEW_IDLE_TOKEN);", "        self.pending_views.push((view_id, config));\n        if self.pending_views.len() > 1 { self.peer.schedule_idle(NEW_VIEW_IDLE_TOKEN); }", 1),
 ("views-finishfirst", "P11", TABS_, "        to_start.iter().for_each(|(id, config)| {", "        to_start.iter().take(8).for_each(|(id, config)| {", 1),
 ("views-finishloop", "P11", TABS_, '''        to_start.iter().for_each(|(id, config)| {
            let modified = self.detect_whitespace(*id, config);
            let config = modified.as_ref().unwrap_or(config);
            // the view may have been closed in the meantime
            if let Some(mut edit_ctx) = self.make_context(*id) {
                edit_ctx.finish_init(&config);
            }
        });''', '''        for (id, config) in to_start {
            let modified = self.detect_whitespace(id, &config);
            let config = modified.unwrap_or(config);
            let ctx = self.make_context(id);
            if ctx.is_none() { continue; }
            ctx.unwrap().finish_init(&config);
        }''', 0),
 ("views-finishbreak", "P11", TABS_, '''        to_start.iter().for_each(|(id, config)| {
            let modified = self.detect_whitespace(*id, config);
            let config = modified.as_ref().unwrap_or(config);
            // the view may have been closed in the meantime
            if let Some(mut edit_ctx) = self.make_context(*id) {
                edit_ctx.finish_init(&config);
            }
        });''', '''        for (id, config) in to_start {
            let modified = self.detect_whitespace(id, &config);
            let config = modified.unwrap_or(config);
            let ctx = self.make_context(id);
            if ctx.is_none() { break; }
            ctx.unwrap().finish_init(&config);
        }''', 1),
 ("views-noplugins", "P11", EV, "                plugin.new_buffer(&info);\n                self.plugin_started(plugin);", "                self.plugin_started(plugin);", 1),
 ("views-twoloops", "P11", EV, '''            self.plugins.iter().for_each(|plugin| {
                plugin.new_buffer(&info);
                self.plugin_started(plugin);
            });''', '''            for plugin in self.plugins.iter() { plugin.new_buffer(&info); }
            for plugin in &self.plugins { self.plugin_started(plugin); }''', 0),
 ("views-nolang", "P11", EV, "        self.client.config_changed(self.view_id, config);\n        self.client.language_changed(self.view_id, &self.language);\n", "        self.client.config_changed(self.view_id, config);\n        if !self.plugins.is_empty() { self.client.language_changed(self.view_id, &self.language); }\n", 1),
 ("views-closeconf", "P11", TABS_, "                self.config_manager.remove_buffer(buffer_id);\n", "", 1),
 ("views-closefile", "P11", TABS_, "                self.editors.remove(&buffer_id);\n                self.file_manager.close(buffer_id);", "                if self.editors.remove(&buffer_id).map(|e| e.borrow().is_pristine()).unwrap_or(true) { self.file_manager.close(buffer_id); }", 1),
 ("views-closeneutral", "P11", TABS_, '''        let buffer_id = self.views.remove(&view_id).map(|v| v.borrow().get_buffer_id());

        if let Some(buffer_id) = buffer_id {
            if close_buffer {
                self.editors.remove(&buffer_id);
                self.file_manager.close(buffer_id);
                self.config_manager.remove_buffer(buffer_id);
            }
        }''', '''        let view = match self.views.remove(&view_id) { Some(v) => v, None => return };
        let buffer_id = view.borrow().get_buffer_id();
        if !close_buffer { return; }
        self.config_manager.remove_buffer(buffer_id);
        self.file_manager.close(buffer_id);
        self.editors.remove(&buffer_id);''', 0),
 ("views-closeplug", "P11", TABS_, "self.make_context(view_id).map(|ctx| ctx.close_view()).unwrap_or(true)", "self.make_context(view_id).map(|ctx| ctx.siblings.is_empty()).unwrap_or(true)", 1),
 ("views-mask", "P11", TABS_, "self.handle_find_callback(other ^ FIND_VIEW_IDLE_MASK)", "self.handle_find_callback(other ^ REWRAP_VIEW_IDLE_MASK)", 1),
 ("views-swap", "P11", TABS_, "self.handle_find_callback(other ^ FIND_VIEW_IDLE_MASK)", "self.handle_rewrap_callback(other ^ FIND_VIEW_IDLE_MASK)", 1),
 ("views-maskneutral", "P11", TABS_, "self.handle_find_callback(other ^ FIND_VIEW_IDLE_MASK)", "self.handle_find_callback(other & !FIND_VIEW_IDLE_MASK)", 0),
 ("views-maskhelper", "P11", EV, [("        let token = FIND_VIEW_IDLE_MASK | view_id;\n        self.client.schedule_idle(token);\n    }", "        self.schedule(FIND_VIEW_IDLE_MASK);\n        let _ = view_id;\n    }\n\n    fn schedule(&self, mask: usize) {\n        let id: usize = self.view_id.into();\n        self.client.schedule_idle(mask | id);\n    }"), ("        let token = REWRAP_VIEW_IDLE_MASK | view_id;\n        self.client.schedule_idle(token);", "        let _ = view_id;\n        self.schedule(REWRAP_VIEW_IDLE_MASK);")], None, 0),
 ("views-maskoverlap", "P11", TABS_, "FIND_VIEW_IDLE_MASK: usize = 1 << 27", "FIND_VIEW_IDLE_MASK: usize = 3 << 26", 1),
 ("views-answer", "P11", TABS_, "        Ok(json!(view_id))\n    }\n\n    fn do_save", "        Ok(json!(self.next_view_id()))\n    }\n\n    fn do_save", 1),

 ("plug-noremove", "P12", TABS_, "            let plugin = self.running_plugins.remove(idx);\n            self.after_stop_plugin(&plugin);", "            let plugin = self.running_plugins.remove(idx);\n            if error.is_err() { self.after_stop_plugin(&plugin); }", 1),
 ("plug-swap", "P12", TABS_, "            let plugin = self.running_plugins.remove(idx);", "            let plugin = self.running_plugins.swap_remove(idx);", 0),
 ("plug-exitname", "P12", TABS_, "position(|p| p.id == id)", "position(|p| p.id >= id)", 1),
 ("plug-retain", "P12", TABS_, "            let plugin = self.running_plugins.remove(idx);", "            let plugin = self.running_plugins.remove(idx);\n            self.running_plugins.retain(|p| p.name != plugin.name);", 1),
 ("plug-noshut", "P12", TABS_, "            p.shutdown();\n", "            if self.running_plugins.is_empty() { p.shutdown(); }\n", 1),
 ("plug-stopmatch", "P12", TABS_, """        if let Some(p) = self
            .running_plugins
            .iter()
            .position(|p| p.name == plugin)
            .map(|ix| self.running_plugins.remove(ix))
        {""", """        let mut ix = None;
        for (i, p) in self.running_plugins.iter().enumerate() { if p.name == plugin { ix = Some(i); break; } }
        if let Some(ix) = ix {
            let p = self.running_plugins.remove(ix);""", 0),
 ("plug-rpcloop", "P12", TABS_, """        self.running_plugins
            .iter()
            .filter(|p| p.name == receiver)
            .for_each(|p| p.dispatch_command(view_id, method, params))""", """        for p in self.running_plugins.iter() {
            if p.name == receiver { p.dispatch_command(view_id, method, params); }
        }""", 0),
 ("plug-rpcfilterloop", "P12", TABS_, """        self.running_plugins
            .iter()
            .filter(|p| p.name == receiver)
            .for_each(|p| p.dispatch_command(view_id, method, params))""", """        for p in self.running_plugins.iter().filter(|p| p.name == receiver) {
            p.dispatch_command(view_id, method, params);
        }""", 0),
 ("plug-rpcfind", "P12", TABS_, """        self.running_plugins
            .iter()
            .filter(|p| p.name == receiver)
            .for_each(|p| p.dispatch_command(view_id, method, params))""", """        if let Some(p) = self.running_plugins.iter().find(|p| p.name == receiver) {
            p.dispatch_command(view_id, method, params);
        }""", 0),
 ("plug-rpcall", "P12", TABS_, ".filter(|p| p.name == receiver)", ".filter(|p| p.name.starts_with(receiver))", 1),
 ("plug-rpccont", "P12", TABS_, """        self.running_plugins
            .iter()
            .filter(|p| p.name == receiver)
            .for_each(|p| p.dispatch_command(view_id, method, params))""", """        for p in self.running_plugins.iter() {
            if p.name != receiver { continue; }
            if params.is_null() { return; }
            p.dispatch_command(view_id, method, params);
        }""", 1),
 ("plug-startagain", "P12", TABS_, """            info!("plugin {} already running", plugin);
            return;
""", """            info!("plugin {} already running", plugin);
            if !self.views.is_empty() { return; }
""", 1),
 ("plug-sameid", "P12", TABS_, "                manifest,\n                self.next_plugin_id(),", "                manifest,\n                self.running_plugins.last().map(|p| p.id).unwrap_or_else(|| self.next_plugin_id()),", 1),
 ("plug-startlet", "P12", TABS_, """            start_plugin_process(
                manifest,
                self.next_plugin_id(),
                self.self_ref.as_ref().unwrap().clone(),
            );""", """            let id = self.next_plugin_id();
            let core = self.self_ref.as_ref().unwrap();
            start_plugin_process(manifest, id, core.clone());""", 0),
 ("plug-initempty", "P12", TABS_, "self.iter_groups().map(|mut ctx| ctx.plugin_info()).collect::<Vec<_>>();\n                plugin.initialize", "self.iter_groups().take(1).map(|mut ctx| ctx.plugin_info()).collect::<Vec<_>>();\n                plugin.initialize", 1),
 ("plug-initloop", "P12", TABS_, """                let init_info =
                    self.iter_groups().map(|mut ctx| ctx.plugin_info()).collect::<Vec<_>>();
                plugin.initialize(init_info);
                self.iter_groups().for_each(|ctx| ctx.plugin_started(&plugin));
""", """                let mut init_info = Vec::new();
                for mut ctx in self.iter_groups() {
                    init_info.push(ctx.plugin_info());
                    ctx.plugin_started(&plugin);
                }
                plugin.initialize(init_info);
""", 0),
 ("plug-nostarted", "P12", TABS_, "                self.iter_groups().for_each(|ctx| ctx.plugin_started(&plugin));\n", "", 1),
 ("plug-nopush", "P12", TABS_, "                self.running_plugins.push(plugin);", "                if !self.running_plugins.iter().any(|p| p.name == plugin.name) { self.running_plugins.push(plugin); }", 1),
 ("plug-noexit", "P12", "core-lib/src/plugins/mod.rs", "                    core.plugin_exit(id, err);", "                    if err.is_err() { core.plugin_exit(id, err); }", 1),
 ("plug-exitfn", "P12", "core-lib/src/plugins/mod.rs", "                    let err = looper.mainloop(|| BufReader::new(child_stdout), &mut core);\n                    core.plugin_exit(id, err);", "                    let end = looper.mainloop(move || BufReader::new(child_stdout), &mut core);\n                    let me = id;\n                    core.plugin_exit(me, end);", 0),
 ("plug-stoptold", "P12", EV, "        self.client.plugin_stopped(self.view_id, &plugin.name, 0);\n", "        if !self.editor.borrow().get_layers().get_merged().is_empty() { self.client.plugin_stopped(self.view_id, &plugin.name, 0); }\n", 1),
 ("plug-stopnodraw", "P12", EV, "                view.set_dirty(ed.get_buffer());\n                true", "                view.set_dirty(ed.get_buffer());\n                ed.get_buffer().is_empty()", 1),
 ("plug-stopneutral", "P12", EV, """        let needs_render = self.with_editor(|ed, view, _, _| {
            if ed.get_layers_mut().remove_layer(plugin.id).is_some() {
                view.set_dirty(ed.get_buffer());
                true
            } else {
                false
            }
        });
        if needs_render {
            self.render();
        }""", """        let gone = self.editor.borrow_mut().get_layers_mut().remove_layer(plugin.id);
        if gone.is_none() { return; }
        self.with_view(|view, text| view.set_dirty(text));
        self.render();""", 0),
 ("plug-undelete", "P12", "core-lib/src/layers.rs", "        self.deleted.insert(layer);\n        let layer = self.layers.remove(&layer);", "        let layer_id = layer;\n        let layer = self.layers.remove(&layer);\n        if layer.is_some() { self.deleted.insert(layer_id); }", 1),
 ("plug-revive", "P12", "core-lib/src/layers.rs", "        if self.create_if_missing(layer).is_err() {\n            return;\n        }\n        self.layers.get_mut(&layer).unwrap().update_scopes", "        let len = self.merged.len();\n        self.layers.entry(layer).or_insert_with(|| ScopeLayer::new(len)).update_scopes", 1),
 ("plug-layerneutral", "P12", "core-lib/src/layers.rs", """        if self.deleted.contains(&layer_id) {
            return Err(());
        }
        if !self.layers.contains_key(&layer_id) {
            self.layers.insert(layer_id, ScopeLayer::new(self.merged.len()));
        }
        Ok(())""", """        let len = self.merged.len();
        let gone = self.deleted.contains(&layer_id);
        if !gone {
            self.layers.entry(layer_id).or_insert_with(|| ScopeLayer::new(len));
            return Ok(());
        }
        Err(())""", 0),

 ("rev-nomove", "P14", ED, "                end_offset = transformer.transform(end_offset, true);\n            } else {\n                error!(\"Revision {} not found\", rev);\n                return;\n            }\n        }\n        let iv = Interval::new(start, end_offset);\n        self.layers", "                end_offset = start + len;\n            } else {\n                error!(\"Revision {} not found\", rev);\n                return;\n            }\n        }\n        let iv = Interval::new(start, end_offset);\n        self.layers", 1),
 ("rev-unknown", "P14", ED, "                error!(\"Revision {} not found\", rev);\n                return;\n            }\n        }\n        let iv = Interval::new(start, end_offset);\n        self.layers", "                error!(\"Revision {} not found\", rev);\n                if self.revs_in_flight > 0 { return; }\n            }\n        }\n        let iv = Interval::new(start, end_offset);\n        self.layers", 1),
 ("rev-spans", "P14", ED, "                if !transformer.interval_untouched(Interval::new(start, end_offset)) {\n                    spans = spans.transform(start, end_offset, &mut transformer);\n                }\n                start = new_start;\n                end_offset = transformer.transform(end_offset, true);\n            } else {\n                error!(\"Revision {} not found\", rev);\n                return;\n            }\n        }\n        let iv = Interval::new(start, end_offset);\n        view.", "                if transformer.interval_untouched(Interval::new(start, end_offset)) {\n                    spans = spans.transform(start, end_offset, &mut transformer);\n                }\n                start = new_start;\n                end_offset = transformer.transform(end_offset, true);\n            } else {\n                error!(\"Revision {} not found\", rev);\n                return;\n            }\n        }\n        let iv = Interval::new(start, end_offset);\n        view.", 1),
 ("rev-order", "P14", ED, "                let new_start = transformer.transform(start, false);\n                if !transformer.interval_untouched(Interval::new(start, end_offset)) {\n                    spans = spans.transform(start, end_offset, &mut transformer);\n                }\n                start = new_start;", "                start = transformer.transform(start, false);\n                if !transformer.interval_untouched(Interval::new(start, end_offset)) {\n                    spans = spans.transform(start, end_offset, &mut transformer);\n                }", 1),
 ("rev-bias", "P14", ED, "                let new_start = transformer.transform(start, false);", "                let new_start = transformer.transform(start, true);", 1),
 ("rev-helper", "P14", ED, [("""        if rev != self.engine.get_head_rev_id().token() {
            if let Ok(delta) = self.engine.try_delta_rev_head(rev) {
                let mut transformer = Transformer::new(&delta);
                let new_start = transformer.transform(start, false);
                if !transformer.interval_untouched(Interval::new(start, end_offset)) {
                    spans = spans.transform(start, end_offset, &mut transformer);
                }
                start = new_start;
                end_offset = transformer.transform(end_offset, true);
            } else {
                error!("Revision {} not found", rev);
                return;
            }
        }
        let iv = Interval::new(start, end_offset);
        self.layers.update_layer(plugin, iv, spans);
        view.invalidate_styles(&self.text, start, end_offset);""", """        if rev != self.get_head_rev_token() {
            let delta = match self.delta_rev_head(rev) {
                Some(delta) => delta,
                None => {
                    error!("Revision {} not found", rev);
                    return;
                }
            };
            let mut transformer = Transformer::new(&delta);
            spans = spans.transform(start, end_offset, &mut transformer);
            let (s, e) = Self::moved(&mut transformer, start, end_offset);
            start = s;
            end_offset = e;
        }
        self.layers.update_layer(plugin, Interval::new(start, end_offset), spans);
        view.invalidate_styles(&self.text, start, end_offset);"""), ("    pub fn update_spans(", """    fn moved(transformer: &mut Transformer<RopeInfo>, a: usize, b: usize) -> (usize, usize) {
        let a = transformer.transform(a, false);
        (a, transformer.transform(b, true))
    }

    pub fn update_spans("""), ("use xi_rope::", "use xi_rope::rope::RopeInfo;\nuse xi_rope::")], None, 0),
 ("rev-invalid", "P14", ED, "        view.invalidate_styles(&self.text, start, end_offset);", "        view.invalidate_styles(&self.text, start, start + len);", 1),
 ("rev-plugin", "P14", EV, "ed.update_annotations(view, plugin, start, len, spans, annotation_type, rev)", "ed.update_annotations(view, crate::plugins::PluginPid(plugin.0 / 2), start, len, spans, annotation_type, rev)", 1),
 ("rev-edithead", "P14", ED, "match self.engine.try_edit_rev(priority, undo_group, rev, delta) {", "let rev = if self.engine.get_rev(rev).is_some() { rev } else { self.engine.get_head_rev_id().token() };\n        match self.engine.try_edit_rev(priority, undo_group, rev, delta) {", 1),
 ("rev-datahead", "P14", ED, "                None => return None,\n                Some(text) => Cow::Owned(text),", "                None => Cow::Borrowed(&self.text),\n                Some(text) => Cow::Owned(text),", 1),
 ("rev-dataneutral", "P14", ED, """        let text_cow = if rev == self.engine.get_head_rev_id().token() {
            Cow::Borrowed(&self.text)
        } else {
            match self.engine.get_rev(rev) {
                None => return None,
                Some(text) => Cow::Owned(text),
            }
        };

        Some(text_cow)""", """        if rev == self.engine.get_head_rev_id().token() {
            return Some(Cow::Borrowed(&self.text));
        }
        self.engine.get_rev(rev).map(Cow::Owned)""", 0),
 ("rev-datalen", "P14", ED, "        if end_off >= text.len() {\n            end_off = text.len();", "        if end_off >= self.text.len() {\n            end_off = text.len();", 1),
 ("fly-noinc", "P30", EV, "            ed.increment_revs_in_flight();\n            let weak_core", "            let weak_core", 1),
 ("fly-nodec", "P30", EV, "        ed.dec_revs_in_flight();\n        ed.update_edit_type();", "        if self.plugins.is_empty() { ed.dec_revs_in_flight(); }\n        ed.update_edit_type();", 1),
 ("fly-ok", "P30", EV, "            Err(err) => error!(\"plugin shutdown, do something {:?}\", err),\n        }\n        self.editor.borrow_mut().dec_revs_in_flight();", "            Err(err) => { error!(\"plugin shutdown, do something {:?}\", err); return; }\n        }\n        self.editor.borrow_mut().dec_revs_in_flight();", 1),
 ("fly-after", "P30", EV, "            ed.increment_revs_in_flight();\n            let weak_core = self.weak_core.clone();\n            let id = plugin.id;\n            let view_id = self.view_id;\n            plugin.update(&update, move |resp| {\n                weak_core.handle_plugin_update(id, view_id, resp);\n            });", "            let weak_core = self.weak_core.clone();\n            let id = plugin.id;\n            let view_id = self.view_id;\n            plugin.update(&update, move |resp| {\n                weak_core.handle_plugin_update(id, view_id, resp);\n            });\n            ed.increment_revs_in_flight();", 0),
 ("fly-gcalways", "P30", ED, "        if self.revs_in_flight == 0 && !self.gc_undos.is_empty() {", "        if self.revs_in_flight <= 1 && !self.gc_undos.is_empty() {", 1),
 ("fly-gcneutral", "P30", ED, "        if self.revs_in_flight == 0 && !self.gc_undos.is_empty() {\n            self", "        if self.revs_in_flight > 0 || self.gc_undos.is_empty() {\n            return;\n        }\n        {\n            self", 0),
 ("fly-gcdirect", "P30", ED, "            self.undo_group_id += 1;\n            undo_group", "            self.undo_group_id += 1;\n            if self.gc_undos.len() > 100 { self.engine.gc(&self.gc_undos); }\n            undo_group", 1),
 ("fly-reset", "P30", ED, "        self.engine.merge(&new_engine);\n", "        self.engine.merge(&new_engine);\n        self.revs_in_flight = 0;\n", 1),
 ("fly-viewgone", "P30", TABS_, "            edit_ctx.do_plugin_update(response);", "            if !self.running_plugins.is_empty() { edit_ctx.do_plugin_update(response); }", 1),
 ("fly-saturating", "P30", ED, "        self.revs_in_flight -= 1;", "        self.revs_in_flight = self.revs_in_flight.saturating_sub(1);", 0),
 ("fly-saturating2", "P30", ED, "        self.revs_in_flight -= 1;", "        self.revs_in_flight = self.revs_in_flight.saturating_sub(2);", 1),

 ("view-nowrap", "P26", VW, "                self.lc_shadow.edit(start_line, start_line + inval_count, new_count);\n            }\n            None => self.set_dirty(text),", "                self.lc_shadow.edit(start_line, start_line + new_count, new_count);\n            }\n            None => self.set_dirty(text),", 1),
 ("view-nonone", "P26", VW, "            None => self.set_dirty(text),\n        }\n\n        // Any", "            None => (),\n        }\n\n        // Any", 1),
 ("view-noann", "P26", VW, "        self.annotations.invalidate(iv);", "        if self.drag_state.is_none() && iv.size() > 0 { self.annotations.invalidate(iv); }", 1),
 ("view-findfirst", "P26", VW, "        for find in &mut self.find {\n            find.update_highlights(text, delta);\n            self.find_changed = FindStatusChange::All;\n        }", "        if let Some(find) = self.find.first_mut() {\n            find.update_highlights(text, delta);\n            self.find_changed = FindStatusChange::All;\n        }", 1),
 ("view-findhl", "P26", VW, "            find.update_highlights(text, delta);\n", "            if !find.is_multiline_regex() { find.update_highlights(text, delta); }\n", 1),
 ("view-findlasttext", "P26", VW, "            find.update_highlights(text, delta);\n", "            find.update_highlights(last_text, delta);\n", 1),
 ("view-findneutral", "P26", VW, "        for find in &mut self.find {\n            find.update_highlights(text, delta);\n            self.find_changed = FindStatusChange::All;\n        }", "        self.find.iter_mut().for_each(|f| f.update_highlights(text, delta));\n        if !self.find.is_empty() {\n            self.find_changed = FindStatusChange::All;\n        }", 0),
 ("view-seldrift", "P26", VW, "self.selection.apply_delta(delta, true, drift);", "self.selection.apply_delta(delta, true, InsertDrift::Default);", 1),
 ("view-selearly", "P26", VW, "        let new_sel = self.selection.apply_delta(delta, true, drift);\n        self.set_selection_for_edit(text, new_sel);", "        if self.drag_state.is_none() && self.find.is_empty() {\n            return;\n        }\n        let new_sel = self.selection.apply_delta(delta, true, drift);\n        self.set_selection_for_edit(text, new_sel);", 1),
 ("view-rewrap", "P26", VW, "            self.lc_shadow.edit(start_line, start_line + inval_count, new_count);\n        }\n    }", "            if inval_count != new_count {\n                self.lc_shadow.edit(start_line, start_line + inval_count, new_count);\n            }\n        }\n    }", 1),
    ("w3-handneutral", "P21", "core-lib/src/watcher.rs", '        if !state.watchees.iter().any(|w2| w.path == w2.path) {', '        let mut known = false;\n        for w2 in state.watchees.iter() {\n            if w2.path == w.path {\n                known = true;\n                break;\n            }\n        }\n        if !known {', 0),
    ("w3-flagneutral", "P21", "core-lib/src/watcher.rs", '        if !state.watchees.iter().any(|w2| w.path == w2.path) {', '        let mut known = false;\n        for w2 in state.watchees.iter() {\n            if w2.path == w.path {\n                known = true;\n            }\n        }\n        if !known {', 0),
    ("w3-handwrong", "P21", "core-lib/src/watcher.rs", '        if !state.watchees.iter().any(|w2| w.path == w2.path) {', '        let mut known = false;\n        for w2 in state.watchees.iter() {\n            if w2.token == w.token {\n                known = true;\n                break;\n            }\n        }\n        if !known {', 1),
    ("w3-handnot", "P21", "core-lib/src/watcher.rs", '        if !state.watchees.iter().any(|w2| w.path == w2.path) {', '        let mut known = false;\n        for w2 in state.watchees.iter() {\n            if w2.path != w.path {\n                known = true;\n                break;\n            }\n        }\n        if !known {', 1),
    ("w3-searchneutral", "P21", "core-lib/src/watcher.rs", '        let idx = state.watchees.iter().position(|w| w.token == token && w.path == path);\n', '        let mut idx = None;\n        for (i, w) in state.watchees.iter().enumerate() {\n            if w.token == token && w.path == path {\n                idx = Some(i);\n                break;\n            }\n        }\n', 0),
    ("w3-searchlastneutral", "P21", "core-lib/src/watcher.rs", '        let idx = state.watchees.iter().position(|w| w.token == token && w.path == path);\n', '        let mut idx = None;\n        for (i, w) in state.watchees.iter().enumerate() {\n            if w.path == path && w.token == token {\n                idx = Some(i);\n            }\n        }\n', 0),
    ("w3-searchpath", "P21", "core-lib/src/watcher.rs", '        let idx = state.watchees.iter().position(|w| w.token == token && w.path == path);\n', '        let mut idx = None;\n        for (i, w) in state.watchees.iter().enumerate() {\n            if w.path == path {\n                idx = Some(i);\n                break;\n            }\n        }\n', 1),
    ("w3-searchor", "P21", "core-lib/src/watcher.rs", '        let idx = state.watchees.iter().position(|w| w.token == token && w.path == path);\n', '        let mut idx = None;\n        for (i, w) in state.watchees.iter().enumerate() {\n            if w.path == path || w.token == token {\n                idx = Some(i);\n                break;\n            }\n        }\n', 1),
    ("h3-popneutral", "P24", 'rope/src/engine.rs', [("let old_revs = std::mem::replace(&mut self.revs, Vec::new());", "let mut old_revs = std::mem::take(&mut self.revs);"), ("for rev in old_revs.into_iter().rev() {", "while let Some(rev) = old_revs.pop() {")], None, 0),
    ("t3-frontneutral", "P28", "trace/src/lib.rs", "        if all_samples.is_empty() {\n            return Vec::with_capacity(0);\n        }\n", "        if all_samples.front().is_none() {\n            return Vec::new();\n        }\n", 0),
    ("prist-told", "P09", FI, '            let mod_t = get_mod_time(path);\n            if mod_t != info.mod_time {\n                info.has_changed = true\n            }\n            return info.has_changed;', '            let mod_t = get_mod_time(path);\n            if mod_t != info.mod_time {\n                info.has_changed = true\n            }\n            return mod_t != info.mod_time;', 1),
    ("prist-shortneutral", "P09", FI, '            let mod_t = get_mod_time(path);\n            if mod_t != info.mod_time {\n                info.has_changed = true\n            }\n            return info.has_changed;', '            info.has_changed = info.has_changed || get_mod_time(path) != info.mod_time;\n            return info.has_changed;', 0),
    ("prist-orneutral", "P09", FI, '            let mod_t = get_mod_time(path);\n            if mod_t != info.mod_time {\n                info.has_changed = true\n            }\n            return info.has_changed;', '            info.has_changed |= get_mod_time(path) != info.mod_time;\n            return info.has_changed;', 0),
    ("prist-and", "P09", FI, '            let mod_t = get_mod_time(path);\n            if mod_t != info.mod_time {\n                info.has_changed = true\n            }\n            return info.has_changed;', '            info.has_changed = info.has_changed && get_mod_time(path) != info.mod_time;\n            return info.has_changed;', 1),
    ("save-helperneutral", "P08", FI, '    for chunk in text.iter_chunks(..text.len()) {\n        f.write_all(chunk.as_bytes())?;\n    }\n', '    fn put(f: &mut File, text: &Rope) -> io::Result<()> {\n        let mut it = text.iter_chunks(..);\n        while let Some(chunk) = it.next() {\n            f.write_all(chunk.as_bytes())?;\n        }\n        Ok(())\n    }\n    put(&mut f, text)?;\n', 0),
    ("save-helperpart", "P08", FI, '    for chunk in text.iter_chunks(..text.len()) {\n        f.write_all(chunk.as_bytes())?;\n    }\n', '    fn put(f: &mut File, text: &Rope) -> io::Result<()> {\n        let mut it = text.iter_chunks(..);\n        while let Some(chunk) = it.next() {\n            if f.write_all(chunk.as_bytes()).is_err() {\n                break;\n            }\n        }\n        Ok(())\n    }\n    put(&mut f, text)?;\n', 1),
    ("view-selswapneutral", "P26", VW, "        self.selection = sel;\n        self.invalidate_selection(text);", "        let _old = std::mem::replace(&mut self.selection, sel);\n        self.invalidate_selection(text);", 0),
    ("view-selswap", "P26", VW, "        self.invalidate_selection(text);\n        self.selection = sel;\n        self.invalidate_selection(text);", "        let _old = std::mem::replace(&mut self.selection, sel);\n        self.invalidate_selection(text);", 1),
 ("view-selold", "P26", VW, "        self.invalidate_selection(text);\n        self.selection = sel;", "        self.selection = sel;", 1),
 ("view-selnew", "P26", VW, "        self.selection = sel;\n        self.invalidate_selection(text);", "        self.selection = sel;", 1),
 ("view-selraw", "P26", VW, "            if !sel.is_empty() {\n                self.drag_state = None;\n                self.set_selection_raw(text, sel);", "            if !sel.is_empty() {\n                self.drag_state = None;\n                self.invalidate_selection(text);\n                self.selection = sel;", 1),
 ("view-selcarets", "P26", VW, "        let invalid = if all_caret {", "        let invalid = if all_caret || self.drag_state.is_none() {", 1),
 ("view-selflags", "P26", VW, "            line_cache_shadow::CURSOR_VALID | line_cache_shadow::STYLES_VALID\n", "            line_cache_shadow::STYLES_VALID\n", 1),
 ("view-selline", "P26", VW, "self.selection.last().unwrap().max()) + 1;", "self.selection.last().unwrap().max());", 1),
 ("view-selmin", "P26", VW, "self.line_of_offset(text, self.selection.first().unwrap().min());", "self.line_of_offset(text, self.selection.last().unwrap().min());", 1),
 ("view-selneutral", "P26", VW, "        let all_caret = self.selection.iter().all(|region| region.is_caret());\n        let invalid = if all_caret {\n            line_cache_shadow::CURSOR_VALID\n        } else {\n            line_cache_shadow::CURSOR_VALID | line_cache_shadow::STYLES_VALID\n        };", "        let mut invalid = line_cache_shadow::CURSOR_VALID;\n        if self.selection.iter().any(|region| !region.is_caret()) {\n            invalid |= line_cache_shadow::STYLES_VALID;\n        }", 0),
 ("view-seldirty", "P26", VW, "        self.invalidate_selection(text);\n        self.selection = sel;\n        self.invalidate_selection(text);", "        self.selection = sel;\n        self.set_dirty(text);", 0),
 ("view-sendvalid", "P26", VW, "                            ops.push(UpdateOp::invalidate(seg.n));\n                            b.add_span(seg.n, 0, 0);\n                        } else if", "                            ops.push(UpdateOp::invalidate(seg.n));\n                            b.add_span(seg.n, seg.our_line_num, seg.validity);\n                        } else if", 1),
 ("view-sendall", "P26", VW, "                        b.add_span(seg.n, seg.our_line_num, seg.validity);\n                        line_num", "                        b.add_span(seg.n, seg.our_line_num, line_cache_shadow::ALL_VALID);\n                        line_num", 1),
 ("view-sendstyles", "P26", VW, "                    if (seg.validity & line_cache_shadow::TEXT_VALID) != 0\n                        && (seg.validity & line_cache_shadow::STYLES_VALID) != 0\n", "                    if (seg.validity & line_cache_shadow::TEXT_VALID) != 0\n                        && (seg.validity & (line_cache_shadow::STYLES_VALID | line_cache_shadow::CURSOR_VALID)) != 0\n", 1),
 ("view-sendmask", "P26", VW, "                    if (seg.validity & line_cache_shadow::TEXT_VALID) != 0\n                        && (seg.validity & line_cache_shadow::STYLES_VALID) != 0\n", "                    let both = line_cache_shadow::TEXT_VALID | line_cache_shadow::STYLES_VALID;\n                    if seg.validity & both == both\n", 0),
 ("view-sendall7", "P26", VW, "                        if (seg.validity & line_cache_shadow::CURSOR_VALID) != 0 {", "                        if seg.validity == line_cache_shadow::ALL_VALID {", 0),
 ("view-sendskip", "P26", VW, "                        if n_skip > 0 {\n", "                        if n_skip > 1 {\n", 1),
 ("view-sendadv", "P26", VW, "                        line_num = seg.their_line_num + seg.n;", "                        line_num += seg.n;", 1),
 ("view-sendadv2", "P26", VW, "                        b.add_span(seg.n, seg.our_line_num, seg.validity);\n                        line_num = seg.their_line_num + seg.n;", "                        b.add_span(seg.n, seg.our_line_num, seg.validity);\n                        if n_skip > 0 {\n                            line_num = seg.their_line_num + seg.n;\n                        }", 1),
 ("view-sendtext", "P26", VW, "                                        Some(text),\n                                        Some(style_spans),", "                                        Some(text),\n                                        None,", 1),
 ("view-sendstart", "P26", VW, "                            let start_line = seg.our_line_num;\n\n                            let encoded_lines = self\n                                .lines\n                                .iter_lines(text, start_line)\n                                .take(seg.n)\n                                .map(|l| {\n                                    self.encode_line(\n                                        client,\n                                        styles,\n                                        l,\n                                        /* text", "                            let start_line = seg.their_line_num;\n\n                            let encoded_lines = self\n                                .lines\n                                .iter_lines(text, start_line)\n                                .take(seg.n)\n                                .map(|l| {\n                                    self.encode_line(\n                                        client,\n                                        styles,\n                                        l,\n                                        /* text", 1),
 ("view-sendnostore", "P26", VW, "        self.lc_shadow = b.build();\n        for find", "        if !ops.is_empty() && self.pending_render {\n            self.lc_shadow = b.build();\n        }\n        for find", 1),
 ("view-sendcont", "P26", VW, "            match seg.tactic {\n                RenderTactic::Discard => {", "            if seg.n == 0 && self.pending_render {\n                continue;\n            }\n            match seg.tactic {\n                RenderTactic::Discard => {", 1),
 ("view-senddouble", "P26", VW, "        let update = Update { ops, pristine, annotations };\n        client.update_view(self.view_id, &update);\n    }", "        let update = Update { ops, pristine, annotations };\n        client.update_view(self.view_id, &update);\n        if self.pending_render {\n            client.update_view(self.view_id, &update);\n        }\n    }", 1),
 ("view-annold", "P26", "core-lib/src/annotations.rs", "            annotation.update(interval, items);\n", "            annotation.items = items;\n            let _ = interval;\n", 1),
 ("view-anngap", "P26", "rope/src/spans.rs", "            if iv.end() <= interval.start() {", "            if iv.intersect(interval).is_empty() {", 1),
 ("view-annbefore", "P26", "rope/src/spans.rs", "            if iv.end() <= interval.start() {", "            if iv.is_before(interval.start()) {", 0),
 ("view-annbreak", "P26", "rope/src/spans.rs", "            if iv.end() <= interval.start() {\n                // keep the ones that come before\n                builder.add_span(iv, data.clone());\n            } else {\n                // all remaining spans are invalid\n                break;\n            }", "            if interval.start() < iv.end() {\n                break;\n            }\n            builder.add_span(iv, data.clone());", 0),
 ("view-annend", "P26", "rope/src/spans.rs", "            if iv.end() <= interval.start() {", "            if iv.end() <= interval.end() {", 1),
 # P27
 ("theme-name", "P27", ST, "                    self.theme_name = theme_name.to_owned();\n", "                    if self.theme_name.is_empty() { self.theme_name = theme_name.to_owned(); }\n", 1),
 ("theme-numneutral", "P27", ST, "        let result = self.styles.len() + N_RESERVED_STYLES;\n        self.map.insert(style.clone(), result);\n        self.styles.push(style.clone());\n        result\n", "        self.styles.push(style.clone());\n        let id = self.styles.len() - 1 + N_RESERVED_STYLES;\n        self.map.insert(style.clone(), id);\n        id\n", 0),
 ("theme-numdiffer", "P27", ST, "        let result = self.styles.len() + N_RESERVED_STYLES;\n        self.map.insert(style.clone(), result);\n        self.styles.push(style.clone());\n        result\n", "        self.map.insert(style.clone(), self.styles.len() + N_RESERVED_STYLES);\n        self.styles.push(style.clone());\n        self.styles.len() + N_RESERVED_STYLES\n", 1),
 ("theme-map", "P27", ST, "                    self.map = HashMap::new();\n", "                    if self.styles.len() > 1000 { self.map = HashMap::new(); }\n", 1),
 ("theme-styles", "P27", ST, "                    self.styles = Vec::new();\n                    Ok", "                    Ok", 0),
 ("theme-default", "P27", ST, "                    self.theme = new_theme.to_owned();\n                    self.theme_name = theme_name.to_owned();\n                    self.default_style = Style::default_for_theme(&self.theme);", "                    self.default_style = Style::default_for_theme(&self.theme);\n                    self.theme = new_theme.to_owned();\n                    self.theme_name = theme_name.to_owned();", 1),
 ("theme-defneutral", "P27", ST, "                    self.theme = new_theme.to_owned();\n                    self.theme_name = theme_name.to_owned();\n                    self.default_style = Style::default_for_theme(&self.theme);\n                    self.map = HashMap::new();\n                    self.styles = Vec::new();", "                    self.default_style = Style::default_for_theme(new_theme);\n                    self.theme_name = theme_name.to_string();\n                    self.theme = new_theme.clone();\n                    self.map.clear();\n                    self.styles.clear();", 0),
 ("theme-namefirst", "P27", ST, "        match self.load_theme(theme_name) {\n            Ok(()) => {\n                if let Some", "        self.theme_name = theme_name.to_owned();\n        match self.load_theme(theme_name) {\n            Ok(()) => {\n                if let Some", 1),
 ("theme-other", "P27", ST, "self.themes.themes.get(theme_name) {", "self.themes.themes.get(theme_name).or_else(|| self.themes.themes.values().next()) {", 1),
 ("theme-notell", "P27", TABS_, "                    if self.style_map.borrow_mut().set_theme(&theme_name).is_ok() {\n                        self.notify_client_and_update_views();\n                    }", "                    let _ = self.style_map.borrow_mut().set_theme(&theme_name);", 1),
 ("theme-return", "P27", TABS_, "                return;\n            }\n        }\n        self.notify_client_and_update_views();", "                return;\n            }\n            if self.views.len() == 1 { return; }\n        }\n        self.notify_client_and_update_views();", 1),
 ("theme-tellneutral", "P27", TABS_, "        if theme_name != self.style_map.borrow().get_theme_name() {\n            if let Err(e) = self.style_map.borrow_mut().set_theme(&theme_name) {\n                error!(\"error setting theme: {:?}, {:?}\", theme_name, e);\n                return;\n            }\n        }\n        self.notify", "        let current = theme_name == self.style_map.borrow().get_theme_name();\n        if !current {\n            let res = self.style_map.borrow_mut().set_theme(theme_name);\n            if res.is_err() {\n                error!(\"error setting theme: {:?}, {:?}\", theme_name, res);\n                return;\n            }\n        }\n        self.notify", 0),
 ("theme-nolayers", "P27", TABS_, "                ed.theme_changed(&self.style_map.borrow());\n", "                if view.has_pending_render() { ed.theme_changed(&self.style_map.borrow()); }\n", 1),
 ("theme-nodirty", "P27", TABS_, "                view.set_dirty(ed.get_buffer());\n", "                if !view.has_pending_render() { view.set_dirty(ed.get_buffer()); }\n", 1),
 ("theme-forneutral", "P27", TABS_, "        self.iter_groups().for_each(|mut edit_ctx| {\n            edit_ctx.with_editor(|ed, view, _, _| {\n                ed.theme_changed(&self.style_map.borrow());\n                view.set_dirty(ed.get_buffer());\n            });\n            edit_ctx.render_if_needed();\n        });", "        for mut edit_ctx in self.iter_groups() {\n            edit_ctx.with_editor(|ed, view, _, _| {\n                view.set_dirty(ed.get_buffer());\n                let styles = self.style_map.borrow();\n                ed.theme_changed(&styles);\n            });\n            edit_ctx.render_if_needed();\n        }", 0),
 ("theme-take", "P27", TABS_, "        self.iter_groups().for_each(|mut edit_ctx| {\n            edit_ctx.with_editor(|ed, view, _, _| {", "        self.iter_groups().take(1).for_each(|mut edit_ctx| {\n            edit_ctx.with_editor(|ed, view, _, _| {", 1),
 ("lay-shape", "P27", LAY, "        self.style_spans.apply_shape(delta);\n", "        if self.style_lookup.len() > 0 { self.style_spans.apply_shape(delta); }\n", 1),
 ("lay-merged", "P27", LAY, "        self.merged.apply_shape(delta);\n", "        if self.layers.is_empty() { self.merged.apply_shape(delta); }\n", 1),
 ("lay-range", "P27", LAY, "        self.resolve_styles(Interval::new(iv.start, iv.start + new_len));", "        let _ = new_len;\n        self.resolve_styles(iv);", 1),
 ("lay-rangeneutral", "P27", LAY, "        let (iv, new_len) = delta.summary();\n        self.resolve_styles(Interval::new(iv.start, iv.start + new_len));", "        let (changed, len) = delta.summary();\n        let start = changed.start();\n        let range = Interval::new(start, start + len);\n        self.resolve_styles(range);", 0),
 ("lay-one", "P27", LAY, "        for layer in self.layers.values_mut() {\n            layer.blank_scopes(delta);\n        }", "        if let Some(layer) = self.layers.values_mut().next() {\n            layer.blank_scopes(delta);\n        }", 1),
 ("lay-each", "P27", LAY, "        for layer in self.layers.values_mut() {\n            layer.blank_scopes(delta);\n        }", "        self.layers.values_mut().for_each(|layer| layer.blank_scopes(delta));", 0),
 ("lay-updiv", "P27", LAY, "        self.scope_spans.edit(iv, spans.to_owned());\n", "        self.scope_spans.edit(Interval::new(iv.start(), iv.start() + spans.len()), spans.to_owned());\n", 1),
 ("lay-updorder", "P27", LAY, "        self.scope_spans.edit(iv, spans.to_owned());\n        self.update_styles(iv, spans);", "        self.update_styles(iv, spans);\n        self.scope_spans.edit(iv, spans.clone());", 0),
 ("lay-updnomerge", "P27", LAY, "        self.layers.get_mut(&layer).unwrap().update_scopes(iv, &spans);\n        self.resolve_styles(iv);", "        self.layers.get_mut(&layer).unwrap().update_scopes(iv, &spans);\n        if self.layers.len() > 1 { self.resolve_styles(iv); }", 1),
 ("lay-nocache", "P27", LAY, "        self.style_cache.clear();\n", "", 1),
 ("lay-latecache", "P27", LAY, "        self.style_cache.clear();\n        let cur_stacks = self.stack_lookup.clone();\n        self.style_lookup = self.styles_for_stacks(&cur_stacks, style_map);", "        let cur_stacks = self.stack_lookup.clone();\n        self.style_lookup = self.styles_for_stacks(&cur_stacks, style_map);\n        self.style_cache.clear();", 1),
 ("lay-takeneutral", "P27", LAY, "        let cur_stacks = self.stack_lookup.clone();\n        self.style_lookup = self.styles_for_stacks(&cur_stacks, style_map);", "        let stacks = self.stack_lookup.clone();\n        let fresh = self.styles_for_stacks(stacks.as_slice(), style_map);\n        self.style_lookup = fresh;", 0),
 ("lay-themeiv", "P27", LAY, "        let iv_all = Interval::new(0, self.style_spans.len());\n        self.style_spans = ", "        let iv_all = Interval::new(0, 0);\n        self.style_spans = ", 1),
 ("lay-themenomerge", "P27", LAY, "        self.merged = SpansBuilder::new(self.merged.len()).build();\n        let iv_all = Interval::new(0, self.merged.len());\n        self.resolve_styles(iv_all);", "        if self.layers.len() > 1 {\n        self.merged = SpansBuilder::new(self.merged.len()).build();\n        let iv_all = Interval::new(0, self.merged.len());\n        self.resolve_styles(iv_all);\n        }", 1),
 ("lay-skipfirst", "P27", LAY, "            assert_eq!(resolved.len(), spans.len());\n            resolved =", "            assert_eq!(resolved.len(), spans.len());\n            if spans.iter().next().is_none() && resolved.len() > 10 { continue; }\n            resolved =", 1),
 ("lay-replace", "P27", LAY, "            resolved = resolved.merge(&spans, |a, b| match b {\n                Some(b) => a.merge(b),\n                None => a.to_owned(),\n            });", "            resolved = spans;", 1),
 ("lay-mergeneutral", "P27", LAY, "        let mut layer_iter = self.layers.values();\n        let mut resolved = layer_iter.next().unwrap().style_spans.subseq(iv);\n\n        for other in layer_iter {\n            let spans = other.style_spans.subseq(iv);\n            assert_eq!(resolved.len(), spans.len());\n            resolved = resolved.merge(&spans, |a, b| match b {\n                Some(b) => a.merge(b),\n                None => a.to_owned(),\n            });\n        }", "        let mut rest = self.layers.values();\n        let first = rest.next().unwrap();\n        let mut resolved = first.style_spans.subseq(iv);\n        while let Some(other) = rest.next() {\n            let spans = other.style_spans.subseq(iv);\n            let merged = resolved.merge(&spans, |a, b| b.map_or_else(|| a.to_owned(), |b| a.merge(b)));\n            resolved = merged;\n        }", 0),
 ("lay-spanval", "P27", LAY, "if let Some(style) = self.style_lookup.get(*p_val as usize) {\n                            sb.add_span", "if let Some(style) = self.style_lookup.get((*p_val as usize).min(self.style_lookup.len() - 1)) {\n                            sb.add_span", 1),
 ("lay-spansimple", "P27", LAY, """            let style_eq = |i1: &u32, i2: &u32| {
                self.style_lookup.get(*i1 as usize) == self.style_lookup.get(*i2 as usize)
            };

            while let Some((p_iv, p_val)) = prev {
                match spans_iter.next() {
                    Some((n_iv, n_val)) if n_iv.start() == p_iv.end() && style_eq(p_val, n_val) => {
                        prev = Some((p_iv.union(n_iv), p_val));
                    }
                    other => {
                        // a plugin may not have sent the stack for this scope
                        if let Some(style) = self.style_lookup.get(*p_val as usize) {
                            sb.add_span(p_iv, style.to_owned());
                        }
                        prev = other;
                    }
                }
            }""", """            while let Some((iv, val)) = prev {
                if let Some(style) = self.style_lookup.get(*val as usize) {
                    sb.add_span(iv, style.clone());
                }
                prev = spans_iter.next();
            }""", 0),
 ("lay-filterstack", "P27", LAY, "            stacks.push(scopes);", "            if !scopes.is_empty() { stacks.push(scopes); }", 1),
 ("lay-stackcollect", "P27", LAY, "        self.stack_lookup.append(&mut stacks);\n        self.style_lookup.append(&mut new_styles);", "        self.style_lookup.extend(new_styles.drain(..));\n        self.stack_lookup.extend(stacks);", 0),
 ("lay-styleskip", "P27", LAY, "            new_styles.push(style);", "            if !new_styles.contains(&style) { new_styles.push(style); }", 1),
 ("lay-stackonly", "P27", LAY, "        self.style_lookup.append(&mut new_styles);", "        if self.style_lookup.len() < 1000 { self.style_lookup.append(&mut new_styles); }", 1),
 ("style-nodef", "P27", VW, "        client.def_style(&style.to_json(ix));\n", "        if ix < 1000 { client.def_style(&style.to_json(ix)); }\n", 1),
 ("style-order", "P27", VW, "        let ix = style_map.add(style);\n        let style = style_map.merge_with_default(style);\n        client.def_style(&style.to_json(ix));\n        ix", "        let full = style_map.merge_with_default(style);\n        let id = style_map.add(style);\n        client.def_style(&full.to_json(id));\n        id", 0),
 ("style-idslast", "P27", ST, "        self.styles.push(style.clone());\n", "        if self.styles.last() != Some(style) { self.styles.push(style.clone()); }\n", 1),
]
ET, RC = "core-lib/src/edit_types.rs", "core-lib/src/recorder.rs"
M += [
 ("cmd-move", "P15", ET, "ViewEvent::ModifySelection(Movement::EndOfParagraph).into(),", "ViewEvent::ModifySelection(Movement::RightOfLine).into(),", 1),
 ("cmd-modify", "P15", ET, "ViewEvent::ModifySelection(Movement::UpPage).into(),", "ViewEvent::Move(Movement::UpPage).into(),", 1),
 ("cmd-findswap", "P15", ET, "ViewEvent::FindPrevious { wrap_around, allow_same, modify_selection }.into(),", "ViewEvent::FindPrevious { wrap_around: allow_same, allow_same: wrap_around, modify_selection }.into(),", 1),
 ("cmd-findargs", "P15", VW, "self.do_find_next(text, true, wrap_around, allow_same, &modify_selection)", "self.do_find_next(text, true, allow_same, wrap_around, &modify_selection)", 1),
 ("cmd-findneutral", "P15", VW, "            FindNext { wrap_around, allow_same, modify_selection } => {\n                self.do_find_next(text, false, wrap_around, allow_same, &modify_selection)\n            }", "            FindNext { wrap_around: wrap, allow_same, modify_selection: modifier } => {\n                let reverse = false;\n                let same = allow_same;\n                self.do_find_next(text, reverse, wrap, same, &modifier)\n            }", 0),
 ("cmd-gesture", "P15", ET, "GestureType::Select { granularity: SelectionGranularity::Line, multi: true}", "GestureType::Select { granularity: SelectionGranularity::Word, multi: true}", 1),
 ("cmd-gestureneutral", "P15", ET, [("                    GestureType::PointSelect => {\n                        warn!(\"The point_select gesture is deprecated; use select instead\");\n                        GestureType::Select {granularity: SelectionGranularity::Point, multi: false}\n                    }", "                    GestureType::PointSelect => select_of(SelectionGranularity::Point, false),"), ("#[rustfmt::skip]\nimpl From<EditNotification>", "fn select_of(granularity: SelectionGranularity, multi: bool) -> GestureType {\n    warn!(\"deprecated\");\n    GestureType::Select { multi, granularity }\n}\n\n#[rustfmt::skip]\nimpl From<EditNotification>")], None, 0),
 ("cmd-click", "P15", VW, "Some(2) => SelectionGranularity::Word,", "Some(n) if n >= 2 => SelectionGranularity::Word,", 1),
 ("cmd-clickif", "P15", VW, "                    let granularity = match click_count {\n                        Some(2) => SelectionGranularity::Word,\n                        Some(3) => SelectionGranularity::Line,\n                        _ => SelectionGranularity::Point,\n                    };", "                    let granularity = if click_count == Some(2) {\n                        SelectionGranularity::Word\n                    } else if click_count == Some(3) {\n                        SelectionGranularity::Line\n                    } else {\n                        SelectionGranularity::Point\n                    };", 0),
 ("cmd-redo", "P15", ED, "            Redo => self.do_redo(),", "            Redo => self.do_undo(),", 1),
 ("cmd-upper", "P15", ED, "self.do_transform_text(view, |s| s.to_uppercase())", "self.do_transform_text(view, |s| if s.len() > 64 { s.to_string() } else { s.to_lowercase() })", 1),
 ("cmd-incr", "P15", ED, "self.do_change_number(view, |s| s.checked_add(1))", "self.do_change_number(view, |s| s.checked_add(s.signum().max(1) + 1))", 1),
 ("cmd-rename", "P15", RP, "    AddSelectionBelow,\n", "    #[serde(rename = \"add_selection_under\")]\n    AddSelectionBelow,\n", 1),
 ("cmd-required", "P15", RP, "    FindPrevious {\n        #[serde(default)]\n        wrap_around: bool,", "    FindPrevious {\n        wrap_around: bool,", 1),
 ("cmd-modnames", "P15", RP, "    AddRemovingCurrent,\n}", "    #[serde(rename = \"add_removing\")]\n    AddRemovingCurrent,\n}", 1),
 ("cmd-hovernone", "P15", ET, "SpecialEvent::RequestHover { request_id, position }.into(),", "{ let _ = position; SpecialEvent::RequestHover { request_id, position: None }.into() },", 1),
 ("cmd-cut", "P15", EV, "            Cut => Ok(self.with_editor(|ed, view, _, _| ed.do_cut(view))),", "            Cut => Ok(self.with_editor(|ed, view, _, _| ed.do_copy(view))),", 1),
 ("cmd-cutneutral", "P15", EV, "        let result = match cmd {\n            Cut => Ok(self.with_editor(|ed, view, _, _| ed.do_cut(view))),\n            Copy => Ok(self.with_editor(|ed, view, _, _| ed.do_copy(view))),\n        };", "        let value = self.with_editor(|ed, view, _, _| match cmd {\n            Copy => ed.do_copy(view),\n            Cut => ed.do_cut(view),\n        });\n        let result = Ok(value);", 0),
 ("cmd-stop", "P15", TABS_, "PN::Stop { view_id, plugin_name } => self.do_stop_plugin(view_id, &plugin_name),", "PN::Stop { view_id, plugin_name } => self.do_start_plugin(view_id, &plugin_name),", 1),
 ("cmd-close", "P15", TABS_, "            CloseView { view_id } => self.do_close_view(view_id),", "            CloseView { view_id } => { if self.views.len() > 1 { self.do_close_view(view_id) } }", 1),
 ("cmd-goto", "P15", VW, "        let offset = self.line_col_to_offset(text, line as usize, 0);\n        self.set_selection", "        let offset = self.line_col_to_offset(text, line as usize, self.first_line);\n        self.set_selection", 1),
 ("cmd-lines", "P15", EV, "self.do_request_lines(first as usize, last as usize)", "self.do_request_lines(last as usize, first as usize)", 1),
 ("cmd-splitneutral", "P15", VW, [("            HighlightFind { visible } => {\n                self.highlight_find = visible;\n                self.find_changed = FindStatusChange::All;\n                self.set_dirty(text);\n            }", "            HighlightFind { visible } => self.show_find(text, visible),"), ("    fn goto_line(", "    fn show_find(&mut self, text: &Rope, on: bool) {\n        self.find_changed = FindStatusChange::All;\n        self.highlight_find = on;\n        self.set_dirty(text);\n    }\n\n    fn goto_line(")], None, 0),
 ("cmd-delkill", "P15", ED, "self.do_delete_by_movement(view, movement, kill, kill_ring)", "self.do_delete_by_movement(view, movement, kill || movement == Movement::LeftOfLine, kill_ring)", 1),
]
PV, PD, PC = "plugin-lib/src/view.rs", "plugin-lib/src/dispatch.rs", "plugin-lib/src/core_proxy.rs"
CF = "core-lib/src/config.rs"
PR, PM, AN = "core-lib/src/plugins/rpc.rs", "core-lib/src/plugins/mod.rs", "core-lib/src/annotations.rs"
M += [
 ("msg-swap", "P16", PV, '            "start": start,\n            "len": len,\n            "rev": self.rev,\n            "spans": spans,', '            "start": len,\n            "len": start,\n            "rev": self.rev,\n            "spans": spans,', 1),
 ("msg-langkey", "P16", PM, '"new_lang": new_lang', '"language_id": new_lang', 1),
 ("msg-spansswap", "P16", EV, "ed.update_spans(view, plugin, start, len, spans, rev)", "ed.update_spans(view, plugin, len, start, spans, rev)", 1),
 ("msg-rename", "P16", PR, "    DidClose { view_id: ViewId },", '    #[serde(rename = "closed")]\n    DidClose { view_id: ViewId },', 1),
 ("msg-status", "P16", EV, "self.client.add_status_item(self.view_id, &p.name, &key, &value, &alignment)", "self.client.add_status_item(self.view_id, &p.name, &value, &key, &alignment)", 1),
 ("msg-undogroup", "P16", PV, "if new_undo_group { None } else { self.undo_group }", "if !new_undo_group { None } else { self.undo_group }", 1),
 ("msg-savepath", "P16", EV, "plugin.did_save(self.view_id, path)", "plugin.did_save(ViewId(0), path)", 1),
 ("msg-hover", "P16", PM, '                "request_id": request_id,\n                "position": position,', '                "request_id": position,\n                "position": request_id,', 1),
 ("msg-rev", "P16", PV, "PluginEdit { rev: self.rev, delta,", "PluginEdit { rev: self.rev + 1, delta,", 1),
 ("msg-required", "P16", PR, "    NewBuffer { buffer_info: Vec<PluginBufferInfo> },", "    #[serde(rename_all = \"camelCase\")]\n    NewBuffer { buffer_info: Vec<PluginBufferInfo> },", 1),
 ("msg-neutral", "P16", PV, '        self.peer.send_rpc_notification("add_scopes", &params);', '        let peer = &self.peer;\n        let method = "add_scopes";\n        peer.send_rpc_notification(method, &params);', 0),
 ("msg-neutral2", "P16", EV, "            RemoveStatusItem { key } => self.client.remove_status_item(self.view_id, &key),", "            RemoveStatusItem { key } => {\n                let view_id = self.view_id;\n                self.client.remove_status_item(view_id, &key)\n            }", 0),
 ("msg-neutral3", "P16,P07", EV, [("            UpdateAnnotations { start, len, spans, annotation_type, rev } => {\n                self.with_editor(|ed, view, _, _| {\n                    ed.update_annotations(view, plugin, start, len, spans, annotation_type, rev)\n                })\n            }", "            UpdateAnnotations { start, len, spans, annotation_type, rev } => {\n                self.take_annotations(plugin, start, len, spans, annotation_type, rev)\n            }"), ("    pub(crate) fn do_plugin_cmd_sync(", "    fn take_annotations(\n        &mut self,\n        plugin: PluginId,\n        start: usize,\n        len: usize,\n        spans: Vec<crate::plugins::rpc::DataSpan>,\n        annotation_type: crate::annotations::AnnotationType,\n        rev: u64,\n    ) {\n        self.with_editor(|ed, view, _, _| {\n            ed.update_annotations(view, plugin, start, len, spans, annotation_type, rev)\n        })\n    }\n\n    pub(crate) fn do_plugin_cmd_sync(")], None, 0),
 ("ser-skip", "P17", PR, "    pub first_line: usize,", "    #[serde(skip_serializing)]\n    pub first_line: usize,", 1),
 ("ser-rename", "P17", PR, "    pub first_line_offset: usize,", '    #[serde(rename(serialize = "line_offset"))]\n    pub first_line_offset: usize,', 1),
 ("ser-alias", "P17", PR, "    pub first_line_offset: usize,", '    #[serde(alias = "line_offset")]\n    pub first_line_offset: usize,', 0),
 ("ser-both", "P17", PR, "pub struct Hover {\n    pub content: String,", 'pub struct Hover {\n    #[serde(rename = "text")]\n    pub content: String,', 0),
 ("ser-variant", "P17", PR, "    GetSelections {},", '    #[serde(rename(serialize = "selections"))]\n    GetSelections {},', 1),
 ("ser-skipif", "P17", PR, "    pub author: String,\n}\n\n#[derive(Serialize, Deserialize, Debug, Clone, Copy)]\npub struct ScopeSpan", '    #[serde(skip_serializing_if = "String::is_empty")]\n    pub author: String,\n}\n\n#[derive(Serialize, Deserialize, Debug, Clone, Copy)]\npub struct ScopeSpan', 1),
 ("ser-skipifdef", "P17", PR, "    pub author: String,\n}\n\n#[derive(Serialize, Deserialize, Debug, Clone, Copy)]\npub struct ScopeSpan", '    #[serde(default, skip_serializing_if = "String::is_empty")]\n    pub author: String,\n}\n\n#[derive(Serialize, Deserialize, Debug, Clone, Copy)]\npub struct ScopeSpan', 0),
 ("cli-key", "P18", CL, '                "language_id": new_lang,', '                "new_lang": new_lang,', 1),
 ("cli-scroll", "P18", CL, '                "line": line,\n                "col": col,', '                "line": col,\n                "col": line,', 1),
 ("cli-ln", "P18", CL, '    #[serde(rename = "ln")]\n', '', 1),
 ("cli-op", "P18", CL, '    #[serde(rename = "ins")]\n', '', 1),
 ("cli-copyln", "P18", CL, "first_line_number: Some(line) }", "first_line_number: if line > 0 { Some(line) } else { None } }", 1),
 ("cli-insn", "P18", CL, "UpdateOp { op: OpType::Insert, n: lines.len(), lines: Some(lines), first_line_number: None }", "UpdateOp { op: OpType::Insert, n: lines.len(), lines: Some(lines), first_line_number: Some(0) }", 1),
 ("cli-code", "P18", CL, '                "code": code,', '                "code": code & 0,', 1),
 ("cli-cmds", "P18", CL, '                "cmds": cmds,', '                "commands": cmds,', 1),
 ("cli-helper", "P18", CL, [('        self.0.send_rpc_notification("available_themes", &json!({ "themes": theme_names }))', '        self.tell("available_themes", json!({ "themes": theme_names }))'), ("    pub fn schedule_idle(&self, token: usize) {", "    fn tell(&self, method: &str, params: Value) {\n        self.0.send_rpc_notification(method, &params)\n    }\n\n    pub fn schedule_idle(&self, token: usize) {")], None, 0),
 ("cli-neutral", "P18", CL, "UpdateOp { op: OpType::Skip, n, lines: None, first_line_number: None }", "let mut op = UpdateOp::invalidate(n);\n        op.op = OpType::Skip;\n        op", 0),
 ("disp-save", "P22", PD, "        let prev_path = v.path.take();\n        v.path = Some(path);\n        self.plugin.did_save(v, prev_path.as_deref());", "        let prev_path = v.path.clone();\n        self.plugin.did_save(v, prev_path.as_deref());\n        v.path = Some(path);", 1),
 ("disp-saveprev", "P22", PD, "        let prev_path = v.path.take();\n        v.path = Some(path);", "        v.path = Some(path);\n        let prev_path = v.path.clone();", 1),
 ("disp-savereplace", "P22", PD, "        let prev_path = v.path.take();\n        v.path = Some(path);", "        let prev_path = v.path.replace(path);", 0),
 ("disp-close", "P22", PD, "            self.plugin.did_close(v);\n        }\n        self.views.remove(&view_id);", "            self.plugin.did_close(v);\n        }", 1),
 ("disp-closeneutral", "P22", PD, "        {\n            let v = bail!(self.views.get(&view_id), \"close\", self.pid, view_id);\n            self.plugin.did_close(v);\n        }\n        self.views.remove(&view_id);", "        match self.views.get(&view_id) {\n            None => return,\n            Some(v) => self.plugin.did_close(v),\n        }\n        self.views.remove(&view_id);", 0),
 ("disp-closeremove", "P22", PD, "        {\n            let v = bail!(self.views.get(&view_id), \"close\", self.pid, view_id);\n            self.plugin.did_close(v);\n        }\n        self.views.remove(&view_id);", "        let v = bail!(self.views.remove(&view_id), \"close\", self.pid, view_id);\n        self.plugin.did_close(&v);", 0),
 ("disp-updorder", "P22", PD, "        v.update(delta.as_ref(), new_len, new_line_count, rev, undo_group);\n        self.plugin.update(v, delta.as_ref(), edit_type, author);", "        self.plugin.update(v, delta.as_ref(), edit_type, author);\n        v.update(delta.as_ref(), new_len, new_line_count, rev, undo_group);", 1),
 ("disp-updskip", "P22", PD, "        v.update(delta.as_ref(), new_len, new_line_count, rev, undo_group);\n        self.plugin.update(v,", "        v.update(delta.as_ref(), new_len, new_line_count, rev, undo_group);\n        if author == \"syntect\" {\n            return Ok(Value::from(1));\n        }\n        self.plugin.update(v,", 1),
 ("disp-authors", "P22", PD, "self.plugin.update(v, delta.as_ref(), edit_type, author);", "self.plugin.update(v, delta.as_ref(), author, edit_type);", 1),
 ("disp-bufsize", "P22", PV, "        self.buf_size = new_len;\n", "        if delta.is_some() {\n            self.buf_size = new_len;\n        }\n", 1),
 ("disp-undo", "P22", PV, "        self.undo_group = undo_group;\n", "        if undo_group.is_some() {\n            self.undo_group = undo_group;\n        }\n", 1),
 ("disp-conforder", "P22", PD, [("        self.plugin.config_changed(v, &changes);\n", ""), ("        v.config = conf.unwrap();", "        v.config = conf.unwrap();\n        self.plugin.config_changed(v, &changes);")], None, 1),
 ("disp-confstale", "P22", PD, [("        for (key, value) in changes.iter() {", "        let conf = serde_json::from_value(Value::Object(v.config_table.clone()));\n        for (key, value) in changes.iter() {"), ("        let conf = serde_json::from_value(Value::Object(v.config_table.clone()));\n        v.config", "        v.config")], None, 1),
 ("disp-confnew", "P22", PD, "        for (key, value) in changes.iter() {\n", "        for (key, value) in changes.iter() {\n            if !v.config_table.contains_key(key) {\n                continue;\n            }\n", 1),
 ("disp-confextend", "P22", PD, "        for (key, value) in changes.iter() {\n            v.config_table.insert(key.to_owned(), value.to_owned());\n        }", "        v.config_table.extend(changes.clone());", 0),
 ("disp-lang", "P22", PD, "        self.plugin.language_changed(v, old_lang);", "        if v.language_id != old_lang {\n            self.plugin.language_changed(v, old_lang);\n        }", 1),
 ("disp-hover", "P22", PD, "self.plugin.get_hover(v, request_id, position)", "self.plugin.get_hover(v, position, request_id)", 1),
 ("disp-err", "P22", PD, "RemoteError::custom(404,", "RemoteError::custom(0,", 1),
 ("disp-newinsert", "P22", PD, "                self.views.insert(view.view_id, view);", "                self.views.entry(view.view_id).or_insert(view);", 1),
 ("disp-newloop", "P22", PD, "        buffers\n            .into_iter()\n            .map(|info| View::new(ctx.get_peer().clone(), plugin_id, info))\n            .for_each(|view| {\n                let mut view = view;\n                self.plugin.new_view(&mut view);\n                self.views.insert(view.view_id, view);\n            });", "        for info in buffers {\n            let mut view = View::new(ctx.get_peer().clone(), plugin_id, info);\n            self.plugin.new_view(&mut view);\n            let id = view.view_id;\n            self.views.insert(id, view);\n        }", 0),
 ("disp-newskip", "P22", PD, "            .map(|info| View::new", "            .filter(|info| info.buf_size < 100_000_000)\n            .map(|info| View::new", 1),
 ("disp-newrev", "P22", PV, "            rev,\n            undo_group: None,", "            rev: rev.max(1),\n            undo_group: None,", 1),
 ("disp-init", "P22", PD, "        self.plugin.initialize(core_proxy);\n\n        self.do_new_buffer(ctx, buffers);", "        self.do_new_buffer(ctx, buffers);\n        self.plugin.initialize(core_proxy);", 1),
 ("disp-trace", "P22", PD, "        if enabled {\n            xi_trace::enable_tracing();", "        if enabled || xi_trace::is_enabled() {\n            xi_trace::enable_tracing();", 1),
 ("disp-inline", "P22", PD, "            LanguageChanged { view_id, new_lang } => self.do_language_changed(view_id, new_lang),", "            LanguageChanged { view_id, new_lang } => {\n                if let Some(v) = self.views.get_mut(&view_id) {\n                    let old = std::mem::replace(&mut v.language_id, new_lang);\n                    self.plugin.language_changed(v, old);\n                }\n            }", 0),
 ("set-nocheck", "P19", CF, "        self.check_table(&config)?;\n", "        if self.check_table(&config).is_err() {\n            error!(\"bad config\");\n        }\n", 1),
 ("set-checklate", "P19", CF, "        self.check_table(&config)?;\n        self.configs.entry(domain).or_insert_with(|| ConfigPair::with_base(None)).set_table(config);\n        Ok(self.update_all_buffer_configs())", "        let checked = self.check_table(&config);\n        self.configs.entry(domain).or_insert_with(|| ConfigPair::with_base(None)).set_table(config);\n        checked?;\n        Ok(self.update_all_buffer_configs())", 1),
 ("set-checkmatch", "P19", CF, "        self.check_table(&config)?;\n        self.configs.entry(domain).or_insert_with(|| ConfigPair::with_base(None)).set_table(config);\n        Ok(self.update_all_buffer_configs())", "        match self.check_table(&config) {\n            Ok(()) => {\n                let pair = self.configs.entry(domain).or_insert_with(|| ConfigPair::with_base(None));\n                pair.set_table(config);\n                let changes = self.update_all_buffer_configs();\n                Ok(changes)\n            }\n            Err(e) => Err(e),\n        }", 0),
 ("set-checkempty", "P19", CF, "        let _: BufferItems = serde_json::from_value(defaults.into())?;\n        Ok(())", "        if table.len() > 1 {\n            let _: BufferItems = serde_json::from_value(defaults.into())?;\n        }\n        Ok(())", 1),
 ("set-checkskip", "P19", CF, "            defaults.insert(k.to_owned(), v.to_owned());\n        }\n        let _: Buf", "            if defaults.contains_key(k) {\n                continue;\n            }\n            defaults.insert(k.to_owned(), v.to_owned());\n        }\n        let _: Buf", 1),
 ("set-langnocheck", "P19", CF, "Some(ref table) => match self.check_table(table) {\n                    Ok(()) => Some(table.clone()),\n                    Err(e) => {\n                        error!(\"Ignoring default config of {:?}: {}\", language.name, e);\n                        None\n                    }\n                },\n                None => None,\n            };", "Some(ref table) => Some(table.clone()),\n                None => None,\n            };", 1),
 ("set-langhelper", "P19", CF, "            let default_config = match language.default_config {\n                Some(ref table) => match self.check_table(table) {\n                    Ok(()) => Some(table.clone()),\n                    Err(e) => {\n                        error!(\"Ignoring default config of {:?}: {}\", language.name, e);\n                        None\n                    }\n                },\n                None => None,\n            };", "            let default_config = language.default_config.clone().filter(|table| self.check_table(table).is_ok());", 0),
 ("set-langsilent", "P19", CF, "        self.languages = languages;\n        self.update_all_buffer_configs();", "        self.languages = languages;", 1),
 ("set-order", "P19", CF, "        configs.push(self.configs.get(&ConfigDomain::SysOverride(id)));\n        configs.push(self.configs.get(&ConfigDomain::UserOverride(id)));", "        configs.push(self.configs.get(&ConfigDomain::UserOverride(id)));\n        configs.push(self.configs.get(&ConfigDomain::SysOverride(id)));", 1),
 ("set-order2", "P19", CF, [("        configs.push(self.configs.get(&ConfigDomain::General));\n        if let Some(s) = lang {\n            configs.push(self.configs.get(&s.into()))\n        };\n        configs.push(self.configs.get(&ConfigDomain::SysOverride(id)));\n        configs.push(self.configs.get(&ConfigDomain::UserOverride(id)));", "        configs.push(self.configs.get(&ConfigDomain::UserOverride(id)));\n        configs.push(self.configs.get(&ConfigDomain::SysOverride(id)));\n        if let Some(s) = lang {\n            configs.push(self.configs.get(&s.into()))\n        };\n        configs.push(self.configs.get(&ConfigDomain::General));"), ("            .map(|c| c.cache.clone())\n            .rev()\n", "            .map(|c| c.cache.clone())\n")], None, 0),
 ("set-norev", "P19", CF, "            .map(|c| c.cache.clone())\n            .rev()\n", "            .map(|c| c.cache.clone())\n", 1),
 ("set-firstwins", "P19", CF, "                if !out.contains_key(k) {\n", "                if !out.contains_key(k) || v.is_null() {\n", 1),
 ("set-entrywins", "P19", CF, "                if !out.contains_key(k) {\n                    // cloning these objects feels a bit gross, we could\n                    // improve this by implementing Deserialize for TableStack.\n                    out.insert(k.to_owned(), v.to_owned());\n                }", "                if out.contains_key(k) {\n                    continue;\n                }\n                let value = v.clone();\n                out.insert(k.clone(), value);", 0),
 ("set-getlast", "P19", CF, "        for table in &self.0 {\n            if let Some(v) = table.get(key.as_ref()) {\n                return Some(v);\n            }\n        }\n        None", "        let mut found = None;\n        for table in &self.0 {\n            if let Some(v) = table.get(key.as_ref()) {\n                found = Some(v);\n            }\n        }\n        found", 1),
 ("set-getfind", "P19", CF, "        for table in &self.0 {\n            if let Some(v) = table.get(key.as_ref()) {\n                return Some(v);\n            }\n        }\n        None", "        let key = key.as_ref();\n        self.0.iter().find_map(|table| table.get(key))", 0),
 ("set-diffeq", "P19", CF, "            if other.get(k) != Some(v) {", "            if other.get(k).is_none() || (v.is_boolean() && other.get(k) != Some(v)) {", 1),
 ("set-diffinv", "P19", CF, "            if other.get(k) != Some(v) {\n                let out: &mut Table = out.get_or_insert(Table::new());\n                out.insert(k.to_owned(), v.to_owned());\n            }", "            if other.get(k) == Some(v) {\n                continue;\n            }\n            let out: &mut Table = out.get_or_insert(Table::new());\n            out.insert(k.to_owned(), v.to_owned());", 0),
 ("set-changesnone", "P19", CF, "            Some(other) => self.source.diff(&other.source),", "            Some(other) => other.source.diff(&self.source),", 1),
 ("set-updkeep", "P19", CF, "        self.buffer_configs.insert(id, new_config);\n        changes", "        if changes.is_some() {\n            self.buffer_configs.insert(id, new_config);\n        }\n        changes", 1),
 ("set-updall", "P19", CF, "            .flat_map(|k| self.update_buffer_config(k).map(|c| (k, c)))", "            .filter_map(|k| self.update_buffer_config(k).map(|c| (k, c)))", 0),
 ("set-updallfor", "P19", CF, "        self.buffer_configs\n            .keys()\n            .cloned()\n            .collect::<Vec<_>>()\n            .into_iter()\n            .flat_map(|k| self.update_buffer_config(k).map(|c| (k, c)))\n            .collect::<Vec<_>>()", "        let ids = self.buffer_configs.keys().cloned().collect::<Vec<_>>();\n        let mut changes = Vec::new();\n        for id in ids {\n            if let Some(table) = self.update_buffer_config(id) {\n                changes.push((id, table));\n            }\n        }\n        changes", 0),
 ("set-updalldrop", "P19", CF, "        self.buffer_configs\n            .keys()\n            .cloned()\n            .collect::<Vec<_>>()\n            .into_iter()\n            .flat_map(|k| self.update_buffer_config(k).map(|c| (k, c)))\n            .collect::<Vec<_>>()", "        let ids = self.buffer_configs.keys().cloned().collect::<Vec<_>>();\n        let mut changes: Vec<(BufferId, Table)> = Vec::new();\n        for id in ids {\n            if let Some(table) = self.update_buffer_config(id) {\n                if table.len() < 8 {\n                    changes.push((id, table));\n                }\n            }\n        }\n        changes", 1),
 ("set-mergecache", "P19", CF, "            self.user.as_ref().map(|arc| arc.as_ref().clone()).unwrap_or_default();", "            self.base.as_ref().map(|arc| arc.as_ref().clone()).unwrap_or_default();", 1),
 ("set-mergenull", "P19", CF, "            if v.is_null() {\n                new_user.remove(&k);\n            } else {", "            if v.is_null() {\n                new_user.insert(k, v);\n            } else {", 1),
 ("set-rebuildor", "P19", CF, "                Arc::make_mut(&mut cache).insert(k.to_owned(), v.clone());", "                Arc::make_mut(&mut cache).entry(k.to_owned()).or_insert(v.clone());", 1),
 ("set-rebuildset", "P19", CF, "        self.user = Some(Arc::new(user));\n        self.rebuild();", "        let user = Arc::new(user);\n        self.user = Some(user);\n        self.rebuild();", 0),
 ("set-norebuild", "P19", CF, "        self.user = Some(Arc::new(user));\n        self.rebuild();", "        let had = self.user.is_some();\n        self.user = Some(Arc::new(user));\n        if had || self.base.is_some() {\n            self.rebuild();\n        }", 1),
 ("set-resolve", "P19", CF, "        self.user.as_ref().unwrap_or(&self.detected).clone()", "        match self.user {\n            Some(ref chosen) => chosen.clone(),\n            None => self.detected.clone(),\n        }", 0),
 ("set-detected", "P19", CF, "        let before = self.resolve();\n        self.detected = detected;\n        before != self.resolve()", "        let changed = self.detected != detected;\n        if self.user.is_none() {\n            self.detected = detected;\n        }\n        changed", 1),
 ("set-langnoupd", "P19", CF, "            .map(|tag| tag.set_user(Some(new_lang)))\n            .expect(\"buffer must exist\");\n        if has_changed {", "            .map(|tag| tag.set_user(Some(new_lang)))\n            .expect(\"buffer must exist\");\n        if has_changed && self.configs.len() > 1 {", 1),
 ("set-corealert", "P19", TB, "            Err(e) => self.peer.alert(format!(\"{}\", &e)),\n            Ok(changes) => self.handle_config_changes(changes),", "            Err(e) => error!(\"{}\", &e),\n            Ok(changes) => self.handle_config_changes(changes),", 1),
 ("set-corelet", "P19", TB, "        match self.config_manager.set_user_config(domain, table) {\n            Err(e) => self.peer.alert(format!(\"{}\", &e)),\n            Ok(changes) => self.handle_config_changes(changes),\n        }", "        let outcome = self.config_manager.set_user_config(domain, table);\n        if let Err(e) = outcome {\n            self.peer.alert(format!(\"{}\", e));\n            return;\n        }\n        self.handle_config_changes(outcome.unwrap());", 0),
 ("set-savecfg", "P19", TB, "        // update the config _after_ sending save related events\n        if let Some(changes) = changes {", "        // update the config _after_ sending save related events\n        if let Some(changes) = changes.filter(|c| !c.is_empty() && c.len() < 3) {", 1),
 ("set-modify", "P19", TB, "        let new_config = self.config_manager.table_for_update(domain.clone(), changes);\n        self.set_config(domain, new_config);", "        if changes.values().any(|v| v.is_null()) {\n            let new_config = self.config_manager.table_for_update(domain.clone(), changes);\n            self.set_config(domain, new_config);\n        } else {\n            self.set_config(domain, changes);\n        }", 1),
 ("set-remove", "P19", TB, "            self.set_config(domain, Table::default());", "            self.set_config(domain, Table::new());", 0),
 ("set-removeno", "P19", TB, "        if let Some(domain) = self.config_manager.domain_for_path(path) {\n            self.set_config(domain, Table::default());\n        }", "        if let Some(domain) = self.config_manager.domain_for_path(path) {\n            if let Err(e) = self.config_manager.set_user_config(domain, Table::default()) {\n                self.peer.alert(e.to_string());\n            }\n        }", 1),
 ("set-sysuser", "P19", TB, "            .set_user_config(ConfigDomain::SysOverride(buffer_id), config_delta)", "            .set_user_config(ConfigDomain::UserOverride(buffer_id), config_delta)", 1),
 ("set-changesmap", "P19", TB, "            self.make_context(view_id).unwrap().config_changed(&table)\n        }\n    }\n}", "            if let Some(mut ctx) = self.make_context(view_id) {\n                if !table.contains_key(\"font_face\") {\n                    ctx.config_changed(&table)\n                }\n            }\n        }\n    }\n}", 1),
 ("set-fsrename", "P19", TB, "                self.remove_config_at_path(&event.paths[0]);\n                self.load_file_based_config(&event.paths[1]);\n", "                self.load_file_based_config(&event.paths[1]);\n", 1),
 ("set-diffmatch", "P19", CF, "            if other.get(k) != Some(v) {\n                let out: &mut Table = out.get_or_insert(Table::new());\n                out.insert(k.to_owned(), v.to_owned());\n            }", "            match other.get(k) {\n                Some(old) if old == v => (),\n                _ => {\n                    let out: &mut Table = out.get_or_insert(Table::new());\n                    out.insert(k.to_owned(), v.to_owned());\n                }\n            }", 0),
 ("set-diffisnt", "P19", CF, "            if other.get(k) != Some(v) {", "            let same = other.get(k).map_or(false, |old| old == v);\n            if !same {", 0),
]
WA = "core-lib/src/watcher.rs"
WITER = """                watchees
                    .iter()
                    .filter(|w| w.wants_event(&event))
                    .map(|w| w.token)
                    .for_each(|t| events.push_back((t, event.clone())));
"""
WPOS = "        let idx = state.watchees.iter().position(|w| w.token == token && w.path == path);\n"
WMATCH = """            match token {
                OPEN_FILE_EVENT_TOKEN => self.handle_open_file_fs_event(event),
                CONFIG_EVENT_TOKEN => self.handle_config_fs_event(event),
                THEME_FILE_EVENT_TOKEN => self.handle_themes_fs_event(event),
                PLUGIN_EVENT_TOKEN => self.handle_plugin_fs_event(event),
                _ => warn!("unexpected fs event token {:?}", token),
            }
"""
WANY = "        if !state.watchees.iter().any(|w2| w.path == w2.path) {\n"
M += [
 ("watch-loopend", "P21", WA, "                        continue;\n                    }\n                };", "                        break;\n                    }\n                };", 1),
 ("watch-early", "P21", WA, "                let mut state = state_clone.lock().unwrap();\n                let WatcherState", "                peer.notify();\n                let mut state = state_clone.lock().unwrap();\n                let WatcherState", 1),
 ("watch-nowake", "P21", WA, "                peer.notify();\n", "                if !events.is_empty() && watchees.len() > 1 {\n                    peer.notify();\n                }\n", 1),
 ("watch-first", "P21", WA, WITER, WITER.replace(".for_each(|t| events.push_back((t, event.clone())))", ".take(1).for_each(|t| events.push_back((t, event.clone())))"), 1),
 ("watch-dedup", "P21", WA, WITER, "                for w in watchees.iter().filter(|w| w.wants_event(&event)) {\n                    if events.iter().any(|e| e.0 == w.token) {\n                        continue;\n                    }\n                    events.push_back((w.token, event.clone()));\n                }\n", 1),
 ("watch-for", "P21", WA, WITER, "                for w in watchees.iter() {\n                    if w.wants_event(&event) {\n                        events.push_back((w.token, event.clone()));\n                    }\n                }\n", 0),
 ("watch-extend", "P21", WA, WITER, "                let wanted = watchees.iter().filter(|w| w.wants_event(&event));\n                for w in wanted {\n                    let item = (w.token, event.clone());\n                    events.push_back(item);\n                }\n", 0),
 ("watch-token", "P21", WA, WPOS, WPOS.replace("w.token == token && ", ""), 1),
 ("watch-swap", "P21", WA, WPOS, WPOS.replace("w.token == token && w.path == path", "w.path == path && w.token == token"), 0),
 ("watch-unany", "P21", WA, "            if !state.watchees.iter().any(|w| w.path == removed.path) {\n", "            if state.watchees.iter().any(|w| w.path == removed.path) {\n", 1),
 ("watch-unall", "P21", WA, "            if !state.watchees.iter().any(|w| w.path == removed.path) {\n", "            if state.watchees.iter().all(|w| w.path != removed.path) {\n", 0),
 ("watch-again", "P21", WA, "                for (path, mode) in to_add {\n", "                for (path, mode) in to_add.into_iter().skip(1) {\n", 1),
 ("watch-always", "P21", WA, WANY, "        if state.watchees.iter().any(|w2| w.path == w2.path) {\n", 1),
 ("watch-known", "P21", WA, WANY, "        let known = state.watchees.iter().any(|w2| w.path == w2.path);\n        if !known {\n", 0),
 ("watch-noadd", "P21", WA, "                warn!(\"watching error {:?}\", e);\n            }\n        }\n\n        state.watchees.push(w);", "                warn!(\"watching error {:?}\", e);\n                return;\n            }\n        }\n\n        state.watchees.push(w);", 1),
 ("watch-keep", "P21", WA, "        mem::replace(events, VecDeque::new())", "        events.clone()", 1),
 ("watch-take", "P21", WA, "        mem::replace(events, VecDeque::new())", "        mem::take(events)", 0),
 ("watch-mixed", "P21", TB, "                THEME_FILE_EVENT_TOKEN => self.handle_themes_fs_event(event),", "                THEME_FILE_EVENT_TOKEN => self.handle_config_fs_event(event),", 1),
 ("watch-clash", "P21", TB, "const THEME_FILE_EVENT_TOKEN: WatchToken = WatchToken(3);", "const THEME_FILE_EVENT_TOKEN: WatchToken = WatchToken(4);", 1),
 ("watch-numbers", "P21", TB, "const THEME_FILE_EVENT_TOKEN: WatchToken = WatchToken(3);", "const THEME_FILE_EVENT_TOKEN: WatchToken = WatchToken(30);", 0),
 ("watch-ifs", "P21", TB, WMATCH, """            if token == OPEN_FILE_EVENT_TOKEN {
                self.handle_open_file_fs_event(event)
            } else if token == CONFIG_EVENT_TOKEN {
                self.handle_config_fs_event(event)
            } else if token == THEME_FILE_EVENT_TOKEN {
                self.handle_themes_fs_event(event)
            } else if token == PLUGIN_EVENT_TOKEN {
                self.handle_plugin_fs_event(event)
            } else {
                warn!("unexpected fs event token {:?}", token)
            }
""", 0),
 ("watch-idle", "P21", WA, "        self.schedule_idle(crate::tabs::WATCH_IDLE_TOKEN);", "        self.schedule_idle(crate::tabs::WATCH_IDLE_TOKEN - 1);", 1),
 ("watch-drain", "P21", TB, "        let mut events = self.file_manager.watcher().take_events();\n\n        for (token, event) in events.drain(..) {", "        let events = self.file_manager.watcher().take_events();\n\n        for (token, event) in events {", 0),
 ("watch-or", "P21", WA, "self.applies_to_path(&event.paths[0]) || self.applies_to_path(&event.paths[1])", "self.applies_to_path(&event.paths[0])", 1),
 ("watch-remove", "P21", WA, "            | EventKind::Remove(RemoveKind::Any)\n", "", 1),
 ("watch-anypath", "P21", WA, "self.applies_to_path(&event.paths[0]) || self.applies_to_path(&event.paths[1])", "event.paths.iter().any(|p| self.applies_to_path(p))", 0),
 ("watch-filter", "P21", WA, "            general_case && filter(path)\n", "            general_case || filter(path)\n", 1),
 ("watch-child", "P21", WA, "(self.recursive || self.path == path) || path.parent() == Some(&self.path)", "self.recursive || self.path == path", 1),
 ("watch-applies", "P21", WA, "        let general_case = if path.starts_with(&self.path) {\n            (self.recursive || self.path == path) || path.parent() == Some(&self.path)\n        } else {\n            false\n        };\n\n        if let Some(ref filter) = self.filter {\n            general_case && filter(path)\n        } else {\n            general_case\n        }\n", "        if !path.starts_with(&self.path) {\n            return false;\n        }\n        let near = self.path == path || path.parent() == Some(self.path.as_path());\n        (self.recursive || near) && self.filter.as_ref().map(|f| f(path)).unwrap_or(true)\n", 0),
 ("watch-cfgremove", "P21", TB, "                self.remove_config_at_path(&event.paths[0])\n", "                self.load_file_based_config(&event.paths[0])\n", 1),
 ("watch-themerename", "P21", TB, "                self.remove_theme(old);\n                self.load_theme_file(new);\n", "                self.load_theme_file(new);\n", 1),
]
EG = "rope/src/engine.rs"
TRC = "trace/src/lib.rs"
EDIT = """        self.rev_id_counter += 1;
        self.revs.push(new_rev);
        self.text = new_text;
        self.tombstones = new_tombstones;
        self.deletes_from_union = new_deletes_from_union;
        Ok(())
"""
UNDO = """        self.text = new_text;
        self.tombstones = new_tombstones;
        self.deletes_from_union = new_deletes_from_union;
        self.undone_groups = groups;
        self.revs.push(new_rev);
        self.rev_id_counter += 1;
"""
M += [
 ("hist-editcount", "P24", EG, EDIT, EDIT.replace("        self.rev_id_counter += 1;\n", "        if undo_group > self.max_undo_group_id() {\n            self.rev_id_counter += 1;\n        }\n"), 1),
 ("hist-edittomb", "P24", EG, EDIT, EDIT.replace("        self.tombstones = new_tombstones;\n", "        if !new_tombstones.is_empty() {\n            self.tombstones = new_tombstones;\n        }\n"), 1),
 ("hist-editorder", "P24", EG, EDIT, """        self.text = new_text;
        self.tombstones = new_tombstones;
        self.deletes_from_union = new_deletes_from_union;
        self.revs.push(new_rev);
        self.rev_id_counter += 1;
        Ok(())
""", 0),
 ("hist-commit", "P24", EG, EDIT, "        self.commit(new_rev, new_text, new_tombstones, new_deletes_from_union);\n        Ok(())\n    }\n\n    fn commit(&mut self, rev: Revision, text: Rope, tombstones: Rope, dels: Subset) {\n        self.revs.push(rev);\n        self.rev_id_counter += 1;\n        self.deletes_from_union = dels;\n        self.tombstones = tombstones;\n        self.text = text;\n", 0),
 ("hist-len", "P24", EG, "        if ins_delta.base_len != deletes_at_rev.len_after_delete() {", "        if ins_delta.base_len > deletes_at_rev.len_after_delete() {", 1),
 ("hist-lenlet", "P24", EG, "        if ins_delta.base_len != deletes_at_rev.len_after_delete() {", "        let fits = ins_delta.base_len == deletes_at_rev.len_after_delete();\n        if !fits {", 0),
 ("hist-prio", "P24", EG, "                    priority: new_priority,\n                    undo_group,\n                    inserts: new_inserts,", "                    priority: new_priority,\n                    undo_group: std::cmp::max(undo_group, head_rev.max_undo_so_far),\n                    inserts: new_inserts,", 1),
 ("hist-missing", "P24", EG, "        let ix = self.find_rev_token(base_rev).ok_or(Error::MissingRevision(base_rev))?;\n\n        let (ins_delta, deletes) = delta.factor();", "        let ix = self.find_rev_token(base_rev).unwrap_or(self.revs.len() - 1);\n\n        let (ins_delta, deletes) = delta.factor();", 1),
 ("hist-missmatch", "P24", EG, "        let ix = self.find_rev_token(base_rev).ok_or(Error::MissingRevision(base_rev))?;\n\n        let (ins_delta, deletes) = delta.factor();", "        let ix = match self.find_rev_token(base_rev) {\n            Some(ix) => ix,\n            None => return Err(Error::MissingRevision(base_rev)),\n        };\n\n        let (ins_delta, deletes) = delta.factor();", 0),
 ("hist-undogroups", "P24", EG, UNDO, UNDO.replace("        self.undone_groups = groups;\n", "        self.undone_groups.extend(groups);\n"), 1),
 ("hist-undocount", "P24", EG, UNDO, UNDO.replace("        self.rev_id_counter += 1;\n", ""), 1),
 ("hist-undodels", "P24", EG, UNDO, UNDO.replace("        self.deletes_from_union = new_deletes_from_union;\n", "        if new_rev.max_undo_so_far > 0 {\n            self.deletes_from_union = new_deletes_from_union;\n        }\n"), 1),
 ("hist-undoargs", "P24", EG, "            &self.text,\n            &self.tombstones,\n            &self.deletes_from_union,\n            &new_deletes_from_union,\n        );\n\n        self.text = new_text;", "            &self.text,\n            &self.tombstones,\n            &new_deletes_from_union,\n            &new_deletes_from_union,\n        );\n\n        self.text = new_text;", 1),
 ("hist-merge", "P24", EG, "        self.tombstones = tombstones;\n        self.deletes_from_union = deletes_from_union;\n        self.revs.append(&mut new_revs);", "        self.tombstones = tombstones;\n        self.deletes_from_union = deletes_from_union;\n        new_revs.append(&mut self.revs);\n        self.revs = new_revs;", 1),
 ("hist-mergeext", "P24", EG, "        self.revs.append(&mut new_revs);", "        self.revs.extend(new_revs.drain(..));", 0),
 ("hist-rebaseid", "P24", EG, "            edit: Contents::Edit { priority, undo_group, deletes, inserts: inserted },", "            edit: Contents::Edit { priority, undo_group: max_undo_so_far, deletes, inserts: inserted },", 1),
 ("hist-rebaseskip", "P24", EG, "        max_undo_so_far = std::cmp::max(max_undo_so_far, undo_group);\n", "        max_undo_so_far = std::cmp::max(max_undo_so_far, undo_group);\n        if inserted.is_empty() && deletes.is_empty() {\n            continue;\n        }\n", 1),
 ("hist-gclast", "P24", EG, "                    if retain_revs.contains(&rev.rev_id) || !gc_groups.contains(&undo_group) {", "                    if retain_revs.contains(&rev.rev_id) && !gc_groups.contains(&undo_group) {", 1),
 ("hist-gctomb", "P24", EG, "            self.deletes_from_union = self.deletes_from_union.transform_shrink(&gc_dels);", "            if !self.undone_groups.is_empty() {\n                self.deletes_from_union = self.deletes_from_union.transform_shrink(&gc_dels);\n            }", 1),
 ("hist-gcrev", "P24", EG, "        self.revs.reverse();\n", "        if self.revs.len() > 2 {\n            self.revs.reverse();\n        }\n", 1),
 ("hist-gctake", "P24", EG, "std::mem::replace(&mut self.revs, Vec::new())", "std::mem::take(&mut self.revs)", 0),
 ("hist-gckeep", "P24", EG, "                    if retain_revs.contains(&rev.rev_id) || !gc_groups.contains(&undo_group) {", "                    let keep = retain_revs.contains(&rev.rev_id) || !gc_groups.contains(&undo_group);\n                    if keep {", 0),
 ("trace-always", "P28", TRC, "        if self.is_enabled() {\n            self.record(Sample::new_instant(name, categories, Some(payload.into())));\n        }", "        self.record(Sample::new_instant(name, categories, Some(payload.into())));", 1),
 ("trace-early", "P28", TRC, "        if self.is_enabled() {\n            self.record(Sample::new_instant(name, categories, Some(payload.into())));\n        }", "        if !self.is_enabled() {\n            return;\n        }\n        let sample = Sample::new_instant(name, categories, Some(payload.into()));\n        self.record(sample);", 0),
 ("trace-end", "P28", TRC, "            sample.event_type = SampleEventType::DurationEnd;\n            trace.record(sample);", "            sample.event_type = SampleEventType::DurationEnd;\n            if trace.is_enabled() {\n                trace.record(sample);\n            }", 1),
 ("trace-endkind", "P28", TRC, "            sample.event_type = SampleEventType::DurationEnd;\n            trace.record(sample);", "            trace.record(sample);", 1),
 ("trace-endlet", "P28", TRC, "        if let Some(ref mut trace) = self.trace {\n            let mut sample = self.sample.take().unwrap();\n            sample.timestamp_us = ns_to_us(time::precise_time_ns());\n            sample.event_type = SampleEventType::DurationEnd;\n            trace.record(sample);\n        }", "        let trace = match self.trace.take() {\n            Some(t) => t,\n            None => return,\n        };\n        let mut sample = self.sample.take().unwrap();\n        sample.event_type = SampleEventType::DurationEnd;\n        sample.timestamp_us = ns_to_us(time::precise_time_ns());\n        trace.record(sample);", 0),
 ("trace-closure", "P28", TRC, "        let result = closure();\n        let end = time::precise_time_ns();\n        if self.is_enabled() {\n            self.record(Sample::new_duration(name, categories, None, start, end - start));\n        }\n        result", "        let result = closure();\n        let end = time::precise_time_ns();\n        self.record(Sample::new_duration(name, categories, None, start, end - start));\n        result", 1),
 ("trace-payload", "P28", TRC, "            SampleGuard::new(&self, name, categories, Some(payload.into()))", "            let _ = payload;\n            SampleGuard::new(&self, name, categories, None)", 1),
 ("trace-save", "P28", TRC, "        if path.exists() {\n            return Err", "        if path.is_dir() {\n            return Err", 1),
 ("trace-saveall", "P28", TRC, "if sort { self.samples_cloned_sorted() } else { self.samples_cloned_unsorted() }", "if sort { samples_cloned_sorted() } else { samples_cloned_unsorted() }", 1),
 ("trace-global", "P28", TRC, "    TRACE.closure_payload(name, categories, closure, payload)", "    let _ = payload.into();\n    TRACE.closure(name, categories, closure)", 1),
 ("trace-disable", "P28", TRC, "        all_samples.reset_limit(0);\n        self.enabled.store(false, AtomicOrdering::Relaxed);", "        all_samples.reset_limit(0);", 1),

 # refactorings and bugs of the second round
 ("w2-helper", "P21", WA, WITER + "\n                peer.notify();\n            }\n        });\n\n        FileWatcher { inner, state }\n    }\n", "                Self::queue_for_all(watchees, events, &event);\n\n                peer.notify();\n            }\n        });\n\n        FileWatcher { inner, state }\n    }\n\n    fn queue_for_all(watchees: &[Watchee], events: &mut EventQueue, event: &Event) {\n        for w in watchees.iter() {\n            if !w.wants_event(event) {\n                continue;\n            }\n            events.push_back((w.token, event.clone()));\n        }\n    }\n", 0),
 ("w2-loop", "P21", WA, "            while let Ok(result) = rx_event.recv() {\n                let event = match result {", "            loop {\n                let result = match rx_event.recv() {\n                    Ok(r) => r,\n                    Err(_) => break,\n                };\n                let event = match result {", 0),
 ("w2-recviter", "P21", WA, "            while let Ok(result) = rx_event.recv() {\n", "            for result in rx_event.iter() {\n", 0),
 ("w2-ifok", "P21", WA, "                let event = match result {\n                    Ok(event) => event,\n                    Err(e) => {\n                        warn!(\"error watching files: {:?}\", e);\n                        continue;\n                    }\n                };\n", "                if let Err(ref e) = result {\n                    warn!(\"error watching files: {:?}\", e);\n                    continue;\n                }\n                let event = result.unwrap();\n", 0),
 ("w2-unguard", "P21", WA, "        let idx = state.watchees.iter().position(|w| w.token == token && w.path == path);\n\n        if let Some(idx) = idx {\n", "        let idx = match state.watchees.iter().position(|w| w.token == token && w.path == path) {\n            Some(idx) => idx,\n            None => return,\n        };\n        {\n", 0),
 ("w2-unswap", "P21", WA, "            let removed = state.watchees.remove(idx);\n            if !state", "            let removed = state.watchees.swap_remove(idx);\n            if !state", 0),
 ("w2-unhelper", "P21", WA, """                let to_add = state
                    .watchees
                    .iter()
                    .filter(|w| w.path.starts_with(&removed.path))
                    .map(|w| (w.path.to_owned(), mode_from_bool(w.recursive)))
                    .collect::<Vec<_>>();

                for (path, mode) in to_add {
                    if let Err(e) = self.inner.watch(&path, mode) {
                        warn!("watching error {:?}", e);
                    }
                }
""", """                for w in state.watchees.iter().filter(|w| w.path.starts_with(&removed.path)) {
                    if let Err(e) = self.inner.watch(&w.path, mode_from_bool(w.recursive)) {
                        warn!("watching error {:?}", e);
                    }
                }
""", 0),
 ("w2-uncond", "P21", WA, """                let to_add = state
                    .watchees
                    .iter()
                    .filter(|w| w.path.starts_with(&removed.path))
                    .map(|w| (w.path.to_owned(), mode_from_bool(w.recursive)))
                    .collect::<Vec<_>>();

                for (path, mode) in to_add {
                    if let Err(e) = self.inner.watch(&path, mode) {
                        warn!("watching error {:?}", e);
                    }
                }
""", """                for w in &state.watchees {
                    if !w.path.starts_with(&removed.path) {
                        continue;
                    }
                    if let Err(e) = self.inner.watch(&w.path, mode_from_bool(w.recursive)) {
                        warn!("watching error {:?}", e);
                    }
                }
""", 0),
 ("w2-takedirect", "P21", WA, "        let WatcherState { ref mut events, .. } = *state;\n        mem::replace(events, VecDeque::new())", "        mem::replace(&mut state.events, VecDeque::new())", 0),
 ("w2-takedrain", "P21", WA, "        let WatcherState { ref mut events, .. } = *state;\n        mem::replace(events, VecDeque::new())", "        state.events.drain(..).collect()", 0),
 ("w2-filtermap", "P21", WA, "        if let Some(ref filter) = self.filter {\n            general_case && filter(path)\n        } else {\n            general_case\n        }\n", "        general_case && self.filter.as_ref().map_or(true, |filter| filter(path))\n", 0),
 ("w2-filtermatch", "P21", WA, "        if let Some(ref filter) = self.filter {\n            general_case && filter(path)\n        } else {\n            general_case\n        }\n", "        match self.filter {\n            Some(ref filter) if general_case => filter(path),\n            _ => general_case,\n        }\n", 0),
 ("w2-pop", "P21", TB, "        for (token, event) in events.drain(..) {\n", "        while let Some((token, event)) = events.pop_front() {\n", 0),
 ("w2-taken", "P21", TB, "        for (token, event) in events.drain(..) {\n", "        for (token, event) in events.drain(1..) {\n", 1),
 ("w2-cfgvar", "P21", TB, "            EventKind::Remove(RemoveKind::Any) if !event.paths[0].exists() => {\n                self.remove_config_at_path(&event.paths[0])\n            }\n", "            EventKind::Remove(RemoveKind::Any) => {\n                let path = &event.paths[0];\n                if !path.exists() {\n                    self.remove_config_at_path(path)\n                }\n            }\n", 0),
 ("w2-cfgtwo", "P21", TB, "                self.remove_config_at_path(&event.paths[0]);\n                self.load_file_based_config(&event.paths[1]);\n", "                self.load_file_based_config(&event.paths[0]);\n                self.load_file_based_config(&event.paths[1]);\n", 1),
 ("w2-cfgorder", "P21", TB, "                self.remove_config_at_path(&event.paths[0]);\n                self.load_file_based_config(&event.paths[1]);\n", "                self.remove_config_at_path(&event.paths[1]);\n                self.load_file_based_config(&event.paths[0]);\n", 1),
 ("w2-rename", "P21", WA, "            EventKind::Modify(ModifyKind::Name(RenameMode::Both)) => {\n                if event.paths.len() == 2 {", "            EventKind::Modify(ModifyKind::Name(RenameMode::Both)) => {\n                if event.paths.len() == 2 && self.recursive {", 1),
 ("w2-unrec", "P21", WA, "            if removed.recursive {\n", "            if removed.recursive && state.watchees.len() > 1 {\n", 1),
 ("w2-below", "P21", WA, "                    .filter(|w| w.path.starts_with(&removed.path))\n", "                    .filter(|w| w.path.parent() == Some(&removed.path))\n", 1),
 ("h2-undohelp", "P24", EG, "        let (new_text, new_tombstones) = shuffle(\n            &self.text,\n            &self.tombstones,\n            &self.deletes_from_union,\n            &new_deletes_from_union,\n        );\n\n        self.text = new_text;\n        self.tombstones = new_tombstones;\n        self.deletes_from_union = new_deletes_from_union;\n        self.undone_groups = groups;\n        self.revs.push(new_rev);\n        self.rev_id_counter += 1;\n    }\n", "        self.move_deletes(new_deletes_from_union);\n        self.undone_groups = groups;\n        self.revs.push(new_rev);\n        self.rev_id_counter += 1;\n    }\n\n    fn move_deletes(&mut self, new_deletes: Subset) {\n        let (text, tombstones) =\n            shuffle(&self.text, &self.tombstones, &self.deletes_from_union, &new_deletes);\n        self.text = text;\n        self.tombstones = tombstones;\n        self.deletes_from_union = new_deletes;\n    }\n", 0),
 ("h2-rebasehelp", "P24", EG, "        max_undo_so_far = std::cmp::max(max_undo_so_far, undo_group);\n        out.push(Revision {\n            rev_id,\n            max_undo_so_far,\n            edit: Contents::Edit { priority, undo_group, deletes, inserts: inserted },\n        });\n", "        max_undo_so_far = std::cmp::max(max_undo_so_far, undo_group);\n        let edit = Contents::Edit { priority, undo_group, deletes, inserts: inserted };\n        let rebased = Revision { rev_id, max_undo_so_far, edit };\n        out.push(rebased);\n", 0),
 ("h2-rebasefields", "P24", EG, "        let DeltaOp { rev_id, priority, undo_group, mut inserts, mut deletes } = op;\n", "        let rev_id = op.rev_id;\n        let priority = op.priority;\n        let undo_group = op.undo_group;\n        let mut inserts = op.inserts;\n        let mut deletes = op.deletes;\n", 0),
 ("h2-gcsplit", "P24", EG, [('        if !gc_dels.is_empty() {\n            let not_in_tombstones = self.deletes_from_union.complement();\n            let dels_from_tombstones = gc_dels.transform_shrink(&not_in_tombstones);\n            self.tombstones = dels_from_tombstones.delete_from(&self.tombstones);\n            self.deletes_from_union = self.deletes_from_union.transform_shrink(&gc_dels);\n        }\n        let old_revs = std::mem::replace(&mut self.revs, Vec::new());\n', '        if !gc_dels.is_empty() {\n            self.forget_deleted(&gc_dels);\n        }\n        let mut old_revs = Vec::new();\n        std::mem::swap(&mut self.revs, &mut old_revs);\n'), ('        self.revs.reverse();\n    }\n', '        self.revs.reverse();\n    }\n\n    fn forget_deleted(&mut self, dels: &Subset) {\n        let not_in_tombstones = self.deletes_from_union.complement();\n        let from_tombstones = dels.transform_shrink(&not_in_tombstones);\n        self.tombstones = from_tombstones.delete_from(&self.tombstones);\n        self.deletes_from_union = self.deletes_from_union.transform_shrink(dels);\n    }\n')], None, 0),
 ("h2-gcbuild", "P24", EG, "        self.revs.reverse();\n    }\n", "        let mut revs = std::mem::take(&mut self.revs);\n        revs.reverse();\n        self.revs = revs;\n    }\n", 0),
 ("h2-mergelet", "P24", EG, "            let max_undo = self.max_undo_group_id();\n            rebase(\n                expand_by,\n                b_deltas,\n                self.text.clone(),\n                self.tombstones.clone(),\n                self.deletes_from_union.clone(),\n                max_undo,\n            )\n", "            let (text, tombstones) = (self.text.clone(), self.tombstones.clone());\n            let deletes = self.deletes_from_union.clone();\n            rebase(expand_by, b_deltas, text, tombstones, deletes, self.max_undo_group_id())\n", 0),
 ("h2-mergedups", "P24", EG, "        self.revs.append(&mut new_revs);", "        new_revs.retain(|r| r.max_undo_so_far > 0);\n        self.revs.append(&mut new_revs);", 1),
 ("h2-mergeother", "P24", EG, "                self.tombstones.clone(),\n                self.deletes_from_union.clone(),\n                max_undo,\n", "                other.tombstones.clone(),\n                self.deletes_from_union.clone(),\n                max_undo,\n", 1),
 ("h2-fulltok", "P24", EG, "        if ins_delta.base_len != deletes_at_rev.len_after_delete() {\n", "        if ins_delta.base_len > deletes_at_rev.len_after_delete() {\n", 1),
 ("t2-helper", "P28", TRC, "        if self.is_enabled() {\n            self.record(Sample::new_instant(name, categories, None));\n        }\n    }\n", "        self.record_when_on(|| Sample::new_instant(name, categories, None));\n    }\n\n    fn record_when_on<F: FnOnce() -> Sample>(&self, make: F) {\n        if self.is_enabled() {\n            self.record(make());\n        }\n    }\n", 0),
 ("t2-blockswap", "P28", TRC, "        if !self.is_enabled() {\n            SampleGuard::new_disabled()\n        } else {\n            SampleGuard::new(&self, name, categories, None)\n        }", "        if self.is_enabled() {\n            return SampleGuard::new(&self, name, categories, None);\n        }\n        SampleGuard::new_disabled()", 0),
 ("t2-guardclone", "P28", TRC, "        let guard = Self {\n            sample: Some(Sample::new_duration_marker(\n                name,\n                categories,\n                payload,\n                SampleEventType::DurationBegin,\n            )),\n            trace: Some(&trace),\n        };\n        trace.record(guard.sample.as_ref().unwrap().clone());\n        guard\n", "        let begin =\n            Sample::new_duration_marker(name, categories, payload, SampleEventType::DurationBegin);\n        trace.record(begin.clone());\n        SampleGuard { sample: Some(begin), trace: Some(trace) }\n", 0),
 ("t2-savematch", "P28", TRC, "        let traces =\n            if sort { self.samples_cloned_sorted() } else { self.samples_cloned_unsorted() };\n        let path: &Path = path.as_ref();\n\n        if path.exists() {\n            return Err(chrome_trace_dump::Error::already_exists());\n        }\n", "        let path = path.as_ref();\n        if path.exists() {\n            return Err(chrome_trace_dump::Error::already_exists());\n        }\n        let traces = match sort {\n            true => self.samples_cloned_sorted(),\n            false => self.samples_cloned_unsorted(),\n        };\n", 0),
 ("t2-savenew", "P28", TRC, "        if path.exists() {\n            return Err(chrome_trace_dump::Error::already_exists());\n        }\n\n        let mut trace_file = fs::File::create(&path)?;\n", "        let mut trace_file = fs::OpenOptions::new().write(true).create_new(true).open(&path)?;\n", 0),
 ("t2-samplesskip", "P28", TRC, "        as_vec.extend(all_samples.iter().cloned());\n", "        as_vec.extend(all_samples.iter().skip(1).cloned());\n", 1),
 ("t2-samplesfor", "P28", TRC, "        as_vec.extend(all_samples.iter().cloned());\n", "        for sample in all_samples.iter() {\n            as_vec.push(sample.clone());\n        }\n", 0),
 ("t2-dedup", "P28", TRC, "        samples.sort_unstable();\n        samples\n", "        samples.sort_unstable();\n        samples.dedup();\n        samples\n", 1),
 ("t2-enablekeep", "P28", TRC, "        all_samples.reset_limit(config.max_samples());\n        self.enabled.store(true, AtomicOrdering::Relaxed);", "        all_samples.reset_limit(config.max_samples());\n        self.enabled.fetch_or(all_samples.is_empty(), AtomicOrdering::Relaxed);", 1),
 ("t2-guarddrop", "P28", TRC, "        if let Some(ref mut trace) = self.trace {\n            let mut sample = self.sample.take().unwrap();\n", "        if let (Some(trace), Some(mut sample)) = (self.trace, self.sample.take()) {\n", 0),
 ("t2-savecreate", "P28", TRC, "        if path.exists() {\n            return Err(chrome_trace_dump::Error::already_exists());\n        }\n\n        let mut trace_file = fs::File::create(&path)?;\n", "        let mut trace_file = fs::OpenOptions::new().write(true).create(true).open(&path)?;\n", 1),
 ("t2-full", "P28", "trace/src/fixed_lifo_deque.rs", "    pub fn push_back(&mut self, value: T) {\n", "    pub fn push_back(&mut self, value: T) {\n        if self.storage.len() + 1 > self.limit {\n            return;\n        }\n", 1),
 ("t2-noroom", "P28", "trace/src/fixed_lifo_deque.rs", "        self.drop_excess_for_inserting(1);\n        self.storage.push_back(value);\n        // For when limit == 0\n        self.drop_excess_for_inserting(0);", "        if self.limit == 0 {\n            return;\n        }\n        self.drop_excess_for_inserting(1);\n        self.storage.push_back(value);", 0),
 ("t2-named", "P28", TRC, "        for sample in all_samples.iter() {\n            if let Some(ref thread_name) = sample.thread_name {", "        for sample in all_samples.iter().filter(|s| s.thread_name.is_some()) {\n            if let Some(ref thread_name) = sample.thread_name {", 0),
]
