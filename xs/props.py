"""The properties, the modules that decide them, and the texts for properties.jsonl / MANIFEST.json / evidence."""
COMMON_ASSUMPTIONS = [
    "rustc's MIR for the nightly toolchain with the default features of the workspace (syntect-plugin and test code excluded) is the program that is shipped",
    "std, serde and the other external crates behave as documented; their combinators are modelled in xs/stdmodel.py",
    "an unwinding panic is not a return: 'on every path' means every path that does not panic",
]

P = []
NAP = []


def _entry(id, title, statement, over, qtext, why, files, mechanism, observe):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                mechanism=[dict(zip(("name", "where"), m.split(" @ "))) for m in mechanism], observe=observe)


def prop(id, title, statement, over, qtext, why, files, mechanism, modules, covers, technique, note, observe=None,
         state=None, assumptions=()):
    P.append(dict(_entry(id, title, statement, over, qtext, why, files, mechanism, observe), modules=modules,
                  covers=covers, technique=technique, note=note, state=state, assumptions=list(assumptions)))


def na(id, title, statement, over, qtext, why, files, mechanism, reason, observe=None):
    NAP.append(dict(_entry(id, title, statement, over, qtext, why, files, mechanism, observe), reason=reason))


RPC = "rust/rpc/src/lib.rs"
PARSE = "rust/rpc/src/parse.rs"

prop("P01", "Every RPC request is answered exactly once, under its own id",
     "Each incoming message with an id and a method is answered by exactly one response frame carrying that id: a result when "
     "the handler succeeds, an error when it fails or when the message is not a well-formed request, and a message without an id is "
     "never answered. No further message is dispatched, and the loop does not end normally, while a request is unanswered. "
     "Only an object that has an id and no method is treated as a response.",
     ["inputs", "histories"], "every message a peer may send, every result a handler may return, every path through the loop",
     "Tests send a few well-formed requests; the guarantee is about every outcome of parsing and of the handler on every path.",
     [RPC, PARSE], ["RpcLoop::mainloop dispatch @ rust/rpc/src/lib.rs", "RawPeer::respond @ rust/rpc/src/lib.rs",
                    "RpcObject::into_rpc / is_response / get_id @ rust/rpc/src/parse.rs"],
     ["rpc_dispatch"],
     "Interprocedural typestate over MIR from RpcLoop::mainloop (state of the message in hand), the value-labelled shape of "
     "the response object in respond for both outcomes, and the finite table of (id present?, method present?) classifications.",
     "path-sensitive interprocedural typestate analysis over MIR",
     "Decides pairing, ids and classification on all paths; does not decide what a handler computes.",
     observe=["frames written to the peer"])

prop("P02", "Every outgoing message is one whole line, never interleaved with another",
     "Each notification, request and response goes out as one compact JSON object followed by exactly one newline, "
     "completely written under a single acquisition of the writer, so that frames sent by concurrent threads never interleave. "
     "A notification carries the given method and params and no id, and a request carries the same and a fresh id. Each send "
     "writes exactly one frame.",
     ["schedules", "inputs"], "every interleaving of threads sending through clones of one peer, every message",
     "Interleaving of partial writes needs particular schedules and writers; the tests send from one thread into a buffer.",
     [RPC], ["RawPeer::send @ rust/rpc/src/lib.rs", "Peer for RawPeer @ rust/rpc/src/lib.rs", "RawPeer::respond @ rust/rpc/src/lib.rs"],
     ["rpc_frames"],
     "Typestate of the writer lock and of the frame content from every Peer method and from respond; who-may-write query.",
     "lock/frame typestate and value-label dataflow over MIR",
     "Decides frame atomicity, line framing and the key set of the frame; serde_json's compact output having no raw newline is assumed.",
     observe=["bytes on the wire"])

prop("P03", "Every outgoing request's response handler is run exactly once",
     "The handler of an outgoing request is registered under the request's fresh id before the frame is written, and is taken out "
     "and run by the response with that id or by the failure of the write. Whatever is still pending when the loop ends is run "
     "with an error, whichever way it ends, including a panic in a handler. A handler that has been taken "
     "out is always run and never dropped, and when the loop ends the reader is told to stop.",
     ["schedules", "fault_sequences", "histories"], "every order of responses, write failures, disconnects and panics",
     "Lost callbacks show only when a write fails, the peer goes away or a response overtakes its registration.",
     [RPC], ["RpcState::pending @ rust/rpc/src/lib.rs", "RawPeer::send_rpc_request_common @ rust/rpc/src/lib.rs",
             "RawPeer::handle_response @ rust/rpc/src/lib.rs", "RawPeer::disconnect @ rust/rpc/src/lib.rs", "PanicGuard @ rust/rpc/src/lib.rs"],
     ["rpc_pending"],
     "Ownership typestate of response handlers (registered / taken / run) from the sending methods, the response path, the main "
     "loop's exits and the panic guard.",
     "ownership typestate (linear use of handlers) over MIR",
     "Decides registration order, id agreement and that taken handlers are run; a handler's own behaviour is out of scope.",
     observe=["response handlers run, channel sends"])

prop("P04", "Messages reach the loop in order; idle work waits for them and is not lost",
     "The reader hands each incoming call to the main loop first in, first out and wakes it, hands each response to its "
     "handler, and reports the end of the stream or a bad line exactly once before it stops. Between two pieces of idle work "
     "the loop checks that no message is waiting. Due timers are looked at before idle work, earliest first and never before their "
     "time, and every idle token or timer taken from its queue is passed to the handler.",
     ["schedules", "histories"], "every interleaving of reader, loop and scheduling threads",
     "Order and wake-ups depend on timing; the tests see one schedule.",
     [RPC], ["RawPeer::put_rx / try_get_rx / get_rx_timeout @ rust/rpc/src/lib.rs", "next_read @ rust/rpc/src/lib.rs",
             "RawPeer::check_timers @ rust/rpc/src/lib.rs", "Ord for Timer @ rust/rpc/src/lib.rs"],
     ["rpc_queue"],
     "Typestate of the reader thread and of the main loop over queue operations; who-may-call table on the queue; label flow "
     "of idle tokens and of the timer comparison.",
     "typestate of reader and main loop over queue operations (MIR)",
     "Decides order, wake-up, priority and token conservation; latency is out of scope.",
     observe=["order of handler calls"])

CORE = "rust/core-lib/src/core.rs"
TABS = "rust/core-lib/src/tabs.rs"
VIEWRS = "rust/core-lib/src/view.rs"
EVC = "rust/core-lib/src/event_context.rs"
EDITOR = "rust/core-lib/src/editor.rs"
FILE = "rust/core-lib/src/file.rs"
PLUG = "rust/core-lib/src/plugins/mod.rs"
RECORDER = "rust/core-lib/src/recorder.rs"

prop("P05", "No deadlock: threads never wait for each other in a cycle",
     "Core, its plugin threads, the RPC threads, the file watcher and the language server client never wait in a cycle: locks are "
     "acquired in a consistent order, no thread acquires a lock it already holds, and no thread waits for a plugin's response, a "
     "condition or another thread while it holds a lock that the awaited party may need.",
     ["schedules"], "every interleaving of the threads, every order in which peers respond",
     "A deadlock needs two threads in particular places at once; tests run one at a time.",
     [CORE, TABS, PLUG, RPC, "rust/core-lib/src/watcher.rs"],
     ["Arc<Mutex<CoreState>> @ rust/core-lib/src/core.rs", "response callbacks @ rust/rpc/src/lib.rs",
      "FileWatcher state @ rust/core-lib/src/watcher.rs", "synchronous requests @ rust/rpc/src/lib.rs"],
     ["lock_order"],
     "Guard liveness on MIR (with drops, so the real extent of every temporary) in every function of the workspace; for every "
     "call made under a lock, everything it may acquire or wait for, including callbacks and closures; the resulting order graph "
     "(lock classes by guarded type, response waits by peer) must have no cycle and no wait for a condition or thread under a lock.",
     "lock-order and wait-for graph analysis over MIR guard liveness",
     "Lock classes merge all instances of one guarded type; peers are told apart by the field that stores them. The frontend is assumed "
     "to answer measure_width without waiting for core.",
     observe=["progress of every thread"])

prop("P06", "Handling an event never re-enters state that is already in use",
     "While an edit, a plugin message or a timer is being handled, an editor, view, recorder, style map, kill ring or width cache "
     "that is in use is never accessed again in a conflicting way, so that no sequence of commands, including replayed recordings and "
     "updates of several views, panics on a double borrow.",
     ["inputs", "histories"], "every command in every state of the editor",
     "A conflicting access panics only on the particular command and state that reach it.",
     [EVC, TABS, RECORDER], ["RefCell<Editor>, RefCell<View>, ... @ rust/core-lib/src/event_context.rs", "with_editor / with_view @ rust/core-lib/src/event_context.rs"],
     ["cell_borrows"],
     "Liveness of every Ref/RefMut on MIR and transitive borrow summaries of everything called meanwhile (closures included); two live borrows of "
     "one cell class of which one is mutable are a violation.",
     "borrow-conflict analysis over MIR guard liveness",
     "All cells with the same content type form one class; re-entrance through recordings is excused because recordings are shown to hold no special event.",
     observe=["panics"])

FAM_FILE = [FILE, TABS]
prop("P07", "No identifier or malformed value in a message can panic the core",
     "Once the core is initialized, a message from the frontend or a plugin that names a view, plugin, theme, language or revision that does not exist, or no longer exists when delayed work for it runs, "
     "or whose parameters do not have the expected form, is ignored, logged or answered with an error. It never makes the core panic, not even as the answer to a request the core sent. Numbers out of range are not part of this.",
     ["inputs", "histories"], "every message, with any identifier and any shape of its parameters, in any state",
     "Tests send well-formed messages about things that exist; each lookup of each message would need its own test.",
     [TABS, EVC, EDITOR, "rust/core-lib/src/rpc.rs"], ["client_notification, client_request, handle_idle, plugin_notification, plugin_request @ rust/core-lib/src/tabs.rs", "Deserialize impls @ rust/core-lib/src/rpc.rs"],
     ["peer_input"],
     "Taint from the parameters of every message handler, every hand-written conversion and every answer to lookups, searches, conversions and indexing they decide; each lookup forks into found and not found (remembered per "
     "table), and no path on which it was not found reaches an unwrap of it, an explicit panic or an unchecked index.",
     "interprocedural taint and path-sensitive absence analysis over MIR",
     "Arithmetic on numbers in messages (lengths, offsets, overflow) is not covered.",
     observe=["the core keeps running"])

prop("P08", "Saving replaces a file whole or not at all; loading never alters text",
     "Saving writes the whole text, in the encoding the buffer was loaded with (a byte order mark exactly if the file had one), to a separate temporary file and "
     "replaces the file by it in one step only after every write succeeded, so a crash or error at any point leaves the old or the new content; success is reported only "
     "after the replacement, and failure only when a step failed or the file is known to have changed on disk, in which case it is not overwritten. "
     "Opening reads the whole file and decodes it strictly, without its byte order mark: a file that exists but cannot be read or is not valid UTF-8 is refused, never opened as other text.",
     ["crash_points", "fault_sequences", "inputs"], "every point at which the process dies or an operation fails, every file content",
     "Tests save small files successfully; what counts is what is on disk when it goes wrong.",
     FAM_FILE, ["FileManager::save / try_save / open / try_load_file @ rust/core-lib/src/file.rs"],
     ["save_file", "load_file"],
     "Typestate over every path of saving and of opening, forking every file system operation into success and failure: which path each operation touches (label flow from the target path "
     "through extensions), what has been written (per-chunk loop state), buffered or flushed, marks and encodings, and the outcome returned.",
     "path-sensitive interprocedural typestate and label-flow analysis over MIR",
     "Crash means the process dying, not power loss: the temporary file is not synced before the rename. That the temporary path differs from the target is derived from how its extension or name is built.",
     observe=["file content after a crash or error", "text of a buffer"])

prop("P09", "A buffer counts as saved exactly when its text is what is in its file",
     "A buffer is marked as saved only when its text has just been written to, or loaded from, its file without error, and then always, and the view is told; whether it counts as saved later is "
     "decided by comparing its current revision with the marked one. A file changed on disk by someone else is noticed by its modification time and replaces the buffer only if the buffer has no unsaved changes; "
     "a save that fails is reported to the user.",
     ["histories", "fault_sequences"], "every order of edits, saves, failures and outside changes",
     "Tests do not fail a save or change a file behind the editor at a chosen moment.",
     [TABS, EVC, EDITOR, FILE], ["do_save, handle_open_file_fs_event @ rust/core-lib/src/tabs.rs", "after_save, reload, set_dirty @ rust/core-lib/src/event_context.rs",
                                 "set_pristine, is_pristine @ rust/core-lib/src/editor.rs", "check_file @ rust/core-lib/src/file.rs"],
     ["pristine"],
     "Typestate from every handler of messages, timers and watcher events to the marking of the saved revision: saved or loaded, marked, shown, reported, reloaded only if changed and pristine; what the mark and "
     "its comparison are made of.",
     "path-sensitive interprocedural typestate analysis over MIR",
     "Decides when a buffer is marked and what the mark is compared with; that equivalent revisions have equal text is left to the engine.",
     observe=["dirty flag shown to the user", "text after an outside change"])

prop("P10", "The tables of open files always describe the files the buffers have open",
     "After opening, saving, saving under another name or closing, successful or not, the tables agree: a path leads to the buffer that has it open, a buffer has information about exactly its own path, with the "
     "modification time of what was just read or written, and exactly these paths are watched. "
     "Closing or renaming one buffer never forgets a path that by now belongs to another.",
     ["histories", "fault_sequences"], "every sequence of open, save and close on any paths, with failures",
     "Inconsistency shows only much later, as an event for the wrong buffer or a lost watch.",
     [FILE], ["FileManager @ rust/core-lib/src/file.rs"],
     ["file_tables"],
     "Typestate over every path of open, save and close with effects on each table as state; every exit must be in the table of allowed outcomes for its result.",
     "path-sensitive interprocedural typestate analysis over MIR",
     "A path is compared by value; that two spellings of one path name the same file is not considered.",
     observe=["which buffer an outside change is reported to"])

prop("P11", "Opening, completing and closing views keeps the core's tables consistent",
     "Opening a view registers one new view, buffer and configuration under new identifiers and answers with the view's; if its file cannot be opened nothing is left behind. "
     "The delayed completion tells every running plugin and the frontend and draws each view not yet closed; closing a view tells every plugin and removes it with the last trace of its buffer, and nothing of others. "
     "Delayed work scheduled for a view (drawing, wrapping, searching) comes back to that view and resumes that work.",
     ["inputs", "histories"], "every open and close, successful or not, every delayed callback",
     "A leftover entry or a callback for the wrong view is noticed only in some later, unrelated message.",
     [TABS, EVC], ["do_new_view, finalize_new_views, do_close_view, handle_idle @ rust/core-lib/src/tabs.rs", "finish_init, schedule_find, schedule_rewrap @ rust/core-lib/src/event_context.rs"],
     ["views"],
     "Typestate from the request to open, the message to close and every scheduled token, with effects on each table and labels of identifiers as state; exits must be in the table of allowed outcomes; "
     "symbolic evaluation of tokens from where they are made to the lookup of the view.",
     "path-sensitive interprocedural typestate and label-flow analysis over MIR",
     "One buffer per view, as the code has it: a second view of a buffer is never created.",
     observe=["views, buffers, messages about them"])

prop("P12", "Running plugins are known exactly once; all hear of their starts and ends",
     "A plugin that connects is initialized once with information about every open buffer, registered, and reported to the frontend for every view; one that fails to start is not. "
     "When it is stopped or its process ends, exactly that plugin is removed from the running ones, the frontend is told for every view, and none of its styling remains or can be added again; "
     "stopping also tells it to shut down. Starting a plugin that is running does nothing, each start uses a new identifier, and a command addressed to a plugin reaches each running plugin of that name, unchanged, and no other.",
     ["inputs", "histories", "fault_sequences"], "every start, stop, command, connection and exit, whatever the order",
     "Plugins end at any time, on their own threads; the tests start none.",
     [TABS, EVC, "rust/core-lib/src/plugins/mod.rs", "rust/core-lib/src/layers.rs"],
     ["plugin_connect, plugin_exit, do_start_plugin, do_stop_plugin, do_plugin_rpc @ rust/core-lib/src/tabs.rs", "plugin_stopped @ rust/core-lib/src/event_context.rs",
      "start_plugin_process @ rust/core-lib/src/plugins/mod.rs", "remove_layer, create_if_missing @ rust/core-lib/src/layers.rs"],
     ["plugin_life"],
     "Typestate from each event of a plugin's life (connection, exit, start, stop, command, its thread's main function), with the identity of the plugin as a label, searches verified by evaluating "
     "their predicates, and per-item states of the loops over buffers and plugins; outcomes compared with the table of allowed ones.",
     "path-sensitive interprocedural typestate and label-flow analysis over MIR",
     "A plugin between its launch and its connection is not yet known: two starts in that window launch it twice (the code says so), which this property does not forbid.",
     observe=["running plugins, messages about them, styles"])

prop("P13", "A text change reaches history, styles, every view and every plugin",
     "Whatever changes a buffer's text (a command, a plugin's edit, undo, a reload, a replayed recording) is committed before the handling of that message ends: "
     "the buffer's text is the head of its edit history, and the styling layers, every view of the buffer and every running plugin are told exactly the change "
     "since the last commit (a plugin may be told only that a change too large to send happened). "
     "The view is then drawn at once or its redraw is scheduled, and a scheduled redraw is never cancelled without drawing.",
     ["inputs", "histories"], "every message from the frontend or a plugin, every path of its handling",
     "A missed observer shows only later, as a stale view, wrong highlighting or a plugin out of step; tests look at a few commands.",
     [EVC, EDITOR, TABS], ["EventContext::after_edit / update_views / update_plugins @ rust/core-lib/src/event_context.rs",
                           "Editor::commit_delta / add_delta / apply_plugin_edit @ rust/core-lib/src/editor.rs",
                           "has_pending_render @ rust/core-lib/src/view.rs"],
     ["edit_flow"],
     "Interprocedural typestate from every handler of the frontend's and the plugins' messages, idle tokens and callbacks: text changed, text refreshed, committed, each view and plugin "
     "visited (per-item loop states), drawn or scheduled; label flow of delta, texts and revision; outcome table of the commit itself.",
     "path-sensitive interprocedural typestate and label-flow analysis over MIR",
     "Decides that the change is passed on, not that each observer computes with it correctly.",
     observe=["text, styles, view updates, plugin updates"])

prop("P14", "What a plugin sends about a revision is applied relative to it, or ignored",
     "An edit from a plugin is applied, once and unaltered, to the revision it names. The range and the spans of styles or annotations are carried through every change made since the revision they name before "
     "they are stored, for that plugin, and the lines styled are the ones redrawn; when the revision is not known nothing is stored. Text requested by a plugin is taken from the revision it names, or not at all.",
     ["inputs", "histories"], "every message of a plugin about text, at every revision, current, older or unknown",
     "Whether a plugin lags behind depends on timing; the tests' plugins never do.",
     [EDITOR, EVC], ["update_spans, update_annotations, apply_plugin_edit, get_rev, plugin_get_data @ rust/core-lib/src/editor.rs", "do_plugin_cmd, do_plugin_cmd_sync @ rust/core-lib/src/event_context.rs"],
     ["revisions"],
     "Label-flow from the fields of each message (revision, start, length, spans, delta) through comparison with the head, the lookup of the changes since, and the carrying of positions and spans, to where they are stored; "
     "typestate of the revision (head, older, unknown) at every store and read.",
     "path-sensitive interprocedural typestate and label-flow analysis over MIR",
     "Decides that positions are carried through the changes, not the arithmetic of doing so; offsets outside the text are not considered.",
     observe=["styles, annotations, text, responses"])

prop("P15", "Every command does the operation it names, with its own arguments",
     "Each documented edit command, gesture and request of the frontend is accepted under its name and its documented parameters, and is answered by exactly the operation it names. "
     "The operation receives the command's own values: movements, whether the selection is extended, what is killed, granularity, options of searches, positions, texts, names, views and paths. "
     "Parameters that are documented as optional stay optional.",
     ["inputs"], "every documented command and gesture and every value of its parameters",
     "There are over a hundred commands and most are not covered by any test; a swapped or dropped argument looks right until a frontend uses that very command.",
     ["rust/core-lib/src/rpc.rs", "rust/core-lib/src/edit_types.rs", VIEWRS, EVC, EDITOR],
     ["EditNotification, GestureType, CoreNotification, CoreRequest @ rust/core-lib/src/rpc.rs", "From<EditNotification> for EventDomain @ rust/core-lib/src/edit_types.rs", "do_edit, do_gesture @ rust/core-lib/src/view.rs", "do_edit @ rust/core-lib/src/editor.rs", "client_notification, client_request @ rust/core-lib/src/tabs.rs"],
     ["commands"],
     "The names and parameters accepted are read from the deserializers derived for the current types; for each command, the code is interpreted from that variant on, its values labelled with their names on the wire, and the set of operations reached with the labels of their arguments is compared with the table of the documented protocol.",
     "label-flow analysis over MIR from the derived deserializers to the operations",
     "The table of the protocol is part of the check (from docs/docs/frontend-protocol.md); what an operation does with its arguments is outside it. Commands for debugging only are not listed.",
     observe=["effects of commands", "replies to requests"])

prop("P16", "Core and plugins understand each other's messages",
     "Every message core sends to a plugin, and every message a plugin sends to core, carries its documented name, every field the receiver requires, the sender's own values and identifiers, and is accepted under that name and those fields by the receiver. "
     "Core carries out each message of a plugin with the values it was sent, for the view and the plugin it names, and answers a request with what was asked for. "
     "Plugins are told of saves, closing, settings, languages and hovers of a view with that view and those values.",
     ["inputs", "programs"], "every message between core and plugins and every value of its fields",
     "The two sides are separate crates that only meet on the wire: a renamed or swapped field compiles, and hardly any message is tested end to end.",
     ["rust/core-lib/src/plugins/mod.rs", "rust/core-lib/src/plugins/rpc.rs", "rust/plugin-lib/src/view.rs", "rust/plugin-lib/src/core_proxy.rs", EVC],
     ["Plugin @ rust/core-lib/src/plugins/mod.rs", "HostNotification, HostRequest, PluginNotification, PluginRequest @ rust/core-lib/src/plugins/rpc.rs", "View, FetchCtx @ rust/plugin-lib/src/view.rs", "CoreProxy @ rust/plugin-lib/src/core_proxy.rs", "do_plugin_cmd, do_plugin_cmd_sync @ rust/core-lib/src/event_context.rs"],
     ["messages"],
     "Each sending function is interpreted with labelled arguments up to the send: method name, keys and the source of every value are compared with the table of the protocol and, with their types, with what the other side's derived deserializer accepts and requires. Each received message is then followed, values labelled with their names on the wire, to the operations of core and their arguments.",
     "label-flow analysis over MIR between the two ends of the wire",
     "What a plugin does with a message is P22; what the operations do with their arguments is P13 and P14.",
     observe=["messages between core and plugins", "effects of plugin messages"])

prop("P17", "What is written as JSON is read back under the same names",
     "Every type that is both written to and read from JSON is written under exactly the names under which it is read, for each of its variants and each of its fields, and each name leads back to the same variant or field. "
     "What reading requires is never left out of what is written. Ranges of annotations, ranges of lines, mouse clicks, errors, text changes and kinds of trace samples, which have formats of their own, are read back from the positions and codes they are written to.",
     ["inputs", "programs"], "every type with both directions, every variant and every field",
     "Both directions are generated or written separately; a changed attribute or a swapped position on one side compiles and is only noticed by the peer.",
     ["rust/core-lib/src/rpc.rs", "rust/core-lib/src/plugins/rpc.rs", "rust/core-lib/src/annotations.rs", "rust/rpc/src/error.rs", "rust/rope/src/serde_impls.rs", "rust/trace/src/lib.rs"],
     ["all types with derived Serialize and Deserialize", "AnnotationRange @ rust/core-lib/src/annotations.rs", "LineRange, MouseAction @ rust/core-lib/src/rpc.rs", "RemoteError @ rust/rpc/src/error.rs", "Delta @ rust/rope/src/serde_impls.rs", "SampleEventType @ rust/trace/src/lib.rs"],
     ["serialized"],
     "The serializer and the deserializer generated by serde for the current source are both interpreted: which names are written from which field on each path, and which name is read into which field or variant; the two relations must be equal and cover the required names. Hand-written pairs are interpreted with labelled positions.",
     "comparison of the name relations of serializers and deserializers, interpreted over MIR",
     "Values of fields are written by the serializers of their own types. The text form of view identifiers, and the identifiers added to edit and plugin commands, are not compared.",
     observe=["JSON"])

prop("P18", "What the frontend is told has the documented form",
     "Every notification and request to the frontend carries its documented name and fields with the values it was asked to send, and updates, their operations, lines, annotations, styles, search and replace status, plugins and commands have their documented fields. "
     "A new line always comes with its text and styles; a line whose cursors changed always comes with its cursors, even if it has none left, and without text. "
     "The frontend is asked to scroll to the line and column of the cursor, and told whether a plugin was stopped by the user or ended itself.",
     ["inputs", "programs"], "every message to the frontend",
     "Frontends are separate programs in other languages; no test of this repository parses what they receive.",
     ["rust/core-lib/src/client.rs", VIEWRS, "rust/core-lib/src/annotations.rs", "rust/core-lib/src/styles.rs", EVC],
     ["Client, Update, UpdateOp @ rust/core-lib/src/client.rs", "encode_line, render_if_dirty @ rust/core-lib/src/view.rs", "AnnotationSlice::to_json @ rust/core-lib/src/annotations.rs", "Style::to_json @ rust/core-lib/src/styles.rs"],
     ["messages"],
     "Each function that sends is interpreted with labelled arguments up to the send; names, keys and the sources of the values are compared with the table of the documented protocol. Serializers generated for the structures inside are interpreted for the names they write, always or sometimes, and from which field; the object of a line is interpreted for the keys it can have.",
     "label-flow analysis over MIR from arguments to JSON keys",
     "The table of the protocol is part of the check (from docs/docs/frontend-protocol.md). Offsets within a line are numbers outside this analysis.",
     observe=["messages to the frontend"])

prop("P19", "Settings are checked before use, layered, and every change reaches the views",
     "A settings table that does not make a valid configuration changes nothing, whether a client, a settings file or a language definition gives it; a valid one counts at once for every open buffer, a request changing only the settings it names. "
     "A buffer's own overrides come before what was detected in it, that before the settings of its language (the one the user chose, else that of its file name), and those before the general ones and the built-in defaults, in whatever order they were given. "
     "Every setting that thereby gets another value is passed on to the view of each buffer concerned, a new view gets the values of the moment, refused tables are reported to the user, and the settings of a file that is gone no longer count.",
     ["inputs", "histories", "configurations"], "every table, every source of settings and every order in which they are given",
     "Tests cover a handful of fixed layers and tables; a table that is kept unchecked shows only when it is invalid, and a wrong order of layers only when two of them set the same key.",
     ["rust/core-lib/src/config.rs", TABS],
     ["ConfigManager::set_user_config, set_languages, generate_buffer_config; TableStack; ConfigPair; LanguageTag @ rust/core-lib/src/config.rs", "set_config, handle_config_changes, finalize_new_views, handle_config_fs_event @ rust/core-lib/src/tabs.rs"],
     ["settings"],
     "Path-sensitive effect analysis: each store into the kept tables is tied to a preceding successful check of that very table, the sequence of layers and the first-wins collation are decided on all paths, and every result of a change is followed to the view.",
     "path-sensitive interprocedural effect analysis over MIR",
     "Decides the flow of the tables, not what each setting does; that a key which disappears from every layer is not reported is a known limit of the code (core has defaults for all its keys).",
     observe=["config_changed messages, alerts, get_config"])

prop("P20", "Recordings hold exactly the recorded commands and replay them as one edit",
     "While a recording is active every ordinary edit command is recorded exactly once before it is carried out, and nothing else is: commands that control recording "
     "or the viewport are never stored. Toggling stores the recording under its name when the same or no name is given, "
     "discards it when a different name is given (which then becomes active), and leaves no recorded commands behind. Replay never runs the recording that is active; it "
     "runs every command in one forced undo group that is released afterwards, shows each change to the views, and tells the plugins.",
     ["inputs", "histories"], "every sequence of commands, toggles and replays",
     "Tests record a few fixed sequences; the guarantee is about every path of the recorder.",
     [RECORDER, EVC], ["Recorder @ rust/core-lib/src/recorder.rs", "do_edit, PlayRecording @ rust/core-lib/src/event_context.rs"],
     ["recorder"],
     "Typestate from the conversion of a command to its dispatch (recording?, recorded?, kind of command), the complete table of toggle outcomes, and typestate of replay.",
     "path-sensitive interprocedural typestate analysis over MIR",
     "Decides what is stored, toggled and replayed; which undo/redo pairs are filtered out of a stored recording is covered by tests only.",
     observe=["recordings, undo groups, updates to views and plugins"])

prop("P21", "Each reported file change is queued before core wakes and handled once",
     "Each change of a file that is reported is queued once for every watch that wants it (one of its path, of the folder directly above it, or recursively of any folder above it, whose filter lets it through) before core is woken, and an error of the watching ends nothing. "
     "Core takes the whole queue and hands each change once to the handler of the purpose it was watched for: a settings or theme file that changed is read anew, one that is gone is forgotten, a renamed one both. "
     "A new watch asks the system only for a path nobody watches yet; ending one takes away the one watch of that path and purpose, tells the system only when nobody else watches the path, and watches anew what lay below a recursive one.",
     ["inputs", "schedules", "histories"], "every sequence of watches, changes and wake-ups",
     "Tests watch a few files one after the other; a change lost or handled too early shows only under particular orders of changes and wake-ups.",
     ["rust/core-lib/src/watcher.rs", TABS, "rust/core-lib/src/file.rs"],
     ["FileWatcher, Watchee::wants_event @ rust/core-lib/src/watcher.rs", "handle_fs_events, handle_config_fs_event, handle_themes_fs_event @ rust/core-lib/src/tabs.rs"],
     ["watching"],
     "Typestate of the watcher's thread from the receipt of a change to the wake-up, complete decision tables of which watch wants which change and of which handler gets it, and effect analysis of adding and ending a watch.",
     "path-sensitive interprocedural typestate and effect analysis over MIR",
     "What the operating system and the notify crate report is outside the code analysed.",
     observe=["files reread, queued changes"])

prop("P22", "A plugin's copy of a view follows core before the plugin is called",
     "For each message of core about a view it knows, the library for plugins brings that view up to date with the values sent and calls the plugin exactly once, with that view and the values of the message: edits (text cache, revision, undo group, size), paths and languages are applied before the call, settings after it, and closed views are removed. "
     "A message for an unknown view neither calls the plugin nor changes anything, and does not panic; an update for one is answered with an error. "
     "A plugin is initialized, knowing its identifier, before it is given views, and every buffer core describes becomes exactly one view with what core said of it, which is shown to the plugin and then kept.",
     ["inputs", "histories"], "every message of core and every set of known views",
     "The order of the update of the view and the call of the plugin, and the case of an unknown view, appear in no test: a plugin working with the previous revision or path still mostly works.",
     ["rust/plugin-lib/src/dispatch.rs", "rust/plugin-lib/src/view.rs", "rust/plugin-lib/src/lib.rs"],
     ["Dispatcher::handle_notification, handle_request, idle @ rust/plugin-lib/src/dispatch.rs", "View::new, View::update @ rust/plugin-lib/src/view.rs"],
     ["plugin_dispatch"],
     "The handlers are interpreted for each message with labelled values: the abstract state is what has been stored in the view and the tables, from which value, and with what done the plugin was called. Each path must match the table of the protocol of callbacks.",
     "typestate and label-flow analysis over MIR of the dispatcher, path by path",
     "The plugin itself is any implementation of the trait. What its text cache computes is numeric and not decided here.",
     observe=["plugin callbacks"])

prop("P24", "The parts of an edit history change together or not at all",
     "An edit that names a known revision and fits it replaces the text, the deleted text and the record of deletions from one computation and adds exactly one revision, with a new number and the edit's priority and undo group; any other edit is refused with an error and changes nothing. "
     "Undo replaces the same parts together and from then on exactly the groups asked for are undone; merging and rebasing keep the numbers, priorities and groups of the revisions they move and add them after the present ones. "
     "Collecting old revisions leaves the text alone, changes the deleted text and the record of deletions together, and keeps the last revision.",
     ["inputs", "histories"], "every edit history",
     "Tests compare the text after a few fixed histories; parts that drift apart show only with later operations on particular histories.",
     ["rust/rope/src/engine.rs"],
     ["Engine::try_edit_rev, undo, merge, gc, rebase @ rust/rope/src/engine.rs"],
     ["history"],
     "Each function that changes a history is interpreted on all paths: which parts it replaces, which values of which computation they get, and what every revision it adds is made of.",
     "path-sensitive effect and label-flow analysis over MIR",
     "Decides that the parts change together and where their values come from; that the computations themselves (transformations of subsets and deltas) are right is arithmetic outside this analysis (P31, P32).",
     observe=["Engine's text and revisions"])

prop("P26", "A view's cached state follows every change of its text and its selection",
     "When the text changes, a view's line breaks, selection, search results and annotations are each brought up to date with that change exactly once, and the lines the frontend holds are adjusted by exactly the lines reported as changed, or all "
     "declared invalid. A change of the selection marks the lines of the old and of the new one as out of date. An update sent to the frontend describes exactly the lines recorded as held by it from then on; "
     "annotations at or after a change are dropped, those before it stay where they were placed.",
     ["inputs", "histories"], "every change of the text or the selection, every state of the line cache",
     "A line the frontend wrongly believes valid stays wrong on screen until something else touches it; tests compare a few updates.",
     ["rust/core-lib/src/view.rs", "rust/core-lib/src/annotations.rs", "rust/rope/src/spans.rs"],
     ["after_edit, set_selection_raw, invalidate_selection, send_update_for_plan @ rust/core-lib/src/view.rs", "AnnotationStore @ rust/core-lib/src/annotations.rs", "delete_after @ rust/rope/src/spans.rs"],
     ["view_state"],
     "Typestate with label flow over every path of the handling of a change (per-item state of the loop over searches), of every writer of the selection, and of the loop that turns a render plan into update operations "
     "and the new record of what the frontend holds: each operation and each recorded span must agree per tactic.",
     "path-sensitive interprocedural typestate and label-flow analysis over MIR",
     "Decides that each piece is updated with the right change, not the arithmetic of line breaking, searching or the line cache itself.",
     observe=["updates sent to the frontend"])

prop("P27", "Styles follow the scopes plugins sent, the text and the current theme",
     "When the theme changes, its settings, name, default style and the numbers given to styles are replaced together or not at all; the frontend is told, and the styles of every buffer are computed anew and its view drawn anew. "
     "A change of the text moves the scopes and styles of every layer and the combined ones by exactly that change; new spans are stored and combined, from all layers, over exactly their range. "
     "The numbers a plugin uses for scopes mean the stacks it sent, in that order, and a style's number is new and told to the frontend before it is used.",
     ["inputs", "histories"], "every change of theme or text and every message about scopes, in any order, with any number of layers",
     "Stale styles show only after particular sequences of theme changes, edits and plugin messages; tests have one layer and no theme change.",
     ["rust/core-lib/src/layers.rs", "rust/core-lib/src/styles.rs", TABS],
     ["Layers, ScopeLayer @ rust/core-lib/src/layers.rs", "ThemeStyleMap @ rust/core-lib/src/styles.rs", "do_set_theme, load_theme_file @ rust/core-lib/src/tabs.rs", "get_or_def_style_id @ rust/core-lib/src/view.rs"],
     ["themes"],
     "Typestate with label flow over every operation on the layers (which spans are moved, stored, computed and combined, over which range, from which source, for each layer of each loop), over the replacement of the theme (set of fields replaced per outcome) "
     "and over everything that can cause it (told, each buffer recomputed and redrawn).",
     "path-sensitive interprocedural typestate and label-flow analysis over MIR",
     "Decides where styles come from; the matching of scopes by syntect and the merging of two styles are not covered.",
     observe=["styles of lines shown", "style definitions sent"])

prop("P28", "Tracing records each event once while it is on, and nothing while off",
     "While a trace is on, an event is recorded once, a block with one beginning and one end, with the name, categories and payload given; while it is off nothing is recorded. "
     "Measured work is run exactly once either way and its result returned. "
     "What is recorded, counted, cleared or saved through the process-wide functions is the process's trace; saving a trace writes its own samples into a new file and never over an existing one.",
     ["inputs", "histories", "configurations"], "every sequence of switching on and off, recording and saving",
     "Tests record a few events with tracing on; an event lost or doubled shows only in particular orders of switching, recording and dropping.",
     ["rust/trace/src/lib.rs"],
     ["Trace, SampleGuard, global functions @ rust/trace/src/lib.rs"],
     ["tracing"],
     "Typestate over what is recorded on each path (nothing, an event, a beginning, an end) against whether the trace was found on, and label flow of names, categories and payloads into the samples.",
     "path-sensitive interprocedural typestate analysis over MIR",
     "Times, and how many samples are kept, are numbers outside this analysis.",
     observe=["samples, files written"])

prop("P30", "Edit history is collected only while no plugin update is unanswered",
     "Every update sent to a plugin counts as unanswered until its answer is handled, and is counted down exactly once, whether the plugin answers, fails to or is gone. "
     "Revisions of the edit history are discarded only while nothing is unanswered, so that a plugin can still refer to any revision it has not acknowledged.",
     ["schedules", "histories", "fault_sequences"], "every order of edits, undo limits, answers and failures of plugins",
     "Answers arrive asynchronously and the limit on undo groups must be passed for collection to matter.",
     [EDITOR, EVC], ["increment_revs_in_flight, dec_revs_in_flight, gc_undos @ rust/core-lib/src/editor.rs", "update_plugins, do_plugin_update @ rust/core-lib/src/event_context.rs"],
     ["in_flight"],
     "Every entry point is interpreted with the number of counts held but not yet spent as state: an update spends one, zero are left at the end; the function given as callback to an update counts down exactly once on every path "
     "on which the buffer still exists; the collector is reached only under a test that the count is zero.",
     "path-sensitive interprocedural typestate (resource counting) over MIR",
     "That the callback is called exactly once is P03.",
     observe=["revisions available to plugins"])

BY_ID = {p["id"]: p for p in P}

ENG, ROPE, TREE, DEL = "rust/rope/src/engine.rs", "rust/rope/src/rope.rs", "rust/rope/src/tree.rs", "rust/rope/src/delta.rs"

na("P31", "Concurrent edits lead to the same text in whatever order they are merged",
   "Edits made against different revisions of one history, by the user, by plugins or by another copy of the history merged later, "
   "lead to the same text whatever the order in which they arrive, and text inserted at one place keeps a fixed order.",
   ["inputs", "histories", "schedules"], "every set of concurrent edits, every order of arrival and merging",
   "The tests merge a few hand-written histories; convergence is a statement about all of them.",
   [ENG, "rust/rope/src/multiset.rs"], ["Engine::edit_rev / mk_new_rev @ rust/rope/src/engine.rs", "Engine::merge / rebase / rearrange @ rust/rope/src/engine.rs"],
   "Convergence equates the results of two different sequences of positional transformations (Subset::transform_expand, rearrange, "
   "rebase): a relational statement about computed offsets, which no dataflow or typestate abstraction of the source decides.")

na("P32", "Undo takes back exactly the edits of its groups, and redo brings them back",
   "Undoing a set of undo groups gives the text that results from all other edits alone, redoing them restores it, and undo groups "
   "that are undone stay so until redone or discarded.",
   ["inputs", "histories"], "every history of edits, undos and redos with any grouping",
   "Whether earlier and later edits interact wrongly with an undone one depends on positions that a few tests do not reach.",
   [ENG, "rust/core-lib/src/editor.rs"], ["Engine::undo / compute_undo @ rust/rope/src/engine.rs", "Editor::do_undo / do_redo @ rust/core-lib/src/editor.rs"],
   "The text after an undo is a function of index arithmetic over subsets of the union string; equality with the text of the other "
   "edits is a numeric relation between two computations. The index into the list of live groups (cur_undo) is likewise arithmetic.")

na("P33", "A rope holds exactly its text, balanced and correctly measured",
   "Every tree built by editing, slicing, pushing or concatenating holds exactly the concatenated content, has all leaves at the same "
   "depth with between the minimum and maximum number of children, and its measures of length and lines equal those of the text.",
   ["inputs", "histories"], "every sequence of tree operations on every content",
   "Imbalance and wrong measures need particular sizes at several levels, which only large random sequences reach.",
   [TREE, ROPE, "rust/rope/src/breaks.rs", "rust/rope/src/spans.rs"], ["Node::concat / merge_nodes / from_nodes @ rust/rope/src/tree.rs", "Cursor @ rust/rope/src/tree.rs"],
   "The invariant is numeric (child counts, sums of lengths, heights) over recursive structures of unbounded size; it needs an "
   "inductive proof over shapes and sums, outside what a static analysis over MIR establishes here.")

na("P34", "Applying, inverting, composing and transforming changes agree with each other",
   "A change factored into insertions and deletions, transformed past another, shrunk, or synthesized from two versions gives, when "
   "applied, the same text as the original changes one after the other.",
   ["inputs", "programs"], "every pair of changes over every text",
   "The algebra has to hold for every pair of overlapping ranges; tests sample a few.",
   [DEL, "rust/rope/src/multiset.rs"], ["Delta::factor / synthesize @ rust/rope/src/delta.rs", "Subset::transform @ rust/rope/src/multiset.rs"],
   "Algebraic equalities of functions on lists of numeric ranges: deciding them means proving arithmetic over all lists.")

na("P35", "A computed difference turns the first text into the second",
   "The change computed between two texts, when applied to the first, gives the second, for every pair of texts.",
   ["inputs"], "every pair of texts", "Edge cases are in repeated and overlapping lines of particular sizes.",
   ["rust/rope/src/diff.rs", "rust/rope/src/compare.rs"], ["LineHashDiff::compute_delta @ rust/rope/src/diff.rs"],
   "An input/output relation that depends on hashing, offsets and comparisons of bytes, including SIMD paths; not a flow property.")

na("P36", "Lines break where width and text demand it, however computed",
   "With wrapping on, every visual line ends at a line break or at the last admissible break that fits the width, and breaks computed "
   "incrementally after edits are the same as those computed from scratch.",
   ["inputs", "histories"], "every text, width and sequence of edits", "Divergence of incremental and full wrapping needs particular edits near chunk limits.",
   ["rust/core-lib/src/linewrap.rs", "rust/core-lib/src/width_cache.rs"], ["Lines::after_edit / rewrap_chunk @ rust/core-lib/src/linewrap.rs"],
   "Equality of an incremental and a full computation over measured widths: numeric and relational. That every change reaches the "
   "line breaks is decided by P26, that scheduled wrapping resumes by P11.")

na("P37", "A search finds exactly the occurrences, also after edits",
   "The occurrences shown are exactly the matches of the query with its options in the current text, also after incremental updates "
   "around an edit, and multi-line and partial matches are neither lost nor doubled.",
   ["inputs", "histories"], "every text, query, option and sequence of edits", "Losses happen for matches that straddle the range searched again.",
   ["rust/core-lib/src/find.rs", "rust/rope/src/find.rs"], ["Find::update_highlights / update_find @ rust/core-lib/src/find.rs"],
   "The result is defined by string matching and by offsets widened around an edit; both are values no static argument in reach bounds. "
   "That options reach the search is decided by P15, that every change reaches it by P26.")

na("P38", "A selection stays sorted, without overlaps, on boundaries inside the text",
   "After every command and every edit the regions of a selection are sorted, do not overlap, and start and end at boundaries of "
   "characters within the text.",
   ["inputs", "histories"], "every sequence of movements, gestures and edits, every text",
   "Violations need several cursors, wide characters or edits that swallow regions.",
   ["rust/core-lib/src/selection.rs", "rust/core-lib/src/movement.rs"], ["Selection::add_region / apply_delta @ rust/core-lib/src/selection.rs", "region_movement @ rust/core-lib/src/movement.rs"],
   "Order, disjointness and bounds are numeric relations between offsets computed from the text's content.")

na("P39", "The client can rebuild every line of the screen from the updates it was sent",
   "A client that applies the documented update operations one after the other holds, for every line it has been told is valid, exactly "
   "the line's current text, cursors and styles.",
   ["inputs", "histories"], "every sequence of edits, scrolls and updates", "A wrong count of one operation shows only after a particular sequence of scrolls and edits.",
   ["rust/core-lib/src/line_cache_shadow.rs", "rust/core-lib/src/view.rs"], ["LineCacheShadow::edit / RenderPlan @ rust/core-lib/src/line_cache_shadow.rs", "View::send_update_for_plan @ rust/core-lib/src/view.rs"],
   "The operations' counts and the shadow's spans are sums of line numbers; that they add up is arithmetic. What follows from order and "
   "pairing (an update describes what is recorded as held, changed lines are invalidated) is decided by P26, the form of lines by P18.")

na("P40", "Movement respects graphemes, words, lines and columns",
   "Movements and deletions by character, word, line, paragraph or page go to the boundary that Unicode and the documentation "
   "define, vertical movement keeps the column, and indentation and transformation commands change exactly the lines or words selected.",
   ["inputs"], "every text and cursor position", "The tables of Unicode and mixed scripts are too large to sample.",
   ["rust/core-lib/src/movement.rs", "rust/core-lib/src/word_boundaries.rs", "rust/core-lib/src/backspace.rs", "rust/unicode/src/lib.rs"],
   ["WordCursor @ rust/core-lib/src/word_boundaries.rs", "offset_for_delete_backwards @ rust/core-lib/src/backspace.rs", "LineBreakIterator @ rust/unicode/src/lib.rs"],
   "Correctness is a table- and value-level relation between text and offsets. That each command reaches the operation it names, with "
   "its own movement, is decided by P15.")

na("P41", "A plugin reads the same text through its cache as core holds",
   "Text read through the plugin library's cache, line numbers and offsets of lines equal those of the revision the cache stands for, "
   "whatever was fetched and edited before.",
   ["inputs", "histories"], "every sequence of fetches and edits", "Stale offsets of lines need an edit that straddles the cached part.",
   ["rust/plugin-lib/src/state_cache.rs", "rust/plugin-lib/src/base_cache.rs"], ["ChunkCache::update / get_line @ rust/plugin-lib/src/base_cache.rs"],
   "Equality of text under offset arithmetic in the cache. That every update reaches the cache before the plugin is decided by P22.")
