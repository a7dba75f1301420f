"""P15: what each command of the frontend protocol does, from its name on the wire to the operation carried out."""
from ..esp import Machine, Rule
from .. import wire
from ..lib import *
from ..model import find_callables

CORE = "xi_core_lib::"
VIEW, ED, CTX = CORE + "view::View::", CORE + "editor::Editor::", CORE + "event_context::EventContext::"
STATE = CORE + "tabs::CoreState::"
OPS, MOV, REC = CORE + "edit_ops::", CORE + "movement::", CORE + "recorder::Recorder::"
ENGINE = "xi_rope::engine::Engine::"

# operation: (name shown, {argument: name shown})
OPERATIONS = {
    MOV + "selection_movement": ("select", {0: "movement", 5: "modify"}),
    MOV + "region_movement": ("region", {0: "movement", 5: "modify"}),
    OPS + "insert": ("insert", {2: "text"}),
    OPS + "surround": ("surround", {}),
    OPS + "duplicate_line": ("duplicate_line", {}),
    OPS + "delete_backward": ("delete_backward", {}),
    OPS + "delete_by_movement": ("delete", {3: "movement", 5: "kill"}),
    OPS + "delete_sel_regions": ("delete_selected", {}),
    OPS + "extract_sel_regions": ("extract_selected", {}),
    OPS + "insert_newline": ("insert_newline", {}),
    OPS + "insert_tab": ("insert_tab", {}),
    OPS + "modify_indent": ("indent", {3: "direction"}),
    OPS + "transpose": ("transpose", {}),
    OPS + "transform_text": ("transform", {2: "fn"}),
    OPS + "change_number": ("number", {2: "fn"}),
    OPS + "capitalize_text": ("capitalize", {}),
    "xi_rope::delta::Builder::replace": ("insert_line", {2: "text"}),
    ENGINE + "undo": ("undo", {}),
    VIEW + "select_all": ("select_all", {}),
    VIEW + "set_scroll": ("scroll", {1: "first", 2: "last"}),
    VIEW + "set_size": ("size", {1: "size"}),
    VIEW + "select": ("gesture_select", {2: "offset", 3: "granularity", 4: "multi"}),
    VIEW + "extend_selection": ("gesture_extend", {2: "offset", 3: "granularity"}),
    VIEW + "do_drag": ("gesture_drag", {2: "offset"}),
    VIEW + "set_find": ("find", {2: "queries"}),
    VIEW + "do_find_next": ("find_next", {2: "reverse", 3: "wrap", 4: "same", 5: "modify"}),
    VIEW + "do_find_all": ("find_all", {}),
    VIEW + "collapse_selections": ("collapse", {}),
    VIEW + "do_selection_for_find": ("selection_for_find", {2: "case"}),
    VIEW + "do_set_replace": ("replace", {1: "chars", 2: "preserve"}),
    VIEW + "do_selection_for_replace": ("selection_for_replace", {}),
    VIEW + "do_split_selection_into_lines": ("into_lines", {}),
    CORE + "line_offset::LineOffset::line_col_to_offset": ("at", {2: "line", 3: "col"}),
    CORE + "selection::SelRegion::caret": ("caret", {0: "offset"}),
    CORE + "plugins::Plugin::dispatch_command": ("plugin", {1: "view", 2: "method"}),
    CTX + "do_request_lines": ("lines", {1: "first", 2: "last"}),
    CTX + "do_request_hover": ("hover", {1: "id", 2: "position"}),
    CTX + "do_edit": ("edit", {1: "cmd"}),
    CTX + "do_edit_sync": ("edit", {1: "cmd"}),
    STATE + "make_context": ("for", {1: "view"}),
    STATE + "do_save": ("save", {1: "view", 2: "path"}),
    STATE + "do_close_view": ("close", {1: "view"}),
    STATE + "do_modify_user_config": ("config", {1: "domain", 2: "changes"}),
    STATE + "do_set_theme": ("theme", {1: "name"}),
    STATE + "do_start_plugin": ("start", {2: "plugin"}),
    STATE + "do_stop_plugin": ("stop", {2: "plugin"}),
    STATE + "do_plugin_rpc": ("rpc", {1: "view", 2: "receiver", 3: "method", 4: "params"}),
    STATE + "do_set_language": ("language", {1: "view", 2: "language"}),
    STATE + "do_new_view": ("new", {1: "path"}),
    STATE + "do_get_config": ("get_config", {1: "view"}),
    STATE + "do_get_contents": ("contents", {1: "view"}),
    STATE + "toggle_tracing": ("tell_tracing", {1: "enabled"}),
    STATE + "save_trace": ("save_trace", {1: "path", 2: "samples"}),
    STATE + "new": ("setup", {1: "config", 2: "extras"}),
    "xi_trace::enable_tracing": ("trace_on", {}),
    "xi_trace::disable_tracing": ("trace_off", {}),
    REC + "toggle_recording": ("toggle", {1: "name"}),
    REC + "play": ("play", {1: "name"}),
    REC + "clear": ("clear", {1: "name"}),
}
EVENTS = ("EventDomain", "ViewEvent", "BufferEvent", "SpecialEvent", "GestureType", "FindQuery", "Movement")
# what happens after a command was carried out, whichever it was (P13, P26)
AFTERWARDS = {CTX + x for x in ("after_edit", "render_if_needed", "render", "rewrap", "do_incremental_find", "update_wrap_settings")}
FNS = ("to_uppercase", "to_lowercase", "checked_add", "checked_sub", "saturating_add", "saturating_sub")


class Cmd(Rule):
    operations = OPERATIONS
    label_prefix = True
    track_consts = True
    label_pass = {"core::clone::Clone::clone", "core::convert::Into::into", "core::convert::From::from", "alloc::borrow::ToOwned::to_owned", "core::option::Option::as_deref", "core::ops::deref::Deref::deref",
                  "core::cell::RefCell::borrow_mut", "core::cell::RefCell::borrow", "core::ops::deref::DerefMut::deref_mut", "alloc::slice::to_vec", "alloc::string::String::as_str", "core::str::lines",
                  "core::iter::traits::iterator::Iterator::zip"}

    def op(self, c):
        for t in c.targets:
            o = self.operations.get(t.body.name)
            if o and t.body.uid != self.root:
                return o
        return None

    def interesting(self, c):
        return self.op(c) is not None or bool(c.args) and not c.targets and self.undo_mark(c) is not None

    def opaque(self, c):
        if self.op(c) is not None or "xi_trace" in c.name or trait_method(c, "Clone", ("clone",)):
            return True
        return bool(c.targets) and all(t.body.crate["crate"] != "xi_core_lib" or t.body.name in AFTERWARDS for t in c.targets)

    def interesting_stmt(self, body, s):
        f = field_of_place(s[1]) if s[0] == "=" else None
        if f is not None and f[1] == "highlight_find" and last(f[0]) == "View":
            return True
        return s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and last(s[2][1][1]) in EVENTS

    def describe(self, m, c, op, d):
        if op[0] != "c":
            l = m.labels(op, d)
            if l:
                return l
            k = m.key(op[1], d)
            n = 0
            while k is not None and d.get((k, "r")) and n < 6:
                k = d[(k, "r")][0]
                n += 1
            v = self.at(m, k, d)
            if v == "Some":
                v = d.get((k + (("d", "Some"), ("f", 0)), "l"), v)
            if v is not None:
                return v
        else:
            v = m.constval(op)
            if v is not None:
                return v
        return "?"

    def at(self, m, k, d):
        return d.get((k, "v")) or d.get((k, "c"))

    def closure(self, c, i):
        """What the function given to an operation does."""
        out = set()
        t = arg_ty(c, i)
        for x in find_callables(t) if t is not None else ():
            for k in self.r.callable_targets(x):
                for y in self.r.calls(k).values():
                    if last(y.name) in FNS:
                        out.add((last(y.name),) + tuple(v for v in (self.m.constval(a) for a in y.args if a[0] == "c") if v is not None))
        return tuple(sorted(out, key=str))

    def undo_mark(self, c):
        n = last(c.name)
        return n if n in ("insert", "remove") and (origin(c.inst.body, c.args[0]) or ("", ""))[1] == "undos" else None

    def call(self, m, c, q, d):
        self.m = m
        k = self.undo_mark(c) if c.args and not c.targets else None
        if k:
            return [(q | {("hide" if k == "insert" else "show",)}, {})]
        o = self.op(c)
        if o is None:
            return None
        self.n += 1
        name, args = o
        desc = (name,) + tuple(self.closure(c, i) if a == "fn" else self.describe(m, c, c.args[i], d) if i < len(c.args) else "?" for i, a in args.items())
        if desc == ("for", "?"):
            # a view taken from the editor's own tables
            return [(q, {})]
        return [(q | {desc}, {((), "l"): "at"} if name == "at" else {})]

    def stmt(self, m, inst, bb, s, q, d):
        if s[0] != "=":
            return q
        f = field_of_place(s[1])
        if f is not None and f[1] == "highlight_find" and last(f[0]) == "View" and s[2][0] == "use":
            return q | {("visible", m.labels(s[2][1], d) if s[2][1][0] != "c" else "?")}
        if s[2][0] == "agg" and s[2][1][0] == "adt" and last(s[2][1][1]) == "FindQuery":
            return q | {("query",) + tuple((m.labels(a, d) if a[0] != "c" else None) or "?" for a in s[2][2][1:])}
        return q


def run_from(ctx, root, env, operations=OPERATIONS):
    rule = Cmd()
    rule.operations = operations
    rule.n = 0
    rule.r = ctx.r
    rule.root = root.body.uid
    m = Machine(ctx.p, ctx.r, rule)
    out = {frozenset(q) for q, _ in m.run(root, frozenset(), env)}
    ctx.take(m, "commands")
    return out


def payload(ctx, ty, variant, base):
    """Facts naming each value a command carries."""
    t = ("adt", ty, ())
    a = ctx.p.adts[ty]
    env = {}
    wires = names_of(ctx, ty).get(variant if a["k"] == "enum" else "")
    wires = {f: n for n, f in wires[0].items()} if wires else {}
    if a["k"] == "enum":
        env[(base, "v")] = variant
        base += (("d", variant),)
    fs = next(x["f"] for x in a["v"] if a["k"] != "enum" or x["n"] == variant)
    for i, f in enumerate(fs):
        ft = ctx.p.field_ty(None, t, variant if a["k"] == "enum" else None, i)
        k = base + (("f", i),)
        if f[0].isdigit() and ft is not None and ft[0] == "adt" and ft[1] in ctx.p.adts and ctx.p.adts[ft[1]]["k"] != "enum":
            env.update(payload(ctx, ft[1], None, k))
        if f[0].isdigit():
            env[(k, "l")] = "payload"
        else:
            env[(k, "l")] = wires.get(f[0], f[0])
            if ft is not None and ft[0] == "adt" and last(ft[1]) == "Option":
                env[(k + (("d", "Some"), ("f", 0)), "l")] = wires.get(f[0], f[0])
            elif ft is not None and ft[0] == "adt" and ft[1].startswith(CORE) and ctx.p.adts.get(ft[1], {}).get("k") == "struct" and not ctx.p.adts[ft[1]]["v"][0]["f"][0][0].isdigit():
                env.update(payload(ctx, ft[1], None, k))
    return env


def names_of(ctx, ty):
    if not hasattr(ctx, "_wire"):
        ctx._wire = {}
    if ty not in ctx._wire:
        try:
            ctx._wire[ty] = wire.structs(ctx, ty)
        except AnchorMissing:
            ctx._wire[ty] = {}
    return ctx._wire[ty]


# ------------------------------------------------------------------------------------- the protocol
NOTHING = ()
MOVES = {"up": "Up", "down": "Down", "left": "Left", "right": "Right", "word_left": "LeftWord", "word_right": "RightWord", "to_beginning_of_paragraph": "StartOfParagraph",
         "to_end_of_paragraph": "EndOfParagraph", "to_left_end_of_line": "LeftOfLine", "to_right_end_of_line": "RightOfLine", "to_beginning_of_document": "StartOfDocument", "to_end_of_document": "EndOfDocument"}
# name: what has to be done (the first alternative must be possible, the others are the only other ones)
EDIT = {
    "insert": [[("insert", "chars")], [("surround",)]],
    "paste": [[("insert", "chars")], [("insert_line", "?")], NOTHING],
    "move_backward": [[("select", "Left", False)]],
    "move_forward": [[("select", "Right", False)]],
    "scroll_page_up": [[("select", "UpPage", False)]],
    "page_up_and_modify_selection": [[("select", "UpPage", True)]],
    "scroll_page_down": [[("select", "DownPage", False)]],
    "page_down_and_modify_selection": [[("select", "DownPage", True)]],
    "delete_backward": [[("delete_backward",)]],
    "delete_forward": [[("delete", "Right", False)]],
    "delete_word_forward": [[("delete", "RightWord", False)]],
    "delete_word_backward": [[("delete", "LeftWord", False)]],
    "delete_to_end_of_paragraph": [[("delete", "EndOfParagraphKill", True)]],
    "delete_to_beginning_of_line": [[("delete", "LeftOfLine", False)]],
    "insert_newline": [[("insert_newline",)]],
    "insert_tab": [[("insert_tab",)]],
    "duplicate_line": [[("duplicate_line",)]],
    "yank": [[("insert", "killed")]],
    "transpose": [[("transpose",)]],
    "select_all": [[("select_all",)]],
    "collapse_selections": [[("collapse",)]],
    "add_selection_above": [[("region", "UpExactPosition", False)], NOTHING],
    "add_selection_below": [[("region", "DownExactPosition", False)], NOTHING],
    "undo": [[("hide",), ("undo",)], NOTHING],
    "redo": [[("show",), ("undo",)], NOTHING],
    "uppercase": [[("transform", (("to_uppercase",),))]],
    "lowercase": [[("transform", (("to_lowercase",),))]],
    "capitalize": [[("capitalize",), ("collapse",)]],
    "indent": [[("indent", "In")]],
    "outdent": [[("indent", "Out")]],
    "increase_number": [[("number", (("checked_add", 1),))]],
    "decrease_number": [[("number", (("checked_sub", 1),))]],
    "scroll": [[("scroll", "first", "last")]],
    "resize": [[("size", "payload")]],
    "request_lines": [[("lines", "first", "last")]],
    "goto_line": [[("at", "line", 0), ("caret", "at")]],
    "find": [[("find", "?"), ("query", "chars", "case_sensitive", "regex", "whole_words")]],
    "multi_find": [[("find", "queries")]],
    "find_next": [[("find_next", False, "wrap_around", "allow_same", "modify_selection")]],
    "find_previous": [[("find_next", True, "wrap_around", "allow_same", "modify_selection")]],
    "find_all": [[("find_all",)]],
    "highlight_find": [[("visible", "visible")]],
    "selection_for_find": [[("selection_for_find", "case_sensitive")]],
    "replace": [[("replace", "chars", "preserve_case")]],
    "selection_for_replace": [[("selection_for_replace",)]],
    "replace_next": [[("collapse",), ("find_next", False, True, True, "?"), ("insert", "?")], [("collapse",), ("find_next", False, True, True, "?")], NOTHING],
    "replace_all": [[("collapse",), ("find_all",), ("insert", "?")], [("collapse",), ("find_all",)], NOTHING],
    "selection_into_lines": [[("into_lines",)]],
    "request_hover": [[("hover", "request_id", "position")]],
    "toggle_recording": [[("toggle", "recording_name")]],
    "play_recording": [[("play", "recording_name")]],
    "clear_recording": [[("clear", "recording_name")]],
}
for _k, _v in MOVES.items():
    EDIT["move_" + _k] = [[("select", _v, False)]]
    EDIT["move_" + _k + "_and_modify_selection"] = [[("select", _v, True)]]
# parameters: required, optional
PARAMS = {
    "insert": ("chars", ""), "paste": ("chars", ""), "goto_line": ("line", ""), "gesture": ("line col ty", ""), "find": ("chars case_sensitive", "regex whole_words"), "multi_find": ("queries", ""),
    "find_next": ("", "wrap_around allow_same modify_selection"), "find_previous": ("", "wrap_around allow_same modify_selection"), "highlight_find": ("visible", ""), "selection_for_find": ("", "case_sensitive"),
    "replace": ("chars", "preserve_case"), "request_hover": ("request_id", "position"), "toggle_recording": ("", "recording_name"), "play_recording": ("recording_name", ""), "clear_recording": ("recording_name", ""),
}
NOTES = {
    "save": [[("save", "view_id", "file_path")]],
    "close_view": [[("close", "view_id")]],
    "set_theme": [[("theme", "theme_name")]],
    "modify_user_config": [[("config", "domain", "changes")]],
    "set_language": [[("language", "view_id", "language_id")]],
    "save_trace": [[("save_trace", "destination", "frontend_samples")]],
    "client_started": [[("setup", "config_dir", "client_extras_dir")]],
}
NOTE_PARAMS = {
    "save": ("view_id file_path", ""), "close_view": ("view_id", ""), "set_theme": ("theme_name", ""), "modify_user_config": ("domain changes", ""), "set_language": ("view_id language_id", ""),
    "client_started": ("", "config_dir client_extras_dir"), "save_trace": ("destination frontend_samples", ""), "tracing_config": ("enabled", ""),
}
PLUGIN_NOTES = {
    "start": [[("start", "plugin_name")]],
    "stop": [[("stop", "plugin_name")]],
    "plugin_rpc": [[("rpc", "view_id", "receiver", "method", "params")]],
}
PLUGIN_PARAMS = {"start": ("view_id plugin_name", ""), "stop": ("view_id plugin_name", ""), "plugin_rpc": ("view_id receiver rpc", "")}
ASKS = {
    "new_view": [[("new", "file_path")], [("new", "None")]],
    "get_config": [[("get_config", "view_id")]],
    "debug_get_contents": [[("contents", "view_id")]],
}
ASK_PARAMS = {"new_view": ("", "file_path"), "get_config": ("view_id", ""), "debug_get_contents": ("view_id", "")}
REQUESTS = {"cut": [[("extract_selected",), ("delete_selected",)]], "copy": [[("extract_selected",)]]}


def at(*op):
    return [("at", "line", "col"), op]


ENUMS = {
    "rpc::SelectionModifier": {"none": "None", "set": "Set", "add": "Add", "add_removing_current": "AddRemovingCurrent"},
    "rpc::SelectionGranularity": {"point": "Point", "word": "Word", "line": "Line"},
}
STRUCTS = {
    "rpc::GestureType": {"Select": "granularity multi", "SelectExtend": "granularity"},
    "rpc::FindQuery": {"": "id chars case_sensitive regex whole_words"},
    "rpc::Position": {"": "line column"},
    "view::Size": {"": "width height"},
}
# gesture: what the payload is and what it does
GESTURES = {
    "select": at("gesture_select", "at", "granularity", "multi"),
    "select_extend": at("gesture_extend", "at", "granularity"),
    "drag": at("gesture_drag", "at"),
    "point_select": at("gesture_select", "at", "Point", False),
    "toggle_sel": at("gesture_select", "at", "Point", True),
    "range_select": at("gesture_extend", "at", "Point"),
    "line_select": at("gesture_select", "at", "Line", False),
    "word_select": at("gesture_select", "at", "Word", False),
    "multi_line_select": at("gesture_select", "at", "Line", True),
    "multi_word_select": at("gesture_select", "at", "Word", True),
}
CLICKS = {
    (2, 1): ("gesture_extend", "at", "Point"),
    (0, 1): ("gesture_select", "at", "Point", False),
    (0, 2): ("gesture_select", "at", "Word", False),
    (0, 3): ("gesture_select", "at", "Line", False),
    (0, None): ("gesture_select", "at", "Point", False),
    (2, None): ("gesture_extend", "at", "Point"),
}


def judge(ctx, name, got, want, at_):
    want = [frozenset(w) for w in want]
    ctx.expect(want[0] in got, "does", f"{name} does {show(want[0])}", f"does:{name}", f"{name} never does {show(want[0])}, only {' or '.join(show(g) for g in sorted(got, key=str))}", at_)
    for g in sorted(got, key=str):
        if g not in want:
            ctx.expect(False, "only", f"{name} does only that", f"only:{name}:{show(g)}", f"{name} can do {show(g)} instead of {show(want[0])}", at_)


def show(ops):
    return " + ".join(sorted(o[0] + ("(" + ", ".join(str(x) for x in o[1:]) + ")" if len(o) > 1 else "") for o in ops)) or "nothing"


def edit_commands(ctx):
    ty = CORE + "rpc::EditNotification"
    names = wire.variants(ctx, ty)
    root = ctx.inst(CTX + "do_edit")
    where = root.body.loc(root.body.line)
    base = {((1, "*", ("f", ctx.fidx("event_context::EventContext", "kill_ring"))), "l"): "killed"}
    for n, want in EDIT.items():
        v = names.get(n)
        if not ctx.expect(v is not None, "name", f"{n} is accepted", f"name:{n}", f"the command {n} is no longer known", where):
            continue
        judge(ctx, n, run_from(ctx, root, {**base, **payload(ctx, ty, v, (2,))}), want, where)
    # gestures
    gty = CORE + "rpc::GestureType"
    gnames = wire.variants(ctx, gty)
    v = names.get("gesture")
    ctx.expect(v is not None, "name", "gesture is accepted", "name:gesture", "the command gesture is no longer known", where)
    for n, want in GESTURES.items():
        g = gnames.get(n)
        if not ctx.expect(g is not None and v is not None, "name", f"the gesture {n} is accepted", f"name:{n}", f"the gesture {n} is no longer known", where):
            continue
        env = payload(ctx, ty, v, (2,))
        k = (2, ("d", v), ("f", ctx.fidx("rpc::EditNotification", "ty", v)))
        env.pop((k, "l"))
        env.update(payload(ctx, gty, g, k))
        judge(ctx, n, run_from(ctx, root, env), [want], where)
    v = names.get("click")
    for (flags, count), want in CLICKS.items():
        env = click(ctx, ty, v)
        k = (2, ("d", v), ("f", 0))
        env[(k + (("f", ctx.fidx("rpc::MouseAction", "flags")),), "c")] = flags
        kc = k + (("f", ctx.fidx("rpc::MouseAction", "click_count")),)
        env[(kc, "v")] = "Some" if count else "None"
        if count:
            env[(kc + (("d", "Some"), ("f", 0)), "c")] = count
        judge(ctx, f"click with flags {flags}, count {count}", run_from(ctx, root, env), [at(*want)], where)
    v = names.get("drag")
    judge(ctx, "drag", run_from(ctx, root, click(ctx, ty, v)), [at("gesture_drag", "at")], where)


def click(ctx, ty, v):
    env = payload(ctx, ty, v, (2,))
    c = ctx.fidx("rpc::MouseAction", "column")
    for k in list(env):
        if env[k] == "column":
            env[k] = "col"
    return env


def edit_requests(ctx):
    ty = CORE + "rpc::EditRequest"
    names = wire.variants(ctx, ty)
    root = ctx.inst(CTX + "do_edit_sync")
    for n, want in REQUESTS.items():
        v = names.get(n)
        if ctx.expect(v is not None, "name", f"{n} is accepted", f"name:{n}", f"the command {n} is no longer known"):
            judge(ctx, n, run_from(ctx, root, payload(ctx, ty, v, (2,))), want, root.body.loc(root.body.line))


def parameters(ctx, ty, names, table):
    got = names_of(ctx, ty)
    for n, (req, opt) in table.items():
        v = names.get(n)
        acc, need = got.get(v) or ({}, set())
        for p in (req + " " + opt).split():
            ctx.expect(p in acc, "parameter", f"{n} takes {p}", f"parameter:{n}:{p}", f"{n} does not know its parameter {p}")
        extra = need - set(req.split())
        ctx.expect(not extra, "parameter", f"{n} can be sent with just {req or 'nothing'}", f"required:{n}", f"{n} is refused without {', '.join(sorted(extra))}")


def core_commands(ctx):
    note = ctx.inst("<" + CORE + "core::XiCore as xi_rpc::Handler>::handle_notification")
    ask = ctx.inst("<" + CORE + "core::XiCore as xi_rpc::Handler>::handle_request")
    for root, ty, table, params in ((note, "rpc::CoreNotification", NOTES, NOTE_PARAMS), (ask, "rpc::CoreRequest", ASKS, ASK_PARAMS)):
        ty = CORE + ty
        where = root.body.loc(root.body.line)
        names = wire.variants(ctx, ty)
        for n, want in table.items():
            v = names.get(n)
            if ctx.expect(v is not None, "name", f"{n} is accepted", f"name:{n}", f"the command {n} is no longer known", where):
                judge(ctx, n, run_from(ctx, root, payload(ctx, ty, v, (3,))), want, where)
        parameters(ctx, ty, names, params)
        v = names.get("edit")
        if ctx.expect(v is not None, "name", "edit is accepted", "name:edit:" + last(ty)):
            e = ctx.adt("rpc::EditCommand")["v"][0]["f"]
            env = {((3,), "v"): v}
            for i, f in enumerate(e):
                env[((3, ("d", v), ("f", 0), ("f", i)), "l")] = f[0]
            judge(ctx, "edit", run_from(ctx, root, env), [[("for", "view_id"), ("edit", "cmd")], [("for", "view_id")]], where)
    names = wire.variants(ctx, CORE + "rpc::CoreNotification")
    for on in (True, False):
        env = {((3,), "v"): names["tracing_config"], ((3, ("d", names["tracing_config"]), ("f", 0)), "c"): on}
        mark = ("trace_on" if on else "trace_off",)
        judge(ctx, f"tracing_config {on}", run_from(ctx, note, env), [[mark, ("tell_tracing", on)], [mark]], note.body.loc(note.body.line))
    ty = CORE + "rpc::PluginNotification"
    names2 = wire.variants(ctx, ty)
    for n, want in PLUGIN_NOTES.items():
        v = names2.get(n)
        if ctx.expect(v is not None, "name", f"{n} is accepted", f"name:{n}", f"the command {n} is no longer known"):
            k = (3, ("d", names["plugin"]), ("f", 0))
            env = {((3,), "v"): names["plugin"], **payload(ctx, ty, v, k)}
            judge(ctx, n, run_from(ctx, note, env), want, note.body.loc(note.body.line))
    parameters(ctx, ty, names2, PLUGIN_PARAMS)


def run(ctx):
    edit_commands(ctx)
    edit_requests(ctx)
    core_commands(ctx)
    parameters(ctx, CORE + "rpc::EditNotification", wire.variants(ctx, CORE + "rpc::EditNotification"), PARAMS)
    for ty, table in ENUMS.items():
        names = wire.variants(ctx, CORE + ty)
        for n, v in table.items():
            ctx.expect(names.get(n) == v, "value", f"{n} of {last(ty)} is {v}", f"value:{last(ty)}:{n}", f"{n} of {last(ty)} is {names.get(n) or 'no longer known'}, not {v}")
    for ty, table in STRUCTS.items():
        names = names_of(ctx, CORE + ty)
        for v, fields in table.items():
            got = (names.get(v) or ({}, set()))[0]
            for f in fields.split():
                ctx.expect(got.get(f) == f, "field", f"{f} of {last(ty)} {v}", f"field:{last(ty)}:{v}:{f}", f"{f} of {last(ty)} {v} is {'stored as ' + got[f] if f in got else 'no longer known'}")
