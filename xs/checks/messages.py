"""P16, P18: the messages core, plugins and the frontend send each other: their names, their fields and where the values come from."""
from ..esp import Machine, Rule
from .. import wire
from ..lib import *
from .commands import Cmd, CORE, CTX, STATE, judge, payload, run_from

PL = "xi_plugin_lib::"
RPC = "plugins::rpc::"
SENDS = ("send_rpc_notification", "send_rpc_request", "send_rpc_request_async")
STRINGS = ("core::convert::Into::into", "core::convert::From::from", "alloc::string::ToString::to_string", "alloc::borrow::ToOwned::to_owned")
BODY = (("d", "Object"), ("f", 0))


class Send(Rule):
    """State: the messages sent so far, as (kind, name, fields) with fields = {(key, label, type)}."""
    label_prefix = True
    track_consts = True
    label_pass = {"core::clone::Clone::clone", "core::convert::Into::into", "core::convert::From::from", "alloc::borrow::ToOwned::to_owned", "core::convert::AsRef::as_ref",
                  "core::ops::deref::Deref::deref", "alloc::string::ToString::to_string"}

    def interesting(self, c):
        return self.kind(c) is not None or last(c.name) in ("insert", "to_value", "index_mut") and "serde_json" in c.name

    def kind(self, c):
        return last(c.declared) if (c.declared or "").startswith("xi_rpc::Peer::") and last(c.declared) in SENDS else None

    def opaque(self, c):
        return self.kind(c) is not None or "xi_trace" in c.name or not any(t.body.crate["crate"] in ("xi_core_lib", "xi_plugin_lib") for t in c.targets)

    def target(self, m, op, d):
        k = m.key(op[1], d) if op[0] != "c" else None
        n = 0
        while k is not None and d.get((k, "r")) and n < 6:
            k = d[(k, "r")][0]
            n += 1
        return k

    def value(self, m, op, d):
        """(label, type) of a JSON value."""
        k = self.target(m, op, d)
        if k is None:
            return ("?", None)
        o = d.get((k + BODY, "l"))
        if isinstance(o, tuple) and o and o[0] == "obj":
            return o
        l = d.get((k, "l"))
        if isinstance(l, tuple) and l and l[0] in ("val", "obj"):
            return l
        l = m.label_at(k, d)
        return l if isinstance(l, tuple) else (l or "?", None)

    def call(self, m, c, q, d):
        self.n += 1
        kind = self.kind(c)
        if kind:
            name = self.const_at(m, c.args[1], d)
            return [(q | {("ask" if "request" in kind else "tell", name, self.value(m, c.args[2], d))}, {})]
        if not c.targets and (c.declared or c.name) in STRINGS and c.args:
            s = self.const_at(m, c.args[0], d)
            if isinstance(s, str):
                return [(q, {((), "c"): s})]
        if "serde_json" in c.name and last(c.name) == "to_value":
            l = (m.labels(c.args[0], d) if c.args[0][0] != "c" else None)
            if l is None:
                l = self.const_at(m, c.args[0], d)
            if isinstance(l, tuple) and l and l[0] in ("obj", "val"):
                v = l
            else:
                v = self.struct(m, c, d) if l is None else None
                v = v or ("val", "?" if l is None else l, simple(arg_ty(c, 0)))
            k = self.target(m, c.args[0], d)
            o = d.get((k + BODY, "l")) if k is not None else None
            return [(q, {(((("d", "Ok"), ("f", 0))), "l"): o or v, ((), "v"): "Ok"})]
        if "serde_json::map::Map::insert" in c.name:
            k = self.target(m, c.args[0], d)
            key = self.const_at(m, c.args[1], d)
            if k is not None:
                old = d.get((k, "l"))
                old = old[1] if isinstance(old, tuple) and old and old[0] == "obj" else frozenset()
                return [(q, {}, {(k, "l"): ("obj", old | {(key or "?", self.value(m, c.args[2], d))})})]
        if "serde_json::map::Map::new" in c.name:
            return [(q, {((), "l"): ("obj", frozenset())})]
        return None

    def struct(self, m, c, d):
        """The fields of a structure built in place."""
        t = arg_ty(c, 0)
        while t is not None and t[0] == "ref":
            t = t[2]
        k = self.target(m, c.args[0], d)
        a = self.p.adts.get(t[1]) if t is not None and t[0] == "adt" else None
        if k is None or a is None or a["k"] != "struct" or not t[1].startswith("xi_"):
            return None
        out = set()
        for i, f in enumerate(a["v"][0]["f"]):
            fk = k + (("f", i),)
            ft = self.p.field_ty(None, t, None, i)
            l = m.label_at(fk, d)
            if l is None and ft is not None and ft[0] == "adt" and last(ft[1]) == "Option" and d.get((fk, "v")) == "None":
                l = "None"
            out.add((f[0], ("val", "?" if l is None else l, simple(ft))))
        return ("obj", frozenset(out)) if any(v[1] != "?" for _, v in out) else None

    def const_at(self, m, op, d):
        return wire.const_at(m, op, d)


def simple(t):
    """How a value looks on the wire, as far as its type tells."""
    while t is not None and (t[0] in ("ref", "ptr") or t[0] == "adt" and last(t[1]) in ("Box", "Arc", "Rc", "Cow")):
        t = t[2] if t[0] in ("ref", "ptr") else next((x for x in t[2] if x[0] not in ("region",)), None)
    if t is None:
        return None
    if t[0] == "adt":
        n = last(t[1])
        if n in ("Path", "PathBuf", "String", "LanguageId"):
            return "text"
        if n == "Vec":
            return ("list", simple(t[2][0]))
        if n == "Value":
            return None
        return (t[1],) + tuple(x for x in (simple(x) for x in t[2]))
    if t[0] == "str":
        return "text"
    if t[0] in ("slice", "array"):
        return ("list", simple(t[1]))
    if t[0] in ("param", "alias", "proj"):
        return None
    return str(t)




# --------------------------------------------------------------------------------- what is sent
def fields(ctx, ty):
    """Labels for the fields of the receiver."""
    a = ctx.p.adts[wire.full(ctx, ty)]
    return {((1, "*", ("f", i)), "l"): f"self.{f[0]}" for i, f in enumerate(a["v"][0]["f"])}


def sent(ctx, prefixes, more=()):
    """{message: {function: {(kind, {key: label}, {key: type})}}} for the functions whose names start so."""
    out = {}
    for b in sorted((b for b in ctx.p.bodies.values() if b.name.startswith(tuple(prefixes))), key=lambda b: b.name):
        inst = Inst(b)
        rule = Send()
        rule.n, rule.p = 0, ctx.p
        m = Machine(ctx.p, ctx.r, rule)
        env = {((i,), "l"): f"#{i}" for i in range(2, b.argc + 1)}
        if "{closure" not in b.name:
            ty = next((x for p, x in prefixes.items() if b.name.startswith(p)), None)
            env.update(fields(ctx, ty))
        else:
            env = {}
        env.update(more)
        for q, _ in m.run(inst, frozenset(), env):
            for kind, name, v in q:
                if name is not None:
                    out.setdefault(name, {}).setdefault(b.name, set()).add((kind, v))
        ctx.take(m, "messages")
    return out


def labels(v):
    """{key: where the value comes from}, or the source of the whole value."""
    if v[0] != "obj":
        return v[1] if v[0] == "val" else v[0]
    return frozenset((k, labels(x)) for k, x in v[1])


def types(v):
    return {k: x[2] if x[0] == "val" else None for k, x in v[1]} if v[0] == "obj" else {}


def want_of(w):
    return w if isinstance(w, str) else frozenset((k, want_of(x)) for k, x in w.items())


def text(l):
    if isinstance(l, str):
        return l
    return "{" + ", ".join(f"{k}: {text(v)}" for k, v in sorted(l, key=lambda x: str(x[0]))) + "}"


def table(ctx, who, msgs, wanted, accepted=None):
    """Every message of the table is sent exactly so, and nothing else is."""
    for name, (kind, *wants) in wanted.items():
        fns = msgs.get(name)
        if not ctx.expect(fns is not None, "sent", f"{who} sends {name}", f"sent:{who}:{name}", f"{who} no longer sends the message {name}", who):
            continue
        wants = {(kind, want_of(w)) for w in wants}
        got = {f: {(k, labels(v)) for k, v in vs} for f, vs in fns.items()}
        good = {f for f, g in got.items() if g == wants}
        near = min(got.items(), key=lambda x: len(x[1] ^ wants))
        at_ = ctx.inst(near[0]).body
        ctx.expect(bool(good), "fields", f"{who} sends {name} as {' or '.join(text(w[1]) for w in sorted(wants, key=str))}", f"fields:{who}:{name}",
                   f"{who} sends {name} as {' or '.join(k + ' ' + text(v) for k, v in sorted(near[1], key=str))} instead of {' or '.join(k + ' ' + text(v) for k, v in sorted(wants, key=str))}", at_.loc(at_.line))
        for f in sorted(set(got) - good):
            # a helper of a function that is right
            if "{closure" in f or good and any(c in good for c in callers(ctx, f)):
                continue
            b = ctx.inst(f).body
            if good:
                ctx.expect(False, "fields", f"{name} is sent as documented", f"fields:{who}:{name}:{f}", f"{f} sends {name} with other fields", b.loc(b.line))
    for name in sorted(set(msgs) - set(wanted)):
        f = sorted(msgs[name])[0]
        b = ctx.inst(f).body
        if accepted is not None:
            ctx.expect(name in accepted, "known", f"{name} is understood", f"known:{who}:{name}", f"{who} sends {name}, which the other side does not know", b.loc(b.line))


def callers(ctx, name):
    return {i.body.name for i in ctx.callers(ctx.inst(name).body.uid)}


def understood(ctx, who, msgs, kinds, ids=()):
    """Everything sent is accepted by the deserializer on the other side."""
    n = 0
    for kind, ty in kinds.items():
        names, maps = wire.variants(ctx, ty), wire.structs(ctx, ty)
        full = wire.full(ctx, ty)
        for name, fns in msgs.items():
            for f, vs in fns.items():
                b = ctx.inst(f).body
                for k, v in vs:
                    if k != kind:
                        continue
                    var = names.get(name)
                    n += 1
                    if not ctx.expect(var is not None, "known", f"{name} ({kind}) is accepted by {last(full)}", f"known:{who}:{name}", f"{who} sends {name}, which {last(full)} does not accept", b.loc(b.line)):
                        continue
                    t = ("adt", full, ())
                    if var not in maps:
                        ft = ctx.p.field_ty(None, t, var, 0)
                        s = simple(ft)
                        if v[0] == "val":
                            ctx.expect(v[2] in (None, s), "type", f"{name} carries {s}", f"type:{who}:{name}", f"{who} sends {name} with a value of type {v[2]}, but {s} is read", b.loc(b.line))
                        continue
                    names_, req = maps[var] if maps[var] else ({}, set())
                    if v[0] != "obj":
                        continue
                    keys = {x[0] for x in v[1]}
                    ctx.expect(req <= keys - set(ids), "required", f"{name} has {', '.join(sorted(req))}", f"required:{who}:{name}", f"{who} sends {name} without {', '.join(sorted(req - keys))}, which is required", b.loc(b.line))
                    extra = keys - set(names_) - set(ids) - {"?"}
                    ctx.expect(not extra, "read", f"every field of {name} is read", f"read:{who}:{name}", f"{who} sends {name} with {', '.join(sorted(map(str, extra)))}, which is not read", b.loc(b.line))
                    ctx.expect(set(ids) <= keys, "ids", f"{name} says which plugin and view it is about", f"ids:{who}:{name}", f"{who} sends {name} without {', '.join(sorted(set(ids) - keys))}", b.loc(b.line))
                    tys = types(v)
                    for key, field in names_.items():
                        i = ctx.fidx(ty, field, var)
                        s = simple(ctx.p.field_ty(None, t, var, i))
                        g = tys.get(key)
                        ctx.expect(g is None or s is None or g == s, "type", f"{name}.{key} is {s}", f"type:{who}:{name}:{key}", f"{who} sends {key} of {name} as {g}, but {s} is read", b.loc(b.line))
    return n


TO_PLUGIN = {
    "initialize": ("tell", {"plugin_id": "self.id", "buffer_info": "#2"}),
    "new_buffer": ("tell", {"buffer_info": "?"}),
    "shutdown": ("tell", {}),
    "did_close": ("tell", {"view_id": "#2"}),
    "did_save": ("tell", {"view_id": "#2", "path": "#3"}),
    "update": ("ask", "#2"),
    "tracing_config": ("tell", {"enabled": "#2"}),
    "config_changed": ("tell", {"view_id": "#2", "changes": "#3"}),
    "language_changed": ("tell", {"view_id": "#2", "new_lang": "#3"}),
    "get_hover": ("tell", {"view_id": "#2", "request_id": "#3", "position": "#4"}),
    "custom_command": ("tell", {"view_id": "#2", "method": "#3", "params": "#4"}),
    "collect_trace": ("ask", {}),
}
IDS = {"plugin_id": "self.plugin_id", "view_id": "self.view_id"}
EDITED = {"rev": "self.rev", "delta": "#2", "priority": "#3", "after_cursor": "#4", "author": "#6"}
FROM_VIEW = {
    "add_scopes": ("tell", {**IDS, "scopes": "#2"}),
    "edit": ("tell", {**IDS, "edit": {**EDITED, "undo_group": "self.undo_group"}}, {**IDS, "edit": {**EDITED, "undo_group": "None"}}),
    "update_spans": ("tell", {**IDS, "start": "#2", "len": "#3", "spans": "#4", "rev": "self.rev"}),
    "update_annotations": ("tell", {**IDS, "start": "#2", "len": "#3", "spans": "#4", "annotation_type": "#5", "rev": "self.rev"}),
    "add_status_item": ("tell", {**IDS, "key": "#2", "value": "#3", "alignment": "#4"}),
    "update_status_item": ("tell", {**IDS, "key": "#2", "value": "#3"}),
    "remove_status_item": ("tell", {**IDS, "key": "#2"}),
}
PROXY = {"plugin_id": "self.plugin_id", "view_id": "#2"}
FROM_PROXY = {
    "add_status_item": ("tell", {**PROXY, "key": "#3", "value": "#4", "alignment": "#5"}),
    "update_status_item": ("tell", {**PROXY, "key": "#3", "value": "#4"}),
    "remove_status_item": ("tell", {**PROXY, "key": "#3"}),
    "show_hover": ("tell", {**PROXY, "request_id": "#3", "result": "#4"}),
}
FROM_FETCH = {"get_data": ("ask", {**IDS, "start": "#2", "unit": "#3", "max_size": "#4", "rev": "#5"})}
CLIENT, ED, LAYERS = CORE + "client::Client::", CORE + "editor::Editor::", CORE + "layers::Layers::"
PLUGIN_OPS = {
    LAYERS + "add_scopes": ("add_scopes", {1: "plugin", 2: "scopes"}),
    ED + "update_spans": ("spans", {2: "plugin", 3: "start", 4: "len", 5: "spans", 6: "rev"}),
    ED + "update_annotations": ("annotations", {2: "plugin", 3: "start", 4: "len", 5: "spans", 6: "type", 7: "rev"}),
    ED + "apply_plugin_edit": ("edit", {1: "edit"}),
    ED + "plugin_n_lines": ("n_lines", {}),
    ED + "plugin_get_data": ("data", {1: "start", 2: "unit", 3: "max_size", 4: "rev"}),
    CLIENT + "alert": ("alert", {1: "msg"}),
    CLIENT + "add_status_item": ("add_status", {1: "view", 3: "key", 4: "value", 5: "alignment"}),
    CLIENT + "update_status_item": ("update_status", {1: "view", 2: "key", 3: "value"}),
    CLIENT + "remove_status_item": ("remove_status", {1: "view", 2: "key"}),
    CLIENT + "show_hover": ("hover", {1: "view", 2: "request_id", 3: "content"}),
    CTX + "do_plugin_cmd": ("notify", {1: "plugin", 2: "cmd"}),
    CTX + "do_plugin_cmd_sync": ("ask", {1: "plugin", 2: "cmd"}),
    STATE + "make_context": ("for", {1: "view"}),
    CORE + "plugins::Plugin::get_hover": ("ask_hover", {1: "view", 2: "request_id"}),
    CORE + "plugins::Plugin::dispatch_command": ("command", {1: "view", 2: "method", 3: "params"}),
}
PG = CORE + "plugins::Plugin::"
TOLD_OPS = {
    PG + "did_save": ("plugin did_save", {1: "view", 2: "path"}),
    PG + "close_view": ("plugin close", {1: "view"}),
    PG + "config_changed": ("plugin config", {1: "view", 2: "changes"}),
    PG + "language_changed": ("plugin language", {1: "view", 2: "language"}),
    PG + "get_hover": ("plugin hover", {1: "view", 2: "request_id"}),
    PG + "toggle_tracing": ("plugin tracing", {1: "enabled"}),
    CLIENT + "config_changed": ("config", {1: "view", 2: "changes"}),
    CLIENT + "language_changed": ("language", {1: "view", 2: "language"}),
}
# function: arguments, what others are told
TOLD = {
    "after_save": (("path",), [("plugin did_save", "view", "path")], []),
    "close_view": ((), [("plugin close", "view")], []),
    "config_changed": (("changes",), [("plugin config", "view", "changes"), ("config", "view", "changes")], [("config", "view", "changes")]),
    "language_changed": (("language",), [("plugin language", "view", "language"), ("language", "view", "language")], [("language", "view", "language")]),
    "do_request_hover": (("request_id", "position"), [("plugin hover", "view", "request_id")], []),
}
DOES = {
    "add_scopes": [[("add_scopes", "plugin", "scopes")]],
    "update_spans": [[("spans", "plugin", "start", "len", "spans", "rev")]],
    "update_annotations": [[("annotations", "plugin", "start", "len", "spans", "annotation_type", "rev")]],
    "edit": [[("edit", "edit")]],
    "alert": [[("alert", "msg")]],
    "add_status_item": [[("add_status", "view", "key", "value", "alignment")], []],
    "update_status_item": [[("update_status", "view", "key", "value")]],
    "remove_status_item": [[("remove_status", "view", "key")]],
    "show_hover": [[("hover", "view", "request_id", "result")], []],
}
ANSWERS = {
    "line_count": [[("n_lines",)]],
    "get_data": [[("data", "start", "unit", "max_size", "rev")]],
    "get_selections": [[]],
}


def handled(ctx):
    me = {((1, "*", ("f", ctx.fidx("event_context::EventContext", "view_id"))), "l"): "view", ((2,), "l"): "plugin"}
    for ty, fn, tab in (("PluginNotification", "do_plugin_cmd", DOES), ("PluginRequest", "do_plugin_cmd_sync", ANSWERS)):
        names = wire.variants(ctx, RPC + ty)
        root = ctx.inst(CTX + fn)
        where = root.body.loc(root.body.line)
        for n, want in tab.items():
            v = names.get(n)
            if not ctx.expect(v is not None, "name", f"{n} is accepted", f"name:{n}", f"the message {n} of plugins is no longer known", where):
                continue
            env = {**me, **payload(ctx, CORE + RPC + ty, v, (3,))}
            judge(ctx, n, run_from(ctx, root, env, PLUGIN_OPS), want, where)
    for fn, (args, *want) in TOLD.items():
        root = ctx.inst(CTX + fn)
        env = {**me, **{((i + 2,), "l"): n for i, n in enumerate(args)}}
        if not args:
            env.pop(((2,), "l"))
        judge(ctx, fn, run_from(ctx, root, env, TOLD_OPS), want, root.body.loc(root.body.line))
    for fn, op in (("plugin_notification", "notify"), ("plugin_request", "ask")):
        root = ctx.inst(STATE + fn)
        where = root.body.loc(root.body.line)
        env = {((3,), "l"): "view", ((4,), "l"): "plugin", ((5,), "l"): "cmd"}
        judge(ctx, fn, run_from(ctx, root, env, PLUGIN_OPS), [[("for", "view"), (op, "plugin", "cmd")], [("for", "view")]], where)
    root = ctx.inst(STATE + "do_plugin_rpc")
    where = root.body.loc(root.body.line)
    judge(ctx, "plugin_rpc", run_from(ctx, root, {((i,), "l"): n for i, n in ((2, "view"), (3, "receiver"), (4, "method"), (5, "params"))}, PLUGIN_OPS), [[("command", "view", "method", "params")], []], where)


def run_P16(ctx):
    core = sent(ctx, {CORE + "plugins::Plugin::": "xi_core_lib::plugins::Plugin"})
    view = sent(ctx, {PL + "view::View::": "xi_plugin_lib::view::View"})
    proxy = sent(ctx, {PL + "core_proxy::CoreProxy::": "xi_plugin_lib::core_proxy::CoreProxy"})
    fetch = sent(ctx, {f"<{PL}view::FetchCtx as {PL}DataSource>::": "xi_plugin_lib::view::FetchCtx"})
    for who, msgs, wanted, kinds, ids in (
            ("core", core, TO_PLUGIN, {"tell": RPC + "HostNotification", "ask": RPC + "HostRequest"}, ()),
            ("a plugin's view", view, FROM_VIEW, {"tell": RPC + "PluginNotification"}, ("plugin_id", "view_id")),
            ("a plugin", proxy, FROM_PROXY, {"tell": RPC + "PluginNotification"}, ("plugin_id", "view_id")),
            ("the plugin's cache", fetch, FROM_FETCH, {"ask": RPC + "PluginRequest"}, ("plugin_id", "view_id"))):
        table(ctx, who, msgs, wanted)
        ctx.counts["messages understood"] += understood(ctx, who, msgs, kinds, ids)
    for new, group in ((True, "None"), (False, "self.undo_group")):
        msgs = sent(ctx, {PL + "view::View::edit": "xi_plugin_lib::view::View"}, {((5,), "c"): new})
        b = ctx.inst(PL + "view::View::edit").body
        got = {labels(v) for vs in msgs.get("edit", {}).values() for _, v in vs}
        want = want_of({**IDS, "edit": {**EDITED, "undo_group": group}})
        ctx.expect(got == {want}, "undo", f"an edit {'with' if new else 'without'} a new undo group has the group {group}", f"undo:{new}",
                   f"an edit {'with' if new else 'without'} a new undo group is sent as {' or '.join(text(g) for g in got)}", b.loc(b.line))
    handled(ctx)


# ---------------------------------------------------------------------------------- to the frontend
V = {"view_id": "#2"}
TO_FRONTEND = {
    "update": ("tell", {**V, "update": "#3"}),
    "scroll_to": ("tell", {**V, "line": "#3", "col": "#4"}),
    "config_changed": ("tell", {**V, "changes": "#3"}),
    "available_themes": ("tell", {"themes": "#2"}),
    "available_languages": ("tell", {"languages": "#2"}),
    "theme_changed": ("tell", {"name": "#2", "theme": "#3"}),
    "language_changed": ("tell", {**V, "language_id": "#3"}),
    "plugin_started": ("tell", {**V, "plugin": "#3"}),
    "plugin_stopped": ("tell", {**V, "plugin": "#3", "code": "#4"}),
    "available_plugins": ("tell", {**V, "plugins": "#3"}),
    "update_cmds": ("tell", {**V, "plugin": "#3", "cmds": "#4"}),
    "def_style": ("tell", "#2"),
    "find_status": ("tell", {**V, "queries": "#3"}),
    "replace_status": ("tell", {**V, "status": "#3"}),
    "measure_width": ("ask", "#2"),
    "alert": ("tell", {"msg": "#2"}),
    "add_status_item": ("tell", {**V, "source": "#3", "key": "#4", "value": "#5", "alignment": "#6"}),
    "update_status_item": ("tell", {**V, "key": "#3", "value": "#4"}),
    "remove_status_item": ("tell", {**V, "key": "#3"}),
    "show_hover": ("tell", {**V, "request_id": "#3", "result": "#4"}),
}
# structures inside: {name on the wire: field}, the names that may be missing
INSIDE = {
    "client::Update": ("ops pristine annotations", ""),
    "client::UpdateOp": ("op n", "lines ln"),
    "find::FindStatus": ("id chars case_sensitive is_regex whole_words matches lines", ""),
    "view::Replace": ("chars preserve_case", ""),
    "width_cache::WidthReq": ("id strings", ""),
    "plugins::rpc::ClientPluginInfo": ("name running", ""),
    "styles::Style": ("fg_color", "bg_color weight underline italic"),
    "plugins::manifest::Command": ("title description rpc_cmd args", ""),
    "plugins::manifest::CommandArgument": ("title description key arg_type options", "options"),
}
KINDS = {"Insert": "ins", "Skip": "skip", "Invalidate": "invalidate", "Copy": "copy", "Update": "update"}
# constructor of an op: kind, n, lines, ln
OPS = {
    "invalidate": ("Invalidate", "#1", "None", "None"),
    "skip": ("Skip", "#1", "None", "None"),
    "copy": ("Copy", "#1", "None", "#2"),
    "insert": ("Insert", "len", "#1", "None"),
    "update": ("Update", "len", "#1", "#2"),
}
NAMES = {"Find": "find", "Selection": "selection"}


class Ops(Rule):
    label_prefix = True
    track_consts = True

    def interesting(self, c):
        return last(c.name) == "len"

    def interesting_stmt(self, body, s):
        return s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and last(s[2][1][1]) == "UpdateOp"

    def call(self, m, c, q, d):
        if last(c.name) == "len" and not c.targets:
            return [(q, {((), "l"): "len"})]
        return None


class Strings(Rule):
    """The text constants used on the way."""

    def interesting_stmt(self, body, s):
        return s[0] == "=" and s[2][0] == "use" and s[2][1][0] == "c" and isinstance(s[2][1][2], str)

    def stmt(self, m, inst, bb, s, q, d):
        return q | {s[2][1][2]} if self.interesting_stmt(inst.body, s) else q


class Keys(Rule):
    """The keys set in a JSON object, in q."""
    track_consts = True

    def opaque(self, c):
        return any("styles::" in t.body.name or "client::" in t.body.name for t in c.targets)

    def interesting(self, c):
        return last(c.name) in ("index_mut", "insert") and "serde_json" in c.name

    def call(self, m, c, q, d):
        if not c.targets and (c.declared or c.name) in STRINGS and c.args:
            k = wire.const_at(m, c.args[0], d)
            return [(q, {((), "c"): k})] if isinstance(k, str) else None
        if self.interesting(c):
            k = wire.const_at(m, c.args[1], d)
            return [(q | {k if isinstance(k, str) else "?"}, {})]
        return None


class Place(Cmd):
    """scroll_to: which part of a position goes where."""

    def interesting(self, c):
        return last(c.name) == "offset_to_line_col" or Cmd.interesting(self, c)

    def opaque(self, c):
        return last(c.name) == "offset_to_line_col" or Cmd.opaque(self, c)

    def call(self, m, c, q, d):
        if last(c.name) == "offset_to_line_col":
            return [(q, {((("f", 0),), "l"): "line", ((("f", 1),), "l"): "col"})]
        return Cmd.call(self, m, c, q, d)


def inside(ctx):
    for suffix, (req, opt) in INSIDE.items():
        ty = wire.full(ctx, suffix)
        bs = wire.ser_bodies(ctx, ty)
        at_ = bs[0].loc(bs[0].line) if bs else ""
        ctx.fns.add(ty)
        w = [{n: f for k, n, f in q if k == "field"} for q in wire.written(ctx, ty)[""]]
        always, ever = set.intersection(*(set(x) for x in w)), set().union(*w)
        req, opt = set(req.split()) - set(opt.split()), set(opt.split())
        ctx.expect(req <= always, "inside", f"{last(ty)} has {', '.join(sorted(req))}", f"inside:{ty}", f"{last(ty)} may be sent without {', '.join(sorted(req - always))}", at_)
        ctx.expect(opt <= ever, "inside", f"{last(ty)} can have {', '.join(sorted(opt))}", f"inside:{ty}:optional", f"{last(ty)} is never sent with {', '.join(sorted(opt - ever))}", at_)
        own = {f[0] for f in ctx.p.adts[ty]["v"][0]["f"]}
        for x in w:
            for n, f in x.items():
                ctx.expect(f == n or n not in own, "inside", f"{n} of {last(ty)} is its {n}", f"inside:{ty}:{n}", f"{n} of {last(ty)} is written from {f}", at_)
    w = wire.written(ctx, CORE + "client::OpType")
    for v, n in KINDS.items():
        got = {x[1] for q in w.get(v, ()) for x in q if x[0] == "variant"}
        ctx.expect(got == {n}, "op", f"the op {n} is named so", f"op:{n}", f"the op {n} is sent as {', '.join(sorted(got))}", "")
    ty = wire.full(ctx, "client::UpdateOp")
    fi = {f[0]: i for i, f in enumerate(ctx.p.adts[ty]["v"][0]["f"])}
    ln = next((f for q in wire.written(ctx, ty)[""] for k, n, f in q if n == "ln" and k == "field"), None)
    for fn, want in OPS.items():
        root = ctx.inst(f"{ty}::{fn}")
        rule = Ops()
        m = Machine(ctx.p, ctx.r, rule)
        env = {((i,), "l"): f"#{i}" for i in range(1, root.body.argc + 1)}
        for q, facts in m.run(root, (), env):
            f = dict(facts)

            def part(name):
                k = (0, ("f", fi[name]))
                some = (("d", "Some"), ("f", 0))
                return f.get((k + some, "l")) or (f.get((k, "v")) if f.get((k, "v")) != "Some" else None) or f.get((k, "l")) or "?"
            got = (part("op"), part("n"), part("lines"), part(ln) if ln in fi else "?")
            b = root.body
            ctx.expect(got == want, "op", f"the op {fn} has the kind, number of lines, lines and line number given", f"op:{fn}:parts", f"the op {fn} is built of {got}, expected {want}", b.loc(b.line))
        ctx.take(m, "ops")


def returned(ctx, name, env):
    """JSON objects a function returns."""
    root = ctx.inst(name)
    rule = Send()
    rule.n, rule.p = 0, ctx.p
    m = Machine(ctx.p, ctx.r, rule)
    out = set()
    for q, facts in m.run(root, frozenset(), env):
        f = dict(facts)
        o = f.get(((0,) + BODY, "l")) or f.get(((0,), "l"))
        out.add(o)
    ctx.take(m, "messages")
    return out, root.body.loc(root.body.line)


def json_parts(ctx):
    # annotations
    a = wire.full(ctx, "annotations::AnnotationSlice")
    got, at_ = returned(ctx, a + "::to_json", fields(ctx, a))
    keys = {k: v for o in got if isinstance(o, tuple) and o[0] == "obj" for k, v in o[1]}
    for k in ("type", "ranges", "payloads", "n"):
        ctx.expect(k in keys, "annotation", f"annotations have {k}", f"annotation:{k}", f"annotations are sent without {k}", at_)
        if k in ("ranges", "payloads") and k in keys:
            ctx.expect(labels(keys[k]) == "self." + k, "annotation", f"{k} are the annotations' {k}", f"annotation:{k}:value", f"{k} of annotations is {labels(keys[k])}", at_)
    root = ctx.inst(CORE + "annotations::AnnotationType::as_str")
    for v, n in NAMES.items():
        m = Machine(ctx.p, ctx.r, Strings())
        got = {x for q, _ in m.run(root, frozenset(), {((1, "*"), "v"): v}) for x in q}
        ctx.expect(got == {n}, "annotation", f"the type of {v} is {n}", f"annotation:type:{n}", f"annotations of the type {v} are called {got}", root.body.loc(root.body.line))
        ctx.take(m, "messages")
    # styles
    root = ctx.inst(CORE + "styles::Style::to_json")
    m = Machine(ctx.p, ctx.r, Keys())
    got = {q for q, _ in m.run(root, frozenset(), {})}
    ctx.expect(got == {frozenset({"id"})}, "style", "a style is defined with its id", "style:id", f"a style is defined with {sorted(map(sorted, got))} besides its parts", root.body.loc(root.body.line))
    ctx.take(m, "messages")
    # lines
    root = ctx.inst(CORE + "view::View::encode_line")
    t, s = 5, 6
    for text_, style in ((True, True), (False, False)):
        m = Machine(ctx.p, ctx.r, Keys())
        env = {((t,), "v"): "Some" if text_ else "None", ((s,), "v"): "Some" if style else "None"}
        got = {q for q, _ in m.run(root, frozenset(), env)}
        ctx.take(m, "messages")
        at_ = root.body.loc(root.body.line)
        must = {"text", "styles"} if text_ else {"cursor"}
        may = {"text", "styles", "cursor", "ln"} if text_ else {"cursor", "ln"}
        kind = "a new line" if text_ else "a line whose cursors changed"
        for q in got:
            ctx.expect(must <= q, "line", f"{kind} has {', '.join(sorted(must))}", f"line:{kind}", f"{kind} may be sent without {', '.join(sorted(must - q))}", at_)
            ctx.expect(q <= may, "line", f"{kind} has only {', '.join(sorted(may))}", f"line:{kind}:only", f"{kind} may be sent with {', '.join(sorted(q - may))}", at_)
        ctx.expect(any("ln" in q for q in got) and any("cursor" in q for q in got), "line", f"{kind} can have a number and cursors", f"line:{kind}:can", f"{kind} is never sent with its number or its cursors", at_)


VIEW_OPS = {CLIENT + "scroll_to": ("scroll_to", {1: "view", 2: "line", 3: "col"})}
GONE_OPS = {
    CLIENT + "plugin_started": ("started", {1: "view", 2: "plugin"}),
    CLIENT + "plugin_stopped": ("stopped", {1: "view", 2: "plugin", 3: "code"}),
}


def callers_tell(ctx):
    root = ctx.inst(CORE + "view::View::render_if_dirty")
    for fn in ("render_if_dirty",):
        rule = Place()
        rule.operations = VIEW_OPS
        rule.n, rule.r, rule.root = 0, ctx.r, root.body.uid
        m = Machine(ctx.p, ctx.r, rule)
        vt = wire.full(ctx, "xi_core_lib::view::View")
        vi = next(k for k, f in enumerate(ctx.p.adts[vt]["v"][0]["f"]) if f[0] == "view_id")
        got = {frozenset(o for o in q if o[0] == "scroll_to") for q, _ in m.run(root, frozenset(), {((1, "*", ("f", vi)), "l"): "view"})}
        ctx.take(m, "messages")
        judge(ctx, "showing the cursor", got, [[("scroll_to", "view", "line", "col")], []], root.body.loc(root.body.line))
    me = {((1, "*", ("f", ctx.fidx("event_context::EventContext", "view_id"))), "l"): "view"}
    name = {((2, "*", ("f", ctx.fidx("plugins::Plugin", "name"))), "l"): "plugin"}
    root = ctx.inst(CTX + "plugin_started")
    judge(ctx, "starting a plugin", run_from(ctx, root, {**me, **name}, GONE_OPS), [[("started", "view", "plugin")]], root.body.loc(root.body.line))
    for fn, code in (("do_stop_plugin", 0), ("plugin_exit", 1)):
        root = ctx.inst(STATE + fn)
        got = {frozenset(("stopped", o[3]) for o in q if o[0] == "stopped") for q in run_from(ctx, root, {}, GONE_OPS)}
        judge(ctx, "a plugin stopped by the user" if code == 0 else "a plugin that ends", got, [[("stopped", code)], []], root.body.loc(root.body.line))


def run_P18(ctx):
    msgs = sent(ctx, {CORE + "client::Client::": "xi_core_lib::client::Client"})
    table(ctx, "core", msgs, TO_FRONTEND)
    for name in sorted(set(msgs) - set(TO_FRONTEND)):
        ctx.counts["messages not documented"] += 1
    inside(ctx)
    json_parts(ctx)
    callers_tell(ctx)
