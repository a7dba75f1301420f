"""P22: what the library for plugins does with each message of core before and after it calls the plugin."""
from ..esp import LoopRule, Machine
from .. import wire
from ..lib import *
from .commands import CORE, payload
from . import commands

LIB = "xi_plugin_lib::"
DISP = LIB + "dispatch::Dispatcher"
HANDLER = "xi_rpc::parse::Handler"
MAPS = ("HashMap", "BTreeMap", "Entry")


class Told(LoopRule):
    """state: (what has been done to the view and the tables, calls of the plugin with what was done before)."""
    label_prefix = True
    track_consts = True
    label_pass = commands.Cmd.label_pass | {"[T]::first", "[T]::last", "[T]::get", "[T]::iter", "serde_json::map::Map::iter", "core::iter::traits::iterator::Iterator::map", "core::iter::traits::iterator::Iterator::filter", "core::iter::traits::collect::IntoIterator::into_iter"}

    def method(self, c):
        d = c.declared or ""
        for t in ("Plugin::", "Cache::"):
            if d.startswith(LIB + t):
                return t + last(d)
        return None

    def table(self, c):
        n = last(c.name)
        t = self_ty(c)
        if t is None or t[0] != "adt" or last(t[1]) not in ("HashMap", "BTreeMap", "Map") or c.targets:
            return None
        if n not in ("get", "get_mut", "contains_key", "insert", "remove", "clear", "retain", "extend", "append", "get_key_value", "remove_entry"):
            return None
        return ("table" if last(t[1]) == "Map" else "views", n)

    def loop(self, c):
        d = c.declared or ""
        t = arg_ty(c, 0)
        if not d.endswith(("Iterator::next", "Iterator::for_each", "Iterator::try_for_each")) or t is None:
            return None
        if has_adt(t, "PluginBufferInfo"):
            return "info"
        return "change" if "serde_json" in str(t) and last(peel(t)[1] if peel(t)[0] == "adt" else "") in ("Iter", "IntoIter", "Keys") else None

    def swapped(self, c):
        """A field of a view that is exchanged for something else."""
        if last(c.name) in ("replace", "insert", "swap", "take", "get_or_insert") and not c.targets and c.args and ("Option" in c.name or "::mem::" in c.name):
            o = origin(c.inst.body, c.args[0])
            return o[1] if o is not None and last(o[0]) in ("View", "Dispatcher") else None
        return None

    def chained(self, c):
        t = arg_ty(c, 0)
        return t is not None and has_adt(t, "PluginBufferInfo")

    def item(self, c, token):
        if token == "info":
            return payload(self.ctx, CORE + "plugins::rpc::PluginBufferInfo", None, ())
        return {((("f", 0),), "l"): "key", ((("f", 1),), "l"): "value"}

    def step(self, m, c, q, token, more):
        done, calls = q
        if ("open", token) in done:
            done = done | {("skipped", token)}
        return (done | {("open", token)} if more else done - {("open", token)}, calls)

    def event(self, c):
        return self.method(c) is not None or self.swapped(c) is not None or self.table(c) is not None or last(c.name) in ("enable_tracing", "disable_tracing", "from_value")

    def opaque(self, c):
        if any(t.body.name.startswith("xi_rpc::") and "RemoteError" in t.body.name for t in c.targets):
            return False
        return "xi_trace" in c.name or bool(c.targets) and all(t.body.crate["crate"] not in ("xi_plugin_lib",) and not t.body.name.endswith(("::into", "::from")) for t in c.targets)

    def interesting_stmt(self, body, s):
        return s[0] == "=" and (self.state(s) is not None or s[2][0] == "agg" and s[2][1][0] == "adt" and last(s[2][1][1]) in ("CoreProxy", "RemoteError"))

    def state(self, s):
        f = field_of_place(s[1])
        return f[1] if f is not None and last(f[0]) in ("View", "Dispatcher") else None

    def name(self, m, op, d):
        if op[0] == "c":
            v = m.constval(op)
            return "?" if v is None else v
        k = m.key(op[1], d)
        n = 0
        while k is not None and d.get((k, "r")) and n < 6:
            k = d[(k, "r")][0]
            n += 1
        return self.name_at(m, k, d)

    def name_at(self, m, k, d):
        v = d.get((k, "v"))
        if v == "None":
            return "None"
        for x in (k + (("d", "Some"), ("f", 0)), k + (("d", "Object"), ("f", 0)), k):
            l = m.label_at(x, d)
            if l:
                return l
            if (x, "r") in d:
                l = self.name_at(m, d[(x, "r")][0], d)
                if l != "?":
                    return l
        for x in (("f", self.fields.index("view_id")), ("f", 0)):
            # a view is known by its identifier, the proxy of core by the plugin's
            l = m.label_at(k + (x,), d)
            if l:
                return l
        return d.get((k, "c"), "?")

    def on_event(self, m, c, q, d):
        done, calls = q
        n = last(c.name)
        if n in ("enable_tracing", "disable_tracing"):
            return [((done | {("tracing", n == "enable_tracing")}, calls), {})]
        f = self.swapped(c)
        if f is not None:
            if n != "take":
                done = done | {(f, self.name(m, c.args[1], d))}
            return [((done, calls), {((), "l"): "old " + f, ((("d", "Some"), ("f", 0)), "l"): "old " + f})]
        if n == "from_value":
            l = self.name(m, c.args[0], d)
            return [((done | {("made", l)}, calls), {((), "l"): l} if l != "?" else {})]
        p = self.method(c)
        if p is not None:
            self.n += 1
            args = tuple(self.name(m, a, d) for a in c.args[p != "Cache::new":])
            if p.startswith("Cache::"):
                return [((done | {(p,) + args}, calls), {((), "l"): "cache"})]
            if p == "Plugin::new_view":
                k = m.opkey(c.args[1], d)
                k = d[(k, "r")][0] if k is not None and (k, "r") in d else k
                done = done | {(f, self.name_at(m, k + (("f", i),), d)) for i, f in enumerate(self.fields)} if k is not None else done
            call = (p[8:],) + args + (done,)
            return [((q[0], calls if call in calls else calls + (call,)), {})]
        if self.table(c) is None:
            return None
        t, n = self.table(c)
        if t == "table":
            if n == "insert":
                ev = ("table",) + tuple(self.name(m, a, d) for a in c.args[1:])
            elif n == "extend" and self.name(m, c.args[1], d) == "changes" and self.chain(m, arg_ty(c, 1)):
                got = {(ok, fs.get(((("f", 0),), "l")), fs.get(((("f", 1),), "l"))) for ok, _, _, fs in self.through(m, c, q, d, self.chain(m, arg_ty(c, 1)), "change")}
                ev = ("table",) + (got.pop()[1:] if len(got) == 1 and all(x[0] for x in got) else ("?",))
            elif n in ("extend", "append"):
                ev = ("table",) + (("key", "value") if self.name(m, c.args[1], d) == "changes" else ("?",))
            elif n in ("get", "contains_key"):
                return None
            else:
                ev = ("table", n)
            late = {("late", "table")} if any(x[0] == "made" and x[1] == "old config_table" for x in done) else set()
            return [(((done | {ev} | late) - {("open", "change")}, calls), {})]
        l = self.name(m, c.args[1], d) if len(c.args) > 1 else "?"
        if n in ("get", "get_mut", "contains_key", "remove", "get_key_value", "remove_entry"):
            gone = {("removed", l)} if n.startswith("remove") else set()
            known = n == "contains_key"
            if ("missing", l) in done or ("found", l) in done:
                alt = [("found", l) in done]
            else:
                alt = [True, False]
            outs = []
            for a in alt:
                q2 = (done | {("found" if a else "missing", l)} | (gone if a else set()), calls)
                if known:
                    outs.append((q2, {((), "c"): a}))
                elif not a:
                    outs.append((q2, {((), "v"): "None"}))
                else:
                    s = (("d", "Some"), ("f", 0)) + ((("f", 1),) if n in ("get_key_value", "remove_entry") else ())
                    fs = {((), "v"): "Some", (s, "l"): "the view"}
                    for i, f in enumerate(self.fields):
                        fs[(s + (() if gone else ("*",)) + (("f", i),), "l")] = "old " + f
                    outs.append((q2, fs))
            return outs
        if n == "insert":
            k = m.opkey(c.args[2], d) if c.args[2][0] != "c" else None
            view = self.name_at(m, k + (("f", self.fields.index("view_id")),), d) if k is not None else "?"
            return [(((done | {("inserted", l, view)}) - {("open", "info")}, calls), {})]
        return [((done | {(n,)}, calls), {})]

    def stmt(self, m, inst, bb, s, q, d):
        if s[0] != "=":
            return q
        f = self.state(s)
        if f is None or s[2][0] not in ("use", "agg"):
            return q
        if s[2][0] == "agg" and s[2][1][0] == "adt" and last(s[2][1][1]) == "Option":
            if not s[2][2]:
                return q
            l = self.name(m, s[2][2][0], d)
        elif s[2][0] == "use":
            l = self.name(m, s[2][1], d)
        else:
            l = "?"
        if f in ("cache", "peer"):
            return q
        return (q[0] | {(f, l)}, q[1])


def explore(ctx, root, env):
    rule = Told()
    rule.n = 0
    rule.ctx = ctx
    rule.fields = [x[0] for x in ctx.p.adts[LIB + "view::View"]["v"][0]["f"]]
    m = Machine(ctx.p, ctx.r, rule)
    out = [(q, fs) for q, fs in m.run(root, (frozenset(), ()), env)]
    ctx.take(m, "plugin")
    ctx.counts["calls_of_the_plugin"] += rule.n
    return out


KINDS = ("path", "rev", "undo_group", "buf_size", "language_id", "config", "config_table", "view_id", "plugin_id", "pid", "cache")
FOUND = ("found", "view_id")
NEW = [("Cache::new", "buf_size", "rev", "nb_lines"), ("cache", "cache"), ("rev", "rev"), ("buf_size", "buf_size"), ("undo_group", "None"), ("language_id", "syntax"), ("config", "config"), ("config_table", "config"), ("view_id", "views")]
# message: what the plugin is called with, what is done before that, what is done after
KNOWN = {
    "update": (("update", "the view", "delta", "edit_type", "author"), [("Cache::update", "delta", "new_len", "new_line_count", "rev"), ("rev", "rev"), ("undo_group", "undo_group"), ("buf_size", "new_len")], []),
    "did_save": (("did_save", "the view", "old path"), [("path", "path")], []),
    "config_changed": (("config_changed", "the view", "changes"), [], [("table", "key", "value"), ("config", "old config_table")]),
    "language_changed": (("language_changed", "the view", "old language_id"), [("language_id", "new_lang")], []),
    "custom_command": (("custom_command", "the view", "method", "params"), [], []),
    "get_hover": (("get_hover", "the view", "request_id", "position"), [], []),
    "did_close": (("did_close", "the view"), [], [("removed", "view_id")]),
    "idle": (("idle", "the view"), [], []),
}
QUIET = ("ping", "shutdown", "collect_trace")


def dispatcher(ctx, fn):
    b = [b for b in ctx.p.bodies.values() if b.name.endswith("::" + fn) and "Dispatcher" in b.name and b.crate["crate"] == "xi_plugin_lib"]
    if len(b) != 1:
        raise AnchorMissing(f"Dispatcher::{fn} not found")
    return Inst(b[0])


def seen(done):
    """What matters of what was done: the fields a plugin can see, the tables and the cache."""
    return {x for x in done if x[0] in KINDS or len(x) > 1 and x[0] in ("found", "missing", "inserted", "removed", "table", "tracing", "skipped", "late") or x[0].startswith("Cache") or len(x) == 1}


def say(x):
    return ", ".join(" ".join(str(a) for a in e) for e in sorted(x, key=str)) or "nothing"


def run(ctx):
    pid = ctx.fidx("dispatch::Dispatcher", "pid")
    mine = {((1, "*", ("f", pid)), "v"): "Some", ((1, "*", ("f", pid), ("d", "Some"), ("f", 0)), "l"): "own id"}
    msgs = {}
    for fn, ty in (("handle_notification", "HostNotification"), ("handle_request", "HostRequest")):
        for n, v in wire.variants(ctx, "plugins::rpc::" + ty).items():
            msgs[n] = (dispatcher(ctx, fn), {**payload(ctx, CORE + "plugins::rpc::" + ty, v, (3,)), **mine}, v)
    msgs["idle"] = (dispatcher(ctx, "idle"), {((3,), "l"): "view_id", **mine}, None)
    wanted = list(KNOWN) + list(QUIET) + ["initialize", "new_buffer", "tracing_config"]
    for n in wanted:
        if not ctx.expect(n in msgs, "message", f"{n} is handled", f"message:{n}", f"the message {n} of core is no longer known to the library for plugins"):
            continue
        root, env, v = msgs[n]
        where = root.body.loc(root.body.line)
        if n in KNOWN:
            known(ctx, n, explore(ctx, root, env), where, root.body.name.endswith("request"))
        elif n in QUIET:
            for (done, calls), _ in explore(ctx, root, env):
                ctx.expect(not calls and not seen(done), "quiet", f"{n} changes nothing and does not call the plugin", f"quiet:{n}", f"on {n}: {say(seen(done))}, calls {[c[0] for c in calls]}", where)
        elif n == "tracing_config":
            for on in (False, True):
                k = ((3, ("d", v), ("f", 0)), "c")
                got = [seen(q[0]) for q, _ in explore(ctx, root, {**env, k: on})]
                ctx.expect(got and all(g == {("tracing", bool(on))} for g in got), "tracing", f"tracing is switched {'on' if on else 'off'} as asked", f"tracing:{on}", f"tracing_config with enabled={bool(on)}: {got}", where)
        else:
            if n == "initialize":
                env = {k: x for k, x in env.items() if k not in mine}
                env[((1, "*", ("f", pid)), "v")] = "None"
            given(ctx, n, explore(ctx, root, env), where)
    ctx.counts["messages"] = len(msgs)


def known(ctx, n, outs, where, asked):
    call, before, after = KNOWN[n]
    hit = miss = full = False
    free = {("removed", "view_id")} if n == "did_close" else set()
    for (done, calls), fs in outs:
        d = seen(done)
        if ("missing", "view_id") in d:
            miss = True
            ctx.expect(not calls and d == {("missing", "view_id")}, "missing", f"{n} for an unknown view does nothing", f"missing:{n}", f"{n} for a view that is not known: {say(d)}, calls {[c[:-1] for c in calls]}", where)
            if asked:
                code = dict(fs).get(((0, ("d", "Err"), ("f", 0), ("d", "Custom"), ("f", 0)), "c"))
                ctx.expect(code == 404, "answer", f"{n} for an unknown view is answered with error 404", f"answer:{n}", f"{n} for a view that is not known is answered with {code}", where)
            continue
        hit = hit or FOUND in d
        if not ctx.expect(FOUND in d, "view", f"{n} is for the view it names", f"view:{n}", f"{n} is carried out without looking up the view it names ({say(d)})", where):
            continue
        if not ctx.expect(len(calls) == 1 and calls[0][:-1] == call, "call", f"the plugin is called once: {' '.join(call)}", f"call:{n}", f"on {n} the plugin is called with {[c[:-1] for c in calls]}, not {call}", where):
            continue
        pre = seen(calls[0][-1]) - free
        ctx.expect(pre == {FOUND} | set(before), "before", f"{n}: before the call {say(before)}", f"before:{n}", f"when the plugin is called for {n}, what has been done is: {say(pre)}; it should be: {say({FOUND} | set(before))}", where)
        end = {FOUND} | set(before) | set(after)
        opt = {x for x in after if x[0] == "table"}
        full = full or end <= d
        ctx.expect(end - opt <= d <= end, "after", f"{n}: at the end {say(end)}", f"after:{n}", f"after {n}, what has been done is: {say(d)}; it should be: {say(end)}", where)
        if asked:
            ctx.expect(dict(fs).get(((0,), "v")) == "Ok", "answer", f"{n} is answered", f"answer:{n}:ok", f"{n} is carried out but answered with an error", where)
    ctx.expect(hit and full, "known", f"{n} for a known view is carried out", f"known:{n}", f"no path carries out all of {n} for a view that is known", where)
    ctx.expect(miss, "missing", f"{n} for an unknown view returns", f"missing:{n}:panic", f"no path of {n} returns for a view that is not known", where)


def given(ctx, n, outs, where):
    """new_buffer and initialize: every view is given to the plugin, then kept."""
    first = [] if n == "new_buffer" else [("pid", "plugin_id")]
    who = ("plugin_id", "own id" if n == "new_buffer" else "plugin_id")
    some = False
    paths = set()
    for (done, calls), _ in outs:
        d = seen(done)
        ctx.expect(not {x for x in d if x[0] in ("skipped", "late")}, "each", f"{n}: every buffer becomes a view", f"each:{n}", f"{n}: a buffer can be left out", where)
        if n == "initialize":
            ok = calls and calls[0][0] == "initialize" and calls[0][1] == "plugin_id" and sum(c[0] == "initialize" for c in calls) == 1 and seen(calls[0][-1]) == set(first)
            ctx.expect(ok, "initialize", "the plugin is initialized once, before it is given views", "initialize", f"on initialize the plugin is called with {[c[:-1] for c in calls]}", where)
            calls = [c for c in calls if c[0] != "initialize"]
        for c in calls:
            pre = seen(c[-1])
            paths |= {x[1] for x in pre if x[0] == "path"}
            rest = {x for x in pre if x[0] not in ("path", "inserted")}
            ctx.expect(c[:-1] == ("new_view", "views"), "call", f"{n}: the plugin is given the view", f"call:{n}", f"on {n} the plugin is called with {c[:-1]}", where)
            want = set(NEW) | {who} | set(first)
            ctx.expect(rest == want, "new", f"{n}: the view the plugin is given is what core described", f"new:{n}", f"the view given to the plugin on {n} was made from: {say(rest)}; it should be: {say(want)}", where)
        if calls:
            some = True
            ctx.expect(("inserted", "views", "views") in d and sum(x[0] == "inserted" for x in d) == 1, "kept", f"{n}: the view is kept under its identifier", f"kept:{n}", f"on {n} views are kept as: {say({x for x in d if x[0] == 'inserted'})}", where)
            ctx.expect(not any(x[0] == "inserted" for x in seen(calls[0][-1])), "order", f"{n}: the plugin is given the view before it is kept", f"order:{n}", f"on {n} the view is kept before the plugin is given it", where)
        else:
            ctx.expect(not any(x[0] == "inserted" for x in d), "call", f"{n}: no view is kept that the plugin was not given", f"call:{n}:none", f"on {n} a view is kept which the plugin was not given", where)
    ctx.expect(some and paths == {"path", "None"}, "new", f"{n}: the view has the path of its buffer, if it has one", f"path:{n}", f"on {n} the path of the view is one of {sorted(paths)}", where)
