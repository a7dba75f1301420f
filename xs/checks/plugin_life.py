"""P12: starting, connecting, stopping and losing a plugin."""
from collections import namedtuple

from ..esp import LoopRule, Machine, Rule
from ..lib import *
from .views import find, strip

Q = namedtuple("Q", "kind init pushed found removed loops told shut started conn")
START = Q(None, None, False, None, None, (), frozenset(), False, None, ())
# told: what every buffer was told in some complete pass over all of them
CS = "xi_core_lib::tabs::"
ALL = frozenset({"plugin_info", "plugin_started", "plugin_stopped"})   # no buffers: trivially told everything


class Life(LoopRule):
    label_prefix = True
    label_pass = {"core::convert::Into::into", "core::convert::From::from", "core::iter::traits::iterator::Iterator::collect", "core::clone::Clone::clone", "alloc::string::ToString::to_string",
                  "alloc::borrow::ToOwned::to_owned", "core::iter::traits::collect::IntoIterator::into_iter"}

    def __init__(self, mode):
        self.mode = mode
        self.n = dict.fromkeys(("plugin calls", "list changes", "searches", "contexts"), 0)

    def is_plugin(self, t):
        t = strip(t)
        return t is not None and t[0] == "adt" and t[1] == "xi_core_lib::plugins::Plugin"

    def plist(self, c):
        t = strip(arg_ty(c, 0))
        return t is not None and t[0] == "adt" and last(t[1]) == "Vec" and self.is_plugin(t[2][0])

    def piter(self, c):
        t = strip(arg_ty(c, 0))
        return t is not None and t[0] == "adt" and last(t[1]) in ("Iter", "IterMut", "IntoIter", "Filter", "Enumerate", "Rev") and not t[1].startswith(CS) and any(
            self.is_plugin(x) or x[0] == "adt" and any(self.is_plugin(y) for y in x[2]) for x in t[2])

    def ctxs(self, c):
        t = strip(arg_ty(c, 0))
        return t is not None and t[0] == "adt" and t[1] == CS + "Iter"

    def to(self, c, pre):
        return next((last(t.body.name) for t in c.targets if t.body.name.startswith(pre) and "{closure" not in t.body.name), None)

    def chained(self, c):
        return self.piter(c)

    def loop(self, c):
        n = last(c.declared or "")
        if self.ctxs(c) and n in ("next", "for_each", "map"):
            return "ctx"
        if self.piter(c) and n in ("next", "for_each") or n == "next" and self.places(c):
            return "plugin"
        return None

    def indexes(self, c):
        return (c.declared or "").endswith(("Index::index", "IndexMut::index_mut")) and self.plist(c)

    def places(self, c):
        """The places in the list are gone through, in a function that looks up plugins by their place."""
        t = strip(arg_ty(c, 0))
        return t is not None and t[0] == "adt" and last(t[1]) == "Range" and any(self.indexes(x) for x in self.ctx.r.calls(c.inst).values())

    def is_each(self, c):
        return super().is_each(c) or (c.declared or "").endswith("Iterator::map") and self.ctxs(c)

    def item(self, c, tok):
        t = strip(arg_ty(c, 0))
        if tok == "plugin" and t[0] == "adt" and last(t[1]) == "Enumerate":
            return {((("f", 0),), "l"): "ix", ((("f", 1),), "l"): "item"}
        if tok == "plugin" and t[0] == "adt" and last(t[1]) == "Range":
            return {((), "l"): "ix"}
        return {((), "l"): "ctx"} if tok == "ctx" else {((), "l"): "item"}

    def ev(self, c):
        n = last(c.declared or c.name)
        if self.to(c, "xi_core_lib::plugins::Plugin::"):
            return "plugin"
        if self.to(c, "xi_core_lib::event_context::EventContext::") in ("plugin_stopped", "plugin_started", "plugin_info"):
            return "ctx"
        if self.plist(c) and n in ("push", "remove", "swap_remove", "clear", "truncate", "drain", "retain", "insert", "pop"):
            return "list"
        if self.indexes(c):
            return "at"
        if self.piter(c) and n in ("position", "find", "any"):
            return "search"
        if any(t.body.name == "xi_core_lib::plugins::start_plugin_process" for t in c.targets):
            return "start"
        if self.to(c, "xi_core_lib::core::WeakXiCore::") in ("plugin_connect", "plugin_exit") and self.mode == "thread":
            return "conn"
        if n == "mainloop" and self.mode == "thread":
            return "mainloop"
        if trait_method(c, "PartialEq", ("eq", "ne")) and (has_adt(arg_ty(c, 0), "PluginPid") or strip(arg_ty(c, 0)) in (("p", "str"), ("str",)) or has_adt(arg_ty(c, 0), "String")):
            return "eq"
        if self.to(c, CS + "Counter::") == "next":
            return "id"
        if self.to(c, "xi_core_lib::plugins::catalog::PluginCatalog::") == "get_named":
            return "catalog"
        return None

    def event(self, c):
        return self.ev(c) is not None

    def opaque(self, c):
        return self.ev(c) in ("plugin", "ctx", "start", "conn", "mainloop", "id", "catalog")

    def edge(self, m, inst, bb, key, variant, q, d):
        l = m.label_at(key, d) if key else None
        if l == "msg" and variant in ("Start", "Stop", "PluginRpc"):
            return q._replace(kind=variant)
        if l == "res" and variant in ("Ok", "Err") and q.kind is None:
            return q._replace(kind=variant)
        if l == "same" and variant in (True, False):
            return q._replace(found=variant)
        if l == "other" and variant in (True, False):
            return q._replace(found=not variant)
        return q

    def step(self, m, c, q, tok, more):
        if self.mode == "msg" and q.kind is None:
            return q
        st = dict(q.loops)
        cur = st.get(tok)
        if tok == "plugin" and self.mode == "msg" and isinstance(cur, frozenset):
            if q.kind == "PluginRpc" and q.found is True and not q.shut:
                m.report("no-dispatch", "a command does not reach a plugin it is for", c.inst.body, c.line)
            q = q._replace(found=None, shut=False)
        if cur == "done":
            return None if more else q
        if cur is not None:
            k = "all" + tok
            st[k] = cur if k not in st else cur & st[k]
        if more:
            st[tok] = frozenset()
        else:
            st[tok] = "done"
            got = st.pop("all" + tok, None)
            if tok == "ctx":
                q = q._replace(told=q.told | (ALL if got is None else got))
                st.pop("ctx")
        return q._replace(loops=tuple(sorted(st.items(), key=str)))

    def mark(self, q, tok, what):
        st = dict(q.loops)
        if isinstance(st.get(tok), frozenset):
            st[tok] |= {what}
        return q._replace(loops=tuple(sorted(st.items(), key=str)))

    def on_event(self, m, c, q, d):
        k = self.ev(c)
        n = last(c.declared or c.name)
        b = c.inst.body
        if self.mode == "msg" and q.kind is None:
            return None
        ls = [m.labels(a, d) for a in c.args]

        def bad(key, msg):
            m.report(key, msg, b, c.line)
        if k == "plugin":
            self.n["plugin calls"] += 1
            n = self.to(c, "xi_core_lib::plugins::Plugin::")
            if n == "initialize":
                if ls[0] not in ("new", "res"):
                    bad("init-other", "another plugin than the one that connected is initialized")
                return [(q._replace(init="twice" if q.init else "info" if "plugin_info" in q.told else "nothing"), {})]
            if n == "shutdown":
                if ls[0] != "found":
                    bad("shut-other", "another plugin than the one found is shut down")
                return [(q._replace(shut=True), {})]
            if n == "dispatch_command":
                st = dict(q.loops)
                if q.kind != "PluginRpc" or ls[0] not in ("item", "found") or q.found is not True:
                    bad("dispatch", "a command is sent to a plugin it is not for")
                if ls[1:] != ["view", "method", "params"]:
                    bad("dispatch-args", f"a command is passed on with other arguments ({ls[1:]})")
                return [(q._replace(shut=True), {})]
            return [(q, {})]
        if k == "ctx":
            self.n["contexts"] += 1
            n = self.to(c, "xi_core_lib::event_context::EventContext::")
            if n == "plugin_stopped":
                if ls[1] != "found":
                    bad("stop-other", "buffers are told that another plugin has stopped")
                return [(self.mark(q, "ctx", n), {})]
            if n == "plugin_started":
                if ls[1] not in ("new", "res"):
                    bad("started-other", "buffers are told that another plugin has started")
                return [(self.mark(q, "ctx", n), {})]
            return [(self.mark(q, "ctx", n), {((), "l"): "info"})]
        if k == "list":
            self.n["list changes"] += 1
            if n == "push":
                if ls[1] not in ("new", "res"):
                    bad("push-other", "another plugin than the one that connected is added")
                return [(q._replace(pushed=True), {})]
            if n in ("remove", "swap_remove"):
                if ls[1] != "ix" or q.found is not True:
                    bad("remove-other", "a plugin other than the one looked for is removed")
                return [(q._replace(removed=True), {((), "l"): "found"})]
            if n == "insert":
                return [(q._replace(pushed=True), {})]
            bad("list-bulk", f"several running plugins may be forgotten at once ({n})")
            return None
        if k == "at":
            return [(q, {((), "l"): "item" if ls[1] == "ix" else "another"})]
        if k == "search":
            self.n["searches"] += 1
            for t in c.closures:
                good = False
                for q2, d2, rf in m.run_closure_ret(c.inst, c, t, [{((), "l"): "item"}], q, d):
                    if rf.get(((), "l")) == "same":
                        good = True
                if not good:
                    bad("search", "a running plugin is not looked for by the identifier or name given")
            if n == "any":
                return [(q._replace(found=v), {((), "c"): v}) for v in (True, False)]
            l = "ix" if n == "position" else "found"
            return [(q._replace(found=True), {((), "v"): "Some", ((("d", "Some"), ("f", 0)), "l"): l}), (q._replace(found=False), {((), "v"): "None"})]
        if k == "eq":
            if "item" in ls and ("id" in ls or "name" in ls):
                return [(q, {((), "l"): "same" if last(c.declared) == "eq" else "other"})]
            return None
        if k == "id":
            return [(q, {((), "l"): "newid"})]
        if k == "catalog":
            if ls[1] != "name":
                bad("catalog", "another plugin than the one named is looked up")
            return [(q, {((), "v"): "Some", ((("d", "Some"), ("f", 0)), "l"): "manifest"}), (q, {((), "v"): "None"})]
        if k == "start":
            pk = m.label_at((m.opkey(c.args[1], d) or ()) + (("f", 0),), d)
            if pk != "newid":
                bad("start-id", "a plugin is started under an identifier that is not new")
            if ls[0] != "manifest":
                bad("start-other", "another plugin than the one named is started")
            return [(q._replace(started="twice" if q.started else True), {})]
        if k == "conn":
            n = self.to(c, "xi_core_lib::core::WeakXiCore::")
            if n == "plugin_connect":
                v = m.val_of(c.args[1], d)
                return [(q._replace(conn=(q.conn + ("connect", v))[:8]), {})]
            if ls[1] != "id":
                bad("exit-id", "the end of another plugin is reported")
            return [(q._replace(conn=(q.conn + ("exit",))[:8]), {})]
        if k == "mainloop":
            return [(q._replace(conn=(q.conn + ("loop",))[:8]), {})]
        return None


LY = "xi_core_lib::layers::"
S = namedtuple("S", "told removed dirty drawn deleted clear")


class Stopped(Rule):
    """A buffer is told that a plugin has stopped; the layers of styles keep nothing of a plugin that ended."""
    label_prefix = True
    label_pass = {"core::clone::Clone::clone", "core::ops::deref::Deref::deref", "alloc::string::String::as_str"}

    def __init__(self):
        self.n = dict.fromkeys(("told", "removals", "marks", "additions"), 0)

    def ev(self, c):
        n = last(c.declared or c.name)
        for t in c.targets:
            b = t.body.name
            if b in ("xi_core_lib::client::Client::plugin_stopped", LY + "Layers::remove_layer", "xi_core_lib::view::View::set_dirty", "xi_core_lib::view::View::render_if_dirty",
                     "xi_core_lib::view::View::has_pending_render"):
                return last(b)
        t = strip(arg_ty(c, 0))
        if t is not None and t[0] == "adt" and t[2]:
            if last(t[1]) == "HashSet" and has_adt(t[2][0], "PluginPid"):
                return "set:" + n
            if last(t[1]) in ("BTreeMap", "HashMap") and len(t[2]) > 1 and has_adt(t[2][1], "ScopeLayer"):
                return "map:" + n
        return None

    def interesting(self, c):
        k = self.ev(c)
        return k is not None and (":" not in k or last(k.replace(":", "::")) in ("insert", "remove", "contains", "clear", "retain", "drain", "take", "entry", "replace", "get_or_insert_with", "remove_entry", "append", "extend", "pop_first", "pop_last"))

    def opaque(self, c):
        return (self.ev(c) or ":") != ":" and ":" not in self.ev(c)

    def edge(self, m, inst, bb, key, variant, q, d):
        l = m.label_at(key, d) if key else None
        if l == "gone?" and variant in ("Some", "None"):
            return q._replace(removed=variant == "Some")
        if l == "deleted?" and variant in (True, False):
            return q._replace(clear=not variant)
        return q

    def call(self, m, c, q, d):
        k = self.ev(c)
        b = c.inst.body
        ls = [m.labels(a, d) for a in c.args]
        if k == "plugin_stopped":
            self.n["told"] += 1
            if ls[1] != "view" or ls[2] != "plugin":
                m.report("told-args", "the frontend is told about another view or plugin", b, c.line)
            return [(q._replace(told=q.told + 1 if q.told < 2 else 2), {})]
        if k == "remove_layer":
            if ls[1] != "plugin":
                m.report("layer-other", "the styles of another plugin are removed", b, c.line)
            return [(q._replace(removed=True), {((), "v"): "Some"}), (q._replace(removed=False), {((), "v"): "None"})]
        if k == "set_dirty":
            return [(q._replace(dirty=True), {})]
        if k == "render_if_dirty":
            return [(q._replace(drawn=True if q.dirty else q.drawn), {})]
        if k == "has_pending_render":
            return [(q._replace(drawn=True), {((), "c"): True}), (q, {((), "c"): False})]
        if k is None or not self.interesting(c):
            return None
        w, n = k.split(":")
        if w == "set":
            if n == "contains":
                good = ls[1] == "id"
                return [(q._replace(clear=False), {((), "c"): True}), (q._replace(clear=good), {((), "c"): False})]
            if n == "insert":
                self.n["marks"] += 1
                return [(q._replace(deleted=q.deleted or ls[1] == "id"), {})]
            m.report("undelete", f"a plugin that ended may be forgotten to have ended ({n})", b, c.line)
            return None
        if n == "remove":
            self.n["removals"] += 1
            if ls[1] != "id":
                m.report("layer-other", "the styles of another plugin are removed", b, c.line)
            return [(q._replace(removed=True), {})]
        if n in ("insert", "entry", "append", "extend"):
            self.n["additions"] += 1
            if not q.clear or n not in ("insert", "entry") or ls[1] != "id":
                m.report("revived", "styles can be added for a plugin that has ended", b, c.line)
            return None
        if n in ("clear", "retain", "drain", "pop_first", "pop_last", "remove_entry"):
            m.report("layers-bulk", f"the styles of several plugins may be removed ({n})", b, c.line)
        return None


def stopped(ctx):
    s0 = S(0, None, False, False, False, False)
    rule = Stopped()
    m = Machine(ctx.p, ctx.r, rule)
    root = ctx.inst("xi_core_lib::event_context::EventContext::plugin_stopped")
    at = root.body.loc(root.body.line)
    env = {((2,), "l"): "plugin", ((1, "*", ("f", field(ctx, "EventContext", "view_id"))), "l"): "view"}
    for q, _ in m.run(root, s0, env):
        ctx.expect(q.told == 1, "stopped", "the frontend is told once", "stopped:told", "the frontend is not told exactly once that a plugin has stopped", at)
        ctx.expect(q.removed is not None, "stopped", f"styles removed: {q.removed}", "stopped:layer", "the styles of a plugin that stopped are kept", at)
        ctx.expect(not q.removed or q.drawn, "stopped", "drawn without the styles", "stopped:drawn", "a view is not drawn again without the styles of a plugin that stopped", at)
    ctx.take(m, "plugins:stopped")
    m = Machine(ctx.p, ctx.r, rule)
    nroots = 0
    for b in list(ctx.p.bodies.values()):
        if not b.name.startswith(LY + "Layers::") or ctx.tests(b) or "{closure" in b.name:
            continue
        inst = Inst(b)
        if not m.relevant(inst):
            continue
        ids = [i for i in range(1, b.argc + 1) if has_adt(ctx.p.mkty(b.crate, b.locals[i]), "PluginPid") and strip(ctx.p.mkty(b.crate, b.locals[i]))[0] == "adt" and last(strip(ctx.p.mkty(b.crate, b.locals[i]))[1]) == "PluginPid"]
        if not ids or not any(not x.body.name.startswith((LY, "<" + LY)) and not ctx.tests(x.body) for x in ctx.callers(b.uid)):
            continue
        nroots += 1
        for q, _ in m.run(inst, s0, {((ids[0],), "l"): "id"}):
            if last(b.name) == "remove_layer":
                ctx.expect(q.deleted and q.removed, "layers", "a removed layer is remembered as gone", "layers:remove", "removing a plugin's styles does not also remember that it ended", b.loc(b.line))
    ctx.expect(nroots >= 3, "anchor", f"{nroots} operations on layers", "anchor:layers")
    ctx.take(m, "plugins:layers")
    for what, k in rule.n.items():
        ctx.expect(k >= 1, "anchor", f"{k} {what}", f"anchor:stopped:{what}")


def field(ctx, adt, name):
    a = ctx.adt(adt)
    return next(i for i, f in enumerate(a["v"][0]["f"]) if f[0] == name)


def run(ctx):
    stopped(ctx)
    n = {}

    def machine(mode):
        rule = Life(mode)
        rule.ctx = ctx
        m = Machine(ctx.p, ctx.r, rule)
        return rule, m

    def add(rule):
        for k, v in rule.n.items():
            n[k] = n.get(k, 0) + v

    # a plugin connects
    rule, m = machine("connect")
    root = ctx.inst("xi_core_lib::core::WeakXiCore::plugin_connect")
    at = root.body.loc(root.body.line)
    for v in ("Ok", "Err"):
        env = {((2,), "l"): "res", ((2,), "v"): v}
        for q, _ in m.run(root, START, env):
            if v == "Err":
                ctx.expect(not q.pushed and not q.init, "connect", "a plugin that failed to start is not registered", "connect:err", "a plugin that failed to start is registered", at)
            elif q.pushed or q.init:      # (neither: core is gone)
                ctx.expect(q.pushed and q.init == "info", "connect", "initialized with what is known about every buffer and registered", "connect:ok",
                           f"a plugin that connected is not both initialized with every buffer and registered (registered: {q.pushed}, initialized with: {q.init})", at)
                ctx.expect("plugin_started" in q.told, "connect", "the frontend is told for every view", "connect:told", "the frontend is not told, for every view, that a plugin has started", at)
    add(rule)
    ctx.take(m, "plugins:connect")

    # it exits
    rule, m = machine("exit")
    root = ctx.inst("xi_core_lib::core::WeakXiCore::plugin_exit")
    at = root.body.loc(root.body.line)
    seen = set()
    for q, _ in m.run(root, START, {((2,), "l"): "id"}):
        seen.add(q.found)
        ended(ctx, q, "exit", at)
        ctx.expect(not q.shut and not q.pushed, "exit", "nothing else happens", "exit:extra", "something is sent to a plugin that exited", at)
    ctx.expect({True, False} <= seen, "anchor", "exit of known and unknown plugins", "anchor:exit")
    add(rule)
    ctx.take(m, "plugins:exit")

    # messages of the frontend
    rule, m = machine("msg")
    root = find(ctx, "handle_notification")
    at = root.body.loc(root.body.line)
    env = {((3,), "l"): "msg"}
    core = (3, ("d", "Plugin"), ("f", 0))
    for var in ("Start", "Stop", "PluginRpc"):
        a = next(a for x, a in ctx.p.adts.items() if x.startswith("xi_core_lib::rpc::") and {y["n"] for y in a["v"]} >= {"Start", "Stop", "PluginRpc"})
        for i, f in enumerate(next(y for y in a["v"] if y["n"] == var)["f"]):
            env[(core + (("d", var), ("f", i)), "l")] = {"plugin_name": "name", "receiver": "name", "view_id": "view", "rpc": "rpc"}.get(f[0], f[0])
            if f[0] == "rpc":
                pr = ctx.adt("manifest::PlaceholderRpc")
                for j, g in enumerate(pr["v"][0]["f"]):
                    env[(core + (("d", var), ("f", i), ("f", j)), "l")] = g[0]
    seen = set()
    for q, _ in m.run(root, START, env):
        if q.kind is None:
            continue
        seen.add(q.kind)
        if q.kind == "Start":
            seen.add((q.found, q.started))
            ctx.expect(q.started is None or q.found is False and q.started is True, "start", f"running: {q.found}, started: {q.started}", f"start:{q.found}:{q.started}", "a plugin is started twice", at)
        elif q.kind == "Stop":
            ended(ctx, q, "stop", at)
            ctx.expect(q.shut == bool(q.found), "stop", "a plugin that is stopped is told to shut down", "stop:shutdown", "a plugin is removed without being told to shut down, or the other way round", at)
        else:
            ctx.expect(q.found is not True or q.shut, "rpc", "a command reaches the plugin it is for", "rpc:missed", "a command does not reach the plugin it is for", at)
            ctx.expect(q.removed is None and q.started is None, "rpc", "a command starts and stops nothing", "rpc:extra", "a command for a plugin starts or stops one", at)
    ctx.expect({"Start", "Stop", "PluginRpc", (False, True), (True, None)} <= seen, "anchor", f"messages about plugins: {sorted(map(str, seen))}", "anchor:messages")
    add(rule)
    ctx.take(m, "plugins:messages")

    # the thread of a plugin
    rule, m = machine("thread")
    sp = ctx.inst("xi_core_lib::plugins::start_plugin_process")
    found = 0
    for c in ctx.r.calls(sp).values():
        if last(c.declared or c.name) == "spawn" and c.closures:
            for t in c.closures:
                found += 1
                at = t.body.loc(t.body.line)
                env = {}
                for i, nm in upvars(ctx, sp.body, t.body).items():
                    if nm == "id":
                        env[((1, ("f", i)), "l")] = "id"
                for q, _ in m.run(t, START, env):
                    ctx.expect(q.conn in (("connect", "Ok", "loop", "exit"), ("connect", "Err")), "thread", f"life of a plugin's thread: {q.conn}", f"thread:{q.conn}",
                               f"a plugin's thread does not report exactly its connection and its end: {q.conn}", at)
    ctx.expect(found == 1, "anchor", f"{found} thread for a plugin", "anchor:thread")
    ctx.take(m, "plugins:thread")
    for what, k in n.items():
        ctx.expect(k >= 1, "anchor", f"{k} {what} interpreted", f"anchor:{what}")


def ended(ctx, q, what, at):
    if q.found is None and not q.removed:
        return       # core is gone
    told = "plugin_stopped" in q.told
    ctx.expect(bool(q.removed) == bool(q.found), what, f"known: {q.found}: removed: {bool(q.removed)}", f"{what}:removed:{q.found}", "a plugin that ended stays registered, or another is removed", at)
    ctx.expect(told == bool(q.found), what, f"known: {q.found}: every buffer told: {told}", f"{what}:told:{q.found}", "not every buffer (and the frontend) is told that a plugin has ended", at)


def upvars(ctx, par, clo):
    """Index of each captured variable of a closure, with the type-based name of what it is."""
    out = {}
    for blk in par.reach:
        for s in par.blocks[blk]["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure" and par.defs[s[2][1][1]]["id"] == clo.uid:
                for i, op in enumerate(s[2][2]):
                    if op[0] == "c":
                        continue
                    t = strip(ctx.p.place_ty(Inst(par), op[1]))
                    if t[0] == "adt" and last(t[1]) == "PluginPid":
                        out[i] = "id"
    return out
