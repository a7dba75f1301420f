"""P21: reported file changes: queued for every watcher before core is woken, handled once each; watches added and removed in step with the system's."""
from ..esp import Machine
from ..lib import *
from .settings import OK, OPT, SOME, Judge, Steps, has, items_of, peel, ret

CORE = "xi_core_lib::"
W = CORE + "watcher::"
FW = W + "FileWatcher::"
STATE = CORE + "tabs::CoreState::"
HANDLERS = {"OPEN_FILE_EVENT_TOKEN": "handle_open_file_fs_event", "CONFIG_EVENT_TOKEN": "handle_config_fs_event", "THEME_FILE_EVENT_TOKEN": "handle_themes_fs_event", "PLUGIN_EVENT_TOKEN": "handle_plugin_fs_event"}


def watchees(t):
    t = peel(t)
    while t[0] == "adt" and last(t[1]) in ("Filter", "Map", "FilterMap", "Cloned", "Copied", "Inspect") and t[2]:
        t = peel(t[2][0])
    return t[0] == "adt" and last(t[1]) in ("Iter", "IterMut", "IntoIter") and has_adt(t, "Watchee")


def events(t):
    t = peel(t)
    return t[0] == "adt" and last(t[1]) in ("Drain", "IntoIter") and has_adt(t, "WatchToken") and has_adt(t, "Event")


def paths(t):
    t = peel(t)
    return t[0] == "adt" and last(t[1]) == "IntoIter" and has_adt(t, "PathBuf") and has_adt(t, "RecursiveMode")


class Watch(Steps):
    maps = False
    here = ()
    tokens = {}

    def opaque(self, c):
        return self.target(c) is not None or self.other(c) == "filter" or "xi_trace" in c.name or trait_method(c, "Clone", ("clone",)) or bool(c.targets) and all(not t.body.name.startswith((W, STATE)) for t in c.targets)

    def other(self, c):
        n, dn = last(c.name), c.declared or ""
        t = arg_ty(c, 0)
        if n == "recv" and not c.targets:
            return "recv"
        if dn.endswith("Iterator::next") and t is not None and peel(t)[0] == "adt" and last(peel(t)[1]) in ("Iter", "IntoIter") and "channel" in peel(t)[1] and has_adt(t, "Event"):
            return "next recv"
        if dn.endswith("Notify::notify"):
            return "notify"
        if n == "push_back" and t is not None and has_adt(t, "VecDeque"):
            return "queue"
        if n == "push" and t is not None and has_adt(t, "Watchee"):
            return "add"
        if n in ("remove", "swap_remove") and t is not None and has_adt(t, "Watchee"):
            return "take out"
        if n == "retain" and t is not None and has_adt(t, "Watchee"):
            return "retain"
        if n == "canonicalize":
            return n
        if "below" in self.items and n in ("filter", "filter_map", "take", "skip", "step_by", "take_while", "skip_while") and dn.startswith("core::iter::traits::iterator::Iterator::") and self.over(c):
            return "choose"
        if dn.endswith(("Iterator::any", "Iterator::position", "Iterator::all")) and self.over(c):
            return last(dn)
        if dn.endswith(("Iterator::any", "Iterator::all")) and "paths" in self.ops and c.closures and t is not None and has_adt(t, "PathBuf"):
            return "paths " + last(dn)
        if dn.endswith(("Watcher::watch", "Watcher::unwatch")) or n in ("watch", "unwatch") and t is not None and last(t[1]).endswith("Watcher") and not t[1].startswith(CORE):
            return "system " + n
        if trait_method(c, "PartialEq", ("eq", "ne")) and (not c.targets or all(t.body.derived for t in c.targets)) and t is not None:
            if has_adt(t, "WatchToken"):
                return "eq token"
            if any(has_adt(arg_ty(c, i), x) for i in (0, 1) for x in ("PathBuf", "Path") if arg_ty(c, i) is not None):
                return "eq path"
        if self.search and dn.endswith("Iterator::next") and self.over(c):
            return "search"
        if n == "schedule_idle":
            return n
        if n == "parent" and not c.targets and t is not None and has_adt(t, "Path"):
            return n
        if n == "exists" and not c.targets:
            return n
        if "filter" in self.ops and (dn.endswith(("Fn::call", "FnMut::call_mut")) or n == "call") and not c.name.startswith(CORE):
            return "filter"
        if n in ("len", "index", "first", "get") and t is not None and has_adt(t, "PathBuf") and "paths" in self.ops:
            return "paths " + n
        if n == "starts_with" and not c.targets and t is not None and has_adt(t, "Path"):
            return n
        if n in ("drain", "clear", "split_off") and t is not None and has_adt(t, "VecDeque") and has_adt(t, "WatchToken") and peel(t)[0] == "adt":
            return "drain"
        if n in ("replace", "take", "swap") and c.name.startswith("core::mem::") and "VecDeque" in str(t):
            return "empty queue"
        return None

    def is_next(self, c):
        return super().is_next(c) or last(c.name) in ("pop_front", "pop") and self.loop(c) is not None

    search = False

    def sought(self, q):
        """What a search by hand has found out about the item it stopped at."""
        return next((x[1] for x in q if x[0] == "match"), None) or frozenset(x[1:] for x in q if x[0] == "now")

    def call(self, m, c, q, d):
        if self.search and (c.declared or "").endswith("Iterator::next") and self.over(c) and not any(x[0] == "take out" for x in q):
            seen = frozenset(x[1:] for x in q if x[0] == "now")
            q = frozenset(x for x in q if x[0] != "now")
            if seen and all(x[-1] is True for x in seen):
                q = frozenset(x for x in q if x[0] != "match") | {("match", seen)}
            at = SOME + ((("f", 1),) if mentions(arg_ty(c, 0), lambda x: x[0] == "adt" and last(x[1]) == "Enumerate") else ())
            fs = {((), "v"): "Some", **{(at + ("*",) * n, "l"): "other" for n in (0, 1)}}
            if len(at) > len(SOME):
                fs[(SOME + (("f", 0),), "l")] = "place"
            found = any(x[0] == "match" for x in q)
            return [(q, fs), (q if found else q | {("none",), ("others", False)}, {((), "v"): "None"})]
        if self.other(c) == "choose":
            rs, n = set(), last(c.name)
            if n == "filter":
                for q2, d2, v in self.bool_of(m, c, frozenset(), d, {(("*",) * n + p, "l"): x for n in (0, 1, 2) for p, x in (((), "other"), ((("f", self.wpath),), "its path"))}):
                    rs.add((frozenset((x[1],) + x[2:] for x in q2 if x[0] == "now"), v))
            ok = rs == {(frozenset({("starts_with", ("its path", "its former path"), v)}), v) for v in (True, False)}
            q = q | {("chosen", "all below" if ok else "not all below: " + str(sorted(rs, key=str)))}
            return [(q, {})] if not self.is_adapter(c) else super().call(m, c, q, d)
        return super().call(m, c, q, d)

    def loop(self, c):
        t = arg_ty(c, 0)
        if last(c.name) in ("pop_front", "pop") and t is not None and not c.targets and has_adt(t, "WatchToken") and has_adt(t, "Event") and "change" in self.items:
            return "change"
        if "below" in self.items and last(c.declared or "") == "collect":
            return None
        return super().loop(c)

    def over(self, c):
        t = arg_ty(c, 0)
        if t is not None and self.search and peel(t)[0] == "adt" and last(peel(t)[1]) == "Enumerate":
            t = peel(t)[2][0]
        return t is not None and watchees(t)

    def interesting_stmt(self, body, s):
        return False

    def bool_of(self, m, c, q, d, item):
        """Runs a predicate on an item: [(q, env, truth or None)]."""
        out = []
        for t in c.closures:
            for q2, d2, rf in m.run_closure_ret(c.inst, c, t, [item], q, d):
                v = rf.get(((), "c"))
                p = rf.get(((), "p"))
                for b in (True, False) if v is None else (bool(v),):
                    out.append((q2, d2, b))
        return out or [(q, d, True), (q, d, False)]

    def number(self, m, inst, op, d, depth=0):
        """The number of a token: of a constant, or of a value whose number is known."""
        if op[0] == "c":
            if len(op) > 4:
                return op[4]
            pb = m.p.promoted.get((inst.body.uid, op[3])) if len(op) > 3 and isinstance(op[3], int) and not isinstance(op[3], bool) else None
            us = [x[2][1] for x in pb.blocks[0]["s"] if x[0] == "=" and x[2][0] == "use"] if pb is not None and len(list(pb.reach)) == 1 else ()
            return us[0][4] if len(us) == 1 and us[0][0] == "c" and len(us[0]) > 4 else None
        k = m.opkey(op, d)
        for n in range(3):
            v = d.get((k + ("*",) * n + (("f", 0),), "c")) if k is not None else None
            if v is not None:
                return v
        ds = inst.body.assigns.get(op[1][0], ())
        if depth > 6 or len(ds) != 1 or any(not isinstance(e, str) for e in op[1][1:]):
            return None
        rv = ds[0][2]
        return self.number(m, inst, rv[1] if rv[0] == "use" else ["p", rv[2]], d, depth + 1) if rv[0] in ("use", "ref") else None

    def on_event(self, m, c, q, d):
        self.cur = c.inst
        if self.target(c) is not None:
            return super().on_event(m, c, q, d)
        o = self.other(c)
        b = c.inst.body
        if o in ("recv", "next recv"):
            self.n += 1
            q = self.step_round(m, c, q)
            q = frozenset(x for x in q if x[0] not in ("got", "woken", "closed", "failed"))
            r = (("d", "Ok"), ("f", 0))
            if o == "next recv":
                return [(q | {("got",)}, {((), "v"): "Some", (SOME, "v"): "Ok", (SOME + r, "l"): "change"}), (q | {("failed",)}, {((), "v"): "Some", (SOME, "v"): "Err"}), (q | {("closed",)}, {((), "v"): "None"})]
            return [(q | {("got",)}, {((), "v"): "Ok", (r, "v"): "Ok", (r + r, "l"): "change"}), (q | {("failed",)}, {((), "v"): "Ok", (r, "v"): "Err"}), (q | {("closed",)}, {((), "v"): "Err"})]
        if o == "notify":
            return [(self.add(q, "woken"), {})]
        if o == "queue":
            k = m.opkey(c.args[1], d)
            l = tuple(self.at(m, k + (("f", i),), d) for i in (0, 1)) if k is not None else ("?", "?")
            if ("woken",) in q:
                m.report("late", "a change is queued after core has been woken for it", b, c.line)
            return [(self.add(q, "queued", *l), {})]
        if o == "add":
            return [(self.add(q, "add", sum(x[0] == "add" for x in q)), {})]
        if o == "take out":
            if self.sought(q):
                q = frozenset(x for x in q if x[0] not in ("now", "match")) | {("found", self.sought(q))}
            return [(self.add(q, "take out", self.say(m, c.args[1], d)), {((), "l"): "removed", ((("f", self.wpath),), "l"): "its former path", ((("f", self.wrec),), "l"): "recursive"})]
        if o == "canonicalize":
            return [(q | {("real", True)}, {((), "v"): "Ok", ((("d", "Ok"), ("f", 0)), "l"): "real path"}), (q | {("real", False)}, {((), "v"): "Err"})]
        if o in ("any", "all", "position"):
            outs = []
            for q2, d2, v in self.bool_of(m, c, frozenset(x for x in q if x[0] != "now"), d, {(("*",) * n, "l"): "other" for n in (0, 1)} if o != "position" else {(("*",) * n, "l"): "other" for n in (0, 1)}):
                seen = frozenset(x[1:] for x in q2 if x[0] == "now")
                q2 = frozenset(x for x in q2 if x[0] != "now")
                if o == "position":
                    if v:
                        outs.append(("state", q2 | {("found", seen)}, d2, {((), "v"): "Some", ((("d", "Some"), ("f", 0)), "l"): "place"}))
                elif o == "any" and v or o == "all" and not v:
                    outs.append(("state", q2 | {("others", True, seen)}, d2, {((), "c"): o == "any"}))
            if o == "position":
                outs.append(("state", q | {("none",)}, d, {((), "v"): "None"}))
            else:
                outs.append(("state", q | {("others", False)}, d, {((), "c"): o == "all"}))
            return outs
        if o == "search":
            return None
        if o and o.startswith("system "):
            l = self.say(m, c.args[1], d)
            return [(self.add(q, o, l), {((), "v"): v}) for v in OK]
        if o in ("eq token", "eq path", "starts_with"):
            self.n += 1
            eq = last(c.declared or c.name) != "ne"
            if o == "eq token":
                ns = [self.number(m, c.inst, a, d) for a in c.args[:2]]
                if None not in ns:
                    return [(q, {((), "c"): (ns[0] == ns[1]) == eq})]
            if o == "eq path" and "filter" in self.ops:
                o = "parent" if any("parent" in str(self.say(m, a, d)) for a in c.args[:2]) else "same"
            ls = tuple(self.say(m, a, d) for a in c.args[:2])
            if o == "starts_with" and ("open", "below") in q:
                return [(self.add(q, "below", ls == ("path below", "its former path") or ("chosen", "all below") in q, v), {((), "c"): v}) for v in (True, False)]
            return [(q | {("now", o, ls, v)}, {((), "c"): v == eq}) for v in (True, False)]
        if o == "empty queue":
            n = last(c.name)
            new = self.say(m, c.args[1], d) if n == "replace" else "empty"
            return [(self.add(q, "emptied") if n == "take" or n == "replace" else q, {((), "l"): self.say(m, c.args[0], d)})]
        if o == "drain":
            whole = last(c.name) == "clear" or len(c.args) > 1 and "RangeFull" in str(arg_ty(c, 1))
            return [(self.add(q, "emptied" if whole else "part"), {})]
        if o == "retain":
            return [(self.add(q, "retain"), {})]
        if o == "schedule_idle":
            return [(self.add(q, "idle", self.say(m, c.args[1], d)), {})]
        if o == "parent":
            return [(q, {((), "v"): "Some", (SOME, "l"): "parent"}), (q, {((), "v"): "None", ((), "l"): "parent"})]
        if o == "filter":
            return [(q, {((), "c"): self.ops["filter"]})]
        if o == "exists":
            return [(self.add(q, "exists", v), {((), "c"): v}) for v in (True, False)]
        if o == "paths len":
            return [(q, {((), "c"): self.ops["paths"]})]
        if o in ("paths any", "paths all"):
            outs, now = [], [(q, d)]
            for i in range(self.ops["paths"]):
                new = []
                for q1, d1 in now:
                    for q2, d2, v in self.bool_of(m, c, q1, d1, {(("*",) * n, "l"): f"path {i}" for n in (0, 1)}):
                        if v == (o == "paths any"):
                            outs.append(("state", q2, d2, {((), "c"): v}))
                        else:
                            new.append((q2, d2))
                now = new
            return outs + [("state", q1, d1, {((), "c"): o == "paths all"}) for q1, d1 in now]
        if o and o.startswith("paths "):
            i = self.say(m, c.args[1], d) if len(c.args) > 1 else 0
            return [(q, {((), "l"): f"path {i}"} if o == "paths index" else {((), "v"): "Some", (SOME, "l"): f"path {i}"})]
        return super().on_event(m, c, q, d)

    def step(self, m, c, q, token, more):
        q = super().step(m, c, q, token, more)
        return q | {("looked", token)} if token == "below" and not more else q

    def edge(self, m, body, bb, key, variant, q, d):
        if d.get((key, "l")) == "recursive" and isinstance(variant, bool) and ("below" in self.items):
            return q | {("recursive", variant)}
        return q

    def step_round(self, m, c, q):
        """The change received before is dealt with."""
        if ("got",) in q and ("woken",) not in q:
            m.report("not-woken", "core is not woken for a change", c.inst.body, c.line)
        return q


def explore(ctx, root, env, ops=None, items=None):
    rule = Watch()
    rule.ctx, rule.n, rule.root = ctx, 0, root.body.uid
    rule.ops, rule.items, rule.pair = ops or {}, items or {}, []
    rule.wpath, rule.wrec = ctx.fidx("watcher::Watchee", "path"), ctx.fidx("watcher::Watchee", "recursive")
    m = Machine(ctx.p, ctx.r, rule)
    rule.search = last(root.body.name) in ("watch_impl", "unwatch")
    out = [(q, dict(fs)) for q, fs in m.run(root, frozenset(), env)]
    if last(root.body.name) == "watch_impl":
        out = [(q | {("others", True, rule.sought(q))} if rule.sought(q) else q, fs) for q, fs in out]
    ctx.take(m, "watching")
    return root.body.loc(root.body.line), out


DEBUG = False


def run(ctx):
    def J(rule, root, env, cond, what, ops=None, items=None, some=None):
        if isinstance(root, str):
            root = ctx.inst(root)
        name = root.body.name[len(CORE):]
        at, outs = explore(ctx, root, env, ops, items)
        bad = [(sorted(q, key=str), {k: v for k, v in fs.items() if k[0][0] == 0}) for q, fs in outs if not cond(q, fs)]
        ctx.expect(not bad, rule, f"{name}: {what}", rule, f"{name}: not on every path: {what}; there is a path with {str(bad[0])[:300] if bad else ''}", at)
        for i, (text, pred) in enumerate((some or {}).items()):
            ctx.expect(any(pred(q, fs) for q, fs in outs), rule, f"{name}: {text}", f"{rule}|{i}", f"{name}: on no path {text}", at)
        if DEBUG:
            print("==", rule, name, len(outs))
            for q, fs in outs[:14]:
                print("   ", sorted(q, key=str), {k: v for k, v in fs.items() if k[0][0] == 0})

    new = ctx.inst(FW + "new")
    loops = [t for c in ctx.r.calls(new).values() if last(c.name) == "spawn" for t in c.closures]
    ctx.expect(len(loops) == 1, "anchor", "the thread that receives the changes", "anchor:thread")
    wf = lambda f: ctx.fidx("watcher::Watchee", f)
    item = {}
    for r in ((), ("*",)):
        item[(r, "l")] = "watch"
        item[(r + (("f", wf("token")),), "l")] = "its token"
    for t in loops:
        J("queue", t, {}, lambda q, fs: ("closed",) in q and all(has(x, "wants", True) and has(x, "queued", "its token", "change") or has(x, "wants", False) and not has(x, "queued") for x in items_of(q)),
          "each watch that wants the change gets it with its token, others do not, and only the end of the channel ends the thread", {W + "Watchee::wants_event": wants}, {"watch": (watchees, item)},
          some={"changes are queued": lambda q, fs: any(has(x, "queued") for x in items_of(q))})
    J("take", FW + "take_events", {}, lambda q, fs: has(q, "emptied"), "the queue is emptied as it is taken")
    J("watch", FW + "watch_impl", {((2,), "l"): "path", ((3,), "l"): "recursive", ((4,), "l"): "token", ((5,), "l"): "filter"},
      lambda q, fs: ("real", False) in q and not has(q, "add") or has(q, "add", 0) and not has(q, "add", 1) and (any(x[:2] == ("others", True) and same_path(x[2], True) for x in q) or has(q, "system watch", None)),
      "a path is kept once, and the system asked to watch it unless it does already", some={"the system is asked": lambda q, fs: has(q, "system watch")})
    J("unwatch", FW + "unwatch", {((2,), "l"): "path", ((3,), "l"): "token"},
      lambda q, fs: ("none",) in q and not has(q, "take out") and not has(q, "system unwatch") or any(x[0] == "found" and of_token(x[1]) for x in q) and has(q, "take out", "place")
      and (any(x[:2] == ("others", True) and same_path(x[2], True) for x in q) != has(q, "system unwatch")) and not has(q, "retain")
      and (("recursive", False) in q or ("recursive", True) in q and ("looked", "below") in q and not any(x[0] == "chosen" and x[1] != "all below" for x in q)
           and all(has(x, "system watch", "path below") or has(x, "below", True, False) for x in items_of(q))),
      "only the watch of that path and token is removed, the system stops watching only when nobody else watches the path, and what was below is watched again", {},
      {"below": (lambda t: paths(t) or watchees(t), {((("f", 0),), "l"): "path below", **{(("*",) * n + (("f", wf("path")),), "l"): "path below" for n in (0, 1)}})},
      some={"the system stops watching": lambda q, fs: has(q, "system unwatch"), "what was below is watched again": lambda q, fs: any(has(x, "system watch", "path below") for x in items_of(q))})
    # every token leads to the handler of those who watch with it
    loc, where = {}, {}
    given = tokens_given(ctx)
    ctx.expect(len(given) == 4, "dispatch", "the tokens changes are watched with", "tokens", f"changes are watched with the tokens {sorted(given)}")
    ops = {STATE + h: (h, (1,)) for h in HANDLERS.values()}
    ops[FW + "take_events"] = ("take", (), {((), "l"): "changes"})
    led = {}
    for tok, n in sorted(given.items()):
        item = {((("f", 0),), "l"): "token", ((("f", 1),), "l"): "change", ((("f", 0), ("f", 0)), "c"): n}
        at, outs = explore(ctx, ctx.inst(STATE + "handle_fs_events"), {}, ops, {"change": (events, item)})
        ctx.expect(not any(has(y, "part") for q, fs in outs for y in [q] + items_of(q)), "dispatch", "all changes taken are looked at", "dispatch|part", "only a part of the changes taken is looked at", at)
        got = {x for q, fs in outs for i in items_of(q) for x in [tuple(sorted(e for e in i if e[0] in HANDLERS.values()))]}
        led[tok] = sorted(got)
        h = HANDLERS.get(tok)
        ctx.expect(h is None or got == {((h, "change"),)}, "dispatch", f"a change watched for with {tok} is given to {h}, once", f"dispatch|{tok}", f"a change watched for with {tok} is given to {led[tok]}", at)
    ctx.expect(len({str(x) for x in led.values()}) == len(led), "dispatch", "changes watched for with different tokens are handled differently", "dispatch|distinct", f"changes are given to {led}")

    # core is woken with the token for which it looks at the changes
    n = [Inst(b) for b in ctx.p.bodies.values() if b.name.endswith("watcher::Notify>::notify")]
    ctx.expect(bool(n), "anchor", "what wakes core", "anchor:notify")
    for i in n:
        at, outs = explore(ctx, i, {}, {})
        ws = {tuple(sorted(x[1:] for x in q if x[0] == "idle")) for q, fs in outs}
        ctx.expect(len(ws) == 1 and len(min(ws)) == 1, "wake", "core is woken once for a change", "wake|once", f"core is woken by {ws}", at)
        for (tok,) in min(ws):
            at, outs = explore(ctx, ctx.inst(STATE + "handle_idle"), {((2,), "c"): tok}, {STATE + "handle_fs_events": ("look", ())})
            ctx.expect(all(has(q, "look") for q, fs in outs), "wake", "core, woken, looks at the changes", "wake|look", f"woken with {tok} core does not look at the changes", at)

    # which changes a watch wants
    rec, flt = wf("recursive"), wf("filter")
    bad, n = [], 0
    root = ctx.inst(W + "Watchee::applies_to_path")
    for r in (True, False):
        for f in (None, True, False):
            env = {((1, "*", ("f", rec)), "c"): r, ((1, "*", ("f", flt)), "v"): "None" if f is None else "Some", ((1, "*", ("f", wf("path"))), "l"): "watched", ((2,), "l"): "changed", ((2, "*"), "l"): "changed"}
            at, outs = explore(ctx, root, env, {"filter": f})
            for q, fs in outs:
                seen = {x[1]: x[3] for x in q if x[0] == "now"}
                got = fs.get(((0,), "c"))
                for below, same, child in ((False, False, False), (True, True, False), (True, False, True), (True, False, False)):
                    fact = {"starts_with": below, "same": same, "parent": child}
                    if all(fact[k] == v for k, v in seen.items() if k in fact):
                        want = below and (r or same or child) and f is not False
                        n += 1
                        if got is not want:
                            bad.append(f"{fact}, recursive {r}, filter {f}: {got}")
    ctx.expect(n and not bad, "wants", "a watch wants the changes of its path and what is directly below it, or all below it if recursive, that its filter lets through", "wants", f"a watch decides wrongly: {bad[:2]}", at)
    bad = []
    at = ""
    for kind, at_path in KINDS.items():
        for n in (0, 1, 2):
            env = kind_env((2, "*", ("f", KIND)), kind)
            at, outs = explore(ctx, ctx.inst(W + "Watchee::wants_event"), env, {W + "Watchee::applies_to_path": applies, "paths": n})
            for q, fs in outs:
                asked = {x[1]: x[2] for x in q if x[0] == "applies"}
                got = fs.get(((0,), "c"))
                if n != len(at_path):
                    continue
                if got is None or (got is True) != any(asked.get(f"path {i}") for i in at_path) or got is False and any(asked.get(f"path {i}") is not False for i in at_path):
                    bad.append(f"{kind}: {got} for {asked}")
    ctx.expect(not bad, "wants", "a change is wanted if it applies to one of its paths", "kinds", f"a watch decides wrongly: {bad[:2]}", at)

    # what settings and themes do with a change
    for h, load, gone in (("handle_config_fs_event", "load_file_based_config", "remove_config_at_path"), ("handle_themes_fs_event", "load_theme_file", "remove_theme")):
        bad = []
        for kind in KINDS:
            env = kind_env((2, ("f", KIND)), kind)
            at, outs = explore(ctx, ctx.inst(STATE + h), env, {STATE + load: ("load", (1,)), STATE + gone: ("gone", (1,)), "paths": 2})
            for q, fs in outs:
                did = {x for x in q if x[0] in ("load", "gone")}
                if kind == ("Modify", "Name", "Both"):
                    ok = did == {("gone", "path 0"), ("load", "path 1")}
                elif kind == ("Remove", "Any"):
                    ok = did == ({("gone", "path 0")} if ("exists", False) in q else set())
                elif kind[:2] == ("Modify", "Metadata") and "themes" in h:
                    ok = did <= {("load", "path 0")}
                else:
                    ok = did == {("load", "path 0")}
                if not ok:
                    bad.append(f"{kind}: {sorted(did)} when {sorted(q, key=str)}")
        ctx.expect(not bad, "handle", f"{h}: a changed file is read anew, one that is gone is forgotten, and a renamed one is both", f"handle|{h}", f"{h} does for {bad[:2]}", at)


KIND = 0            # the first field of notify::Event, whose layout is not among the facts
KINDS = {("Create", "Any"): (0,), ("Remove", "Any"): (0,), ("Modify", "Any"): (0,), ("Modify", "Metadata", "Any"): (0,), ("Modify", "Name", "Both"): (0, 1)}


def kind_env(k, kind):
    env = {}
    for v in kind:
        env[(k, "v")] = v
        k = k + (("d", v), ("f", 0))
    return env


def applies(self, m, c, q, d):
    p = self.say(m, c.args[1], d)
    return [(q | {("applies", p, v)}, {((), "c"): v}) for v in (True, False)]


def tokens_given(ctx):
    """The tokens paths are watched with: {name: number}."""
    out = {}
    for b in ctx.p.bodies.values():
        if not b.name.startswith(CORE) or b.name.startswith(W):
            continue
        for blk in b.blocks:
            t = blk["t"]
            if t[0] == "call":
                for a in t[2]:
                    if a[0] == "c" and len(a) > 4 and isinstance(a[3], str) and "watch" in str(b.defs[t[1]["d"]]["name"] if "d" in t[1] else ""):
                        out[last(a[3])] = a[4]
    return out


def wants(self, m, c, q, d):
    return [(self.add(q, "wants", v), {((), "c"): v}) for v in (True, False)]


def same_path(seen, v):
    return any(x[0] == "eq path" and x[2] is v for x in seen)


def of_token(seen):
    return any(x[0] == "eq token" and x[2] is True for x in seen) and same_path(seen, True)
