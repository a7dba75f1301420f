"""P28: tracing: each event recorded once while on and never while off; what is measured is run once; saving writes this trace's samples."""
from ..esp import Machine
from ..lib import *
from .settings import SOME, Steps, has, items_of, peel, ret

T = "xi_trace::"
TR = T + "Trace::"
MAKERS = {T + "Sample::new_instant": ("instant", (0, 1, 2)), T + "Sample::new_duration": ("duration", (0, 1, 2)), T + "Sample::new_duration_marker": ("marker", (0, 1, 2, 3))}


class Tracing(Steps):
    maps = False
    label_pass = Steps.label_pass | {"core::convert::Into::into", "core::convert::From::from", "core::clone::Clone::clone", "core::option::Option::take", "core::option::Option::as_ref", "core::option::Option::unwrap",
                                     "core::option::Option::as_mut", "core::option::Option::expect", "std::path::Path::new"}

    def opaque(self, c):
        return self.target(c) is not None or bool(c.targets) and all(not t.body.name.startswith(("xi_trace::", "<xi_trace::")) or "chrome_trace_dump" in t.body.name for t in c.targets)

    def other(self, c):
        n, dn = last(c.name), c.declared or ""
        t = arg_ty(c, 0)
        if c.targets:
            return None
        if n == "push_back" and "fixed_lifo_deque" in c.inst.body.name:
            return "push"
        if t is not None and has_adt(t, "Sample"):
            if dn.startswith("core::iter::traits::iterator::Iterator::") and n in ("filter", "skip", "take", "step_by", "skip_while", "take_while", "filter_map", "map_while", "map", "flat_map", "cloned", "copied", "rev", "by_ref", "fuse", "chain", "peekable"):
                return "same" if n in ("cloned", "copied", "rev", "by_ref", "fuse") else "part"
            if n in ("extend", "append", "extend_from_slice", "extend_from_within"):
                return "extend"
            if n in ("push", "push_back") and peel(t)[0] == "adt" and last(peel(t)[1]) in ("Vec", "VecDeque"):
                return "push"
            if n in ("dedup", "dedup_by", "dedup_by_key", "retain", "truncate", "pop", "clear", "drain", "remove", "swap_remove", "split_off", "resize"):
                return "drop"
        if n in ("load", "store", "swap") and "atomic" in c.name:
            return n
        if dn.endswith(("FnOnce::call_once", "FnMut::call_mut", "Fn::call")):
            return "run"
        if n in ("create", "open", "write", "exists", "create_new") and ("fs::" in c.name or "path" in c.name):
            return n
        if dn.endswith("convert::Into::into"):
            return "into"
        return None

    def interesting_stmt(self, body, s):
        return s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and last(s[2][1][1]) == "SampleGuard"

    def step(self, m, c, q, token, more):
        q = super().step(m, c, q, token, more)
        return q | ({(("in", token), "at", c.bb)} if more else {("looked", c.bb)})

    def binop(self, m, inst, op, a, b, d):
        for x, y, o in ((a, b, op), (b, a, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op))):
            if x[0] != "c" and "room" in (m.labels(x, d) or ()) and m.opconst(y, d) in (0, 1):
                r = {("Gt", 0): "room", ("Ne", 0): "room", ("Ge", 1): "room", ("Eq", 0): "no room", ("Le", 0): "no room", ("Lt", 1): "no room"}.get((o, m.opconst(y, d)))
                if r:
                    return ("l", "has " + r)
        return None

    def edge(self, m, body, bb, key, variant, q, d):
        l = d.get((key, "l"))
        if l in ("has room", "has no room") and isinstance(variant, bool):
            return q | {("room", (l == "has room") == variant)}
        if l == "room" and not isinstance(variant, bool):
            return q | {("room", variant != 0)}
        return q

    def on_event(self, m, c, q, d):
        self.cur = c.inst
        if self.target(c) is not None:
            return super().on_event(m, c, q, d)
        o = self.other(c)
        if o == "same":
            return [(q, {((), "l"): self.say(m, c.args[0], d)})]
        if o == "part":
            return [(q, {((), "l"): "part"})]
        if o == "extend":
            return [(self.add(q, "extend", self.say(m, c.args[1], d)), {})]
        if o == "push":
            l = self.say(m, c.args[1], d)
            return [(self.add(q, "push", l, min(sum(x[-3:-1] == ("push", l) for x in q), 2)), {})]
        if o == "drop":
            return [(self.add(q, "drop", last(c.name)), {})]
        if o == "load":
            self.n += 1
            v = next((x[1] for x in q if x[0] == "on"), None)
            return [(q | {("on", b)}, {((), "c"): b}) for b in ((True, False) if v is None else (v,))]
        if o in ("store", "swap"):
            return [(q | {("switched", self.say(m, c.args[1], d))}, {})]
        if o == "run":
            self.n += 1
            l = self.say(m, c.args[0], d)
            return [(q | {("run", l, sum(x[0] == "run" for x in q))}, {((), "l"): "result"})]
        if o == "exists":
            return [(q | {("exists", v)}, {((), "c"): v}) for v in (True, False)]
        if o == "create_new" and "OpenOptions" in c.name:
            return [(q | {("only new",)} if m.opconst(c.args[1], d) is not False else q, {})]
        if o == "write" and "OpenOptions" in c.name:
            return [(q, {})]
        if o in ("create", "open", "write", "create_new"):
            if o == "create_new":
                q = q | {("only new",)}
            return [(q | {("created", o)}, {((), "v"): "Ok", ((("d", "Ok"), ("f", 0)), "l"): "file"}), (q | {("not created",)}, {((), "v"): "Err"})]
        return super().on_event(m, c, q, d)


def made(kind, args):
    def h(self, m, c, q, d):
        l = tuple(self.say(m, c.args[i], d) for i in args)
        fs = {((), "l"): (kind,) + l}
        i = self.kind_field
        fs[((("f", i),), "v")] = {"duration": "CompleteDuration", "instant": "Instant"}.get(kind) or l[-1].rsplit("::", 1)[-1]
        return [(q, fs)]
    return h


def push(self, m, c, q, d):
    self.n += 1
    k = m.opkey(c.args[1], d)
    l, n = None, 0
    while k is not None and n < 5 and l is None:
        l = m.label_at(k, d)
        kind = d.get((k + (("f", self.kind_field),), "v"))
        k, n = (d.get((k, "r")) or (None,))[0], n + 1
    return [(q | {("recorded", l or "?", kind, sum(x[0] == "recorded" for x in q))}, {})]


def explore(ctx, root, env, ops, items=None):
    rule = Tracing()
    rule.ctx, rule.n, rule.root = ctx, 0, root.body.uid
    rule.ops, rule.items, rule.pair = ops, items or {}, []
    rule.kind_field = ctx.fidx("Sample", "event_type")
    m = Machine(ctx.p, ctx.r, rule)
    out = [(q, dict(fs)) for q, fs in m.run(root, frozenset(), env)]
    ctx.take(m, "tracing")
    return root.body.loc(root.body.line), out


def run(ctx):
    ops = {n: made(*v) for n, v in MAKERS.items()}
    dq = T + "fixed_lifo_deque::FixedLifoDeque::"
    ops[dq + "push_back"] = push
    ops[dq + "reset_limit"] = ("limit", (1,))
    rec = lambda q: sorted((x[1:] for x in q if x[0] == "recorded"), key=str)
    runs = lambda q: [x[1:] for x in q if x[0] == "run"]

    def J(rule, name, env, cond, what):
        root = ctx.inst(name) if isinstance(name, str) else name
        at, outs = explore(ctx, root, env, ops)
        bad = [(sorted(q, key=str), {k: v for k, v in fs.items() if k[0][0] == 0}) for q, fs in outs if not cond(q, fs)]
        short = root.body.name[len(T):]
        ctx.expect(bool(outs) and not bad, rule, f"{short}: {what}", f"{rule}|{short}", f"{short}: not on every path: {what}; there is a path with {str(bad[0])[:300] if bad else ''}", at)
        for on in (True, False):
            if rule in ("event", "block", "closure"):
                ctx.expect(any(("on", on) in q for q, fs in outs), rule, f"{short}: there is a path with tracing {'on' if on else 'off'}", f"{rule}|{short}|{on}", f"{short}: whether tracing is on makes no difference", at)

    once = lambda q, want: len(rec(q)) == 1 and rec(q)[0][0] == want
    off = lambda q: ("on", False) in q and not rec(q)
    env = {((2,), "l"): "name", ((3,), "l"): "categories", ((4,), "l"): "payload"}
    J("event", TR + "instant", env, lambda q, fs: off(q) or once(q, ("instant", "name", "categories", "None")), "recorded once, with its name and categories, exactly while tracing is on")
    J("event", TR + "instant_payload", env, lambda q, fs: off(q) or once(q, ("instant", "name", "categories", "payload")), "recorded once, with its name, categories and payload, exactly while tracing is on")
    tf = ctx.fidx("SampleGuard", "trace")
    sf = ctx.fidx("SampleGuard", "sample")
    for n, p in (("block", "None"), ("block_payload", "payload")):
        J("block", TR + n, env, lambda q, fs, p=p: ("on", False) in q and not rec(q) and fs.get(((0, ("f", tf)), "v")) == "None"
          or once(q, ("marker", "name", "categories", p, "DurationBegin")) and fs.get(((0, ("f", tf)), "v")) == "Some" and fs.get(((0, ("f", sf)), "v")) == "Some", "its begin is recorded once, and its end prepared, exactly while tracing is on")
    drops = [Inst(b) for b in ctx.p.bodies.values() if b.name == "<xi_trace::SampleGuard as core::ops::drop::Drop>::drop"]
    ctx.expect(len(drops) == 1, "anchor", "the end of a block", "anchor:drop", "the end of a block is not found")
    for v in ("Some", "None"):
        for r in drops:
            env2 = {((1, "*", ("f", tf)), "v"): v, ((1, "*", ("f", sf)), "v"): v, ((1, "*", ("f", sf)) + SOME, "l"): "begin"}
            J("end" + v, r, env2, lambda q, fs: (len(rec(q)) == 1 and rec(q)[0][:2] == ("begin", "DurationEnd")) if v == "Some" else not rec(q), "the end of a block that was begun, and of no other, is recorded once, with what was given at its begin")
    for n, p, i in (("closure", "None", 4), ("closure_payload", "payload", 4)):
        e = {((2,), "l"): "name", ((3,), "l"): "categories", ((4,), "l"): "work", ((5,), "l"): "payload"}
        J("closure", TR + n, e, lambda q, fs, p=p: runs(q) == [("work", 0)] and fs.get(((0,), "l")) == "result" and (off(q) or once(q, ("duration", "name", "categories", p))), "the work is run once and its result returned, and it is recorded once exactly while tracing is on")
    J("switch", TR + "disable", {}, lambda q, fs: ("switched", False) in q and any(x[0] == "limit" for x in q), "recording stops and the samples are dropped")
    for n in ("enable", "enable_config"):
        J("switch", TR + n, {}, lambda q, fs: ("switched", True) in q and any(x[0] == "limit" for x in q), "recording starts, with room for samples")
    # the functions for the one trace of the process
    for n, to in (("trace", "instant"), ("trace_payload", "instant_payload"), ("trace_block", "block"), ("trace_block_payload", "block_payload"), ("trace_closure", "closure"), ("trace_closure_payload", "closure_payload"),
                  ("enable_tracing", "enable"), ("enable_tracing_with_config", "enable_config"), ("disable_tracing", "disable"), ("samples_cloned_sorted", "samples_cloned_sorted"), ("samples_cloned_unsorted", "samples_cloned_unsorted"), ("save", "save")):
        root = ctx.inst(T + n)
        fs = {TR + to: ("forwarded", tuple(range(1, root.body.argc + 1)), {((), "l"): "outcome"})}
        at, outs = explore(ctx, root, {((i,), "l"): f"argument {i}" for i in range(1, root.body.argc + 1)}, fs)
        want = ("forwarded",) + tuple(f"argument {i}" for i in range(1, root.body.argc + 1))
        ctx.expect(bool(outs) and all(q == {want} for q, _ in outs), "global", f"{n}: does what it says on the process's trace, with its own arguments", f"global|{n}", f"{n}: there is a path with {[sorted(q, key=str) for q, _ in outs][:2]}", at)
    # all samples are given
    def empty(self, m, c, q, d):
        return [(q | {("empty", v)}, {((), "c"): v}) for v in (True, False)]

    def first(self, m, c, q, d):
        v = next((x[1] for x in q if x[0] == "empty"), None)
        return [(q | {("empty", b)}, {((), "v"): "None" if b else "Some"}) for b in ((True, False) if v is None else (v,))]

    def every(q, copying):
        loops = [(y[1], sum(z[:2] == ("push", "sample") for z in x)) for x in items_of(q) for y in x if y[0] == "at"]
        whole = sum(x[:2] == ("extend", "all samples") for x in q)
        return not any(x[0] == "drop" or x[:2] == ("extend", "part") for y in [q] + items_of(q) for x in y) and (("empty", True) in q or whole + sum(("looked", b) in q for b in copying) == 1
                   and all(n == (b in copying) for b, n in loops))
    plain = lambda self, m, c, q, d: [(q, {})]
    some_items = {"sample": (lambda t: peel(t)[0] == "adt" and last(peel(t)[1]) in ("Iter", "Cloned", "IntoIter") and has_adt(t, "Sample") and "Filter" not in str(t), {(("*",) * n, "l"): "sample" for n in (0, 1)})}
    at, outs = explore(ctx, ctx.inst(TR + "samples_cloned_unsorted"), {((1,), "l"): "this trace"}, {dq + "iter": lambda self, m, c, q, d: [(q, {((), "l"): "all samples"})], dq + "is_empty": empty, dq + "front": first, dq + "len": plain,
                       T + "exe_name": plain, T + "Sample::new_metadata": lambda self, m, c, q, d: [(q, {((), "l"): "metadata"})]}, some_items)
    copying = {y[1] for q, fs in outs for x in items_of(q) for y in x if y[0] == "at" and any(z[:2] == ("push", "sample") for z in x)}
    bad = [sorted(q, key=str) for q, fs in outs if not every(q, copying)]
    ctx.expect(bool(outs) and not bad, "samples", "every sample is given, once", "samples|all", f"not every sample is given, once: there is a path with {str(bad[:1])[:300]}", at)
    at, outs = explore(ctx, ctx.inst(TR + "samples_cloned_sorted"), {((1,), "l"): "this trace"}, {TR + "samples_cloned_unsorted": ("unsorted", (0,), {((), "l"): "samples"})})
    bad = [sorted(q, key=str) for q, fs in outs if not has(q, "unsorted", "this trace") or has(q, "drop") or fs.get(((0,), "l")) != "samples"]
    ctx.expect(bool(outs) and not bad, "samples", "sorting keeps every sample", "samples|sorted", f"sorting does not keep every sample: there is a path with {str(bad[:1])[:300]}", at)
    lim, sto = ctx.fidx("FixedLifoDeque", "limit"), ctx.fidx("FixedLifoDeque", "storage")
    at, outs = explore(ctx, ctx.inst(dq + "push_back"), {((1, "*", ("f", lim)), "l"): "room", ((2,), "l"): "value"}, {})
    bad = [sorted(q, key=str) for q, fs in outs if not (("room", False) in q and not has(q, "push") or sum(x[:2] == ("push", "value") for x in q) == 1)]
    ctx.expect(bool(outs) and not bad, "samples", "a sample recorded is kept once, if there is room for any", "samples|kept", f"a sample recorded is not kept once: there is a path with {str(bad[:1])[:300]}", at)

    # saving
    SER = T + "chrome_trace_dump::serialize"
    J2 = {TR + "samples_cloned_sorted": ("sorted", (0,), {((), "l"): "sorted samples"}), TR + "samples_cloned_unsorted": ("unsorted", (0,), {((), "l"): "samples"}), SER: ("written", (0, 1), {((), "l"): "written"})}
    for s in (True, False):
        at, outs = explore(ctx, ctx.inst(TR + "save"), {((1,), "l"): "this trace", ((2,), "l"): "path", ((3,), "c"): s}, J2)
        want = "sorted samples" if s else "samples"
        bad = [sorted(q, key=str) for q, fs in outs if not (has(q, "written", want, "file") and (("exists", False) in q or ("only new",) in q) or not has(q, "written") and (("exists", True) in q and not has(q, "created") or has(q, "not created")) and fs.get(((0,), "v")) == "Err")
               or any(x[0] in ("sorted", "unsorted") and x[1] != "this trace" for x in q)]
        ctx.expect(bool(outs) and not bad and any(has(q, "written") for q, _ in outs), "save", f"the samples of this trace, {'sorted' if s else 'as recorded'}, are written to a new file, or an error is returned", f"save|{s}", f"saving a trace: there is a path with {bad[:1]}", at)
