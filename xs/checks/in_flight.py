"""P30: the edit history is collected only while no update sent to a plugin is unanswered."""
from collections import namedtuple

from ..esp import Machine, Rule
from ..lib import *
from .edit_flow import ENGINE, PEER, handlers

Q = namedtuple("Q", "held zero gone")
FIELD = "revs_in_flight"
CAP = 4


class Flight(Rule):
    label_prefix = True
    label_pass = {"core::clone::Clone::clone"}

    def __init__(self, callback=False):
        self.callback = callback
        self.n = dict.fromkeys(("counts", "updates", "collections"), 0)
        self.cbs = set()

    def update(self, c):
        return any(t.body.name == "xi_core_lib::plugins::Plugin::update" for t in c.targets)

    def gc(self, c):
        return any(t.body.name == ENGINE + "gc" for t in c.targets)

    def lookup(self, c):
        """Something this may find to be gone: the core, a buffer."""
        t = dest_ty(c)
        if not self.callback or t is None or t[0] != "adt" or last(t[1]) != "Option" or not c.targets:
            return False
        return any(has_adt(t, x) for x in ("XiCore", "EventContext", "CoreState"))

    def arith(self, c):
        n = last(c.name)
        return len(c.args) == 2 and c.name.startswith("usize::") and n in ("saturating_sub", "wrapping_sub", "saturating_add", "wrapping_add") and n

    def interesting(self, c):
        return self.update(c) or self.gc(c) or self.lookup(c) or bool(self.arith(c))

    def opaque(self, c):
        return self.update(c) or self.gc(c) or "xi_trace" in c.name or trait_method(c, "Peer", PEER)

    def spawn(self, m, c, q):
        return "never" if last(c.name) == "spawn" else "many"

    def interesting_stmt(self, body, s):
        return s[0] == "=" and counter(s[1])

    def binop(self, m, inst, op, a, b, d):
        def rif(x):
            return x[0] != "c" and (counter(x[1]) or m.labels(x, d) == "rif" or (origin(inst.body, x) or ("", ""))[1] == FIELD)
        cb, ca = m.opconst(b, d), m.opconst(a, d)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if rif(a) and cb == 1 and base in ("Add", "Sub"):
            return ("l", "+1" if base == "Add" else "-1")
        if rif(a) and cb == 0 or rif(b) and ca == 0:
            if op == "Eq" or rif(a) and op == "Le" or rif(b) and op == "Ge":
                return ("l", "zero?")
            if op == "Ne" or rif(a) and op == "Gt" or rif(b) and op == "Lt":
                return ("l", "nonzero?")
        if rif(a) and cb == 1 and op in ("Lt", "Ge"):
            return ("l", "zero?" if op == "Lt" else "nonzero?")
        return None

    def made(self, m, inst, bb, s, q, d):
        if s[0] == "=" and s[2][0] == "use" and s[2][1][0] != "c" and counter(s[2][1][1]):
            k = m.key(s[1], d)
            if k is not None:
                d[(k, "l")] = "rif"

    def stmt(self, m, body, bb, s, q, d):
        if q is None or s[0] != "=" or not counter(s[1]):
            return q
        b = body.body if hasattr(body, "body") else body
        self.n["counts"] += 1
        l = m.labels(s[2][1], d) if s[2][0] == "use" else None
        ln = s[-1] if isinstance(s[-1], int) else b.line
        if l not in ("+1", "-1"):
            m.report("count", "the number of unanswered updates is set to something other than itself plus or minus one", b, ln)
            return q
        h = q.held + (1 if l == "+1" else -1)
        if not self.callback and h < 0:
            m.report("count-early", "an update is counted as answered that was not counted before", b, ln)
        return q._replace(held=max(-CAP, min(CAP, h)), zero=False)

    def edge(self, m, inst, bb, key, variant, q, d):
        if q is None or key is None:
            return q
        l = m.label_at(key, d)
        if l == "zero?" and variant in (True, False):
            return q._replace(zero=variant)
        if l == "nonzero?" and variant in (True, False):
            return q._replace(zero=not variant)
        if l == "rif" and isinstance(variant, tuple):
            return q._replace(zero=variant == ("int", 0))
        if l == "seek" and variant == "None":
            return q._replace(gone=True)
        return q

    def call(self, m, c, q, d):
        if self.arith(c):
            one = m.opconst(c.args[1], d) == 1 and (m.labels(c.args[0], d) == "rif" or (origin(c.inst.body, c.args[0]) or ("", ""))[1] == FIELD)
            return [(q, {((), "l"): "-1" if last(c.name).endswith("sub") else "+1"} if one else {})]
        if self.update(c):
            self.n["updates"] += 1
            for ct in m.r.arg_callables(c) or ():
                self.cbs.update(m.r.callable_targets(ct))
            if q.held < 1:
                m.report("update-uncounted", "an update is sent to a plugin without counting it as unanswered first", c.inst.body, c.line)
            return [(q._replace(held=max(-CAP, q.held - 1)), {})]
        if self.gc(c):
            self.n["collections"] += 1
            if not q.zero:
                m.report("collected", "the edit history is collected although updates may be unanswered", c.inst.body, c.line)
            return [(q, {})]
        if self.lookup(c):
            return [(q, {((), "v"): "Some"}), (q._replace(gone=True), {((), "v"): "None"})] if not any(m.relevant(t) for t in c.targets) else None
        return None


def counter(place):
    f = field_of_place(place)
    return f is not None and f[1] == FIELD


def run(ctx):
    rule = Flight()
    hs = handlers(ctx)
    ctx.expect(len(hs) >= 5, "anchor", f"{len(hs)} entry points", "anchor:handlers")
    ctx.expect(ctx.fidx("Editor", FIELD) is not None, "anchor", "the count of unanswered updates", "anchor:field")
    results = []
    for h in hs:
        m = Machine(ctx.p, ctx.r, rule)
        results.append((h, m, m.run(h, Q(0, False, False), {})))
    cbs = set(rule.cbs)
    ctx.expect(bool(cbs), "anchor", f"{len(cbs)} functions that handle the answer to an update", "anchor:callbacks")
    # entry points that are only ways for the answer to come back
    back = {i.body.uid for i in ctx.reachable(cbs)}
    for h, m, outs in results:
        if h.body.uid in back:
            continue
        for q, _ in outs:
            ctx.expect(q.held == 0, "balance", f"{h.body.name}: every count taken is an update sent or given back", f"balance:{last(h.body.name)}:{q.held}",
                       f"after {last(h.body.name)} the number of unanswered updates is off by {q.held}", h.body.loc(h.body.line))
        ctx.take(m, "flight")
    cr = Flight(True)
    for cb in cbs:
        m = Machine(ctx.p, ctx.r, cr)
        for q, _ in m.run(cb, Q(0, False, False), {}):
            ctx.expect(q.held == (0 if q.gone else -1), "answer", f"answer handled, {'buffer gone' if q.gone else 'counted down once'}", f"answer:{q.gone}:{q.held}",
                       f"the answer to an update counts it down {-q.held} times", cb.body.loc(cb.body.line))
        ctx.take(m, "flight:answer")
    for what in rule.n:
        ctx.expect(rule.n[what] + cr.n[what] >= 1, "anchor", f"{rule.n[what] + cr.n[what]} {what} interpreted", f"anchor:{what}")
    # nothing else touches the count
    for b in ctx.p.bodies.values():
        if ctx.tests(b):
            continue
        for blk in b.reach:
            for s in b.blocks[blk]["s"]:
                if s[0] == "=" and s[2][0] in ("ref", "raw") and s[2][1] and counter(s[2][2]):
                    ctx.violate("escape", f"{b.name} borrows the number of unanswered updates mutably", b.loc(s[-1] if isinstance(s[-1], int) else b.line))
                if s[0] == "=" and counter(s[1]) and s[2][0] == "use" and s[2][1][0] == "c":
                    ctx.violate("count", f"{b.name} sets the number of unanswered updates to a constant", b.loc(s[-1] if isinstance(s[-1], int) else b.line))
    # an update is one request, answered through the callback given
    send_once(ctx)


class Send(Rule):
    label_prefix = True
    label_pass = {"alloc::boxed::Box::new", "core::convert::Into::into", "core::convert::From::from"}

    def interesting(self, c):
        return trait_method(c, "Peer", ("send_rpc_request_async",))

    def opaque(self, c):
        return self.interesting(c)

    def call(self, m, c, q, d):
        if self.interesting(c):
            if m.labels(c.args[3], d) != "cb":
                m.report("callback", "an update is sent with another callback than the one given", c.inst.body, c.line)
            return [(min(q + 1, 2), {})]
        return None


def send_once(ctx):
    rule = Send()
    m = Machine(ctx.p, ctx.r, rule)
    root = ctx.inst("xi_core_lib::plugins::Plugin::update")
    for q, _ in m.run(root, 0, {((3,), "l"): "cb"}):
        ctx.expect(q == 1, "send", "an update is one request", f"send:{q}", f"an update is sent as {q} requests", root.body.loc(root.body.line))
    ctx.take(m, "flight:send")
