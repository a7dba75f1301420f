"""P04: the reader thread delivers every message to its consumer, in order, waking the loop; idle tokens and timers run
only when nothing is queued, timers never early, and none is lost."""
from ..esp import Machine, Rule
from ..lib import *

OKP = (("d", "Ok"), ("f", 0))
SOMEP = (("d", "Some"), ("f", 0))


def rxq(t):
    while t is not None and (t[0] in ("ref", "ptr") or t[0] == "adt" and t[1].endswith(("::MutexGuard", "::Mutex")) and t[2]):
        t = t[2] if t[0] in ("ref", "ptr") else t[2][0]
    return t is not None and t[0] == "adt" and t[1].endswith("::VecDeque") and has_adt(t, "RpcObject")


def idleq(t):
    while t is not None and t[0] in ("ref", "ptr"):
        t = t[2]
    return t is not None and t[0] == "adt" and t[1].endswith("::VecDeque") and t[2] and t[2][0] == ("p", "usize")


def timerq(t):
    while t is not None and t[0] in ("ref", "ptr"):
        t = t[2]
    return t is not None and t[0] == "adt" and t[1].endswith("::BinaryHeap") and has_adt(t, "Timer")


HANDLER = ("handle_request", "handle_notification", "idle")


class Reader(Rule):
    """Automaton of the reader thread. q: 'idle' | 'msg' (got a message) | 'resp' | 'resp+id' | 'call' | 'err' |
    'queued' (pushed, not notified)."""

    def opaque(self, c):
        return trait_method(c, "Handler", HANDLER) or "xi_trace" in c.name or (c.declared or "").endswith("Callback::call")

    def interesting(self, c):
        return c.declared in ("xi_rpc::parse::MessageReader::next", "xi_rpc::parse::RpcObject::is_response",
                              "xi_rpc::parse::RpcObject::get_id", "xi_rpc::parse::RpcObject::into_response") or \
            is_method(c, "VecDeque", ("push_back", "push_front")) and rxq(arg_ty(c, 0)) or \
            is_method(c, "Condvar", ("notify_one", "notify_all")) or \
            is_method(c, "BTreeMap", ("remove",)) and has_adt(arg_ty(c, 0), "ResponseHandler")

    def call(self, m, c, q, d):
        b = c.inst.body
        n = c.declared
        if n == "xi_rpc::parse::MessageReader::next":
            if q not in ("idle", "badid"):
                m.report(f"lost:{q}", f"the reader takes the next message while the previous one is in state '{q}' "
                         "(not delivered to its consumer)", b, c.line)
            return [("msg", {((), "v"): "Ok", (OKP, "l"): "msg"}), ("err", {((), "v"): "Err", ((("d", "Err"), ("f", 0)), "l"): "err"})]
        if n == "xi_rpc::parse::RpcObject::is_response" and q == "msg":
            return [("resp", {((), "c"): True}), ("call", {((), "c"): False})]
        if n == "xi_rpc::parse::RpcObject::get_id":
            if q == "resp":
                return [("resp", {((), "v"): "Some", (SOMEP, "l"): "id"}), ("badid", {((), "v"): "None"})]
            return [(q, {((), "v"): "Some", (SOMEP, "l"): "id"}), (q, {((), "v"): "None"})]
        if n == "xi_rpc::parse::RpcObject::into_response":
            return [(q, {((), "v"): "Ok"}), (q, {((), "v"): "Err"})]
        if is_method(c, "BTreeMap", ("remove",)):
            if q == "resp":
                if m.labels(c.args[1], d) != "id":
                    m.report("response-id", "a response is delivered under an id that is not the message's", b, c.line)
                self.seen.add("resp")
                return [("idle", {((), "v"): "Some"}), ("idle", {((), "v"): "None"})]
            return None
        if is_method(c, "VecDeque", ("push_back", "push_front")):
            if last(c.name) == "push_front":
                m.report("lifo", "a message is queued at the front: order of arrival is lost", b, c.line)
            if q not in ("call", "err", "msg"):
                m.report(f"queued-in:{q}", f"something is queued for the main loop in state '{q}'", b, c.line)
            k = m.opkey(c.args[1], d)
            v = d.get((k, "v")) if k else None
            want = "Err" if q == "err" else "Ok"
            if v != want:
                m.report(f"queued-kind:{q}:{v}", f"in state '{q}' a value of kind {v} is queued, expected {want}", b, c.line)
            self.seen.add(q)
            return [("queued" if q != "err" else "queued-err", {})]
        if is_method(c, "Condvar", ("notify_one", "notify_all")):
            if q == "queued":
                return [("idle", {})]
            if q == "queued-err":
                return [("end", {})]
            return [(q, {})]
        return None


class Main(Rule):
    """Automaton of the main loop: (polled, timers checked, token in hand)."""

    def opaque(self, c):
        return trait_method(c, "Handler", HANDLER) or "xi_trace" in c.name or (c.declared or "").endswith("Callback::call") or \
            self.cmp(c)

    def cmp(self, c):
        t = arg_ty(c, 0)
        return trait_method(c, "PartialOrd", ("gt", "ge", "lt", "le")) and t and has_adt(t, "Instant")

    def interesting(self, c):
        return trait_method(c, "Handler", HANDLER) or self.cmp(c) or \
            c.args and c.args[0][0] != "c" and (rxq(arg_ty(c, 0)) or idleq(arg_ty(c, 0)) or timerq(arg_ty(c, 0))) and \
            last(c.name) in ("pop_front", "pop_back", "pop", "push_back", "into_sorted_vec", "peek", "drain", "clear")

    def spawn(self, m, c, q):
        return "never" if last(c.name) == "spawn" else "many"

    # q = (rx, timers, token, due)
    def call(self, m, c, q, d):
        rx, tm, tok, due = q
        b = c.inst.body
        nm = last(c.name)
        if trait_method(c, "Handler", HANDLER):
            if nm != "idle":
                if tok:
                    m.report("token-lost", "an idle token was taken and not handed to the handler", b, c.line)
                return [(("stale", 0, 0, 0), {})]
            self.seen.add("idle")
            lab = m.labels(c.args[2], d) if len(c.args) > 2 else None
            if lab not in ("token",):
                m.report("idle-token", "idle is called with a token that was not taken from the idle queue or the timers", b, c.line)
            if rx not in ("empty", "eof"):
                m.report(f"idle-before-messages:{rx}", "idle work runs without checking, since the last piece of work, that no message "
                         "is waiting", b, c.line)
            return [(("stale" if rx != "eof" else "eof", 0, 0, 0), {})]
        if c.name.endswith("Instant::now"):
            return [(q, {((), "l"): "now"})]
        if self.cmp(c):
            fire = [self.is_fire(m, c, i, d) for i in (0, 1)]
            if fire[0] == fire[1]:
                return None
            rel = {"gt": {">"}, "ge": {">", "="}, "lt": {"<"}, "le": {"<", "="}}[nm]
            now = m.labels(c.args[0 if fire[1] else 1], d) == "now"
            outs = []
            for tv in (True, False):
                r = rel if tv else {"<", "=", ">"} - rel
                if fire[1]:
                    r = {{"<": ">", ">": "<", "=": "="}[x] for x in r}
                outs.append(((rx, tm, tok, 1 if now and ">" not in r else 0), {((), "c"): tv}))
            return outs
        t0 = arg_ty(c, 0)
        if rxq(t0):
            if nm in ("pop_front", "pop_back"):
                if nm == "pop_back":
                    m.report("rx-lifo", "messages are taken from the wrong end of the queue", b, c.line)
                if tok:
                    m.report("token-lost", "an idle token was taken and not handed to the handler", b, c.line)
                return [(("msg", tm, tok, due), {((), "v"): "Some", (SOMEP, "v"): "Ok"}),
                        (("eof", tm, tok, due), {((), "v"): "Some", (SOMEP, "v"): "Err"}),
                        (("empty", tm, tok, due), {((), "v"): "None"})]
            if nm in ("clear", "drain"):
                m.report("rx-dropped", f"queued messages are discarded by {nm}", b, c.line)
            return None
        if timerq(t0):
            if nm == "peek":
                # the earliest timer, if any
                return [((rx, 1, tok, 0), {((), "v"): "Some", (SOMEP, "l"): "timer"}),
                        ((rx, 1, tok, 0), {((), "v"): "None"})]
            if nm == "pop":
                if not due:
                    m.report("timer-early", "a timer is taken out without having established that its time has come", b, c.line)
                if tok:
                    m.report("token-lost", "an idle token was taken and not handed to the handler", b, c.line)
                self.seen.add("timer")
                return [((rx, 0, 1, 0), {((), "v"): "Some", (SOMEP, "l"): "token"})]
            if nm in ("clear", "drain", "into_sorted_vec"):
                m.report("timers-dropped", f"timers are discarded by {nm}", b, c.line)
            return None
        if idleq(t0):
            if nm in ("pop_front", "pop_back"):
                if nm == "pop_back":
                    m.report("idle-lifo", "idle tokens are taken from the wrong end of the queue", b, c.line)
                if tok:
                    m.report("token-lost", "an idle token was taken and not handed to the handler", b, c.line)
                if rx == "empty" and not tm:
                    m.report("idle-before-timers", "idle work is taken before timers are looked at", b, c.line)
                self.seen.add("token")
                return [((rx, tm, 1, due), {((), "v"): "Some", (SOMEP, "l"): "token"}), ((rx, tm, 0, due), {((), "v"): "None"})]
            if nm in ("clear", "drain"):
                m.report("tokens-dropped", f"idle tokens are discarded by {nm}", b, c.line)
        return None

    label_prefix = True

    def is_fire(self, m, c, i, d):
        """Does argument i denote the timer's deadline?"""
        a = c.args[i]
        body = c.inst.body
        return origin_field(body, a) == "fire_after"


def origin_field(body, op, depth=0):
    """Name of the last field an operand was read from, through references and copies."""
    if op[0] == "c" or depth > 6:
        return None
    f = field_of_place(op[1])
    if f is not None:
        return f[1]
    ds = body.assigns.get(op[1][0], ())
    for _, _, rv in ds:
        if rv[0] == "use":
            return origin_field(body, rv[1], depth + 1)
        if rv[0] in ("ref", "raw"):
            return origin_field(body, ["p", rv[2]], depth + 1)
    return None


class Ord_(Rule):
    label_prefix = True

    def interesting(self, c):
        return self.ev(c) is not None

    def ev(self, c):
        if trait_method(c, "Ord", ("cmp",)) or trait_method(c, "PartialOrd", ("partial_cmp",)):
            t = arg_ty(c, 0)
            if t and t[0] == "adt" and t[1].endswith("::Instant"):
                return "cmp"
            if t and t[0] == "adt" and t[1].endswith("::Reverse"):
                return "rcmp"
        if c.name.endswith("Ordering::reverse"):
            return "rev"
        return None

    def call(self, m, c, q, d):
        e = self.ev(c)
        if e is None:
            return None
        if e == "rev":
            l = m.labels(c.args[0], d)
            return [(q, {((), "l"): {"fwd": "rev", "rev": "fwd"}.get(l)})]
        a, b = m.labels(c.args[0], d), m.labels(c.args[1], d)
        r = {("self", "other"): "fwd", ("other", "self"): "rev"}.get((a, b))
        if e == "rcmp":
            r = {"fwd": "rev", "rev": "fwd"}.get(r)
        return [(q, {((), "l"): r})]


def run(ctx):
    root = ctx.inst("xi_rpc::RpcLoop::mainloop")
    readers, mains = [], []
    for c in ctx.r.calls(root).values():
        for t in c.closures:
            mains.append(t)
            for c2 in ctx.r.calls(t).values():
                if last(c2.name) == "spawn":
                    readers += c2.closures
    ctx.expect(len(readers) >= 1, "reader", "reader thread closure found", "reader:none")
    for t in readers:
        rule = Reader()
        rule.seen = set()
        m = Machine(ctx.p, ctx.r, rule)
        outs = m.run(t, "idle")
        for q, _ in outs:
            ctx.expect(q in ("idle", "end", "badid"), "reader-exit", f"reader thread ends in state '{q}'", f"reader:exit:{q}",
                       f"the reader thread can end in state '{q}': the main loop is never told / a message is lost",
                       t.body.loc(t.body.line))
        for need in ("resp", "call", "err"):
            ctx.expect(need in rule.seen, "reader", f"a delivery for '{need}' exists", f"reader:missing:{need}",
                       f"the reader thread never delivers a message in state '{need}'")
        ctx.take(m, "reader")
    ctx.expect(len(mains) >= 1, "main", "main closure found", "main:none")
    for t in mains:
        rule = Main()
        rule.seen = set()
        m = Machine(ctx.p, ctx.r, rule)
        outs = m.run(t, ("stale", 0, 0, 0))
        for (rx, tm, tok, due), _ in outs:
            ctx.expect(not tok, "main-exit", f"exit with token={tok}", "main:exit:token",
                       "the main loop can end with an idle token taken and not run", t.body.loc(t.body.line))
        ctx.expect(rule.seen >= {"idle", "timer", "token"}, "main", f"idle work sites {sorted(rule.seen)}", "main:missing")
        ctx.take(m, "main")
    # who may touch the queues
    allowed = {"push_back", "pop_front", "is_empty", "len", "front", "new", "deref", "deref_mut", "lock", "unwrap", "with_capacity",
               "expect", "wait_timeout", "wait", "drop", "wait_while", "wait_timeout_while", "into_inner"}
    n = 0
    for b in ctx.p.bodies.values():
        if not b.name.startswith(("xi_rpc::", "<xi_rpc::")) or ctx.tests(b):
            continue
        for c in ctx.r.calls(Inst(b)).values():
            t0 = arg_ty(c, 0)
            if rxq(t0) and is_method(c, "VecDeque", ("",)) is False and c.name.rsplit("::", 2)[-2:-1] == ["VecDeque"]:
                n += 1
                ctx.expect(last(c.name) in allowed, "fifo", f"{b.name}: {last(c.name)} on the message queue",
                           f"fifo:{b.name}:{last(c.name)}", f"{b.name} uses {last(c.name)} on the message queue", b.loc(c.line))
            if is_method(c, "Condvar", ("wait", "wait_timeout", "wait_while", "wait_timeout_while")):
                g = arg_ty(c, 1)
                ctx.expect(rxq(g), "condvar", f"{b.name} waits with the message queue's guard", f"condvar:{b.name}",
                           f"{b.name} waits on the condition variable with another lock's guard", b.loc(c.line))
    ctx.expect(n >= 3, "fifo", f"{n} operations on the message queue", "fifo:none")
    # scheduling keeps every token
    for meth, pred in (("schedule_idle", idleq), ("schedule_timer", timerq)):
        b = ctx.fn(f"<xi_rpc::RawPeer as xi_rpc::Peer>::{meth}")

        class S(Rule):
            def interesting(self, c):
                return last(c.name) in ("push_back", "push_front", "push") and pred(arg_ty(c, 0))

            def call(self, m, c, q, d):
                if self.interesting(c):
                    if last(c.name) == "push_front":
                        m.report(f"{meth}:front", "an idle token is queued at the front", c.inst.body, c.line)
                    return [(1, {})]
                return None
        m = Machine(ctx.p, ctx.r, S())
        for q, _ in m.run(Inst(b), 0):
            ctx.expect(q == 1, "scheduled", f"{meth} queues the token on every path", f"scheduled:{meth}",
                       f"{meth} can return without queueing the token", b.loc(b.line))
        ctx.take(m, "scheduled")
    # timers: the heap's greatest element is the earliest deadline
    b = ctx.fn("<xi_rpc::Timer as core::cmp::Ord>::cmp")
    m = Machine(ctx.p, ctx.r, Ord_())
    for _, facts in m.run(Inst(b), 0, {((1, "*"), "l"): "self", ((2, "*"), "l"): "other"}):
        l = dict(facts).get(((0,), "l"))
        ctx.expect(l == "rev", "timer-order", f"Timer::cmp compares the deadlines in reverse ({l})", "timer-order",
                   "Timer's ordering does not make the earliest deadline the greatest element of the heap", b.loc(b.line))
    ctx.take(m, "timer-order")
