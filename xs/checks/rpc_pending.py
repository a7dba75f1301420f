"""P03: response handlers: registered before the request is written, run exactly once, all drained at the end."""
from ..esp import Machine, Rule
from ..lib import *
from .rpc_frames import OKP

SOMEP = (("d", "Some"), ("f", 0))


def is_handler(t):
    return has_adt(t, "ResponseHandler")


def pending_map(t):
    while t is not None and t[0] in ("ref", "ptr"):
        t = t[2]
    if t is not None and t[0] == "adt" and t[1].endswith("MutexGuard") and t[2]:
        t = t[2][0]
    return t is not None and t[0] == "adt" and t[1].endswith(("::BTreeMap", "::HashMap")) and is_handler(t)


def exit_store(c):
    """needs_exit.store(true)"""
    return is_method(c, "Atomic", ("store", "swap")) and const_arg(c, 1) is True


class Pending(Rule):
    label_prefix = False

    def interesting(self, c):
        a0 = arg_ty(c, 0)
        return (c.args and pending_map(a0) and last(c.name) not in ("new", "deref", "deref_mut", "lock", "len", "is_empty")) or \
            self.invokes(c) or trait_method(c, "Write", ("write_all",)) or is_method(c, "Atomic", ("fetch_add", "store")) or \
            trait_method(c, "Iterator", ("next",)) and is_handler(dest_ty(c)) or c.name in ("core::mem::replace", "core::mem::take") and pending_map(dest_ty(c))

    def opaque(self, c):
        return trait_method(c, "Handler", ("handle_request", "handle_notification", "idle")) or "xi_trace" in c.name \
            or (c.declared or "").endswith("Callback::call")

    def invokes(self, c):
        if c.declared and c.declared.endswith("Callback::call"):
            return True
        return is_method(c, "Sender", ("send",)) and has_adt(arg_ty(c, 0), "Value")

    def spawn(self, m, c, q):
        # a spawned closure runs (elsewhere); for handler ownership that is where the handler goes
        return "once" if c.name.startswith("std::thread") and last(c.name) == "spawn" else "many"

    # q = dict-like tuple: (reg, sent, owned, map, drained, exitflag)
    def call(self, m, c, q, d):
        reg, sent, owned, mp, drained, flag = q
        b = c.inst.body
        nm = last(c.name)
        if self.invokes(c):
            if not owned:
                # a handler that never was in the table: only legal when none is due
                return None
            return [((reg, sent, 0, mp, drained, flag), {})]
        if is_method(c, "Atomic", ("fetch_add",)):
            if const_arg(c, 1) in (0, None):
                return None
            return [(q, {((), "l"): "fresh-id"})]
        if exit_store(c):
            return [((reg, sent, owned, mp, drained, 1), {})]
        if trait_method(c, "Write", ("write_all",)):
            if self.sending and not reg:
                m.report("send-before-register", "a request is written before its response handler is registered: a fast "
                         "response would find no handler", b, c.line)
            return [((reg, "ok", owned, mp, drained, flag), {((), "v"): "Ok"}),
                    ((reg, "failed", owned, mp, drained, flag), {((), "v"): "Err"})]
        if c.name in ("core::mem::replace", "core::mem::take") and pending_map(dest_ty(c)):
            return [((reg, sent, owned, 1, 1, flag), {})]
        t0 = arg_ty(c, 0)
        if trait_method(c, "Iterator", ("next",)) and is_handler(dest_ty(c)) and not is_ref_payload(dest_ty(c)):
            if owned:
                m.report("handler-dropped-in-loop", "a response handler taken out of the table is dropped without being run",
                         b, c.line)
            return [((reg, sent, 1, mp, drained, flag), {((), "v"): "Some"}),
                    ((reg, sent, 0, 0, drained, flag), {((), "v"): "None"})]
        if trait_method(c, "Iterator", ("for_each",)) and is_handler(t0) and c.closures:
            for t in c.closures:
                for q2, _ in m.run_closure(c.inst, c, t, None, (reg, sent, 1, 0, drained, flag), dict(d)):
                    if q2[2]:
                        m.report("handler-dropped-in-loop", "a response handler taken out of the table is dropped without "
                                 "being run", b, c.line)
            return [((reg, sent, owned, 0, drained, flag), {})]
        if c.args and pending_map(t0):
            if nm == "keys" and not self.sending:
                return [((reg, sent, owned, mp, 1, flag), {})]
            if nm == "insert":
                l = m.labels(c.args[1], d)
                if self.sending and l != "fresh-id":
                    m.report("register-id", "a response handler is registered under an id that is not the fresh id of the "
                             "request", b, c.line)
                self.seen.add("insert")
                return [((1, sent, owned, mp, drained, flag), {})]
            if nm in ("remove", "pop_first", "pop_last", "remove_entry"):
                if owned:
                    m.report("handler-dropped", "a response handler taken out of the table is dropped without being run", b, c.line)
                if nm == "remove":
                    l = m.labels(c.args[1], d)
                    want = "fresh-id" if self.sending else self.idlabel
                    if want and l != want:
                        m.report(f"remove-id:{want}", "a response handler is taken out under a different id than the message's", b, c.line)
                self.seen.add("remove")
                outs = [((0, sent, 1, mp, drained, flag), {((), "v"): "Some"})]
                if not (self.sending and reg):
                    outs.append(((0, sent, 0, 0 if nm.startswith("pop") else mp,
                                  1 if nm.startswith("pop") else drained, flag), {((), "v"): "None"}))
                return outs
            if nm in ("clear", "retain", "split_off", "append"):
                m.report(f"handlers-lost:{nm}", f"response handlers are discarded by {nm}", b, c.line)
        return None


def is_ref_payload(t):
    """Option<&..> / Option<(&k, &v)>: borrowing iteration."""
    if t and t[0] == "adt" and t[2]:
        x = t[2][0]
        if x[0] == "ref":
            return True
        if x[0] == "tuple" and x[1] and x[1][-1][0] == "ref":
            return True
    return False


class Exit(Pending):
    pass


def run(ctx):
    # 1. sending
    for meth in ("send_rpc_request_async", "send_rpc_request"):
        rule = Pending()
        rule.sending, rule.seen, rule.idlabel = True, set(), None
        m = Machine(ctx.p, ctx.r, rule)
        inst = ctx.inst(f"<xi_rpc::RawPeer as xi_rpc::Peer>::{meth}")
        outs = m.run(inst, (0, "no", 0, 0, 0, 0))
        for (reg, sent, owned, mp, dr, fl), _ in outs:
            ok = (sent == "ok" and reg and not owned) or (sent == "failed" and not reg and not owned)
            ctx.expect(ok, "registered-until-answered", f"{meth}: write {sent}, registered={reg}, unrun handler={owned}",
                       f"send:{meth}:{sent}:{reg}:{owned}",
                       f"{meth} returns with write={sent}, handler registered={bool(reg)}, handler taken but not run={bool(owned)}",
                       inst.body.loc(inst.body.line))
        ctx.expect(any(o[0][1] == "failed" for o in outs) and any(o[0][1] == "ok" for o in outs), "registered-until-answered",
                   "both write outcomes analysed", f"send:{meth}:outcomes")
        ctx.expect("insert" in rule.seen, "registered-until-answered", "registration found", f"send:{meth}:noinsert")
        ctx.take(m, "send")
    # sync request waits for its channel
    inst = ctx.inst("<xi_rpc::RawPeer as xi_rpc::Peer>::send_rpc_request")
    # 2. response
    fns = [b for b in ctx.p.bodies.values() if b.name.startswith("xi_rpc::") and not ctx.tests(b) and any(
        is_method(c, "BTreeMap", ("remove",)) and pending_map(arg_ty(c, 0)) for c in ctx.r.calls(Inst(b)).values())]
    n = 0
    for b in fns:
        if any(is_method(c, "BTreeMap", ("insert",)) for c in ctx.r.calls(Inst(b)).values()):
            continue
        ids = [l for l in range(1, b.argc + 1) if ctx.p.mkty(b.crate, b.locals[l]) in (("p", "u64"), ("p", "usize"))]
        rule = Pending()
        rule.sending, rule.seen, rule.idlabel = False, set(), "id" if ids else None
        m = Machine(ctx.p, ctx.r, rule)
        outs = m.run(Inst(b), (0, "no", 0, 0, 0, 0), {((l,), "l"): "id" for l in ids})
        for (reg, sent, owned, mp, dr, fl), _ in outs:
            n += 1
            ctx.expect(not owned, "run-when-taken", f"{b.name}: handler taken out of the table is run",
                       f"take:{b.name}", f"{b.name} takes a response handler out of the table and drops it without running it",
                       b.loc(b.line))
        ctx.take(m, "take")
    ctx.expect(n >= 1, "run-when-taken", "functions removing handlers", "take:none")
    # 3. end of the loop
    rule = Exit()
    rule.sending, rule.seen, rule.idlabel = False, set(), None

    root = ctx.inst("xi_rpc::RpcLoop::mainloop")
    closures = [t for c in ctx.r.calls(root).values() for t in c.closures if last(c.name) == "scope"]
    ctx.expect(len(closures) >= 1, "drained-at-exit", "main thread closure found", "exit:noclosure")
    for cl in closures:
        rule.spawn = scope_never
        m = Machine(ctx.p, ctx.r, rule)
        outs = m.run(cl, (0, "no", 0, 0, 0, 0))
        for (reg, sent, owned, mp, dr, fl), _ in outs:
            ctx.expect(dr and not mp and not owned, "drained-at-exit", f"exit with drained={dr} left={mp}",
                       f"exit:drain:{dr}:{mp}:{owned}", "the main loop can end without completing every pending request",
                       cl.body.loc(cl.body.line))
            ctx.expect(fl, "reader-told", "needs_exit is set at exit", "exit:needs_exit",
                       "the main loop can end without telling the reader thread to stop", cl.body.loc(cl.body.line))
        ctx.expect(bool(outs), "drained-at-exit", "exits found", "exit:none")
        ctx.take(m, "exit")
    # 4. panic guard
    guard = [i for i in ctx.p.impl_by.get("core::ops::drop::Drop", []) if ctx.p.mkty(i["crate"], i["self"])[1].startswith("xi_rpc::")]
    k = 0
    for g in guard:
        for nme, di in g["items"]:
            b = ctx.p.bodies[g["crate"]["defs"][di]["id"]]

            class G(Pending):
                def interesting(self, c):
                    return c.name.endswith("::panicking") or Pending.interesting(self, c)

                def call(self, m, c, q, d):
                    if c.name.endswith("::panicking"):
                        return [(("p",) + q[1:], {((), "c"): True}), (q, {((), "c"): False})]
                    return Pending.call(self, m, c, q, d)
            rule = G()
            rule.sending, rule.seen, rule.idlabel = False, set(), None
            m = Machine(ctx.p, ctx.r, rule)
            for (reg, sent, owned, mp, dr, fl), _ in m.run(Inst(b), (0, "no", 0, 0, 0, 0)):
                if reg == "p":
                    k += 1
                    ctx.expect(dr and not mp and fl, "panic-drains", f"{b.name} completes pending requests when panicking",
                               "panic:drain", f"{b.name} does not complete pending requests when the handler panics", b.loc(b.line))
            ctx.take(m, "panic")
    ctx.expect(k >= 1, "panic-drains", "panic guard found", "panic:none")
    guardty = {ctx.p.mkty(g["crate"], g["self"])[1] for g in guard}
    # the guard is alive whenever a handler method runs

    class Live(Rule):
        def interesting(self, c):
            return trait_method(c, "Handler", ("handle_request", "handle_notification", "idle"))

        def interesting_stmt(self, body, s):
            return s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] in guardty

        def spawn(self, m, c, q):
            return "never" if last(c.name) == "spawn" else "many"

        def stmt(self, m, inst, bb, s, q, d):
            if self.interesting_stmt(inst.body, s):
                return 1
            return q

        def drop(self, m, inst, bb, place, ty, q, d):
            t = m.place_ty(inst, place)
            return 0 if t and t[0] == "adt" and t[1] in guardty else q

        def call(self, m, c, q, d):
            if self.interesting(c):
                self.n += 1
                if not q:
                    m.report(f"unguarded:{last(c.name)}", f"{last(c.name)} runs without the panic guard", c.inst.body, c.line)
                return [(q, {})]
            return None
    rule = Live()
    rule.n = 0
    m = Machine(ctx.p, ctx.r, rule)
    for cl in closures:
        m.run(cl, 0)
    ctx.expect(rule.n >= 3, "panic-guard-alive", f"{rule.n} handler calls under the guard", "guard:calls")
    ctx.take(m, "guard")


def scope_never(m, c, q):
    """The reader thread's closure is analysed on its own."""
    if last(c.name) == "spawn":
        return "never" if "Scope" in c.name else "once"
    return "many"
