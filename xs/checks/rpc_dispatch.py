"""P01: every dispatched request is answered exactly once, under its own id; notifications never are."""
from ..esp import Machine, Rule
from ..lib import *

RESP_ERR = "RemoteError"


def is_into_rpc(c):
    return c.declared == "xi_rpc::parse::RpcObject::into_rpc"


def is_respond(c):
    """A workspace function of the rpc crate taking a u64 id and a Result<Value, RemoteError>."""
    if not c.targets or not c.name.startswith("xi_rpc::") or len(c.args) < 2:
        return False
    ts = [arg_ty(c, i) for i in range(len(c.args))]
    return any(t == ("p", "u64") for t in ts) and any(
        t and t[0] == "adt" and t[1] == "core::result::Result" and has_adt(t[2][1], RESP_ERR) and
        not has_adt(t[2][0], "Call") for t in ts)


def respond_args(c):
    rid = res = None
    for i in range(len(c.args)):
        t = arg_ty(c, i)
        if t == ("p", "u64"):
            rid = i
        elif t and t[0] == "adt" and t[1] == "core::result::Result":
            res = i
    return rid, res


def wrap(path, facts):
    return {(path + k, kind): v for (k, kind), v in facts.items()}


OKP = (("d", "Ok"), ("f", 0))


class Loop(Rule):
    def opaque(self, c):
        return trait_method(c, "Handler", ("handle_request", "handle_notification", "idle")) or "xi_trace" in c.name \
            or (c.declared or "").endswith("Callback::call")

    def interesting(self, c):
        return is_into_rpc(c) or trait_method(c, "Handler", ("handle_request", "handle_notification")) or is_respond(c)

    def spawn(self, m, call, q):
        return "never" if last(call.name) == "spawn" else "many"

    def call(self, m, c, q, d):
        b = c.inst.body
        if is_into_rpc(c):
            if q not in ("idle", "unparsed"):
                m.report(f"next-before-answer:{q}", "a new message is dispatched while the previous one is in state "
                         f"'{q}' (request not answered / notification not handled)", b, c.line)
            r = []
            for var, st, pl in (("Request", "request", ("id", "cmd")), ("InvalidRequest", "invalid", ("id", "err")),
                                ("Notification", "notification", ("cmd",))):
                f = {((), "v"): "Ok", (OKP, "v"): var}
                for i, l in enumerate(pl):
                    f[(OKP + (("d", var), ("f", i)), "l")] = l
                r.append((st, f))
            r.append(("unparsed", {((), "v"): "Err"}))
            return r
        if trait_method(c, "Handler", ("handle_request",)):
            if q != "request":
                m.report(f"handle_request-in:{q}", f"handle_request is called in state '{q}'", b, c.line)
            return [("handled", {((), "l"): "result"})]
        if trait_method(c, "Handler", ("handle_notification",)):
            if q != "notification":
                m.report(f"handle_notification-in:{q}", f"handle_notification is called in state '{q}'", b, c.line)
            return [("idle", {})]
        if is_respond(c):
            rid, res = respond_args(c)
            idl = m.labels(c.args[rid], d)
            rl = m.labels(c.args[res], d)
            if idl != "id":
                m.report(f"respond-id:{q}", "a response is written whose id does not come from the request", b, c.line)
            if q == "handled":
                if rl != "result":
                    m.report("respond-result", "the response does not carry handle_request's result", b, c.line)
            elif q == "invalid":
                k = m.opkey(c.args[res], d)
                if d.get((k, "v")) != "Err":
                    m.report("invalid-not-error", "a request that does not parse is not answered with an error", b, c.line)
            else:
                m.report(f"respond-in:{q}", f"a response is written in state '{q}' (second response, or response to a "
                         "notification)", b, c.line)
            self.seen.add((q, b.name))
            return [("idle", {})]
        return None


class IntoRpc(Rule):
    """id present -> Request(id)/InvalidRequest(id); absent -> Notification or Err."""

    def interesting(self, c):
        return c.declared == "xi_rpc::parse::RpcObject::get_id"

    def call(self, m, c, q, d):
        if self.interesting(c):
            return [("id", {((), "v"): "Some", ((("d", "Some"), ("f", 0)), "l"): "id"}), ("noid", {((), "v"): "None"})]
        return None


class GetKeys(Rule):
    """Which keys of the object a predicate has looked at, and what it found."""

    def interesting(self, c):
        return is_method(c, "Value", ("get",)) or is_method(c, "Map", ("get", "contains_key"))

    def call(self, m, c, q, d):
        if self.interesting(c):
            k = const_arg(c, 1)
            qd = dict(q)
            r = []
            for v, b in (("Some", True), ("None", False)):
                if k in qd and qd[k] != b:
                    continue
                q2 = dict(qd)
                q2[k] = b
                f = {((), "v"): v} if last(c.name) == "get" else {((), "c"): b}
                r.append((tuple(sorted(q2.items())), f))
            return r
        return None


class Respond(Rule):
    """The response object holds the id and exactly the matching one of result/error, and is sent exactly once."""
    label_pass = {"core::iter::traits::collect::IntoIterator::into_iter"}

    def is_send(self, c):
        t = dest_ty(c)
        return bool(c.targets) and t is not None and t[0] == "adt" and t[1] == "core::result::Result" and any(
            arg_ty(c, i) and arg_ty(c, i)[:2] == ("adt", "serde_json::value::Value") for i in range(len(c.args)))

    def interesting(self, c):
        return self.is_send(c) or is_method(c, "Map", ("insert",)) or trait_method(c, "IndexMut", ("index_mut",)) or \
            last(c.name) == "to_value"

    def call(self, m, c, q, d):
        sent, keys = q
        b = c.inst.body
        if self.is_send(c):
            self.check(m, c, q, d, b)
            return [((sent + 1 if sent < 2 else 2, keys), {((), "v"): "Ok"}), ((sent + 1 if sent < 2 else 2, keys), {((), "v"): "Err"})]
        if last(c.name) == "to_value":
            l = m.labels(c.args[0], d)
            return [(q, {((), "v"): "Ok", (OKP, "l"): l})]
        if is_method(c, "Map", ("insert",)):
            k = const_arg(c, 1)
            return [((sent, keys | {(k, m.labels(c.args[2], d))}), {})]
        if trait_method(c, "IndexMut", ("index_mut",)):
            return [(q, {((), "l"): ("slot", const_arg(c, 1))})]
        return None

    def stmt(self, m, inst, bb, s, q, d):
        if s[0] == "=" and len(s[1]) == 2 and s[1][1] == "*":
            l = d.get(((s[1][0],), "l"))
            if isinstance(l, tuple) and l[0] == "slot":
                rv = s[2]
                vl = m.labels(rv[1], d) if rv[0] == "use" else None
                return (q[0], frozenset({(k, v) for k, v in q[1] if k != l[1]} | {(l[1], vl)}))
        return q

    def check(self, m, c, q, d, b):
        sent, keys = q
        want = {("id", "id"), ("result" if self.case == "Ok" else "error", "payload")}
        if set(keys) != want:
            m.report(f"shape:{self.case}", f"for an {self.case} result the response object is built from "
                     f"{sorted(map(str, keys))}, expected {sorted(map(str, want))}", b, c.line)


def run(ctx):
    loop = Loop()
    loop.seen = set()
    m = Machine(ctx.p, ctx.r, loop)
    root = ctx.inst("xi_rpc::RpcLoop::mainloop")
    res = m.run(root, "idle")
    for (q, _) in res:
        ctx.expect(q in ("idle", "unparsed"), "answered-on-exit", f"mainloop may return in state '{q}'",
                   f"loop:exit-in:{q}", f"mainloop returns while a message is in state '{q}' (request unanswered)")
    ctx.take(m, "loop")
    for st in ("handled", "invalid"):
        ctx.expect(any(s == st for s, _ in loop.seen), "respond-site", f"a response is written for a message in state "
                   f"'{st}'", f"loop:no-respond:{st}", f"no path answers a request in state '{st}'")
    ctx.oblige("loop", f"all paths of {root.body.name}: one response per request")

    # into_rpc
    fn = ctx.inst("xi_rpc::parse::RpcObject::into_rpc")
    rule = IntoRpc()
    m = Machine(ctx.p, ctx.r, rule)
    outs = m.run(fn, "none")
    kinds = set()
    for q, facts in outs:
        f = {k: v for k, v in facts}
        v = f.get(((0,), "v"))
        cv = f.get(((0,) + OKP, "v"))
        idl = f.get(((0,) + OKP + (("d", cv), ("f", 0)), "l")) if cv else None
        kinds.add((q, v, cv))
        if q == "id":
            ok = v == "Ok" and cv in ("Request", "InvalidRequest") and idl == "id"
        elif q == "noid":
            ok = v == "Err" or cv == "Notification"
        else:
            ok = False
        ctx.expect(ok, "classify", f"message with {q} becomes {v}({cv})", f"classify:{q}:{v}:{cv}",
                   f"RpcObject::into_rpc: a message in case '{q}' becomes {v}({cv}) with id label {idl}",
                   fn.body.loc(fn.body.line))
    for need in (("id", "Ok", "Request"), ("id", "Ok", "InvalidRequest"), ("noid", "Ok", "Notification")):
        ctx.expect(need in kinds, "classify", f"outcome {need} exists", f"classify:missing:{need[2]}")
    ctx.take(m, "classify")

    # predicates over keys
    fn = ctx.inst("xi_rpc::parse::RpcObject::is_response")
    m = Machine(ctx.p, ctx.r, GetKeys())
    n = 0
    for q, facts in m.run(fn, ()):
        seen = dict(q)
        val = dict(facts).get(((0,), "c"))
        n += 1
        if val is None:
            # result is the predicate of the last look-up: unknown here
            ctx.violate("is_response:undetermined", "RpcObject::is_response's result is not determined by the presence "
                        "of 'id' and 'method'", fn.body.loc(fn.body.line))
            continue
        if val:
            ok = seen.get("id") is True and seen.get("method") is False
        else:
            ok = seen.get("id") is False or seen.get("method") is True
        ctx.expect(ok, "is_response", f"{seen} -> {val}", f"is_response:{sorted(seen.items())}:{val}",
                   f"RpcObject::is_response returns {val} when it found {seen}", fn.body.loc(fn.body.line))
    ctx.expect(n >= 2, "is_response", "paths enumerated", "is_response:no-paths")
    ctx.take(m, "is_response")

    # the key get_id reads
    fn = ctx.fn("xi_rpc::parse::RpcObject::get_id")
    ks = {const_arg(c, 1) for c in ctx.r.calls(Inst(fn)).values() if GetKeys().interesting(c)}
    ctx.expect(ks == {"id"}, "get_id", f"get_id reads {ks}", "get_id:key", f"get_id reads key {ks}", fn.loc(fn.line))

    # respond
    targets = set()
    for i in ctx.reachable([root]):
        for c in ctx.r.calls(i).values():
            if is_respond(c):
                for t in c.targets:
                    targets.add((t.body.uid, t.body.name))
    ctx.expect(bool(targets), "respond", "a function writes responses", "respond:none")
    for uid, name in sorted(targets):
        body = ctx.p.bodies[uid]
        inst = Inst(body)
        rid = res = None
        for l in range(1, body.argc + 1):
            t = ctx.p.mkty(body.crate, body.locals[l])
            if t == ("p", "u64"):
                rid = l
            elif t[0] == "adt" and t[1] == "core::result::Result":
                res = l
        for case in ("Ok", "Err"):
            rule = Respond()
            rule.case = case
            m = Machine(ctx.p, ctx.r, rule)
            env = {((rid,), "l"): "id", ((res,), "v"): case, ((res, ("d", case), ("f", 0)), "l"): "payload"}
            outs = m.run(inst, (0, frozenset()), env)
            for (sent, _), _ in outs:
                ctx.expect(sent == 1, "respond-once", f"{name} with {case} sends {sent} frame(s)",
                           f"respond:{case}:sent:{sent}", f"{name} with an {case} result sends {sent} frames on some path",
                           body.loc(body.line))
            ctx.take(m, "respond")
