"""P02: every message is one whole newline-terminated line, written while holding the writer lock once."""
from ..esp import Machine, Rule
from ..lib import *
from .rpc_dispatch import is_respond, respond_args, OKP

COLL = ("BTreeMap", "VecDeque", "BinaryHeap", "HashMap", "Vec")


def writer_mutex(t):
    return t is not None and t[0] == "adt" and t[1].endswith("::Mutex") and t[2] and not (
        t[2][0][0] == "adt" and t[2][0][1].rsplit("::", 1)[-1] in COLL)


def writer_guard(t):
    return t is not None and t[0] == "adt" and t[1].endswith("::MutexGuard") and t[2] and not (
        t[2][0][0] == "adt" and t[2][0][1].rsplit("::", 1)[-1] in COLL)


class Frames(Rule):
    label_pass = {"alloc::string::String::as_bytes", "str::as_bytes", "alloc::string::String::into_bytes",
                  "alloc::string::String::as_str", "<alloc::string::String as core::ops::deref::Deref>::deref",
                  "core::hint::must_use"}

    def opaque(self, c):
        return trait_method(c, "Handler", ("handle_request", "handle_notification", "idle")) or "xi_trace" in c.name \
            or (c.declared or "").endswith("Callback::call")

    def interesting(self, c):
        return (is_method(c, "Mutex", ("lock", "try_lock")) and writer_mutex(arg_ty(c, 0))) or \
            trait_method(c, "Write", ("write", "write_all", "write_fmt", "write_vectored", "flush")) and \
            self.is_writer(c) or c.name.startswith("serde_json::ser::to_") or \
            is_method(c, "Map", ("insert",)) or last(c.name) == "to_value" and "serde_json" in c.name or \
            is_method(c, "Atomic", ("fetch_add",))

    def is_writer(self, c):
        t = arg_ty(c, 0)
        return not (t and t[0] == "adt" and (t[1].startswith("core::fmt") or t[1].startswith("alloc::")))

    # q = (phase, frames, keys)
    def call(self, m, c, q, d):
        ph, n, keys = q
        b = c.inst.body
        nm = last(c.name)
        if is_method(c, "Mutex", ("lock", "try_lock")) and writer_mutex(arg_ty(c, 0)):
            if ph != "unlocked":
                m.report("lock-twice", "the writer lock is taken while it is held", b, c.line)
            ok = {((), "v"): "Ok"}
            return [(("open", n, keys), ok)]
        if c.name == "core::mem::drop" and writer_guard(arg_ty(c, 0)):
            return [(self.release(m, b, c.line, q), {})]
        if trait_method(c, "Write", ("write", "write_all", "write_fmt", "write_vectored", "flush")) and self.is_writer(c):
            if ph == "unlocked":
                m.report("unlocked-write", "a frame is written without holding the writer lock", b, c.line)
            if nm == "flush":
                return [(q, {})]
            lab = m.labels(c.args[1], d) if len(c.args) > 1 else None
            const = const_arg(c, 1)
            if nm == "write_all" and lab == "json":
                ph2 = "partial"
            elif nm == "write_all" and lab == "line":
                ph2 = "whole"
            elif nm == "write_all" and const in ("\n", "b\"\\n\"", [10]) and ph == "partial":
                ph2 = "whole"
            elif nm == "write_fmt":
                ph2 = "whole"
            elif nm in ("write", "write_vectored"):
                m.report("short-write", f"{nm} may write only a part of the frame", b, c.line)
                ph2 = "partial"
            else:
                m.report("not-a-line", f"the bytes written are not a serialized message followed by one newline "
                         f"(content: {lab})", b, c.line)
                ph2 = "whole"
            if ph == "whole":
                m.report("two-in-one", "more bytes are written after a whole frame under the same lock", b, c.line)
            self.check_keys(m, c, keys, b)
            done = 1 if ph2 == "whole" else 0
            self.writes.add((b.name, nm))
            return [((ph2, min(n + done, 3), keys), {((), "v"): "Ok"}), (("failed", min(n + 1, 3), keys), {((), "v"): "Err"})]
        if c.name in ("serde_json::ser::to_string", "serde_json::ser::to_vec"):
            return [(q, {((), "v"): "Ok", (OKP, "l"): "json"})]
        if c.name.startswith("serde_json::ser::to_"):
            return [(q, {((), "l"): "other"})]
        if is_method(c, "String", ("push", "push_str")) or is_method(c, "Vec", ("push", "extend_from_slice")) \
                or trait_method(c, "AddAssign", ("add_assign",)):
            k = m.opkey(c.args[0], d)
            r = d.get((k, "r")) if k else None
            tgt = r[0] if r else k
            if tgt is not None:
                l = m.label_at(tgt, d)
                if l in ("json", "line"):
                    v = const_arg(c, 1)
                    new = "line" if l == "json" and v in ("\n", 10) else "other"
                    return [(q, {}, {(tgt, "l"): new})]
            return None
        if c.name == "alloc::fmt::format":
            return [(q, {((), "l"): "line"})]
        if last(c.name) == "to_value" and "serde_json" in c.name:
            return [(q, {((), "v"): "Ok", (OKP, "l"): m.labels(c.args[0], d)})]
        if is_method(c, "Map", ("insert",)) and "serde_json" in c.name:
            return [((ph, n, keys | {(const_arg(c, 1), m.labels(c.args[2], d))}), {})]
        if is_method(c, "Atomic", ("fetch_add",)) and const_arg(c, 1) not in (0, None):
            return [(q, {((), "l"): "fresh-id"})]
        return None

    def check_keys(self, m, c, keys, b):
        if self.want is not None and set(keys) != self.want:
            m.report(f"shape:{self.what}", f"the frame of {self.what} is built from {sorted(map(str, keys))}, expected "
                     f"{sorted(map(str, self.want))}", b, c.line)

    def release(self, m, b, line, q):
        ph, n, keys = q
        if ph == "partial":
            m.report("split-frame", "the writer lock is released in the middle of a frame", b, line)
        return ("unlocked", n, keys)

    def drop(self, m, inst, bb, place, ty, q, d):
        t = m.place_ty(inst, place)
        if writer_guard(t) and q[0] != "unlocked":
            return self.release(m, inst.body, inst.body.blocks[bb]["t"][5], q)
        return q


def run(ctx):
    roots = [
        ("<xi_rpc::RawPeer as xi_rpc::Peer>::send_rpc_notification", {("method", "method"), ("params", "params")}),
        ("<xi_rpc::RawPeer as xi_rpc::Peer>::send_rpc_request_async",
         {("id", "fresh-id"), ("method", "method"), ("params", "params")}),
        ("<xi_rpc::RawPeer as xi_rpc::Peer>::send_rpc_request",
         {("id", "fresh-id"), ("method", "method"), ("params", "params")}),
    ]
    writes = set()
    for name, want in roots:
        rule = Frames()
        rule.want, rule.what, rule.writes = want, last(name), writes
        m = Machine(ctx.p, ctx.r, rule)
        inst = ctx.inst(name)
        env = {((2, "*"), "l"): "method", ((3, "*"), "l"): "params"}
        outs = m.run(inst, ("unlocked", 0, frozenset()), env)
        for (ph, n, keys), _ in outs:
            ctx.expect(n == 1 and ph == "unlocked", "one-frame", f"{last(name)} writes {n} frame(s), lock state {ph}",
                       f"frames:{last(name)}:{n}:{ph}", f"{name} writes {n} frames (lock {ph} at exit) on some path",
                       inst.body.loc(inst.body.line))
        ctx.expect(bool(outs), "one-frame", f"{name} returns", f"frames:{last(name)}:noreturn")
        ctx.take(m, "frames")
    # responses
    n = 0
    for i in ctx.insts():
        if i.env:
            continue
        for c in ctx.r.calls(i).values():
            if is_respond(c) and i.body.name.startswith("xi_rpc"):
                for t in c.targets:
                    rule = Frames()
                    rule.want, rule.what, rule.writes = None, "respond", writes
                    m = Machine(ctx.p, ctx.r, rule)
                    outs = m.run(t, ("unlocked", 0, frozenset()), {})
                    for (ph, k, keys), _ in outs:
                        n += 1
                        ctx.expect(k == 1 and ph == "unlocked", "one-frame", f"{t.body.name} writes {k} frame(s)",
                                   f"frames:respond:{k}:{ph}", f"{t.body.name} writes {k} frames on some path",
                                   t.body.loc(t.body.line))
                    ctx.take(m, "frames")
    ctx.expect(n > 0, "one-frame", "responses analysed", "frames:respond:none")
    # nothing else writes to the stream
    k = 0
    for b in ctx.p.bodies.values():
        if not b.crate["crate"] == "xi_rpc" or ctx.tests(b):
            continue
        for c in ctx.r.calls(Inst(b)).values():
            if trait_method(c, "Write", ("write", "write_all", "write_fmt", "write_vectored")):
                t = arg_ty(c, 0)
                if t and t[0] == "adt" and t[1].startswith("core::fmt"):
                    continue
                k += 1
                ctx.expect((b.name, last(c.name)) in writes, "who-writes", f"{b.name} writes to the stream",
                           f"who-writes:{b.name}", f"{b.name} writes to the peer's stream outside the analysed send path",
                           b.loc(c.line))
    ctx.expect(k >= 1, "who-writes", "stream write sites found", "who-writes:none")
