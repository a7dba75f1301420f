"""P05: no cycle in what threads wait for while holding a lock."""
from ..lib import *
from ..locks import GuardAnalysis
from .rpc_dispatch import *  # noqa: F401,F403


class G(GuardAnalysis):
    def waits(self, c):
        if trait_method(c, "Peer", ("send_rpc_request",)):
            o = origin(c.inst.body, c.args[0])
            if o and o[0] != "arg" and o[0].rsplit("::", 1)[-1] != "Box":
                return ("response", f"{o[0].rsplit('::', 1)[-1]}.{o[1]}")
            return ("response", "*")
        if is_method(c, "Condvar", ("wait", "wait_timeout", "wait_while", "wait_timeout_while")):
            return ("condvar", c.inst.body.name)
        if is_method(c, "Receiver", ("recv", "recv_timeout", "iter")) or is_method(c, "JoinHandle", ("join",)) or \
                is_method(c, "ScopedJoinHandle", ("join",)) or is_method(c, "Barrier", ("wait",)) or \
                is_method(c, "Child", ("wait", "wait_with_output")):
            if self.in_sync_send(c.inst):
                return None
            return ("thread", c.inst.body.name)
        return None

    def in_sync_send(self, inst):
        n = inst.body.name
        return n.startswith("<") and n.split(">::")[-1].split("::")[0] == "send_rpc_request" and "Peer>" in n


def is_callback_call(c):
    d = c.declared or ""
    return d.endswith("Callback::call")


def show(n):
    return f"lock of {n[1]}" if n[0] == "lock" else f"wait for the {n[0]} [{n[1]}]"


def run(ctx):
    g = G(ctx, "mutex")
    insts = [i for i in ctx.insts() if not ctx.tests(i.body)]
    ctx.fns.update(i.body.name for i in insts if any(a or h for _, h, a, _ in g.info(i)))
    edges = {}
    for h, k, i, c, via in g.edges(insts):
        hn = ("lock", h[0])
        kn = ("lock", k[1]) if k[0] == "lock" else k
        e = edges.setdefault((hn, kn), [])
        e.append((i, c, via, k))
    # what a thread that delivers a response may need: the callbacks of that peer, and the reader's own locks
    peers = {}
    anon = set()
    for i in insts:
        for c in ctx.r.calls(i).values():
            if trait_method(c, "Peer", ("send_rpc_request_async",)):
                o = origin(i.body, c.args[0])
                o = f"{o[0].rsplit('::', 1)[-1]}.{o[1]}" if o and o[0] != "arg" else "*"
                for t in callback_targets(ctx, i, c):
                    peers.setdefault(o, set()).add(t)
    acq = g._acq
    waits = {k for (_, k) in edges if k[0] == "response"}
    for w in waits:
        for o, ts in peers.items():
            if w[1] == "*" or o == "*" or o == w[1]:
                for t in ts:
                    for k in acq.get(t, ()):
                        kn = ("lock", k[1]) if k[0] == "lock" else k
                        edges.setdefault((w, kn), []).append((t, None, None, k))
    # the reader thread itself
    g2 = G(ctx, "mutex", prune=is_callback_call)
    acq2 = g2.summaries(insts)
    nread = 0
    for i in insts:
        for c in ctx.r.calls(i).values():
            if last(c.name) == "spawn" and i.body.crate["crate"] == "xi_rpc":
                for t in c.closures:
                    nread += 1
                    for k in acq2.get(t, ()):
                        if k[0] == "lock":
                            for w in waits:
                                edges.setdefault((w, ("lock", k[1])), []).append((t, None, None, k))
    ctx.expect(nread >= 1, "reader", "reader thread of the RPC loop found", "reader:none")
    ctx.counts["lock_classes"] = len({n for e in edges for n in e if n[0] == "lock"})
    ctx.counts["held_call_sites"] = g.sites
    # waits that may not happen under any lock
    for (h, k), sites in sorted(edges.items()):
        if k[0] in ("condvar", "thread"):
            i, c, via, kk = sites[0]
            ctx.expect(False, "wait-under-lock", f"{show(k)} while holding {h[1]}", f"wait:{h[1]}:{k[0]}:{k[1]}",
                       f"{i.body.name} waits ({show(k)}) while holding the lock of {h[1]}; path {g.chain(kk, via)}", i.body.loc(c.line))
    # cycles
    nodes = sorted({n for e in edges for n in e})
    succ = {n: sorted(b for (a, b) in edges if a == n) for n in nodes}
    seen_cycles = set()
    for n in nodes:
        path = shortest_cycle(n, succ)
        if not path:
            continue
        key = min(tuple(path[i:] + path[:i]) for i in range(len(path)))
        if key in seen_cycles:
            continue
        seen_cycles.add(key)
        desc = " -> ".join(show(x) for x in list(key) + [key[0]])
        where = []
        at = ""
        for a, b in zip(key, list(key[1:]) + [key[0]]):
            i, c, via, kk = edges[(a, b)][0]
            if c is not None:
                at = at or i.body.loc(c.line)
                where.append(f"{i.body.name}:{c.line} [{' > '.join(g.chain(kk, via))}]")
            else:
                where.append(f"delivered through {i.body.name}")
        ctx.expect(False, "acyclic", desc, "cycle:" + "|".join(f"{x[0]}:{x[1]}" for x in key),
                   f"cyclic wait: {desc}; " + "; ".join(where), at)
    for (a, b), s in sorted(edges.items()):
        ctx.oblige("acyclic", f"{show(a)} -> {show(b)} ({len(s)} sites)", not any(a in k and b in k for k in seen_cycles))
    ctx.expect(("lock", "CoreState") in nodes, "anchor", "the core's lock is in the graph", "anchor:core")
    ctx.expect(len(waits) >= 1, "anchor", "synchronous requests are in the graph", "anchor:sync")


def shortest_cycle(n, succ):
    from collections import deque
    prev = {}
    dq = deque([n])
    while dq:
        x = dq.popleft()
        for y in succ.get(x, ()):
            if y == n:
                path = [x]
                while path[-1] != n:
                    path.append(prev[path[-1]])
                return path[::-1]
            if y not in prev:
                prev[y] = x
                dq.append(y)
    return None


def callback_targets(ctx, inst, c):
    """Closures that may be passed (boxed) as the response callback at call c."""
    b = inst.body
    out = []
    ts = []
    for blk in b.reach:
        for s in b.blocks[blk]["s"]:
            if s[0] == "=" and s[2][0] == "cast" and "Unsize" in s[2][1]:
                tt = peel(ctx.p.mkty(b.crate, s[2][3], inst.env or None))
                if tt[0] == "dyn" and tt[1].rsplit("::", 1)[-1] == "Callback":
                    op = s[2][2]
                    st = ctx.p.place_ty(inst, op[1]) if op[0] != "c" else ctx.p.mkty(b.crate, op[1], inst.env or None)
                    if st is not None:
                        ts.append(peel(st))
    if not ts:
        ts = list(ctx.r.dyn.get(next((k for k in ctx.r.dyn if k.rsplit("::", 1)[-1] == "Callback"), ""), ()))
    for t in ts:
        out += ctx.r.callable_targets(t)
    return out
