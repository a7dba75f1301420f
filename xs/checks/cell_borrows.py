"""P06: no conflicting RefCell borrow while handling an event."""
from ..lib import *
from ..locks import GuardAnalysis
from .recorder import run_record


def run(ctx):
    insts = [i for i in ctx.insts() if not ctx.tests(i.body)]
    # a replay re-enters the dispatcher while the recorder is borrowed; recordings contain no special event, so that
    # arm of the dispatcher is not entered from there
    special = special_only(ctx) if run_record(ctx) else set()
    g = GuardAnalysis(ctx, "cell")
    insts = [i for i in insts if i.body.crate["crate"].startswith("xi_")]
    acq = g.summaries(insts)
    sites = 0
    pairs = {}
    for h, k, i, c, via in g.edges(insts):
        sites += 1
        if k[0] != "lock" or h[0] != k[1]:
            continue
        if h[1] == "r" and k[2] == "r":
            continue
        pairs.setdefault((h[0], h[1], k[2]), []).append((i, c, via, k))
    ctx.counts["borrowed_call_sites"] = g.sites
    ctx.fns.update(i.body.name for i in insts if any(a or h for _, h, a, _ in g.info(i)))
    n = 0
    for i in insts:
        for c, held, a, run in g.info(i):
            if a or held:
                n += 1
    ctx.counts["borrows_and_held_calls"] = n
    classes = sorted({k[1] for i in acq for k in acq[i] if k[0] == "lock"})
    for cl in classes:
        bad = [p for p in pairs if p[0] == cl]
        left = []
        for p in bad:
            for i, c, via, k in pairs[p]:
                if cl == "Recorder" and p[1] == "r" and via is not None and excused(g, via, k, special):
                    continue
                left.append((i, c, via, k, p))
        ctx.oblige("no-conflict", f"RefCell<{cl}> is never borrowed in conflict with a live borrow", not left)
        for i, c, via, k, p in left:
            ch = g.chain(k, via) if via else []
            ctx.violate(f"borrow:{cl}:{i.body.name}:{ch[-2] if len(ch) > 1 else ''}",
                        f"RefCell<{cl}> is borrowed{' mutably' if k[2] == 'w' else ''} while a {'mutable ' if p[1] == 'w' else ''}"
                        f"borrow of it is live; via {ch}", i.body.loc(c.line))
    for cl in ("Editor", "View"):
        ctx.expect(cl in classes, "anchor", f"RefCell<{cl}> is analysed", f"anchor:{cl}")


def special_only(ctx):
    """Call sites reachable only through the variant of the event type that is never recorded."""
    out = set()
    for i in ctx.insts():
        b = i.body
        if not b.crate["crate"] == "xi_core_lib" or ctx.tests(b):
            continue
        for bi in b.reach:
            t = b.blocks[bi]["t"]
            if t[0] != "switch":
                continue
            for s in b.blocks[bi]["s"]:
                if s[0] == "=" and s[2][0] == "discr" and t[1][0] in ("m", "p") and t[1][1] == s[1]:
                    ty = peel(ctx.p.place_ty(i, s[2][1]) or ("x",))
                    if ty[0] == "adt" and last(ty[1]) == "EventDomain":
                        names = {k: v["n"] for k, v in enumerate(ctx.p.adts[ty[1]]["v"])}
                        skip = {tb for v, tb in t[2] if names.get(v) == "Special"}
                        listed = {names.get(v) for v, tb in t[2]}
                        if "Special" not in listed and set(names.values()) - listed == {"Special"}:
                            skip.add(t[3])
                        seen, st = {0}, [0]
                        while st:
                            x = st.pop()
                            for y in b.succs(x):
                                if x == bi and y in skip:
                                    continue
                                if y not in seen:
                                    seen.add(y)
                                    st.append(y)
                        out |= {(i, x) for x in b.reach if x not in seen}
    return out


def excused(g, via, k, special):
    """A borrow reached from a replay only by handling a special event: special events are never recorded (which the
    recorder rule checks), so replay never dispatches one."""
    seen, st = {via}, [via]
    while st:
        i = st.pop()
        for cc, held, a, run in g.info(i):
            if (i, cc.bb) in special:
                continue
            if a and ("lock",) + a == k:
                return False
            for t in run:
                if t not in seen:
                    seen.add(t)
                    st.append(t)
    return True
