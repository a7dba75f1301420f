"""Guard liveness: which lock guards / cell borrows may be live at each call, what each function may acquire, and the
resulting order graph. Works on MIR with drops, so it sees the real extent of every temporary."""
from collections import defaultdict

from .lib import arg_ty, is_method, last, mentions, trait_method
from .model import Inst, find_callables, peel, tystr

MUTEX_GUARDS = ("MutexGuard", "RwLockReadGuard", "RwLockWriteGuard", "MappedMutexGuard")
#: external functions that take a closure (inside an argument) without running it
STORING = {"new", "from", "into", "clone", "push", "push_back", "insert", "forget", "drop", "replace", "swap", "take",
           "map", "filter", "filter_map", "flat_map", "enumerate", "zip", "chain", "rev", "skip", "skip_while", "take_while",
           "scan", "inspect", "peekable", "by_ref", "into_iter", "iter", "cloned", "step_by", "fuse", "map_while",
           "size_hint", "box_new", "lock", "unwrap_or", "once", "name", "stack_size"}
#: ... but on Option/Result these do run it
RUNS_ON_VALUES = ("map", "filter", "inspect", "zip", "take", "replace")
SPAWNING = ("spawn", "spawn_scoped")


def short(t):
    """Class name of the guarded data."""
    if t[0] == "adt":
        n = t[1].rsplit("::", 1)[-1]
        return n + ("<" + ",".join(short(a) for a in t[2]) + ">" if t[2] else "")
    if t[0] == "tuple":
        return "(" + ",".join(short(a) for a in t[1]) + ")"
    if t[0] in ("p", "param"):
        return t[1].rsplit("::", 1)[-1]
    if t[0] in ("slice", "array"):
        return "[" + short(t[1]) + "]"
    if t[0] == "dyn":
        return "dyn " + t[1].rsplit("::", 1)[-1]
    if t[0] in ("ref", "ptr"):
        return "&" + short(t[2])
    return tystr(t)


class GuardAnalysis:
    """kind: 'mutex' or 'cell'."""

    def __init__(self, ctx, kind, prune=None):
        self.ctx, self.p, self.r, self.kind = ctx, ctx.p, ctx.r, kind
        self.prune = prune or (lambda call: False)
        self._gt = {}
        self._acq = {}
        self._info = {}
        self.sites = 0

    # -- guards
    def guard_class(self, t):
        if t[0] != "adt" or not t[2]:
            return None
        n = t[1].rsplit("::", 1)[-1]
        if self.kind == "mutex":
            if n in MUTEX_GUARDS and ("sync" in t[1] or "parking_lot" in t[1]):
                return (short(t[2][-1] if t[2][-1][0] != "dyn" else t[2][0]), "w")
        else:
            if t[1].startswith("core::cell::") and n in ("Ref", "RefMut"):
                return (short(t[2][0]), "w" if n == "RefMut" else "r")
        return None

    def guards_in(self, inst, t, depth=0):
        key = (t, depth)
        if t in self._gt:
            return self._gt[t]
        out = set()
        g = self.guard_class(t)
        if g:
            out.add(g)
        elif depth < 6:
            k = t[0]
            if k in ("slice", "array"):
                out |= self.guards_in(inst, t[1], depth + 1)
            elif k == "adt" and t[1].rsplit("::", 1)[-1] not in ("Arc", "Rc", "Weak", "PhantomData", "Mutex", "RefCell", "PoisonError"):
                for a in t[2]:
                    if a[0] not in ("ref", "ptr", "closure", "fndef"):
                        out |= self.guards_in(inst, a, depth + 1)
            elif k == "tuple":
                for a in t[1]:
                    out |= self.guards_in(inst, a, depth + 1)
            elif k == "closure":
                try:
                    ups = self.p.upvars(inst, t)
                except Exception:
                    ups = None
                for u in ups or ():
                    if u and u[0] not in ("ref", "ptr"):
                        out |= self.guards_in(inst, u, depth + 1)
        if depth == 0:
            self._gt[t] = out
        return out

    def acquires(self, c):
        """(class, mode) acquired by this external call itself."""
        n = last(c.name)
        if self.kind == "mutex":
            if is_method(c, "Mutex", ("lock",)) or is_method(c, "RwLock", ("read", "write")):
                t = arg_ty(c, 0)
                if t and t[0] == "adt" and t[2]:
                    return (short(t[2][-1] if t[2][-1][0] not in ("dyn",) else t[2][0]), "w")
        else:
            if is_method(c, "RefCell", ("borrow", "borrow_mut", "replace", "take", "swap", "replace_with")):
                t = arg_ty(c, 0)
                if t and t[0] == "adt" and t[2]:
                    return (short(t[2][0]), "r" if n == "borrow" else "w")
        return None

    def waits(self, c):
        return None

    # -- per instance
    def runs(self, c):
        """Instances that run (on this thread) during call c."""
        out = list(c.targets)
        if c.closures:
            n = last(c.name)
            if n in SPAWNING:
                return out
            if n in STORING:
                t = arg_ty(c, 0)
                if not (n in RUNS_ON_VALUES and t and t[0] == "adt" and t[1] in ("core::option::Option", "core::result::Result")):
                    return out
            out += c.closures
        return out

    def info(self, inst):
        """[(call, held classes before it, acquired or None, callees)]"""
        r = self._info.get(inst)
        if r is not None:
            return r
        b = inst.body
        gl = {}
        for l in range(len(b.locals)):
            t = self.p.place_ty(inst, [l])
            if t is not None:
                g = self.guards_in(inst, t)
                if g:
                    gl[l] = g
        calls = self.r.calls(inst)
        res = []
        init = frozenset(l for l in gl if 1 <= l <= b.argc)
        if not gl:
            for bb, c in calls.items():
                res.append((c, frozenset(), self.acquires(c) if not c.targets else None, self.runs(c)))
            self._info[inst] = res
            return res
        state = {0: init}
        work = [0]
        before = {}
        while work:
            bb = work.pop()
            live = set(state[bb])
            blk = b.blocks[bb]
            for s in blk["s"]:
                self.stmt(s, live, gl)
            t = blk["t"]
            if t[0] == "call":
                moved = [a[1][0] for a in t[2] if a[0] == "m" and a[1][0] in gl]
                c = calls.get(bb)
                if c is not None:
                    held = set()
                    for l in live:
                        if l not in moved:
                            held |= gl[l]
                    before[bb] = before.get(bb, frozenset()) | frozenset(held)
                for l in moved:
                    live.discard(l)
                if t[3][0] in gl:
                    live.add(t[3][0])
            elif t[0] == "drop":
                if t[1][0] in gl and len(t[1]) == 1:
                    live.discard(t[1][0])
                elif t[1][0] in gl:
                    live.discard(t[1][0])
            nl = frozenset(live)
            for s in b.succs(bb):
                old = state.get(s)
                new = nl if old is None else old | nl
                if new != old:
                    state[s] = new
                    work.append(s)
        for bb, c in calls.items():
            if bb in before:
                res.append((c, before[bb], self.acquires(c) if not c.targets else None, self.runs(c)))
        self._info[inst] = res
        return res

    def stmt(self, s, live, gl):
        if s[0] == "=":
            rv = s[2]
            ops = rv[2] if rv[0] == "agg" else [x for x in rv[1:] if isinstance(x, list) and len(x) >= 2 and x[0] in ("p", "m", "c")]
            src = False
            for o in ops:
                if o[0] == "m" and o[1][0] in gl:
                    if o[1][0] in live:
                        src = True
                    live.discard(o[1][0])
            if s[1][0] in gl:
                if src:
                    live.add(s[1][0])
                elif len(s[1]) == 1:
                    live.discard(s[1][0])
        elif s[0] == "dead":
            live.discard(s[1])

    # -- summaries
    def closure_of(self, roots):
        """Reachable instances, with runs() edges plus spawned closures as extra roots."""
        seen = dict.fromkeys(roots)
        st = list(roots)
        while st:
            i = st.pop()
            for c, held, a, run in self.info(i):
                if self.prune(c):
                    continue
                for t in list(run) + list(c.closures):
                    if t not in seen:
                        seen[t] = None
                        st.append(t)
        return list(seen)

    def summaries(self, insts):
        """inst -> {(class, mode) or wait node: (call, via)} acquired transitively."""
        acq = {i: {} for i in insts}
        callers = defaultdict(set)
        for i in insts:
            for c, held, a, run in self.info(i):
                if self.prune(c):
                    continue
                if a:
                    acq[i].setdefault(("lock",) + a, (c, None))
                w = self.waits(c)
                if w:
                    acq[i].setdefault(w, (c, None))
                for t in run:
                    callers[t].add((i, c))
        work = [i for i in insts if acq[i]]
        while work:
            t = work.pop()
            for i, c in callers[t]:
                if i not in acq:
                    continue
                ch = False
                for k in acq[t]:
                    if k not in acq[i]:
                        acq[i][k] = (c, t)
                        ch = True
                if ch:
                    work.append(i)
        self._acq = acq
        return acq

    def edges(self, insts):
        """Yield (held class+mode, event node, inst, call, via chain)."""
        acq = self.summaries(insts)
        for i in insts:
            for c, held, a, run in self.info(i):
                if not held or self.prune(c):
                    continue
                self.sites += 1
                evs = {}
                if a:
                    evs[("lock",) + a] = None
                w = self.waits(c)
                if w:
                    evs[w] = None
                for t in run:
                    for k in acq.get(t, ()):
                        evs.setdefault(k, t)
                for h in held:
                    for k, via in evs.items():
                        yield h, k, i, c, via

    def chain(self, k, via, limit=12):
        out = []
        while via is not None and len(out) < limit:
            out.append(via.body.name)
            e = self._acq.get(via, {}).get(k)
            if e is None:
                break
            c, via2 = e
            if via2 is None:
                out.append(f"{c.inst.body.loc(c.line)}")
                break
            via = via2
        return out
