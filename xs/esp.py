"""Path-sensitive interprocedural typestate engine.

An abstract state is (q, env): q is the rule's automaton state, env is a finite set of facts about places of the
current body (known enum variant, known boolean, "is a reference to place K", rule-defined labels). Facts are
propagated through assignments, calls, std combinators and closures; a switch edge contradicted by env is not
followed. Calls are followed into every workspace body that can (transitively) produce an event of the rule, through
memoised summaries; recursion is solved by iterating to a fixpoint.
"""
from collections import defaultdict, deque

from .model import Inst, Resolver, peel, succs_of, tystr

UNIT = frozenset()

STD_VARIANTS = {
    "core::option::Option": ["None", "Some"],
    "core::result::Result": ["Ok", "Err"],
    "core::ops::control_flow::ControlFlow": ["Continue", "Break"],
}

MAX_STATES = 600
#: external functions whose result is another view or copy of their first argument
VIEWS = {"as_str", "as_mut_str", "as_path", "as_os_str", "as_slice", "as_mut_slice", "to_string", "to_owned", "into_owned", "to_path_buf", "to_os_string", "into_os_string",
         "into_boxed_str", "into_string", "to_vec", "as_bytes", "into_bytes"}
CONVERSIONS = ("core::convert::Into::into", "core::convert::From::from", "core::clone::Clone::clone")


class Blowup(Exception):
    pass


class Env:
    """Immutable-ish fact set: dict {(key, kind): value}; frozen for hashing."""
    __slots__ = ("d", "_h")

    def __init__(self, d):
        self.d = d
        self._h = None

    def frozen(self):
        if self._h is None:
            self._h = frozenset(self.d.items())
        return self._h


def is_prefix(p, k):
    return len(k) >= len(p) and k[:len(p)] == p


class Rule:
    """Subclass per property."""
    #: external functions through which labels of the first argument flow to the result
    label_pass = set()
    #: a place without a label has the label of the place that contains it
    label_prefix = False
    #: elements of arrays at constant positions are told apart
    track_index = False

    def interesting(self, call):
        """Is this call an event (decides which bodies are analysed)?"""
        return False

    def interesting_stmt(self, body, s):
        return False

    def call(self, m, call, q, env):
        """None: not an event. Otherwise list of (q', result facts) where result facts is a dict
        {(subkey tuple, kind): value} describing the destination, or 'follow' to continue into the callee with q'."""
        return None

    def opaque(self, call):
        """Calls that are not followed (user code behind an interface)."""
        return False

    def after(self, m, call, q0, q, env):
        """Called with each outcome of a followed call; may change q."""
        return q

    def enter(self, m, call, q):
        """State with which a callee starts."""
        return q

    def leave(self, m, call, q0, q):
        """State after a callee that was entered from q0 and left in q."""
        return q

    def made(self, m, inst, bb, s, q, env):
        """Called after a statement was interpreted; may add facts to env."""

    def fnitem(self, m, call, name, facts, q, env):
        """An external function item called by a modelled combinator: None, or [(q, result facts)]."""
        return None

    def stmt(self, m, body, bb, s, q, env):
        return q

    def drop(self, m, body, bb, place, ty, q, env):
        return q

    def edge(self, m, body, bb, key, variant, q, env):
        return q

    def panic_edge(self, m, body, bb, q, env):
        pass

    def spawn(self, m, call, q):
        """How closures passed to an unmodelled external function run: 'many' (0..n times, now), 'never'."""
        return "many"


class LoopRule(Rule):
    """Adds obligations per item of an iteration: for loops (Iterator::next) and for_each over an iterator for which
    loop(c) gives a token. step(m, c, q, token, more) is told that the previous item (if any) is finished and that
    there is another one or not; it returns the new q, or None when that cannot happen."""

    def loop(self, c):
        return None

    def step(self, m, c, q, token, more):
        return q

    def item(self, c, token):
        """Facts about an item."""
        return {}

    def is_next(self, c):
        return (c.declared or "").endswith("Iterator::next") and self.loop(c) is not None

    collects = False        # is collecting (or extending by) the items of a lazy adapter an iteration too?

    def is_each(self, c):
        if self.collects and (c.declared or "").endswith("Iterator::collect") and self.loop(c) is not None and self.chain(None, c.tyargs[0] if c.tyargs else None):
            return True
        return (c.declared or "").endswith(("Iterator::for_each", "Iterator::try_for_each")) and self.loop(c) is not None

    def produced(self, m, q, facts):
        """What an adapter makes of an item."""
        return q

    def chained(self, c):
        """Is this a lazy adapter over an iterator whose items matter?"""
        return False

    def is_adapter(self, c):
        return (c.declared or "").endswith(("Iterator::filter", "Iterator::map", "Iterator::inspect", "Iterator::by_ref", "IntoIterator::into_iter")
                                        + (("Iterator::flat_map", "Iterator::filter_map") if self.collects else ())) and self.chained(c)

    def interesting(self, c):
        return self.is_next(c) or self.is_each(c) or self.is_adapter(c) or self.event(c)

    @staticmethod
    def chain(m, t):
        """[(adapter, closure type)] of an iterator's type, innermost first."""
        while t is not None and t[0] in ("ref", "ptr"):
            t = t[-1] if t[0] == "ref" else None
        if t is None or t[0] != "adt" or not t[2]:
            return []
        n = t[1].rsplit("::", 1)[-1]
        if n in ("FlatMap", "FilterMap") and len(t[2]) > 1:
            return LoopRule.chain(m, t[2][0]) + [(n, t[2][-1])]
        if n in ("Filter", "Map", "Inspect") and len(t[2]) > 1:
            return LoopRule.chain(m, t[2][0]) + [(n, t[2][1])]
        return LoopRule.chain(m, t[2][0])

    def through(self, m, c, q, d, chain, it):
        """Runs an item through the adapters: [(passed?, q, env, facts of the item)]."""
        work = [(True, q, dict(d), self.item(c, it))]
        src = m.opkey(c.args[0], d)
        if src is not None and (src, "r") in d:
            src = d[(src, "r")][0]
        for n, ct in chain:
            new = []
            for ok, q1, d1, fs in work:
                if not ok:
                    new.append((ok, q1, d1, fs))
                    continue
                ts = m.r.callable_targets(ct)
                if not ts:
                    new.append((True, q1, d1, {} if n in ("Map", "FlatMap", "FilterMap") else fs))
                    if n == "Filter":
                        new.append((False, q1, d1, fs))
                for t in ts:
                    for q2, d2, rf in m.run_closure_ret(c.inst, c, t, [fs], q1, d1, None if src is None else src + (("clo", t.body.uid),)):
                        if n in ("Map", "FlatMap", "FilterMap"):
                            new.append((True, self.produced(m, q2, rf), d2, rf))
                        elif n == "Inspect":
                            new.append((True, q2, d2, fs))
                        else:
                            v = rf.get(((), "c"))
                            for b in ((True, False) if v is None else (bool(v),)):
                                d3 = dict(d2)
                                k = (("item",),)
                                for (sk, kind), fv in rf.items():
                                    if kind != "r":
                                        d3[(k + sk, kind)] = fv
                                q3 = self.edge(m, c.inst, c.bb, k, b, q2, d3)
                                if q3 is not None:
                                    new.append((b, q3, d2, fs))
            work = new
        return work

    def event(self, c):
        return False

    def call(self, m, c, q, d):
        if self.is_next(c):
            tok = self.loop(c)
            outs = []
            ch = self.chain(m, c.tyargs[0]) if c.tyargs else []
            if any(m.relevant(t) or n == "Filter" for n, ct in ch for t in m.r.callable_targets(ct)):
                seen, work = set(), [(q, dict(d))]
                while work:
                    q1, d1 = work.pop()
                    k = (q1, frozenset(d1.items()))
                    if k in seen:
                        continue
                    seen.add(k)
                    qe = self.step(m, c, q1, tok, False)
                    if qe is not None:
                        outs.append(("state", qe, d1, {((), "v"): "None"}))
                    qn = self.step(m, c, q1, tok, True)
                    if qn is not None:
                        for ok, q2, d2, fs in self.through(m, c, qn, d1, ch, tok):
                            if not ok:
                                work.append((q2, d2))
                                continue
                            g = {((("d", "Some"), ("f", 0)) + k2, kk): v for (k2, kk), v in fs.items()}
                            g[((), "v")] = "Some"
                            outs.append(("state", q2, d2, g))
                return outs
            for more in (True, False):
                q2 = self.step(m, c, q, tok, more)
                if q2 is not None:
                    fs = {((), "v"): "Some" if more else "None"}
                    if more:
                        fs.update({((("d", "Some"), ("f", 0)) + k, kk): v for (k, kk), v in self.item(c, tok).items()})
                    outs.append((q2, fs))
            return outs
        if self.is_each(c):
            tok = self.loop(c)
            outs, seen, work = [], set(), [(q, dict(d))]
            while work:
                q1, d1 = work.pop()
                k = (q1, frozenset(d1.items()))
                if k in seen:
                    continue
                seen.add(k)
                qe = self.step(m, c, q1, tok, False)
                tries = c.declared.endswith("try_for_each")
                if qe is not None:
                    outs.append(("state", qe, d1, {((), "v"): "Ok"} if tries else {}))
                qn = self.step(m, c, q1, tok, True)
                if qn is None:
                    continue
                ch = self.chain(m, c.tyargs[0]) if c.tyargs else []
                inner = {t for n, ct in ch for t in m.r.callable_targets(ct)}
                for ok, q1, d1, fs in self.through(m, c, qn, d1, ch, tok):
                    if not ok:
                        work.append((q1, d1))
                        continue
                    outer = [t for t in c.closures if t not in inner]
                    if not outer:
                        work.append((q1, d1))
                    for t in outer:
                        for q2, d2, rf in m.run_closure_ret(c.inst, c, t, [fs], q1, d1):
                            v = rf.get(((), "v"))
                            if tries and v not in ("Ok", "Some", "Continue"):
                                outs.append(("state", q2, d2, rf))
                            if not tries or v not in ("Err", "None", "Break"):
                                work.append((q2, d2))
            return outs
        if self.is_adapter(c):
            fs = {}
            k0, k1 = m.opkey(c.args[0], d), m.opkey(c.args[1], d) if len(c.args) > 1 else None
            if k0 is not None and (k0, "r") in d:
                k0 = d[(k0, "r")][0]
            if len(c.args) == 1 and not self.chain(m, c.tyargs[0] if c.tyargs else None):
                return self.on_event(m, c, q, d)
            if k0 is not None:
                fs.update({(sk, kind): v for sk, kind, v in m.sub(d, k0) if sk and sk[0][0] == "clo"})
            if k1 is not None:
                for t in m.r.callable_targets(m.place_ty(c.inst, c.args[1][1])):
                    fs.update({((("clo", t.body.uid),) + sk, kind): v for sk, kind, v in m.sub(d, k1)})
            return [(q, fs)]
        return self.on_event(m, c, q, d)

    def on_event(self, m, c, q, d):
        return None


class Machine:
    def __init__(self, prog, resolver, rule):
        self.p, self.r, self.rule = prog, resolver, rule
        self.summ = {}          # (inst, q, entry env) -> dict outcome -> None
        self.dirty = set()
        self.stack = []
        self.violations = {}
        self.active = set()
        self.rel = {}
        self.visited = set()
        self.ncalls = 0
        self.changed = False
        self.partial = set()
        self.allvisited = set()
        self._live = {}
        self.events = 0

    # ------------------------------------------------------------------ relevance
    def relevant(self, inst):
        if inst in self.rel:
            return self.rel[inst]
        # build the reachable graph from here
        order, seen, edges = [], {inst}, defaultdict(list)
        st = [inst]
        base = set()
        while st:
            i = st.pop()
            order.append(i)
            if i in self.rel:
                if self.rel[i]:
                    base.add(i)
                continue
            hit = False
            for blk in i.body.reach:
                for s in i.body.blocks[blk]["s"]:
                    if self.rule.interesting_stmt(i.body, s):
                        hit = True
            for c in self.r.calls(i).values():
                if self.rule.interesting(c):
                    hit = True
                if self.rule.opaque(c):
                    continue
                for t in list(c.targets) + list(c.closures):
                    edges[t].append(i)
                    if t not in seen:
                        seen.add(t)
                        st.append(t)
            if hit:
                base.add(i)
        work = list(base)
        relset = set(base)
        while work:
            i = work.pop()
            for j in edges[i]:
                if j not in relset:
                    relset.add(j)
                    work.append(j)
        for i in seen:
            self.rel[i] = i in relset
        return self.rel[inst]

    # ------------------------------------------------------------------ reporting
    def report(self, key, msg, body=None, line=None):
        if key not in self.violations:
            chain = [f"{i.body.name}" for i in self.stack]
            at = f"{body.loc(line)}" if body is not None and line is not None else ""
            self.violations[key] = {"key": key, "msg": msg, "at": at, "chain": chain}

    # ------------------------------------------------------------------ keys
    def key(self, place, d):
        """Normalise a MIR place against env facts; None when it is not tracked (index)."""
        k = (place[0],)
        for e in place[1:]:
            if e == "*":
                r = d.get((k, "r"))
                k = r[0] if r is not None else k + ("*",)
            elif e[0] == "f":
                k = k + (("f", e[1]),)
            elif e[0] == "d":
                k = k + (("d", e[2]),)
            elif self.rule.track_index and e[0] == "ci" and not e[2]:
                k = k + (("e", e[1]),)
            elif self.rule.track_index and e[0] == "i" and type(d.get(((e[1],), "c"))) is int:
                k = k + (("e", d[((e[1],), "c")]),)
            else:
                return None
            if len(k) > 14:
                return None
        return k

    def opkey(self, op, d):
        return self.key(op[1], d) if op[0] in ("p", "m") else None

    @staticmethod
    def kill(d, k, keep_self=False):
        n = len(k)
        rm = [e for e in d if e[0][:n] == k]
        for e in rm:
            del d[e]
        # facts that mention k
        rm = [e for e, v in d.items() if e[1] in ("p", "cp", "discr") and _mentions(v, k, e[1])]
        for e in rm:
            del d[e]

    @staticmethod
    def sub(d, k):
        n = len(k)
        return [(e[0][n:], e[1], v) for e, v in d.items() if e[0][:n] == k]

    def copy(self, d, src, dst):
        ents = self.sub(d, src)
        self.kill(d, dst)
        for s, kind, v in ents:
            d[(dst + s, kind)] = v

    def assign_op(self, d, dst, op):
        """dst := operand."""
        if op[0] == "c":
            self.kill(d, dst)
            v = self.constval(op)
            if v is not None:
                d[(dst, "c")] = v
            return
        src = self.key(op[1], d)
        if src is None:
            self.kill(d, dst)
            return
        ents = self.sub(d, src)
        self.kill(d, dst)
        pl = self.prefix_label(src, d) if self.rule.label_prefix and len(src) > 1 else None
        for s, kind, v in ents:
            if op[0] == "m" and kind in ("p", "cp", "discr") and _mentions(v, src, kind):
                continue
            d[(dst + s, kind)] = v
        if pl is not None:
            d.setdefault((dst, "l"), pl)
        if op[0] == "m":
            if not is_prefix(src, dst):
                for s, kind, v in ents:
                    d.pop((src + s, kind), None)
        elif (src, "c") not in d and (src, "p") not in d and (src, "cp") not in d:
            ty = None
            d[(dst, "cp")] = src

    @staticmethod
    def prefix_label(k, d):
        for i in range(len(k), 0, -1):
            l = d.get((k[:i], "l"))
            if l is not None:
                return l
        return None

    def constval(self, op):
        v = op[2]
        if isinstance(v, (int, str)):
            return v
        return None

    # ------------------------------------------------------------------ refinement
    def refine_bool(self, d, key, truth, depth=0):
        """Assume the boolean at key equals truth; False when contradicted."""
        if depth > 6:
            return True
        c = d.get((key, "c"))
        if c is not None and isinstance(c, bool):
            return c == truth
        p = d.get((key, "p"))
        if p is not None:
            if p[0] == "not":
                if not self.refine_bool(d, p[1], not truth, depth + 1):
                    return False
            elif p[0] in ("isv", "isntv"):
                if not self.refine_var(d, p[1], p[2], truth == (p[0] == "isv")):
                    return False
        cp = d.get((key, "cp"))
        if cp is not None:
            if not self.refine_bool(d, cp, truth, depth + 1):
                return False
        d[(key, "c")] = truth
        return True

    def refine_var(self, d, key, variants, truth):
        cur = d.get((key, "v"))
        variants = variants if isinstance(variants, tuple) else (variants,)
        if cur is not None:
            return (cur in variants) == truth
        no = d.get((key, "nv"), ())
        if truth:
            left = [v for v in variants if v not in no]
            if not left:
                return False
            if len(left) == 1:
                d[(key, "v")] = left[0]
                d.pop((key, "nv"), None)
        else:
            no = tuple(sorted(set(no) | set(variants)))
            d[(key, "nv")] = no
        src = d.get((key, "cp"))
        if src is not None:
            return self.refine_var(d, src, variants, truth)
        return True

    # ------------------------------------------------------------------ variants
    def variants_of(self, adt):
        if adt in STD_VARIANTS:
            return {i: n for i, n in enumerate(STD_VARIANTS[adt])}
        a = self.p.adts.get(adt)
        if a is not None:
            return {i: v["n"] for i, v in enumerate(a["v"])}
        return self.p.variant_names().get(adt, {})

    def place_ty(self, inst, place):
        return self.p.place_ty(inst, place)

    # ------------------------------------------------------------------ main solve
    def run(self, inst, q, env=None, rounds=12):
        env = env or {}
        for _ in range(rounds):
            self.changed = False
            self.visited = set()
            res = self.solve(inst, q, frozenset(env.items()))
            if not self.changed:
                break
        else:
            raise Blowup(f"no fixpoint for {inst}")
        return res

    def solve(self, inst, q, entry):
        key = (inst, q, entry)
        if key in self.visited:
            return self.summ.get(key, {})
        self.visited.add(key)
        self.allvisited.add(inst)
        self.stack.append(inst)
        try:
            out = self.flow(inst, q, dict(entry))
        finally:
            self.stack.pop()
        old = self.summ.get(key)
        if old is None or set(old) != set(out):
            if old is None and not out:
                self.summ[key] = out
            else:
                m = dict(old or {})
                m.update(out)
                if old is None or set(m) != set(old):
                    self.changed = True
                self.summ[key] = m
        return self.summ[key]

    def flow(self, inst, q0, env0):
        body = inst.body
        calls = self.r.calls(inst)
        live = self.liveness(body)
        inst_states = defaultdict(dict)   # bb -> {(q, frozenset): dict}
        work = deque()

        def push(bb, q, d):
            d = self.prune(body, live, bb, d)
            f = frozenset(d.items())
            m = inst_states[bb]
            if (q, f) in m:
                return
            if len(m) >= MAX_STATES:
                # widen: forget everything but labels
                d = {e: v for e, v in d.items() if e[1] in ("l", "r")}
                f = frozenset(d.items())
                if (q, f) in m:
                    return
                if len(m) >= 2 * MAX_STATES:
                    raise Blowup(f"{body.name} bb{bb}")
            m[(q, f)] = d
            work.append((bb, q, f))

        push(0, q0, env0)
        outs = {}
        while work:
            bb, q, f = work.popleft()
            d0 = dict(inst_states[bb][(q, f)])
            blk = body.blocks[bb]
            states = [(q, d0)]
            for s in blk["s"]:
                ns = []
                for q, d in states:
                    r = self.rule.stmt(self, inst, bb, s, q, d) if q is not None else None
                    if isinstance(r, list):
                        for q2 in r:
                            d2 = dict(d)
                            self.stmt(inst, s, d2)
                            ns.append((q2, d2))
                    else:
                        self.stmt(inst, s, d)
                        if r is not None:
                            self.rule.made(self, inst, bb, s, r, d)
                        ns.append((r, d))
                states = ns
            t = blk["t"]
            k = t[0]
            for q, d in states:
                if k == "goto":
                    push(t[1], q, d)
                elif k == "ret":
                    o = (q, self.exit_facts(inst, d))
                    outs[o] = None
                elif k == "drop":
                    q2 = self.rule.drop(self, inst, bb, t[1], t[2], q, d) if q is not None else None
                    push(t[3], q2, d)
                elif k == "assert":
                    push(t[4], q, d)
                elif k == "switch":
                    for nb, nd, nq in self.switch(inst, bb, t, q, d):
                        push(nb, nq, nd)
                elif k == "call":
                    c = calls.get(bb)
                    for q2, d2 in self.do_call(inst, c, q, d):
                        if t[4] is not None:
                            push(t[4], q2, d2)
        return outs

    def liveness(self, body):
        r = self._live.get(body.uid)
        if r is None:
            r = compute_liveness(body)
            self._live[body.uid] = r
        return r

    def prune(self, body, live, bb, d):
        lv, addr = live
        ls = lv[bb]
        if all(e[0][0] in ls or e[0][0] in addr for e in d):
            return d
        # keep what is reachable from live refs
        keep = {e[0][0] for e in d if e[0][0] in ls or e[0][0] in addr}
        grow = True
        while grow:
            grow = False
            for e, v in d.items():
                if e[1] == "r" and e[0][0] in keep and v[0][0] not in keep:
                    keep.add(v[0][0])
                    grow = True
        return {e: v for e, v in d.items() if e[0][0] in keep}

    def exit_facts(self, inst, d):
        """Facts about the return place and about places behind reference parameters."""
        argc = inst.body.argc
        keep = []
        for e, v in d.items():
            k, kind = e
            if kind in ("cp", "p", "discr"):
                continue
            if kind == "r":
                # a reference to something behind a parameter survives
                if k[0] == 0 and isinstance(v[0][0], int) and 1 <= v[0][0] <= argc and len(v[0]) > 1:
                    keep.append((e, v))
                continue
            if k[0] == 0 or (1 <= k[0] <= argc and "*" in k):
                keep.append((e, v))
        return frozenset(keep)

    # ------------------------------------------------------------------ statements
    def stmt(self, inst, s, d):
        if s[0] == "dead":
            k = (s[1],)
            self.kill(d, k)
            return
        if s[0] == "sd":
            k = self.key(s[1], d)
            if k is not None:
                d[(k, "v")] = s[2]
            return
        if s[0] != "=":
            return
        place, rv = s[1], s[2]
        dst = self.key(place, d)
        if dst is None:
            if self.rule.track_index:
                n = next((i for i, e in enumerate(place) if isinstance(e, list) and e[0] not in ("f", "d")), None)
                base = self.key(place[:n], d) if n else None
                if base is not None:
                    self.kill(d, base)
            return
        k = rv[0]
        if k == "use":
            self.assign_op(d, dst, rv[1])
        elif k == "cast":
            op = rv[1] if isinstance(rv[1], list) else rv[2]
            for x in rv[1:]:
                if isinstance(x, list) and x and x[0] in ("p", "m", "c"):
                    op = x
                    break
            self.assign_op(d, dst, op)
        elif k in ("ref", "raw"):
            src = self.key(rv[2], d)
            same = d.get((self.key(rv[2][:-1], d), "l")) if len(rv[2]) > 1 and rv[2][-1] == "*" else None
            self.kill(d, dst)
            if src is not None and not is_prefix(dst, src):
                d[(dst, "r")] = (src, rv[1])
                if same is not None and src[-1] == "*":
                    d[(dst, "l")] = same        # a reborrow is the same reference
        elif k == "discr":
            src = self.key(rv[1], d)
            self.kill(d, dst)
            if src is not None:
                t = inst.body.ty(rv[2])
                while t["k"] == "ref":
                    t = inst.body.ty(t["t"])
                adt = t["n"] if t["k"] == "adt" else None
                if adt is None and t["k"] == "param":
                    ct = self.p.mkty(inst.body.crate, rv[2], inst.env)
                    adt = ct[1] if ct[0] == "adt" else None
                d[(dst, "discr")] = (src, adt)
        elif k == "un":
            op = rv[2] if isinstance(rv[2], list) else rv[1]
            src = self.opkey(op, d)
            if rv[1] == "Not" and src is not None:
                c = d.get((src, "c"))
                p = d.get((src, "p"))
                self.kill(d, dst)
                if isinstance(c, int) and not isinstance(c, bool):
                    d[(dst, "c")] = c ^ (1 << 64) - 1
                elif isinstance(c, bool):
                    d[(dst, "c")] = not c
                elif p is not None and p[0] == "not":
                    d[(dst, "cp")] = p[1]
                elif not is_prefix(dst, src):
                    d[(dst, "p")] = ("not", src)
            else:
                self.kill(d, dst)
                v = self.constval(op) if rv[1] == "Not" and op[0] == "c" else None
                if isinstance(v, int) and not isinstance(v, bool):
                    d[(dst, "c")] = v ^ (1 << 64) - 1
        elif k == "agg":
            self.aggregate(inst, d, dst, rv)
        else:
            lbls = None
            if k == "bin":
                lbls = self.rule_bin(inst, rv, d)
            self.kill(d, dst)
            if lbls is not None:
                d[(dst, lbls[0])] = lbls[1]

    def rule_bin(self, inst, rv, d):
        op, a, b = rv[1], rv[2], rv[3]
        ca = self.opconst(a, d)
        cb = self.opconst(b, d)
        if ca is not None and cb is not None and type(ca) == type(cb):
            if op == "Eq":
                return ("c", ca == cb)
            if op == "Ne":
                return ("c", ca != cb)
            if type(ca) is int and op in ("Lt", "Le", "Gt", "Ge") and 0 <= ca < 1 << 31 and 0 <= cb < 1 << 31:
                return ("c", ca < cb if op == "Lt" else ca <= cb if op == "Le" else ca > cb if op == "Gt" else ca >= cb)
            if type(ca) in (int, bool) and op in ("BitOr", "BitAnd", "BitXor"):
                return ("c", ca | cb if op == "BitOr" else ca & cb if op == "BitAnd" else ca ^ cb)
        if op == "BitOr" and True in (x for x in (ca, cb) if isinstance(x, bool)):
            return ("c", True)
        if op == "BitAnd" and False in (x for x in (ca, cb) if isinstance(x, bool)):
            return ("c", False)
        f = getattr(self.rule, "binop", None)
        if f:
            return f(self, inst, op, a, b, d)
        return None

    def opconst(self, op, d):
        if op[0] == "c":
            return self.constval(op)
        k = self.key(op[1], d)
        return d.get((k, "c")) if k is not None else None

    def aggregate(self, inst, d, dst, rv):
        kind = rv[1]
        ops = rv[2]
        tmp = []
        for i, op in enumerate(ops):
            if op[0] == "c":
                v = self.constval(op)
                if v is not None:
                    tmp.append((i, [((), "c", v)]))
            else:
                src = self.key(op[1], d)
                if src is not None:
                    ents = self.sub(d, src)
                    if op[0] == "p" and (src, "c") not in d:
                        pass
                    ents = [(s, kk, v) for s, kk, v in ents if kk not in ("cp", "p", "discr")]
                    if self.rule.label_prefix and len(src) > 1:
                        pl = self.prefix_label(src, d)
                        if pl is not None and not any(s == () and kk == "l" for s, kk, v in ents):
                            ents.append(((), "l", pl))
                    tmp.append((i, ents))
        base = dst
        self.kill(d, dst)
        if kind[0] == "adt":
            a = self.p.adts.get(kind[1])
            isenum = (kind[1] in STD_VARIANTS) or (a is not None and a["k"] == "enum") or (
                a is None and kind[2] != kind[1].rsplit("::", 1)[1])
            if isenum:
                d[(dst, "v")] = kind[2]
                base = dst + (("d", kind[2]),)
        for i, ents in tmp:
            for s, kk, v in ents:
                d[(base + (("f", i),) + s, kk)] = v
        for op in ops:
            if op[0] == "m":
                src = self.key(op[1], d)
                if src is not None and not is_prefix(src, dst) and not is_prefix(dst, src):
                    for s, kk, v in self.sub(d, src):
                        d.pop((src + s, kk), None)

    # ------------------------------------------------------------------ switch
    def switch(self, inst, bb, t, q, d):
        op = t[1]
        listed, other = t[2], t[3]
        body = inst.body
        dead_other = body.blocks[other]["t"][0] == "unreachable" and not body.blocks[other]["s"]
        res = []
        if op[0] == "c":
            v = self.constval(op)
            for val, b in listed:
                if _sw_eq(v, val):
                    return [(b, d, q)]
            return [(other, d, q)]
        k = self.key(op[1], d)
        if k is None:
            return [(b, dict(d), q) for _, b in listed] + ([] if dead_other else [(other, dict(d), q)])
        dc = d.get((k, "discr"))
        if dc is not None:
            src, adt = dc
            names = self.variants_of(adt) if adt else {}
            used = []
            for val, b in listed:
                n = names.get(val, f"#{val}")
                used.append(n)
                nd = dict(d)
                if self.refine_var(nd, src, n, True):
                    q2 = None if q is None else self.rule.edge(self, inst, bb, src, n, q, nd)
                    res.append((b, nd, q2))
            if not dead_other:
                left = [n for n in names.values() if n not in used]
                nd = dict(d)
                ok = self.refine_var(nd, src, tuple(used), False)
                if ok and names and not left:
                    ok = False
                if ok:
                    no = nd.get((src, "nv"), ())
                    left = [n for n in left if n not in no]
                    if names and not left:
                        ok = False
                    elif len(left) == 1:
                        nd[(src, "v")] = left[0]
                        nd.pop((src, "nv"), None)
                if ok:
                    q2 = None if q is None else self.rule.edge(self, inst, bb, src, nd.get((src, "v")), q, nd)
                    res.append((other, nd, q2))
            return res
        ty = self.place_ty(inst, op[1])
        if ty == ("p", "bool"):
            for val, b in listed:
                nd = dict(d)
                if self.refine_bool(nd, k, bool(val)):
                    q2 = None if q is None else self.rule.edge(self, inst, bb, k, bool(val), q, nd)
                    res.append((b, nd, q2))
            vals = {bool(v) for v, _ in listed}
            for tv in (True, False):
                if tv not in vals and not dead_other:
                    nd = dict(d)
                    if self.refine_bool(nd, k, tv):
                        q2 = None if q is None else self.rule.edge(self, inst, bb, k, tv, q, nd)
                        res.append((other, nd, q2))
            return res
        c = d.get((k, "c"))
        if c is not None and isinstance(c, int) and not isinstance(c, bool):
            for val, b in listed:
                if _sw_eq(c, val):
                    return [(b, d, q)]
            return [(other, d, q)]
        for val, b in listed:
            res.append((b, dict(d), None if q is None else self.rule.edge(self, inst, bb, k, ("int", val), q, d)))
        if not dead_other:
            res.append((other, dict(d), None if q is None else self.rule.edge(self, inst, bb, k, ("other", tuple(v for v, _ in listed)), q, d)))
        return res

    # ------------------------------------------------------------------ calls
    def do_call(self, inst, c, q, d):
        self.ncalls += 1
        dst = self.key(c.dest, d)
        r = self.rule.call(self, c, q, d) if q is not None else None
        if r is not None:
            outs = []
            follow = False
            for item in r:
                if item[0] == "follow":
                    q = item[1]
                    follow = True
                    continue
                if item[0] == "state":
                    nd = dict(item[2])
                    self.havoc_args(c, nd)
                    self.move_args(c, nd)
                    if dst is not None:
                        self.kill(nd, dst)
                        for (sk, kind), v in (item[3] if len(item) > 3 else {}).items():
                            nd[(dst + sk, kind)] = v
                    outs.append((item[1], nd))
                    continue
                q2, facts = item[0], item[1]
                nd = dict(d)
                self.havoc_args(c, nd)
                self.move_args(c, nd)
                if dst is not None:
                    self.kill(nd, dst)
                    for (sk, kind), v in facts.items():
                        nd[(dst + sk, kind)] = v
                if len(item) > 2:
                    for (k2, kind), v in item[2].items():
                        nd[(k2, kind)] = v
                outs.append((q2, nd))
            self.events += 1
            if not follow:
                return outs
            return outs + self.default_call(inst, c, q, d, dst)
        return self.default_call(inst, c, q, d, dst)

    def default_call(self, inst, c, q, d, dst):
        if c.targets and (c.declared or "") in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") and all(t.body.derived for t in c.targets) and \
                not any(self.relevant(t) for t in c.targets):
            from . import stdmodel
            return dedupe(stdmodel.MODELS[c.declared](self, inst, c, q, d, dst))
        if c.targets and not self.rule.opaque(c):
            outs = []
            for t in c.targets:
                if self.relevant(t) or self.small(t, c):
                    rel = self.relevant(t)
                    args = c.args
                    if c.kind == "fncall":
                        args = ("fncall", c.args)
                    for q2, d2 in self.descend(inst, c, t, args, q, d, dst, rel):
                        outs.append((self.rule.after(self, c, q, q2, d2) if rel else q2, d2))
                else:
                    nd = dict(d)
                    lbl = self.labels(c.args[0], nd) if c.args and (c.declared in CONVERSIONS or c.declared in self.rule.label_pass or c.name in self.rule.label_pass) else None
                    self.havoc_args(c, nd)
                    self.move_args(c, nd)
                    if dst is not None:
                        self.kill(nd, dst)
                        if lbl is not None:
                            nd[(dst, "l")] = lbl
                    outs.append((q, nd))
            return dedupe(outs)
        from . import stdmodel
        mod = stdmodel.MODELS.get(c.name) or stdmodel.MODELS.get(c.declared)
        if mod is not None:
            r = mod(self, inst, c, q, d, dst)
            if r is not None:
                return dedupe(r)
        # external: closures run 0..n times
        nd = dict(d)
        states = [(q, nd)]
        if c.closures and not self.rule.opaque(c):
            rel = [t for t in c.closures if self.relevant(t)]
            mode = self.rule.spawn(self, c, q)
            if rel and mode == "many" and last_name(c) in AT_MOST_ONCE:
                states = [(q, nd)]
                for t in rel:
                    states += self.run_closure(inst, c, t, None, q, nd)
                mode = "maybe"
            if rel and mode == "once":
                states = []
                for t in rel:
                    states += self.run_closure(inst, c, t, None, q, nd)
            if rel and mode == "many":
                seen = {(q, frozenset(nd.items()))}
                out = [(q, nd)]
                work = [(q, nd)]
                while work:
                    q1, d1 = work.pop()
                    for t in rel:
                        for q2, d2 in self.run_closure(inst, c, t, None, q1, d1):
                            kk = (q2, frozenset(d2.items()))
                            if kk not in seen:
                                seen.add(kk)
                                out.append((q2, d2))
                                work.append((q2, d2))
                states = out
        outs = []
        for q1, d1 in states:
            lbl = None
            if c.args and (c.name in self.rule.label_pass or c.declared in self.rule.label_pass or
                           c.name.rsplit("::", 1)[-1] in VIEWS):
                lbl = self.labels(c.args[0], d1)
            self.havoc_args(c, d1)
            self.move_args(c, d1)
            if dst is not None:
                self.kill(d1, dst)
                if lbl is not None:
                    d1[(dst, "l")] = lbl
            outs.append((q1, d1))
        return dedupe(outs)

    def small(self, t, c):
        """Follow event-free helpers whose result can matter to path feasibility (bool / enum results)."""
        if len(t.body.blocks) > 40 or len(self.stack) > 40 or t in self.stack:
            return False
        rt = self.p.mkty(t.body.crate, t.body.locals[0], t.env or None)
        while rt[0] == "ref":
            rt = rt[2]
        if rt == ("p", "bool"):
            return True
        if rt[0] == "adt":
            if rt[1] in STD_VARIANTS:
                return True
            a = self.p.adts.get(rt[1])
            return a is not None and a["k"] == "enum"
        return False

    def labels(self, op, d):
        """Rule label of an operand, looking through references."""
        if op[0] == "c":
            return None
        k = self.key(op[1], d)
        return self.label_at(k, d)

    def label_at(self, k, d):
        if self.rule.label_prefix:
            x = k
            n = 0
            while x is not None and n < 6:
                for i in range(len(x), 0, -1):
                    l = d.get((x[:i], "l"))
                    if l is not None:
                        return l
                r = None
                for i in range(len(x), 0, -1):
                    r = d.get((x[:i], "r"))
                    if r is not None:
                        break
                if r is None:
                    break
                x = r[0]
                n += 1
        n = 0
        while k is not None and n < 6:
            for x in (k, k + ("*",), k[:-1] if k[-1] == "*" else None):
                l = d.get((x, "l"))
                if l is not None:
                    return l
            r = d.get((k, "r"))
            k = r[0] if r is not None else None
            n += 1
        return None

    def val_of(self, op, d, kind="v"):
        if op[0] == "c":
            return self.constval(op) if kind == "c" else None
        k = self.key(op[1], d)
        n = 0
        while k is not None and n < 6:
            v = d.get((k, kind))
            if v is not None:
                return v
            r = d.get((k, "r"))
            k = r[0] if r else None
            n += 1
        return None

    def havoc_args(self, c, d):
        """An unfollowed callee may change whatever is reachable through &mut arguments (or captured ones)."""
        for a in c.args:
            if a[0] == "c":
                continue
            k = self.key(a[1], d)
            if k is not None:
                self.havoc(k, d, 0)

    def havoc(self, k, d, depth):
        if depth > 4:
            return
        n = len(k)
        for e, v in [(e, v) for e, v in d.items() if e[1] == "r" and e[0][:n] == k]:
            tgt, mut = v
            if mut:
                for e2 in [x for x in d if x[0][:len(tgt)] == tgt and x[1] != "r"]:
                    if x_is_label(e2):
                        continue
                    d.pop(e2, None)
                rm = [x for x, vv in d.items() if x[1] in ("p", "cp", "discr") and _mentions(vv, tgt, x[1])]
                for x in rm:
                    d.pop(x, None)
            self.havoc(tgt, d, depth + 1)

    def move_args(self, c, d):
        for a in c.args:
            if a[0] == "m":
                k = self.key(a[1], d)
                if k is not None and len(k) == 1:
                    self.kill(d, k)

    # import facts of caller place ck under callee key kk
    def bring(self, d, ck, kk, out, pairs, depth, mut=True):
        n = len(ck)
        for e, v in list(d.items()):
            if e[0][:n] != ck:
                continue
            kind = e[1]
            if kind in ("v", "nv", "l") or kind == "c" and (isinstance(v, bool) or self.keep_const(v)):
                nk = kk + e[0][n:]
                if len(nk) < 12:
                    out[(nk, kind)] = v
            elif kind == "r" and depth < 4:
                tgt, m = v
                nk = kk + e[0][n:] + ("*",)
                if len(nk) < 12:
                    pairs.append((tgt, nk, m and mut))
                    self.bring(d, tgt, nk, out, pairs, depth + 1, m and mut)
                    if tgt[-1] == "*" and (nk, "c") not in out and isinstance(d.get((tgt[:-1], "c")), str) and self.keep_const(""):
                        out[(nk, "c")] = d[(tgt[:-1], "c")]     # a text constant, known under the reference to it
                    if (nk, "l") not in out:     # what an owner (PathBuf, Box, ...) derefs to; a part of what is labelled
                        for i in range(len(tgt) - 1, 0, -1):
                            if i < len(tgt) - (tgt[-1] == "*") and not self.rule.label_prefix:
                                break
                            if (tgt[:i], "l") in d:
                                out[(nk, "l")] = d[(tgt[:i], "l")]
                                break

    def keep_const(self, v):
        return getattr(self.rule, "track_consts", False)

    def arg_keys(self, inst, c, args, t, d):
        """(caller key or const operand) for each callee parameter, with FnOnce/FnMut argument tupling undone."""
        ops = []
        if isinstance(args, tuple) and args[0] == "fncall":
            argl = args[1]
            ops.append(argl[0])
            isclosure = t.body.kind == "Closure" or "{closure" in t.body.name.rsplit("::", 1)[-1]
            if not isclosure:
                ops = []
            if len(argl) > 1:
                tup = argl[1]
                nargs = t.body.argc - len(ops)
                if tup[0] != "c":
                    for i in range(nargs):
                        ops.append([tup[0], tup[1] + [["f", i, str(i), ""]]])
            return ops
        return list(args)

    def descend(self, inst, c, t, args, q, d, dst, rel=True):
        ops = self.arg_keys(inst, c, args, t, d)
        nd = {}
        pairs = []
        isclosure = "{closure" in t.body.name.rsplit("::", 1)[-1]
        for i, op in enumerate(ops[:t.body.argc]):
            ck = (i + 1,)
            if op[0] == "c":
                v = self.constval(op)
                if isinstance(v, bool) or (v is not None and self.keep_const(v)):
                    nd[(ck, "c")] = v
                continue
            k = self.key(op[1], d)
            if k is None:
                continue
            if i == 0 and isclosure and isinstance(args, tuple):
                # closure passed by value or by reference: the body takes it by value or by reference
                src = k
                r = d.get((k, "r"))
                if r is not None:
                    src = r[0]
                ty = t.body.local_ty(1)
                tgt = ck + ("*",) if ty["k"] == "ref" else ck
                pairs.append((src, tgt, True))
                self.bring(d, src, tgt, nd, pairs, 0)
                continue
            self.bring(d, k, ck, nd, pairs, 0)
        res = self.solve(t, self.rule.enter(self, c, q) if rel and q is not None else None, frozenset(nd.items()))
        outs = []
        for (q2, facts) in list(res):
            d2 = dict(d)
            if rel and q is not None and q2 is not None:
                q2 = self.rule.leave(self, c, q, q2)
            for tgt, nk, mut in pairs:
                if mut:
                    self.drop_facts(d2, tgt)
                    for (fk, kind), v in facts:
                        if fk[:len(nk)] == nk and kind != "r":
                            d2[(tgt + fk[len(nk):], kind)] = v
            if not (isinstance(args, tuple)):
                self.move_args(c, d2)
            if dst is not None:
                self.kill(d2, dst)
                for (fk, kind), v in facts:
                    if fk[0] == 0:
                        if kind == "r":
                            # reference to something behind a parameter
                            m = self.translate(v[0], pairs, ops, d)
                            if m is not None:
                                d2[(dst + fk[1:], "r")] = (m, v[1])
                        else:
                            d2[(dst + fk[1:], kind)] = v
            outs.append((q2 if rel else q, d2))
        return outs

    def translate(self, key, pairs, ops, d):
        best = None
        for tgt, nk, mut in pairs:
            if key[:len(nk)] == nk and (best is None or len(nk) > len(best[1])):
                best = (tgt, nk)
        if best is not None:
            return best[0] + key[len(best[1]):]
        i = key[0] - 1
        if 0 <= i < len(ops) and ops[i][0] != "c":
            k = self.key(ops[i][1], d)
            if k is not None:
                return k + key[1:]
        return None

    @staticmethod
    def drop_facts(d, k):
        n = len(k)
        for e in [e for e in d if e[0][:n] == k and e[1] not in ("r",)]:
            del d[e]
        for e in [e for e, v in d.items() if e[1] in ("p", "cp", "discr") and _mentions(v, k, e[1])]:
            del d[e]

    def run_closure(self, inst, c, t, argfacts, q, d, closure_op=None):
        """Run closure inst t (passed as an argument of call c). argfacts: list of {(subkey,kind):v} per parameter.
        Yields (q, env)."""
        outs = []
        for q2, d2, facts in self.run_closure_ret(inst, c, t, argfacts, q, d):
            outs.append((q2, d2))
        return dedupe(outs)

    def run_closure_ret(self, inst, c, t, argfacts, q, d, clokey=None):
        nd, pairs = {}, []
        isclosure = "{closure" in t.body.name.rsplit("::", 1)[-1]
        base = 1
        if isclosure:
            base = 2
            for a in c.args if clokey is None else [clokey]:
                if a[0] == "c":
                    continue
                ty = self.place_ty(inst, a[1]) if clokey is None else None
                if clokey is not None or ty is not None and peel(ty)[0] == "closure" and peel(ty)[1] == t.body.uid:
                    k = self.key(a[1], d) if clokey is None else clokey
                    if k is None:
                        continue
                    r = d.get((k, "r"))
                    src = r[0] if r else k
                    lt = t.body.local_ty(1)
                    tgt = (1, "*") if lt["k"] == "ref" else (1,)
                    pairs.append((src, tgt, True))
                    self.bring(d, src, tgt, nd, pairs, 0)
        refs = []
        if argfacts:
            for i, fs in enumerate(argfacts):
                if i + base > t.body.argc or fs is None:
                    continue
                for (sk, kind), v in fs.items():
                    if kind == "r":
                        nk = (base + i,) + sk + ("*",)
                        pairs.append((v[0], nk, v[1]))
                        self.bring(d, v[0], nk, nd, pairs, 1, v[1])
                    else:
                        nd[((base + i,) + sk, kind)] = v
        rel = self.relevant(t)
        res = self.solve(t, q if rel else None, frozenset(nd.items()))
        outs = []
        for (q2, facts) in list(res):
            d2 = dict(d)
            for tgt, nk, mut in pairs:
                if mut:
                    self.drop_facts(d2, tgt)
                    for (fk, kind), v in facts:
                        if fk[:len(nk)] == nk and kind != "r":
                            d2[(tgt + fk[len(nk):], kind)] = v
            rf = {(fk[1:], kind): v for (fk, kind), v in facts if fk[0] == 0 and kind != "r"}
            outs.append((q2 if rel else q, d2, rf))
        return outs


AT_MOST_ONCE = ("or_insert_with", "or_insert_with_key", "and_modify", "get_or_insert_with")


def last_name(c):
    return (c.declared or c.name or "").rsplit("::", 1)[-1]


def x_is_label(e):
    return e[1] == "l"


def dedupe(outs):
    if len(outs) < 2:
        return outs
    seen = {}
    for q, d in outs:
        seen.setdefault((q, frozenset(d.items())), (q, d))
    return list(seen.values())


def _mentions(v, k, kind):
    if kind == "p":
        t = v[1]
    elif kind == "cp":
        t = v
    else:
        t = v[0]
    return t[:len(k)] == k


def _sw_eq(v, val):
    if isinstance(v, bool):
        return int(v) == val
    return v == val


def compute_liveness(body):
    """(live-in locals per block, locals whose address is taken)."""
    n = len(body.blocks)
    use = [set() for _ in range(n)]
    deff = [set() for _ in range(n)]
    addr = set()

    def use_place(u, dset, p):
        if p[0] not in dset:
            u.add(p[0])
        for e in p[1:]:
            if isinstance(e, list) and e[0] == "i" and e[1] not in dset:
                u.add(e[1])

    def use_op(u, dset, o):
        if o[0] in ("p", "m"):
            use_place(u, dset, o[1])

    def rv_ops(rv):
        k = rv[0]
        if k == "agg":
            return rv[2]
        return [x for x in rv[1:] if isinstance(x, list) and len(x) >= 2 and x[0] in ("p", "m", "c")]

    for bi in range(n):
        u, ds = use[bi], deff[bi]
        for s in body.blocks[bi]["s"]:
            if s[0] == "=":
                rv = s[2]
                if rv[0] in ("ref", "raw"):
                    use_place(u, ds, rv[2])
                    if not any(e == "*" for e in rv[2][1:]):
                        addr.add(rv[2][0])
                elif rv[0] in ("discr", "len"):
                    use_place(u, ds, rv[1])
                else:
                    for o in rv_ops(rv):
                        use_op(u, ds, o)
                if len(s[1]) == 1:
                    ds.add(s[1][0])
                else:
                    use_place(u, ds, s[1])
            elif s[0] == "dead":
                ds.add(s[1])
        t = body.blocks[bi]["t"]
        if t[0] == "call":
            if "op" in t[1]:
                use_op(u, ds, t[1]["op"])
            for a in t[2]:
                use_op(u, ds, a)
            if len(t[3]) > 1:
                use_place(u, ds, t[3])
        elif t[0] == "switch":
            use_op(u, ds, t[1])
        elif t[0] == "drop":
            use_place(u, ds, t[1])
        elif t[0] == "assert":
            use_op(u, ds, t[1])
        elif t[0] == "ret":
            for l in range(0, body.argc + 1):
                u.add(l)
    live = [set(u) for u in use]
    preds = defaultdict(list)
    for bi in range(n):
        for s in succs_of(body.blocks[bi]["t"]):
            preds[s].append(bi)
    work = deque(range(n))
    while work:
        b = work.popleft()
        out = set()
        for s in succs_of(body.blocks[b]["t"]):
            out |= live[s]
        t = body.blocks[b]["t"]
        if t[0] == "call" and len(t[3]) == 1:
            out.discard(t[3][0])
        nw = use[b] | (out - deff[b])
        if nw != live[b]:
            live[b] = nw
            for p in preds[b]:
                work.append(p)
    # discriminant / predicate facts keep their source alive through addr (conservative)
    return live, addr
