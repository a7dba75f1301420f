"""P07: whatever a peer's message names or contains, handling it does not panic."""
from ..esp import Machine, Rule
from ..lib import *
from .edit_flow import handlers, is_engine

OPTP = {"Option": ("Some", "None"), "Result": ("Ok", "Err")}
MAPS = ("HashMap", "BTreeMap", "HashSet", "BTreeSet", "Map", "IndexMap")
LOOK = ("get", "get_mut", "remove", "take", "get_key_value", "entry_get", "remove_entry", "get_full")
HAS = ("contains_key", "contains")
SEARCH = ("find", "position", "find_map", "rposition", "any", "all")
FIRST = ("first", "last", "pop", "next", "next_back", "split_first", "split_last", "max", "min", "nth", "peek")
CRATES = ("xi_core_lib", "xi_rpc", "xi_plugin_lib")


def strip(t):
    while t is not None and t[0] == "ref":
        t = t[2]
    return t


def outcome(c):
    t = dest_ty(c)
    return OPTP.get(last(t[1])) if t is not None and t[0] == "adt" else None


def is_value(t):
    t = strip(t)
    return t is not None and t[0] == "adt" and t[1] == "serde_json::value::Value"


class Peer(Rule):
    label_prefix = True
    track_consts = True
    label_pass = {"core::iter::traits::collect::IntoIterator::into_iter", "core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "core::iter::traits::iterator::Iterator::cloned",
                  "alloc::string::ToString::to_string", "core::convert::Into::into", "core::convert::From::from", "alloc::str::to_lowercase", "core::iter::traits::iterator::Iterator::rev",
                  "alloc::vec::Vec::as_slice", "core::slice::iter", "core::iter::traits::iterator::Iterator::enumerate"}

    def __init__(self):
        self.regions = {}
        self.n = dict.fromkeys(("lookups", "searches", "conversions", "unwraps", "panics"), 0)

    def table(self, c):
        t = strip(arg_ty(c, 0))
        if t is None or t[0] != "adt" or last(t[1]) not in MAPS or len(t) < 3 or not t[2]:
            return None
        n = last(c.declared or c.name)
        if n in LOOK or n in HAS or n in ("index", "insert", "entry"):
            return ("table", str(t[2][:2]) if last(t[1]) != "Map" else "json")
        return None

    def kind(self, c):
        n = last(c.declared or c.name)
        nm = c.name
        if n in ("unwrap", "expect") and arg_ty(c, 0) is not None and arg_ty(c, 0)[0] == "adt" and last(arg_ty(c, 0)[1]) in OPTP:
            return "unwrap"
        if nm.startswith(("core::panicking::", "std::panicking::", "std::rt::begin_panic", "std::rt::panic")) and c.term[4] is None:
            return "panic"
        if self.table(c):
            return "lookup"
        if n in SEARCH and trait_method(c, "Iterator", SEARCH):
            return "search"
        if is_value(arg_ty(c, 0)) and not n.startswith("to_") and (outcome(c) or n in ("index", "index_mut") or n.startswith("is_")):
            return "json"
        if nm.startswith("serde_json::") and n.startswith(("from_value", "from_str", "from_slice")):
            return "convert"
        if n in ("from_str", "parse", "try_from", "try_into", "deserialize") and outcome(c) and not c.targets:
            return "convert"
        if n in ("send_rpc_request",) and outcome(c):
            return "request"
        if n == "index" and not c.targets or n == "index_mut" and not c.targets:
            t = strip(arg_ty(c, 0))
            if t is not None and (t[0] == "slice" or t[0] == "adt" and last(t[1]) in ("Vec", "String")) or t == ("str",):
                return "index"
        if "Iterator::" in (c.declared or "") and c.closures and not c.targets or trait_method(c, "Iterator", ("next",)):
            return "iter"
        if n in FIRST and outcome(c) and not c.targets:
            return "first"
        if n in ("len", "is_empty") and not c.targets:
            return "len"
        if any("xi_rope::engine::Engine::" in t.body.name for t in c.targets):
            return "engine"
        return None

    def interesting(self, c):
        return c.inst.body.crate["crate"] in CRATES and self.kind(c) is not None

    def opaque(self, c):
        if "xi_trace" in c.name:
            return True
        return bool(c.targets) and all(t.body.crate["crate"] not in CRATES for t in c.targets)

    def interesting_stmt(self, body, s):
        return False

    def edge(self, m, inst, bb, key, variant, q, d):
        l = d.get((key, "l")) if key else None
        if variant in ("None", "Err"):
            near = l == "absent" or d.get((key + (("d", "Err"), ("f", 0)), "l")) == "absent"
        elif isinstance(variant, bool):
            near = l == "absent"
            if l == "peerlen":
                return (q[0] | {("len",)}, q[1])
        else:
            return q
        if near:
            return (q[0], (inst.body.uid, bb))
        return q

    def near(self, inst, bb, q):
        """Is block bb executed only because something was found absent?"""
        n = q[1]
        if not n:
            return False
        body = inst.body
        if n == "outer" or n[0] != body.uid:
            k = (body.uid, None)    # only what never returns: an assertion of the callee's own is not about what was absent
            if k not in self.regions:
                self.regions[k] = not any(body.blocks[x]["t"][0] == "ret" for x in self.reach(body, 0, None))
            return self.regions[k]
        if body.blocks[n[1]]["t"][0] != "switch":
            return False
        k = (body.uid, n[1])
        if k not in self.regions:
            t = body.blocks[n[1]]["t"]
            self.regions[k] = [self.reach(body, s, n[1]) for s in {x[1] for x in t[2]} | {t[3]} if s is not None and body.blocks[s]["t"][0] != "unreachable"]
        return sum(bb in r for r in self.regions[k]) == 1

    @staticmethod
    def reach(body, s, avoid):
        seen, st = set(), [s]
        while st:
            x = st.pop()
            if x not in seen and x != avoid:
                seen.add(x)
                st += body.succs(x)
        return seen

    def enter(self, m, c, q):
        return (q[0], "outer" if self.near(c.inst, c.bb, q) else None)

    def leave(self, m, c, q0, q):
        return (q[0], q0[1])

    def made(self, m, inst, bb, s, q, d):
        if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and q[1] and self.near(inst, bb, q):
            k = m.key(s[1], d)
            if k is not None and d.get((k, "v")) in ("None", "Err"):
                d.setdefault((k, "l"), "absent")

    def fnitem(self, m, c, name, facts, q, d):
        if name.startswith("serde_json::") and last(name).startswith(("from_value", "from_str", "from_slice")) and facts and (facts[0] or {}).get(((), "l")) == "peer":
            self.n["conversions"] += 1
            return [(q, {((), "v"): "Ok", ((("d", "Ok"), ("f", 0)), "l"): "peer"}), (q, {((), "v"): "Err", ((), "l"): "absent"})]
        return None

    def binop(self, m, inst, op, a, b, d):
        ls = (m.labels(a, d), m.labels(b, d))
        if "peer" in ls and op.startswith("Bit"):
            return ("l", "peer")
        if "peerlen" in ls and op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return ("l", "peerlen")
        return None

    @staticmethod
    def stored(c):
        """Iteration over identifiers of views put aside earlier; the views may be gone by now."""
        t = strip(arg_ty(c, 0))
        return t is not None and t[0] == "adt" and last(t[1]) in ("Iter", "IntoIter", "Drain") and ("slice" in t[1] or "vec" in t[1]) and has_adt(t, "ViewId") \
            and not has_adt(t, "View")

    @staticmethod
    def sent(c):
        """Iteration over answers of peers, or over spans of numbers plugins sent."""
        t = strip(arg_ty(c, 0))
        if t is None or t[0] != "adt":
            return False
        if last(t[1]) == "SpanIter":
            return t[2][-1] == ("p", "u32")
        return any(mentions(x, lambda y: y[0] == "adt" and last(y[1]) == "Result" and is_value(y[2][0]) and str(y[2][1]).find("xi_rpc::error::Error") >= 0) for x in t[2])

    def known(self, q, key):
        for k in q[0]:
            if len(k) == 2 and k[0] == key:
                return k[1]
        return None

    def fork(self, m, c, q, key, label=None):
        out = []
        t = outcome(c)
        had = self.known(q, key) if key else None
        for v in (True, False):
            if had is not None and had != v:
                continue
            known = q[0] | {(key, v)} if key else q[0]
            if t is None:     # bool
                out.append(((known, q[1]), {((), "c"): v, **({} if v else {((), "l"): "absent"})}))
            else:
                n = t[0] if v else t[1]
                f = {((), "v"): n}
                if not v:
                    f[((), "l")] = "absent"
                    if n == "Err":
                        f[((("d", "Err"), ("f", 0)), "l")] = "absent"
                elif label:
                    f[((("d", n), ("f", 0)), "l")] = label
                out.append(((known, q[1]), f))
        return out

    def captured(self, m, c, d):
        """Labels of what the closure arguments capture."""
        out = set()
        for a in c.args[1:]:
            if a[0] == "c":
                continue
            k = m.key(a[1], d)
            out.add(m.label_at(k, d))
            for (kk, kind), v in list(d.items()):
                if kk[:len(k)] == k and len(kk) > len(k) and kind in ("l", "r"):
                    out.add(v if kind == "l" else m.label_at(v[0], d))
        return out

    def call(self, m, c, q, d):
        k = self.kind(c)
        if k is None:
            return None
        n = last(c.declared or c.name)
        ls = [m.labels(a, d) for a in c.args]
        b = c.inst.body

        def bad(key, msg):
            m.report(f"{key}:{b.name}", msg, b, c.line)
        if k == "unwrap":
            self.n["unwraps"] += 1
            kk = m.opkey(c.args[0], d)
            v = d.get((kk, "v")) if kk else None
            l = kk and (d.get((kk, "l")) == "absent" or d.get((kk + (("d", "Err"), ("f", 0)), "l")) == "absent")
            if v in ("None", "Err") and l:
                bad("unwrap", "a message naming something unknown, or of an unexpected form, makes this panic")
            return None
        if k == "panic":
            self.n["panics"] += 1
            if self.near(c.inst, c.bb, q):
                bad("panic", "a message naming something unknown, or of an unexpected form, reaches this panic")
            return None
        if k == "lookup":
            key = self.table(c)
            peer = len(ls) > 1 and ls[1] == "peer"
            if key[1] == "json":
                cv = const_arg(c, 1)
                if ls[0] != "peer" or cv is None:
                    return None
                key, peer = ("json", str(cv)), True
            if not peer:
                return None
            self.n["lookups"] += 1
            if n in ("insert", "entry"):
                t = strip(arg_ty(c, 0))
                if key[0] == "json" or n == "entry":
                    return None
                return [((frozenset(x for x in q[0] if x[0] != key) | {(key, True)}, q[1]), {})]
            if n == "index":
                if self.known(q, key) is not True:
                    bad("index", "a table is indexed by something a peer named without checking that it is there")
                return None
            out = self.fork(m, c, q, key, "peer" if key[0] == "json" else None)
            if n in ("remove", "take", "remove_entry"):
                out = [((frozenset(x for x in a[0] if x[0] != key), a[1]), f) for a, f in out]
            return out
        if k == "search":
            if "peer" not in self.captured(m, c, d):
                return None
            self.n["searches"] += 1
            if n == "all":
                return None
            item = str(arg_ty(c, 0))
            it = dest_ty(c)
            key = None
            if n in ("any", "find", "position", "rposition"):
                key = ("search", str(sorted(t.body.uid for t in c.closures)))
            return self.fork(m, c, q, key)
        if k == "json":
            if ls[0] != "peer":
                return None
            self.n["conversions"] += 1
            if n == "index_mut":
                bad("json-index", "a value a peer sent is indexed for writing without knowing that it is an object")
                return None
            cv = const_arg(c, 1) if len(c.args) > 1 else None
            if n == "index":
                return [(q, {((), "l"): "peer"})]
            key = ("json", str(cv)) if cv is not None else ("json-is", n.replace("as_", "").replace("is_", "").replace("_mut", ""))
            return self.fork(m, c, q, key if cv is not None or "obj" in n else None, "peer")
        if k == "convert":
            if not ls or ls[0] not in ("peer",):
                if last(b.name) == "deserialize" and n == "deserialize":
                    return self.fork(m, c, q, None, "peer")
                return None
            self.n["conversions"] += 1
            return self.fork(m, c, q, None, "peer")
        if k == "request":
            return self.fork(m, c, q, None, "peer")
        if k == "taint":
            return [(q, {((), "l"): "peer"})]
        if k == "index":
            if "peer" not in ls:
                return None
            self.n["lookups"] += 1
            if ("len",) not in q[0]:
                bad("vec-index", "something a peer sent is used as, or accessed by, an index without a check")
            return None
        if k == "iter":
            if not (ls and ls[0] == "peer" or self.stored(c) or self.sent(c)):
                return None
            item = {((), "l"): "peer"}
            if n == "next":
                return [(q, {((), "v"): "Some", ((("d", "Some"), ("f", 0)), "l"): "peer"}), (q, {((), "v"): "None"})]
            outs, seen, work = [], set(), [(q, dict(d))]
            while work:
                q1, d1 = work.pop()
                x = (q1, frozenset(d1.items()))
                if x in seen:
                    continue
                seen.add(x)
                outs.append(("state", q1, d1, item))
                for t in c.closures:
                    if m.relevant(t):
                        for q2, d2, _ in m.run_closure_ret(c.inst, c, t, [item, item], q1, d1):
                            work.append((q2, d2))
            return outs
        if k == "first":
            if not ls or ls[0] != "peer":
                return None
            return self.fork(m, c, q, None, "peer")
        if k == "len":
            if ls and ls[0] == "peer":
                if n == "is_empty":
                    return [((q[0] | {("len",)}, q[1]), {((), "c"): v}) for v in (True, False)]
                return [(q, {((), "l"): "peerlen"})]
            return None
        if k == "engine":
            if outcome(c) and "peer" in ls:
                self.n["lookups"] += 1
                return self.fork(m, c, q, ("engine", n))
            return None
        return None


def roots(ctx):
    out = []
    for h in handlers(ctx):
        n = last(h.body.name)
        if n == "plugin_connect":
            continue
        out.append((h, [i for i in range(2, h.body.argc + 1) if "RpcCtx" not in str(ctx.p.mkty(h.body.crate, h.body.locals[i]))]))
    for b in ctx.p.bodies.values():
        if ctx.tests(b) or b.crate["crate"] not in CRATES + ("xi_rope",) or b.derived or "_IMPL_DESERIALIZE_FOR_" in b.name:
            continue
        n = last(b.name)
        if n in ("deserialize",) and "Deserialize" in b.name and "{closure" not in b.name:
            out.append((Inst(b), []))
        if b.name.startswith("xi_rpc::parse::RpcObject::") and "{closure" not in b.name:
            out.append((Inst(b), [1]))
    return out


def run(ctx):
    rule = Peer()
    rule.ctx = ctx
    nd = 0
    for h, params in roots(ctx):
        env = {}
        for i in params:
            ref = ctx.p.mkty(h.body.crate, h.body.locals[i])[0] == "ref"
            env[((i, "*") if ref else (i,), "l")] = "peer"
        q0 = (frozenset({(("json-is", "object"), True)}) if "RpcObject" in h.body.name else frozenset(), None)
        m = Machine(ctx.p, ctx.r, rule)
        m.run(h, q0, env)
        nd += "deserialize" in h.body.name
        ctx.oblige("root", f"{h.body.name}: {m.ncalls} calls interpreted")
        ctx.take(m, "peer")
    ctx.expect(nd >= 4, "anchor", f"{nd} hand-written conversions of messages", "anchor:deserialize")
    for what, n in rule.n.items():
        ctx.expect(n >= 1 or what == "panics", "anchor", f"{n} {what} interpreted", f"anchor:{what}")
