"""Program model over the driver's facts: bodies, types, call resolution (with closure/type-parameter
substitution), control-flow helpers."""
import json
import os
from collections import defaultdict


class Body:
    __slots__ = ("prog", "crate", "uid", "name", "file", "line", "argc", "kind", "generics", "parent", "root", "derived",
                 "pub", "unsafe", "locals", "dbg", "blocks", "promoted", "_preds", "_names", "_defs", "_uses", "_dom",
                 "_live", "types", "defs", "_cap", "_reach")

    def __init__(self, prog, crate, j):
        self.prog = prog
        self.crate = crate
        self.types = crate["types"]
        self.defs = crate["defs"]
        d = crate["defs"][j["d"]]
        self.uid = d["id"]
        self.name = d["name"]
        self.promoted = j.get("promoted")
        self.file = crate["files"][j["file"]]
        self.line = j["line"]
        self.argc = j["argc"]
        self.kind = j["kind"]
        self.generics = {i: n for i, n in j["generics"]}
        self.parent = crate["defs"][j["parent"]]["id"] if "parent" in j else None
        self.root = crate["defs"][j["root"]]["id"] if "root" in j else self.uid
        self.derived = bool(j.get("derived"))
        self.pub = bool(j.get("pub"))
        self.unsafe = bool(j.get("unsafe"))
        self.locals = j["locals"]
        self.dbg = j["dbg"]
        self.blocks = j["blocks"]
        self._preds = self._names = self._defs = self._uses = self._dom = self._live = self._cap = self._reach = None

    def __repr__(self):
        return f"<Body {self.name}>"

    # ---- types
    def ty(self, i):
        return self.types[i]

    def local_ty(self, l):
        return self.types[self.locals[l]]

    def lname(self, l):
        if self._names is None:
            self._names = {}
            for n, p in self.dbg:
                if len(p) == 1:
                    self._names.setdefault(p[0], n)
        return self._names.get(l)

    def succs(self, b, cleanup=False):
        return [s for s in succs_of(self.blocks[b]["t"], cleanup)]

    @property
    def reach(self):
        """Blocks reachable from entry without unwinding."""
        if self._reach is None:
            seen, st = {0}, [0]
            while st:
                b = st.pop()
                for s in self.succs(b):
                    if s not in seen:
                        seen.add(s)
                        st.append(s)
            self._reach = seen
        return self._reach

    @property
    def preds(self):
        if self._preds is None:
            self._preds = defaultdict(list)
            for b in self.reach:
                for s in self.succs(b):
                    self._preds[s].append(b)
        return self._preds

    def dominators(self):
        if self._dom is None:
            order = sorted(self.reach)
            allb = set(order)
            dom = {b: set(allb) for b in order}
            dom[0] = {0}
            ch = True
            while ch:
                ch = False
                for b in order:
                    if b == 0:
                        continue
                    ps = [dom[p] for p in self.preds[b]]
                    n = set.intersection(*ps) if ps else set()
                    n = n | {b}
                    if n != dom[b]:
                        dom[b] = n
                        ch = True
            self._dom = dom
        return self._dom

    @property
    def assigns(self):
        """local -> list of (bb, idx, rvalue or ('call', term)) for whole-local assignments; partial writes under
        key ('part', local)."""
        if self._defs is None:
            d = defaultdict(list)
            for bi, b in enumerate(self.blocks):
                for si, s in enumerate(b["s"]):
                    if s[0] == "=":
                        p = s[1]
                        (d[p[0]] if len(p) == 1 else d[("part", p[0])]).append((bi, si, s[2]))
                    elif s[0] == "sd":
                        d[("part", s[1][0])].append((bi, si, ["sd", s[2]]))
                t = b["t"]
                if t[0] == "call":
                    p = t[3]
                    (d[p[0]] if len(p) == 1 else d[("part", p[0])]).append((bi, None, ["call", t]))
            self._defs = d
        return self._defs

    def loc(self, line):
        return f"{self.file}:{line}"


def succs_of(t, cleanup=False):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        r = [t[3]]
        if cleanup and t[4] is not None:
            r.append(t[4])
        return r
    if k == "assert":
        r = [t[4]]
        if cleanup and t[5] is not None:
            r.append(t[5])
        return r
    if k == "call":
        r = [] if t[4] is None else [t[4]]
        if cleanup and t[5] is not None:
            r.append(t[5])
        return r
    return []


class Ty:
    """Concrete types in the analysis: nested tuples, interned by value.
    ('adt', name, args) ('ref', mut, t) ('closure', uid, captured-env) ('fndef', uid, args) ('param', name, idx)
    ('dyn', name) ('tuple', args) ('slice', t) ('array', t) ('ptr', m, t) ('str',) ('p', name) ('never',) ('fnptr',)"""


class Program:
    def __init__(self, facts_dir):
        self.bodies = {}        # uid -> Body (not promoted)
        self.promoted = {}      # (uid, n) -> Body
        self.by_name = defaultdict(list)
        self.adts = {}
        self.enums = {}         # enums of other crates: {name: {discriminant: variant}}
        self.impls = []
        self.impl_by = defaultdict(list)   # trait -> [(self type, head, items)]
        self.traits = {}
        self.names = {}         # uid -> name
        self.def_info = {}
        self.unsafe = []
        self.crates = {}
        self.children = defaultdict(list)
        self._tycache = {}
        self._vn = None
        for f in sorted(os.listdir(facts_dir)):
            if not f.endswith(".json"):
                continue
            with open(f"{facts_dir}/{f}") as fh:
                c = json.load(fh)
            tag = f[:-5]
            self.crates[tag] = c
            if tag.endswith("-bin"):
                # a binary crate may share its crate name with a library: keep ids apart
                libtag = tag[:-4]
                if os.path.exists(f"{facts_dir}/{libtag}.json"):
                    pre = c["crate"]
                    for d in c["defs"]:
                        pass
            for d in c["defs"]:
                self.names.setdefault(d["id"], d["name"])
                self.def_info.setdefault(d["id"], d)
            for j in c["bodies"]:
                b = Body(self, c, j)
                if b.promoted is not None:
                    self.promoted[(b.uid, b.promoted)] = b
                    continue
                if b.uid in self.bodies:
                    continue
                self.bodies[b.uid] = b
                self.by_name[b.name].append(b)
                if b.parent:
                    self.children[b.parent].append(b)
            for n, vs in c.get("enums", ()):
                self.enums[n] = {i: v for i, v in vs}
            for a in c["adts"]:
                a["crate"] = c
                a["filename"] = c["files"][a["file"]]
                self.adts.setdefault(a["n"], a)
            for i in c["impls"]:
                i["crate"] = c
                self.impls.append(i)
                if i["trait"]:
                    self.impl_by[i["trait"]].append(i)
            for t in c["traits"]:
                self.traits[t["n"]] = {n: (c["defs"][d]["id"], dv) for n, d, dv in t["items"]}
            for fi, ln, mac in c["unsafe"]:
                self.unsafe.append((tag, c["files"][fi], ln, mac))

    # ---- lookups
    def fn(self, name):
        v = self.by_name.get(name)
        return v[0] if v else None

    def fns(self, pred):
        return [b for b in self.bodies.values() if pred(b)]

    # ---- types
    def mkty(self, crate, i, env=None):
        key = (id(crate), i)
        if not env:
            t = self._tycache.get(key)
            if t is not None:
                return t
        t = self._mk(crate, crate["types"][i], env)
        if not env:
            self._tycache[key] = t
        return t

    def _mk(self, c, t, env):
        k = t["k"]
        m = lambda i: self.mkty(c, i, env)
        if k == "adt":
            return ("adt", t["n"], tuple(m(i) for i in t["a"]))
        if k == "ref":
            return ("ref", t["m"], m(t["t"]))
        if k == "ptr":
            return ("ptr", t["m"], m(t["t"]))
        if k in ("slice", "array"):
            return (k, m(t["t"]))
        if k == "closure":
            uid = c["defs"][t["d"]]["id"]
            return ("closure", uid, _freeze(env, self, uid))
        if k == "fndef":
            return ("fndef", c["defs"][t["d"]]["id"], tuple(m(i) for i in t["a"]))
        if k == "param":
            if env and t["n"] in env:
                return env[t["n"]]
            return ("param", t["n"], t["i"])
        if k == "tuple":
            return ("tuple", tuple(m(i) for i in t["a"]))
        if k == "dyn":
            return ("dyn", t["n"])
        if k == "p":
            return ("p", t["n"])
        return (k,)

    # ---- variants of external enums, as named by the downcasts that appear in the code
    def variant_names(self):
        if self._vn is None:
            vn = defaultdict(dict)
            for b in self.bodies.values():
                for pl in all_places(b):
                    for x, y in zip(pl[1:], pl[2:]):
                        if isinstance(x, list) and x[0] == "d" and isinstance(y, list) and y[0] == "f":
                            owner = y[3].rsplit("::", 1)[0]
                            vn[owner][x[1]] = x[2]
            for n, vs in self.enums.items():
                if n not in self.adts:
                    vn[n].update(vs)
            self._vn = vn
        return self._vn

    # ---- type of a place in an instance
    def place_ty(self, inst, place):
        b = inst.body
        t = self.mkty(b.crate, b.locals[place[0]], inst.env or None)
        var = None
        for e in place[1:]:
            if t is None:
                return None
            if e == "*":
                if t[0] in ("ref", "ptr"):
                    t = t[2]
                elif t[0] == "adt" and t[1] == "alloc::boxed::Box":
                    t = t[2][0]
                else:
                    return None
                var = None
            elif e[0] == "d":
                var = e[2]
            elif e[0] == "f":
                t = self.field_ty(inst, t, var, e[1])
                var = None
            elif e[0] in ("i", "ci"):
                t = t[1] if t[0] in ("slice", "array") else None
            elif e[0] == "ss":
                pass
            else:
                return None
        return t

    def field_ty(self, inst, t, var, idx):
        if t[0] == "tuple":
            return t[1][idx] if idx < len(t[1]) else None
        if t[0] == "closure":
            up = self.upvars(inst, t)
            return up[idx] if up and idx < len(up) else None
        if t[0] != "adt":
            return None
        n, args = t[1], t[2]
        if n == "core::option::Option":
            return args[0] if args else None
        if n == "core::result::Result" and len(args) == 2:
            return args[0] if var == "Ok" else args[1]
        if n == "core::ops::control_flow::ControlFlow" and len(args) == 2:
            return args[1] if var == "Continue" else args[0]
        a = self.adts.get(n)
        if a is None:
            return None
        v = a["v"][0]
        if var is not None:
            for x in a["v"]:
                if x["n"] == var:
                    v = x
        if idx >= len(v["f"]):
            return None
        names = a.get("_params")
        if names is None:
            ps = set()
            for x in a["v"]:
                for f in x["f"]:
                    _params(a["crate"], f[1], ps)
            names = a["_params"] = [n for _, n in sorted(ps)]
        env = {n: ty for n, ty in zip(names, args)} if len(names) == len(args) else {}
        return self.mkty(a["crate"], v["f"][idx][1], env)

    def upvars(self, inst, t):
        for c in self.crates.values():
            ix = c.get("_closure_up")
            if ix is None:
                ix = c["_closure_up"] = {}
                for ty in c["types"]:
                    if ty["k"] == "closure" and "u" in ty:
                        ix.setdefault(c["defs"][ty["d"]]["id"], ty["u"])
            if t[1] in ix:
                return [self.mkty(c, i, dict(t[2]) or None) for i in ix[t[1]]]
        return None


def _freeze(env, prog, uid):
    """Closures keep the substitution of the function they were created in (only names bound to closures or ADTs)."""
    if not env:
        return ()
    return tuple(sorted((k, v) for k, v in env.items()))


class Inst:
    """A body together with a type-parameter substitution."""
    __slots__ = ("body", "env", "key")
    _pool = {}

    def __new__(cls, body, env=None):
        env = env or {}
        key = (body.uid, tuple(sorted(env.items())))
        i = cls._pool.get(key)
        if i is None:
            i = object.__new__(cls)
            i.body, i.env, i.key = body, env, key
            cls._pool[key] = i
        return i

    def __repr__(self):
        return f"<{self.body.name} {self.env}>" if self.env else f"<{self.body.name}>"

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self is o or (isinstance(o, Inst) and self.key == o.key)


FN_TRAITS = {"core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn"}


def peel(t):
    """Strip references, boxes, Rc/Arc."""
    while True:
        if t[0] in ("ref", "ptr"):
            t = t[2]
        elif t[0] == "adt" and t[1] in ("alloc::boxed::Box", "alloc::sync::Arc", "alloc::rc::Rc") and t[2]:
            t = t[2][0]
        else:
            return t


class Call:
    """A resolved call site."""
    __slots__ = ("inst", "bb", "term", "name", "targets", "kind", "closures", "line", "macros", "trait", "args", "dest", "declared", "tyargs")

    def __repr__(self):
        return f"<Call {self.name}@{self.inst.body.name}:{self.line}>"


class Resolver:
    def __init__(self, prog):
        self.p = prog
        self._cache = {}
        self.dyn = {}           # trait -> set of concrete types coerced to dyn trait

    def collect_dyn(self, insts):
        """Record every unsizing coercion to a trait object seen in the given instances; True when new ones appear."""
        new = False
        for inst in insts:
            b = inst.body
            for blk in b.blocks:
                for s in blk["s"]:
                    if s[0] == "=" and s[2][0] == "cast" and "Unsize" in s[2][1]:
                        tt = peel(self.p.mkty(b.crate, s[2][3], inst.env or None))
                        if tt[0] != "dyn":
                            continue
                        op = s[2][2]
                        if op[0] == "c":
                            st = self.p.mkty(b.crate, op[1], inst.env or None)
                        else:
                            st = self.p.place_ty(inst, op[1])
                        if st is None:
                            continue
                        st = peel(st)
                        if st[0] in ("dyn", "param"):
                            continue
                        if st not in self.dyn.setdefault(tt[1], set()):
                            self.dyn[tt[1]].add(st)
                            new = True
        return new

    def calls(self, inst):
        """bb -> Call for every call terminator in normal-flow-reachable blocks."""
        r = self._cache.get(inst)
        if r is None:
            r = {}
            for b in inst.body.reach:
                t = inst.body.blocks[b]["t"]
                if t[0] == "call":
                    r[b] = self.resolve(inst, b, t)
            self._cache[inst] = r
        return r

    def all_calls(self, inst):
        """Including cleanup blocks."""
        for b, blk in enumerate(inst.body.blocks):
            t = blk["t"]
            if t[0] == "call":
                yield self.resolve(inst, b, t)

    def inst_for(self, uid, args_types):
        body = self.p.bodies.get(uid)
        if body is None:
            return None
        env = {}
        gens = [body.generics[i] for i in sorted(body.generics)]
        for n, t in zip(gens, args_types):
            if has_concrete(t):
                env[n] = t
        return Inst(body, env)

    def closure_inst(self, t):
        body = self.p.bodies.get(t[1])
        if body is None:
            return None
        return Inst(body, dict(t[2]))

    def callable_targets(self, t):
        """Insts that calling a value of type t would run."""
        t = peel(t)
        if t[0] == "closure":
            i = self.closure_inst(t)
            return [i] if i else []
        if t[0] == "fndef":
            i = self.inst_for(t[1], t[2])
            return [i] if i else []
        return []

    def resolve(self, inst, bb, term):
        p, body = self.p, inst.body
        c = body.crate
        call = Call()
        call.inst, call.bb, call.term = inst, bb, term
        call.line, call.macros = term[6], term[7]
        call.args, call.dest = term[2], term[3]
        call.closures = []
        call.targets = []
        call.trait = None
        call.tyargs = ()
        call.declared = None
        f = term[1]
        if "op" in f:
            call.name, call.kind = "<indirect>", "indirect"
            # calling a local of closure / fn pointer type
            return call
        d = c["defs"][f["d"]]
        call.declared = d["name"]
        call.trait = d.get("trait") or d.get("impl_trait")
        name = d["name"]
        tys = tuple(p.mkty(c, i, inst.env) for i in f["a"])
        call.tyargs = tys
        uid = d["id"]
        rk = f.get("rk")
        if rk in ("item",) and "r" in f:
            uid = c["defs"][f["r"]]["id"]
            tys = tuple(p.mkty(c, i, inst.env) for i in f["ra"])
            name = c["defs"][f["r"]]["name"]
        call.name, call.kind = name, rk or "unresolved"
        tr = d.get("trait")
        if tr in FN_TRAITS and call.tyargs:
            st = peel(call.tyargs[0])
            if st[0] == "dyn":
                for x in sorted(self.dyn.get(st[1], ()), key=repr):
                    call.targets += self.callable_targets(x)
            else:
                call.targets = self.callable_targets(st)
            call.kind = "fncall"
            if not call.targets:
                call.name = f"<dyncall {st[0]}:{st[1] if len(st) > 1 else ''}>"
            return call
        b = p.bodies.get(uid)
        if b is not None and (not tr or rk == "item" and c["defs"][f["r"]].get("impl_trait") or b.kind == "Closure"):
            i = self.inst_for(uid, tys)
            call.targets = [i]
            return call
        if tr and call.tyargs:
            st = call.tyargs[0]
            cands = self.impl_method(tr, name.rsplit("::", 1)[1], st)
            if cands is not None:
                call.targets = cands
                if len(cands) == 1:
                    call.name = cands[0].body.name
                if cands:
                    return call
            if b is not None:  # default method
                call.targets = [self.inst_for(uid, tys)]
                return call
        if call.declared == "core::convert::Into::into" and len(tys) >= 2:
            for i in p.impl_by.get("core::convert::From", ()):
                if p.mkty(i["crate"], i["self"])[:2] != tys[1][:2]:
                    continue
                for n, di in i["items"]:
                    b = p.bodies.get(i["crate"]["defs"][di]["id"]) if n == "from" else None
                    if b is not None and b.argc == 1 and p.mkty(b.crate, b.locals[1]) == tys[0]:
                        call.targets = [Inst(b)]
                        call.name = b.name
                        return call
        # external function: closures passed by value are possibly run by it
        seen = set()
        given = self.arg_callables(call)
        for t in tys:
            for ct in find_callables(t):
                if given is not None and ct not in given:
                    continue  # only named in the result's type: not passed, so not run
                if ct not in seen:
                    seen.add(ct)
                    call.closures += self.callable_targets(ct)
        return call

    def arg_callables(self, call):
        """Callables within the types of the arguments; None when one of them is unknown."""
        out = set()
        for a in call.args:
            if a[0] == "c":
                t = self.prog_mkty(call, a)
            else:
                t = self.p.place_ty(call.inst, a[1])
            if t is None or t[0] in ("param", "p"):
                return None
            out.update(find_callables(t))
        return out

    def prog_mkty(self, call, a):
        return self.p.mkty(call.inst.body.crate, a[1], call.inst.env or None)

    def impl_method(self, trait, meth, selfty):
        p = self.p
        impls = p.impl_by.get(trait)
        if impls is None:
            return None
        st = selfty
        while st[0] == "ref":
            st = st[2]
        out = []
        opaque = st[0] in ("param", "dyn", "p") and not (st[0] == "p" and "<" not in st[1] and "::" not in st[1])
        for i in impls:
            it = p.mkty(i["crate"], i["self"])
            while it[0] == "ref":
                it = it[2]
            if opaque or it[0] == "param" or it[:2] == st[:2]:
                for n, di in i["items"]:
                    if n == meth:
                        u = i["crate"]["defs"][di]["id"]
                        b = p.bodies.get(u)
                        if b is not None and it[0] == "param" and st[0] == "dyn":
                            for x in sorted(self.dyn.get(st[1], ()), key=repr):
                                out.append(Inst(b, {it[1]: x}))
                            continue
                        if b is not None:
                            env = {}
                            if it[0] == "param" and st[0] != "param":
                                env[it[1]] = st
                            if it[0] == "adt" and st[0] == "adt":
                                for a, s in zip(it[2], st[2]):
                                    if a[0] == "param" and has_concrete(s):
                                        env[a[1]] = s
                            out.append(Inst(b, env))
        return out


def has_concrete(t):
    k = t[0]
    if k == "closure" or k == "fndef":
        return True
    if k in ("ref", "ptr"):
        return has_concrete(t[2])
    if k == "adt":
        return True
    if k == "param":
        return False
    if k in ("slice", "array"):
        return has_concrete(t[1])
    if k == "tuple":
        return True
    return True


def find_callables(t, depth=0):
    if depth > 6:
        return
    k = t[0]
    if k in ("closure", "fndef"):
        yield t
        return
    if k in ("ref", "ptr"):
        yield from find_callables(t[2], depth + 1)
    elif k in ("slice", "array"):
        yield from find_callables(t[1], depth + 1)
    elif k == "adt":
        for a in t[2]:
            yield from find_callables(a, depth + 1)
    elif k == "tuple":
        for a in t[1]:
            yield from find_callables(a, depth + 1)


def tystr(t):
    k = t[0]
    if k == "adt":
        n = t[1]
        return n + ("<" + ",".join(tystr(a) for a in t[2]) + ">" if t[2] else "")
    if k == "ref":
        return ("&mut " if t[1] else "&") + tystr(t[2])
    if k == "ptr":
        return "*" + tystr(t[2])
    if k in ("slice", "array"):
        return f"[{tystr(t[1])}]"
    if k == "tuple":
        return "(" + ",".join(tystr(a) for a in t[1]) + ")"
    if k in ("p", "param", "dyn"):
        return ("dyn " if k == "dyn" else "") + t[1]
    if k in ("closure", "fndef"):
        return f"{{{t[1]}}}"
    return k


def _params(c, i, out, depth=0):
    t = c["types"][i]
    k = t["k"]
    if k == "param":
        out.add((t["i"], t["n"]))
    elif depth < 8:
        for x in t.get("a", ()) if isinstance(t.get("a"), list) else ():
            _params(c, x, out, depth + 1)
        if isinstance(t.get("t"), int) and k in ("ref", "ptr", "slice", "array"):
            _params(c, t["t"], out, depth + 1)


def ops_of_rvalue(rv):
    k = rv[0]
    if k == "agg":
        return rv[2]
    return [x for x in rv[1:] if isinstance(x, list) and len(x) >= 2 and x[0] in ("p", "m", "c")]


def all_places(b):
    for blk in b.blocks:
        for s in blk["s"]:
            if s[0] == "=":
                yield s[1]
                rv = s[2]
                if rv[0] in ("ref", "raw"):
                    yield rv[2]
                elif rv[0] == "discr":
                    yield rv[1]
                else:
                    for o in ops_of_rvalue(rv):
                        if o[0] in ("p", "m"):
                            yield o[1]
        t = blk["t"]
        if t[0] == "call":
            yield t[3]
            for a in t[2]:
                if a[0] in ("p", "m"):
                    yield a[1]
        elif t[0] == "drop":
            yield t[1]
