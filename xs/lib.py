"""Shared pieces of the checks: the analysis context, instance enumeration, def-use origins, small matchers."""
import json
import os
import re
import sys
import time
from collections import defaultdict

from .build import facts_dir, VERIF
from .model import Inst, Program, Resolver, all_places, find_callables, ops_of_rvalue, peel, tystr


class AnchorMissing(Exception):
    pass


class Ctx:
    def __init__(self):
        self.t0 = time.time()
        self.obligations = []
        self.violations = []
        self.counts = defaultdict(int)
        self.fns = set()
        self.dir, self.build_s, self.hash = facts_dir()
        self.p = Program(self.dir)
        self.r = Resolver(self.p)
        self.resolve_dyn()

    # -- results
    def oblige(self, rule, what, ok=True, where=""):
        self.obligations.append({"rule": rule, "what": what, "where": where, "ok": bool(ok)})
        return ok

    def violate(self, key, msg, at="", chain=()):
        if not any(v["key"] == key for v in self.violations):
            self.violations.append({"key": key, "msg": msg, "at": at, "chain": list(chain)})

    def expect(self, cond, rule, what, key, msg=None, at=""):
        self.oblige(rule, what, cond, at)
        if not cond:
            self.violate(key, msg or f"{rule}: {what} does not hold", at)
        return cond

    def take(self, m, rule):
        """Move a machine's violations into the result."""
        for v in m.violations.values():
            self.violate(f"{rule}:{v['key']}", v["msg"], v["at"], v["chain"])
        self.counts["call_sites_interpreted"] += m.ncalls
        self.counts["events"] += m.events
        for i in m.allvisited:
            if m.rel.get(i, True):
                self.fns.add(i.body.name)

    # -- lookups
    def fn(self, name):
        b = self.p.fn(name)
        if b is None:
            raise AnchorMissing(f"function {name} not found")
        return b

    def inst(self, name):
        return Inst(self.fn(name))

    def adt(self, suffix):
        for n, a in self.p.adts.items():
            if n.endswith("::" + suffix):
                return a
        raise AnchorMissing(f"type {suffix} not found")

    def fidx(self, suffix, field, variant=None):
        """Index of a field of a workspace type."""
        a = self.adt(suffix)
        v = next((x for x in a["v"] if x["n"] == variant), None) if variant else a["v"][0]
        for i, f in enumerate(v["f"] if v else ()):
            if f[0] == field:
                return i
        raise AnchorMissing(f"field {suffix}.{field} not found")

    def callers(self, uid):
        """Instances with a resolved call to the body uid."""
        if not hasattr(self, "_callers"):
            self._callers = defaultdict(dict)
            for i in self.insts():
                for c in self.r.calls(i).values():
                    for t in list(c.targets) + list(c.closures):
                        self._callers[t.body.uid].setdefault(i.body.uid, i)
        return [i for i in self._callers.get(uid, {}).values() if not self.tests(i.body)]

    def tests(self, b):
        return any(x in b.name for x in ("::tests::", "::test::", "test_utils::", "test_helpers::"))

    def insts(self):
        """Every body, as an instance, plus all instantiations found by following calls."""
        if not hasattr(self, "_insts"):
            seen = {}
            st = [Inst(b) for b in self.p.bodies.values()]
            for i in st:
                seen[i] = None
            while st:
                i = st.pop()
                for c in self.r.calls(i).values():
                    for t in list(c.targets) + list(c.closures):
                        if t not in seen and len(seen) < 60000:
                            seen[t] = None
                            st.append(t)
            self._insts = list(seen)
        return self._insts

    def resolve_dyn(self):
        """Resolve trait-object calls to the types actually coerced to that trait object."""
        for _ in range(5):
            if not self.r.collect_dyn(self.insts()):
                break
            self.r._cache.clear()
            del self._insts

    def reachable(self, roots, stop=None):
        seen = dict.fromkeys(roots)
        st = list(roots)
        while st:
            i = st.pop()
            for c in self.r.calls(i).values():
                if stop and stop(c):
                    continue
                for t in list(c.targets) + list(c.closures):
                    if t not in seen:
                        seen[t] = None
                        st.append(t)
        return list(seen)


def last(name):
    """Last path segment, without trait-impl decoration."""
    return name.rsplit("::", 1)[-1]


def is_method(c, ty, meths):
    """Call to an inherent/trait method `ty::m` for m in meths (ty: last segment of the type's name)."""
    n = c.name
    if "::" not in n:
        return False
    head, m = n.rsplit("::", 1)
    if m not in meths:
        return False
    if head.endswith(">"):
        head = head[1:-1].split(" as ")[0]
    return head.rsplit("::", 1)[-1] == ty


def trait_method(c, trait, meths):
    d = c.declared or ""
    if "::" not in d:
        return False
    head, m = d.rsplit("::", 1)
    return m in meths and head.rsplit("::", 1)[-1] == trait


def self_ty(c):
    """Concrete type of the first argument with references stripped."""
    if not c.args or c.args[0][0] == "c":
        return None
    t = c.inst.body.prog.place_ty(c.inst, c.args[0][1])
    while t is not None and t[0] in ("ref", "ptr"):
        t = t[2]
    return t


def arg_ty(c, i, strip=True):
    if i >= len(c.args):
        return None
    a = c.args[i]
    if a[0] == "c":
        t = c.inst.body.prog.mkty(c.inst.body.crate, a[1], c.inst.env or None)
    else:
        t = c.inst.body.prog.place_ty(c.inst, a[1])
    while strip and t is not None and t[0] in ("ref", "ptr"):
        t = t[2]
    return t


def mentions(t, pred, depth=0):
    """Does type t contain a component satisfying pred?"""
    if t is None or depth > 10:
        return False
    if pred(t):
        return True
    k = t[0]
    if k in ("ref", "ptr"):
        return mentions(t[2], pred, depth + 1)
    if k in ("slice", "array"):
        return mentions(t[1], pred, depth + 1)
    if k == "adt":
        return any(mentions(a, pred, depth + 1) for a in t[2])
    if k == "tuple":
        return any(mentions(a, pred, depth + 1) for a in t[1])
    return False


def has_adt(t, name):
    return mentions(t, lambda x: x[0] == "adt" and (x[1] == name or x[1].rsplit("::", 1)[-1] == name))


def dest_ty(c):
    return c.inst.body.prog.place_ty(c.inst, c.dest)


def const_arg(c, i):
    """Constant value of argument i if the operand itself, or the single assignment of its local, is a constant."""
    if i >= len(c.args):
        return None
    return const_of(c.inst.body, c.args[i])


def const_of(body, op, depth=0):
    if op[0] == "c":
        return op[2]
    if depth > 6:
        return None
    pl = op[1]
    if any(e != "*" for e in pl[1:]):
        return None
    ds = body.assigns.get(pl[0], ())
    if len(ds) != 1:
        return None
    rv = ds[0][2]
    if rv[0] == "use":
        return const_of(body, rv[1], depth + 1)
    if rv[0] == "cast":
        return const_of(body, rv[2], depth + 1)
    if rv[0] == "ref" and all(e == "*" for e in rv[2][1:]):
        return const_of(body, ["p", rv[2]], depth + 1)
    if rv[0] == "call":
        t = rv[1]
        if t[2] and "d" in t[1]:
            n = body.defs[t[1]["d"]]["name"]
            if n.rsplit("::", 1)[-1] in ("to_owned", "to_string", "into", "from", "deref", "as_ref", "as_str", "borrow", "clone"):
                return const_of(body, t[2][0], depth + 1)
    return None


def field_of_place(place):
    """Last named field of a place: (owner adt, field name) or None."""
    for e in reversed(place[1:]):
        if isinstance(e, list) and e[0] == "f":
            return e[3], e[2]
    return None


def fields_of_place(place):
    return [(e[3], e[2]) for e in place[1:] if isinstance(e, list) and e[0] == "f"]


def origin(body, op, depth=0):
    """Where an operand comes from: the field (owner type, field name) it was borrowed/copied out of, or ('arg', n), or None."""
    if op[0] == "c" or depth > 12:
        return None
    pl = op[1]
    f = next((x for x in reversed(fields_of_place(pl)) if last(x[0]) not in ("Box", "Unique", "NonNull")), None)
    if f is not None:
        if "{closure" in last(f[0]):
            up = upvar_origin(body, pl, depth)
            return up if up is not None else f
        return f
    l = pl[0]
    ds = body.assigns.get(l, ())
    if not ds:
        return ("arg", l) if 1 <= l <= body.argc else None
    if len(ds) != 1:
        return None
    rv = ds[0][2]
    if rv[0] == "use":
        return origin(body, rv[1], depth + 1)
    if rv[0] == "cast":
        return origin(body, rv[2], depth + 1)
    if rv[0] in ("ref", "raw"):
        return origin(body, ["p", rv[2]], depth + 1)
    if rv[0] == "call":
        t = rv[1]
        if t[2] and "d" in t[1]:
            n = last(body.defs[t[1]["d"]]["name"])
            if n in ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "clone", "box_clone", "unwrap", "expect"):
                return origin(body, t[2][0], depth + 1)
    return None


def upvar_origin(body, pl, depth):
    """Origin of a captured variable, found where the closure is built in its parent."""
    idx = next((e[1] for e in pl[1:] if isinstance(e, list) and e[0] == "f"), None)
    par = body.prog.bodies.get(body.parent) if body.parent else None
    if par is None or idx is None:
        return None
    for blk in par.reach:
        for s in par.blocks[blk]["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure" and par.defs[s[2][1][1]]["id"] == body.uid and idx < len(s[2][2]):
                return origin(par, s[2][2][idx], depth + 1)
    return None
