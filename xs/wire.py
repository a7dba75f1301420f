"""What derived (de)serializers accept and produce, read from the code serde generated for the current source."""
import re

from .esp import Machine, Rule
from .lib import *


class Names(Rule):
    """visit_str: which name gives which field."""
    track_consts = True

    def interesting(self, c):
        return last(c.declared or c.name) == "eq"

    def call(self, m, c, q, d):
        if last(c.declared or c.name) == "eq":
            s = next((v for v in (m.constval(a) for a in c.args if a[0] == "c") if isinstance(v, str)), None)
            if s is not None:
                return [(q + (s,) if q is not None else (s,), {((), "c"): True}), (q, {((), "c"): False})]
        return None


def visitor_names(ctx, body):
    """{name on the wire: position of the variant or field}"""
    m = Machine(ctx.p, ctx.r, Names())
    out = {}
    for q, facts in m.run(Inst(body), (), {}):
        f = dict(facts)
        v = f.get(((0, ("d", "Ok"), ("f", 0)), "v"))
        if q and isinstance(v, str) and v.startswith("__field") and v[7:].isdigit():
            out[q[-1]] = int(v[7:])
    return out


def de_bodies(ctx, ty, part, need=True):
    """Bodies of the deserializer derived for ty whose name ends in part, in source order."""
    pre = f"_IMPL_DESERIALIZE_FOR_{last(ty)}::"
    mod = ty.rsplit("::", 1)[0]
    bs = [b for b in ctx.p.bodies.values() if f"{mod}::{pre}" in b.name and b.name.endswith(part)]
    if not bs and need:
        raise AnchorMissing(f"derived deserializer of {ty}")
    return bs


def depth(b):
    return b.name.rsplit("_IMPL_DESERIALIZE_FOR_", 1)[-1].count("{")


def full(ctx, suffix):
    for n in ctx.p.adts:
        if n == suffix or n.endswith("::" + suffix):
            return n
    raise AnchorMissing(f"type {suffix} not found")


def variants(ctx, suffix):
    """{name on the wire: variant or field name of the type} for the outermost level of the type."""
    ty = full(ctx, suffix)
    a = ctx.p.adts[ty]
    top = [b for b in de_bodies(ctx, ty, "__FieldVisitor as serde::de::Visitor>::visit_str") if depth(b) == 1]
    if not top:
        raise AnchorMissing(f"names accepted for {ty}")
    ns = [v["n"] for v in a["v"]] if a["k"] == "enum" else [f[0] for f in a["v"][0]["f"]]
    got = visitor_names(ctx, top[0])
    return {k: ns[i] for k, i in got.items() if i < len(ns)}


def structs(ctx, suffix):
    """{variant: ({name on the wire: field}, {required names})} for variants (or the struct) read from a map."""
    ty = full(ctx, suffix)
    a = ctx.p.adts[ty]
    maps = [b for b in de_bodies(ctx, ty, "__Visitor as serde::de::Visitor>::visit_map", a["k"] != "enum") if a["k"] != "enum" or depth(b) > 1]
    vis = de_bodies(ctx, ty, "__FieldVisitor as serde::de::Visitor>::visit_str")
    byp = {}
    for b in vis:
        byp.setdefault(b.name.split("__FieldVisitor")[0], []).append(b)
    if a["k"] == "enum" and not maps:
        # tagged inside: the first visitor gives the variant, the others their fields
        maps = de_bodies(ctx, ty, "__Visitor as serde::de::Visitor>::visit_map", False)
        byp = {k: v[1:] for k, v in byp.items()}
    seen, out = {}, {}
    for b in maps:
        pre = b.name.split("__Visitor")[0]
        k = seen.get(pre, 0)
        seen[pre] = k + 1
        var = None
        req = set()
        for blk in b.reach:
            for s in b.blocks[blk]["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == ty:
                    var = s[2][1][2] if a["k"] == "enum" else ""
        if var is None or k >= len(byp.get(pre, ())):
            continue
        for c in ctx.r.calls(Inst(b)).values():
            if last(c.name) == "missing_field" and c.args and c.args[0][0] == "c" and isinstance(c.args[0][2], str):
                t = dest_ty(c)
                t = t[2][0] if t is not None and t[0] == "adt" and t[2] else None
                if not (t is not None and t[0] == "adt" and last(t[1]) == "Option"):
                    req.add(c.args[0][2])
        v = next(x for x in a["v"] if not var or x["n"] == var)
        names = {n: v["f"][i][0] for n, i in visitor_names(ctx, byp[pre][k]).items() if i < len(v["f"])}
        if var in out and out[var] != (names, req):
            out[var] = None
        elif var not in out:
            out[var] = (names, req)
    return out


class Written(Rule):
    """What a serializer writes, in order: ("unit"|"newtype"|"struct"|"field"|"skip", name, label)."""
    label_prefix = True
    track_consts = True
    label_pass = {"core::clone::Clone::clone", "core::convert::AsRef::as_ref", "alloc::borrow::ToOwned::to_owned"}

    def interesting(self, c):
        return (c.declared or "").startswith("serde::ser::")

    def opaque(self, c):
        return self.interesting(c)

    def call(self, m, c, q, d):
        n = c.declared or ""
        if not n.startswith("serde::ser::"):
            return None
        k = last(n)
        cs = [m.constval(a) for a in c.args if a[0] == "c"]
        strs = [x for x in cs if isinstance(x, str)]

        def lab(i):
            if i >= len(c.args):
                return None
            l = m.labels(c.args[i], d) if c.args[i][0] != "c" else None
            k = self.const(m, c.args[i], d) if l is None else None
            return l if k is None else ("const", k)
        if k == "serialize_field":
            q = q + (("field", strs[0] if strs else "", lab(2 if strs else 1)),)
        elif k == "skip_field":
            q = q + (("skip", strs[0] if strs else "?", None),)
        elif k == "serialize_struct":
            q = q + (("struct", strs[0] if strs else "?", None),)
        elif k in ("serialize_unit_variant", "serialize_newtype_variant", "serialize_struct_variant", "serialize_tuple_variant"):
            q = q + (("variant", strs[1] if len(strs) > 1 else "?", k.split("_")[1]),)
        elif k in ("serialize_newtype_struct",):
            q = q + (("wrap", "", lab(2)),)
        elif k == "serialize" and self.parts(m, c, d):
            q = q + (("parts", "", self.parts(m, c, d)),)
        elif k.startswith("serialize_") or k in ("serialize",):
            q = q + (("value", k[10:], lab(1) if k != "serialize" else lab(0)),)
        r = dest_ty(c)
        ok = {((), "v"): "Ok"} if r is not None and r[0] == "adt" and last(r[1]) == "Result" else {}
        return [(q, ok)]

    def const(self, m, op, d):
        return const_at(m, op, d)

    def parts(self, m, c, d):
        """The labels of the fields of a tuple or structure built in place."""
        k = m.key(c.args[0][1], d) if c.args and c.args[0][0] != "c" else None
        n = 0
        while k is not None and d.get((k, "r")) and n < 6:
            k = d[(k, "r")][0]
            n += 1
        if k is None or d.get((k, "l")):
            return None
        out = []
        for i in range(8):
            x = k + (("f", i),)
            l = d.get((x, "l")) or d.get((x, "c"))
            if l is not None:
                out.append((i, l))
        return tuple(out) or None


def const_at(m, op, d):
    """The constant behind an operand, through references."""
    if op[0] == "c":
        return m.constval(op)
    k = m.key(op[1], d)
    n = 0
    while k is not None and n < 8:
        while k and d.get((k, "c")) is None and k[-1] == "*" and not d.get((k, "r")):
            k = k[:-1]
        if d.get((k, "c")) is not None:
            return d[(k, "c")]
        if d.get((k + ("*",), "c")) is not None:
            return d[(k + ("*",), "c")]
        r = d.get((k, "r"))
        k = r[0] if r else None
        n += 1
    return None


def ser_bodies(ctx, ty):
    return [b for b in ctx.p.bodies.values() if b.name == f"<{ty} as serde::ser::Serialize>::serialize"]


def written(ctx, suffix):
    """{variant ("" for structs): {what is written, as a tuple of steps}}"""
    ty = full(ctx, suffix)
    a = ctx.p.adts[ty]
    bs = ser_bodies(ctx, ty)
    if not bs:
        raise AnchorMissing(f"serializer of {ty}")
    out = {}
    for v in a["v"]:
        base = (1, "*") + ((("d", v["n"]),) if a["k"] == "enum" else ())
        env = {(base + (("f", i),), "l"): f[0] for i, f in enumerate(v["f"])}
        if a["k"] == "enum":
            env[((1, "*"), "v")] = v["n"]
        m = Machine(ctx.p, ctx.r, Written())
        out[v["n"] if a["k"] == "enum" else ""] = {q for q, _ in m.run(Inst(bs[0]), (), env)}
        ctx.take(m, "serializers")
    return out


def contents(ctx, suffix):
    """{name of the variant on the wire: steps writing its fields} for a type tagged next to its contents."""
    ty = full(ctx, suffix)
    mod, name = ty.rsplit("::", 1)
    out = {}
    for b in ctx.p.bodies.values():
        if b.name == f"<{mod}::_IMPL_SERIALIZE_FOR_{name}::{{0}}::serialize::__AdjacentlyTagged as serde::ser::Serialize>::serialize":
            env = {((1, "*", ("f", 0), ("f", i)), "l"): f"{i}" for i in range(16)}
            m = Machine(ctx.p, ctx.r, Written())
            for q, _ in m.run(Inst(b), (), env):
                n = next((x[1] for x in q if x[0] == "struct"), None)
                out.setdefault(n, set()).add(q)
    return out


class Reads(Rule):
    """Where the parts of a value come from: everything read elsewhere is labelled by its position or its field."""
    track_consts = True
    track_index = True
    label_pass = {"alloc::vec::Vec::as_slice", "core::ops::deref::Deref::deref"}

    def __init__(self, ctx, env=None):
        self.ctx, self.env = ctx, env or {}

    def interesting(self, c):
        return last(c.declared or "") == "deserialize"

    def opaque(self, c):
        return self.interesting(c)

    def call(self, m, c, q, d):
        n = c.declared or c.name
        if last(n) == "deserialize":
            pay = (("d", "Ok"), ("f", 0))
            t = dest_ty(c)
            t = t[2][0] if t is not None and t[0] == "adt" and t[2] else None
            ok = {((), "v"): "Ok"}
            a = self.ctx.p.adts.get(t[1]) if t is not None and t[0] == "adt" else None
            if a is not None and a["k"] == "struct":
                for i, f in enumerate(a["v"][0]["f"]):
                    ok[(pay + (("f", i),), "l")] = f[0]
                    if f[0] in self.env:
                        ok[(pay + (("f", i),), "c")] = self.env[f[0]]
            else:
                for i in range(8):
                    ok[(pay + (("e", i),), "l")] = str(i)
                    ok[(pay + ("*", ("e", i)), "l")] = str(i)
            return [(q, ok), (q, {((), "v"): "Err"})]
        if last(c.name) in ("as_slice", "deref") and not c.targets:
            return [(q, {(("*", ("e", i)), "l"): str(i) for i in range(8)})]
        return None


def read(ctx, name, env=None):
    """Results of a hand-written deserializer: {(variant, ((field, label or constant), ...))}"""
    inst = ctx.inst(f"<{name} as serde::de::Deserialize>::deserialize")
    m = Machine(ctx.p, ctx.r, Reads(ctx, env))
    base = (0, ("d", "Ok"), ("f", 0))
    a = ctx.p.adts[name]
    out = set()
    for q, facts in m.run(inst, (), {}):
        f = dict(facts)
        if f.get(((0,), "v")) == "Err":
            continue
        vs = [v for v in a["v"] if a["k"] != "enum" or f.get((base, "v")) in (None, v["n"])]
        for v in vs if a["k"] != "enum" or f.get((base, "v")) else [{"n": "?", "f": []}]:
            b = base + ((("d", v["n"]),) if a["k"] == "enum" else ())
            row = []
            for i, fd in enumerate(v["f"]):
                k = b + (("f", i),)
                x = f.get((k, "l")) or f.get((k, "c"))
                if x is None and f.get((k, "v")):
                    x = f.get((k + (("d", "Some"), ("f", 0)), "l"), f[(k, "v")])
                row.append((fd[0], x))
            out.add((v["n"] if a["k"] == "enum" else "", tuple(row)))
    ctx.take(m, "readers")
    return out
