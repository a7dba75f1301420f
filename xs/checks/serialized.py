"""P17: what is written as JSON is read back: the names written are the names read, for every type with both directions."""
import re

from ..esp import Machine
from .. import wire
from ..lib import *


def derived(ctx):
    """Types with a derived deserializer and a serializer."""
    out = {}
    for b in ctx.p.bodies.values():
        m = re.match(r"<?(.*?)::_IMPL_DESERIALIZE_FOR_(\w+)::", b.name)
        if m and "_IMPL_" not in m[1] and not ctx.tests(b):
            ty = f"{m[1]}::{m[2]}"
            if ty in ctx.p.adts:
                out[ty] = None
    return sorted(out)


def where(ctx, ty):
    bs = wire.ser_bodies(ctx, ty)
    return bs[0].loc(bs[0].line) if bs else ty


# only ever sent
ONE_WAY = {"xi_core_lib::styles::Style"}


def fields_agree(ctx, ty, what, steps, read):
    """steps: for each way through the serializer, {name: field}."""
    names, req = read
    at = where(ctx, ty)
    always = set.intersection(*(set(s) for s in steps)) if steps else set()
    for s in steps:
        for n, f in s.items():
            # a value written by a function of its own has no field's name
            ctx.expect(names.get(n) == f or f is None and n in names, "field", f"{what}: {n} is written from and read into {f}", f"field:{what}:{n}", f"{n} of {what} is written from the field {f}, but read into {names.get(n)}", at)
    missing = req - always
    ctx.expect(not missing, "required", f"{what}: everything required is always written", f"required:{what}", f"{', '.join(sorted(missing))} of {what} may not be written, but reading requires it", at)


def pair(ctx, ty):
    a = ctx.p.adts[ty]
    if a["k"] == "enum":
        return enum(ctx, ty, a)
    fs = a["v"][0]["f"]
    if not fs or fs[0][0].isdigit():
        w = wire.written(ctx, ty)[""]
        ctx.expect(all(len(q) == 1 for q in w), "plain", f"{ty} is written as its contents", f"plain:{ty}", f"{ty} is written as {w}", where(ctx, ty))
        return
    w = wire.written(ctx, ty)[""]
    read = wire.structs(ctx, ty).get("")
    if not ctx.expect(read is not None, "reads", f"{ty} can be read", f"reads:{ty}", f"the fields read for {ty} are not known", where(ctx, ty)):
        return
    fields_agree(ctx, ty, last(ty), [{n: f for k, n, f in q if k == "field"} for q in w], read)


def enum(ctx, ty, a):
    names, maps = wire.variants(ctx, ty), wire.structs(ctx, ty)
    inner = wire.contents(ctx, ty)
    own = {v["n"]: [f[0] for f in v["f"]] for v in a["v"]}
    w = wire.written(ctx, ty)
    at = where(ctx, ty)
    for v, fs in own.items():
        for q in w[v]:
            tag = next((n for k, n, _ in q if k == "variant"), None)
            rest = {n: f for k, n, f in q if k == "field"}
            beside = False
            if tag is None:
                t = next(((n, f[1]) for n, f in rest.items() if isinstance(f, tuple) and f[0] == "const"), None)
                if t is None:
                    ctx.expect(False, "tag", f"{ty}::{v} is written under its name", f"tag:{ty}:{v}", f"{last(ty)}::{v} is written without a name", at)
                    continue
                tag = t[1]
                rest.pop(t[0])
                beside = "params" in rest or "content" in rest
            if v not in names.values():
                # only ever written
                ctx.counts["variants only written"] += 1
                continue
            ctx.expect(names.get(tag) == v, "variant", f"{last(ty)}::{v} is written and read as {tag}", f"variant:{ty}:{v}", f"{last(ty)}::{v} is written as {tag}, which is read as {names.get(tag)}", at)
            if not fs or fs[0].isdigit():
                continue
            if beside:
                steps = [{n: fs[int(f)] if isinstance(f, str) and f.isdigit() and int(f) < len(fs) else f for k, n, f in x if k == "field"} for x in inner.get(tag, ())]
                # a single field is stored without a tuple around it
                if len(fs) == 1:
                    steps = [{n: fs[0] for n in s} for s in steps]
            else:
                steps = [rest]
            if maps.get(v) is None:
                ctx.expect(False, "reads", f"{ty}::{v} can be read", f"reads:{ty}:{v}", f"the fields read for {last(ty)}::{v} are not known", at)
                continue
            fields_agree(ctx, ty, f"{last(ty)}::{v}", steps, maps[v])


# hand-written: on the wire a list, in this order
LISTS = {
    "annotations::AnnotationRange": ("start_line", "start_col", "end_line", "end_col"),
    "rpc::LineRange": ("first", "last"),
    "rpc::MouseAction": ("line", "column", "flags", "click_count"),
}


def lists(ctx):
    for suffix, order in LISTS.items():
        ty = wire.full(ctx, suffix)
        at = where(ctx, ty)
        ctx.fns.add(ty)
        w = wire.written(ctx, ty)[""]
        for q in w:
            got = [f for k, n, f in q if k == "value" and n == "element"] or [f for k, _, p in q if k == "parts" for _, f in p]
            ctx.expect(tuple(got) == order, "order", f"{last(ty)} is written as {', '.join(order)}", f"written:{ty}", f"{last(ty)} is written as {', '.join(map(str, got))} instead of {', '.join(order)}", at)
        ctx.expect(bool(w), "order", f"{last(ty)} can be written", f"written:{ty}", f"{last(ty)} is never written", at)
        for _, row in wire.read(ctx, ty):
            want = {f: str(i) for i, f in enumerate(order)}
            for f, l in row:
                if l == "None" and f == order[-1]:
                    continue
                ctx.expect(l == want.get(f), "order", f"{last(ty)}.{f} is read from position {want.get(f)}", f"read:{ty}:{f}", f"{last(ty)}.{f} is read from position {l} instead of {want.get(f)}", at)
    ty = "xi_rpc::error::RemoteError"
    at = where(ctx, ty)
    w = wire.written(ctx, ty)
    parts = {v: {tuple(f for _, f in p) if v == "Custom" else dict(p) for q in qs for k, _, p in q if k == "parts"} if v == "Custom" else [dict(p) for q in qs for k, _, p in q if k == "parts"] for v, qs in w.items() if v != "Unknown"}
    ctx.expect(parts["Custom"] == {("code", "message", "data")}, "error", "an error is written with its code, message and data", "error:custom", f"an error is written with {parts['Custom']}", at)
    codes = {p.get(0) for p in parts["InvalidRequest"]}
    ctx.expect(len(codes) == 1 and all(p.get(2) == "0" for p in parts["InvalidRequest"]), "error", "an invalid request is written with its code and data", "error:invalid", f"an invalid request is written as {parts['InvalidRequest']}", at)
    for code in codes:
        rows = wire.read(ctx, ty, {"code": code % (1 << 64) if isinstance(code, int) else code})
        ctx.expect({r for r in rows if r[0] != "Unknown"} == {("InvalidRequest", (("0", "data"),))}, "error", f"the code {code} is read as an invalid request", "error:code", f"the code {code} is read as {sorted(rows)}", at)
    rows = wire.read(ctx, ty, {"code": 404})
    ctx.expect({r for r in rows if r[0] != "Unknown"} == {("Custom", (("code", 404), ("message", "message"), ("data", "data")))} or {r for r in rows if r[0] != "Unknown"} == {("Custom", (("code", "code"), ("message", "message"), ("data", "data")))},
               "error", "any other error is read with its code, message and data", "error:other", f"an error with another code is read as {sorted(rows, key=str)}", at)


def delta(ctx):
    ty, hy = wire.full(ctx, "delta::DeltaElement"), wire.full(ctx, "RopeDeltaElement_")
    dy, dh = wire.full(ctx, "delta::Delta"), wire.full(ctx, "RopeDelta_")
    at = where(ctx, ty)
    names, w = wire.variants(ctx, hy), wire.written(ctx, ty)
    conv = {}
    for b in ctx.p.bodies.values():
        t = b.local_ty(1) if last(b.name) == "from" and b.argc == 1 else None
        if t is not None and t.get("n") in (hy, dh):
            conv[t["n"]] = b
    for h in (hy, dh):
        if h not in conv:
            raise AnchorMissing(f"conversion of {h}")
    for v, qs in w.items():
        for q in qs:
            tag = next((n for k, n, _ in q if k == "variant"), None)
            hv = names.get(tag)
            args = [f for k, _, f in q if k == "field"]
            if args:
                ctx.expect(args == [str(i) for i in range(len(args))], "delta", f"{v} is written with its values in order", f"delta:{v}:order", f"{v} is written with the values {args}", at)
            m = Machine(ctx.p, ctx.r, wire.Reads(ctx))
            env = {((1,), "v"): hv, **{((1, ("d", hv), ("f", i)), "l"): str(i) for i in range(2)}}
            got = set()
            for _, facts in m.run(Inst(conv[hy]), (), env):
                f = dict(facts)
                rv = f.get(((0,), "v"))
                nf = len(next((x["f"] for x in ctx.p.adts[ty]["v"] if x["n"] == rv), ()))
                got.add((rv, tuple(f.get(((0, ("d", rv), ("f", i)), "l")) for i in range(nf))))
            ctx.take(m, "readers")
            nf = len(next(x["f"] for x in ctx.p.adts[ty]["v"] if x["n"] == v))
            ctx.expect(got == {(v, tuple(str(i) for i in range(nf)))}, "delta", f"{v} of a change is read back", f"delta:{v}", f"{v} of a change is written as {tag} and read back as {sorted(got, key=str)}", at)
    w = wire.written(ctx, dy)[""]
    names, req = wire.structs(ctx, dh)[""]
    fields_agree(ctx, dy, "Delta", [{n: f for k, n, f in q if k == "field"} for q in w], (names, req))
    m = Machine(ctx.p, ctx.r, wire.Reads(ctx))
    i = ctx.fidx("RopeDelta_", "base_len")
    o = ctx.fidx("delta::Delta", "base_len")
    got = {dict(f).get(((0, ("f", o)), "l")) for _, f in m.run(Inst(conv[dh]), (), {((1, ("f", i)), "l"): "base_len"})}
    ctx.expect(got == {"base_len"}, "delta", "the length of the base is read back", "delta:base_len", f"the length of the base is read back from {sorted(got, key=str)}", at)


def chars(ctx):
    """Kinds of trace samples are single characters, by functions in both directions."""
    ty = wire.full(ctx, "SampleEventType")
    to, back = ctx.inst(ty + "::into_chrome_id"), ctx.inst(ty + "::from_chrome_id")
    at = to.body.loc(to.body.line)
    for v in (x["n"] for x in ctx.p.adts[ty]["v"]):
        m = Machine(ctx.p, ctx.r, wire.Reads(ctx))
        cs = {dict(f).get(((0,), "c")) for _, f in m.run(to, (), {((1,), "v"): v, ((1, "*"), "v"): v})}
        ctx.expect(len(cs) == 1 and None not in cs, "sample", f"{v} is written as one character", f"char:{v}", f"the kind {v} of a sample is written as {cs}", at)
        for c in cs:
            got = set()
            for _, facts in m.run(back, (), {((1,), "c"): ord(c) if isinstance(c, str) and len(c) == 1 else c}):
                f = dict(facts)
                got.add(f.get(((0, ("d", "Some"), ("f", 0)), "v")) if f.get(((0,), "v")) == "Some" else f.get(((0,), "v")))
            ctx.expect(got == {v}, "sample", f"{v} is read back from its character", f"char:{v}:read", f"the kind {v} of a sample is read back as {sorted(map(str, got))}", at)
        ctx.take(m, "readers")


def run(ctx):
    chars(ctx)
    lists(ctx)
    delta(ctx)
    n = 0
    for ty in derived(ctx):
        if wire.ser_bodies(ctx, ty) and ty not in ONE_WAY:
            n += 1
            ctx.fns.add(ty)
            pair(ctx, ty)
    ctx.counts["types in both directions"] = n
