"""Models of the std combinators the analysed code relies on, for esp.Machine.

model(m, inst, call, q, d, dst) -> list of (q, env) or None (use the default treatment)."""

from .esp import CONVERSIONS, VIEWS

OPT = "core::option::Option"
RES = "core::result::Result"
SOME = ("d", "Some")
OK = ("d", "Ok")
ERR = ("d", "Err")
F0 = ("f", 0)

PAYLOAD = {"Some": (SOME, F0), "Ok": (OK, F0), "Err": (ERR, F0), "Continue": (("d", "Continue"), F0),
           "Break": (("d", "Break"), F0), "None": ()}

MODELS = {}


def model(*names):
    def f(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return f


NONE = {((), "v"): "None"}


def arg_key(m, c, i, d):
    if i >= len(c.args) or c.args[i][0] == "c":
        return None
    return m.key(c.args[i][1], d)


def deref(k, d):
    """Follow reference facts."""
    n = 0
    while k is not None and n < 6:
        r = d.get((k, "r"))
        if r is None:
            return k
        k = r[0]
        n += 1
    return k


def fork(m, d, k, variants):
    """[(variant, env)] consistent with what is known about k."""
    out = []
    for v in variants:
        nd = dict(d)
        if k is None or m.refine_var(nd, k, v, True):
            out.append((v, nd))
    return out


def finish(m, c, nd, dst, facts):
    m.move_args(c, nd)
    if dst is not None:
        m.kill(nd, dst)
        for (sk, kind), v in facts.items():
            nd[(dst + sk, kind)] = v
    return nd


def payload(m, nd, k, variant):
    """Facts below the payload of variant at key k."""
    if k is None:
        return {}
    base = k + PAYLOAD[variant]
    r = {(s, kind): v for s, kind, v in m.sub(nd, base) if kind not in ("p", "cp", "discr")}
    if ((), "l") not in r and ((), "r") not in r:
        l = m.label_at(base, nd)
        if l is not None:
            r[((), "l")] = l
    return r


def under(prefix, facts):
    return {(prefix + s, kind): v for (s, kind), v in facts.items()}


def wrap(variant, facts):
    r = under(PAYLOAD[variant], facts)
    r[((), "v")] = variant
    return r


def gone(nd, k, facts):
    """Facts of a result without payload, made from another one at k: what is known about why it has none."""
    l = nd.get((k, "l")) if k is not None else None
    return facts | ({((), "l"): l} if l is not None else {})


def label_of(m, nd, k):
    if k is None:
        return {}
    l = m.label_at(k, nd)
    return {((), "l"): l} if l is not None else {}


# ---------------------------------------------------------------- predicates
def _pred(variant, truth):
    def f(m, inst, c, q, d, dst):
        k = deref(arg_key(m, c, 0, d), d)
        nd = dict(d)
        m.move_args(c, nd)
        if dst is None:
            return [(q, nd)]
        m.kill(nd, dst)
        if k is not None:
            cur = nd.get((k, "v"))
            if cur is not None:
                nd[(dst, "c")] = (cur == variant) == truth
            else:
                nd[(dst, "p")] = ("isv", k, variant)
        return [(q, nd)]
    return f


MODELS[OPT + "::is_some"] = _pred("Some", True)
MODELS[RES + "::is_ok"] = _pred("Ok", True)


def _npred(variant):
    def f(m, inst, c, q, d, dst):
        k = deref(arg_key(m, c, 0, d), d)
        out = []
        for v in ([variant] + [x for x in ("None", "Some", "Ok", "Err") if x != variant and
                               (x in ("None", "Some")) == (variant in ("None", "Some"))]):
            nd = dict(d)
            if k is not None and not m.refine_var(nd, k, v, True):
                continue
            m.move_args(c, nd)
            if dst is not None:
                m.kill(nd, dst)
                nd[(dst, "c")] = v == variant
            out.append((q, nd))
        return out
    return f


MODELS[OPT + "::is_none"] = _npred("None")
MODELS[RES + "::is_err"] = _npred("Err")


# ---------------------------------------------------------------- ? operator
@model("core::ops::try_trait::Try::branch")
def branch(m, inst, c, q, d, dst):
    k = arg_key(m, c, 0, d)
    t = m.place_ty(inst, c.args[0][1]) if c.args[0][0] != "c" else None
    adt = t[1] if t and t[0] == "adt" else None
    if adt not in (OPT, RES):
        return None
    good, bad = ("Some", "None") if adt == OPT else ("Ok", "Err")
    out = []
    for v, nd in fork(m, d, k, (good, bad)):
        pl = payload(m, nd, k, v)
        if v == good:
            f = wrap("Continue", pl)
        elif v == "None":
            f = wrap("Break", {((), "v"): "None"})
        else:
            f = wrap("Break", wrap("Err", pl))
        out.append((q, finish(m, c, nd, dst, f)))
    return out


@model("core::ops::try_trait::FromResidual::from_residual")
def from_residual(m, inst, c, q, d, dst):
    k = arg_key(m, c, 0, d)
    nd = dict(d)
    t = m.place_ty(inst, c.dest)
    f = {}
    if t and t[0] == "adt" and t[1] == RES:
        f = wrap("Err", payload(m, nd, k, "Err"))
    elif t and t[0] == "adt" and t[1] == OPT:
        f = {((), "v"): "None"}
    return [(q, finish(m, c, nd, dst, f))]


@model("core::ops::try_trait::Try::from_output")
def from_output(m, inst, c, q, d, dst):
    t = m.place_ty(inst, c.dest)
    nd = dict(d)
    if t and t[0] == "adt" and t[1] in (RES, OPT):
        return [(q, finish(m, c, nd, dst, {((), "v"): "Ok" if t[1] == RES else "Some"}))]
    return None


# ---------------------------------------------------------------- unwrapping
def _unwrap(good):
    def f(m, inst, c, q, d, dst):
        k = arg_key(m, c, 0, d)
        out = []
        for v, nd in fork(m, d, k, (good,)):
            out.append((q, finish(m, c, nd, dst, payload(m, nd, k, good))))
        return out
    return f


for n in ("unwrap", "expect"):
    MODELS[f"{OPT}::{n}"] = _unwrap("Some")
    MODELS[f"{RES}::{n}"] = _unwrap("Ok")
for n in ("unwrap_err", "expect_err"):
    MODELS[f"{RES}::{n}"] = _unwrap("Err")


def _unwrap_or(good, bad):
    def f(m, inst, c, q, d, dst):
        k = arg_key(m, c, 0, d)
        out = []
        for v, nd in fork(m, d, k, (good, bad)):
            if v == good:
                fc = payload(m, nd, k, good)
            else:
                fc = {}
                if len(c.args) > 1:
                    a = c.args[1]
                    if a[0] == "c":
                        cv = m.constval(a)
                        if cv is not None:
                            fc[((), "c")] = cv
                    else:
                        ak = m.key(a[1], nd)
                        if ak is not None:
                            fc = {(s, kk): vv for s, kk, vv in m.sub(nd, ak) if kk not in ("p", "cp", "discr")}
            out.append((q, finish(m, c, nd, dst, fc)))
        return out
    return f


MODELS[f"{OPT}::unwrap_or"] = _unwrap_or("Some", "None")
MODELS[f"{RES}::unwrap_or"] = _unwrap_or("Ok", "Err")
MODELS[f"{OPT}::unwrap_or_default"] = _unwrap_or("Some", "None")
MODELS[f"{RES}::unwrap_or_default"] = _unwrap_or("Ok", "Err")


# ---------------------------------------------------------------- conversions between Option and Result
@model(f"{RES}::ok")
def res_ok(m, inst, c, q, d, dst):
    k = arg_key(m, c, 0, d)
    return [(q, finish(m, c, nd, dst, wrap("Some", payload(m, nd, k, "Ok")) if v == "Ok" else gone(nd, k, NONE)))
            for v, nd in fork(m, d, k, ("Ok", "Err"))]


@model(f"{RES}::err")
def res_err(m, inst, c, q, d, dst):
    k = arg_key(m, c, 0, d)
    return [(q, finish(m, c, nd, dst, wrap("Some", payload(m, nd, k, "Err")) if v == "Err" else {((), "v"): "None"}))
            for v, nd in fork(m, d, k, ("Ok", "Err"))]


@model(f"{OPT}::ok_or")
def opt_ok_or(m, inst, c, q, d, dst):
    k = arg_key(m, c, 0, d)
    return [(q, finish(m, c, nd, dst, wrap("Ok", payload(m, nd, k, "Some")) if v == "Some" else gone(nd, k, {((), "v"): "Err"})))
            for v, nd in fork(m, d, k, ("Some", "None"))]


def _run(m, inst, c, argi, facts, q, d):
    """Run the callable passed as argument argi; [(q, env, result facts)]."""
    a = c.args[argi]
    ts = []
    if a[0] == "c":
        if isinstance(a[1], int):
            ty = m.p.mkty(inst.body.crate, a[1], inst.env or None)
            ts = m.r.callable_targets(ty)
    else:
        ty = m.place_ty(inst, a[1])
        if ty is not None:
            ts = m.r.callable_targets(ty)
    if not ts:
        ty = inst.body.crate["types"][a[1]] if a[0] == "c" and isinstance(a[1], int) else None
        if ty is not None and ty["k"] == "fndef" and q is not None:
            r = m.rule.fnitem(m, c, inst.body.crate["defs"][ty["d"]]["name"], facts, q, d)
            if r is not None:
                return [(q2, dict(d), rf) for q2, rf in r]
        if ty is not None and ty["k"] == "fndef" and facts and facts[0]:
            n = inst.body.crate["defs"][ty["d"]]["name"]
            if (n in CONVERSIONS or n in m.rule.label_pass or n.rsplit("::", 1)[-1] in VIEWS) and facts[0].get(((), "l")) is not None:
                return [(q, dict(d), {((), "l"): facts[0][((), "l")]})]
        return [(q, dict(d), {})]
    out = []
    for t in ts:
        if not m.relevant(t) and (len(t.body.blocks) > 60 or t in m.stack):
            nd = dict(d)
            m.havoc_args(c, nd)
            out.append((q, nd, {}))
            continue
        out += m.run_closure_ret(inst, c, t, facts, q, d)
    return out


def _map(cases):
    """cases: variant -> ('run', argi, wrap-variant or None) | ('keep',) | ('const', facts)"""
    def f(m, inst, c, q, d, dst):
        k = arg_key(m, c, 0, d)
        out = []
        for v, nd in fork(m, d, k, tuple(cases)):
            act = cases[v]
            pl = payload(m, nd, k, v)
            if act[0] == "keep":
                facts = wrap(v, pl) if v != "None" else NONE
                if v in ("None", "Err"):
                    facts = gone(nd, k, facts)
                out.append((q, finish(m, c, nd, dst, facts)))
            elif act[0] == "payload":
                out.append((q, finish(m, c, nd, dst, pl)))
            elif act[0] == "const":
                out.append((q, finish(m, c, nd, dst, gone(nd, k, act[1]) if act[1] is NONE else act[1])))
            elif act[0] == "arg":
                a = c.args[act[1]]
                fc = {}
                if a[0] == "c":
                    cv = m.constval(a)
                    if cv is not None:
                        fc[((), "c")] = cv
                else:
                    ak = m.key(a[1], nd)
                    if ak is not None:
                        fc = {(s, kk): vv for s, kk, vv in m.sub(nd, ak) if kk not in ("p", "cp", "discr")}
                out.append((q, finish(m, c, nd, dst, fc)))
            else:
                _, argi, wv = act
                args = [] if v == "None" else [pl]
                q1 = m.rule.edge(m, inst, c.bb, k, v, q, nd) if v in ("None", "Err") and k is not None and q is not None else q
                for q2, d2, rf in _run(m, inst, c, argi, args, q1, nd):
                    rf = wrap(wv, rf) if wv else rf
                    if wv == "Err":
                        rf = gone(nd, k, rf)
                    out.append((q2, finish(m, c, d2, dst, rf)))
        return out
    return f


MODELS[f"{OPT}::map"] = _map({"Some": ("run", 1, "Some"), "None": ("const", NONE)})
MODELS[f"{OPT}::and_then"] = _map({"Some": ("run", 1, None), "None": ("const", NONE)})
MODELS[f"{OPT}::or_else"] = _map({"Some": ("keep",), "None": ("run", 1, None)})
MODELS[f"{OPT}::or"] = _map({"Some": ("keep",), "None": ("arg", 1)})
MODELS[f"{OPT}::and"] = _map({"Some": ("arg", 1), "None": ("const", NONE)})
MODELS[f"{OPT}::unwrap_or_else"] = _map({"Some": ("payload",), "None": ("run", 1, None)})
MODELS[f"{OPT}::map_or"] = _map({"Some": ("run", 2, None), "None": ("arg", 1)})
MODELS[f"{OPT}::map_or_else"] = _map({"Some": ("run", 2, None), "None": ("run", 1, None)})
MODELS[f"{OPT}::is_some_and"] = _map({"Some": ("run", 1, None), "None": ("const", {((), "c"): False})})
MODELS[f"{OPT}::is_none_or"] = _map({"Some": ("run", 1, None), "None": ("const", {((), "c"): True})})
MODELS[f"{RES}::map"] = _map({"Ok": ("run", 1, "Ok"), "Err": ("keep",)})
MODELS[f"{RES}::map_err"] = _map({"Ok": ("keep",), "Err": ("run", 1, "Err")})
MODELS[f"{RES}::and_then"] = _map({"Ok": ("run", 1, None), "Err": ("keep",)})
MODELS[f"{RES}::or_else"] = _map({"Ok": ("keep",), "Err": ("run", 1, None)})
MODELS[f"{RES}::unwrap_or_else"] = _map({"Ok": ("payload",), "Err": ("run", 1, None)})
MODELS[f"{RES}::map_or"] = _map({"Ok": ("run", 2, None), "Err": ("arg", 1)})
MODELS[f"{RES}::map_or_else"] = _map({"Ok": ("run", 2, None), "Err": ("run", 1, None)})
MODELS[f"{RES}::is_ok_and"] = _map({"Ok": ("run", 1, None), "Err": ("const", {((), "c"): False})})
MODELS[f"{RES}::is_err_and"] = _map({"Err": ("run", 1, None), "Ok": ("const", {((), "c"): False})})


@model(f"{OPT}::ok_or_else")
def ok_or_else(m, inst, c, q, d, dst):
    k = arg_key(m, c, 0, d)
    out = []
    for v, nd in fork(m, d, k, ("Some", "None")):
        if v == "Some":
            out.append((q, finish(m, c, nd, dst, wrap("Ok", payload(m, nd, k, "Some")))))
        else:
            q1 = m.rule.edge(m, inst, c.bb, k, v, q, nd) if k is not None and q is not None else q
            for q2, d2, rf in _run(m, inst, c, 1, [], q1, nd):
                out.append((q2, finish(m, c, d2, dst, gone(nd, k, wrap("Err", rf)))))
    return out


def branch(m, inst, c, q, d, rf, tv):
    """Tell the rule that the boolean described by rf is known to be tv."""
    if q is None:
        return None
    nd = dict(d)
    for (s, kk), v in rf.items():
        nd[(("$",) + s, kk)] = v
    return m.rule.edge(m, inst, c.bb, ("$",), tv, q, nd)


@model(f"{OPT}::filter")
def opt_filter(m, inst, c, q, d, dst):
    k = arg_key(m, c, 0, d)
    out = []
    for v, nd in fork(m, d, k, ("Some", "None")):
        if v == "None":
            out.append((q, finish(m, c, nd, dst, gone(nd, k, NONE))))
            continue
        pl = payload(m, nd, k, "Some")
        for q2, d2, rf in _run(m, inst, c, 1, [{(("*",) + sk, kind): x for (sk, kind), x in pl.items() if kind in ("l", "v", "c")}], q, nd):
            b = rf.get(((), "c"))
            if b is not False:
                out.append((branch(m, inst, c, q2, d2, rf, True), finish(m, c, dict(d2), dst, wrap("Some", pl))))
            if b is not True:
                out.append((branch(m, inst, c, q2, d2, rf, False), finish(m, c, dict(d2), dst, NONE)))
    return out


@model("core::bool::then", "bool::then", "core::bool::then_some", "bool::then_some")
def bool_then(m, inst, c, q, d, dst):
    k = arg_key(m, c, 0, d)
    some = c.name.endswith("_some")
    pl = {}
    if some and len(c.args) > 1:
        pk = arg_key(m, c, 1, d)
        if pk is not None:
            pl = {(s, kk): vv for s, kk, vv in m.sub(d, pk) if kk not in ("p", "cp", "discr")}
        else:
            v = m.constval(c.args[1])
            pl = {((), "c"): v} if v is not None else {}
    out = []
    for tv in (True, False):
        nd = dict(d)
        if k is not None and not m.refine_bool(nd, k, tv):
            continue
        q1 = m.rule.edge(m, inst, c.bb, k, tv, q, nd) if k is not None and q is not None else q
        if not tv:
            out.append((q1, finish(m, c, nd, dst, NONE)))
        elif some:
            out.append((q1, finish(m, c, nd, dst, wrap("Some", pl))))
        else:
            for q2, d2, rf in _run(m, inst, c, 1, [], q1, nd):
                out.append((q2, finish(m, c, d2, dst, wrap("Some", rf))))
    return out


# ---------------------------------------------------------------- references to options
def _as_ref(m, inst, c, q, d, dst):
    k0 = arg_key(m, c, 0, d)
    k = deref(k0, d)
    nd = dict(d)
    m.move_args(c, nd)
    if dst is None:
        return [(q, nd)]
    m.kill(nd, dst)
    if k is not None:
        v = nd.get((k, "v"))
        mut = c.name.endswith("_mut")
        if (k, "l") in nd:
            nd[(dst, "l")] = nd[(k, "l")]
        if v is not None:
            nd[(dst, "v")] = v
        else:
            nd[(dst, "cp")] = k
        for var in ("Some", "Ok", "Err"):
            nd[(dst + PAYLOAD[var], "r")] = (k + PAYLOAD[var], mut)
    return [(q, nd)]


for n in ("as_ref", "as_mut", "as_deref", "as_deref_mut"):
    MODELS[f"{OPT}::{n}"] = _as_ref
    MODELS[f"{RES}::{n}"] = _as_ref


@model(f"{OPT}::cloned", f"{OPT}::copied")
def cloned(m, inst, c, q, d, dst):
    k = arg_key(m, c, 0, d)
    out = []
    for v, nd in fork(m, d, k, ("Some", "None")):
        if v == "None":
            out.append((q, finish(m, c, nd, dst, gone(nd, k, NONE))))
        else:
            pk = deref(k + PAYLOAD["Some"], nd) if k is not None else None
            fc = {(s, kk): vv for s, kk, vv in m.sub(nd, pk) if kk not in ("p", "cp", "discr")} if pk else {}
            out.append((q, finish(m, c, nd, dst, wrap("Some", fc))))
    return out


@model("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned")
def clone(m, inst, c, q, d, dst):
    k = deref(arg_key(m, c, 0, d), d)
    nd = dict(d)
    fc = {}
    if k is not None:
        fc = {(s, kk): vv for s, kk, vv in m.sub(nd, k) if kk not in ("p", "cp", "discr")}
        if ((), "v") not in fc and ((), "c") not in fc:
            fc[((), "cp")] = k
    l = m.labels(c.args[0], d)
    if l is not None:
        fc.setdefault(((), "l"), l)
    return [(q, finish(m, c, nd, dst, fc))]


@model("core::convert::From::from", "core::convert::Into::into")
def from_into(m, inst, c, q, d, dst):
    nd = dict(d)
    l = m.labels(c.args[0], d) if c.args else None
    k = arg_key(m, c, 0, d)
    if k is not None and not c.targets:
        st, dt = m.place_ty(inst, c.args[0][1]), m.place_ty(inst, c.dest)
        sub = None
        if st is not None and st == dt:
            sub = ()
        elif st is not None and dt is not None and dt[0] == "adt" and dt[1] == OPT and len(dt) > 2 and tuple(dt[2]) == (st,):
            sub = PAYLOAD["Some"]
        if sub is not None:
            fc = {(sub + s, kk): vv for s, kk, vv in m.sub(nd, k) if kk not in ("p", "cp", "discr")}
            if sub:
                fc[((), "v")] = "Some"
            if l is not None:
                fc.setdefault((sub, "l"), l)
            return [(q, finish(m, c, nd, dst, fc))]
    return [(q, finish(m, c, nd, dst, {((), "l"): l} if l is not None else {}))]


@model("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::borrow::Borrow::borrow",
       "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut", "core::borrow::BorrowMut::borrow_mut")
def deref_model(m, inst, c, q, d, dst):
    if c.targets:
        return None
    k = deref(arg_key(m, c, 0, d), d)
    nd = dict(d)
    l = m.labels(c.args[0], d)
    m.move_args(c, nd)
    if dst is not None:
        m.kill(nd, dst)
        if k is not None:
            nd[(dst, "r")] = (k + ("*",), c.name.endswith("_mut"))
            if l is not None and m.label_at(k + ("*",), nd) is None:
                nd[(k + ("*",), "l")] = l
        elif l is not None:
            nd[(dst, "l")] = l
    return [(q, nd)]


@model("core::mem::replace", "core::mem::take", f"{OPT}::take", f"{OPT}::replace")
def replace(m, inst, c, q, d, dst):
    k = arg_key(m, c, 0, d)
    r = d.get((k, "r")) if k is not None else None
    nd = dict(d)
    if r is None:
        return None
    k = r[0]
    old = {(s, kk): vv for s, kk, vv in m.sub(nd, k) if kk not in ("p", "cp", "discr")}
    new = {}
    if len(c.args) > 1:
        a = c.args[1]
        if a[0] == "c":
            v = m.constval(a)
            if v is not None:
                new[((), "c")] = v
        else:
            ak = m.key(a[1], nd)
            if ak is not None:
                new = {(s, kk): vv for s, kk, vv in m.sub(nd, ak) if kk not in ("p", "cp", "discr")}
    name = c.name.rsplit("::", 1)[1]
    if c.name.startswith(OPT):
        new = NONE if name == "take" else wrap("Some", new)
    m.kill(nd, k)
    for (s, kk), v in new.items():
        nd[(k + s, kk)] = v
    return [(q, finish(m, c, nd, dst, old))]


def unit_variant(m, inst, op, depth=0):
    """The variant without fields that an operand is a reference to, when it is a constant of the source."""
    b = inst.body
    if op[0] == "c":
        if len(op) > 3 and isinstance(op[3], int) and not isinstance(op[3], bool):
            pb = m.p.promoted.get((b.uid, op[3]))
            if pb is None or len(list(pb.reach)) != 1:
                return None
            vs = [s[2][1] for s in pb.blocks[0]["s"] if s[0] == "=" and s[2][0] == "agg"]
            if len(vs) == 1 and vs[0][0] == "adt" and not any(s[2][2] for s in pb.blocks[0]["s"] if s[0] == "=" and s[2][0] == "agg"):
                return vs[0][2]
        return None
    ds = b.assigns.get(op[1][0], ())
    if depth > 6 or len(ds) != 1 or any(not isinstance(e, str) for e in op[1][1:]):
        return None
    rv = ds[0][2]
    if rv[0] == "use":
        return unit_variant(m, inst, rv[1], depth + 1)
    if rv[0] == "ref":
        return unit_variant(m, inst, ["p", rv[2]], depth + 1)
    if rv[0] == "agg" and rv[1][0] == "adt" and not rv[2]:
        return rv[1][2]
    return None


def const_some(m, inst, op, depth=0):
    """(variant, value) when the operand refers to a constant such as Some(2)."""
    b = inst.body
    if op[0] != "c":
        ds = b.assigns.get(op[1][0], ())
        if depth > 6 or len(ds) != 1 or any(not isinstance(e, str) for e in op[1][1:]):
            return None
        rv = ds[0][2]
        return const_some(m, inst, rv[1] if rv[0] == "use" else ["p", rv[2]], depth + 1) if rv[0] in ("use", "ref") else None
    if len(op) < 4 or not isinstance(op[3], int) or isinstance(op[3], bool):
        return None
    pb = m.p.promoted.get((b.uid, op[3]))
    if pb is None or len(list(pb.reach)) != 1:
        return None
    ags = [s[2] for s in pb.blocks[0]["s"] if s[0] == "=" and s[2][0] == "agg"]
    if len(ags) != 1 or ags[0][1][0] != "adt" or len(ags[0][2]) != 1 or ags[0][2][0][0] != "c":
        return None
    return ags[0][1][2], m.constval(ags[0][2][0])


def enum_eq(m, inst, c, ne, ka, kb, nd, dst):
    """Comparison with a variant that has no fields tells which variant it is (derived implementations only)."""
    if c.targets and not all(t.body.derived for t in c.targets):
        return
    for k, other in ((ka, 1), (kb, 0)):
        if k is None:
            continue
        v = unit_variant(m, inst, c.args[other]) or nd.get(((ka, kb)[other], "v")) if (ka, kb)[other] else unit_variant(m, inst, c.args[other])
        t = m.place_ty(inst, c.args[1 - other][1]) if c.args[1 - other][0] != "c" else None
        while t is not None and t[0] == "ref":
            t = t[2]
        adt = m.p.adts.get(t[1]) if t is not None and t[0] == "adt" else None
        if v is None or adt is None or not adt.get("v") or any(x["f"] for x in adt["v"] if x["n"] == v) or v not in {x["n"] for x in adt["v"]}:
            continue
        if v in nd.get((k, "nv"), ()):
            nd[(dst, "c")] = ne
        elif nd.get((k, "v")) is not None:
            nd[(dst, "c")] = (nd[(k, "v")] == v) != ne
        else:
            nd[(dst, "p")] = ("isntv" if ne else "isv", k, v)
        return


@model("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def eq(m, inst, c, q, d, dst):
    ka, kb = deref(arg_key(m, c, 0, d), d), deref(arg_key(m, c, 1, d), d)
    nd = dict(d)
    m.move_args(c, nd)
    if dst is None:
        return [(q, nd)]
    m.kill(nd, dst)
    ne = (c.declared or c.name).endswith("::ne")
    va = nd.get((ka, "v")) if ka else None
    vb = nd.get((kb, "v")) if kb else None
    ca = nd.get((ka, "c")) if ka else None
    cb = nd.get((kb, "c")) if kb else None
    if ca is not None and cb is not None:
        nd[(dst, "c")] = (ca == cb) != ne
    elif va is not None and vb is not None and va != vb:
        nd[(dst, "c")] = ne
    else:
        for k, other in ((ka, 1), (kb, 0)):
            cs = const_some(m, inst, c.args[other]) if k is not None and nd.get((k, "v")) is not None else None
            if cs is not None:
                v = nd[(k, "v")]
                x = nd.get((k + (("d", v), F0), "c"))
                if v != cs[0]:
                    nd[(dst, "c")] = ne
                elif x is not None and cs[1] is not None:
                    nd[(dst, "c")] = (x == cs[1]) != ne
                return [(q, nd)]
        enum_eq(m, inst, c, ne, ka, kb, nd, dst)
    return [(q, nd)]


@model("core::ops::bit::Not::not")
def notop(m, inst, c, q, d, dst):
    k = deref(arg_key(m, c, 0, d), d)
    nd = dict(d)
    if dst is not None:
        m.kill(nd, dst)
        if k is not None:
            nd[(dst, "p")] = ("not", k)
    return [(q, nd)]


@model("crossbeam_utils::thread::scope", "std::thread::scoped::scope", "std::panic::catch_unwind")
def run_once(m, inst, c, q, d, dst):
    out = []
    for q2, d2, rf in _run(m, inst, c, 0, [None], q, dict(d)):
        wrapped = wrap("Ok", rf) if not c.name.startswith("std::thread") else rf
        out.append((q2, finish(m, c, d2, dst, wrapped)))
    return out
