"""P27: styles follow the scopes plugins sent, the text and the theme."""
from collections import namedtuple

from ..esp import LoopRule, Machine
from ..lib import *
from .edit_flow import PEER
from .view_state import targets

CS = "xi_core_lib::tabs::"
TSM = "xi_core_lib::styles::ThemeStyleMap::"
LAYERS = "xi_core_lib::layers::Layers::"
LAYER = "xi_core_lib::layers::ScopeLayer::"
THEME = ("theme", "theme_name", "default_style", "map", "styles")
EMPTYING = ("clear", "take", "drain")


def owned(place, owner, names):
    f = field_of_place(place)
    return f[1] if f is not None and f[1] in names and last(f[0]) == owner else None


def from_field(b, op, owner, names):
    o = origin(b, op)
    return o[1] if o is not None and o[0] != "arg" and last(o[0]) == owner and o[1] in names else None


class Swap(LoopRule):
    """The theme, its name, the default style and the numbering of styles are replaced together, by the theme asked for."""
    label_prefix = True
    label_pass = {"alloc::borrow::ToOwned::to_owned", "core::clone::Clone::clone", "alloc::string::ToString::to_string", "core::ops::deref::Deref::deref", "core::convert::From::from", "core::convert::Into::into",
                  "core::convert::AsRef::as_ref", "core::option::Option::cloned"}

    def __init__(self, values):
        self.values = values
        self.n = dict.fromkeys(("themes replaced", "told", "views"), 0)

    def kind(self, c):
        n = last(c.declared or c.name)
        if n in EMPTYING and from_field(c.inst.body, c.args[0], "ThemeStyleMap", ("map", "styles")) if c.args else False:
            return "empty"
        if self.values:
            if n in ("get", "get_mut", "index", "remove") and has_adt(arg_ty(c, 0) or ("p", ""), "Theme"):
                return "find"
            if targets(c, "xi_core_lib::styles::Style::default_for_theme"):
                return "default"
            return None
        if targets(c, "xi_core_lib::client::Client::theme_changed"):
            return "tell"
        if targets(c, LAYERS + "theme_changed"):
            return "layers"
        if targets(c, "xi_core_lib::view::View::set_dirty"):
            return "view"
        return None

    def event(self, c):
        return self.kind(c) is not None

    def opaque(self, c):
        return self.event(c) or "xi_trace" in c.name or trait_method(c, "Peer", PEER) or any(t.body.name.startswith(TSM) and last(t.body.name) not in self.writers for t in c.targets) or \
            not self.values and any(t.body.name.startswith("xi_core_lib::event_context::EventContext::") and t.body.uid not in self.deep for t in c.targets)

    def loop(self, c):
        t = arg_ty(c, 0)
        return "ctx" if not self.values and t is not None and t[0] == "adt" and t[1] == CS + "Iter" and last(c.declared or "") in ("next", "for_each") else None

    def step(self, m, c, q, tok, more):
        w, told, st, ed, vw = q
        if st == "done":
            return q
        if st.startswith("item"):
            st = "item" if st == "item" and ed and vw else "item-" + ("styles" if not ed else "views") if st == "item" else st
        if not more:
            return (w, told, "done" if st in ("", "item") else st[5:], False, False)
        return (w, told, st if st.startswith("item") else "item", False, False)

    def interesting_stmt(self, body, s):
        return s[0] == "=" and owned(s[1], "ThemeStyleMap", THEME) is not None

    def written(self, f, q):
        return (q[0] | {f}, False, "", False, False)

    def stmt(self, m, inst, bb, s, q, d):
        f = owned(s[1], "ThemeStyleMap", THEME) if s[0] == "=" and len(s[1]) > 1 else None
        if q is None or f is None:
            return q
        b = inst.body if hasattr(inst, "body") else inst
        if len([e for e in s[1] if isinstance(e, list) and e[0] == "f"]) != 1:
            return q
        self.n["themes replaced"] += 1
        if self.values:
            want = {"theme": "found", "theme_name": "name", "default_style": "default"}.get(f)
            l = m.labels(s[2][1], d) if s[2][0] == "use" else None
            if want and l != want:
                m.report(f"value:{f}", f"{f} is replaced by something that does not belong to the theme asked for", b, s[-1] if isinstance(s[-1], int) else b.line)
        return self.written(f, q)

    def on_event(self, m, c, q, d):
        k = self.kind(c)
        b = c.inst.body
        w, told, st, ed, vw = q
        if k == "empty":
            return [(self.written(from_field(b, c.args[0], "ThemeStyleMap", ("map", "styles")), q), {})]
        if k == "find":
            l = m.labels(c.args[1], d)
            fs = {((), "l"): "found"} if l == "name" else {}
            if last((dest_ty(c) or ("p", ""))[1]) == "Option":
                return [(q, {((), "v"): "Some", **({((("d", "Some"), ("f", 0)), "l"): "found"} if fs else {})}), (q, {((), "v"): "None"})]
            return [(q, fs)]
        if k == "default":
            l = m.labels(c.args[0], d)
            return [(q, {((), "l"): "default"} if l == "found" or from_field(b, c.args[0], "ThemeStyleMap", ("theme",)) and "theme" in w else {})]
        if k == "tell":
            self.n["told"] += 1
            return [((w, True, st, ed, vw), {})]
        if k == "layers":
            return [((w, told, st, True, vw), {})]
        if k == "view":
            self.n["views"] += 1
            return [((w, told, st, ed, True), {})]
        return None


def swap(ctx):
    stores = {}
    for b in ctx.p.bodies.values():
        if ctx.tests(b):
            continue
        fs = {owned(s[1], "ThemeStyleMap", THEME) for blk in b.reach for s in b.blocks[blk]["s"] if s[0] == "="} - {None}
        if fs & {"theme", "theme_name", "default_style"}:
            stores[b.uid] = b
    ctx.expect(bool(stores), "anchor", "the theme is replaced somewhere", "anchor:theme-stores")
    for b in stores.values():
        ctx.expect(b.name.startswith(TSM), "owner", f"{b.name} replaces the theme", f"owner:{b.name}")
    insts = {}
    for i in ctx.insts():
        insts.setdefault(i.body.uid, i)
    up = set(stores)
    work = list(stores)
    while work:
        for i in ctx.callers(work.pop()):
            if i.body.uid not in up:
                up.add(i.body.uid)
                work.append(i.body.uid)
    writers = {last(ctx.p.bodies[u].name) for u in up if ctx.p.bodies[u].name.startswith(TSM)}
    # A: the values stored
    rule = Swap(True)
    rule.writers, rule.deep = writers, set()
    outer = [u for u in up if ctx.p.bodies[u].name.startswith(TSM) and "{closure" not in ctx.p.bodies[u].name and
             any(not i.body.name.startswith(TSM) for i in ctx.callers(u))]
    ctx.expect(bool(outer), "anchor", "methods that replace the theme", "anchor:outer")
    for u in outer:
        b = ctx.p.bodies[u]
        env = {}
        for i in range(2, b.argc + 1):
            t = ctx.p.mkty(b.crate, b.locals[i])
            while t is not None and t[0] == "ref":
                t = t[2]
            if t is not None and (t[0] == "p" and t[1] == "str" or t[0] == "adt" and last(t[1]) == "String" or t[0] == "str"):
                env[((i,), "l")] = "name"
        m = Machine(ctx.p, ctx.r, rule)
        for q, f in m.run(insts[u], (frozenset(), False, "", False, False), env):
            v = next((x for (k, kind), x in f if kind == "v" and k == (0,)), None)
            full = q[0] | {"styles"} == frozenset(THEME)        # numbers may go on from where they were
            ok = full if v == "Ok" else not q[0] if v == "Err" else full or not q[0]
            ctx.expect(ok, "together", f"{last(b.name)} ({v}): {sorted(q[0])}", f"together:{last(b.name)}:{v}:{','.join(sorted(q[0]))}",
                       f"{b.name} returns {v or 'normally'} having replaced only {sorted(q[0]) or 'nothing'} of {list(THEME)}", b.loc(b.line))
        ctx.take(m, "theme")
    # B: who is told
    rule2 = Swap(False)
    rule2.writers = writers
    edit = ctx.fn("xi_core_lib::event_context::EventContext::do_edit").uid
    lc = {i.body.uid for i in ctx.callers(ctx.fn(LAYERS + "theme_changed").uid)}
    deep, work = set(lc), list(lc)
    while work:
        for i in ctx.callers(work.pop()):
            if i.body.uid not in deep:
                deep.add(i.body.uid)
                work.append(i.body.uid)
    rule2.deep = deep | {ctx.fn("xi_core_lib::event_context::EventContext::with_editor").uid} | \
        {b.uid for b in ctx.p.bodies.values() if b.name.startswith("xi_core_lib::event_context::EventContext::with_")}
    for i in ctx.insts():
        if i.body.name.startswith("xi_core_lib::event_context::EventContext::") and any(targets(c, "xi_core_lib::view::View::set_dirty") for c in ctx.r.calls(i).values()):
            rule2.deep.add(i.body.uid)
    core = {u for u in up if ctx.p.bodies[u].name.startswith(CS + "CoreState::") and "{closure" not in ctx.p.bodies[u].name}
    low = {u for u in core if edit not in {i.body.uid for i in ctx.reachable([insts[u]])}}
    roots = {u for u in low if not all(i.body.uid in low for i in ctx.callers(u))}
    roots |= {u for u in core - low if any(any(t.body.uid in up and t.body.name.startswith(TSM) for t in c.targets) for c in ctx.r.calls(insts[u]).values())}
    ctx.expect(len(roots) >= 2, "anchor", f"{len(roots)} causes of a change of theme", "anchor:causes")
    for u in sorted(roots, key=str):
        b = ctx.p.bodies[u]
        m = Machine(ctx.p, ctx.r, rule2)
        for q, _ in m.run(insts[u], (frozenset(), False, "", False, False), {}):
            w, told, st, ed, vw = q
            ctx.expect(not w or told, "told", f"{last(b.name)}: frontend told", f"told:{last(b.name)}", f"{b.name} changes the theme without telling the frontend", b.loc(b.line))
            ctx.expect(not w or st == "done", "every-buffer", f"{last(b.name)}: every buffer looked at", f"buffers:{last(b.name)}", f"{b.name} changes the theme without {'having every view drawn anew' if st == 'views' else 'computing the styles of every buffer anew'}", b.loc(b.line))
        ctx.take(m, "change")
    ctx.expect(rule.n["themes replaced"] >= 3 and rule2.n["told"] >= 1 and rule2.n["views"] >= 1, "anchor", f"events {rule.n} {rule2.n}", "anchor:swap")


# ---------------------------------------------------------------------------------------------- layers
L = namedtuple("L", "tok first iops gops pend miss seen")
SPANS = ("scope_spans", "style_spans", "style_lookup", "stack_lookup", "style_cache")


class Lay(LoopRule):
    """What each operation does to the spans of each layer and to the merged ones."""
    label_prefix = True
    track_consts = True
    label_pass = {"alloc::borrow::ToOwned::to_owned", "core::clone::Clone::clone", "core::ops::deref::Deref::deref", "core::option::Option::cloned", "alloc::vec::Vec::as_slice"}

    def __init__(self, want):
        self.want = want
        self.n = dict.fromkeys(("layers", "moved", "stored", "combined", "spans"), 0)

    def fld(self, c, i=0):
        if len(c.args) <= i:
            return None
        return from_field(c.inst.body, c.args[i], "Layers", ("merged",)) or from_field(c.inst.body, c.args[i], "ScopeLayer", SPANS)

    def src(self, m, c, i, d):
        return m.labels(c.args[i], d) or self.fld(c, i)

    def kind(self, c):
        for t in c.targets:
            b = t.body.name
            if b in ("xi_rope::tree::Node::apply_shape", "xi_rope::tree::Node::edit", "xi_rope::tree::Node::subseq", "xi_rope::tree::Node::merge", "xi_rope::tree::Node::len", "xi_rope::tree::Node::iter",
                     "xi_rope::spans::SpansBuilder::new", "xi_rope::spans::SpansBuilder::add_span", "xi_rope::spans::SpansBuilder::build", "xi_rope::delta::Delta::summary"):
                return last(b)
            if b in ("xi_rope::interval::Interval::new", "xi_rope::interval::Interval::union", "xi_rope::interval::Interval::start", "xi_rope::interval::Interval::end"):
                return "iv-" + last(b)
            if b == "<xi_rope::spans::SpanIter as core::iter::traits::iterator::Iterator>::next":
                return "span"
            if t.body.uid in self.stylers:
                return "stylers"
        n = last(c.declared or c.name)
        if n in ("get", "index") and self.fld(c) == "style_lookup":
            return "style"
        if n in EMPTYING and self.fld(c) == "style_cache":
            return "clear"
        if n in ("clone", "to_owned") and self.fld(c) in ("scope_spans", "style_spans", "stack_lookup"):
            return "clone"
        if n == "is_empty" and from_field(c.inst.body, c.args[0], "Layers", ("layers",)):
            return "none"
        if n == "remove" and from_field(c.inst.body, c.args[0], "Layers", ("layers",)):
            return "remove"
        return None

    def event(self, c):
        return self.kind(c) is not None

    def opaque(self, c):
        return self.event(c) or "xi_trace" in c.name or c.name.startswith("log::")

    def loop(self, c):
        t = arg_ty(c, 0)
        if t is None or not has_adt(t, "ScopeLayer") or last(c.declared or "") not in ("next", "for_each"):
            return None
        if mentions(t, lambda x: x[0] == "adt" and last(x[1]) in ("Filter", "Skip", "Take", "StepBy")):
            return None
        return "all" if mentions(t, lambda x: x[0] == "adt" and last(x[1]) in ("ValuesMut", "IterMut")) else "values"

    def step(self, m, c, q, tok, more):
        if q.tok is not None:
            self.n["layers"] += 1
            miss = ({"sub"} | (set() if q.first else {"merge"}) if tok == "values" else self.want) - q.iops
            if miss:
                m.report(f"layer:{tok}:{','.join(sorted(map(str, miss)))}", f"one of the layers is left out ({', '.join(self.say(x) for x in sorted(miss))} missing)", c.inst.body, c.line)
        g = q.gops
        if q.tok is None:
            g = g | {x for x in q.iops if x not in ("sub", "merge")}
        if not more:
            g = g | ({"none"} if tok == "values" and q.tok is None else {tok})      # no first layer: there are none
        return q._replace(tok=tok if more else None, first=q.tok is None, iops=frozenset(), gops=g)

    @staticmethod
    def say(x):
        return {"sub": "its styles", "merge": "combining", "clear": "forgetting cached styles", "lookup": "styles of its stacks"}.get(x, x)

    def binop(self, m, inst, op, a, b, d):
        if op.startswith("Add"):
            ls = {m.labels(x, d) for x in (a, b) if x[0] != "c"}
            if ls == {"changed.start", "newlen"}:
                return ("l", "new.end")
        return None

    def interesting_stmt(self, body, s):
        return s[0] == "=" and (owned(s[1], "Layers", ("merged",)) or owned(s[1], "ScopeLayer", SPANS)) is not None

    def stmt(self, m, inst, bb, s, q, d):
        if q is None or s[0] != "=" or len(s[1]) < 2:
            return q
        f = owned(s[1], "Layers", ("merged",)) or owned(s[1], "ScopeLayer", SPANS)
        if f is None:
            return q
        l = m.labels(s[2][1], d) if s[2][0] == "use" else None
        b = inst.body if hasattr(inst, "body") else inst
        line = s[-1] if isinstance(s[-1], int) else b.line
        if f == "merged":
            if l != "blank(merged)":
                m.report("store:merged", "the combined styles are replaced by something other than blank ones of the same length", b, line)
            return q._replace(gops=q.gops | {"blank"})
        if f == "style_spans":
            if l != "blank(style_spans)":
                m.report("store:style_spans", "a layer's styles are replaced by something other than blank ones of the same length", b, line)
            return q
        if f == "style_lookup":
            return q._replace(iops=q.iops | {"lookup"} if l == "styles(stack_lookup)" else q.iops | {f"lookup={l}"})
        if f == "style_cache":
            return q._replace(iops=q.iops | {"clear"})
        m.report(f"store:{f}", f"{f} of a layer is replaced", b, line)
        return q

    def on_event(self, m, c, q, d):
        k = self.kind(c)
        b = c.inst.body
        if k is None:
            return None
        ls = [m.labels(a, d) for a in c.args]
        f = self.fld(c)
        if k == "apply_shape":
            self.n["moved"] += 1
            key = f"shape:{f}"
            if f is None or ls[1] != "delta":
                m.report("shape", "spans are moved by something other than the change made", b, c.line)
            if key in q.iops | q.gops:
                m.report(f"shape-twice:{f}", f"{f} is moved twice by one change", b, c.line)
            return [(q._replace(gops=q.gops | {key}) if f == "merged" else q._replace(iops=q.iops | {key}), {})]
        if k == "summary":
            return [(q, {((("f", 0), ("f", 0)), "l"): "changed.start", ((("f", 0), ("f", 1)), "l"): "changed.end", ((("f", 0),), "l"): "changed", ((("f", 1),), "l"): "newlen"} if ls[0] == "delta" else {})]
        if k in ("iv-start", "iv-end"):
            return [(q, {((), "l"): f"{ls[0]}.{k[3:]}"} if ls[0] else {})]
        if k == "iv-union":
            q = q._replace(pend=max(q.pend - 1, 0), miss=False)
            return [(q, {((), "l"): ls[0]} if ls[0] and ls[0] == ls[1] else {})]
        if k == "iv-new":
            z = m.opconst(c.args[0], d) == 0
            l = f"all({ls[1][4:-1]})" if z and ls[1] and ls[1].startswith("len(") else "new" if ls[0] == "changed.start" and ls[1] == "new.end" else "changed" if ls == ["changed.start", "changed.end"] else \
                "iv" if ls == ["iv.start", "iv.end"] else None
            return [(q, {((), "l"): l} if l else {})]
        if k == "len":
            s = self.src(m, c, 0, d)
            return [(q, {((), "l"): "len(" + (s[6:-1] if s.startswith("blank(") else s) + ")"} if s else {})]
        if k == "new":
            return [(q._replace(pend=0, miss=False, seen=None), {((), "l"): f"blank({ls[0][4:-1]})"} if ls[0] and ls[0].startswith("len(") else {})]
        if k == "iter":
            s = self.src(m, c, 0, d)
            return [(q, {((), "l"): f"it({s})"} if s else {})]
        if k == "span":
            if not (ls[0] or "").startswith("it("):
                return [(q, {((), "v"): v}) for v in ("Some", "None")]
            self.n["spans"] += 1
            s = ls[0][3:-1]
            if q.pend >= 2:
                if not q.miss:
                    m.report("span-lost", "a span of the scopes is not turned into a span of the styles", b, c.line)
                q = q._replace(pend=1, miss=False)
            elif q.miss:
                q = q._replace(pend=0, miss=False)
            return [(q._replace(pend=q.pend + 1), {((), "v"): "Some", ((("d", "Some"), ("f", 0), ("f", 0)), "l"): f"iv of {s}", ((("d", "Some"), ("f", 0), ("f", 1)), "l"): f"val of {s}"}), (q, {((), "v"): "None"})]
        if k == "style":
            l = ls[1]
            fs = f"style of {l[7:]}" if l and l.startswith("val of ") else None
            if last((dest_ty(c) or ("p", ""))[1]) == "Option":
                return [(q, {((), "v"): "Some", **({((("d", "Some"), ("f", 0)), "l"): fs} if fs else {})}), (q._replace(miss=True), {((), "v"): "None"})]
            return [(q, {((), "l"): fs} if fs else {})]
        if k == "add_span":
            s = ls[1][6:] if ls[1] and ls[1].startswith("iv of ") else None
            if s is None or ls[2] != f"style of {s}":
                m.report("span-style", "a span is given another style than that of its scopes", b, c.line)
            return [(q._replace(pend=max(q.pend - 1, 0), miss=False, seen=s), {})]
        if k == "build":
            if q.pend and not q.miss:
                m.report("span-lost", "the last span of the scopes is not turned into a span of the styles", b, c.line)
            l = f"styled({q.seen})" if q.seen else ls[0]
            return [(q._replace(pend=0, miss=False, seen=None), {((), "l"): l} if l else {})]
        if k == "subseq":
            if f != "style_spans":
                return [(q, {})]
            return [(q._replace(iops=q.iops | {"sub"}), {((), "l"): f"part@{ls[1]}"} if ls[1] else {})]
        if k == "merge":
            ok = ls[0] and ls[0].startswith("part@") and ls[0] == ls[1]
            return [(q._replace(iops=q.iops | {"merge"}) if ok else q, {((), "l"): ls[0]} if ok else {})]
        if k == "edit":
            self.n["stored"] += 1
            if f == "merged":
                self.n["combined"] += 1
                if ls[1] is None or ls[2] != f"part@{ls[1]}" or "values" not in q.gops:
                    m.report("combine", "the combined styles are not those of all layers for the range they replace", b, c.line)
                if ls[1] not in self.ranges:
                    m.report(f"range:{ls[1]}", f"styles are combined for another range than the one concerned ({ls[1]})", b, c.line)
                return [(q._replace(gops=(q.gops | {f"combine:{ls[1]}"}) - {"values"}), {})]
            if f in ("scope_spans", "style_spans"):
                return [(q._replace(iops=q.iops | {(f"{f}:{ls[1]}={ls[2]}").replace("blank(", "styled(") if f == "style_spans" else f"{f}:{ls[1]}={ls[2]}"}), {})]
            return [(q, {})]
        if k == "clear":
            return [(q._replace(iops=q.iops | {"clear"}), {})]
        if k == "clone":
            return [(q, {((), "l"): self.src(m, c, 0, d)})]
        if k == "stylers":
            s = self.src(m, c, 1, d)
            ok = "clear" in q.iops or "clear" not in self.want
            return [(q, {((), "l"): f"styles({s})"} if s and ok else {})]
        if k == "none":
            return [(q._replace(gops=q.gops | {"none"}), {((), "c"): True}), (q, {((), "c"): False})]
        if k == "remove":
            return [(q._replace(gops=q.gops | {"removed"}), {((), "v"): "Some"}), (q, {((), "v"): "None"})]
        return None


def run_layers(ctx):
    stylers = {b.uid for b in ctx.p.bodies.values() if b.name.startswith(LAYER) and "{closure" not in b.name and not ctx.tests(b) and
               (ctx.p.mkty(b.crate, b.locals[0]) or ("",))[0] == "adt" and has_adt(ctx.p.mkty(b.crate, b.locals[0]), "Style") and last(ctx.p.mkty(b.crate, b.locals[0])[1]) == "Vec"}
    ctx.expect(len(stylers) == 1, "anchor", "the function giving stacks their styles", "anchor:stylers")
    tot = {}
    cases = [("update_all", {2: "delta"}, {"shape:style_spans", "shape:scope_spans"}, ("new", "all(merged)"), lambda g, i: "shape:merged" in g and "all" in g),
             ("update_layer", {3: "iv", 4: "spans"}, {"scope_spans:iv=spans", "style_spans:iv=styled(spans)"}, ("iv",), None),
             ("remove_layer", {}, set(), ("all(merged)",), lambda g, i: "removed" not in g or "none" in g and "blank" in g or "combine:all(merged)" in g),
             ("theme_changed", {}, {"clear", "lookup", "style_spans:all(style_spans)=styled(scope_spans)"}, ("all(merged)",), lambda g, i: "all" in g and ("none" in g and "blank" in g or "combine:all(merged)" in g))]
    for name, labels, want, ranges, good in cases:
        rule = Lay(frozenset(want))
        rule.stylers, rule.ranges = stylers, ranges
        root = ctx.inst(LAYERS + name)
        b = root.body
        m = Machine(ctx.p, ctx.r, rule)
        for q, _ in m.run(root, L(None, True, frozenset(), frozenset(), 0, False, None), {((i,), "l"): l for i, l in labels.items()}):
            if name == "update_layer":
                ok = not q.iops and not q.gops or want <= q.iops | q.gops and ("none" in q.gops or "combine:iv" in q.gops)
            else:
                ok = good(q.gops, q.iops)
            ctx.expect(ok, "done", f"{name}: {sorted(q.gops)} {sorted(q.iops)}", f"done:{name}:{','.join(sorted(q.gops))}:{','.join(sorted(q.iops))}",
                       f"{b.name} can end with only this done: {sorted(q.gops) + sorted(q.iops)}", b.loc(b.line))
        ctx.take(m, name)
        for k, v in rule.n.items():
            tot[k] = tot.get(k, 0) + v
    for what, k in tot.items():
        ctx.expect(k >= 1, "anchor", f"{k} {what}", f"anchor:{what}")
    return stylers


# ---------------------------------------------------------------------------------------------- numbers
class Count(LoopRule):
    """One entry per stack, in both tables."""
    label_prefix = True
    label_pass = {"core::ops::deref::Deref::deref", "alloc::vec::Vec::as_slice", "alloc::vec::Vec::drain", "core::iter::traits::collect::IntoIterator::into_iter"}

    def __init__(self, elem, stylers):
        self.elem, self.stylers = elem, stylers
        self.n = 0

    def vec_of(self, t):
        return t is not None and t[0] == "adt" and last(t[1]) == "Vec" and t[2]

    def stack(self, t):
        """Type of a stack: Vec<Scope> or Vec<String>."""
        return self.vec_of(t) and t[2][0][0] == "adt" and last(t[2][0][1]) in ("Scope", "String")

    def loop(self, c):
        if last(c.declared or "") not in ("next", "for_each"):
            return None
        t = arg_ty(c, 0)
        ok = t is not None and t[0] == "adt" and last(t[1]) in ("Iter", "IntoIter") and any(self.stack(a if a[0] != "ref" else a[2]) for a in t[2])
        return "stack" if ok else None

    def kind(self, c):
        n = last(c.declared or c.name)
        t = arg_ty(c, 0)
        f = from_field(c.inst.body, c.args[0], "ScopeLayer", ("stack_lookup", "style_lookup")) if c.args else None
        if f is not None and n in ("push", "append", "extend", "insert", "clear", "truncate", "extend_from_slice"):
            return "table"
        if n == "push" and self.vec_of(t):
            e = t[2][0]
            if self.elem == "Style" and e[0] == "adt" and last(e[1]) == "Style" or self.elem == "Scope" and self.stack(e) and last(e[2][0][1]) == "Scope":
                return "push"
        if any(t.body.uid in self.stylers for t in c.targets):
            return "styles"
        return None

    def event(self, c):
        return self.kind(c) is not None

    def opaque(self, c):
        return self.event(c) or "xi_trace" in c.name or c.name.startswith("log::")

    def step(self, m, c, q, tok, more):
        st, k, tabs, made = q
        if st == "item":
            self.n += 1
            if k != 1:
                m.report("one-each", f"a stack gets {k} entries, so that later numbers mean other stacks", c.inst.body, c.line)
        return ("item" if more else "done", 0, tabs, made)

    def on_event(self, m, c, q, d):
        k = self.kind(c)
        st, n, tabs, made = q
        b = c.inst.body
        if k == "push":
            return [((st, min(n + 1, 2) if st == "item" else n, tabs, made), {})]
        if k == "styles":
            return [((st, n, tabs, True), {((), "l"): "styles"})]
        if k == "table":
            f = from_field(b, c.args[0], "ScopeLayer", ("stack_lookup", "style_lookup"))
            l = m.labels(c.args[1], d) if len(c.args) > 1 else None
            good = last(c.declared or c.name) in ("append", "extend", "extend_from_slice") and f not in tabs and (l == "styles") == (f == "style_lookup") and (f == "style_lookup" or made)
            if not good:
                m.report(f"table:{f}", f"{f} does not get exactly the entries made for the new stacks, or before their styles are known", b, c.line)
            return [((st, n, tabs | {f}, made), {})]
        return None


class Define(LoopRule):
    """A style that has no number yet gets a new one, which the frontend is told."""
    label_prefix = True
    label_pass = {"core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned"}

    def kind(self, c):
        for t in c.targets:
            if t.body.name in (TSM + "lookup", TSM + "add", TSM + "merge_with_default", "xi_core_lib::styles::Style::to_json", "xi_core_lib::client::Client::def_style"):
                return last(t.body.name)
        return None

    def event(self, c):
        return self.kind(c) is not None

    def opaque(self, c):
        return self.event(c) or trait_method(c, "Peer", PEER)

    def on_event(self, m, c, q, d):
        k = self.kind(c)
        ls = [m.labels(a, d) for a in c.args]
        if k == "lookup":
            if ls[1] != "style":
                return [(q, {})]
            return [("known", {((), "v"): "Some", ((("d", "Some"), ("f", 0)), "l"): "id"}), ("none", {((), "v"): "None"})]
        if k == "add":
            return [("added" if ls[1] == "style" and q == "none" else "bad", {((), "l"): "newid"})]
        if k == "merge_with_default":
            return [(q, {((), "l"): "full"} if ls[1] == "style" else {})]
        if k == "to_json":
            return [(q, {((), "l"): "json"} if ls[0] in ("full", "style") and ls[1] == "newid" else {})]
        if k == "def_style":
            return [("told" if q == "added" and ls[1] == "json" else "bad", {})]
        return None


class Add(LoopRule):
    """ThemeStyleMap::add: the new number is the count of styles so far, plus a constant, and is recorded."""
    label_prefix = True
    track_consts = True
    label_pass = Define.label_pass

    def kind(self, c):
        f = from_field(c.inst.body, c.args[0], "ThemeStyleMap", ("map", "styles")) if c.args else None
        n = last(c.declared or c.name)
        return {("styles", "len"): "len", ("styles", "push"): "push", ("map", "insert"): "insert"}.get((f, n), "other" if f and n not in ("get", "contains_key", "deref", "iter") else None)

    def event(self, c):
        return self.kind(c) is not None

    def opaque(self, c):
        return self.event(c)

    def binop(self, m, inst, op, a, b, d):
        # the label tells how far above the number of styles there were
        if op.startswith(("Add", "Sub")):
            for x, y in ((a, b), (b, a))[:1 if op.startswith("Sub") else 2]:
                l = m.labels(x, d) if x[0] != "c" else None
                v = m.constval(y) if y[0] == "c" else m.opconst(y, d)
                if isinstance(l, str) and l.startswith("len") and (v is None) <= (y[0] == "c"):
                    v = 2 if v is None else int(v)
                    return ("l", f"len{int(l[3:] or 0) + (v if op.startswith('Add') else -v)}")
        return None

    def on_event(self, m, c, q, d):
        k = self.kind(c)
        ls = [m.labels(a, d) for a in c.args]
        if k == "len":
            return [(q, {((), "l"): "len0" if "push" not in q else "len1"})]
        if k == "push":
            return [(q + ("push" if ls[1] == "style" else "bad",), {})]
        if k == "insert":
            return [(q + (f"insert {ls[2]}" if ls[1] == "style" and self.new(ls[2]) else "bad",), {})]
        return [(q + ("bad",), {})] if k else None

    @staticmethod
    def new(l):
        return isinstance(l, str) and l.startswith("len") and int(l[3:] or 0) >= 1


def ret_label(f):
    return next((v for (k, kind), v in f if kind == "l" and k == (0,)), None)


def numbers(ctx, stylers):
    sty = next(iter(stylers))
    insts = {}
    for i in ctx.insts():
        insts.setdefault(i.body.uid, i)
    rule = Count("Style", stylers)
    m = Machine(ctx.p, ctx.r, rule)
    for q, _ in m.run(insts[sty], ("", 0, frozenset(), False), {}):
        ctx.expect(q[0] == "done", "one-style-each", f"styles for stacks until {q[0]}", f"until:{q[0]}")
    ctx.take(m, "styles")
    r2 = Count("Scope", stylers)
    root = ctx.inst(LAYERS + "add_scopes")
    m = Machine(ctx.p, ctx.r, r2)
    for q, _ in m.run(root, ("", 0, frozenset(), False), {}):
        ctx.expect(not q[2] or q[2] == {"stack_lookup", "style_lookup"} and q[0] == "done", "both-tables", f"tables extended: {sorted(q[2])}", f"tables:{sorted(q[2])}:{q[0]}",
                   "the tables of stacks and of their styles no longer match", root.body.loc(root.body.line))
    ctx.take(m, "scopes")
    ctx.expect(rule.n and r2.n, "anchor", "stacks seen", "anchor:stacks")
    # numbers of styles
    root = ctx.inst("xi_core_lib::view::View::get_or_def_style_id")
    pi = next((i for i in range(1, root.body.argc + 1) if has_adt(ctx.p.mkty(root.body.crate, root.body.locals[i]), "Style")), None)
    m = Machine(ctx.p, ctx.r, Define())
    k = 0
    for q, f in m.run(root, "", {((pi,), "l"): "style"}):
        k += 1
        ctx.expect((q, ret_label(f)) in (("known", "id"), ("told", "newid")), "defined", f"number {ret_label(f)} of a style that is {q}", f"defined:{q}:{ret_label(f)}",
                   f"a number is used for a style without the frontend having been told of it ({q}, {ret_label(f)})", root.body.loc(root.body.line))
    ctx.expect(k >= 2, "anchor", f"{k} outcomes of finding a style's number", "anchor:define")
    ctx.take(m, "define")
    for b in ctx.p.bodies.values():
        if not ctx.tests(b) and b.uid != root.body.uid and not b.name.startswith(root.body.name + "::"):
            for i in [insts.get(b.uid, Inst(b))]:
                ctx.expect(not any(targets(c, TSM + "add") for c in ctx.r.calls(i).values()), "defined", f"{b.name} adds no styles", f"adds:{b.name}", "a style gets a number without the frontend being told", b.loc(b.line)) \
                    if any(targets(c, TSM + "add") for c in ctx.r.calls(i).values()) else None
    root = ctx.inst(TSM + "add")
    m = Machine(ctx.p, ctx.r, Add())
    for q, f in m.run(root, (), {((2,), "l"): "style"}):
        ctx.expect(sorted(q) == [f"insert {ret_label(f)}", "push"] and Add.new(ret_label(f)), "fresh", f"a new number: {q}, {ret_label(f)}", f"fresh:{','.join(q)}:{ret_label(f)}", "the number given to a style is not a new one, or is not recorded", root.body.loc(root.body.line))
    ctx.take(m, "add")


def run(ctx):
    swap(ctx)
    sty = run_layers(ctx)
    if sty:
        numbers(ctx, sty)
