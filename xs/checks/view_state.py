"""P26: a view follows every change of its text and selection, and what it sends is what it records as sent."""
from collections import namedtuple

from ..esp import LoopRule, Machine
from ..lib import *
from .edit_flow import PEER

VIEW = "xi_core_lib::view::View::"
LC = "xi_core_lib::line_cache_shadow::"
OPS = ("invalidate", "skip", "copy", "update", "insert")

# wrap: outcome of re-wrapping not yet passed on; shadow, ann, sel: what has been done; hls: about search results
A = namedtuple("A", "wrap wrapped ann hls sel")


def targets(c, *names):
    return any(t.body.name == n for t in c.targets for n in names)


class After(LoopRule):
    """View::after_edit and View::rewrap: every part of the view is brought up to date once with the change."""
    label_prefix = True
    track_consts = True

    def __init__(self):
        self.n = dict.fromkeys(("re-wraps", "adjustments", "annotations", "highlights", "selections"), 0)

    def kind(self, c):
        for t in c.targets:
            b = t.body.name
            if b.startswith("xi_core_lib::linewrap::Lines::") and last(b) in ("after_edit", "rewrap_chunk"):
                return last(b)
            if b in (LC + "LineCacheShadow::edit", LC + "LineCacheShadow::partial_invalidate", VIEW + "set_dirty", "xi_core_lib::annotations::AnnotationStore::invalidate",
                     "xi_core_lib::find::Find::update_highlights", "xi_core_lib::selection::Selection::apply_delta", "xi_rope::delta::Delta::summary"):
                return last(b)
        return None

    def event(self, c):
        return self.kind(c) is not None

    def opaque(self, c):
        return self.event(c) or "xi_trace" in c.name or trait_method(c, "Peer", PEER)

    def loop(self, c):
        t = arg_ty(c, 0)
        return "finds" if t is not None and has_adt(t, "Find") and not mentions(t, lambda x: x[0] == "adt" and last(x[1]) in ("Filter", "Skip", "Take", "StepBy")) else None

    def step(self, m, c, q, tok, more):
        if q.hls == "item":
            m.report("highlight", "the search results of one of the searches are not brought up to date", c.inst.body, c.line)
        return q._replace(hls="item" if more else "done" if q.hls in ("no", "item", "told") else q.hls)

    def interesting_stmt(self, body, s):
        return s[0] == "=" and selection(s[1])

    def binop(self, m, inst, op, a, b, d):
        ls = {m.labels(x, d) for x in (a, b) if x[0] != "c"}
        if op.startswith("Add") and ls == {"start_line", "inval_count"}:
            return ("l", "end_line")
        return None

    def stmt(self, m, inst, bb, s, q, d):
        if q is not None and s[0] == "=" and selection(s[1]):
            self.n["selections"] += 1
            l = m.labels(s[2][1], d) if s[2][0] == "use" else None
            b = inst.body if hasattr(inst, "body") else inst
            if l != "carried" or q.sel:
                m.report("selection", "the selection is not the previous one carried through the change", b, s[-1] if isinstance(s[-1], int) else b.line)
            return q._replace(sel=True)
        return q

    def on_event(self, m, c, q, d):
        k = self.kind(c)
        b = c.inst.body
        ls = [m.labels(a, d) for a in c.args]
        if k in ("after_edit", "rewrap_chunk"):
            self.n["re-wraps"] += 1
            if k == "after_edit" and ls[1:4] != ["text", "last_text", "delta"]:
                m.report("rewrap", "the lines are brought up to date with something other than the change made", b, c.line)
            if q.wrap:
                m.report("lost", "lines reported as changed are not passed on", b, c.line)
            w = q.wrapped + 1
            out = {((), "v"): "Some"}
            for i, f in enumerate(self.fields):
                out[((("d", "Some"), ("f", 0), ("f", i)), "l")] = f
            return [(q._replace(wrap="some", wrapped=w), out), (q._replace(wrap="none" if k == "after_edit" else "", wrapped=w), {((), "v"): "None"})]
        if k == "edit":
            self.n["adjustments"] += 1
            if q.wrap != "some" or ls[1:4] != ["start_line", "end_line", "new_count"]:
                m.report("adjust", f"the frontend's lines are adjusted by something other than the lines reported as changed ({ls[1:4]})", b, c.line)
            return [(q._replace(wrap=""), {})]
        if k == "set_dirty":
            self.n["adjustments"] += 1
            return [(q._replace(wrap=""), {})]
        if k == "summary":
            return [(q, {((("f", 0),), "l"): "changed"} if ls[0] == "delta" else {})]
        if k == "invalidate":
            self.n["annotations"] += 1
            if ls[1] != "changed":
                m.report("annotations", "annotations are dropped for another range than the one changed", b, c.line)
            return [(q._replace(ann=True), {})]
        if k == "update_highlights":
            self.n["highlights"] += 1
            if ls[1:3] != ["text", "delta"]:
                m.report("highlight", "search results are brought up to date with something other than the change made", b, c.line)
            return [(q._replace(hls="told"), {})]
        if k == "apply_delta":
            return [(q, {((), "l"): "carried"} if ls[1] == "delta" and ls[3] == "drift" and (origin(b, c.args[0]) or ("", ""))[1] == "selection" else {})]
        return None


def selection(place):
    f = field_of_place(place)
    return f is not None and f[1] == "selection" and last(f[0]) == "View"


def after_edit(ctx):
    rule = After()
    rule.fields = [f[0] for f in ctx.adt("linewrap::InvalLines")["v"][0]["f"]]
    root = ctx.inst(VIEW + "after_edit")
    names = ("text", "last_text", "delta", "client", "width_cache", "drift")
    m = Machine(ctx.p, ctx.r, rule)
    at = root.body.loc(root.body.line)
    for q, _ in m.run(root, A("", 0, False, "no", False), {((i + 2,), "l"): n for i, n in enumerate(names)}):
        ctx.expect(q.wrapped == 1 and q.wrap == "", "lines", "lines re-wrapped once and passed on", f"lines:{q.wrapped}:{q.wrap}", f"after an edit the lines are re-wrapped {q.wrapped} times, result not passed on: {q.wrap or 'no'}", at)
        ctx.expect(q.ann, "annotations", "annotations dropped", "annotations", "after an edit annotations keep their old positions", at)
        ctx.expect(q.hls == "done", "highlights", "search results updated", f"highlights:{q.hls}", "after an edit search results keep their old positions", at)
        ctx.expect(q.sel, "selection", "selection carried", "selection", "after an edit the selection keeps its old position", at)
    ctx.take(m, "after_edit")
    # others that re-wrap
    n = 0
    for i in ctx.insts():
        if i.body.uid == root.body.uid or ctx.tests(i.body) or not any(targets(c, "xi_core_lib::linewrap::Lines::rewrap_chunk") for c in ctx.r.calls(i).values()):
            continue
        n += 1
        m = Machine(ctx.p, ctx.r, rule)
        for q, _ in m.run(i, A("", 0, False, "no", False), {}):
            ctx.expect(q.wrap == "", "lines", f"{last(i.body.name)}: changed lines passed on", f"lines:{last(i.body.name)}", "lines reported as changed are not passed on", i.body.loc(i.body.line))
        ctx.take(m, "rewrap")
    ctx.expect(n >= 1, "anchor", f"{n} other functions re-wrap lines", "anchor:rewrap")
    for what, k in rule.n.items():
        ctx.expect(k >= 1, "anchor", f"{k} {what}", f"anchor:{what}")


# ---------------------------------------------------------------------------------------------- selection
S = namedtuple("S", "ver done need carets")


class Sel(LoopRule):
    """Every change of the selection marks the lines of the old and of the new one."""
    label_prefix = True
    track_consts = True
    label_pass = {"core::ops::deref::Deref::deref", "alloc::vec::Vec::as_slice", "core::clone::Clone::clone"}

    def __init__(self):
        self.n = dict.fromkeys(("changes of the selection", "lines marked"), 0)

    def lookup(self, c):
        return last(c.declared or c.name) in ("first", "last", "first_mut", "last_mut") and mentions(arg_ty(c, 0) or ("p", ""), lambda x: x[0] == "adt" and last(x[1]) in ("SelRegion", "Selection"))

    def carets(self, c):
        return (c.declared or "").endswith(("Iterator::all", "Iterator::any")) and has_adt(arg_ty(c, 0) or ("p", ""), "SelRegion")

    def kind(self, c):
        for t in c.targets:
            b = t.body.name
            if b in ("xi_core_lib::selection::SelRegion::min", "xi_core_lib::selection::SelRegion::max", VIEW + "set_dirty", LC + "LineCacheShadow::partial_invalidate"):
                return last(b)
            if last(b) == "line_of_offset" and ("LineOffset" in b or b.startswith(VIEW)):
                return "line"
        if self.lookup(c):
            return "lookup"
        if self.carets(c):
            return "carets"
        return None

    def event(self, c):
        return self.kind(c) is not None

    def opaque(self, c):
        return self.event(c) or "xi_trace" in c.name or trait_method(c, "Peer", PEER) or targets(c, VIEW + "after_edit") or \
            any(t.body.name.startswith(("xi_core_lib::find::", "xi_core_lib::linewrap::", "xi_core_lib::movement::", "xi_core_lib::word_boundaries::", "xi_rope::", "xi_core_lib::annotations::")) for t in c.targets)

    @staticmethod
    def changes(s):
        return s[0] == "=" and (selection(s[1]) or s[2][0] in ("ref", "raw") and selection(s[2][2]) and s[2][1] == 1)

    def interesting_stmt(self, body, s):
        return s[0] == "=" and (selection(s[1]) or s[2][0] == "ref" and selection(s[2][2]))

    def made(self, m, inst, bb, s, q, d):
        if s[0] == "=" and q is not None and (s[2][0] == "ref" and selection(s[2][2])):
            k = m.key(s[1], d)
            if k is not None:
                r = d.get((k, "r"))
                d[((r[0] if r else k), "l")] = f"sel{q.ver}"

    def binop(self, m, inst, op, a, b, d):
        la = m.labels(a, d) if a[0] != "c" else None
        ca, cb = m.opconst(a, d), m.opconst(b, d)
        if op == "BitOr" and type(ca) is int and type(cb) is int:
            return ("c", ca | cb)
        if op.startswith("Add") and la and la.startswith("line:max") and m.opconst(b, d) == 1:
            return ("l", la.replace("line:max", "line:end"))
        return None

    def stmt(self, m, inst, bb, s, q, d):
        if q is not None and self.changes(s):
            self.n["changes of the selection"] += 1
            need = q.need - {q.ver} if q.ver in q.need else q.need if q.ver in q.done else q.need | {q.ver}
            new = min({0, 1, 2} - need - {q.ver})
            return S(new, frozenset(), need | {new}, None)
        return q

    def on_event(self, m, c, q, d):
        k = self.kind(c)
        ls = [m.labels(a, d) for a in c.args]
        if k == "lookup":
            if ls[0] and ls[0].startswith("sel"):
                f = last(c.declared or c.name).split("_")[0]
                l = f"{f}:{ls[0]}"
                return [(q, {((), "v"): "Some", ((("d", "Some"), ("f", 0)), "l"): l}), (q, {((), "v"): "None"})] if last((dest_ty(c) or ("p", ""))[1]) == "Option" else None
            return None
        if k in ("min", "max"):
            return [(q, {((), "l"): f"{k}{ls[0][-1]}"} if ls[0] and ls[0].startswith({"min": "first:sel", "max": "last:sel"}[k]) else {})]
        if k == "line":
            l = next((x for x in ls[1:] if x and x[:3] in ("min", "max")), None)
            return [(q, {((), "l"): "line:" + l} if l else {})]
        if k == "carets":
            neg = c.declared.endswith("any")
            return [(q._replace(carets=v != neg), {((), "c"): v}) for v in (True, False)]
        if k == "set_dirty":
            self.n["lines marked"] += 1
            return [(q._replace(need=frozenset(), done=frozenset((0, 1, 2))), {})]
        if k == "partial_invalidate":
            self.n["lines marked"] += 1
            fl = m.opconst(c.args[3], d)
            for v in (0, 1, 2):
                if ls[1] == f"line:min{v}" and ls[2] == f"line:end{v}" and fl is not None and (fl & 6 == 6 or fl & 4 and q.carets):
                    q = q._replace(need=q.need - {v}, done=q.done | {v} if v == q.ver else q.done)
            return [(q, {})]
        return None


def selections(ctx):
    rule = Sel()
    stores = [b for b in ctx.p.bodies.values() if not ctx.tests(b) and any(Sel.changes(s) for blk in b.reach for s in b.blocks[blk]["s"])]
    after = ctx.inst(VIEW + "after_edit")
    inside = {i.body.uid for i in ctx.reachable([after])}
    # every function of the view that may change the selection, except in the course of an edit
    n = 0
    store_uids = {b.uid for b in stores}
    m = Machine(ctx.p, ctx.r, rule)
    for b in list(ctx.p.bodies.values()):
        if not b.name.startswith(VIEW) or "{closure" in b.name or ctx.tests(b) or b.uid == after.body.uid or b.name == VIEW + "new":
            continue
        t0 = ctx.p.mkty(b.crate, b.locals[1]) if b.argc else None
        if t0 is None or t0[0] != "ref" or not t0[1]:
            continue
        own = [i for i in ctx.insts() if i.body.uid == b.uid][:1] or [Inst(b)]
        reach = {i.body.uid for i in ctx.reachable(own)}
        if not reach & store_uids:
            continue
        # helpers that only ever run for others are covered with these
        callers = {i.body for i in ctx.callers(b.uid) if not ctx.tests(i.body)}
        if callers and all(x.name.startswith(VIEW) for x in callers):
            continue
        n += 1
        for q, _ in m.run(own[0], S(0, frozenset(), frozenset(), None), {}):
            ctx.expect(not q.need, "selection-marked", f"{last(b.name)}: lines of old and new selection marked", f"unmarked:{last(b.name)}:{sorted(q.need)}",
                       f"{last(b.name)} changes the selection without marking the lines of the {'old and new' if len(q.need) > 1 else 'old or new'} one", b.loc(b.line))
    ctx.take(m, "selection")
    ctx.expect(n >= 3, "anchor", f"{n} functions change the selection", "anchor:selection")
    for b in stores:
        ctx.expect(b.name.startswith(VIEW), "anchor", f"{b.name} stores the selection", f"store:{b.name}")
    for what, k in rule.n.items():
        ctx.expect(k >= 1, "anchor", f"{k} {what}", f"anchor:{what}")


# ---------------------------------------------------------------------------------------------- updates
U = namedtuple("U", "seg op span bits skip adv built sent loop")


class Send(LoopRule):
    """What is sent for each piece of the plan is what is recorded for it."""
    label_prefix = True
    track_consts = True
    label_pass = {"core::clone::Clone::clone"}

    def __init__(self):
        self.n = dict.fromkeys(("pieces", "operations", "records", "updates"), 0)

    def loop(self, c):
        t = arg_ty(c, 0)
        return "seg" if t is not None and has_adt(t, "PlanIterator") else None

    def item(self, c, tok):
        return {((("f", i),), "l"): f for i, f in enumerate(self.fields)}

    def finish(self, m, c, q):
        def bad(msg):
            m.report(f"piece:{q.op}:{q.span}", msg, c.inst.body, c.line)
        if q.seg:
            self.n["pieces"] += 1
            good = {"invalidate": ("none",), "copy": ("same",), "update": ("same", "same+"), "insert": ("all",)}
            if q.op is None or q.span is None:
                bad(f"a piece of the plan is {'not sent' if q.op is None else 'not recorded'} ({q.op}, {q.span})")
            elif q.span not in good.get(q.op, ()):
                bad(f"lines sent as '{q.op}' are recorded as {dict(none='invalid', same='before', all='valid').get(q.span, q.span)}")
            if q.op in ("copy", "update") and not q.skip:
                bad("lines kept are sent without skipping to where they are in the frontend's lines")
            if q.op in ("copy", "update") and not q.adv:
                bad("the position in the frontend's lines is not moved past the lines kept")
            if q.op == "copy" and q.bits & 7 != 7:
                bad("lines are copied that are not known to be valid in the frontend")
            if q.op == "update" and q.bits & 3 != 3:
                bad("only the cursors are sent for lines whose text or styles are not known to be valid in the frontend")

    def step(self, m, c, q, tok, more):
        self.finish(m, c, q)
        return U(more, None, None, 0, False, False, q.built, q.sent, True)

    def kind(self, c):
        for t in c.targets:
            b = t.body.name
            if "UpdateOp::" in b and last(b) in OPS:
                return "op"
            if b in (LC + "Builder::add_span", LC + "Builder::build", VIEW + "encode_line", "xi_core_lib::client::Client::update_view", LC + "LineCacheShadow::needs_render"):
                return last(b)
            if last(b) == "iter_lines" and "Lines::" in b:
                return "iter_lines"
        n = c.declared or c.name
        if n.endswith("Vec::push") and has_adt(arg_ty(c, 0) or ("p", ""), "UpdateOp"):
            return "push"
        if last(n) in ("take", "map", "collect") and "Iterator" in n and self.lines(c):
            return last(n)
        return None

    def lines(self, c):
        t = arg_ty(c, 0)
        return t is not None and (has_adt(t, "VisualLine") or has_adt(t, "VisualLines") or mentions(t, lambda x: x[0] == "adt" and x[1].startswith("xi_core_lib::linewrap::")))

    def event(self, c):
        return self.kind(c) is not None

    def opaque(self, c):
        return self.event(c) or "xi_trace" in c.name or trait_method(c, "Peer", PEER) or any(t.body.name.startswith(("xi_rope::", "xi_core_lib::find::", "xi_core_lib::annotations::", "xi_core_lib::selection::")) for t in c.targets)

    def interesting_stmt(self, body, s):
        return s[0] == "=" and shadow(s[1])

    def stmt(self, m, inst, bb, s, q, d):
        if q is None or s[0] != "=":
            return q
        b = inst.body if hasattr(inst, "body") else inst
        ln = s[-1] if isinstance(s[-1], int) else b.line
        if shadow(s[1]):
            l = m.labels(s[2][1], d) if s[2][0] == "use" else None
            if l != "built":
                m.report("recorded", "the record of the frontend's lines is replaced by something other than what was built along with the update", b, ln)
            return q._replace(built=True)
        if q.seg and len(s[1]) >= 1 and not s[1][1:] or q.seg and s[1][1:] == [[]]:
            l = self.value(m, s, d)
            if l == "their+n" and s[1][0] in self.cursors(b):
                return q._replace(adv=True)
        return q

    def value(self, m, s, d):
        return m.labels(s[2][1], d) if s[2][0] == "use" and s[2][1][0] != "c" else None

    def cursors(self, b):
        """Locals subtracted from the position of a piece in the frontend's lines."""
        if b.uid not in self._cur:
            out = set()
            for blk in b.reach:
                for s in b.blocks[blk]["s"]:
                    if s[0] == "=" and s[2][0] == "bin" and s[2][1].startswith("Sub") and s[2][3][0] != "c":
                        out.add(root_local(b, s[2][3]))
            self._cur[b.uid] = out
        return self._cur[b.uid]

    _cur = {}

    def binop(self, m, inst, op, a, b, d):
        la, lb = (m.labels(x, d) if x[0] != "c" else None for x in (a, b))
        ca, cb = m.opconst(a, d), m.opconst(b, d)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base == "Add" and {la, lb} == {"their_line_num", "n"}:
            return ("l", "their+n")
        if base == "Sub" and la == "their_line_num" and lb != "their_line_num":
            return ("l", "gap")
        if op in ("Gt", "Ne") and la == "gap" and cb == 0 or op == "Lt" and lb == "gap" and ca == 0:
            return ("l", "gap?")
        if op == "Eq" and la == "gap" and cb == 0:
            return ("l", "nogap?")
        if op == "Gt" and la == "their_line_num" and b[0] != "c" or op == "Lt" and lb == "their_line_num" and a[0] != "c":
            return ("l", "gap?")
        if base == "BitAnd" and ("validity" in (la, lb)):
            k = cb if la == "validity" else ca
            return ("l", f"and:{k}") if isinstance(k, int) else None
        if base == "BitOr" and "validity" in (la, lb):
            k = cb if la == "validity" else ca
            return ("l", "validity|4") if k == 4 else None
        for l, k in ((la, cb), (lb, ca)):
            if op in ("Eq", "Ne") and isinstance(k, int):
                if l == "validity" and k == 7:
                    return ("l", "bits:7" if op == "Eq" else "nobits:7")
                if l and l.startswith("and:"):
                    w = int(l[4:])
                    if k == w:
                        return ("l", f"bits:{w}" if op == "Eq" else f"nobits:{w}")
                    if k == 0 and w & (w - 1) == 0:
                        return ("l", f"bits:{w}" if op == "Ne" else f"nobits:{w}")
        return None

    def edge(self, m, inst, bb, key, variant, q, d):
        if q is None or key is None:
            return q
        l = m.label_at(key, d)
        if l is None:
            return q
        if l.startswith(("bits:", "nobits:")) and variant in (True, False):
            w = int(l.split(":")[1])
            return q._replace(bits=q.bits | w) if variant == l.startswith("bits:") else q
        if l in ("gap?", "nogap?") and variant in (True, False):
            return q._replace(skip=True) if variant == (l == "nogap?") else q
        return q

    def on_event(self, m, c, q, d):
        k = self.kind(c)
        b = c.inst.body
        ls = [m.labels(a, d) for a in c.args]
        if k == "op":
            name = next(last(t.body.name) for t in c.targets if last(t.body.name) in OPS)
            return [(q, {((), "l"): f"op:{name}:{ls[0]}"})]
        if k == "push":
            self.n["operations"] += 1
            l = (ls[1] or "op:?:?").split(":", 2)
            if not q.seg:
                return [(q, {})]
            if l[1] == "skip":
                if l[2] != "gap":
                    m.report("skip", "the lines skipped are not those up to the piece in the frontend's lines", b, c.line)
                return [(q._replace(skip=True), {})]
            want = {"invalidate": "n", "copy": "n", "update": "lines:our_line_num:n:cursors", "insert": "lines:our_line_num:n:full"}.get(l[1])
            if l[2] != want:
                m.report(f"operation:{l[1]}", f"'{l[1]}' is sent for something other than the lines of the piece ({l[2]})", b, c.line)
            if q.op is not None:
                m.report("twice", "a piece of the plan is sent twice", b, c.line)
            return [(q._replace(op=l[1]), {})]
        if k == "add_span":
            self.n["records"] += 1
            if not q.seg:
                return [(q, {})]
            v = m.opconst(c.args[3], d)
            what = "none" if v == 0 else "all" if v == 7 else {"validity": "same", "validity|4": "same+"}.get(ls[3], "?")
            if ls[1] != "n" or what != "none" and ls[2] != "our_line_num":
                what = "?"
            if q.span is not None:
                m.report("twice", "a piece of the plan is recorded twice", b, c.line)
            return [(q._replace(span=what), {})]
        if k == "build":
            return [(q, {((), "l"): "built"})]
        if k == "needs_render":
            return [(q, {((), "c"): v}) for v in (True, False)]
        if k == "update_view":
            self.n["updates"] += 1
            return [(q._replace(sent=min(q.sent + 1, 2)), {})]
        if k == "iter_lines":
            return [(q, {((), "l"): f"lines:{ls[2]}"})]
        if k == "take":
            return [(q, {((), "l"): f"{ls[0]}:{ls[1]}"} if ls[0] else {})]
        if k == "map":
            how = set()
            for t in c.closures:
                for i in self.ctx.reachable([t]):
                    for x in self.ctx.r.calls(i).values():
                        if self.kind(x) == "encode_line":
                            vs = [optional(self.ctx, i, a) for a in (x.args[4], x.args[5])]
                            how.add("full" if vs == ["Some", "Some"] else "cursors" if vs == ["None", "None"] else "?")
            return [(q, {((), "l"): f"{ls[0]}:{'/'.join(sorted(how))}"} if ls[0] else {})]
        if k == "collect":
            return [(q, {((), "l"): ls[0]} if ls[0] else {})]
        return None


def optional(ctx, inst, op):
    """Variant of an Option built in place."""
    b = inst.body
    if op[0] == "c":
        return "None"
    ds = b.assigns.get(op[1][0], ())
    if len(ds) != 1:
        return None
    rv = ds[0][2]
    if rv[0] == "use":
        return optional(ctx, inst, rv[1])
    if rv[0] == "agg" and rv[1][0] == "adt":
        return rv[1][2]
    return None


def root_local(b, op, depth=0):
    l = op[1][0]
    ds = b.assigns.get(l, ())
    if depth < 6 and len(ds) == 1 and ds[0][2][0] == "use" and ds[0][2][1][0] != "c" and not fields_of_place(ds[0][2][1][1]):
        return root_local(b, ds[0][2][1], depth + 1)
    return l


def shadow(place):
    f = field_of_place(place)
    return f is not None and f[1] == "lc_shadow" and last(f[0]) == "View"


def updates(ctx):
    rule = Send()
    rule.ctx = ctx
    rule.fields = [f[0] for f in ctx.adt("line_cache_shadow::PlanSegment")["v"][0]["f"]]
    m = Machine(ctx.p, ctx.r, rule)
    roots = [i for i in ctx.insts() if i.body.name.startswith(VIEW) and "{closure" not in i.body.name and not ctx.tests(i.body) and
             any(targets(c, "xi_core_lib::client::Client::update_view") for c in ctx.r.calls(i).values())]
    ctx.expect(bool(roots), "anchor", f"{len(roots)} functions send updates", "anchor:updates")
    for root in roots:
        at = root.body.loc(root.body.line)
        for q, _ in m.run(root, U(False, None, None, 0, False, False, False, 0, False), {}):
            ctx.expect(q.sent == 1, "sent", "one update is sent", f"sent:{q.sent}", f"{q.sent} updates are sent at a time", at)
            ctx.expect(q.built == q.loop, "recorded", "what was sent is recorded", f"recorded:{q.built}:{q.loop}", "what is recorded of the frontend's lines is not what was sent", at)
    ctx.take(m, "update")
    for what, k in rule.n.items():
        ctx.expect(k >= 1, "anchor", f"{k} {what}", f"anchor:{what}")


# ---------------------------------------------------------------------------------------------- annotations
class Keep(LoopRule):
    """Of the annotations only those that end before the change are kept, and all of those."""
    label_prefix = True

    def __init__(self):
        self.n = 0

    def loop(self, c):
        t = arg_ty(c, 0)
        return "span" if t is not None and has_adt(t, "SpanIter") else None

    def item(self, c, tok):
        return {((("f", 0),), "l"): "iv"}

    def step(self, m, c, q, tok, more):
        if q[0] is True and not q[1]:
            m.report("dropped", "an annotation before the change is dropped", c.inst.body, c.line)
        return (None, False) if more else ("end", False)

    def kind(self, c):
        for t in c.targets:
            b = t.body.name
            if "interval::Interval::" in b and last(b) in ("start", "end", "is_before", "is_after"):
                return last(b)
            if last(b) == "add_span" and "SpansBuilder" in b:
                return "add_span"
        return None

    def event(self, c):
        return self.kind(c) is not None

    def opaque(self, c):
        return self.event(c)

    def made(self, m, inst, bb, s, q, d):
        # fields read directly
        if s[0] == "=" and s[2][0] == "use" and s[2][1][0] != "c":
            f = field_of_place(s[2][1][1])
            if f is not None and f[1] in ("start", "end") and last(f[0]) == "Interval":
                l = m.labels(s[2][1], d)
                k = m.key(s[1], d)
                if l in ("iv", "at") and k is not None:
                    d[(k, "l")] = f"{l}.{f[1]}"

    def interesting_stmt(self, body, s):
        return False

    def binop(self, m, inst, op, a, b, d):
        la, lb = (m.labels(x, d) if x[0] != "c" else None for x in (a, b))
        if (la, lb) == ("iv.end", "at.start"):
            return ("l", {"Le": "before?", "Lt": "before?", "Gt": "reaches?"}.get(op, "?"))
        if (la, lb) == ("at.start", "iv.end"):
            return ("l", {"Ge": "before?", "Gt": "before?", "Lt": "reaches?"}.get(op, "?"))
        return None

    def edge(self, m, inst, bb, key, variant, q, d):
        if q is None or key is None:
            return q
        l = m.label_at(key, d)
        if l in ("before?", "reaches?") and variant in (True, False):
            return (variant == (l == "before?"), q[1])
        return q

    def on_event(self, m, c, q, d):
        k = self.kind(c)
        ls = [m.labels(a, d) for a in c.args]
        if k in ("start", "end"):
            return [(q, {((), "l"): f"{ls[0]}.{k}"} if ls[0] in ("iv", "at") else {})]
        if k == "is_before":
            if ls[0] == "iv" and ls[1] == "at.start":
                return [((v, q[1]), {((), "c"): v}) for v in (True, False)]
            return None
        if k == "is_after":
            return None
        if k == "add_span":
            self.n += 1
            if q[0] is not True:
                m.report("kept", "an annotation is kept that may not end before the change", c.inst.body, c.line)
            return [((q[0], True), {})]
        return None


class Place(LoopRule):
    """Annotations are stored at the range they are for / are dropped for every plugin and type."""
    label_prefix = True

    def __init__(self):
        self.n = dict.fromkeys(("placings", "droppings"), 0)

    def kind(self, c):
        for t in c.targets:
            b = t.body.name
            if b.startswith("xi_rope::") and last(b) in ("edit", "delete_after") and "{closure" not in b:
                return last(b)
        return None

    def loop(self, c):
        t = arg_ty(c, 0)
        return "ann" if t is not None and has_adt(t, "Annotations") and not mentions(t, lambda x: x[0] == "adt" and last(x[1]) in ("Filter", "Skip", "Take", "StepBy", "TakeWhile", "SkipWhile")) and \
            c.inst.body.name.startswith("xi_core_lib::annotations::AnnotationStore::invalidate") else None

    def step(self, m, c, q, tok, more):
        if q == "item":
            m.report("left", "some annotations are left as they were", c.inst.body, c.line)
        return "item" if more else "all"

    def event(self, c):
        return self.kind(c) is not None

    def opaque(self, c):
        return self.event(c) or c.targets and all(t.body.name.startswith("xi_rope::") for t in c.targets)

    def on_event(self, m, c, q, d):
        k = self.kind(c)
        ls = [m.labels(a, d) for a in c.args]
        if k is None:
            return None
        if k == "edit":
            if ls[1] == "range" and ls[2] == "spans":
                self.n["placings"] += 1
                return [("placed" if q == "" else "twice", {})]
            return [(q, {})]
        self.n["droppings"] += 1
        if ls[1] != "range":
            m.report("range", "annotations are dropped for another range than the one given", c.inst.body, c.line)
        return [("told", {})]


def annotations(ctx):
    rule = Keep()
    roots = [i for i in ctx.insts() if i.body.name.startswith("xi_rope::") and last(i.body.name) == "delete_after"][:1]
    ctx.expect(bool(roots), "anchor", "dropping of annotations", "anchor:delete_after")
    for root in roots:
        m = Machine(ctx.p, ctx.r, rule)
        for q, _ in m.run(root, (None, False), {((2,), "l"): "at"}):
            ctx.expect(q[0] in ("end", False, None), "kept", f"annotations looked at until {q[0]}", f"until:{q[0]}")
        ctx.take(m, "annotations")
    ctx.expect(rule.n >= 1, "anchor", f"{rule.n} annotations kept", "anchor:kept")
    rule = Place()
    for name, env, want in ((VIEW + "update_annotations", {((3,), "l"): "range", ((4, ("f", ctx.fidx("Annotations", "items"))), "l"): "spans"}, "placed"),
                            ("xi_core_lib::annotations::AnnotationStore::invalidate", {((2,), "l"): "range"}, "all")):
        root = ctx.inst(name)
        m = Machine(ctx.p, ctx.r, rule)
        for q, _ in m.run(root, "", env):
            ctx.expect(q == want, "placed", f"{last(name)}: {q}", f"placed:{last(name)}:{q}", f"{last(name)}: annotations are {'not stored at the range they are for' if want == 'placed' else 'left as they were'}", root.body.loc(root.body.line))
        ctx.take(m, "annotations")
    for what, k in rule.n.items():
        ctx.expect(k >= 1, "anchor", f"{k} {what}", f"anchor:{what}")


def run(ctx):
    after_edit(ctx)
    annotations(ctx)
    selections(ctx)
    updates(ctx)
