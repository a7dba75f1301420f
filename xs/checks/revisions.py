"""P14: what a plugin sends about a revision is applied relative to that revision, or not at all."""
from collections import namedtuple

from ..esp import Machine, Rule
from ..lib import *
from .edit_flow import ENGINE, commit_fns, engine_mut
from .views import strip

# base: how the revision named relates to the current text (None: not looked, head, delta: older, unknown)
Q = namedtuple("Q", "kind base same stored shown edits")
START = Q(None, None, None, None, None, 0)
SPEC = "PluginNotification"
TR = "xi_rope::delta::Transformer::"


def owner(c, name):
    return any(t.body.name == name for t in c.targets) or c.name == name


class Rev(Rule):
    label_prefix = True
    label_pass = {"core::clone::Clone::clone", "core::convert::Into::into", "core::convert::From::from", "core::ops::deref::Deref::deref", "core::borrow::Borrow::borrow",
                  "alloc::borrow::Cow::into_owned", "core::convert::AsRef::as_ref"}

    def __init__(self, reads):
        self.reads = reads
        self.final = set()
        self.n = dict.fromkeys(("revisions looked up", "positions carried over", "spans carried over", "stores", "edits", "reads"), 0)

    def kind(self, c):
        if any(t.body.uid in self.commits for t in c.targets):
            return "commit"
        n = last(c.declared or c.name)
        t = strip(arg_ty(c, 0))
        tn = last(t[1]) if t is not None and t[0] == "adt" else None
        if c.inst.body.name.startswith("xi_rope::"):
            return None
        for x in c.targets:
            b = x.body.name
            if b.startswith(ENGINE) and last(b) in ("try_delta_rev_head", "delta_rev_head", "get_rev", "try_edit_rev", "edit_rev", "get_head_rev_id", "find_rev"):
                return last(b)
            if b.startswith(TR) and last(b) in ("new", "transform", "interval_untouched"):
                return "t:" + last(b)
            if b in ("xi_core_lib::layers::Layers::update_layer", "xi_core_lib::view::View::update_annotations", "xi_core_lib::view::View::invalidate_styles"):
                return last(b)
            if b == "xi_rope::engine::RevId::token":
                return "token"
            if b == "xi_rope::interval::Interval::new":
                return "interval"
        if tn == "Node" and n == "transform":
            return "s:transform"
        if tn == "SpansBuilder" and n in ("build",):
            return "build"
        if tn == "SpansBuilder" and n == "add_span":
            return "add"
        if self.reads and n in ("slice_to_cow", "line_of_offset", "offset_of_line", "resolve_offset", "prev_codepoint_offset", "slice", "len", "iter_chunks", "lines", "lines_raw") and tn is not None and \
                (is_rope(t) or n == "resolve_offset"):
            return "read"
        return None

    def interesting(self, c):
        return self.kind(c) is not None

    def opaque(self, c):
        return self.kind(c) not in (None,) or "xi_trace" in c.name or engine_mut(c)

    def binop(self, m, inst, op, a, b, d):
        la, lb = (m.labels(x, d) if x[0] != "c" else None for x in (a, b))
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base == "Add" and {la, lb} == {"start", "len"}:
            return ("l", "end")
        if {la, lb} == {"rev", "head"} and op in ("Eq", "Ne"):
            return ("l", "head?" if op == "Eq" else "older?")
        return None

    def made(self, m, inst, bb, s, q, d):
        if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1].endswith("::Cow") and s[2][2]:
            k = m.key(s[1], d)
            sub = k + (("d", s[2][1][2]), ("f", 0)) if k is not None else None
            l = m.label_at(d[(sub, "r")][0] if (sub, "r") in d else sub, d) if sub else None
            if l:
                d[(k, "l")] = l
        # the text of the buffer
        if s[0] == "=" and s[2][0] in ("ref", "use"):
            pl = s[2][2] if s[2][0] == "ref" else s[2][1][1] if s[2][1][0] != "c" else None
            f = field_of_place(pl) if pl is not None else None
            if f is not None and f[1] == "text" and last(f[0]) == "Editor":
                k = m.key(s[1], d)
                if k is not None:
                    r = d.get((k, "r"))
                    d[((r[0] if r else k), "l")] = "head-text"

    def fnitem(self, m, call, name, facts, q, d):
        if "Cow::" in name and facts:
            return [(q, {((), "l"): l} if (l := facts[0].get(((), "l"))) else {})]
        return None

    def edge(self, m, inst, bb, key, variant, q, d):
        if q is None or key is None:
            return q
        l = m.label_at(key, d)
        if l == "cmd" and isinstance(variant, str):
            return q._replace(kind=variant)
        if l in ("head?", "older?") and variant in (True, False):
            at = variant == (l == "head?")
            if at:
                return q._replace(base="head") if q.base in (None, "head") else None
            return q._replace(base="old") if q.base in (None, "old") else q
        if l == "delta?" and isinstance(variant, str):
            return q._replace(base="delta" if variant in ("Ok", "Some") else "unknown")
        if l == "untouched?" and variant in (True, False):
            return q._replace(same=variant)
        return q

    def call(self, m, c, q, d):
        k = self.kind(c)
        if k is None:
            return None
        if k == "commit":     # the message has been dealt with
            self.final.add(q)
            return [(None, {})]
        b = c.inst.body
        ls = [m.labels(a, d) for a in c.args]

        def bad(key, msg):
            m.report(key, msg, b, c.line)

        def outcome(lbl):
            t = dest_ty(c)
            if t[0] == "adt" and last(t[1]) in ("Result", "Option"):
                ok, no = ("Ok", "Err") if last(t[1]) == "Result" else ("Some", "None")
                return [(q._replace(base="delta"), {((), "v"): ok, ((("d", ok), ("f", 0)), "l"): lbl}), (q._replace(base="unknown"), {((), "v"): no})]
            return [(q, {((), "l"): lbl})]
        if k in ("get_head_rev_id", "token"):
            return [(q, {((), "l"): "head"})] if k == "get_head_rev_id" or ls[0] == "head" else None
        if k in ("try_delta_rev_head", "delta_rev_head"):
            self.n["revisions looked up"] += 1
            if ls[1] != "rev":
                return [(q, {})]
            return outcome("delta")
        if k == "get_rev":
            self.n["revisions looked up"] += 1
            if ls[1] != "rev":
                return [(q, {})]
            return outcome("rev-text")
        if k in ("try_edit_rev", "edit_rev"):
            self.n["edits"] += 1
            if q.kind == "Edit" and ("rev" not in ls or "edit-delta" not in ls):
                bad("edit-args", "a plugin's edit is applied to another revision than the one it names, or altered")
            if q.kind not in ("Edit", None):
                bad("edit-extra", "the text is edited by a message that is not an edit")
            return [(q._replace(edits=min(q.edits + 1, 2)), {((), "v"): v}) for v in ("Ok", "Err")] if last(dest_ty(c)[1] if dest_ty(c)[0] == "adt" else "") == "Result" else [(q._replace(edits=min(q.edits + 1, 2)), {})]
        if k == "interval":
            return [(q, {((("f", i),), "l"): ls[i] for i in (0, 1) if ls[i]})]
        if k == "t:new":
            return [(q, {((), "l"): "carrier" if ls[0] == "delta" else "?"})]
        if k == "t:transform":
            self.n["positions carried over"] += 1
            af = m.opconst(c.args[2], d)
            ok = ls[0] == "carrier" and (ls[1], af) in (("start", False), ("end", True))
            return [(q, {((), "l"): "moved-" + ls[1] if ok else "?"})]
        if k == "t:interval_untouched":
            iv = span(m, c.args[1], d)
            ok = ls[0] == "carrier" and iv == ("start", "end")
            return [(q._replace(same=True if ok else q.same), {((), "c"): True}), (q._replace(same=False if ok else q.same), {((), "c"): False})]
        if k == "build":
            return [(q, {((), "l"): "spans"})]
        if k == "add":
            return [(q, {})]
        if k == "s:transform":
            self.n["spans carried over"] += 1
            ok = ls[:4] == ["spans", "start", "end", "carrier"]
            return [(q, {((), "l"): "moved-spans" if ok else "?"})]
        if k in ("update_layer", "update_annotations"):
            self.n["stores"] += 1
            iv = span(m, c.args[2], d)
            key = m.opkey(c.args[3], d)
            sp = ls[3] if k == "update_layer" else m.label_at(key + (("f", m.items),), d) if key is not None else None
            if k == "update_annotations" and sp is None:
                sp = ls[3]
            fine = q.base == "head" and iv == ("start", "end") and sp == "spans" or \
                q.base == "delta" and iv == ("moved-start", "moved-end") and (sp == "moved-spans" or sp == "spans" and q.same is True)
            if not fine:
                bad("stored", f"spans are stored without being carried from the revision named to the current one (revision: {q.base}, range: {iv}, spans: {sp}, untouched: {q.same})")
            if ls[1] != "plugin":
                bad("layer", "spans are stored for another plugin than the one that sent them")
            return [(q._replace(stored=iv), {})]
        if k == "invalidate_styles":
            return [(q._replace(shown=(ls[2], ls[3])), {})]
        if k == "read":
            self.n["reads"] += 1
            src = m.opkey(c.args[1] if last(c.declared or c.name) == "resolve_offset" else c.args[0], d)
            l = ls[1] if last(c.declared or c.name) == "resolve_offset" else ls[0]
            if q.kind == "GetData" and not (l == "rev-text" and q.base == "delta" or l == "head-text" and q.base == "head"):
                bad("read", f"text sent to a plugin is taken from another revision than the one it names ({l}, revision: {q.base})")
            return None
        return None


def is_rope(t):
    return t[0] == "adt" and last(t[1]) == "Node" and t[2] and t[2][0][0] == "adt" and last(t[2][0][1]) == "RopeInfo"


def span(m, op, d):
    k = m.opkey(op, d)
    if k is None:
        return None
    r = d.get((k, "r"))
    if r:
        k = r[0]
    return tuple(m.label_at(k + (("f", i),), d) for i in (0, 1))


def roots(ctx, enum):
    """Methods of the context of a buffer that take a plugin's message."""
    out = []
    for b in ctx.p.bodies.values():
        if b.name.startswith("xi_core_lib::event_context::EventContext::") and "{closure" not in b.name and not ctx.tests(b):
            for i in range(1, b.argc + 1):
                t = ctx.p.mkty(b.crate, b.locals[i])
                if t[0] == "adt" and last(t[1]) == enum:
                    pid = next((j for j in range(1, b.argc + 1) if (lambda x: x[0] == "adt" and last(x[1]) == "PluginPid")(ctx.p.mkty(b.crate, b.locals[j]))), None)
                    out.append((Inst(b), i, pid))
    return out


def labels_of(ctx, enum, i):
    env = {((i,), "l"): "cmd"}
    for v in ctx.adt("rpc::" + enum)["v"]:
        for j, f in enumerate(v["f"]):
            env[((i, ("d", v["n"]), ("f", j)), "l")] = f[0]
            if f[0] == "edit":
                for jj, g in enumerate(ctx.adt("rpc::PluginEdit")["v"][0]["f"]):
                    env[((i, ("d", v["n"]), ("f", j), ("f", jj)), "l")] = "edit-delta" if g[0] == "delta" else g[0]
    for k in list(env):
        if env[k] == "spans":
            env[k] = "given"
    return env


def run(ctx):
    seen, n = set(), {}
    for enum in ("PluginNotification", "PluginRequest"):
        rs = roots(ctx, enum)
        rule = Rev(enum == "PluginRequest")
        rule.commits = commit_fns(ctx)
        ctx.expect(bool(rs), "anchor", f"{len(rs)} functions that handle {enum}", f"anchor:{enum}")
        for root, i, pid in rs:
            m = Machine(ctx.p, ctx.r, rule)
            m.items = ctx.fidx("Annotations", "items")
            env = labels_of(ctx, enum, i)
            if pid:
                env[((pid,), "l")] = "plugin"
            at = root.body.loc(root.body.line)
            rule.final.update(q for q, _ in m.run(root, START, env) if q is not None)
            for q in sorted(rule.final, key=str):
                seen.add(q.kind)
                if q.kind in ("UpdateSpans", "UpdateAnnotations"):
                    ctx.expect(q.base in ("head", "delta", "unknown"), "looked", f"{q.kind}: the revision is {q.base}", f"looked:{q.kind}:{q.base}", "spans are handled without looking at the revision they are for", at)
                    ctx.expect((q.stored is None) == (q.base == "unknown"), "applied", f"{q.kind}: revision {q.base}: {'ignored' if q.stored is None else 'stored'}", f"applied:{q.kind}:{q.base}",
                               "spans for a revision that is known are dropped, or others are stored", at)
                if q.kind == "UpdateSpans":
                    ctx.expect(q.stored == q.shown, "redrawn", f"restyled lines are those of {q.stored}", "redrawn", f"the lines invalidated ({q.shown}) are not those that were styled ({q.stored})", at)
                if q.kind == "Edit":
                    ctx.expect(q.edits == 1, "edit", "an edit is applied once", f"edit:{q.edits}", f"a plugin's edit is applied {q.edits} times", at)
            ctx.take(m, "revisions")
        for what, k in rule.n.items():
            n[what] = n.get(what, 0) + k
    ctx.expect({"UpdateSpans", "UpdateAnnotations", "Edit", "GetData"} <= seen, "anchor", f"messages {sorted(map(str, seen))}", "anchor:messages")
    for what, k in n.items():
        ctx.expect(k >= 1, "anchor", f"{k} {what}", f"anchor:{what}")
