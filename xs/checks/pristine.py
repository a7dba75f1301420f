"""P09: a buffer counts as saved only when its text is what was saved to or loaded from its file."""
from collections import namedtuple

from ..esp import Machine, Rule
from ..lib import *
from .edit_flow import engine_mut, handlers, is_engine

SOMEP = (("d", "Some"), ("f", 0))
OKP = (("d", "Ok"), ("f", 0))
FM = "xi_core_lib::file::FileManager::"
Q = namedtuple("Q", "save load changed was applied alert shown")
Q0 = Q(None, None, None, None, False, False, None)


def is_fm(c, name):
    return any(t.body.name == FM + name for t in c.targets)


def is_ed(c, name):
    return any(t.body.name == "xi_core_lib::editor::Editor::" + name for t in c.targets)


class Pristine(Rule):
    label_prefix = True
    label_pass = {"core::clone::Clone::clone"}

    def kind(self, c):
        if is_fm(c, "save") or is_fm(c, "open") or is_fm(c, "check_file"):
            return "fm"
        if is_ed(c, "is_pristine") or is_ed(c, "get_buffer"):
            return "ed"
        if engine_mut(c):
            return "mut"
        if is_engine(c, ("get_head_rev_id", "get_head")):
            return "head"
        if any(t.body.name.startswith("xi_core_lib::client::Client::") for t in c.targets):
            return "client"
        if any(t.body.name in ("xi_core_lib::view::View::set_dirty", "xi_core_lib::view::View::render_if_dirty") for t in c.targets):
            return "view"
        if last(c.name) == "compute_delta":
            return "diff"
        return None

    def interesting(self, c):
        return self.kind(c) is not None

    def interesting_stmt(self, body, s):
        return self.sets(s)

    @staticmethod
    def sets(s):
        f = field_of_place(s[1]) if s[0] == "=" else None
        return f is not None and f[1] == "pristine_rev_id" and last(f[0]) == "Editor"

    def opaque(self, c):
        k = self.kind(c)
        if k in ("fm", "ed", "client", "view", "head", "diff"):
            return True
        if "xi_trace" in c.name or c.targets and all(t.body.crate["crate"] != "xi_core_lib" for t in c.targets):
            return True
        t = dest_ty(c)
        if t is not None and t[0] == "adt" and last(t[1]) == "EventDomain":
            return True
        # a replayed or ordinary edit command neither saves nor loads
        return any(last(t.body.name) == "do_edit" and "EventContext" in t.body.name for t in c.targets)

    def stmt(self, m, inst, bb, s, q, d):
        if not self.sets(s) or last(inst.body.name) in ("new", "with_text"):
            return q
        self.nset += 1
        l = m.labels(s[2][1], d) if s[2][0] == "use" else None
        line = s[-1] if isinstance(s[-1], int) else inst.body.line
        if l != "head":
            m.report("not-head", "a revision other than the current one is marked as saved", inst.body, line)
        if q.save == "ok":
            return q._replace(save="marked", shown="marked")
        if q.applied:
            return q._replace(applied=False, load="marked")
        m.report("unsaved", "the buffer is marked as saved although its text was neither saved nor loaded", inst.body, line)
        return q

    def call(self, m, c, q, d):
        k = self.kind(c)
        if k is None:
            return None
        ls = [m.labels(a, d) for a in c.args]
        b = c.inst.body
        if is_fm(c, "save"):
            self.nsave += 1
            if not any(l == "text" for i, l in enumerate(ls) if has_adt(arg_ty(c, i), "RopeInfo")):
                m.report("saved-text", "something other than the buffer's text is saved", b, c.line)
            return [(q._replace(save="ok"), {((), "v"): "Ok"}), (q._replace(save="err", alert=False), {((), "v"): "Err", ((("d", "Err"), ("f", 0)), "l"): "error"})]
        if is_fm(c, "open"):
            return [(q._replace(load="ok"), {((), "v"): "Ok", (OKP, "l"): "disk"}), (q._replace(load="err"), {((), "v"): "Err"})]
        if is_fm(c, "check_file"):
            self.ncheck += 1
            return [(q._replace(changed=v), {((), "c"): v}) for v in (True, False)]
        if k == "ed":
            if is_ed(c, "get_buffer"):
                return [(q, {((), "l"): "text"})]
            return [(q._replace(was=v), {((), "c"): v, ((), "l"): "pristine"}) for v in (True, False) if q.was in (None, v)]
        if k == "diff":
            ok = ls and ls[-1] == "disk" and ls[0] == "text"
            return [(q, {((), "l"): "diskdelta" if ok else "otherdelta"})]
        if k == "mut":
            if q.save == "ok":
                m.report("changed-before-mark", "the text changes between saving it and marking it as saved", b, c.line)
            if any(l == "diskdelta" for l in ls):
                self.nreload += 1
                if q.changed is not True:
                    m.report("reload-unchanged", "a buffer is reloaded although its file was not found to have changed", b, c.line)
                if q.was is not True:
                    m.report("reload-modified", "a buffer with unsaved changes is overwritten by the file's contents", b, c.line)
                return [(q._replace(applied=True, was=None), {})]
            return [(q._replace(was=None, applied=False), {})]
        if k == "head":
            return [(q, {((), "l"): "head"})]
        if k == "client":
            if any(t.body.name.endswith("Client::alert") for t in c.targets):
                return [(q._replace(alert=q.save == "err"), {})]
            return [(q, {})]
        if k == "view":
            if any(t.body.name.endswith("set_dirty") for t in c.targets):
                return [(q._replace(shown="dirty" if q.shown == "marked" else q.shown), {})]
            for i, l in enumerate(ls):
                if arg_ty(c, i) == ("p", "bool"):
                    self.nflag += 1
                    if l != "pristine":
                        m.report("pristine-flag", "the frontend is told something other than whether the buffer is saved", b, c.line)
            return [(q._replace(shown="shown" if q.shown == "dirty" else q.shown, was=None), {})]
        return None


class CheckFile(Rule):
    """q = (modification times differ?, marked at first?, marked?)"""
    label_prefix = True
    track_consts = True

    def interesting(self, c):
        return self.mod(c) or self.cmp(c)

    def mod(self, c):
        return dest_ty(c) is not None and dest_ty(c)[0] == "adt" and dest_ty(c)[1].endswith("::Option") and has_adt(dest_ty(c), "SystemTime") and bool(c.targets)

    def cmp(self, c):
        return trait_method(c, "PartialEq", ("eq", "ne")) and has_adt(arg_ty(c, 0), "SystemTime")

    opaque = mod

    @staticmethod
    def flag(place):
        return (field_of_place(place) or ("", ""))[1] == "has_changed"

    def interesting_stmt(self, body, s):
        return s[0] == "=" and (self.flag(s[1]) or any(isinstance(x, list) and x and x[0] in ("p", "m") and self.flag(x[1]) for x in s[2]))

    def stmt(self, m, inst, bb, s, q, d):
        if s[0] == "=" and self.flag(s[1]):
            v = m.opconst(s[2][1], d) if s[2][0] == "use" else None
            if s[2][0] == "bin":
                lc = m.rule_bin(inst, s[2], d)
                v = lc[1] if lc and lc[0] == "c" else None
                if v is None and s[2][1] == "BitOr":
                    cs = [q[2] if x[0] != "c" and self.flag(x[1]) else m.opconst(x, d) for x in s[2][2:4]]
                    v = True if True in cs else None if None in cs else False
            if not isinstance(v, bool):
                m.report("forgets", "whether a change is remembered does not follow from the modification times", inst.body, s[-1] if isinstance(s[-1], int) else inst.body.line)
                v = q[2]
            return (q[0], q[1], v)
        return q

    def made(self, m, inst, bb, s, q, d):
        if s[0] == "=" and s[2][0] == "use" and s[2][1][0] != "c" and self.flag(s[2][1][1]):
            k = m.key(s[1], d)
            if k is not None:
                d[(k, "c")] = q[2]

    def call(self, m, c, q, d):
        if self.mod(c):
            return [(q, {((), "l"): "now"})]
        if self.cmp(c):
            ls = {m.labels(a, d) for a in c.args}
            if "now" not in ls:
                m.report("cmp", "the file's time is compared with something else", c.inst.body, c.line)
            self.n += 1
            eq = last(c.declared) == "eq"
            return [((v,) + q[1:], {((), "c"): v != eq}) for v in (True, False) if q[0] in (None, v)]
        return None


def run(ctx):
    rule = Pristine()
    rule.nset = rule.nsave = rule.ncheck = rule.nreload = rule.nflag = 0
    for h in handlers(ctx):
        m = Machine(ctx.p, ctx.r, rule)
        n = last(h.body.name)
        for q, _ in m.run(h, Q0):
            at = h.body.loc(h.body.line)
            ctx.oblige("exit", f"{h.body.name}: {tuple(q)}")
            if q.save == "ok":
                ctx.violate(f"exit:{n}:unmarked", f"{h.body.name} can return with a saved buffer that is not marked as saved", at)
            if q.save == "err" and not q.alert:
                ctx.violate(f"exit:{n}:silent", f"{h.body.name} can return after a failed save without telling the user", at)
            if q.shown in ("marked", "dirty"):
                ctx.violate(f"exit:{n}:unshown", f"{h.body.name} can return without showing that the buffer is now saved", at)
            if q.applied:
                ctx.violate(f"exit:{n}:reload", f"{h.body.name} can return with a reloaded buffer that is not marked as saved", at)
        ctx.take(m, "pristine")
    # ordinary edit commands (opaque above) never mark
    roots = [Inst(x) for x in ctx.p.fns(lambda x: last(x.name) == "do_edit" and "EventContext" in x.name)]
    ctx.expect(len(roots) >= 1, "anchor", "dispatch of edit commands", "anchor:do_edit")
    seen = ctx.reachable(roots)
    for i in seen:
        if any(rule.sets(s) for bb in i.body.blocks for s in bb["s"]) and last(i.body.name) not in ("new", "with_text"):
            ctx.violate(f"edit-marks:{i.body.name}", "an edit command can mark the buffer as saved", i.body.loc(i.body.line))
    ctx.oblige("no-mark", f"{len(seen)} functions reachable from edit commands do not mark the buffer as saved")
    # which revision counts, and what counts as a change on disk
    b = ctx.fn("xi_core_lib::editor::Editor::is_pristine")
    cs = [c for c in ctx.r.calls(Inst(b)).values() if any(last(t.body.name) == "is_equivalent_revision" for t in c.targets)]
    ok = len(cs) == 1 and not any(last(t.body.name) == "is_equivalent_revision" and c.dest[0] != 0 for c in cs for t in c.targets)
    fields = {f for p in all_places(b) for _, f in fields_of_place(p)}
    ctx.expect(len(cs) == 1 and "pristine_rev_id" in fields and "last_rev_id" not in fields, "is-saved",
               "a buffer counts as saved when its head revision is equivalent to the marked one", "is_pristine", at=b.loc(b.line))
    cf = CheckFile()
    cf.n = 0
    i = ctx.inst(FM + "check_file")
    m = Machine(ctx.p, ctx.r, cf)
    for was in (False, True):
        for q, f in m.run(i, (None, was, was)):
            at = i.body.loc(i.body.line)
            ctx.expect(q[0] is not True or q[2], "notices", f"a different modification time is remembered (differs={q[0]}, remembered={q[2]})", "check_file:missed", at=at)
            ctx.expect(q[1] or not q[2] or q[0] is True, "notices", f"only a different modification time is taken as a change {q}", "check_file:invented", at=at)
            ctx.expect(not q[1] or q[2], "notices", f"a change noticed earlier stays noticed {q}", "check_file:forgets", at=at)
            told = dict(f).get(((0,), "c"))
            ctx.expect(told is q[2] or q[0] is None and told is False, "notices", f"what was noticed is what is told (told={told}) {q}", "check_file:told", at=at)
    ctx.take(m, "check_file")
    for what, n in (("marks", rule.nset), ("saves", rule.nsave), ("checks of a changed file", rule.ncheck), ("reloads", rule.nreload),
                    ("draws with the saved flag", rule.nflag), ("comparisons of times", cf.n)):
        ctx.expect(n >= 1, "anchor", f"{n} {what} interpreted", f"anchor:{what}")
