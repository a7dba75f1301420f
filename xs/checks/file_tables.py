"""P10: which buffer has which file open, what is known about it, and what is watched agree."""
from collections import namedtuple

from ..esp import Machine
from ..lib import *
from .save_file import Q0, Save, SOMEP

FM = "xi_core_lib::file::FileManager::"
Q2 = namedtuple("Q2", Q0._fields + ("opened", "info", "watched", "unwatched", "forgot", "gone", "mod", "new"))
START = Q2(*Q0, None, None, None, None, None, False, None, None)
CLEAN = dict(opened=None, info=None, watched=None, unwatched=None, forgot=None, gone=False, mod=None)
OWN = {"owner", "steals", "forgets-other", "bulk", "info-id", "info-path", "info-time", "info-changed", "bulk-info"}


class Tables(Save):
    def paths_map(self, c):
        t = arg_ty(c, 0)
        if t is None or t[0] != "adt" or last(t[1]) != "HashMap" or not (has_adt(t, "PathBuf") and has_adt(t, "BufferId")):
            return None
        return last(c.declared or c.name)

    def watch(self, c):
        return any(t.body.name.startswith("xi_core_lib::watcher::FileWatcher::") for t in c.targets)

    def time(self, c):
        t = dest_ty(c)
        return bool(c.targets) and t is not None and t[0] == "adt" and t[1].endswith("::Option") and has_adt(t, "SystemTime")

    def owner_eq(self, c):
        return trait_method(c, "PartialEq", ("eq", "ne")) and has_adt(arg_ty(c, 0), "BufferId")

    def event(self, c):
        return super().event(c) or bool(self.paths_map(c) or self.watch(c) or self.time(c) or self.owner_eq(c))

    def opaque(self, c):
        return super().opaque(c) or self.watch(c) or self.time(c)

    def open(self, m, c, q, l, bad):
        return q._replace(file="open")

    def interesting_stmt(self, body, s):
        return s[0] == "=" and (field_of_place(s[1]) or ("", ""))[1] == "mod_time"

    def stmt(self, m, inst, bb, s, q, d):
        if q is not None and self.interesting_stmt(inst.body, s) and s[2][0] == "use":
            return q._replace(mod=m.labels(s[2][1], d) or "?")
        return q

    def fields(self, m, c, i, d):
        """Labels of path, time and flag of the FileInfo in argument i."""
        k = m.opkey(c.args[i], d)
        out = []
        for f in ("path", "mod_time"):
            out.append(m.label_at(k + (("f", self.ctx.fidx("file::FileInfo", f)),), d) if k else None)
        out.append(d.get((k + (("f", self.ctx.fidx("file::FileInfo", "has_changed")),), "c")) if k else None)
        return tuple(out)

    def on_event(self, m, c, q, d):
        b = c.inst.body
        ls = [m.labels(a, d) for a in c.args]

        def bad(key, msg):
            m.report(key, msg, b, c.line)
        po = self.paths_map(c)
        if po:
            self.nmap += 1
            if po == "insert":
                if ls[2] != "id":
                    bad("owner", "a path is recorded for something other than the buffer at hand")
                return [(q._replace(opened=ls[1] or "?"), {})]
            if po in ("get", "get_mut"):
                return [(q, {((), "v"): "Some", (SOMEP, "l"): "owner"}), (q._replace(forgot="not mine"), {((), "v"): "None"})]
            if po == "remove":
                if q.forgot != "mine":
                    bad("steals", "a path is forgotten although it may belong to another buffer by now")
                if ls[1] != "info":
                    bad("forgets-other", "a path other than the buffer's own is forgotten")
                return [(q._replace(forgot="done"), {})]
            if po in ("clear", "drain", "retain", "extend"):
                bad("bulk", "paths of other buffers may be affected")
            return None
        if self.owner_eq(c):
            if set(ls) == {"owner", "id"} or any(self.some_owner(m, a, d) for a in c.args):
                eq = last(c.declared) == "eq"
                return [(q._replace(forgot="mine" if v else "not mine"), {((), "c"): v == eq}) for v in (True, False)]
            return None
        mo = self.map_op(c)
        if mo == "insert":
            self.ninfo += 1
            if ls[1] != "id":
                bad("info-id", "file information is recorded for another buffer")
            f = self.fields(m, c, 2, d)
            if f[0] != "target":
                bad("info-path", "the recorded path is not the path of the file")
            if f[1] != "fresh":
                bad("info-time", f"the recorded modification time is not the time of the file as it now is ({f[1]})")
            if f[2] is not False:
                bad("info-changed", "a file just loaded or saved counts as changed by someone else")
            q = q._replace(info="target")
            return [(q._replace(existing=True, new=not v), {((), "v"): "Some" if v else "None"}) for v in (True, False) if q.existing in (None, v)]
        if mo == "remove":
            out = super().on_event(m, c, q, d)
            return [(a._replace(gone=a.existing, existing=a.existing), f) for a, f in out]
        if mo in ("clear", "drain", "retain"):
            bad("bulk-info", "information on other buffers may be affected")
        if self.watch(c):
            self.nwatch += 1
            n = last(c.name)
            if n == "watch":
                return [(q._replace(watched=ls[1] or "?"), {})]
            if n == "unwatch":
                return [(q._replace(unwatched=ls[1] or "?"), {})]
            return None
        if self.time(c):
            return [(q, {((), "l"): "fresh" if ls[0] == "target" and (q.done or self.mode == "open") else "stale"})]
        return super().on_event(m, c, q, d)

    def some_owner(self, m, a, d):
        k = m.opkey(a, d)
        for _ in range(3):
            if k is None:
                return False
            if d.get((k + SOMEP, "l")) == "owner" or d.get((k, "l")) == "owner":
                return True
            r = d.get((k, "r"))
            k = r[0] if r else None
        return False


def state(q):
    return {k: getattr(q, k) for k in CLEAN}


def run(ctx):
    rule = Tables()
    rule.ctx = ctx
    rule.nio = rule.nopen = rule.nren = rule.nmap = rule.ninfo = rule.nwatch = 0
    for mode in ("open", "save", "close"):
        rule.mode = mode
        root = ctx.inst(FM + mode)
        b = root.body
        env = {}
        for i in range(1, b.argc + 1):
            t = ctx.p.mkty(b.crate, b.locals[i])
            if t[0] == "adt" and last(t[1]) == "BufferId":
                env[((i,), "l")] = "id"
            elif has_adt(t, "Path"):
                env[((i, "*"), "l")] = "target"
            elif has_adt(t, "RopeInfo"):
                env[((i, "*"), "l")] = "text"
        m = Machine(ctx.p, ctx.r, rule)
        at = b.loc(b.line)
        kinds = set()
        for q, facts in m.run(root, START, env):
            v = dict(facts).get(((0,), "v"))
            s = state(q)
            if mode == "close":
                want = [CLEAN] if not q.gone else [dict(CLEAN, gone=True, unwatched="info", forgot=f) for f in ("done", "not mine")]
                v = "known" if q.gone else "unknown"
            elif v == "Err":
                want = [CLEAN]
            elif mode == "open":
                full = dict(CLEAN, opened="target", info="target")
                want = [CLEAN, dict(full, watched="target" if q.new else None)]
                v = "Ok, loaded" if s != CLEAN else "Ok, new file"
            elif q.existing and q.same and q.new is None:
                want = [dict(CLEAN, mod="fresh")]
                v = "Ok, same path"
            else:
                new = dict(CLEAN, opened="target", info="target", watched="target")
                want = [new] if q.same is None else [dict(new, unwatched="info", forgot=f) for f in ("done", "not mine")]
                v = "Ok, new path" if q.same is None else "Ok, other path"
            kinds.add(v)
            diff = {k: s[k] for k in CLEAN if s[k] != want[-1][k]} if s not in want else {}
            ctx.expect(s in want, f"tables-{mode}", f"{mode} ({v}): {', '.join(f'{k}={x}' for k, x in s.items() if x)}", f"{mode}:{v}:{sorted(diff)}",
                       f"after {mode} ({v}) the tables of open files, their information and what is watched disagree: {diff}", at)
        need = {"open": {"Err", "Ok, loaded", "Ok, new file"}, "save": {"Err", "Ok, same path", "Ok, other path", "Ok, new path"}, "close": {"known", "unknown"}}[mode]
        ctx.expect(need <= kinds, "anchor", f"{mode}: outcomes {sorted(kinds)}", f"anchor:{mode}")
        m.violations = {k: v for k, v in m.violations.items() if v["key"] in OWN}   # the others are P08's
        ctx.take(m, f"files:{mode}")
    for what, n in (("uses of the path table", rule.nmap), ("entries of file information", rule.ninfo), ("watch calls", rule.nwatch)):
        ctx.expect(n >= 1, "anchor", f"{n} {what} interpreted", f"anchor:{what}")
