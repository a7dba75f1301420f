"""P08: saving replaces the file in one step, completely, or leaves it as it was."""
from collections import namedtuple

from ..esp import LoopRule, Machine
from ..lib import *

SOMEP = (("d", "Some"), ("f", 0))
OKP = (("d", "Ok"), ("f", 0))
BOM = ("\ufeff", [0xEF, 0xBB, 0xBF], "b\"\\xef\\xbb\\xbf\"")
Q = namedtuple("Q", "existing same changed noext enc file bom text buf failed done part")
Q0 = Q(None, None, None, None, None, None, False, "", None, False, False, False)
READS = ("metadata", "symlink_metadata", "canonicalize", "read", "read_to_string", "open", "exists", "try_exists", "read_link", "read_dir")


def is_fs(c):
    return c.name.startswith(("std::fs::", "<std::fs::", "std::os::unix::fs::")) and "::Permissions" not in c.name and "::Metadata" not in c.name


def io_result(c):
    t = dest_ty(c)
    return t is not None and t[0] == "adt" and t[1].endswith("::Result") and mentions(t, lambda x: x[0] == "adt" and x[1].endswith("io::error::Error"))


class Save(LoopRule):
    label_prefix = True
    track_consts = True
    label_pass = {"core::iter::traits::collect::IntoIterator::into_iter", "std::path::Path::new", "core::clone::Clone::clone"}

    # -- classification
    def loop(self, c):
        t = arg_ty(c, 0)
        return "chunks" if mentions(t, lambda x: x[0] == "adt" and last(x[1]) == "ChunkIter") else None

    def map_op(self, c):
        """Access to the table of files by buffer."""
        t = arg_ty(c, 0)
        if t is None or t[0] != "adt" or last(t[1]) != "HashMap" or not has_adt(t, "FileInfo"):
            return None
        return last(c.declared or c.name)

    def writer(self, c):
        t = arg_ty(c, 0)
        if any(t.body.crate["crate"] == "xi_core_lib" for t in c.targets):
            return False
        return t is not None and t[0] == "adt" and last(t[1]) in ("File", "BufWriter", "LineWriter")

    def path_op(self, c):
        n = c.name
        if n.startswith("std::path::Path") and last(n) in ("extension", "with_extension", "set_extension", "with_file_name", "file_name", "with_added_extension"):
            return True
        return last(n) == "push" and "OsString" in n

    def path_eq(self, c):
        return trait_method(c, "PartialEq", ("eq", "ne")) and any(
            has_adt(arg_ty(c, i), x) for i in (0, 1) for x in ("PathBuf", "Path"))

    def text_op(self, c):
        return any(t.body.name in ("xi_rope::tree::Node::len", "xi_rope::tree::Node::iter_chunks") for t in c.targets)

    def bytes_of(self, c):
        return last(c.name) in ("as_bytes", "into_bytes") and const_arg(c, 0) in BOM

    def event(self, c):
        return bool(is_fs(c) or self.map_op(c) or self.writer(c) and io_result(c) or self.path_op(c) or self.path_eq(c) or self.text_op(c) or self.bytes_of(c))

    def opaque(self, c):
        return self.text_op(c) or "xi_trace" in c.name or bool(c.targets) and all(t.body.crate["crate"] != "xi_core_lib" for t in c.targets)

    def edge(self, m, body, bb, key, variant, q, d):
        l = m.label_at(key, d)
        if isinstance(variant, bool):
            if l == "info":
                q = q._replace(changed=variant)
        elif variant in ("Utf8", "Utf8WithBom"):
            q = q._replace(enc=(variant, "info" if l == "info" else "fixed"))
        return q

    # -- loop over the chunks of the text
    def item(self, c, tok):
        return {((), "l"): "chunk"}

    def step(self, m, c, q, tok, more):
        s = q.text
        if more:
            return q._replace(text={"": "i", "u": "i"}.get(s, "x"))
        return q._replace(text={"": "all", "u": "all", "i": "x"}.get(s, s))

    # -- events
    def fork(self, q, c, label=None, ok=None):
        a = ok if ok is not None else q
        fs = {((), "v"): "Ok"}
        if label:
            fs[(OKP, "l")] = label
        return [(a, fs), (q._replace(failed=True), {((), "v"): "Err"})]

    def on_event(self, m, c, q, d):
        b, n = c.inst.body, last(c.name)
        ls = [m.labels(a, d) for a in c.args]

        def bad(key, msg):
            m.report(key, msg, b, c.line)
        mo = self.map_op(c)
        if mo:
            if mo == "contains_key":
                return [(q._replace(existing=v), {((), "c"): v}) for v in (True, False) if q.existing in (None, v)]
            if mo in ("get", "get_mut", "remove"):
                return [(q._replace(existing=v), {((), "v"): "Some", (SOMEP, "l"): "info"} if v else {((), "v"): "None"})
                        for v in (True, False) if q.existing in (None, v)]
            if mo == "index":
                return [(q._replace(existing=True), {((), "l"): "info"})] if q.existing is not False else []
            return None
        if self.path_eq(c):
            if set(ls) != {"info", "target"}:
                return None
            eq = last(c.declared) == "eq"
            return [(q._replace(same=v), {((), "c"): v == eq}) for v in (True, False) if q.same in (None, v)]
        if self.path_op(c):
            return self.paths(m, c, q, d, n, ls)
        if self.text_op(c):
            if n == "len":
                return [(q, {((), "l"): "len" if ls[0] == "text" else None} if ls[0] == "text" else {})]
            full = ls[0] == "text" and self.full_range(m, c, d)
            return [(q._replace(part=q.part or not full), {((), "l"): "chunks"})]
        if self.bytes_of(c):
            return [(q, {((), "l"): "bom"})]
        if is_fs(c):
            return self.fs(m, c, q, d, n, ls, bad)
        if self.writer(c) and io_result(c):
            self.nio += 1
            q = self.written(m, c, q, d, n, ls, bad)
            return self.fork(q, c)
        return None

    def paths(self, m, c, q, d, n, ls):
        if n == "extension":
            if ls[0] != "target":
                return None
            return [(q._replace(noext=not v), {((), "v"): "Some", (SOMEP, "l"): "ext"} if v else {((), "v"): "None"}) for v in (True, False) if q.noext in (None, not v)]
        if n == "file_name":
            return [(q, {((), "v"): "Some", (SOMEP, "l"): "name"}), (q, {((), "v"): "None"})] if ls[0] == "target" else None
        if n == "push":
            if not const_arg(c, 1):
                return None
            k = m.opkey(c.args[0], d)
            r = d.get((k, "r"))
            extra = {(r[0] if r else k, "l"): {"ext": "ext+", "name": "name+", "target": "tmp"}.get(ls[0], ls[0])}
            return [(q, {}, {k: v for k, v in extra.items() if v[1] is not None})] if ls[0] else None
        if n in ("with_extension", "set_extension", "with_file_name", "with_added_extension"):
            if ls[0] != "target":
                return None
            if n == "with_extension":
                const = const_arg(c, 1)
                ok = ls[1] == "ext+" or q.noext is True and ls[1] != "ext"
            elif n == "with_added_extension":
                ok = True
            else:
                ok = n == "with_file_name" and ls[1] == "name+"
            return [(q, {((), "l"): "tmp" if ok else "maybe-target"})]
        return None

    def full_range(self, m, c, d):
        t = arg_ty(c, 1)
        k = m.opkey(c.args[1], d) if len(c.args) > 1 else None
        if t is None:
            return False
        n = last(t[1]) if t[0] == "adt" else ""
        if n == "RangeFull":
            return True
        if k is None:
            return False
        if n == "RangeTo":
            return d.get((k + (("f", 0),), "l")) == "len"
        if n == "Range":
            return d.get((k + (("f", 0),), "c")) == 0 and d.get((k + (("f", 1),), "l")) == "len"
        if n == "RangeFrom":
            return d.get((k + (("f", 0),), "c")) == 0
        return False

    def written(self, m, c, q, d, n, ls, bad):
        if n in ("flush", "into_inner"):
            return q._replace(buf="flushed" if q.buf else None)
        if n in ("write", "write_vectored"):
            bad("partial-write", "part of the data may remain unwritten")
        if n not in ("write_all", "write", "write_fmt", "write_vectored"):
            return q
        if has_adt(arg_ty(c, 0), "BufWriter") or has_adt(arg_ty(c, 0), "LineWriter"):
            q = q._replace(buf="dirty")
        l = ls[1] if len(ls) > 1 else None
        if l is None and const_arg(c, 1) in BOM:
            l = "bom"
        if l == "bom":
            if q.text or q.bom:
                bad("bom-late", "a byte order mark is written twice or after text")
            return q._replace(bom=True)
        if l == "chunk":
            return q._replace(text={"i": "u"}.get(q.text, "x"))
        if l == "text":
            return q._replace(text="all" if q.text == "" else "x")
        bad("other-data", "something other than the text and a byte order mark is written to the file")
        return q

    def open(self, m, c, q, l, bad):
        self.nopen += 1
        if l != "tmp":
            bad("in-place", "the file itself, or a path that may be it, is opened for writing: a crash or error leaves it truncated")
        if q.file:
            bad("two-files", "a second file is written")
        if q.existing is not False and not (q.existing and (q.same is False or q.same and q.changed is False)):
            bad("overwrites", "a file may be overwritten although it is known to have changed on disk")
        return q._replace(file="open")

    def fs(self, m, c, q, d, n, ls, bad):
        head = c.name.rsplit("::", 1)[0]
        if "OpenOptions" in head and n != "open":
            return None
        if (n in ("create", "create_new") and "File" in head) or "OpenOptions" in head:
            return self.fork(q, c, "file", self.open(m, c, q, ls[0] if "File" in head else ls[1], bad))
        if head == "std::fs" and n == "write":
            q2 = self.open(m, c, q, ls[0], bad)
            return self.fork(q, c, None, self.written(m, c, q2, d, "write_all", ls, bad))
        if n == "rename":
            self.nren += 1
            if ls[:2] != ["tmp", "target"]:
                bad("rename", f"the file is not replaced by the temporary file ({ls})")
            if q.file != "open" or q.failed:
                bad("rename-early", "the file is replaced although writing the temporary file failed")
            if q.text != "all" or q.part:
                bad("rename-incomplete", "the file is replaced before the whole text is written")
            if q.buf == "dirty":
                bad("rename-unflushed", "the file is replaced before buffered data is flushed")
            if q.enc is None or (q.enc[0] == "Utf8WithBom") != q.bom:
                bad("bom", f"a byte order mark is not written exactly when the encoding has one ({q.enc}, {q.bom})")
            elif q.enc[1] != "info" and q.existing is not False:
                bad("encoding", "a file that was loaded is not saved in its encoding")
            return self.fork(q, c, None, q._replace(done=True))
        if n == "set_permissions" or n in READS:
            return self.fork(q, c)[:1] + [(q, {((), "v"): "Err"})] if io_result(c) else None
        if self.writer(c):
            return self.fork(q, c) if io_result(c) else None
        if any(l in ("target", "maybe-target") for l in ls):
            bad("touches", f"the file is touched by {c.name}")
        return self.fork(q, c) if io_result(c) else None


def run(ctx):
    rule = Save()
    rule.nio = rule.nopen = rule.nren = 0
    root = ctx.inst("xi_core_lib::file::FileManager::save")
    b = root.body
    env = {}
    for i in range(1, b.argc + 1):
        t = ctx.p.mkty(b.crate, b.locals[i])
        if has_adt(t, "Path"):
            env[((i, "*"), "l")] = "target"
        elif has_adt(t, "RopeInfo"):
            env[((i, "*"), "l")] = "text"
    ctx.expect(len(env) == 2, "anchor", "path and text parameters", "anchor:params")
    m = Machine(ctx.p, ctx.r, rule)
    at = b.loc(b.line)
    kinds = set()
    for q, facts in m.run(root, Q0, env):
        v = dict(facts).get(((0,), "v"))
        kinds.add((v, q.done))
        if v == "Ok":
            ok = q.done and not q.failed
            ctx.expect(ok, "ok-means-saved", f"success is reported only after the file is replaced without error (replaced={q.done}, failed={q.failed})", "exit:ok", at=at)
        elif v == "Err":
            ok = q.failed or q.changed is True
            ctx.expect(ok, "err-means-failed", f"failure is reported only when a step failed or the file changed on disk (failed={q.failed}, changed={q.changed})", "exit:err", at=at)
        else:
            ctx.expect(False, "exit", "outcome known", "exit:unknown", at=at)
    ctx.expect(("Ok", True) in kinds and ("Err", False) in kinds, "anchor", "a succeeding and a failing exit", "anchor:exits")
    ctx.take(m, "save")
    for what, n in (("files opened for writing", rule.nopen), ("replacements", rule.nren), ("writes", rule.nio)):
        ctx.expect(n >= 1, "anchor", f"{n} {what} interpreted", f"anchor:{what}")
