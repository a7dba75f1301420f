"""P08 (loading): what is opened is the whole content of the file, decoded strictly, without its byte order mark."""
from collections import namedtuple

from ..esp import Machine, Rule
from ..lib import *
from .save_file import BOM, OKP, SOMEP

Q = namedtuple("Q", "exists failed bom read")
Q0 = Q(None, False, None, False)
CONVERT = ("to_owned", "to_string", "into_string", "into_boxed_str", "as_str", "as_ref", "borrow", "into", "from", "into_bytes", "as_bytes", "as_slice", "clone", "to_vec", "into_owned")


def io_err(t):
    return mentions(t, lambda x: x[0] == "adt" and x[1].endswith("io::error::Error"))


class Load(Rule):
    label_prefix = True
    track_consts = True
    label_pass = {"core::clone::Clone::clone"}

    def opaque(self, c):
        return bool(c.targets) and all(t.body.crate["crate"] != "xi_core_lib" for t in c.targets)

    def interesting(self, c):
        return self.kind(c) is not None

    def kind(self, c):
        n = last(c.name)
        s = c.name
        if n in ("exists", "try_exists", "is_file") and "Path" in s:
            return "exists"
        if n in ("read_to_end", "read_to_string", "read", "read_exact", "read_vectored", "read_buf", "take", "bytes", "chunks", "copy") and ("io::" in s or "fs::" in s or "io::" in (c.declared or "")):
            return "read"
        if n.startswith("from_utf8"):
            return "utf8"
        if n in ("starts_with", "strip_prefix") and (c.declared or s).startswith(("[T]", "str", "core::slice", "core::str", "<str", "alloc::string")):
            return "prefix"
        if n == "len" and const_arg(c, 0) in BOM:
            return "bomlen"
        if n in ("index", "get", "split_at", "drain", "split_off", "trim_start_matches", "trim", "trim_start", "trim_end", "replace", "replacen"):
            t = arg_ty(c, 0)
            if t is not None and (t[0] in ("str", "slice") or t[0] == "adt" and last(t[1]) in ("String", "Vec")):
                return "part"
        t = dest_ty(c)
        if (c.targets or n == "into") and t is not None and t[0] == "adt" and t[1] == "xi_rope::tree::Node" and len(c.args) <= 1:
            return "rope"
        t = arg_ty(c, 0)
        if t is not None and t[0] == "adt" and last(t[1]) == "HashMap" and has_adt(t, "FileInfo") and n == "insert":
            return "info"
        if n in CONVERT and not c.targets:
            return "convert"
        if dest_ty(c) is not None and dest_ty(c)[0] == "adt" and last(dest_ty(c)[1]) == "Result" and io_err(dest_ty(c)) and not c.targets and "open" in n:
            return "open"
        return None

    def call(self, m, c, q, d):
        k = self.kind(c)
        if k is None:
            return None
        n = last(c.name)
        b = c.inst.body
        ls = [m.labels(a, d) for a in c.args]

        def bad(key, msg):
            m.report(key, msg, b, c.line)
        if k == "exists":
            if n == "try_exists":
                return [(q._replace(exists=v), {((), "v"): "Ok", (OKP, "c"): v}) for v in (True, False)] + [(q._replace(failed=True), {((), "v"): "Err"})]
            return [(q._replace(exists=v), {((), "c"): v}) for v in (True, False) if q.exists in (None, v)]
        if k == "open":
            return [(q, {((), "v"): "Ok", (OKP, "l"): "file"}), (q._replace(failed=True), {((), "v"): "Err"})]
        if k == "read":
            self.nread += 1
            if n == "take":
                return [(q, {((), "l"): "some of the file"})]
            if n not in ("read_to_end", "read_to_string") and not (n == "read" and "fs::" in c.name):
                bad("partial-read", "a file may be read only in part")
                return None
            whole = "fs::" in c.name and "Read" not in c.name or ls[0] == "file"
            if not whole:
                bad("partial-read", f"a file may be read only in part ({ls[0]})")
            l = "bytes" if n != "read_to_string" else "str"
            err = (q._replace(failed=True), {((), "v"): "Err"})
            if len(c.args) == 2:
                k2 = m.opkey(c.args[1], d)
                for _ in range(3):
                    r = d.get((k2, "r")) if k2 else None
                    if r is None:
                        break
                    k2 = r[0]
                return [(q._replace(read=True), {((), "v"): "Ok"}, {(k2, "l"): l}), err]
            return [(q._replace(read=True), {((), "v"): "Ok", (OKP, "l"): l}), err]
        if k == "utf8":
            if n != "from_utf8":
                bad("lossy", f"a file that is not valid UTF-8 is not refused ({n})")
            if "lossy" in n:
                return [(q, {((), "l"): "other"})]
            self.nutf += 1
            return [(q, {((), "v"): "Ok", (OKP, "l"): {"bytes": "str", "cut": "cut"}.get(ls[0], "other")}), (q._replace(failed=True), {((), "v"): "Err"})]
        if k == "prefix":
            if const_arg(c, 1) not in BOM and ls[1] != "mark":
                return None
            if ls[0] not in ("bytes", "str"):
                return None
            if n == "starts_with":
                return [(q._replace(bom=v), {((), "c"): v}) for v in (True, False) if q.bom in (None, v)]
            return [(q._replace(bom=v), {((), "v"): "Some", (SOMEP, "l"): "cut"} if v else {((), "v"): "None"}) for v in (True, False) if q.bom in (None, v)]
        if k == "bomlen":
            return [(q, {((), "l"): "marklen"})]
        if k == "part":
            if ls[0] not in ("bytes", "str", "cut"):
                return None
            good = False
            if n in ("index", "get") and len(c.args) > 1:
                t = arg_ty(c, 1)
                rn = last(t[1]) if t is not None and t[0] == "adt" else ""
                kk = m.opkey(c.args[1], d)
                if rn == "RangeFull":
                    return [(q, {((), "l"): ls[0]})]
                s = (kk + (("f", 0),)) if kk else None
                good = rn == "RangeFrom" and ls[0] != "cut" and q.bom is True and (d.get((s, "l")) == "marklen" or d.get((s, "c")) == 3)
            l = "cut" if good else "a part of the text"
            return [(q, {((), "v"): "Some", (SOMEP, "l"): l})] if n == "get" else [(q, {((), "l"): l})]
        if k == "rope":
            l = ls[0] if ls else None
            if not ls or const_arg(c, 0) in ("", '""'):
                l = "empty"
            return [(q, {((), "l"): "rope of " + (l or "?")})]
        if k == "info":
            key = m.opkey(c.args[2], d)
            enc = d.get((key + (("f", self.ctx.fidx("file::FileInfo", "encoding")),), "v"))
            if q.bom is None or enc != ("Utf8WithBom" if q.bom else "Utf8"):
                bad("encoding", f"the encoding remembered for the file is not the one found ({enc}, mark: {q.bom})")
            self.ninfo += 1
            return None
        if k == "convert":
            if const_arg(c, 0) in BOM:
                return [(q, {((), "l"): "mark"})]
            return [(q, {((), "l"): ls[0]})] if ls and ls[0] in ("bytes", "str", "cut", "mark") else None
        return None


def run(ctx):
    rule = Load()
    rule.ctx = ctx
    rule.nread = rule.nutf = rule.ninfo = 0
    root = ctx.inst("xi_core_lib::file::FileManager::open")
    b = root.body
    m = Machine(ctx.p, ctx.r, rule)
    at = b.loc(b.line)
    kinds = set()
    for q, facts in m.run(root, Q0, {}):
        f = dict(facts)
        v = f.get(((0,), "v"))
        l = f.get(((0,) + OKP, "l"))
        if v == "Err":
            kinds.add("refused")
            ctx.expect(q.failed, "load-err", "a file is refused only when reading or decoding it failed", "load:err", at=at)
            continue
        if l == "rope of empty":
            ok = q.exists is False and not q.failed and not q.read
            kinds.add("new")
        else:
            ok = q.read and l == ("rope of cut" if q.bom else "rope of str") and q.bom is not None
            kinds.add("loaded")
        ctx.expect(ok, "load", f"the text is the whole decoded file (exists={q.exists}, failed={q.failed}, mark={q.bom}: {l})", f"load:{l}:{q.bom}:{q.failed}:{q.exists}",
                   f"a file is opened as something other than its whole content without its byte order mark: exists={q.exists}, a step failed={q.failed}, mark={q.bom}, text={l}", at)
    ctx.expect(kinds == {"refused", "new", "loaded"}, "anchor", f"outcomes of opening: {sorted(kinds)}", "anchor:load")
    ctx.take(m, "load")
    for what, n in (("reads", rule.nread), ("decodings", rule.nutf), ("entries of file information", rule.ninfo)):
        ctx.expect(n >= 1, "anchor", f"{n} {what} interpreted", f"anchor:{what}")
