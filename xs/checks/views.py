"""P11: opening, completing and closing a view keep the core's tables consistent, and delayed work finds its view."""
from collections import namedtuple

from ..esp import LoopRule, Machine
from ..lib import *
from .edit_flow import handlers

Q = namedtuple("Q", "kind last path file view editors views config pending idle loops shown known ids")
START = Q(None, None, None, None, None, None, None, None, None, None, (), frozenset(), None, 0)
LOW = (1 << 25) - 1


def strip(t):
    while t is not None and t[0] == "ref":
        t = t[2]
    return t


class Views(LoopRule):
    label_prefix = True
    track_consts = True
    label_pass = {"core::option::Option::as_deref", "core::option::Option::as_ref", "core::convert::Into::into", "core::convert::From::from", "std::path::PathBuf::as_path"}

    def __init__(self, mode):
        self.mode = mode
        self.complete = True
        self.tokens = {}     # token -> places where it is scheduled
        self.n = 0

    # -- what is what
    def lab(self, m, a, d):
        l = m.labels(a, d)
        if l is None and a[0] != "c":
            k = m.key(a[1], d)
            for _ in range(3):
                if k is None:
                    break
                l = d.get((k + (("f", 0),), "l"))
                if l is not None:
                    break
                r = d.get((k, "r"))
                k = r[0] if r else None
        return l

    def table(self, c):
        t = strip(arg_ty(c, 0))
        if t is None or t[0] != "adt" or len(t[2]) < 2 or last(t[1]) not in ("HashMap", "BTreeMap"):
            return None
        k, v = t[2][0], t[2][1]
        if k[0] == "adt" and last(k[1]) == "ViewId" and has_adt(v, "View"):
            return "views"
        if k[0] == "adt" and last(k[1]) == "BufferId" and has_adt(v, "Editor"):
            return "editors"
        return None

    def to(self, c, ty, names):
        return any(t.body.name == f"xi_core_lib::{ty}::{n}" for t in c.targets for n in names)

    def pend(self, t):
        t = strip(t)
        return t is not None and t[0] == "adt" and last(t[1]) in ("Vec", "VecDeque", "IntoIter", "Iter", "Drain") and len(t[2]) >= 1 and any(
            strip(x) is not None and strip(x)[0] == "tuple" and len(strip(x)[1]) == 2 and has_adt(x, "ViewId") for x in t[2])

    def plugins(self, t):
        t = strip(t)
        return t is not None and t[0] == "adt" and (last(t[1]) in ("Iter", "IntoIter", "IterMut") and any(has_adt(x, "Plugin") for x in t[2]))

    def loop(self, c):
        t = arg_ty(c, 0)
        if self.pend(t) and self.mode == "idle":
            return "pending"
        if self.plugins(t) and not last(c.declared or "").startswith("map"):
            return "plugin"
        return None

    def item(self, c, tok):
        if tok == "plugin":
            return {((), "l"): "plugin"}
        ty = strip(arg_ty(c, 0))
        byref = last(ty[1]) in ("Iter", "IterMut")
        return {((("f", 0),), "l"): "vid"} if not byref else {(("*", ("f", 0)), "l"): "vid", ((), "l"): "vid"}

    def ev(self, c):
        n = last(c.declared or c.name)
        t0 = arg_ty(c, 0)
        if self.table(c) and n in ("insert", "remove", "get", "get_mut", "index", "contains_key", "clear", "drain", "retain", "entry"):
            return "table"
        if self.to(c, "tabs::Counter", ("next",)):
            return "id"
        if self.to(c, "file::FileManager", ("open", "close")):
            return "file"
        if self.to(c, "config::ConfigManager", ("add_buffer", "remove_buffer")):
            return "config"
        if any(t.body.name == "xi_core_lib::view::View::new" for t in c.targets):
            return "view"
        if any(t.body.name == "xi_core_lib::view::View::get_buffer_id" for t in c.targets):
            return "bid"
        if any(t.body.name.startswith("xi_core_lib::plugins::Plugin::") for t in c.targets):
            return "plugin"
        if any(t.body.name.startswith("xi_core_lib::client::Client::") for t in c.targets):
            return "client"
        if self.pend(t0) and n in ("push", "push_back", "pop", "clear", "truncate", "remove"):
            return "pending"
        if c.declared in ("core::mem::replace", "core::mem::take") and self.pend(t0):
            return "take"
        if n == "is_empty" and strip(t0) is not None and has_adt(t0, "RefCell") and has_adt(t0, "View"):
            return "siblings"
        if n == "is_empty" and strip(t0) is not None and has_adt(t0, "Plugin"):
            return "idle plugins"
        if c.name.startswith("serde_json::") and n == "to_value":
            return "value"
        if any(t.body.name == "xi_core_lib::view::View::send_update_for_plan" or t.body.name == "xi_core_lib::view::View::render_if_dirty" for t in c.targets):
            return "draw"
        return None

    def event(self, c):
        return self.ev(c) is not None

    def opaque(self, c):
        return self.ev(c) in ("id", "file", "config", "view", "bid", "plugin", "client", "draw")

    def edge(self, m, inst, bb, key, variant, q, d):
        l = m.label_at(key, d) if key else None
        if l == "msg" and variant in ("NewView", "CloseView"):
            return q._replace(kind=variant)
        if l == "siblings" and isinstance(variant, bool):
            return q._replace(last=variant)
        if isinstance(l, tuple) and l[0] == "mask" and isinstance(variant, tuple):
            if variant[0] == "int":     # no mask plus a view id equals a plain token
                return None
        return q

    def binop(self, m, inst, op, a, b, d):
        for x, y in ((a, b), (b, a)):
            l, cst = self.lab(m, x, d), m.opconst(y, d)
            if l is None or not isinstance(cst, int) or isinstance(cst, bool):
                continue
            if l == "vid" and op in ("BitOr", "Add", "AddWithOverflow", "BitXor") and cst & LOW == 0:
                return ("l", ("mask", cst))
            if isinstance(l, tuple) and l[0] == "mask":
                if op == "BitAnd":
                    if cst & LOW == 0:
                        return ("c", l[1] & cst)
                    if cst & LOW == LOW:
                        return ("l", ("mask", l[1] & cst) if l[1] & cst else "vid")
                if op in ("BitXor", "Sub", "SubWithOverflow") and cst & LOW == 0:
                    r = l[1] ^ cst if op == "BitXor" else l[1] - cst
                    return ("l", ("mask", r) if r else "vid")
                if op in ("Eq", "Ne"):
                    return ("c", op == "Ne")
        return None

    def fnitem(self, m, c, name, facts, q, d):
        if last(name) in ("from", "into") and facts and facts[0]:
            return [(q, facts[0])]
        return None

    def step(self, m, c, q, tok, more):
        if self.mode == "close" and q.kind is None or self.mode in ("open", "schedule") or not self.complete:
            return q
        st = dict(q.loops)
        cur = st.get(tok)
        if cur is not None and not isinstance(cur, frozenset):
            return None if more else q       # done before
        if tok == "pending" and cur is not None:
            self.finished(m, c, q)
        if tok == "plugin" and cur is not None:
            st["all"] = st["all"] & cur if "all" in st else cur
        if more:
            st[tok] = frozenset()
            if tok == "pending":
                st.pop("plugin", None)
                st.pop("all", None)
                return q._replace(loops=tuple(sorted(st.items(), key=str)), shown=frozenset(), known=None)
        else:
            if tok == "plugin":
                q = q._replace(shown=q.shown | (set(st["all"]) if "all" in st else {"no plugins"}))
                st.pop("plugin", None)
                st.pop("all", None)
            else:
                st[tok] = "done"
        return q._replace(loops=tuple(sorted(st.items(), key=str)))

    NEED = {"available_plugins", "config_changed", "language_changed", "draw"}

    def finished(self, m, c, q):
        need = self.NEED | (set() if "no plugins" in q.shown else {"new_buffer", "plugin_started"})
        if q.known and not need <= q.shown:
            m.report("init-missed", f"a new view is not completed: {sorted(need - q.shown)} missing", c.inst.body, c.line)

    def on_event(self, m, c, q, d):
        k = self.ev(c)
        n = last(c.declared or c.name)
        b = c.inst.body
        ls = [self.lab(m, a, d) for a in c.args]

        def bad(key, msg):
            m.report(key, msg, b, c.line)
        self.n += 1
        if k == "id":
            return [(q._replace(ids=min(q.ids + 1, 5)), {((), "l"): f"id{q.ids}"})]
        if k == "file":
            if n == "open":
                return [(q._replace(file=(ls[1] == "path", ls[2])), {((), "v"): "Ok", ((("d", "Ok"), ("f", 0)), "l"): "text"}),
                        (q, {((), "v"): "Err"})]
            return [(q._replace(file=ls[1] or "?"), {})]
        if k == "config":
            return [(q._replace(config=(n, ls[1])), {})]
        if k == "view":
            return [(q._replace(view=(ls[0], ls[1])), {((), "l"): "view"})]
        if k == "bid":
            return [(q, {((), "l"): "bid"})]
        if k == "table":
            t = self.table(c)
            if n == "insert":
                q = q._replace(**{t: (ls[1], ls[2])})
                return [(q, {((), "v"): "None"})]
            if n == "remove":
                if t == "views":
                    out = []
                    for v in ("Some", "None"):
                        if q.known is None or q.known == (v == "Some"):
                            out.append((q._replace(known=v == "Some", views=("removed", ls[1]) if v == "Some" else q.views), {((), "v"): v}))
                    return out
                return [(q._replace(editors=("removed", ls[1])), {})]
            if n in ("get", "get_mut", "contains_key"):
                if t == "views" and ls[1] == "vid" and (self.mode == "close" and q.kind or self.mode == "idle"):
                    out = []
                    for v in (True, False):
                        if q.known is None or q.known == v:
                            out.append((q._replace(known=v), {((), "v"): "Some" if v else "None"} if n != "contains_key" else {((), "c"): v}))
                    return out
                if self.mode == "idle" and t == "views" and ls[1] != "vid":
                    bad("other-view", "delayed work looks up another view than the one it was scheduled for")
                return None
            if n in ("clear", "drain", "retain"):
                bad("bulk", "tables of other views are changed")
            return None
        if k == "pending":
            if n.startswith("push"):
                pk = m.opkey(c.args[1], d)
                f = pk + (("f", 0),) if pk else None
                l = m.label_at(f, d) or d.get((f + (("f", 0),), "l")) if f else None
                return [(q._replace(pending=l or "?"), {})]
            return None
        if k == "take":
            return [(q, {})]
        if k == "client":
            if n in ("schedule_idle", "schedule_timer"):
                a = c.args[1 if n == "schedule_idle" else 2]
                tok = m.opconst(a, d)
                if tok is None:
                    tok = self.lab(m, a, d)
                self.tokens.setdefault(tok, {})[b.name] = b.loc(c.line)
                return [(q._replace(idle=tok) if self.mode == "open" else q, {})]
            if n == "plugin_started":
                st = dict(q.loops)
                if isinstance(st.get("plugin"), frozenset):
                    st["plugin"] |= {n}
                    q = q._replace(loops=tuple(sorted(st.items(), key=str)))
                return [(q, {})]
            return [(q._replace(shown=q.shown | {n}), {})] if n in self.NEED and self.mode == "idle" and self.complete else [(q, {})]
        if k == "draw":
            if not self.complete or self.mode != "idle":
                return [(q, {})]
            return [(q._replace(shown=q.shown | {"draw"}), {})]
        if k == "plugin":
            st = dict(q.loops)
            if isinstance(st.get("plugin"), frozenset):
                st["plugin"] |= {n}
                return [(q._replace(loops=tuple(sorted(st.items(), key=str))), {})]
            return [(q, {})]
        if k == "siblings":
            return [(q, {((), "l"): "siblings"})]
        if k == "idle plugins":
            return [(q._replace(shown=q.shown | {"no plugins"}) if self.complete and (q.kind or self.mode == "idle") else q, {((), "c"): True}), (q, {((), "c"): False})]
        if k == "value":
            return [(q, {((), "v"): "Ok", ((("d", "Ok"), ("f", 0)), "l"): ls[0] or "?"})]
        return None


def find(ctx, name):
    for h in handlers(ctx):
        if h.body.name == f"<xi_core_lib::core::XiCore as xi_rpc::Handler>::{name}":
            return h
    raise AnchorMissing(name)


def run(ctx):
    # opening
    rule = Views("open")
    rule.ctx = ctx
    root = find(ctx, "handle_request")
    m = Machine(ctx.p, ctx.r, rule)
    field = (3, ("d", "NewView"), ("f", 0))
    outs = []
    for v in ("Some", "None"):
        env = {((3,), "l"): "msg", (field, "v"): v}
        if v == "Some":
            env[(field + (("d", "Some"), ("f", 0)), "l")] = "path"
        outs += m.run(root, START._replace(path=v == "Some"), env)
    at = root.body.loc(root.body.line)
    seen = set()
    opened = None
    for q, facts in outs:
        f = dict(facts)
        v = f.get(((0,), "v"))
        touched = {x: getattr(q, x) for x in ("view", "editors", "views", "config", "pending", "idle") if getattr(q, x)}
        if q.kind != "NewView":
            ctx.expect(not touched, "open", "other requests create no view", "open:other", f"a request other than opening a view creates one: {touched}", at)
            continue
        seen.add((v, q.path))
        if v == "Err":
            ctx.expect(not touched, "open", f"refused: nothing registered", f"open:err:{sorted(touched)}", f"opening a view fails, but leaves something behind: {touched}", at)
            continue
        vid, bid = (q.view or (None, None))
        ok = vid is not None and bid is not None and vid != bid and str(vid).startswith("id") and str(bid).startswith("id")
        ok = ok and q.editors is not None and q.editors[0] == bid and q.views is not None and q.views[0] == vid and q.config == ("add_buffer", bid) and q.pending == vid and q.idle is not None
        ctx.expect(ok, "open", f"view, buffer, configuration and pending completion registered under the same new ids (path given: {q.path})", f"open:ok:{sorted(touched)}",
                   f"after opening a view its tables disagree: {touched}", at)
        ctx.expect(q.file == ((True, bid) if q.path else None), "open", f"file opened iff a path is given ({q.path})", f"open:file:{q.path}:{q.file and q.file[0]}",
                   "opening a view does not load exactly the given file for its own buffer", at)
        ctx.expect(f.get(((0, ("d", "Ok"), ("f", 0)), "l")) == vid, "open", "the id of the new view is the answer", "open:answer", "the answer to opening a view is not its id", at)
        opened = q.idle
    ctx.expect({("Err", True), ("Ok", True), ("Ok", False)} <= seen, "anchor", f"outcomes of opening a view: {sorted(seen, key=str)}", "anchor:open")
    ctx.take(m, "views:open")

    # closing
    rule = Views("close")
    rule.ctx = ctx
    root = find(ctx, "handle_notification")
    m = Machine(ctx.p, ctx.r, rule)
    at = root.body.loc(root.body.line)
    seen = set()
    outs = m.run(root, START, {((3,), "l"): "msg", ((3, ("d", "CloseView"), ("f", 0)), "l"): "vid"})
    for q, facts in outs:
        touched = {x: getattr(q, x) for x in ("editors", "views", "config", "file") if getattr(q, x)}
        if q.kind != "CloseView":
            ctx.expect(not {k for k, v in touched.items() if k in ("editors", "views")}, "close", "other messages remove no view", "close:other",
                       f"a message other than closing a view removes one: {touched}", at)
            continue
        if not q.known:
            ctx.expect(not touched, "close", "closing an unknown view changes nothing", f"close:unknown:{sorted(touched)}", f"closing an unknown view changes {touched}", at)
            seen.add("unknown")
            continue
        want = {"views": ("removed", "vid")}
        if q.last is not False:
            want.update(editors=("removed", "bid"), config=("remove_buffer", "bid"), file="bid")
            seen.add("last")
        diff = sorted(k for k in set(want) | set(touched) if want.get(k) != touched.get(k))
        ctx.expect(not diff, "close", f"closing a view (last of its buffer: {q.last}) removes {sorted(want)}", f"close:{q.last}:{diff}", f"closing a view leaves its tables inconsistent: {diff} ({touched})", at)
        ctx.expect("no plugins" in q.shown or "close_view" in q.shown, "close", "every plugin is told that a view is closed", "close:plugins", "a view is closed without telling the plugins", at)
    ctx.expect({"unknown", "last"} <= seen, "anchor", f"outcomes of closing a view: {sorted(seen)}", "anchor:close")
    ctx.take(m, "views:close")

    # delayed work
    sched = schedules(ctx)
    root = find(ctx, "idle")
    at = root.body.loc(root.body.line)
    masks = {}
    for tok, sites in sorted(sched.items(), key=str):
        where = ", ".join(sorted(sites))
        if tok is None:
            ctx.expect(False, "token", f"token of {where}", f"token:{where}", "it cannot be told what delayed work this token stands for", list(sites.values())[0])
            continue
        rule = Views("idle")
        rule.ctx = ctx
        rule.complete = tok == opened
        m = Machine(ctx.p, ctx.r, rule)
        env = {((3,), "c"): tok} if isinstance(tok, int) else {((3,), "l"): tok}
        outs = [q for q, _ in m.run(root, START, env) if q is not None]
        ctx.expect(bool(outs), "token", f"token {tok} scheduled by {where} is handled", f"token:{tok}", f"delayed work scheduled by {where} ends in a panic", at)
        if tok == opened:
            ok = all(dict(q.loops).get("pending") == "done" for q in outs)
            ctx.expect(ok, "complete", "every pending view is completed", "complete:all", "new views are not completed when their delayed work runs", at)
        elif isinstance(tok, tuple):
            masks[tok] = sites
            ctx.expect(tok[0] == "mask" and bin(tok[1]).count("1") == 1, "token", f"{tok} is one bit above every view id", f"token:bit:{tok}",
                       "tokens of delayed work for a view overlap", at)
            ctx.expect(any(q.known for q in outs) and any(q.known is False for q in outs), "token", f"token {tok} leads to the view it was made for", f"token:view:{tok}",
                       f"delayed work scheduled by {where} does not look up the view it was scheduled for", at)
            ctx.expect(resumes(ctx, m, sites), "resume", f"handler of {tok} resumes what {where} scheduled", f"resume:{tok}",
                       f"the handler of {tok} does not resume what {where} scheduled", at)
        ctx.take(m, f"views:{tok}")
    ctx.expect(len({t[1] for t in masks}) >= 3, "anchor", f"{len(masks)} kinds of delayed work for views", "anchor:masks")
    ctx.expect(opened in sched, "anchor", "completion of new views is scheduled", "anchor:opened")


def schedules(ctx):
    """Every token scheduled by the core, found from the function that computes it."""
    out = {}
    sites = []
    for b in ctx.p.bodies.values():
        if b.crate["crate"] != "xi_core_lib" or ctx.tests(b) or b.name.startswith("xi_core_lib::client::"):
            continue
        for c in ctx.r.calls(Inst(b)).values():
            if any(t.body.name in ("xi_core_lib::client::Client::schedule_idle", "xi_core_lib::client::Client::schedule_timer") for t in c.targets):
                sites.append(b)
    for b in {x.uid: x for x in sites}.values():
        level, got = [Inst(b)], {}
        for _ in range(4):
            got = {}
            for i in level:
                rule = Views("schedule")
                m = Machine(ctx.p, ctx.r, rule)
                env = {}
                for k in range(1, i.body.argc + 1):
                    t = strip(ctx.p.mkty(i.body.crate, i.body.locals[k], i.env or None))
                    ref = ctx.p.mkty(i.body.crate, i.body.locals[k])[0] == "ref"
                    base = (k, "*") if ref else (k,)
                    if t[0] == "adt" and last(t[1]) == "ViewId":
                        env[(base, "l")] = "vid"
                    elif t[0] == "adt" and last(t[1]) == "EventContext":
                        env[(base + (("f", ctx.fidx("event_context::EventContext", "view_id")),), "l")] = "vid"
                m.run(i, START, env)
                for t, s in rule.tokens.items():
                    got.setdefault(t, {}).update({n: w for n, w in s.items() if n == b.name})
            got = {t: s for t, s in got.items() if s}
            if None not in got:
                break
            level = [c for i in level for c in ctx.callers(i.body.uid)]
        for t, s in got.items():
            out.setdefault(t, {}).update(s)
    return out


def resumes(ctx, m, sites):
    """Does what the handler ran include the scheduling function, or a flag setter that it or its caller also uses?"""
    ran = {i.body.name for i in m.allvisited}
    for i in list(m.allvisited):
        for c in ctx.r.calls(i).values():
            ran |= {t.body.name for t in c.targets}
    ran |= {j.body.name for j in ctx.reachable([i for i in m.allvisited if i.body.crate["crate"] == "xi_core_lib" and "EventContext" in i.body.name])}
    for name in sites:
        if name in ran:
            return True
        level = [Inst(ctx.fn(name))]
        for _ in range(2):
            for i in level:
                for c in ctx.r.calls(i).values():
                    for t in c.targets:
                        if "::View::set_" in t.body.name and t.body.name in ran:
                            return True
            level = [x for i in level for x in ctx.callers(i.body.uid)]
    return False
