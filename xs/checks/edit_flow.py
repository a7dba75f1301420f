"""P13: every change of a buffer's text reaches head text, span layers, views, plugins and the frontend."""
from ..esp import LoopRule, Machine, Rule
from ..lib import *

SOMEP = (("d", "Some"), ("f", 0))
ENGINE = "xi_rope::engine::Engine::"
PEER = ("send_rpc_notification", "send_rpc_request_async", "send_rpc_request", "request_is_pending", "schedule_idle", "schedule_timer", "box_clone")
#: methods of the engine that take it mutably without changing the current text
HARMLESS = ("gc", "set_session_id")


def engine_mut(c):
    """A call that changes the current text of the edit history."""
    for t in c.targets:
        n = t.body.name
        if n.startswith(ENGINE) and "{closure" not in n and last(n) not in HARMLESS and not c.inst.body.name.startswith(ENGINE):
            ty = t.body.prog.mkty(t.body.crate, t.body.locals[1]) if t.body.argc else ("p", "()")
            if ty[0] == "ref" and ty[1]:
                return True
    return False


def is_engine(c, names):
    return any(t.body.name.startswith(ENGINE) and last(t.body.name) in names for t in c.targets) and \
        not c.inst.body.name.startswith(ENGINE)


def commit_fns(ctx):
    return {b.uid for b in ctx.p.bodies.values() if not ctx.tests(b) and "{closure" not in b.name and
            has_adt(ctx.p.mkty(b.crate, b.locals[0]), "Delta") and has_adt(ctx.p.mkty(b.crate, b.locals[0]), "InsertDrift")}


def text_field(place):
    f = field_of_place(place)
    return f is not None and f[1] == "text" and last(f[0]) == "Editor"


class Flow(LoopRule):
    """q = (ed, views, plugs, rend, flag, timer, ver)
    ed: clean (committed) | stale (history changed, text not refreshed) | fresh (changed, not committed)
    views/plugs: still to be told: '' or some of m (the view of this context), s (its siblings) / p; within a loop
      over them with a prefix i: (item in hand), u: (it was told) or x: (one was skipped)
    rend: 1 to be drawn, 2 drawn; flag: None/True/False (a redraw is scheduled); timer: scheduled on this path;
    ver: parity of the number of changes; big: the change was found too large to send"""
    label_prefix = True
    track_consts = True
    label_pass = {"core::clone::Clone::clone"}

    # -- loops over the views or plugins of a context
    def loop(self, c):
        t = arg_ty(c, 0)
        if t is None:
            return None
        if mentions(t, lambda x: x[0] == "adt" and last(x[1]) == "RefCell" and x[2] and has_adt(x[2][0], "View")):
            return "views"
        if mentions(t, lambda x: x[0] == "adt" and last(x[1]) == "Iter" and x[2] and any(has_adt(a, "Plugin") for a in x[2])):
            return "plugs"
        return None

    def covers(self, c, tok):
        """What an iteration visits: everything its iterator type chains, nothing when it leaves items out."""
        t = arg_ty(c, 0)

        def has(names):
            return mentions(t, lambda x: x[0] == "adt" and last(x[1]) in names)
        if has(("Filter", "FilterMap", "Skip", "SkipWhile", "Take", "TakeWhile", "StepBy", "MapWhile")):
            return ""
        if tok == "plugs":
            return "p"
        return ("m" if has(("Once",)) else "") + ("s" if has(("Iter", "IntoIter")) else "")

    def step(self, m, c, q, tok, more):
        i = 1 if tok == "views" else 2
        s = q[i]
        cov = self.covers(c, tok)
        pre, _, pend = s.rpartition(":")
        if pend and any(x in pend for x in cov):
            if more:
                s = {"": "i", "u": "i"}.get(pre, "x") + ":" + pend
            elif not pre:
                if "m" in cov:
                    return None     # there is at least one
                s = "".join(x for x in pend if x not in cov)
            elif pre == "u":
                s = "".join(x for x in pend if x not in cov)
            else:
                s = pend
        return q[:i] + (s,) + q[i + 1:]

    # -- is the change too large to send?
    def size(self, c):
        return any(t.body.name.endswith("::inserts_len") for t in c.targets) or is_method(c, "Delta", ("inserts_len",))

    def binop(self, m, inst, op, a, b, d):
        la, lb = (m.labels(x, d) if x[0] != "c" else None for x in (a, b))
        if op[:3] in ("Add", "Mul") and "size" in (la, lb):
            return ("l", "size")
        if "size" in (la, lb) and op in ("Gt", "Ge", "Lt", "Le"):
            up = (op in ("Gt", "Ge")) == (la == "size")
            return ("l", "big" if up else "small")
        return None

    def edge(self, m, body, bb, key, variant, q, d):
        l = d.get((key, "l"))
        if l in ("big", "small") and isinstance(variant, bool):
            return q[:7] + ((l == "big") == variant,)
        return q

    # -- events
    def event(self, c):
        return self.size(c) or engine_mut(c) or self.commit(c) or self.view_edit(c) or self.plugin_update(c) or self.render(c) or self.flag_get(c) or \
            self.flag_set(c) or self.timer(c) or is_engine(c, ("get_head", "get_head_rev_id")) or self.token(c) or self.catchup(c) or self.swap(c)

    def interesting_stmt(self, body, s):
        return s[0] == "=" and (text_field(s[1]) or s[2][0] == "agg" and s[2][1][0] == "adt" and
                                last(s[2][1][1]) == "PluginUpdate")

    def opaque(self, c):
        if "xi_trace" in c.name or self.view_edit(c) or self.render(c) or self.plugin_update(c) or trait_method(c, "Peer", PEER):
            return True
        if c.targets and all(t.body.crate["crate"] not in ("xi_core_lib",) for t in c.targets):
            return True
        # which command becomes which event does not matter here
        t = dest_ty(c)
        return t is not None and t[0] == "adt" and last(t[1]) == "EventDomain"

    def commit(self, c):
        return any(t.body.uid in self.commits for t in c.targets)

    def view_edit(self, c):
        return any(t.body.name == "xi_core_lib::view::View::after_edit" for t in c.targets)

    def plugin_update(self, c):
        return any(t.body.name == "xi_core_lib::plugins::Plugin::update" for t in c.targets)

    def render(self, c):
        return any(t.body.name == "xi_core_lib::view::View::render_if_dirty" for t in c.targets)

    def flag_get(self, c):
        return any(t.body.uid in self.getters for t in c.targets)

    def flag_set(self, c):
        return any(t.body.uid in self.setters for t in c.targets)

    def timer(self, c):
        return last(c.name) == "schedule_timer" and c.inst.body.crate["crate"] == "xi_core_lib" and not c.inst.body.name.endswith("::schedule_timer")

    def token(self, c):
        return any(t.body.uid in self.tokens for t in c.targets)

    def catchup(self, c):
        return any(t.body.uid in self.catchups for t in c.targets)

    def swap(self, c):
        return (c.name in ("core::mem::replace", "core::mem::swap") or (c.declared or "").endswith("Clone::clone_from")) and c.args and origin(c.inst.body, c.args[0]) in self.textorg

    def stmt(self, m, inst, bb, s, q, d):
        if s[0] == "=" and text_field(s[1]) and inst.body.name.split("::")[-1] not in ("new", "with_text"):
            op = s[2][1] if s[2][0] == "use" else None
            return self.refresh(m, inst.body, s, m.labels(op, d) if op else None, q)
        return q

    def refresh(self, m, body, s, l, q):
        self.nref += 1
        if l not in (f"head{q[6]}",):
            m.report("text-not-head", "the buffer's text is replaced by something other than the head of its edit history", body, s[-1] if isinstance(s[-1], int) else body.line)
            return q
        return (("fresh" if q[0] == "stale" else q[0]),) + q[1:]

    def replayed_special(self, m, c):
        """Recordings hold no special events (P20)."""
        return any(has_adt(arg_ty(c, i), "SpecialEvent") for i in range(len(c.args))) and \
            any("recorder::Recording::" in i.body.name for i in m.stack)

    def on_event(self, m, c, q, d):
        b = c.inst.body
        if self.replayed_special(m, c):
            return []
        if self.size(c):
            return [(q, {((), "l"): "size"})]
        ed, views, plugs, rend, flag, timer, ver, big = q
        if engine_mut(c):
            self.nmut += 1
            if views:
                m.report("edit-before-told", "the text changes again before the views are told about the previous change", b, c.line)
            rt = dest_ty(c)
            new = ("stale",) + q[1:6] + (1 - ver, False)
            if rt[0] == "adt" and rt[1].endswith("::Result"):
                return [(new, {((), "v"): "Ok"}), (q, {((), "v"): "Err"})]
            return [(new, {})]
        if is_engine(c, ("get_head",)):
            return [(q, {((), "l"): f"head{ver}"})]
        if self.swap(c):
            return [(self.refresh(m, b, ("", c.line), m.labels(c.args[1], d), q), {})]
        if self.commit(c):
            self.ncommit += 1
            if ed == "stale":
                m.report("stale-text", "a change is committed before the buffer's text is refreshed from its history", b, c.line)
            if ed == "clean":
                return [(q, {((), "v"): "None"})]
            if views:
                m.report("views-skipped", "a change is committed while the views were not told about the previous one", b, c.line)
            P = SOMEP
            return [(("clean", "ms", "p", 1, flag, timer, ver, False), {((), "v"): "Some", (P + (("f", 0),), "l"): "delta", (P + (("f", 1),), "l"): "lasttext"}),
                    (("clean",) + q[1:], {((), "v"): "None"})]
        if self.token(c):
            return [(q, {((), "l"): "start" if not plugs and ed == "clean" else "mid"})]
        if self.catchup(c):
            l = "catchup" if any(m.labels(a, d) == "start" for a in c.args) else "other"
            return [(q, {((), "v"): "Some", (SOMEP, "l"): l}), (q, {((), "v"): "None"})]
        if self.view_edit(c):
            self.nview += 1
            tgt = next((t for t in c.targets), None)
            for i, a in enumerate(c.args):
                t = arg_ty(c, i)
                l = m.labels(a, d)
                if has_adt(t, "Delta") and l != "delta":
                    m.report("view-delta", f"a view is updated with something other than the committed change ({l})", b, c.line)
            ropes = [m.labels(a, d) for i, a in enumerate(c.args) if t_is_rope(arg_ty(c, i))]
            if len(ropes) == 2 and (ropes[1] != "lasttext" or ropes[0] == "lasttext"):
                m.report("view-text", "a view is updated with the wrong text before or after the change", b, c.line)
            if ed != "clean":
                m.report("view-early", "a view is updated before the change is committed", b, c.line)
            pre, _, pend = views.rpartition(":")
            nv = "u:" + pend if pre in ("i", "u") else pend.replace("m", "") if not pre and self.primary(c) else views
            return [(("clean", nv) + q[2:], {})]
        if self.plugin_update(c):
            self.nplug += 1
            self.plugin_args(m, c, q, d)
            if ed != "clean":
                m.report("plugin-early", "plugins are told of a change before it is committed", b, c.line)
            np = "u" + plugs[1:] if plugs[:2] in ("i:", "u:") else plugs
            return [((ed, views, np) + q[3:], {})]
        if self.render(c):
            self.nrend += 1
            if views:
                m.report("render-early", "a view is drawn before it is told about the change", b, c.line)
            return [((ed, views, plugs, 2, flag, timer, ver, big), {})]
        if self.flag_get(c):
            outs = []
            for v in ([True, False] if flag is None else [flag]):
                outs.append(((ed, views, plugs, 0 if v and rend == 1 else rend, v, timer, ver, big), {((), "c"): v}))
            return outs
        if self.flag_set(c):
            v = m.opconst(c.args[1], d)
            if v is True and not timer and flag is not True:
                timer = "due"       # may still come: checked at the end
            if v is not True and rend != 2:
                m.report("flag-cleared", "a scheduled redraw is cancelled without drawing", b, c.line)
            return [((ed, views, plugs, 0 if v and rend == 1 else rend, v, timer, ver, big), {})]
        if self.timer(c):
            return [(q[:5] + (1,) + q[6:], {})]
        return None

    def plugin_rev(self, m, c, k, d):
        if d.get((k, "l")) not in ("start", "mid"):
            m.report("plugin-rev", "a plugin is told a revision other than that of the committed change", c.inst.body, c.line)

    def primary(self, c):
        return (origin(c.inst.body, c.args[0]) or ("", ""))[1] == "view"

    def plugin_args(self, m, c, q, d):
        b = c.inst.body
        k = m.opkey(c.args[1], d)
        di = self.ctx.fidx("rpc::PluginUpdate", "delta")
        ri = self.ctx.fidx("rpc::PluginUpdate", "rev")
        base = k
        r = d.get((k, "r")) if k else None
        if r:
            base = r[0]
        elif k:
            base = k + ("*",)
        dk = base + (("f", di),)
        l = d.get((dk + SOMEP, "l")) or d.get((dk, "l"))
        v = d.get((dk, "v"))
        self.plugin_rev(m, c, base + (("f", ri),), d)
        if v == "None" and not q[7]:
            m.report("plugin-none", "a plugin is told of a change without its content although it is not too large", b, c.line)
        if v != "None" and l not in ("delta", "catchup"):
            m.report("plugin-delta", f"a plugin is told of something other than the committed change ({l})", b, c.line)


class Commit(Rule):
    """What committing a change returns and updates. q = (history moved?, layers told, remembered revision)"""
    label_prefix = True
    label_pass = {"core::clone::Clone::clone"}

    def interesting(self, c):
        return self.cmp(c) or self.engine(c) or self.layers(c) or self.tok(c)

    def opaque(self, c):
        return self.engine(c) or self.layers(c) or self.tok(c) or "xi_trace" in c.name

    def cmp(self, c):
        return trait_method(c, "PartialEq", ("eq", "ne")) and has_adt(arg_ty(c, 0), "RevId")

    def engine(self, c):
        return any(t.body.name.startswith(ENGINE) for t in c.targets)

    def tok(self, c):
        return any(t.body.name.endswith("RevId::token") for t in c.targets)

    def layers(self, c):
        return any(t.body.name.startswith("xi_core_lib::layers::Layers::") for t in c.targets)

    def stmt(self, m, inst, bb, s, q, d):
        if s[0] == "=" and (field_of_place(s[1]) or ("", ""))[1] == "last_rev_id" and s[2][0] == "use":
            l = m.labels(s[2][1], d)
            if l != "head":
                m.report("remembered-rev", "the remembered revision is set to something other than the head of the history", inst.body, s[-1] if isinstance(s[-1], int) else inst.body.line)
            return q[:2] + ("new",)
        return q

    def call(self, m, c, q, d):
        ls = [m.labels(a, d) for a in c.args]
        if self.cmp(c):
            if set(ls) != {"head", "last"} or q[2] != "old":
                return None
            eq = last(c.declared) == "eq"
            return [((v,) + q[1:], {((), "c"): v == (not eq)}) for v in (True, False) if q[0] in (None, v)]
        if self.tok(c):
            return [(q, {((), "l"): f"{ls[0]}-token"})]
        if self.engine(c):
            t = dest_ty(c)
            if t[0] == "adt" and last(t[1]) == "RevId":
                return [(q, {((), "l"): "head"})]
            what = "delta" if has_adt(t, "Delta") else "text" if has_adt(t, "RopeInfo") else None
            if what:
                l = what + ":" + str(ls[1] if len(ls) > 1 else "head")
                if t[0] == "adt" and t[1].endswith("::Result"):
                    return [(q, {((), "v"): "Ok", ((("d", "Ok"), ("f", 0)), "l"): l}), (q, {((), "v"): "Err"})]
                if t[0] == "adt" and t[1].endswith("::Option"):
                    return [(q, {((), "v"): "Some", (SOMEP, "l"): l}), (q, {((), "v"): "None"})]
                return [(q, {((), "l"): l})]
            return [(q, {})]
        if self.layers(c):
            if "delta:last-token" in ls:
                return [((q[0], True, q[2]), {})]
            if c.targets and arg_mut(c, 0):
                m.report("layer-delta", "span layers are updated with something other than the committed change", c.inst.body, c.line)
        return None


def arg_mut(c, i):
    t = arg_ty(c, i, strip=False)
    return t is not None and t[0] == "ref" and bool(t[1])


def check_commit(ctx, rule):
    for uid in rule.commits:
        b = ctx.p.bodies[uid]
        r = Commit()
        m = Machine(ctx.p, ctx.r, r)
        li = ctx.fidx("editor::Editor", "last_rev_id")
        n = 0
        for q, facts in m.run(Inst(b), (None, False, "old"), {((1, "*", ("f", li)), "l"): "last"}):
            f = dict(facts)
            v = f.get(((0,), "v"))
            at = b.loc(b.line)
            if v == "None":
                ok = q == (False, False, "old")
                ctx.expect(ok, "commit-none", f"no change is committed only when the head is the remembered revision {q}", "commit:none", at=at)
            else:
                n += 1
                P = (0,) + SOMEP
                got = (m.label_at(P + (("f", 0),), f), m.label_at(P + (("f", 1),), f))
                ctx.expect(v == "Some" and got == ("delta:last-token", "text:last-token"), "commit-value",
                           f"a commit returns the change since the remembered revision and the text before it {got}", "commit:value", at=at)
                ctx.expect(q[1], "commit-layers", "span layers are told of the same change", "commit:layers", at=at)
                ctx.expect(q[2] == "new", "commit-rev", "the head becomes the remembered revision", "commit:rev", at=at)
        ctx.expect(n >= 1, "anchor", "a committing exit", "anchor:commit-exit")
        ctx.take(m, "commit")


def t_is_rope(t):
    return t is not None and t[0] == "adt" and last(t[1]) == "Node" and t[2] and last(t[2][0][1]) == "RopeInfo" if t and t[0] == "adt" else False


def handlers(ctx):
    """Entry points: what the RPC loops and plugin threads call."""
    out = []
    for b in ctx.p.bodies.values():
        if ctx.tests(b) or b.crate["crate"] != "xi_core_lib" or "{closure" in b.name:
            continue
        n = b.name
        if ("XiCore as xi_rpc::Handler>::" in n) or n.startswith("xi_core_lib::core::WeakXiCore::") and \
                last(n) not in ("upgrade",):
            out.append(Inst(b))
    return out


def run(ctx):
    rule = Flow()
    rule.ctx = ctx
    rule.commits = commit_fns(ctx)
    rule.textorg = {("xi_core_lib::editor::Editor", "text"), ("editor::Editor", "text")}
    vb = [b for b in ctx.p.bodies.values() if b.name.startswith("xi_core_lib::view::View::") and not ctx.tests(b)]
    rule.setters, rule.getters = set(), set()
    for b in vb:
        if last(b.name) == "new" or "{closure" in b.name:
            continue
        for blk in b.reach:
            for s in b.blocks[blk]["s"]:
                if s[0] == "=" and (field_of_place(s[1]) or ("", ""))[1] == "pending_render":
                    rule.setters.add(b.uid)
        if b.uid not in rule.setters and any((field_of_place(p) or ("", ""))[1] == "pending_render" for p in all_places(b)) and \
                ctx.p.mkty(b.crate, b.locals[0]) == ("p", "bool"):
            rule.getters.add(b.uid)
    ed = [b for b in ctx.p.bodies.values() if b.name.startswith("xi_core_lib::editor::Editor::") and not ctx.tests(b) and "{closure" not in b.name]
    rule.tokens = {b.uid for b in ed if ctx.p.mkty(b.crate, b.locals[0]) == ("p", "u64") and b.argc == 1}
    rule.catchups = {b.uid for b in ed if has_adt(ctx.p.mkty(b.crate, b.locals[0]), "Delta") and b.uid not in rule.commits and b.argc == 2}
    for what, s in (("commit", rule.commits), ("redraw flag setter", rule.setters), ("redraw flag getter", rule.getters)):
        ctx.expect(bool(s), "anchor", f"{what} found", f"anchor:{what}")
    rule.nmut = rule.ncommit = rule.nview = rule.nplug = rule.nrend = rule.nref = 0
    hs = handlers(ctx)
    ctx.expect(len(hs) >= 5, "anchor", f"{len(hs)} entry points", "anchor:handlers")
    for h in hs:
        m = Machine(ctx.p, ctx.r, rule)
        outs = m.run(h, ("clean", "", "", 0, None, 0, 0, False))
        for q, _ in outs:
            ed_, views, plugs, rend, flag, timer, *_ = q
            n = last(h.body.name)
            bad = []
            if ed_ != "clean":
                bad.append(("uncommitted", "the text was changed without being committed"))
            if views:
                bad.append(("views", "the text was changed without telling every view"))
            if plugs:
                bad.append(("plugins", "the text was changed without telling every plugin"))
            if rend == 1:
                bad.append(("render", "the text was changed without drawing the view or scheduling that"))
            if timer == "due":
                bad.append(("flag-no-timer", "marking a redraw as scheduled without scheduling it"))
            for k, msg in bad:
                ctx.violate(f"flow:{n}:{k}", f"{h.body.name} can return after {msg}", h.body.loc(h.body.line))
            ctx.oblige("reaches-all", f"{h.body.name}: exit state {q}", not bad)
        ctx.take(m, "flow")
    check_commit(ctx, rule)
    for what, n in (("text changes", rule.nmut), ("commits", rule.ncommit), ("view updates", rule.nview), ("plugin updates", rule.nplug),
                    ("draws", rule.nrend), ("text refreshes", rule.nref)):
        ctx.expect(n >= 1, "anchor", f"{n} {what} interpreted", f"anchor:{what}")

