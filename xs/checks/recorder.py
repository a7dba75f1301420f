"""P20: what is recorded, what toggling does, and how a recording is replayed."""
from ..esp import Machine, Rule
from ..lib import *

SOMEP = (("d", "Some"), ("f", 0))


def is_event_ty(t):
    while t is not None and t[0] in ("ref", "ptr"):
        t = t[2]
    return t is not None and t[0] == "adt" and last(t[1]) == "EventDomain"


def buf_call(c, names):
    """A call on a Vec<EventDomain>."""
    t = arg_ty(c, 0)
    return c.args and is_method(c, "Vec", names) and t and t[0] == "adt" and t[2] and is_event_ty(t[2][0])


GROW = ("push", "insert", "extend", "append", "extend_from_slice")


class Record(Rule):
    """From the handling of a command: q = (recording?, recorded?). The event is the value of type EventDomain."""

    def interesting(self, c):
        return buf_call(c, GROW) or self.asks(c) or self.dispatch(c) or self.merge(c)

    def opaque(self, c):
        return self.dispatch(c) or "xi_trace" in c.name

    def asks(self, c):
        return is_method(c, "Option", ("is_some", "is_none")) and (origin(c.inst.body, c.args[0]) or ("", ""))[1] == "active_recording"

    def merge(self, c):
        return is_method(c, "String", ("push_str", "push", "extend", "add_assign", "insert_str")) and \
            "Recorder" in c.inst.body.name

    def dispatch(self, c):
        """The command is carried out: EventDomain passed by value to a method of the event context."""
        return any(t.body.uid in self.dispatchers for t in c.targets)

    def known(self, m, op, d):
        if op[0] == "c":
            return None, ()
        return m.val_of(op, d, "v"), m.val_of(op, d, "nv") or ()

    def call(self, m, c, q, d):
        b = c.inst.body
        if self.asks(c):
            neg = last(c.name) == "is_none"
            if self.inrec:
                return [(q, {((), "c"): not neg})]
            rec, done = q
            outs = []
            for tv in ([True, False] if rec is None else [rec]):
                outs.append(((tv, done), {((), "c"): tv != neg}))
            return outs
        if buf_call(c, GROW):
            self.n += 1
            v, nv = self.known(m, c.args[-1], d)
            if v == "Special" or v is None and "Special" not in nv:
                m.report("special-recorded", "a special command (recording control, viewport, ...) can be stored in a recording", b, c.line)
            if q[0] is not True:
                m.report("not-recording", "a command is recorded although no recording is active", b, c.line)
            if q[1]:
                m.report("twice", "a command is recorded twice", b, c.line)
            return [((q[0], 1), {})]
        if self.merge(c):
            if q[1]:
                m.report("twice", "a command is recorded twice", b, c.line)
            return [((q[0], 1), {})]
        if self.dispatch(c):
            ev = next((a for a in c.args if a[0] != "c" and is_event_ty(c.inst.body.prog.place_ty(c.inst, a[1]))), None)
            v, nv = self.known(m, ev, d) if ev else (None, ())
            self.disp += 1
            if q[0] is None:
                m.report("recording-ignored", "a command is carried out without looking whether a recording is active", b, c.line)
            if q[0] and not q[1] and v != "Special":
                m.report("not-recorded", "while a recording is active an ordinary command can be carried out without being recorded",
                         b, c.line)
            return [(q, {})]
        return None


def event_roots(ctx):
    """Functions that turn a frontend edit command into an event."""
    out = []
    conv = {b.uid for b in ctx.p.bodies.values() if b.name.endswith("::from") and "EventDomain as" in b.name and
            has_adt(ctx.p.mkty(b.crate, b.locals[1]), "EditNotification")}
    for i in ctx.insts():
        if ctx.tests(i.body) or i.body.uid in conv or i.env:
            continue
        for c in ctx.r.calls(i).values():
            if any(t.body.uid in conv for t in c.targets) and i.body.uid not in {x.body.uid for x in out} and \
                    is_event_ty(dest_ty(c)):
                out.append(i)
    return out


def run_record(ctx):
    """Obligations about what reaches a recording; True when special commands are provably never recorded."""
    roots = event_roots(ctx)
    ctx.expect(bool(roots), "recorded", "the function that handles a command is found", "roots:none")
    ok = True
    for root in roots:
        rule = Record()
        rule.n = rule.disp = 0
        rule.inrec = False
        rule.dispatchers = dispatchers(ctx)
        m = Machine(ctx.p, ctx.r, rule)
        outs = m.run(root, (None, 0))
        ctx.expect(rule.n >= 1, "recorded", f"{root.body.name}: {rule.n} recording sites reached", "record:none")
        ctx.expect(rule.disp >= 1, "recorded", f"{root.body.name}: the command is carried out", "dispatch:none")
        for k in ("special-recorded", "not-recording", "twice", "recording-ignored", "not-recorded"):
            ctx.oblige("recorded", k, k not in m.violations)
        ok = ok and not m.violations
        ctx.take(m, "record")
    # nothing else grows a recording
    for b in ctx.p.bodies.values():
        if ctx.tests(b) or b.crate["crate"] != "xi_core_lib":
            continue
        for c in ctx.r.calls(Inst(b)).values():
            if buf_call(c, GROW):
                seen = any(b.uid == i.body.uid for r in [m] for i in m.allvisited) if roots else False
                ok = ctx.expect(seen, "recorded", f"{b.name} stores events only on behalf of the command handler",
                                f"grow:{b.name}", None, b.loc(c.line)) and ok
    return ok


def dispatchers(ctx):
    out = set()
    for b in ctx.p.bodies.values():
        if ctx.tests(b) or "event_context::EventContext" not in b.name or "{closure" in b.name:
            continue
        for l in range(1, b.argc + 1):
            t = ctx.p.mkty(b.crate, b.locals[l])
            if t[0] == "adt" and is_event_ty(t):
                out.add(b.uid)
    return out


class Toggle(Rule):
    """q = (saved under, cleared, eq)"""
    label_prefix = True

    def interesting(self, c):
        return self.save(c) or self.clear(c) or self.cmp(c)

    def save(self, c):
        t = arg_ty(c, 0)
        return is_method(c, "HashMap", ("insert",)) and has_adt(t, "Recording") or is_method(c, "BTreeMap", ("insert",)) and has_adt(t, "Recording")

    def clear(self, c):
        t = arg_ty(c, 0)
        return buf_call(c, ("clear", "truncate", "drain")) or last(c.name) in ("take", "replace") and c.name.startswith("core::mem") and \
            t and t[0] == "adt" and t[2] and last(t[1]) == "Vec" and is_event_ty(t[2][0])

    def cmp(self, c):
        return trait_method(c, "PartialEq", ("eq", "ne"))

    def call(self, m, c, q, d):
        saved, cleared, eq = q
        if self.save(c):
            if cleared:
                m.report("saved-empty", "the recorded commands are discarded before the recording is stored", c.inst.body, c.line)
            return [((m.labels(c.args[1], d) or "?", cleared, eq), {})]
        if self.clear(c):
            return [((saved, 1, eq), {})]
        if self.cmp(c):
            la, lb = m.labels(c.args[0], d), m.labels(c.args[1], d)
            if {la, lb} == {"last", "new"}:
                ne = last(c.declared or c.name) == "ne"
                va, vb = m.val_of(c.args[0], d), m.val_of(c.args[1], d)
                poss = [True, False] if eq is None else [eq]
                if "None" in (va, vb) and va != vb:
                    poss = [False]
                return [((saved, cleared, e), {((), "c"): e != ne}) for e in poss]
        return None


def run_toggle(ctx):
    fns = []
    ai = ctx.fidx("recorder::Recorder", "active_recording")
    for b in ctx.p.bodies.values():
        if ctx.tests(b) or b.crate["crate"] != "xi_core_lib" or b.argc != 2 or "{closure" in b.name:
            continue
        t1, t2 = (ctx.p.mkty(b.crate, b.locals[l]) for l in (1, 2))
        if t1[0] == "ref" and has_adt(t1, "Recorder") and t2[0] == "adt" and t2[1].endswith("::Option") and has_adt(t2, "String"):
            fns.append(b)
    ctx.expect(bool(fns), "toggle", "the function that starts and stops recordings is found", "toggle:none")
    A = (1, "*", ("f", ai))
    for b in fns:
        for act in ("None", "Some"):
            for new in ("None", "Some"):
                rule = Toggle()
                m = Machine(ctx.p, ctx.r, rule)
                env = {(A, "v"): act, ((2,), "v"): new, (A, "l"): "last", ((2,), "l"): "new"}
                if act == "Some":
                    env[(A + SOMEP, "l")] = "last"
                if new == "Some":
                    env[((2,) + SOMEP, "l")] = "new"
                outs = m.run(Inst(b), (None, 0, None), env)
                ctx.expect(bool(outs), "toggle", f"{b.name}: active={act}, name={new}: outcomes", f"toggle:outs:{act}:{new}")
                for (saved, cleared, eq), facts in outs:
                    f = dict(facts)
                    v = f.get((A, "v"))
                    l = f.get((A + SOMEP, "l")) or f.get((A, "l"))
                    got = (saved, bool(cleared), v, l if v == "Some" else None)
                    if act == "None":
                        want = [(None, x, new, "new" if new == "Some" else None) for x in (True, False)]
                    elif new == "None":
                        want = [("last", True, "None", None)]
                    elif eq is None:
                        want = []
                    elif eq:
                        want = [("last", True, "None", None), ("new", True, "None", None)]
                    else:
                        want = [(None, True, "Some", "new")]
                    ctx.expect(got in want, "toggle", f"active={act} name={new} same={eq}: saved={saved} cleared={bool(cleared)} then active={v}",
                               f"toggle:{act}:{new}:{eq}", f"{b.name}: with a recording {'' if act == 'Some' else 'not '}active and "
                               f"{'a' if new == 'Some' else 'no'} name given (same: {eq}): saved under {saved}, commands cleared: "
                               f"{bool(cleared)}, afterwards active={v} ({l})", b.loc(b.line))
                ctx.take(m, "toggle")


class Play(Rule):
    """Replay: q = (forced group, state, sent). state: '' | 'done' (an event was carried out) | 'changed' (committed, views not told)"""

    def interesting(self, c):
        return self.dispatch(c) or self.commit(c) or self.views(c) or self.plugins(c)

    def interesting_stmt(self, body, s):
        return s[0] == "=" and (field_of_place(s[1]) or ("", ""))[1] == "force_undo_group" and s[2][0] in ("use", "cast")

    def opaque(self, c):
        return self.dispatch(c) or self.commit(c) or self.views(c) or self.plugins(c) or "xi_trace" in c.name

    def dispatch(self, c):
        return any(t.body.uid in self.dispatchers for t in c.targets)

    def commit(self, c):
        return any(t.body.uid in self.commits for t in c.targets)

    def views(self, c):
        return any(t.body.uid in self.viewfns for t in c.targets) or trait_method(c, "x", ())

    def plugins(self, c):
        return any(t.body.uid in self.pluginfns for t in c.targets)

    track_consts = True

    def stmt(self, m, inst, bb, s, q, d):
        if self.interesting_stmt(inst.body, s):
            op = s[2][1] if s[2][0] == "use" else s[2][2]
            v = m.opconst(op, d)
            self.sets += 1
            if v is None and inst.body.argc >= 2:
                return q
            return (bool(v),) + q[1:]
        return q

    def call(self, m, c, q, d):
        b = c.inst.body
        g, st, sent = q
        if self.dispatch(c):
            self.n += 1
            if not g:
                m.report("group", "a recorded command is replayed outside the replay's own undo group", b, c.line)
            if st:
                m.report("uncommitted", "the next recorded command is replayed before the previous one is committed and shown to the views", b, c.line)
            return [((g, "done", sent), {})]
        if self.commit(c):
            return [((g, "changed", sent), {((), "v"): "Some"}), ((g, "", sent), {((), "v"): "None"})]
        if self.views(c):
            return [((g, "" if st == "changed" else st, sent), {})]
        if self.plugins(c):
            if st:
                m.report("plugins-early", "plugins are told before the replay is committed", b, c.line)
            return [((g, st, 1), {})]
        return None


def reach_to(ctx, pred, within):
    """uids of functions (of EventContext) that reach a call satisfying pred without passing another such..."""
    out = direct(ctx, pred, within)
    # and those that are given the change and hand it to one of them
    given = lambda b: within(b) and any(has_adt(ctx.p.mkty(b.crate, b.locals[l]), "Delta") for l in range(1, b.argc + 1))
    while True:
        more = direct(ctx, lambda c: any(t.body.uid in out for t in c.targets), given) - out
        if not more:
            return out
        out |= more


def direct(ctx, pred, within):
    out = set()
    for b in ctx.p.bodies.values():
        if ctx.tests(b) or not within(b):
            continue
        seen, st = {b.uid}, [Inst(b)]
        while st:
            i = st.pop()
            for c in ctx.r.calls(i).values():
                if pred(c):
                    out.add(b.uid)
                    st = []
                    break
                for t in c.closures:
                    if t.body.uid not in seen and t.body.name.startswith(b.name):
                        seen.add(t.body.uid)
                        st.append(t)
    return out


def run_play(ctx):
    ctxfn = lambda b: "event_context::EventContext" in b.name and "{closure" not in b.name
    rule = Play()
    rule.n = rule.sets = 0
    rule.dispatchers = dispatchers(ctx)
    rule.commits = {b.uid for b in ctx.p.bodies.values() if not ctx.tests(b) and has_adt(ctx.p.mkty(b.crate, b.locals[0]), "Delta") and
                    has_adt(ctx.p.mkty(b.crate, b.locals[0]), "InsertDrift") and "{closure" not in b.name}
    isview = lambda c: any(t.body.name.endswith("view::View::after_edit") for t in c.targets)
    isplug = lambda c: any(t.body.name == "xi_core_lib::plugins::Plugin::update" for t in c.targets)
    rule.viewfns = reach_to(ctx, isview, ctxfn) - rule.dispatchers
    rule.pluginfns = reach_to(ctx, isplug, ctxfn) - rule.dispatchers
    ctx.expect(rule.commits and rule.viewfns and rule.pluginfns, "replay", "commit, view and plugin updates found", "play:anchors")
    # the functions that carry out a special command
    plays = {b.uid for b in ctx.p.bodies.values() if b.name.startswith("xi_core_lib::recorder::Recorder::") and not ctx.tests(b) and
             any(ctx.p.mkty(b.crate, b.locals[l])[0] == "param" for l in range(1, b.argc + 1)) and "{closure" not in b.name}
    roots = {}
    for u in plays:
        for i in ctx.callers(u):
            if "{closure" not in i.body.name:
                roots[i.body.uid] = Inst(i.body)
    ctx.expect(bool(roots), "replay", "the function that replays a recording is found", "play:none")
    for r in roots.values():
        m = Machine(ctx.p, ctx.r, rule)
        bs = [l for l in range(1, r.body.argc + 1) if has_adt(ctx.p.mkty(r.body.crate, r.body.locals[l]), "SpecialEvent")]
        env = {((l,), "v"): "PlayRecording" for l in bs}
        outs = m.run(r, (False, "", 0), env)
        ctx.expect(rule.n >= 1, "replay", f"{r.body.name}: recorded commands are carried out", "play:nodispatch")
        for (g, st, sent), _ in outs:
            ctx.expect(not g, "replay", "the forced undo group is released at the end", "play:forced",
                       f"{r.body.name} can return with the replay's undo group still in force", r.body.loc(r.body.line))
            ctx.expect(not st, "replay", "every replayed command is committed and shown to the views", f"play:left:{st}",
                       f"{r.body.name} can return with a replayed command not {'committed' if st == 'done' else 'shown to the views'}",
                       r.body.loc(r.body.line))
            ctx.expect(sent, "replay", "plugins are told about the replay", "play:plugins",
                       f"{r.body.name} can return without telling plugins about the replayed changes", r.body.loc(r.body.line))
        ctx.take(m, "play")


class Active(Rule):
    """Recorder's replay function: q = compared equal to the active recording?"""

    def interesting(self, c):
        return trait_method(c, "PartialEq", ("eq", "ne")) or self.runs(c)

    def runs(self, c):
        return any(t.body.name.startswith("xi_core_lib::recorder::Recording::") for t in c.targets) or \
            trait_method(c, "FnMut", ("call_mut",)) or trait_method(c, "FnOnce", ("call_once",)) and c.inst.body.name.startswith("xi_core_lib::recorder") and False

    def opaque(self, c):
        return self.runs(c)

    def call(self, m, c, q, d):
        if trait_method(c, "PartialEq", ("eq", "ne")):
            la, lb = m.labels(c.args[0], d), m.labels(c.args[1], d)
            if "active" in (la, lb):
                ne = last(c.declared or c.name) == "ne"
                return [("same" if e else "other", {((), "c"): e != ne}) for e in (True, False)]
            return None
        if self.runs(c):
            self.n += 1
            if q not in ("other", "inactive"):
                m.report("active", "a recording can be replayed while it is being recorded", c.inst.body, c.line)
            return [(q, {})]
        return None

    label_prefix = True


def run_active(ctx):
    ai = ctx.fidx("recorder::Recorder", "active_recording")
    fns = [b for b in ctx.p.bodies.values() if b.name.startswith("xi_core_lib::recorder::Recorder::") and not ctx.tests(b) and
           "{closure" not in b.name and any(ctx.p.mkty(b.crate, b.locals[l])[0] == "param" for l in range(1, b.argc + 1))]
    ctx.expect(bool(fns), "replay-active", "replay function found", "active:none")
    A = (1, "*", ("f", ai))
    for b in fns:
        for act in ("None", "Some"):
            rule = Active()
            rule.n = 0
            m = Machine(ctx.p, ctx.r, rule)
            env = {(A, "v"): act, (A, "l"): "active"}
            if act == "Some":
                env[(A + SOMEP, "l")] = "active"
            m.run(Inst(b), "inactive" if act == "None" else "unknown", env)
            ctx.expect(rule.n >= 1, "replay-active", f"{b.name}: replay reached (active={act})", f"active:{act}:unreached")
            ctx.oblige("replay-active", f"{b.name}: never replays the active recording ({act})", not m.violations)
            ctx.take(m, "active")


def run(ctx):
    run_record(ctx)
    run_toggle(ctx)
    run_play(ctx)
    run_active(ctx)
