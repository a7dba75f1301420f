"""P24: the parts of an edit history change together, from one computation, or not at all; identities of revisions are fresh and lasting."""
from ..esp import Machine
from ..lib import *
from .settings import OK, SOME, Steps, has, items_of, peel

E = "xi_rope::engine::"
EN = E + "Engine::"
PARTS = ("text", "tombstones", "deletes_from_union")
MADE = ("Subset", "Delta", "InsertDelta", "Node", "DeltaElement")


def revs(t):
    t = peel(t)
    while t[0] == "adt" and last(t[1]) in ("Rev", "Enumerate", "Skip", "Cloned", "Peekable") and t[2]:
        t = peel(t[2][0])
    return t[0] == "adt" and last(t[1]) == "IntoIter" and has_adt(t, "Revision")


class History(Steps):
    maps = False
    label_pass = Steps.label_pass | {"alloc::borrow::Cow::into_owned", "core::ops::deref::Deref::deref", "core::clone::Clone::clone", "core::option::Option::ok_or", "core::option::Option::ok_or_else", "core::iter::traits::collect::IntoIterator::into_iter"}
    enter_shuffle = False
    cur = None

    @staticmethod
    def popped(c):
        t = arg_ty(c, 0)
        return t is not None and not c.targets and last(c.name) in ("pop", "pop_front", "pop_back") and peel(t)[0] == "adt" and last(peel(t)[1]) in ("Vec", "VecDeque") and has_adt(t, "Revision")

    def is_next(self, c):
        return super().is_next(c) or "rev" in self.items and self.popped(c)

    def loop(self, c):
        return "rev" if "rev" in self.items and self.popped(c) else super().loop(c)

    def call(self, m, c, q, d):
        if self.popped(c) and self.say(m, c.args[0], d) != "old revisions":
            return self.on_event(m, c, q, d)
        return super().call(m, c, q, d)

    def opaque(self, c):
        return self.target(c) is not None or bool(c.targets) and all(not t.body.name.startswith((E, "<" + E)) for t in c.targets)

    def other(self, c):
        n = last(c.name)
        t = arg_ty(c, 0)
        if t is not None and has_adt(t, "Revision") and not c.targets:
            if n in ("push", "append", "extend", "reverse", "insert", "pop", "truncate", "clear", "remove", "retain", "drain") and peel(t)[0] == "adt" and last(peel(t)[1]) in ("Vec", "VecDeque") or n == "reverse":
                return "revs " + n
            if n in ("replace", "take", "swap", "split_off") and ("mem" in c.name or n == "split_off"):
                return "revs taken"
        if n == "len_after_delete":
            return n
        if n == "factor" and t is not None and has_adt(t, "Delta"):
            return n
        if n == "contains" and t is not None and has_adt(t, "BTreeSet"):
            return "kept" if has_adt(t, "RevId") else "undone"
        if n == "unwrap" and not c.targets and has_adt(arg_ty(c, 0), "Result"):
            return None
        d = dest_ty(c)
        if d is not None and d[0] == "adt" and last(d[1]) == "Cow" and has_adt(d, "Subset"):
            return "made"
        if d is not None and d[0] == "adt" and last(d[1]) in MADE and self.target(c) is None and (not c.targets or self.opaque(c)) and not trait_method(c, "Clone", ("clone",)) and n not in ("deref", "into_owned", "as_ref", "unwrap"):
            return "made"
        return None

    def interesting_stmt(self, body, s):
        if s[0] != "=":
            return False
        f = field_of_place(s[1])
        return f is not None and last(f[0]) == "Engine" or s[2][0] == "agg" and s[2][1][0] == "adt" and last(s[2][1][1]) in ("Revision", "RevId")

    def binop(self, m, inst, op, a, b, d):
        ls = {str(m.labels(x, d)) for x in (a, b) if x[0] != "c"}
        if op in ("Eq", "Ne") and any("length then" in x for x in ls) and len(ls) == 2:
            return ("l", "fits" if op == "Eq" else "misfits")
        if op.startswith("Add") and ls == {"counter"} and 1 in (m.opconst(a, d), m.opconst(b, d)):
            return ("l", "counter + 1")
        return None

    def edge(self, m, body, bb, key, variant, q, d):
        l = d.get((key, "l"))
        if l in ("fits", "misfits") and isinstance(variant, bool):
            return q | {("fits", (l == "fits") == variant)}
        return q

    def stmt(self, m, inst, bb, s, q, d):
        if s[0] != "=":
            return q
        self.cur = inst
        f = field_of_place(s[1])
        if f is not None and last(f[0]) == "Engine" and s[2][0] == "use":
            self.n += 1
            k = m.opkey(s[2][1], d)
            l = self.at(m, k, d) if k is not None else "?"
            if f[1] == "rev_id_counter":
                return q | {("counted", l, sum(x[0] == "counted" for x in q))}
            return frozenset(x for x in q if x[:2] != ("set", f[1])) | {("set", f[1], l)}
        return q

    def rev_of(self, m, k, d):
        """A revision: whose number, the groups it was told of, and what kind."""
        f = lambda *p: tuple(("f", i) for i in p)
        num = self.at(m, k + (("f", self.F["rev_id"]), ("f", self.F["num"])), d)
        rid = self.at(m, k + (("f", self.F["rev_id"]),), d)
        ek = k + (("f", self.F["edit"]),)
        kind = d.get((ek, "v"))
        out = [("id", num if num != "?" else rid), ("kind", kind)]
        for v, names in (("Edit", ("priority", "undo_group")), ("Undo", ())):
            for nm in names:
                if kind == v:
                    out.append((nm, self.at(m, ek + (("d", v), ("f", self.F[v + nm])), d)))
        return tuple(out)

    def on_event(self, m, c, q, d):
        self.cur = c.inst
        if self.target(c) is not None:
            return super().on_event(m, c, q, d)
        o = self.other(c)
        if o is None:
            return super().on_event(m, c, q, d)
        self.n += 1
        if o == "made":
            if "plain" in self.ops:
                return [(q, {})]
            return [(q, {((), "l"): f"{last(c.name)} at {c.inst.body.name.rsplit('::', 1)[-1]}:{c.bb}"})]
        if o == "factor":
            return [(q, {((("f", 0),), "l"): "insertions", ((("f", 1),), "l"): "deletions"})]
        if o == "len_after_delete":
            return [(q, {((), "l"): "length then"})]
        if o == "kept" and ("open", "rev") not in q:
            return [(q, {((), "c"): v}) for v in (True, False)]
        if o == "kept":
            return [(self.add(q, "kept", v), {((), "c"): v}) for v in (True, False)]
        if o == "undone":
            return [(q, {((), "c"): v}) for v in (True, False)]
        if o == "revs taken" and last(c.name) == "swap":
            return [(q | {("taken",)}, {})]
        if o == "revs taken":
            return [(q | {("taken",)}, {((), "l"): "old revisions"})]
        if o == "revs push":
            into = self.at(m, m.opkey(c.args[0], d), d)
            r = self.rev_of(m, m.opkey(c.args[1], d), d) if m.opkey(c.args[1], d) is not None else "?"
            n = sum(x[0] == "pushed" or x[0] == ("in", "rev") and x[1] == "pushed" for x in q)
            return [(self.add(q, "pushed", into, r, min(n, 2)), {})]
        if o == "revs drain" and self.say(m, c.args[0], d) != "revs" and "RangeFull" in str(arg_ty(c, 1)):
            return [(q, {((), "l"): self.say(m, c.args[0], d)})]
        return [(self.add(q, o, *(self.say(m, a, d) for a in c.args[:2])), {})]


def shuffle(self, m, c, q, d):
    self.n += 1
    l = tuple(self.say(m, c.args[i], d) for i in range(4))
    return [(self.add(q, "shuffled", *l), {((("f", 0),), "l"): "shuffled text", ((("f", 1),), "l"): "shuffled tombstones"})]


def explore(ctx, name, env, ops, items=None, fold=None):
    root = ctx.inst(name)
    rule = History()
    rule.ctx, rule.n, rule.root = ctx, 0, root.body.uid
    rule.ops, rule.items, rule.pair, rule.fold = ops, items or {}, [], fold
    F = {"rev_id": ctx.fidx("engine::Revision", "rev_id"), "edit": ctx.fidx("engine::Revision", "edit"), "num": ctx.fidx("engine::RevId", "num")}
    for v, ns in (("Edit", ("priority", "undo_group", "inserts", "deletes")), ("Undo", ("toggled_groups", "deletes_bitxor"))):
        for n in ns:
            F[v + n] = ctx.fidx("engine::Contents", n, v)
    rule.F = F
    m = Machine(ctx.p, ctx.r, rule)
    out = [(q, dict(fs)) for q, fs in m.run(root, frozenset(), env)]
    ctx.take(m, "history")
    return root.body.loc(root.body.line), out


DEBUG = False


def run(ctx):
    ef = lambda n: ctx.fidx("engine::Engine", n)
    me = {((1, "*", ("f", ef(n))), "l"): n for n in PARTS + ("undone_groups", "revs")}
    me[((1, "*", ("f", ef("rev_id_counter"))), "l")] = "counter"
    me[((1, "*", ("f", ef("session"))), "l")] = "session"
    ops = {E + "shuffle": shuffle}

    def J(rule, name, env, cond, what, more=None, items=None, some=None, fold=None):
        at, outs = explore(ctx, name, {**me, **env}, {**ops, **(more or {})}, items, fold)
        bad = [(sorted(q, key=str), {k: v for k, v in fs.items() if k[0][0] == 0}) for q, fs in outs if not cond(q, fs)]
        n = last(name)
        if DEBUG:
            print("==", n, len(outs))
            for q, fs in outs[:10]:
                print("   ", sorted(q, key=str), {k: v for k, v in fs.items() if k[0][0] == 0})
        ctx.expect(bool(outs) and not bad, rule, f"{n}: {what}", f"{rule}|{n}", f"{n}: not on every path: {what}; there is a path with {str(bad[0])[:400] if bad else ''}", at)
        for i, (text, pred) in enumerate((some or {}).items()):
            ctx.expect(any(pred(q, fs) for q, fs in outs), rule, f"{n}: {text}", f"{rule}|{n}|{i}", f"{n}: on no path {text}", at)

    sets = lambda q: {x[1]: x[2] for x in q if x[0] == "set"}
    pushed = lambda q: [x for x in q if x[0] == "pushed"]
    counted = lambda q: [x[1] for x in q if x[0] == "counted"]
    changed = lambda q: bool(sets(q) or pushed(q) or counted(q) or any(str(x[0]).startswith("revs") or x[0] == "taken" for x in q))

    def together(q):
        sh = [x for x in q if x[0] == "shuffled"]
        s = sets(q)
        return len(sh) == 1 and s.get("text") == "shuffled text" and s.get("tombstones") == "shuffled tombstones" and s.get("deletes_from_union") == sh[0][4] != "?" and sh[0][2] == "tombstones"

    known = {EN + "find_rev_token": lambda self, m, c, q, d: [(q | {("known", self.say(m, c.args[1], d), True)}, {((), "v"): "Some", (SOME, "l"): "index"}), (q | {("known", self.say(m, c.args[1], d), False)}, {((), "v"): "None"})]}
    env = {((2,), "l"): "priority", ((3,), "l"): "group", ((4,), "l"): "base", ((5,), "l"): "delta"}
    J("edit", EN + "try_edit_rev", env,
      lambda q, fs: fs.get(((0,), "v")) == "Err" and not changed(q) and (("known", "base", False) in q or ("fits", False) in q) or fs.get(((0,), "v")) == "Ok" and ("known", "base", True) in q and ("fits", True) in q and together(q)
      and set(sets(q)) == set(PARTS) and counted(q) == ["counter + 1"] and [x[1:3] for x in pushed(q)] == [("revs", (("id", "counter"), ("kind", "Edit"), ("priority", "priority"), ("undo_group", "group")))],
      "an edit of a known revision that fits it replaces text, tombstones and deletes from one computation and adds one revision with a new number; any other changes nothing", known,
      some={"an edit is applied": lambda q, fs: fs.get(((0,), "v")) == "Ok", "an unknown revision is refused": lambda q, fs: ("known", "base", False) in q, "a delta that does not fit is refused": lambda q, fs: ("fits", False) in q})
    J("undo", EN + "undo", {((2,), "l"): "groups"}, lambda q, fs: together(q) and [x[1:] for x in q if x[0] == "shuffled"][0][0] == "text" and [x[1:] for x in q if x[0] == "shuffled"][0][2] == "deletes_from_union"
      and sets(q).get("undone_groups") == "groups" and set(sets(q)) == set(PARTS) | {"undone_groups"} and counted(q) == ["counter + 1"] and [x[1:3] for x in pushed(q)] == [("revs", (("id", "counter"), ("kind", "Undo")))],
      "an undo replaces text, tombstones and deletes from one computation, sets the groups undone and adds one revision with a new number")

    # merging
    reb = {E + "rebase": lambda self, m, c, q, d: [(self.add(q, "rebased", *(self.say(m, c.args[i], d) for i in (2, 3, 4))), {((("f", i),), "l"): x for i, x in enumerate(("new revisions",) + tuple("merged " + p for p in PARTS))})]}
    J("merge", EN + "merge", {((2, "*", ("f", ef(n))), "l"): "other " + n for n in PARTS + ("revs",)},
      lambda q, fs: has(q, "rebased", *PARTS) and sets(q) == {p: "merged " + p for p in PARTS} and not counted(q) and [x[2:] for x in q if str(x[0]).startswith("revs ") and x[1] in ("revs", "new revisions")] == [("new revisions",)]
      and has(q, "revs append") | has(q, "revs extend") and not any(x[0] == "taken" or x[0] == "pushed" and x[1] == "revs" for x in q), "merging replaces text, tombstones and deletes with what follows from the present ones, and adds the new revisions after them", reb)
    op_ = {n: ctx.fidx("engine::DeltaOp", n) for n in ("rev_id", "priority", "undo_group", "inserts", "deletes")}
    args = {((3,), "l"): "text", ((4,), "l"): "tombstones", ((5,), "l"): "deletes_from_union", ((6,), "l"): "largest group"}
    t = lambda fs, i: fs.get(((0, ("f", i)), "l"))
    J("rebase", E + "rebase", args,
      lambda q, fs: all(len([y for y in x if y[0] == "pushed"]) == 1 and any(y[0] == "pushed" and y[2] == (("id", "rev_id"), ("kind", "Edit"), ("priority", "priority"), ("undo_group", "undo_group")) for y in x)
                        and len([y for y in x if y[0] == "shuffled"]) == 1 for x in items_of(q)) and (not items_of(q) and (t(fs, 1), t(fs, 2), t(fs, 3)) == PARTS or bool(items_of(q)) and (t(fs, 1), t(fs, 2)) == ("shuffled text", "shuffled tombstones")
                        and any(y[0] == "shuffled" and y[4] == t(fs, 3) for x in items_of(q) for y in x)),
      "each edit merged becomes one revision with its own number, priority and undo group, and changes text, tombstones and deletes together", {},
      {"op": (lambda ty: peel(ty)[0] == "adt" and last(peel(ty)[1]) == "IntoIter" and has_adt(ty, "DeltaOp"), {((("f", i),), "l"): n for n, i in op_.items()})}, some={"edits are merged": lambda q, fs: bool(items_of(q))})
    # collecting
    ri, re_ = ctx.fidx("engine::Revision", "rev_id"), ctx.fidx("engine::Revision", "edit")
    item = {((("f", ri),), "l"): "rev_id"}
    for v, ns in (("Edit", ("priority", "undo_group")),):
        for n in ns:
            item[((("f", re_), ("d", v), ("f", ctx.fidx("engine::Contents", n, v))), "l")] = n

    def kept(x):
        if x in ({("pushed",)}, {("dropped",)}):
            return True
        ps = [y for y in x if y[0] == "pushed"]
        return len(ps) <= 1 and (not has(x, "kept", True) or len(ps) == 1) and all(y[2][0] == ("id", "rev_id") and (y[2][1] == ("kind", "Undo") or y[2][2:] == (("priority", "priority"), ("undo_group", "undo_group"))) for y in ps)
    J("gc", EN + "gc", {((2,), "l"): "groups"}, lambda q, fs: "text" not in sets(q) and "undone_groups" not in sets(q) and ("tombstones" in sets(q)) == ("deletes_from_union" in sets(q)) and not counted(q) and ("taken",) in q and has(q, "revs reverse")
      and all(kept(x) for x in items_of(q)), "collecting leaves the text, changes tombstones and deletes together, and keeps the last revision, and those it keeps with their numbers, priorities and groups", {"plain": None}, {"rev": (revs, item)},
      some={"revisions are kept": lambda q, fs: any(has(x, "pushed") for x in items_of(q)), "revisions are dropped": lambda q, fs: any(not has(x, "pushed") for x in items_of(q))},
      fold=lambda x: x if not kept(x) else frozenset({("pushed",)}) if has(x, "pushed") else frozenset({("dropped",)}))
