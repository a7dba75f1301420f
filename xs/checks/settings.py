"""P19: settings: checked before they count, layered in the documented order, and every change passed on."""
from ..esp import LoopRule, Machine
from .. import stdmodel, wire
from ..lib import *
from . import commands

CORE = "xi_core_lib::"
CM, PAIR, STACK = CORE + "config::ConfigManager::", CORE + "config::ConfigPair::", CORE + "config::TableStack::"
STATE = CORE + "tabs::CoreState::"
CTX = CORE + "event_context::EventContext::"
HERE = (CORE + "config::", CORE + "tabs::")
SOME = (("d", "Some"), ("f", 0))
MAPS = ("Map", "HashMap", "BTreeMap", "OccupiedEntry", "VacantEntry", "Entry")


class Steps(LoopRule):
    """State: what has been done; what is done with an item of a loop is collected in ("item", {...}) when it is finished."""
    label_prefix = True
    track_consts = True
    label_pass = commands.Cmd.label_pass | {"core::iter::traits::collect::IntoIterator::into_iter", "core::option::Option::as_ref", "core::option::Option::unwrap_or_default", "core::option::Option::cloned",
                                            "alloc::rcs::arc::Arc::new", "alloc::rcs::arc::Arc::make_mut", "core::convert::AsRef::as_ref", "core::default::Default::default"}
    ops = {}            # function: handler(self, m, c, q, d) or (name, {arg: shown})
    items = {}          # token: facts of an item
    stores = False
    maps = True
    collects = True
    fold = None         # what is kept of a finished item
    forget = ()         # events of an item that do not count once it is finished

    def target(self, c):
        for t in c.targets:
            if t.body.name in self.ops and t.body.uid != self.root:
                return t.body.name
        return None

    def map_op(self, c):
        if c.targets or not c.args or not self.maps:
            return None
        t = arg_ty(c, 0)
        if t is None or t[0] != "adt" or last(t[1]) not in MAPS:
            return None
        n = last(c.name)
        return n if n in ("insert", "remove", "get", "get_mut", "contains_key", "entry", "extend", "append", "or_insert", "or_insert_with", "or_default", "and_modify", "clear", "retain") else None

    def loop(self, c):
        t = arg_ty(c, 0)
        d = c.declared or ""
        if t is None or not d.endswith(("Iterator::next", "Iterator::for_each", "Iterator::collect")):
            return None
        for tok, (pred, _) in self.items.items():
            if pred(t):
                return tok
        return None

    def chained(self, c):
        t = arg_ty(c, 0)
        return t is not None and any(pred(t) for pred, _ in self.items.values())

    def item(self, c, token):
        return self.items[token][1]

    def step(self, m, c, q, token, more):
        cur = {x[1:] for x in q if x[0] == ("in", token) and x[1] not in self.forget}
        if ("open", token) in q:
            q = frozenset(x for x in q if x[0] != ("in", token) and x != ("open", token)) | ({("item", token, self.fold(frozenset(cur)) if self.fold else frozenset(cur))} if cur or not self.forget else set())
        return q | {("open", token)} if more else q

    def add(self, q, *ev):
        """An event, kept with the innermost item it belongs to."""
        opened = [x[1] for x in q if x[0] == "open"]
        tok = next((t for t in reversed(list(self.items)) if t in opened), None)
        return q | {(("in", tok),) + ev} if tok else q | {ev}

    def event(self, c):
        return self.target(c) is not None or self.map_op(c) is not None or self.other(c) is not None

    def other(self, c):
        n = last(c.name)
        if trait_method(c, "Default", ("default",)) or n == "new":
            t = dest_ty(c)
            if not c.targets and t is not None and t[0] == "adt" and t[1].startswith("serde_json::map::"):
                return "empty"
        if n in ("iter", "into_iter") and not c.targets and arg_ty(c, 0) is not None and arg_ty(c, 0)[0] == "adt" and arg_ty(c, 0)[1].startswith("serde_json::map::Map"):
            return "over"
        if (c.declared or "").endswith(("convert::Into::into", "convert::From::from")) and c.args and c.args[0][0] != "c" and (not c.targets or has_adt(dest_ty(c), "Map")):
            return "into"
        if n in ("is_null", "rev", "exists") and not c.targets:
            return n
        if n == "push" and not c.targets:
            return "push"
        if n == "extend" and not c.targets and len(c.args) > 1 and peel(arg_ty(c, 0))[0] == "adt" and last(peel(arg_ty(c, 0))[1]) == "Vec" and arg_ty(c, 1)[0] == "adt" and last(arg_ty(c, 1)[1]) == "Option":
            return "extend"
        if n == "from_value" and "serde_json" in c.name:
            return n
        if trait_method(c, "PartialEq", ("eq", "ne")) and not c.targets and (has_adt(arg_ty(c, 0), "Value") or has_adt(arg_ty(c, 0), "LanguageId")):
            return "eq"
        return None

    def interesting_stmt(self, body, s):
        if s[0] != "=":
            return False
        f = field_of_place(s[1])
        if f is not None and last(f[0]) in ("ConfigPair", "LanguageTag"):
            return True
        return s[2][0] == "agg" and s[2][1][0] == "adt" and last(s[2][1][1]) in ("ConfigPair", "ConfigDomain")

    def opaque(self, c):
        return self.target(c) is not None or "xi_trace" in c.name or trait_method(c, "Clone", ("clone",)) or bool(c.targets) and all(not t.body.name.startswith(HERE) for t in c.targets)

    def say(self, m, op, d):
        if op[0] == "c":
            v = m.constval(op)
            v = stdmodel.unit_variant(m, self.cur, op) if v is None else v
            return "?" if v is None else v
        l = self.at(m, m.key(op[1], d), d)
        return l if l != "?" else stdmodel.unit_variant(m, self.cur, op) or "?"

    def at(self, m, k, d, n=0):
        if k is None or n > 6:
            return "?"
        if d.get((k, "v")) == "None":
            return "None"
        l = m.label_at(k, d)
        if l:
            return l
        if d.get((k, "r")):
            return self.at(m, d[(k, "r")][0], d, n + 1)
        v = d.get((k, "v"))
        if v in ("Some", "Ok"):
            return self.at(m, k + (("d", v), ("f", 0)), d, n + 1)
        if v is not None:
            for i in (0,):
                x = self.at(m, k + (("d", v), ("f", i)), d, n + 1)
                if x != "?":
                    return f"{v} {x}"
            return v
        x = m.label_at(k + SOME, d)
        return x or d.get((k, "c")) or "?"

    def on_event(self, m, c, q, d):
        self.cur = c.inst
        name = self.target(c)
        if name is not None:
            self.n += 1
            h = self.ops[name]
            if callable(h):
                return h(self, m, c, q, d)
            ev = (h[0],) + tuple(self.say(m, c.args[i], d) if i < len(c.args) else "?" for i in h[1])
            return [(self.add(q, *ev), h[2] if len(h) > 2 else {})]
        o = self.map_op(c)
        if o:
            return self.map_event(m, c, o, q, d)
        o = self.other(c)
        if o in ("is_null", "exists"):
            return [(self.add(q, o, v), {((), "c"): v}) for v in (True, False)]
        if o == "into":
            k, a, b = m.key(c.args[0][1], d), arg_ty(c, 0, False), dest_ty(c)
            fs = {(sk, kind): v for sk, kind, v in m.sub(d, k)} if k is not None else {}
            if b is not None and b[0] == "adt" and last(b[1]) == "Option" and not (a is not None and a[0] == "adt" and last(a[1]) == "Option") and fs.get(((), "v")) not in OPT:
                fs = {((), "v"): "Some", **{(SOME + sk, kind): v for (sk, kind), v in fs.items()}}
            l = m.label_at(k, d)
            if l and not any(kind == "l" for _, kind in fs):
                fs[((), "l")] = l
            return [(q, fs)]
        if o == "empty":
            return [(q, {((), "l"): "empty"})]
        if o == "over":
            return [(self.add(q, "over", self.say(m, c.args[0], d)), {})]
        if o == "eq":
            eq = last(c.declared) == "eq"
            vs = {self.variant(m, a, d) for a in c.args[:2]}
            if vs == {"Some", "None"}:
                return [(self.add(q, "same", False), {((), "c"): not eq})]
            return [(self.add(q, "same", v), {((), "c"): v == eq}) for v in (True, False)]
        if o == "rev":
            l = self.say(m, c.args[0], d)
            return [(self.add(q, "rev", len([x for x in q if x[0] == "rev"])), {((), "l"): l} if l != "?" else {})]
        if o == "extend" and self.variant(m, c.args[1], d) == "None":
            return [(q, {})]
        if o == "push" and any(x[0] == "open" for x in q):
            k = m.opkey(c.args[1], d)
            l = tuple(self.at(m, k + (("f", i),), d) for i in (0, 1)) if k is not None else ("?", "?")
            return [(self.add(q, "result", *l) if "?" not in l else q, {})]
        if o in ("push", "extend"):
            return [(q | {("push", sum(x[0] == "push" for x in q), self.say(m, c.args[1], d))}, {})]
        if o == "from_value":
            t = c.tyargs[0] if c.tyargs else None
            to = last(t[1]) if t is not None and t[0] == "adt" else str(t)
            l = self.say(m, c.args[0], d)
            return [(q | {("read", to, l)}, {((), "v"): "Ok", ((("d", "Ok"), ("f", 0)), "l"): "items"}), (q | {("unread", to, l)}, {((), "v"): "Err"})]
        return None

    def variant(self, m, op, d):
        k, n = m.opkey(op, d), 0
        while k is not None and n < 4:
            if d.get((k, "v")) in OPT:
                return d[(k, "v")]
            r = d.get((k, "r"))
            k, n = (r[0] if r else None), n + 1
        return None

    def map_event(self, m, c, o, q, d):
        into = self.say(m, c.args[0], d)
        key = self.say(m, c.args[1], d) if len(c.args) > 1 else "?"
        if o == "insert" and len(c.args) > 2:
            return [(self.add(q, "insert", into, key, self.say(m, c.args[2], d)), {})]
        if o == "remove":
            return [(self.add(q, "remove", into, key), {})]
        if o == "contains_key":
            return [(self.add(q, "known", v), {((), "c"): v}) for v in (True, False)]
        if o in ("get", "get_mut"):
            return [(self.add(q, "get", into, key, v), {((), "v"): "Some", (SOME, "l"): f"{into}[{key}]"} if v else {((), "v"): "None"}) for v in (True, False)]
        if o == "entry":
            return [(self.add(q, "entry", into, key), {((), "l"): f"{into}[{key}]"})]
        if o in ("extend", "append"):
            return [(self.add(q, "extend", into, key), {})]
        if o in ("clear", "retain"):
            return [(self.add(q, o, into), {})]
        return None

    def stmt(self, m, inst, bb, s, q, d):
        if s[0] != "=" or not self.stores:
            return q
        self.cur = inst
        f = field_of_place(s[1])
        if f is not None and last(f[0]) == "ConfigPair" and s[2][0] in ("use", "agg"):
            self.where.add(inst.body.uid)
            l = (self.say(m, s[2][2][0], d) if s[2][2] else "None") if s[2][0] == "agg" else self.say(m, s[2][1], d)
            return self.stored(q, f[1], l)
        if f is not None and last(f[0]) == "LanguageTag" and s[2][0] in ("use", "agg"):
            l = (self.say(m, s[2][2][0], d) if s[2][2] else "None") if s[2][0] == "agg" else self.say(m, s[2][1], d)
            return self.add(q, "tag " + f[1], l.replace("Some ", ""))
        if s[2][0] == "agg" and s[2][1][0] == "adt" and last(s[2][1][1]) == "ConfigPair":
            self.where.add(inst.body.uid)
            for (n, *_), a in zip(self.pair, s[2][2]):
                q = self.stored(q, n, self.say(m, a, d))
        return q

    def stored(self, q, field, l):
        if field == "cache":
            return q if "cache" in self.forget else self.add(q, "cache", l)
        l = l.replace("Some ", "")
        if field in self.forget or field == "base" and "base ok" in self.forget and (l == "None" or any(x[-2:] == ("checked", l) for x in q)):
            return q
        if field == "user":
            q = frozenset(x for x in q if x[0] != "cache")
        return self.add(q, field, l, any(x[-2:] == ("checked", l) for x in q))

    def produced(self, m, q, facts):
        l = facts.get(((("d", "Some"), ("f", 0), ("f", 0)), "l")), facts.get(((("d", "Some"), ("f", 0), ("f", 1)), "l"))
        return self.add(q, "result", *l) if any(l) else q


def explore(ctx, name, env, ops=None, items=None, stores=False, maps=True, forget=()):
    root = ctx.inst(name)
    rule = Steps()
    rule.ctx, rule.n, rule.root = ctx, 0, root.body.uid
    rule.ops, rule.items, rule.stores, rule.maps, rule.forget = ops or {}, items or {}, stores, maps, forget
    rule.pair = ctx.adt("config::ConfigPair")["v"][0]["f"]
    rule.where = ctx._stores
    m = Machine(ctx.p, ctx.r, rule)
    out = [(q, dict(fs)) for q, fs in m.run(root, frozenset(), env)]
    ctx.take(m, "settings")
    return root.body.loc(root.body.line), out


def under(t):
    """The iterator below lazy adapters that leave its items as they are."""
    t = peel(t)
    while t[0] == "adt" and t[1].startswith("core::iter::") and last(t[1]) in ("Filter", "Inspect", "Fuse", "Peekable") and t[2]:
        t = peel(t[2][0])
    return t


def is_table_iter(t):
    t = under(t)
    return t[0] == "adt" and t[1].startswith("serde_json::map::") and last(t[1]) in ("Iter", "IntoIter")


ENTRY = {"entry": (is_table_iter, {((("f", 0),), "l"): "key", ((("f", 1),), "l"): "value"})}


def res(name, args, what):
    def h(self, m, c, q, d):
        l = tuple(self.say(m, c.args[i], d) for i in args)
        return [(self.add(q, name, *l, True), {((), "v"): what[0], ((("d", what[0]), ("f", 0)), "l"): what[2]}), (self.add(q, name, *l, False), {((), "v"): what[1]})]
    return h


OK, OPT = ("Ok", "Err"), ("Some", "None")


def is_change_iter(t):
    t = under(t)
    return t[0] == "adt" and t[1].startswith("alloc::") and last(t[1]) == "IntoIter" and has_adt(t, "BufferId") and "Map" in str(t)


def is_id_iter(t):
    t = peel(t)
    while t[0] == "adt" and last(t[1]) in ("FlatMap", "FilterMap", "Map", "Cloned", "Copied") and t[2]:
        t = t[2][0]
    return t[0] == "adt" and t[1].startswith("alloc::") and last(t[1]) == "IntoIter" and has_adt(t, "BufferId") and "serde_json" not in str(t)


def is_new_view_iter(t):
    t = under(t)
    return t[0] == "adt" and last(t[1]) in ("Iter", "IntoIter", "Drain") and has_adt(t, "ViewId") and has_adt(t, "Map") and not has_adt(t, "BufferId")


CHANGE = {"change": (is_change_iter, {((("f", 0),), "l"): "buffer", ((("f", 1),), "l"): "table"})}
IDS = {"buffer": (is_id_iter, {((), "l"): "id"})}
NEW = {"view": (is_new_view_iter, {(r + (("f", i),), "l"): l for r in ((), ("*",)) for i, l in enumerate(("view", "settings at creation"))})}


def is_language_iter(t):
    return t[0] == "adt" and last(peel(t)[1]) in ("Iter", "IntoIter", "Values", "Map", "FilterMap", "Filter") and has_adt(t, "LanguageDefinition")


LANGS = {"language": (is_language_iter, {((), "l"): "definition"})}


class Judge:
    def __init__(self, ctx):
        self.ctx = ctx

    def __call__(self, rule, name, env, cond, what, ops=None, items=None, stores=False, maps=True, some=None, forget=()):
        """Every outcome satisfies cond; some outcome satisfies each of some."""
        at, outs = explore(self.ctx, name, env, ops, items, stores, maps, forget)
        bad = [(sorted(q, key=str), show(fs)) for q, fs in outs if not cond(q, fs)]
        key = f"{rule}|{last(name)}"
        short = name[len(CORE):]
        self.ctx.expect(not bad, rule, f"{short}: {what}", key, f"{short}: not on every path: {what}; there is a path with {str(bad[0])[:300] if bad else ''}", at)
        for i, (text, pred) in enumerate((some or {}).items()):
            self.ctx.expect(any(pred(q, fs) for q, fs in outs), rule, f"{short}: {text}", f"{key}|{i}", f"{short}: on no path {text}", at)
        if DEBUG:
            print("==", short, len(outs))
            for q, fs in outs[:14]:
                print("   ", sorted(q, key=str), show(fs))
        return outs


DEBUG = False


def show(fs):
    return {k: v for k, v in fs.items() if k[0][0] == 0}


def ret(fs, k=()):
    k = (0,) + k
    for n in range(len(k), 0, -1):
        if (k[:n], "l") in fs:
            return fs[(k[:n], "l")]
    return None


def has(q, *ev):
    return any(len(x) >= len(ev) and all(a is None or a == b for a, b in zip(ev, x)) for x in q)


def items_of(q):
    return [x[2] for x in q if x[0] == "item"]


def check_op(self, m, c, q, d):
    l = self.say(m, c.args[1], d)
    return [(self.add(q, "checked", l), {((), "v"): "Ok"}), (self.add(q, "refused", l), {((), "v"): "Err"})]


def run(ctx):
    ctx._stores = set()
    J = Judge(ctx)
    fi = lambda f: ctx.fidx("config::ConfigManager", f)
    me = {((1, "*", ("f", fi(f))), "l"): f for f in ("configs", "buffer_configs", "buffer_tags", "languages")}
    pf = lambda f: (1, "*", ("f", ctx.fidx("config::ConfigPair", f)))
    payload = (("d", "Some"), ("f", 0))
    ERR = lambda fs: fs.get(((0,), "v")) == "Err"

    # ---- nothing unchecked is kept
    ops = {CM + "check_table": check_op, CM + "update_all_buffer_configs": ("update all", (), {((), "l"): "changes"})}
    STORED = ("user", "base", "insert", "entry", "update all", "or_insert", "or_insert_with")
    J("checked", CM + "set_user_config", {**me, ((2,), "l"): "domain", ((3,), "l"): "given"},
      lambda q, fs: not any(x[0] in STORED for x in q) if ERR(fs) else has(q, "checked", "given") and has(q, "user", "given", True) and has(q, "cache") and has(q, "update all")
      and all(x[1] in ("given", "None") for x in q if x[0] in ("user", "base")) and ret(fs, (("d", "Ok"), ("f", 0))) == "changes",
      "a table is kept only after it has been checked, in place of the old one, and all open buffers' settings are worked out again; a refused one changes nothing",
      ops, {}, True, some={"a refused table is an error": lambda q, fs: ERR(fs), "an accepted table is kept": lambda q, fs: not ERR(fs)})
    J("checked", CM + "check_table", {**me, ((2,), "l"): "given"},
      lambda q, fs: ERR(fs) or has(q, "read", "BufferItems", "configs[General]") and all(x <= {("is_null", True)} or x == {("is_null", False), ("insert", "configs[General]", "key", "value")} for x in items_of(q)),
      "a table is accepted only when the defaults overlaid with all its entries make valid settings", {}, ENTRY,
      some={"every entry counts": lambda q, fs: not ERR(fs) and any(("insert", "configs[General]", "key", "value") in x for x in items_of(q)), "settings that do not make a configuration are refused": lambda q, fs: ERR(fs)})
    lang = {**ops, CM + "set_user_config": ("set", (1, 2)), CM + "load_user_config_file": res("load", (1,), OPT + ("loaded",))}
    J("checked", CM + "set_languages", {**me, ((2,), "l"): "new languages"},
      lambda q, fs: all(x[2] or x[1] in ("None",) for y in [q] + items_of(q) for x in y if x[0] == "base") and has(q, "update all") and not has(q, "user", "given"),
      "the defaults of a language are used only when they have been checked, and all open buffers' settings are worked out again", lang, LANGS, True, False,
      forget=("cache", "user", "base ok", "checked", "refused", "load", "set", "over"))

    # ---- layers
    def layers(q, fs):
        pushed = [x[2] for x in sorted((x for x in q if x[0] == "push"), key=lambda x: x[1])]
        if sum(x[0] == "rev" for x in q) % 2:
            pushed.reverse()
        want = [("UserOverride id",), ("SysOverride id",), ("Language languages[buffer_tags[id]]", "languages[buffer_tags[id]]"), ("General",)]
        wanted = []
        for w in want:
            g = [x for x in q if x[0] == "get" and x[1] == "configs" and x[2] in w]
            if g and g[0][3]:
                wanted.append(f"configs[{g[0][2]}]")
            elif not g and w[0][0] != "L":
                return False
        has_lang = any(x[0] == "get" and x[1] in ("languages",) and x[3] for x in q)
        if has_lang and not any(x[0] == "get" and x[1] == "configs" and x[2] in want[2] for x in q):
            return False
        return [x for x in pushed if x not in ("None", "?")] == wanted
    named = lambda self, m, c, q, d: [(q | {("get", "languages", self.say(m, c.args[1], d), v)}, {((), "v"): "Some", (SOME, "l"): f"languages[{self.say(m, c.args[1], d)}]"} if v else {((), "v"): "None"}) for v in (True, False)]
    J("layers", CM + "generate_buffer_config", {**me, ((2,), "l"): "id"}, layers,
      "the layers are, first to last: the overrides of the buffer, what was detected in it, its language's settings, the general ones", {STACK + "into_config": ("stack", (0,), {((), "l"): "new"}), CORE + "syntax::Languages::language_for_name": named})
    first = lambda x: x <= {("known", True)} or has(x, "known", False) and has(x, "insert", None, "key", "value")
    J("layers", STACK + "collate", {}, lambda q, fs: all(first(x) for x in items_of(q)), "a key has the value of the first layer that has it", {}, ENTRY,
      some={"a layer's values are used": lambda q, fs: any(has(x, "insert", None, "key", "value") for x in items_of(q))})
    layer = {"layer": (lambda t: peel(t)[0] == "adt" and last(peel(t)[1]) in ("Iter", "IntoIter") and has_adt(peel(t), "Arc") and not peel(t)[1].startswith("serde_json"), {((), "l"): "layer"})}
    J("layers", STACK + "get", {((2,), "l"): "key"}, lambda q, fs: not has(q, "rev") and not any(has(x, "get", None, "key", True) for x in items_of(q)),
      "the value of the first layer that has the key", {}, layer)
    J("layers", STACK + "diff", {((1,), "l"): "this", ((2,), "l"): "other"},
      lambda q, fs: has(q, "collate", "this") and all(has(x, "value", "other", "key", True) and has(x, "same", True) and not has(x, "insert") or (has(x, "value", "other", "key", False) or has(x, "value", "other", "key") and has(x, "same", False)) and has(x, "insert", None, "key", "value") for x in items_of(q))
      and (fs.get(((0,), "v")) != "None" or not any(has(x, "insert") for x in items_of(q))),
      "every key whose value differs from the old one is a change, with its new value",
      {STACK + "collate": ("collate", (0,), {((), "l"): "table"}), STACK + "get": res("value", (0, 1), OPT + ("old value",))}, ENTRY,
      some={"there are changes": lambda q, fs: any(has(x, "insert") for x in items_of(q))})
    two = {STACK + "diff": ("diff", (0, 1), {((), "l"): "differences"}), STACK + "collate": ("collate", (0,), {((), "l"): "all"})}
    src = ("f", ctx.fidx("config::Config", "source"))
    for v in ("Some", "None"):
        J("changes", CORE + "config::Config::changes_from", {((1, "*", src), "l"): "new", ((2,), "v"): v, **({((2, ("d", "Some"), ("f", 0), "*", src), "l"): "old"} if v == "Some" else {})},
          lambda q, fs: q == {("diff", "new", "old")} and ret(fs) == "differences" if v == "Some" else q == {("collate", "new")} and "all" in (ret(fs), ret(fs, payload)),
          "the changes are the differences from the old settings, or all settings when there are no old ones" + f" ({v})", two)
    J("changes", CM + "update_buffer_config", {**me, ((2,), "l"): "id"},
      lambda q, fs: has(q, "generate", "id") and has(q, "insert", "buffer_configs", "id", "new") and (has(q, "changes", "new", "buffer_configs[id]") if has(q, "get", "buffer_configs", "id", True) else has(q, "changes", "new", "None")) and ret(fs) == "changes",
      "the settings of the buffer are replaced and the changes from the old ones are the result",
      {CM + "generate_buffer_config": ("generate", (1,), {((), "l"): "new"}), CORE + "config::Config::changes_from": ("changes", (0, 1), {((), "l"): "changes"})})
    J("changes", CM + "update_all_buffer_configs", me, lambda q, fs: all(x == {("update", "id", True), ("result", "id", "changed")} or x == {("update", "id", False)} for x in items_of(q)),
      "the settings of each buffer are worked out again and those that changed are the result", {CM + "update_buffer_config": res("update", (1,), OPT + ("changed",))}, IDS, maps=False,
      some={"there are changes": lambda q, fs: any(has(x, "update", "id", True) for x in items_of(q))})

    # ---- a table from the user is laid over the base, and may be changed key by key
    old = {(pf("user"), "v"): "Some", (pf("user") + payload, "l"): "old user", (pf("base"), "v"): "Some", (pf("base") + payload, "l"): "old base"}
    J("merge", PAIR + "table_for_update", {((2,), "l"): "changes", **old},
      lambda q, fs: ret(fs) == "old user" and all(x in ({("is_null", True), ("remove", "old user", "key")}, {("is_null", False), ("insert", "old user", "key", "value")}) for x in items_of(q)) and has(q, "over", "changes"),
      "a request changes the settings it names and removes those it gives no value", {}, ENTRY)
    J("merge", CM + "table_for_update", {**me, ((2,), "l"): "domain", ((3,), "l"): "changes"}, lambda q, fs: has(q, "entry", "configs", "domain") and has(q, "merge", "changes") and ret(fs) == "merged",
      "a request is applied to the settings of its own domain", {PAIR + "table_for_update": ("merge", (1,), {((), "l"): "merged"})})
    for b in ctx.p.bodies.values():
        if b.name.startswith(PAIR) and any(s[0] == "=" and (field_of_place(s[1]) or ("", ""))[1] == "cache" for k in b.reach for s in b.blocks[k]["s"] if s[0] == "="):
            J("merge", b.name, {**old, **{((i,), "l"): "given" for i in range(2, b.argc + 1)}},
              lambda q, fs: has(q, "cache", "old base") and all(has(x, "insert", "old base", "key", "value") for x in items_of(q)) and (has(q, "over", "old user") or has(q, "over", "given") or has(q, "extend", "old base", "old user")),
              "what is used is the base overlaid with the table given", {}, ENTRY, True)

    # ---- languages
    tag = lambda f: (1, "*", ("f", ctx.fidx("config::LanguageTag", f)))
    TAG = CORE + "config::LanguageTag::"
    for v, want in (("Some", "chosen"), ("None", "detected")):
        J("language", TAG + "resolve", {(tag("user"), "v"): v, (tag("detected"), "l"): "detected", **({(tag("user") + payload, "l"): "chosen"} if v == "Some" else {})},
          lambda q, fs: ret(fs) == want, f"the language the user chose, otherwise the one of the file's name ({v})")
    upd = {CM + "update_buffer_config": ("update", (1,), {((), "l"): "changes"}), CM + "language_for_path": res("language", (1,), OPT + ("found",))}
    J("language", CM + "override_language", {**me, ((2,), "l"): "id", ((3,), "l"): "given"},
      lambda q, fs: has(q, "tag user", "given") and (has(q, "same", True) and not has(q, "update") or has(q, "update", "id") and ret(fs) == "changes"),
      "the language is kept and, when it is another one, the settings are worked out again", upd, {}, True)
    J("language", CM + "update_buffer_path", {**me, ((2,), "l"): "id", ((3,), "l"): "path"},
      lambda q, fs: (has(q, "tag detected", "found") or has(q, "language", "path", False)) and has(q, "tag detected") and (has(q, "same", True) and not has(q, "update") or has(q, "update", "id") and ret(fs) == "changes"),
      "the language of the new name is kept and, when it is another one, the settings are worked out again", upd, {}, True)

    # ---- the core: results are passed on, errors shown
    alert = {CORE + "client::Client::alert": ("alert", ())}
    tabs = {**alert, CM + "set_user_config": res("set", (1, 2), OK + ("changes",)), STATE + "handle_config_changes": ("pass on", (1,)), STATE + "set_config": ("set config", (1, 2)),
            CM + "domain_for_path": res("domain", (1,), OPT + ("domain",)), CORE + "config::try_load_from_file": res("load", (0,), OK + ("table",)),
            CM + "table_for_update": ("merge", (1, 2), {((), "l"): "merged"}), CM + "update_buffer_path": res("path", (1, 2), OPT + ("changes",)),
            CM + "override_language": res("language", (1, 2), OPT + ("changes",)), CTX + "config_changed": ("tell", (0, 1)),
            STATE + "make_context": res("context", (1,), OPT + ("context",)), CORE + "view::View::get_buffer_id": ("buffer of", (0,), {((), "l"): "buffer"}),
            CORE + "view::View::get_view_id": ("view of", (0,), {((), "l"): "view"}), STATE + "load_file_based_config": ("load file", (1,)), STATE + "remove_config_at_path": ("remove file", (1,)),
            CM + "set_languages": ("languages", (1,)), CM + "base_config_file_path": res("base file", (), OPT + ("base file",)),
            STATE + "do_get_config": res("current", (1,), OK + ("current",)), STATE + "detect_whitespace": res("detect", (1, 2), OPT + ("with detected",)), CTX + "finish_init": ("finish", (1,)),
            CM + "get_buffer_config": ("config", (1,), {((), "l"): "config"})}

    def but(n):
        return {k: v for k, v in tabs.items() if not k.endswith("::" + n)}

    def core(n, env, cond, what, items=None, **kw):
        return J("core", STATE + n, env, cond, what, but(n), items, False, False, **kw)
    core("set_config", {((2,), "l"): "domain", ((3,), "l"): "given"},
         lambda q, fs: has(q, "set", "domain", "given", True) and has(q, "pass on", "changes") or has(q, "set", "domain", "given", False) and has(q, "alert"), "changes are passed on, an error is shown")
    core("load_file_based_config", {((2,), "l"): "path"},
         lambda q, fs: has(q, "load", "path", True) and has(q, "set config", "domain", "table") or (has(q, "load", "path", False) or has(q, "domain", "path", False)) and has(q, "alert") and not has(q, "set config"),
         "the settings of the file are set, or an error is shown")
    core("remove_config_at_path", {((2,), "l"): "path"}, lambda q, fs: has(q, "domain", "path", False) or has(q, "set config", "domain", "empty"), "the settings of a file that is gone are reset")
    core("handle_config_changes", {((2,), "l"): "changes"}, lambda q, fs: all(has(x, "tell", "context", "table") and has(x, "context", "view", True) for x in items_of(q)), "each change is passed to its view", CHANGE,
         some={"changes are passed on": lambda q, fs: items_of(q)})
    for n, l in (("do_save", "path"), ("do_set_language", "language")):
        op = "path" if n == "do_save" else "language"
        core(n, {((2,), "l"): "view", ((3,), "l"): l}, lambda q, fs: not has(q, op, None, None, True) or has(q, "context", "view", False) and has(q, "buffer of") or any(has(x, "tell", "context", "changes") for x in [q] + items_of(q)) and has(q, "context", "view", True), "the changed settings are passed to the view",
             some={"there may be changes": lambda q, fs: has(q, op, "buffer", l, True)})
    core("do_modify_user_config", {((2,), "l"): "domain", ((3,), "l"): "given"},
         lambda q, fs: not (q - {x for x in q if x[0] == "buffer of"}) or any(has(q, "merge", x, "given") and has(q, "set config", x, "merged") for x in ("General", "Language domain", "UserOverride buffer")),
         "the table given is merged into the settings of its domain, and the result is set",
         some={f"settings are set for {x}": (lambda x: lambda q, fs: has(q, "set config", x, "merged"))(x) for x in ("General", "Language domain", "UserOverride buffer")})
    core("finalize_new_views", {}, lambda q, fs: all(has(x, "current", "view", False) and not has(x, "finish") or has(x, "context", "view", False)
                                                     or has(x, "detect", "view", "current", True) and has(x, "finish", "with detected") or has(x, "detect", "view", "current", False) and has(x, "finish", "current") for x in items_of(q)),
         "a new view gets the settings its buffer has now, with what is detected in it", NEW, some={"views get settings": lambda q, fs: any(has(x, "finish") for x in items_of(q))})
    core("detect_whitespace", {((2,), "l"): "view", ((3,), "l"): "given"},
         lambda q, fs: all(x[1] == "SysOverride buffer" and x[2] == "merged" for x in q if x[0] == "set") and all(x[1] == "SysOverride buffer" for x in q if x[0] == "merge"), "what is detected counts for that buffer only, below its own overrides",
         some={"what is detected is set": lambda q, fs: has(q, "set", None, None, True)})
    core("finish_setup", {}, lambda q, fs: has(q, "languages") and (has(q, "base file", False) or has(q, "load file", "base file")), "the settings file and the languages are loaded at the start")
    core("handle_config_fs_event", {((2,), "l"): "event"}, lambda q, fs: not has(q, "remove file") or has(q, "exists", False) or has(q, "load file"), "a settings file's settings are reset only when it is gone or has another name",
         some={"a changed file is loaded": lambda q, fs: has(q, "load file") and not has(q, "remove file"), "a file that is gone has its settings reset": lambda q, fs: has(q, "remove file") and not has(q, "load file"),
               "a renamed file counts under its new name only": lambda q, fs: has(q, "remove file") and has(q, "load file")})

    # ---- no other way in
    known = {CM + n for n in ("set_user_config", "set_languages", "new")}
    keep = set()
    for b in ctx.p.bodies.values():
        if b.name.startswith(HERE[0]) and not ctx.tests(b) and not b.derived:
            for k in b.reach:
                for s in b.blocks[k]["s"]:
                    f = field_of_place(s[1]) if s[0] == "=" else None
                    if f is not None and last(f[0]) == "ConfigPair" or s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and last(s[2][1][1]) == "ConfigPair":
                        keep.add(b.uid)
    for b in list(ctx.p.bodies.values()):
        if not b.name.startswith(HERE[0]) or "{closure" in b.name or ctx.tests(b) or b.name in known or b.derived:
            continue
        if not any(not i.body.name.startswith(HERE[0]) for i in ctx.callers(b.uid)):
            continue
        inst = ctx.inst(b.name)
        if any(i.body.uid in keep for i in ctx.reachable([inst], stop=lambda c: any(t.body.name in known for t in c.targets))):
            J("checked", b.name, {}, lambda q, fs: all(x[1] == "None" or x[2] for y in [q] + items_of(q) for x in y if x[0] in ("base", "user")), "no unchecked table is kept",
              {CM + "check_table": check_op, **{k: ("known", ()) for k in known}}, {}, True, False)
    ctx.counts["functions_that_keep_tables"] = len(keep)
