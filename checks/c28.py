"""C28: overridden comparison hooks act as documented."""
import normalize.diff as nd
from mon.core import attempt
from mon.differ import UNSET, Opts, entries_of, items_of, show
from mon.pairs import World, option_sample, own_attributes
from mon.recmodel import new_class
from mon.shapes import T, snapshot
from normalize import Property, Record
from normalize.coll import Collection, dict_of, list_of
from normalize.diff import DiffOptions
from normalize.property import Property as AnyProperty

RULE = (
    "a case declares related record classes, overrides one or more hooks of "
    "DiffOptions (text, whitespace, case, Unicode, value, slot, item, "
    "emptiness, equality, filtering, identity) with generated clean-ups, and "
    "compares pairs of objects under random options; the judge of C22, which "
    "applies the same clean-ups to what it reads, decides whether the "
    "entries are a true and complete account, and recorders in the hooks "
    "check what each was called with and that no compared place was left "
    "out; non-trivial: distinct sets of hooks and entries")
ASSUMPTIONS = [
    "clean-up functions are pure, and give text for text and numbers for "
    "numbers", "an overridden equality is judged where no collections of "
    "records are involved: those pair items by identity, not equality"]
NEED = {"hooked": 1500, "hook text": 60, "hook whitespace": 60,
        "hook case": 60, "hook unf": 60, "hook val": 60, "hook slot": 60,
        "hook item": 60, "hook empty": 60, "calls": 8000, "slots covered":
        3500, "items covered": 120, "equality": 300, "filters": 250,
        "identities": 150, "reused": 700}

TEXTS = [
    ("lower", lambda s: s.lower()), ("reversed", lambda s: s[::-1]),
    ("first", lambda s: s[:1]), ("no spaces", lambda s: s.replace(" ", "")),
    ("length", lambda s: "x" * len(s)), ("constant", lambda s: "z"),
    ("no e", lambda s: s.replace(u"e", "").replace(u"\u00e9", "")),
    ("not blank", lambda s: s or "blank"), ("same", lambda s: s)]
NUMBERS = [("half", lambda n: n // 2), ("parity", lambda n: n % 2),
           ("negated", lambda n: -n), ("zero", lambda n: 0)]


def cleanup(rng):
    """-> name, function on text and numbers"""
    tn, text = rng.choice(TEXTS)
    nn, number = rng.choice(NUMBERS)
    which = rng.choice(["text", "number", "both"])

    def f(v):
        if isinstance(v, str):
            return text(v) if which != "number" else v
        if type(v) is int and which != "text":
            return number(v)
        return v
    return "%s/%s/%s" % (which, tn, nn), f


class Hooks(object):
    """Overridden hooks, for the library and for the judge"""
    KINDS = ("text", "whitespace", "case", "unf", "val", "slot", "item",
             "empty")

    def __init__(self, ctx, rng, names, kinds=None):
        self.ctx = ctx
        self.calls = []
        self.kinds = kinds or rng.sample(
            self.KINDS, rng.choice([1, 1, 1, 2, 3]))
        if "text" in self.kinds:        # (which is made of these)
            self.kinds = [k for k in self.kinds if k not in (
                "whitespace", "case", "unf")]
        lib, model = {}, {}
        said = []
        for kind in sorted(self.kinds, key=self.KINDS.index):
            name, f = cleanup(rng)
            said.append("%s: %s" % (kind, name))
            getattr(self, "add_" + kind)(rng, lib, model, f, names)
        self.lib = type("Hooked", (DiffOptions,), lib)
        self.model = type("HookedOpts", (Opts,), model)
        self.said = ", ".join(said)

    def add_text(self, rng, lib, model, f, names):
        first = rng.random() < .5
        alone = rng.random() < .3
        calls = self.calls

        def normalize_text(self, value):
            calls.append(("text", value))
            if alone:
                return f(value)
            if first:
                return DiffOptions.normalize_text(self, f(value))
            return f(DiffOptions.normalize_text(self, value))

        def text(self, v):
            return f(v) if alone else Opts.text(self, f(v)) if first else \
                f(Opts.text(self, v))
        lib["normalize_text"], model["text"] = normalize_text, text

    def part(self, rng, lib, model, f, method, option):
        """One of the steps of normalize_text"""
        calls = self.calls
        def hook(self, value):
            calls.append(("part", value))
            return f(value)
        lib[method] = hook
        steps = model.setdefault("steps", {})
        steps[option] = f

        def text(self, v):
            for name in ("ignore_ws", "ignore_case", "unicode_normal"):
                if getattr(self, name):
                    if name in self.steps:
                        v = self.steps[name](v)
                    else:
                        v = Opts(ignore_ws=name == "ignore_ws",
                                 ignore_case=name == "ignore_case",
                                 unicode_normal=name == "unicode_normal"
                                 ).text(v)
            return v
        model["text"] = text

    def add_whitespace(self, rng, lib, model, f, names):
        self.part(rng, lib, model, f, "normalize_whitespace", "ignore_ws")

    def add_case(self, rng, lib, model, f, names):
        self.part(rng, lib, model, f, "normalize_case", "ignore_case")

    def add_unf(self, rng, lib, model, f, names):
        self.part(rng, lib, model, f, "normalize_unf", "unicode_normal")

    def add_val(self, rng, lib, model, f, names):
        first = rng.random() < .5
        calls = self.calls

        def normalize_val(self, value=DiffOptions._nothing):
            calls.append(("val", value))
            if first:
                return DiffOptions.normalize_val(self, f(value))
            return f(DiffOptions.normalize_val(self, value))

        def value(self, v):
            return Opts.value(self, f(v)) if first else \
                f(Opts.value(self, v))
        lib["normalize_val"], model["value"] = normalize_val, value

    def add_slot(self, rng, lib, model, f, names):
        chosen = set(rng.sample(names, rng.randint(1, len(names))))
        ctx, calls = self.ctx, self.calls

        def normalize_slot(self, value=DiffOptions._nothing, prop=None):
            calls.append(("slot", value, prop))
            ctx.ok(prop is None or isinstance(prop, AnyProperty),
                   "normalize_slot called with property %r", prop)
            if prop is not None and prop.name in chosen:
                value = f(value)
            return DiffOptions.normalize_slot(self, value, prop)

        def slot(self, v, name):
            return self.value(f(v) if name in chosen else v)
        lib["normalize_slot"], model["slot"] = normalize_slot, slot

    def add_item(self, rng, lib, model, f, names):
        ctx, calls = self.ctx, self.calls

        def normalize_item(self, value=DiffOptions._nothing, coll=None,
                           index=None):
            calls.append(("item", value, coll, index))
            items = coll.__dict__["_values"] if isinstance(
                coll, Collection) else coll
            ctx.ok(items[index] is value or items[index] == value,
                   "normalize_item called with %r, for item %r of %r", value,
                   index, coll)
            return DiffOptions.normalize_item(self, f(value), coll, index)

        def item(self, v, compare_as=None):
            return Opts.item(self, f(v), compare_as)
        lib["normalize_item"], model["item"] = normalize_item, item

    def add_empty(self, rng, lib, model, f, names):
        more = rng.sample([0, 1, "a", "x", "A", "ab", "z"], 3)
        calls = self.calls

        def is_empty(v):
            return v is None or isinstance(v, (str, int)) and (
                v == "" or not isinstance(v, bool) and v in more)

        def value_is_empty(self, value):
            calls.append(("empty", value))
            return is_empty(value)
        lib["value_is_empty"] = value_is_empty
        model["is_empty"] = lambda self, v: is_empty(v)


def touch(x):
    """Compute its lazy attributes"""
    if isinstance(x, Record):
        for n in type(x).properties:
            touch(getattr(x, n, None))
    if isinstance(x, Collection):
        for k, v in items_of(x).items():
            touch(v)


def hooked(ctx, rng):
    w = World(rng)
    ctx.log("classes", "; ".join(w.describe()))
    names = sorted(set(n for r in w.recs for n in r.attrs))
    for _ in range(2):
        h = Hooks(ctx, rng, names)
        t = w.top_type()
        p, q = w.pair(t)
        a, b = p.build(), q.build()
        if w.o.p_coll_attr and rng.random() < .7:
            own_attributes(rng, t, a)
            own_attributes(rng, t, b)
        kw = option_sample(rng, .15, [n for n in Opts.NAMES if n not in (
            "ignore_case", "ignore_empty_slots")])
        if rng.random() < (.9 if "case" in h.kinds else .2):
            kw["ignore_case"] = True
        if rng.random() < (.9 if "empty" in h.kinds else .2):
            kw["ignore_empty_slots"] = True
        ctx.log("base", a, "other", b, "options", kw, "hooks", h.said)
        touch(a)
        touch(b)
        before = snapshot((a, b))
        o = h.lib(**kw)
        entries = entries_of(ctx.value(
            attempt(nd.diff, a, b, options=o), "diff"))
        ctx.log("entries", show(entries))
        bad = w.judge(h.model(**kw)).judge(a, b, entries)
        ctx.ok(bad is None, "with %s and hooks %s: %s; reported %s", kw,
               h.said, bad, show(entries))
        ctx.equal(snapshot((a, b)), before, "the records afterwards")
        ctx.ev("hooked")
        ctx.ev("calls", len(h.calls))
        for k in h.kinds:
            if h.calls:
                ctx.ev("hook " + k)
        ctx.sig(h.said, repr(sorted(map(repr, entries))))
        covered(ctx, h, o, t, a, b)
        if rng.random() < .6:
            again = entries_of(ctx.value(
                attempt(nd.diff, a, b, options=o), "again"))
            ctx.ok(again == entries, "using the options again: %s, then %s",
                   show(entries), show(again))
            p, q = w.pair(t)
            c, d = p.build(), q.build()
            entries = entries_of(ctx.value(
                attempt(nd.diff, c, d, options=o), "others"))
            bad = w.judge(h.model(**kw)).judge(c, d, entries)
            ctx.ok(bad is None, "used again on %r -> %r with %s and hooks "
                   "%s: %s; reported %s", c, d, kw, h.said, bad,
                   show(entries))
            ctx.ev("reused")


def covered(ctx, h, o, t, a, b):
    """Was the hook called for each attribute of the outermost records?"""
    if "slot" in h.kinds and t.kind == "rec":
        seen = set((id(c[1]), c[2].name) for c in h.calls
                   if c[0] == "slot" and c[2] is not None)
        for x in a, b:
            for n, p in type(x).properties.items():
                if p.extraneous and not o.extraneous or \
                        hasattr(p, "compare_as"):
                    continue
                v = getattr(x, n, UNSET)
                if v is UNSET:
                    continue
                ctx.ok((id(v), n) in seen, "normalize_slot was not called "
                       "for .%s of %r (%r)", n, x, v)
                ctx.ev("slots covered")
    if "item" in h.kinds and t.kind != "rec" and t.item.kind in (
            "int", "str"):
        if hasattr(type(a), "compare_item_as"):
            return
        seen = set((id(c[2]), c[3]) for c in h.calls if c[0] == "item")
        for x in a, b:
            for k in (range(len(x)) if t.kind == "list" else x.keys()):
                ctx.ok((id(x), k) in seen, "normalize_item was not called "
                       "for [%r] of %r", k, x)
                ctx.ev("items covered")


def items(ctx, rng):
    """Item hooks, on collections of plain values"""
    w = World(rng, kinds=["list", "dict", "str"],
              item_kinds=["int", "str"], p_pk=0)
    t = rng.choice([T("rec", rec=w.top), None]) or w.top_type()
    h = Hooks(ctx, rng, ["x"], ["item"] if rng.random() < .7 else
              ["item", rng.choice(["text", "val", "empty"])])
    p, q = w.pair(t)
    a, b = p.build(), q.build()
    kw = option_sample(rng, .2)
    ctx.log("base", a, "other", b, "options", kw, "hooks", h.said)
    o = h.lib(**kw)
    entries = entries_of(ctx.value(
        attempt(nd.diff, a, b, options=o), "diff"))
    bad = w.judge(h.model(**kw)).judge(a, b, entries)
    ctx.ok(bad is None, "with %s and hooks %s: %s; reported %s", kw, h.said,
           bad, show(entries))
    ctx.ev("hooked")
    ctx.ev("hook item")
    ctx.sig(h.said, repr(sorted(map(repr, entries))))
    covered(ctx, h, o, t, a, b)


def equality(ctx, rng):
    """items_equal decides whether an attribute was modified"""
    w = World(rng, compare=0, kinds=["int", "str", "any", "union", "bool",
                                     "rec", "list", "dict"],
              item_kinds=["int", "str"], p_coll_attr=0)
    ctx.log("classes", "; ".join(w.describe()))
    t = T("rec", rec=w.top)
    p, q = w.pair(t, rng.choice([1, 3, 6]))
    a, b = p.build(), q.build()
    name, same = rng.choice([
        ("always", lambda x, y: True), ("never", lambda x, y: False),
        ("near", lambda x, y: x == y or type(x) is type(y) is int and
         abs(x - y) <= 1),
        ("case", lambda x, y: x == y or isinstance(x, str) and
         isinstance(y, str) and x.lower() == y.lower()),
        ("first", lambda x, y: repr(x)[:2] == repr(y)[:2])])
    seen = []

    class Hooked(DiffOptions):
        def items_equal(self, x, y):
            seen.append((x, y))
            ctx.ok(not (isinstance(x, Record) and isinstance(y, Record)),
                   "items_equal called for records %r, %r", x, y)
            return same(x, y)

    class Model(Opts):
        def same(self, x, y):
            return same(x, y)

    kw = option_sample(rng, .2)
    ctx.log("base", a, "other", b, "options", kw, "equality", name)
    entries = entries_of(ctx.value(
        attempt(nd.diff, a, b, options=Hooked(**kw)), "diff"))
    bad = w.judge(Model(**kw)).judge(a, b, entries)
    ctx.ok(bad is None, "with %s and equality %s: %s; reported %s", kw, name,
           bad, show(entries))
    if seen:
        ctx.ev("equality")
    ctx.sig("equality", name, repr(sorted(map(repr, entries))))


def filters(ctx, rng):
    """is_filtered leaves out attributes"""
    w = World(rng)
    ctx.log("classes", "; ".join(w.describe()))
    names = sorted(set(n for r in w.recs for n in r.attrs))
    t = w.top_type()
    p, q = w.pair(t)
    a, b = p.build(), q.build()
    out = set(rng.sample(names, rng.randint(0, len(names))))
    by_path = rng.random() < .3
    seen = []

    class Hooked(DiffOptions):
        def is_filtered(self, prop, fs):
            path = list(fs)
            seen.append((prop.name, path))
            ctx.ok(path and path[-1] == prop.name, "is_filtered called with "
                   "property %r at %r", prop, fs)
            if prop.name in out and (not by_path or len(path) == 1):
                return True
            return DiffOptions.is_filtered(self, prop, fs)

    kw = option_sample(rng, .2, ("moved", "unchanged", "extraneous",
                                 "ignore_case", "fuzzy_match"))
    kw.pop("moved", None)
    kw["unchanged"] = False
    ctx.log("base", a, "other", b, "options", kw, "without", sorted(out))
    entries = entries_of(ctx.value(
        attempt(nd.diff, a, b, options=Hooked(**kw)), "diff"))
    whole = entries_of(ctx.value(attempt(nd.diff, a, b, **kw), "unfiltered"))

    def left_out(x, path):
        # (keys of dictionaries aren't attributes)
        for i, k in enumerate(path):
            if isinstance(x, Record) and k in type(x).properties:
                if k in out and (not by_path or i == 0):
                    return True
                x = getattr(x, k, None)
            else:
                x = items_of(x)[k]
        return False

    want = [e for e in whole if not left_out(a, e[1]) and
            not left_out(b, e[2])]
    ctx.ok(sorted(map(repr, entries)) == sorted(map(repr, want)),
           "%r -> %r with %s, without %s: %s, expected %s", a, b, kw,
           sorted(out), show(entries), show(want))
    if t.kind == "rec":
        for n in type(a).properties:
            ctx.ok((n, [n]) in seen, "is_filtered was not asked about %s", n)
    ctx.ev("filters")
    ctx.sig("filter", sorted(out), repr(sorted(map(repr, entries))))


def identities(ctx, rng):
    """record_id decides which items are the same"""
    keyed = rng.random() < .5
    names = ["k", "v", "w"]

    def declare(pk):
        d = dict((n, Property() if n == "w" else Property(isa=int))
                 for n in names)
        if pk:
            d["primary_key"] = [d[pk]]
        return new_class(Record, d, "Item")

    key = rng.choice(["k", "v"])
    plain = declare("k" if keyed else None)
    target_pk = declare(key)
    make = rng.choice([list_of, dict_of])
    seen = []

    def rows():
        return [dict((n, rng.randrange(4)) for n in names
                     if rng.random() < .9 or n == key)
                for _ in range(rng.randrange(6))]

    def unique(rs):
        have = {}
        for r in rs:
            have.setdefault(r[key], r)
        return list(have.values())

    one = unique(rows())
    two = unique(one[:] + rows())
    rng.shuffle(two)
    two = [dict(r, **({"w": rng.randrange(4)} if rng.random() < .4 else {}))
           for r in two if rng.random() < .8]

    def build(cls, rs):
        if make is list_of:
            return make(cls)([cls(**r) for r in rs])
        return make(cls)(dict(("k%d" % i, cls(**r))
                              for i, r in enumerate(rs)))

    class Hooked(DiffOptions):
        def record_id(self, record, *args, **kwargs):
            seen.append(record)
            return (getattr(record, key),)

    kw = option_sample(rng, .2, ("moved", "unchanged", "fuzzy_match"))
    a, b = build(plain, one), build(plain, two)
    ctx.log("base", a, "other", b, "options", kw, "identity", key)
    got = entries_of(ctx.value(
        attempt(nd.diff, a, b, options=Hooked(**kw)), "diff"))
    want = entries_of(ctx.value(attempt(
        nd.diff, build(target_pk, one), build(target_pk, two), **kw),
        "with a primary key"))
    ctx.ok(sorted(map(repr, got)) == sorted(map(repr, want)),
           "%r -> %r, items identified by %s, with %s: %s; with that primary "
           "key: %s", a, b, key, kw, show(got), show(want))
    for x in a, b:
        for v in (x if make is list_of else x.values()):
            ctx.ok(any(v is y for y in seen), "record_id was not called for "
                   "%r", v)
    if one or two:
        ctx.ev("identities")
    ctx.sig("identity", repr(sorted(map(repr, got))))


SCENARIOS = [("hooked", hooked, 2500, 25000),
             ("items", items, 1000, 8000),
             ("equality", equality, 1000, 8000),
             ("filters", filters, 900, 8000),
             ("identities", identities, 600, 5000)]
