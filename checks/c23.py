"""C23: diffs are consistent under swapping, options and repetition."""
import normalize.diff as nd
from mon.core import attempt
from mon.differ import Opts, Sel, entries_of, mirrored, show
from mon.pairs import (
    WORDS, World, option_sample, own_attributes, respell)
from mon.recmodel import new_class
from mon.shapes import D, T
from normalize import Property, Record
from normalize.coll import Collection, DictCollection, ListCollection
from normalize.diff import DiffOptions

RULE = (
    "a case declares 1-4 related record classes and compares pairs of "
    "objects under random combinations of the options; a judge (which "
    "implements the documentation of each option) decides whether the "
    "entries are a true and complete account, and the results are related "
    "to those of the swapped, repeated and differently-optioned comparison, "
    "and to that of objects varied in what the option says is ignored; "
    "non-trivial: distinct option combinations and entries")
ASSUMPTIONS = [
    "the mirror image is judged where the pairing of items isn't ambiguous",
    "duck typing is judged against the comparison with the typed equivalent, "
    "where no attribute holding a record or collection is set on one side "
    "only", "no NaN"]
NEED = {"optioned": 2000, "swapped": 2000, "repeated": 2000,
        "unchanged_only_adds": 500, "moved_only_adds": 500,
        "emptied": 150, "empty_items": 100, "texts": 800,
        "ignored by ignore_ws": 100, "ignored by ignore_case": 10,
        "ignored by unicode_normal": 6, "ignored by default": 100, "duck": 300,
        "type_checks": 100, "other_types": 500, "hooks": 90}


def key(entries):
    return sorted(map(repr, entries))


def diff(ctx, a, b, what="diff", **kw):
    return entries_of(ctx.value(attempt(nd.diff, a, b, **kw), what))


def options(ctx, rng):
    w = World(rng)
    ctx.log("classes", "; ".join(w.describe()))
    for _ in range(3):
        t = w.top_type()
        p, q = w.pair(t)
        a, b = p.build(), q.build()
        own = w.o.p_coll_attr and rng.random() < .7
        if own:
            own_attributes(rng, t, a)
            own_attributes(rng, t, b)
        kw = option_sample(rng)
        ctx.log("base", a, "other", b, "options", kw)
        entries = diff(ctx, a, b, **kw)
        ctx.log("entries", show(entries))
        j = w.judge(Opts(**kw))
        bad = j.judge(a, b, entries)
        ctx.ok(bad is None, "with %s: %s; reported %s", kw, bad,
               show(entries))
        ctx.ev("optioned")
        ctx.sig(repr(sorted(kw)), repr(key(entries)))
        # swapped
        back = diff(ctx, b, a, "swapped", **kw)
        if not j.ambiguous:
            ctx.ok(key(mirrored(back)) == key(entries),
                   "with %s: %r -> %r gives %s, but the opposite direction "
                   "gives %s", kw, a, b, show(entries), show(back))
            ctx.ev("swapped")
        bad = w.judge(Opts(**kw)).judge(b, a, back)
        ctx.ok(bad is None, "swapped, with %s: %s; reported %s", kw, bad,
               show(back))
        # again; and on other objects like these
        again = diff(ctx, a, b, "again", **kw)
        ctx.equal(again, entries, "comparing again")
        if not own:
            again = diff(ctx, p.build(), q.build(), "again", **kw)
            ctx.ok(key(again) == key(entries), "comparing equal objects: %s, "
                   "then %s", show(entries), show(again))
        same = diff(ctx, a, a, "with itself", **dict(
            kw, unchanged=False, moved=False))
        ctx.equal(same, [], "compared with itself")
        ctx.ev("repeated")
        # options which only add
        if not kw.get("unchanged"):
            more = diff(ctx, a, b, "unchanged", **dict(kw, unchanged=True))
            ctx.ok(key(e for e in more if e[0] != "same") == key(entries),
                   "%r -> %r with %s: %s; with unchanged=True: %s", a, b, kw,
                   show(entries), show(more))
            ctx.ev("unchanged_only_adds")
            if not kw.get("moved"):
                more = diff(ctx, a, b, "moved", **dict(kw, moved=True))
                ctx.ok(key(e for e in more if e[0] != "moved") ==
                       key(entries), "%r -> %r with %s: %s; with "
                       "moved=True: %s", a, b, kw, show(entries), show(more))
                ctx.ev("moved_only_adds")


def texts(ctx, rng):
    """What the text options remove, for records of plain attributes"""
    long_ = rng.choice(["lorem ipsum ", u"\u00e9t\u00e9 "]) * rng.choice(
        [5, 12, 40])
    w = World(rng, compare=0, kinds=["str", "str", "str", "int", "rec",
                                     "any"], p_coll_attr=0,
              words=rng.choice([
                  [u"\u00e9", u"e\u0301", u"\u00c9", u"E\u0301"],
                  [u"\u212b", u"a\u030a", "a b", "A  B"],
                  ["a", "A", " a", "b"], WORDS,
                  [long_ + x for x in WORDS] +
                  [x + long_ for x in WORDS]]))
    top = w.top
    for a in list(top.attrs.values()):
        if a.type.kind.startswith("plain"):
            return
    ctx.log("classes", "; ".join(w.describe()))
    p, q = w.pair(T("rec", rec=top), rng.choice([1, 3]))
    for _ in range(rng.choice([2, 4, 8])):
        q = respell(rng, w.o, q)
    a, b = p.build(), q.build()
    strict = dict(ignore_ws=False, unicode_normal=False)
    base = diff(ctx, a, b, **strict)
    for name in ("ignore_ws", "ignore_case", "unicode_normal", "all",
                 "default"):
        kw = dict(strict, **{name: True})
        if name == "all":
            kw = dict.fromkeys(("ignore_ws", "ignore_case",
                                "unicode_normal"), True)
        elif name == "default":
            kw = {}
        o = Opts(**kw)

        def value(obj, path):
            for k in path:
                obj = getattr(obj, k)
            return o.value(obj)

        want = [e for e in base if e[0] != "modified" or
                value(a, e[1]) != value(b, e[2])]
        got = diff(ctx, a, b, **kw)
        ctx.ok(key(got) == key(want), "%r -> %r with %s: %s, expected %s", a,
               b, kw, show(got), show(want))
        ctx.ev("texts")
        if len(want) < len(base):
            ctx.ev("ignored by %s" % name, len(base) - len(want))
            ctx.sig("texts", name, repr(base))


def fill(rng, d, n):
    """Set some attributes which are not set to something empty"""
    for x in list(d.walk()):
        if x.kind == "rec":
            for name, a in x.type.attrs.items():
                if name in x.content or a.default or rng.random() < .5:
                    continue
                if a.type.kind == "str" or a.type.kind == "union" and any(
                        t.kind == "str" for t in a.type.alts):
                    x.content[name] = D("value", a.type, rng.choice(
                        ["", " "]))
                    n[0] += 1
                elif a.type.kind == "any":
                    x.content[name] = D("value", a.type, rng.choice(
                        ["", None]))
                    n[0] += 1


def empties(ctx, rng):
    """Empty slots and items make no difference when they're to be ignored"""
    w = World(rng, compare=0, p_none=.2)
    ctx.log("classes", "; ".join(w.describe()))
    for _ in range(2):
        t = T("rec", rec=w.top)
        p, q = w.pair(t)
        kw = dict(option_sample(rng), ignore_empty_slots=True)
        entries = diff(ctx, p.build(), q.build(), **kw)
        n = [0]
        fill(rng, p, n)
        fill(rng, q, n)
        a, b = p.build(), q.build()
        got = diff(ctx, a, b, **kw)
        if not kw.get("unchanged"):
            if kw.get("ignore_ws", True):
                ctx.ok(key(got) == key(entries), "with %s, empty values set "
                       "in %r -> %r make a difference: %s, %s without", kw,
                       a, b, show(got), show(entries))
                if n[0]:
                    ctx.ev("emptied")
                    ctx.sig("emptied", repr(a))
        # items
        p, q = w.pair(t)
        kw = dict(option_sample(rng), ignore_empty_items=True)
        entries = diff(ctx, p.build(), q.build(), **kw)
        n = 0
        for d in (p, q):
            for x in list(d.walk()):
                if x.kind not in ("list", "dict") or \
                        x.type.item.kind != "rec" or rng.random() < .4:
                    continue
                rec = x.type.item.rec
                if any((a.required or a.default) and
                       not a.extraneous and (not rec.pk or name in rec.pk)
                       or a.required for name, a in rec.attrs.items()):
                    continue
                item = D("rec", rec, {})
                if rec.pk and rng.random() < .5:
                    item = rec.desc(rng, w.o, 3)
                    for name in rec.pk:
                        item.content.pop(name, None)
                        if rec.attrs[name].type.kind == "str" and \
                                rng.random() < .5:
                            item.content[name] = D(
                                "value", rec.attrs[name].type, "")
                k = len(x.content) if x.kind == "list" else rng.choice(
                    [k for k in w.o.keys + ["new"]
                     if k not in dict(x.content)])
                x.content.append((k, item))
                n += 1
        # (ignored items still identify the items which they are in)
        inner = [x for d in (p, q) for x in d.walk()
                 if x.kind in ("list", "dict") and any(
                     y is not x and y.kind in ("list", "dict")
                     for y in x.walk())]
        if n and not inner and not kw.get("unchanged"):
            a, b = p.build(), q.build()
            got = diff(ctx, a, b, **kw)
            ctx.ok(key(got) == key(entries), "with %s, empty items in %r -> "
                   "%r make a difference: %s, %s without", kw, a, b,
                   show(got), show(entries))
            ctx.ev("empty_items")
            ctx.sig("empty items", repr(a))


class Alien(object):
    def __init__(self, attrs):
        self.__dict__.update(attrs)

    def __repr__(self):
        return "Alien(%r)" % (self.__dict__,)


def alien(d, items=True):
    if d.kind == "rec":
        return Alien(dict((n, alien(x)) for n, x in d.slots().items()))
    if d.kind == "list":
        return [alien(x) for k, x in d.content]
    if d.kind == "dict":
        return dict((k, alien(x)) for k, x in d.content)
    return d.build()


def duck(ctx, rng):
    w = World(rng, compare=0, p_coll_attr=0, kinds=[
        "int", "str", "str", "any", "rec", "list", "list", "dict", "date"])
    ctx.log("classes", "; ".join(w.describe()))
    p, q = w.pair(T("rec", rec=w.top))
    if q.type is not p.type:
        return
    a, b = p.build(), q.build()
    c = alien(q)
    kw = option_sample(rng, .15)
    for x, y in ((a, c), (c, a)):
        if isinstance(x, Record):
            ctx.raised(attempt(nd.diff, x, y, **kw), TypeError,
                       "comparing different types")
            ctx.ev("type_checks")
    entries = diff(ctx, a, b, **kw)
    for e in entries:
        if e[0] in ("added", "removed") and len(e[1]) == len(e[2]):
            return
    if kw.get("ignore_empty_slots"):
        return
    got = diff(ctx, a, c, "duck typing", duck_type=True, **kw)
    ctx.ok(key(got) == key(entries), "with %s: %r -> %r gives %s, duck typed "
           "%s", kw, a, c, show(entries), show(got))
    ctx.ev("duck")
    ctx.sig("duck", repr(key(got)))
    # same class: no difference
    got = diff(ctx, a, b, "duck typing", duck_type=True, **kw)
    ctx.ok(key(got) == key(entries), "with %s: %r -> %r gives %s, duck typed "
           "%s", kw, a, b, show(entries), show(got))


def types(ctx, rng):
    """Attributes of different types are a modification, not descended"""
    w = World(rng, compare=0, kinds=["union", "union", "rec", "int"])
    t = T("rec", rec=w.top)
    p, q = t.rec.desc(rng, w.o), t.rec.desc(rng, w.o)
    x, y = p.slots(), q.slots()
    a, b = p.build(), q.build()
    entries = diff(ctx, a, b)
    for n, attr in w.top.attrs.items():
        if attr.extraneous or n not in x or n not in y:
            continue
        if {x[n].kind, y[n].kind} == {"rec", "value"}:
            ctx.ok(("modified", (n,), (n,)) in entries and len(
                [e for e in entries if n in e[1][:1] + e[2][:1]]) == 1,
                "%r -> %r: %s", a, b, show(entries))
            ctx.ev("type_checks")
            ctx.sig("types", repr(a))


class Items(list):
    pass


class Map(dict):
    pass


def other_types(ctx, rng):
    """Values of different classes aren't compared in parts, whatever is in
    them, unless asked for duck typing; also if one is a subclass of the
    other"""
    names = rng.sample(["x", "y", "z"], rng.choice([1, 2, 3]))
    base = new_class(Record, dict((n, Property()) for n in names), "Base")
    sub = new_class(base, rng.choice([{}, {"w": Property()}]), "Sub")
    twin = new_class(Record, dict((n, Property()) for n in names), "Twin")
    coll = new_class(ListCollection, {"itemtype": int}, "L")
    coll2 = new_class(coll, {}, "L2")
    dicts = new_class(DictCollection, {"itemtype": int}, "D")
    dicts2 = new_class(dicts, {"note": Property()}, "D2")

    def content():
        return [rng.randrange(3) for _ in range(rng.choice([0, 1, 1, 2, 3]))]

    def rec(cls):
        return cls(**dict((n, rng.randrange(3)) for n in names
                          if rng.random() < .7))

    def mapping(cls):
        return cls(dict(zip(rng.sample("abc", 3), content())))
    groups = [
        [lambda: rec(base), lambda: rec(sub), lambda: rec(twin)],
        [lambda: content(), lambda: tuple(content()),
         lambda: Items(content()), lambda: coll(content()),
         lambda: coll2(content())],
        [lambda: mapping(dict), lambda: mapping(Map),
         lambda: mapping(dicts), lambda: mapping(dicts2)]]
    makers = rng.choice(groups) if rng.random() < .8 else sum(groups, [])
    one, two = rng.sample(makers, 2)
    x, y = one(), two()
    isa = {}
    if isinstance(x, base) and isinstance(y, base) and rng.random() < .6:
        isa = {"isa": base}
    elif isinstance(x, coll) and isinstance(y, coll) and rng.random() < .6:
        isa = {"isa": coll}
    elif isinstance(x, list) and isinstance(y, list) and rng.random() < .5:
        isa = {"isa": list}
    holder = new_class(Record, {"n": Property(**isa),
                                "m": Property()}, "Holder")
    a, b = holder(n=x, m=1), holder(n=y, m=1)
    equal = attempt(lambda: x == y)
    if not equal.ok or type(equal.value) is not bool:
        ctx.ev("types_unjudged")
        return
    kw = option_sample(rng, .3, ("moved", "extraneous", "fuzzy_match",
                                 "ignore_empty_items", "ignore_empty_slots",
                                 "ignore_case", "recurse"))
    ctx.log("%r -> %r" % (x, y), kw, isa)
    got = attempt(diff, ctx, a, b, **kw)
    got = ctx.value(got, "comparing %r with %r, options %r" % (x, y, kw))
    want = [] if equal.value else [("modified", ("n",), ("n",))]
    ctx.ok(list(got) == want, "comparing %r with %r, options %r: %s, "
           "not %r", x, y, kw, show(got), want)
    ctx.ev("other_types")
    if isinstance(x, Record):
        got = attempt(lambda: list(nd.diff_iter(x, y, **kw)))
        ctx.raised(got, TypeError, "comparing %r with %r, options %r" % (
            x, y, kw))
    ctx.sig(type(x).__name__, type(y).__name__, want, sorted(kw.items()))


def hooks(ctx, rng):
    """Options made by overriding the hooks act like what they implement"""
    w = World(rng, compare=0)
    p, q = w.pair(T("rec", rec=w.top))
    a, b = p.build(), q.build()
    kw = option_sample(rng, .2, ("moved", "unchanged", "extraneous"))
    which = rng.randrange(3)
    seen = []
    if which == 0:
        class Hooked(DiffOptions):
            def normalize_text(self, value):
                seen.append(value)
                return super(Hooked, self).normalize_text(value).upper()
        # (upper case comes before the Unicode form)
        words = [x.content for d in (p, q) for x in d.walk()
                 if x.kind == "value" and isinstance(x.content, str)]
        if not all(map(lambda s: s.isascii(), words)):
            return
        want = diff(ctx, a, b, ignore_case=True, **kw)
    elif which == 1:
        class Hooked(DiffOptions):
            def normalize_whitespace(self, value):
                seen.append(value)
                return value
        want = diff(ctx, a, b, ignore_ws=False, **kw)
    else:
        class Hooked(DiffOptions):
            def normalize_unf(self, value):
                seen.append(value)
                return value
        want = diff(ctx, a, b, unicode_normal=False, **kw)
    got = diff(ctx, a, b, options=Hooked(**kw))
    ctx.ok(key(got) == key(want), "%r -> %r with hook %d: %s, not %s", a, b,
           which, show(got), show(want))
    if seen:
        ctx.ev("hooks")


SCENARIOS = [("options", options, 1100, 40000),
             ("texts", texts, 1000, 10000),
             ("empties", empties, 1200, 15000),
             ("duck", duck, 600, 12000),
             ("types", types, 200, 3000),
             ("other_types", other_types, 700, 8000),
             ("hooks", hooks, 250, 4000)]
