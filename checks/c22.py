"""C22: a diff is empty exactly when there is no difference, and every entry
is true."""
import unicodedata

import normalize.diff as nd
import normalize.exc as exc
from mon.core import attempt
from mon.differ import KINDS, Judge, Opts, Sel, entries_of, items_of, show
from mon.pairs import World, own_attributes
from mon.recmodel import new_class
from mon.shapes import D, T, reworded, snapshot
from normalize import Property, Record
from normalize.coll import Collection, DictCollection
from normalize.diff import Diff, DiffInfo, DiffOptions, DiffTypes
from normalize.selector import FieldSelector

RULE = (
    "a case declares 1-4 related record classes (nested records, typed lists "
    "and dicts, unions, primary keys, defaults, lazy and extraneous "
    "attributes, comparison functions, collections with attributes) and "
    "compares pairs of objects which differ by 0-5 edits or respellings, or "
    "are unrelated, with and without the moved and unchanged options; a judge "
    "walks both objects and decides whether the reported entries are a true "
    "and complete account; non-trivial: distinct sets of entries")
ASSUMPTIONS = [
    "which of several sensible pairings of unkeyed items is reported is not "
    "judged, only that the account is true for the reported pairing",
    "several items of one identity are paired in order of appearance, so "
    "their order may matter",
    "items of compared collections hold no plain lists or dicts (they cannot "
    "identify an item); collections of plain values within items identify "
    "these as they are", "collections of one item type, not of a union",
    "no NaN"]
NEED = {"diffs": 4000, "fuzzy pairs": 300, "pairs": 1200, "added": 400,
        "removed": 400, "modified": 1000, "same": 3000, "item added": 400,
        "item removed": 400, "item modified": 250, "item moved": 150,
        "items added": 500, "items removed": 500, "items untouched": 1000,
        "paths": 3000, "respelled": 300, "one_edit": 300, "api": 100, "parts": 600}


def at_path(obj, path):
    """-> what's at the path, and whether it's an attribute of a dictionary;
    by the monitors' own walk"""
    own = False
    for k in path:
        if isinstance(obj, DictCollection) and k in type(obj).properties:
            own = True
        if isinstance(obj, Collection) and k not in type(obj).properties:
            obj = items_of(obj)[k]
        elif isinstance(obj, Record):
            obj = getattr(obj, k)
        else:
            obj = obj[k]
    return obj, own


def random_pairs(ctx, rng):
    w = World(rng)
    ctx.log("classes", "; ".join(w.describe()))
    for _ in range(4):
        t = w.top_type()
        p, q = w.pair(t)
        a, b = p.build(), q.build()
        if w.o.p_coll_attr and rng.random() < .7:
            own_attributes(rng, t, a)
            own_attributes(rng, t, b)
        kw = {}
        if rng.random() < .4:
            kw["moved"] = True
        if rng.random() < .4:
            kw["unchanged"] = True
        ctx.log("base", a, "other", b, "options", kw)
        found = ctx.value(attempt(nd.diff, a, b, **kw), "diff")
        entries = entries_of(found)
        ctx.log("entries", show(entries))
        j = w.judge(Opts(**kw))
        bad = j.judge(a, b, entries)
        ctx.ok(bad is None, "%s; reported %s", bad, show(entries))
        ctx.ev("diffs")
        for k, n in j.stats.items():
            ctx.ev(k, n)
        ctx.sig(repr(sorted(map(repr, entries))))
        for d in found:
            for kind, fs, obj in ((DiffTypes.ADDED, d.base, a),
                                  (DiffTypes.REMOVED, d.other, b)):
                if d.diff_type is kind and len(d.base) == len(d.other):
                    continue        # (an attribute which isn't set)
                want, own = at_path(obj, list(fs))
                if own:
                    continue    # (selectors mean items by strings)
                got = attempt(fs.get, obj)
                ctx.ok(got.ok and got.value is want or got.value == want,
                       "%s of %r: %r, not %r", fs, obj, got, want)
                ctx.ev("paths")


def respelled(ctx, rng):
    """Same up to the spelling of text, and the position of items"""
    w = World(rng, compare=0)
    ctx.log("classes", "; ".join(w.describe()))
    t = w.top_type()
    p = t.rec.desc(rng, w.o, -1) if t.kind == "rec" else t.desc(
        rng, w.o, -1)
    q = p.copy()
    moves = [0]
    judge = w.judge(Opts())

    def respell(d, item=False):
        if d.kind == "value":
            if isinstance(d.content, str) and not getattr(
                    d.type, "alts", None) and rng.random() < .6:
                d.content = rng.choice([
                    lambda s: " " + s, lambda s: s.replace(" ", " \n\t"),
                    lambda s: unicodedata.normalize("NFD", s),
                    lambda s: unicodedata.normalize("NFC", s),
                    lambda s: s + "  ", lambda s: u"\u3000" + s])(d.content)
        elif d.kind == "rec":
            for x in d.content.values():
                respell(x, item)
        else:
            # (items of simple collections within items identify these)
            if not (item and d.type.item.kind != "rec"):
                for k, x in d.content:
                    respell(x, item or x.kind != "value")
            if d.kind == "list" and not item and rng.random() < .6:
                values = [x for k, x in d.content]
                rng.shuffle(values)
                # (of several items with one identity, the order matters)
                built = [x.build() for x in values if x.kind == "rec"]
                ids = set(judge.ident(x, Sel.ALL) for x in built)
                if len(ids) == len(set(judge.canon(x, Sel.ALL)
                                       for x in built)):
                    d.content = list(enumerate(values))
                    moves[0] += 1

    respell(q)
    a, b = p.build(), q.build()
    ctx.log("base", a, "other", b)
    entries = entries_of(ctx.value(attempt(nd.diff, a, b), "diff"))
    ctx.ok(not entries, "same but for spelling and positions: %r -> %r: %s",
           a, b, show(entries))
    ctx.ev("respelled")
    if moves[0]:
        ctx.ev("reordered")
    # only moves may be reported when asked
    entries = entries_of(ctx.value(attempt(nd.diff, a, b, moved=True),
                                   "diff"))
    bad = w.judge(Opts(moved=True)).judge(a, b, entries)
    ctx.ok(bad is None and all(e[0] == "moved" for e in entries),
           "%s; %r -> %r: %s", bad, a, b, show(entries))
    ctx.sig("respelled", repr(a))


def one_edit(ctx, rng):
    """One change of one attribute, not within collections: one entry"""
    w = World(rng, compare=0, p_coll_attr=0)
    ctx.log("classes", "; ".join(w.describe()))
    p = w.top.desc(rng, w.o, -1)
    q = p.copy()
    d, path = q, ()
    while True:
        n = rng.choice(sorted(d.type.attrs))
        x = d.content.get(n)
        path += (n,)
        if x is not None and x.kind == "rec" and x.type.attrs and \
                rng.random() < .8 and not d.type.attrs[n].extraneous:
            d = x
            continue
        break
    attr = d.type.attrs[n]
    slots = d.slots()
    old = slots.get(n)
    if attr.extraneous:
        new, want = attr.type.desc(rng, w.o, 2), []
    elif n in d.content and not attr.required and not attr.default and \
            rng.random() < .3:
        new, want = None, [("removed", path, path)]
    else:
        new = attr.type.desc(rng, w.o, 2)
        if old is None:
            want = [("added", path, path)]
        elif old.kind != "value" and new.kind == old.kind and \
                new.type is old.type:
            return                      # (compared item by item)
        elif old.kind == new.kind == "value":
            j = Judge(Opts())
            x, y = j.o.value(old.content), j.o.value(new.content)
            if isinstance(x, (list, dict)) and type(x) is type(y):
                return
            want = [] if x == y else [("modified", path, path)]
        else:
            want = [("modified", path, path)]
    if new is None:
        del d.content[n]
    else:
        d.content[n] = new
    a, b = p.build(), q.build()
    ctx.log("base", a, "other", b)
    entries = entries_of(ctx.value(attempt(nd.diff, a, b), "diff"))
    ctx.equal(entries, want, "comparing %r with %r" % (a, b))
    ctx.ev("one_edit")
    ctx.sig("edit", repr(want))


def api(ctx, rng):
    """All ways of asking give the same, in the promised form"""
    w = World(rng)
    p, q = w.pair(T("rec", rec=w.top))
    a, b = p.build(), q.build()
    kw = {}
    if rng.random() < .5:
        kw["moved"] = True
    if rng.random() < .5:
        kw["unchanged"] = True
    ctx.log("classes", "; ".join(w.describe()))
    ctx.log("base", a, "other", b, "options", kw)
    found = ctx.value(attempt(nd.diff, a, b, **kw), "diff")
    ctx.ok(isinstance(found, Diff), "diff() returned %s", type(found))
    ctx.equal(found.base_type_name, type(a).__name__, "base_type_name")
    ctx.equal(found.other_type_name, type(b).__name__, "other_type_name")
    entries = entries_of(found)
    for d in found:
        ctx.ok(isinstance(d, DiffInfo) and d.diff_type in KINDS and
               isinstance(d.base, FieldSelector) and
               isinstance(d.other, FieldSelector), "entry %r", d)
    for name, fn in (
            ("record.diff", lambda: a.diff(b, **kw)),
            ("record.diff_iter", lambda: list(a.diff_iter(b, **kw))),
            ("diff_iter", lambda: list(nd.diff_iter(a, b, **kw))),
            ("diff(options=)", lambda: nd.diff(
                a, b, options=DiffOptions(**kw)))):
        got = entries_of(ctx.value(attempt(fn), name))
        ctx.ok(sorted(map(repr, got)) == sorted(map(repr, entries)),
               "%s gives %s, diff() gave %s", name, show(got), show(entries))
    text = ctx.value(attempt(str, found), "str(diff)")
    ctx.ok("%d diff(s)" % len(entries) in text, "str(diff) is %s", text)
    ctx.raised(attempt(nd.diff, a, b, options=DiffOptions(), moved=True),
               exc.DiffOptionsException, "options twice")
    other = rng.choice(w.recs)
    if other is not w.top:
        c = other.desc(rng, w.o).build()
        ctx.raised(attempt(nd.diff, a, c), TypeError, "other class")
        ctx.raised(attempt(nd.diff, c, a), TypeError, "other class")
    ctx.ev("api")
    ctx.sig("api", text)


def parts(ctx, rng):
    """The comparisons of each kind of object, by themselves"""
    w = World(rng, p_coll_attr=0)
    t = w.top_type()
    p, q = w.pair(t)
    a, b = p.build(), q.build()
    ctx.log("base", a, "other", b)
    fns = {"record": nd.compare_record_iter}
    if isinstance(a, Collection):
        fns["collection"] = nd.compare_collection_iter
        if not issubclass(type(a).itemtype, Record):
            fns["simple"] = nd.compare_dict_iter if isinstance(
                a, DictCollection) else nd.compare_list_iter
    want = sorted(map(repr, entries_of(ctx.value(
        attempt(nd.diff, a, b), "diff"))))
    at = FieldSelector(["x", 0]), FieldSelector(["y"])
    for name, fn in fns.items():
        entries = entries_of(ctx.value(attempt(
            lambda: list(fn(a, b))), name))
        if len(fns) == 1 or name != "record":
            ctx.ok(sorted(map(repr, entries)) == want,
                   "comparing as a %s: %s", name, show(entries))
        else:
            ctx.equal(entries, [], "attributes")
        there = entries_of(ctx.value(attempt(
            lambda: list(fn(a, b, at[0], at[1], DiffOptions()))), name))
        ctx.ok(sorted(map(repr, there)) == sorted(repr(
            (k, tuple(at[0]) + x, tuple(at[1]) + y)) for k, x, y in entries),
            "elsewhere, %s instead of %s", show(there), show(entries))
        ctx.ev("parts")
    # plain lists and dictionaries
    for kind, fn in (("plainlist", nd.compare_list_iter),
                     ("plaindict", nd.compare_dict_iter)):
        t = T(kind)
        x, y = t.gen(rng, w.o), t.gen(rng, w.o)
        if rng.random() < .3:
            y = reworded(rng, x)
        entries = entries_of(ctx.value(attempt(
            lambda: list(fn(x, y))), kind))
        j = w.judge(Opts())
        bad = j.judge(x, y, entries)
        ctx.ok(bad is None, "%s; %r -> %r: %s", bad, x, y, show(entries))
        for f in nd.diff, nd.diff_iter:
            other = entries_of(ctx.value(attempt(
                lambda: list(f(x, y))), "diff"))
            ctx.ok(sorted(map(repr, other)) == sorted(map(repr, entries)),
                   "%s, not %s", show(other), show(entries))
        ctx.ev("parts")
    ctx.sig("parts", repr(a), repr(b))


SCENARIOS = [("random-pairs", random_pairs, 1500, 60000),
             ("respelled", respelled, 400, 12000),
             ("one-edit", one_edit, 500, 10000),
             ("api", api, 150, 3000),
             ("parts", parts, 300, 5000)]
