"""C33: changed items of collections are compared with those most like them."""
from collections import Counter

import normalize.diff as nd
from mon.core import attempt
from mon.differ import Opts, entries_of, show
from mon.recmodel import new_class
from normalize import (
    DictProperty, JsonRecord, ListProperty, Property, Record)
from normalize.coll import DictCollection, dict_of, list_of
from normalize.diff import DiffOptions

RULE = (
    "a case declares an item class of 1-6 attributes (text, numbers, anything, "
    "records, extraneous ones) with a primary key of 0-3 of them, and compares "
    "two collections (lists, dicts, attributes, attributes of items of other "
    "collections) of 0-6 items which have many values in common, under the "
    "text, emptiness, moved, unchanged and matching options; an oracle takes "
    "the pairs from the entries and looks for better ones; non-trivial: "
    "distinct pairings of at least two items")
ASSUMPTIONS = [
    "which of several candidates is preferred is only judged if one agrees on "
    "all the other agrees on and disagrees on nothing else",
    "records within items are complete or not set"]
NEED = {"diffs": 3000, "fuzzy": 2000, "exact only": 300, "pairs": 3000,
        "unpaired": 2000, "rivals": 2000, "preferred": 500, "in list": 300,
        "in dict": 300, "attribute": 300, "nested": 300, "keyed": 500,
        "of one identity": 300, "inner": 300, "empty items": 50}

TEXTS = ["Ash", "ash", " Ash", "oak  tree", "oak tree", "", "elm", "\u00e9",
         "e\u0301", "fir"]


def item_class(rng, Inner):
    """-> (class, names which identify, {name: values})"""
    attrs, values = {}, {}
    for n in rng.sample(["a", "b", "c", "d", "e", "f"], rng.choice(
            [1, 2, 3, 3, 4, 4, 5, 6])):
        kind = rng.choice(["text", "int", "any", "int", "inner", "extraneous"])
        if kind == "text":
            attrs[n] = Property(isa=str)
            values[n] = rng.sample(TEXTS, rng.choice([2, 3, 5]))
        elif kind == "int":
            attrs[n] = Property(isa=int)
            values[n] = rng.sample([0, 1, 2, 3, 4, 5], rng.choice([2, 3, 6]))
        elif kind == "any":
            attrs[n] = Property()
            values[n] = rng.sample([0, 1, "x", "y", None, "", False, (1, 2),
                                    "X"], rng.choice([2, 3, 4]))
        elif kind == "inner":
            attrs[n] = Property(isa=Inner)
            values[n] = [dict(p=p, q=q) for p, q in rng.sample(
                [(1, 2), (3, 4), (5, 6)], 2)]
            if rng.random() < .4:
                values[n].append({})
        else:
            attrs[n] = Property(extraneous=True)
            values[n] = [1, 2]
    idn = sorted(n for n in attrs if not attrs[n].extraneous)
    pk = None
    if idn and rng.random() < .4:
        pk = rng.sample(idn, min(len(idn), rng.choice([1, 1, 2, 3])))
        idn = pk
    base = rng.choice([Record, Record, JsonRecord])
    if pk:
        attrs["primary_key"] = [attrs[n] for n in pk]
    return new_class(base, attrs), idn, values, pk is not None


# (a nested record of which nothing is set)
NOTHING = (None, None)


class Likeness(object):
    def __init__(self, opts, idn):
        self.o = opts
        self.idn = idn

    def clean(self, v):
        if isinstance(v, str):
            v = self.o.text(v)
        if self.o.ignore_empty_slots and v == "" and isinstance(v, str):
            v = None
        return v

    def ident(self, item):
        out = []
        for n in self.idn:
            v = item.get(n)
            if isinstance(v, dict):
                v = (v["p"], v["q"]) if v else NOTHING
            out.append(self.clean(v))
        return tuple(out)

    def common(self, x, y):
        """Which values two identities have in common, and which not"""
        same, not_same = set(), set()
        for i, (v, w) in enumerate(zip(x, y)):
            if v == w:
                if v and v != NOTHING:
                    same.add(i)
            else:
                not_same.add(i)
        return same, not_same

    @staticmethod
    def better(x, y):
        """Whether the likeness x is certainly better than y (None: alone)"""
        if y is None:
            return bool(x[0])
        return x[0] >= y[0] and x[1] <= y[1] and x != y


def some_items(rng, values, n, like=()):
    out = []
    for _ in range(n):
        if like and rng.random() < .75:
            item = dict(rng.choice(like))
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                k = rng.choice(sorted(values))
                if rng.random() < .25:
                    item.pop(k, None)
                else:
                    item[k] = rng.choice(values[k])
        else:
            item = dict((k, rng.choice(v)) for k, v in values.items()
                        if rng.random() < .8)
        out.append(item)
    return out


def scenario(ctx, rng):
    Inner = new_class(Record, {
        "p": Property(isa=int), "q": Property(isa=int)})
    cls, idn, values, keyed = item_class(rng, Inner)
    isdict = rng.random() < .35
    where = rng.choice(["top", "attribute", "nested", "in dict", "top"])
    prop = (DictProperty if isdict else ListProperty)(of=cls)
    Has = new_class(Record, {
        "its": prop, "n": Property(isa=int)})
    Outer = new_class(Record, {
        "k": Property(isa=int), "deep": Property(isa=Has),
        "its": (DictProperty if isdict else ListProperty)(of=cls)},)
    Keyed = new_class(Record, dict(
        (lambda k: {"k": k, "primary_key": [k], "its": (
            DictProperty if isdict else ListProperty)(of=cls)})(
                Property(isa=int))))
    ctx.log("item", idn, values, "keyed" if keyed else "", where,
            "dict" if isdict else "list")
    coll = dict_of(cls) if isdict else list_of(cls)
    for _ in range(6):
        kw = {}
        for k, p in (("ignore_case", .2), ("ignore_empty_slots", .25),
                     ("ignore_empty_items", .1), ("moved", .5),
                     ("unchanged", .4), ("extraneous", .2)):
            if rng.random() < p:
                kw[k] = True
        for k, p in (("fuzzy_match", .15), ("ignore_ws", .1),
                     ("unicode_normal", .1)):
            if rng.random() < p:
                kw[k] = False
        o = Opts(**kw)
        like = Likeness(o, idn)
        some = values
        if o.ignore_empty_slots:
            # (are nested records of which nothing is set empty?)
            some = dict((k, [x for x in v if x != {}])
                        for k, v in values.items())
        xs = some_items(rng, some, rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6]))
        ys = some_items(rng, some, rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6]),
                        xs)
        if not xs and not ys:
            continue
        if rng.random() < .25:
            ys = ys + [dict(rng.choice(ys + xs))]
        if rng.random() < .25:
            xs = xs + [dict(rng.choice(ys + xs))]
        if isdict:
            keys = ["k%d" % i for i in range(8)]
            xs = dict(zip(rng.sample(keys, len(xs)), xs))
            ys = dict(zip(rng.sample(keys, len(ys)), ys))
        else:
            xs, ys = dict(enumerate(xs)), dict(enumerate(ys))

        def content(d):
            d = dict((k, dict((n, Inner(**v) if isinstance(v, dict) else v)
                              for n, v in x.items())) for k, x in d.items())
            return d if isdict else list(d.values())
        x, y = content(xs), content(ys)
        if where == "top":
            prefix, a, b = (), coll(x), coll(y)
        elif where == "attribute":
            prefix, a, b = ("its",), Has(its=x, n=1), Has(its=y, n=1)
        elif where == "nested":
            prefix = ("deep", "its")
            a, b = (Outer(k=1, deep=Has(its=z)) for z in (x, y))
        else:
            prefix = ("me", "its")
            a, b = (dict_of(Keyed)({"me": {"k": 1, "its": z},
                                    "you": {"k": 2, "its": x}})
                    for z in (x, y))
        ctx.log("base", a, "other", b, "options", kw)
        entries = entries_of(ctx.value(attempt(
            nd.diff, a, b, options=DiffOptions(**kw)), "diff"))
        ctx.log("entries", show(entries))
        judge(ctx, like, o, xs, ys, prefix, entries)
        ctx.ev("diffs")
        ctx.ev("in dict" if isdict else "in list")
        ctx.ev({"attribute": "attribute", "nested": "nested",
                "in dict": "nested"}.get(where, "top"))
        if keyed:
            ctx.ev("keyed")
        if any(isinstance(v, dict) for d in (xs, ys) for i in d.values()
               for v in i.values()):
            ctx.ev("inner")


def judge(ctx, like, o, xs, ys, prefix, entries):
    n = len(prefix)
    pairs, removed, added = {}, set(), set()
    for kind, p, q in entries:
        if kind == "removed" and len(p) == n + 1 and len(q) == n:
            if p[:n] == prefix:
                removed.add(p[n])
        elif kind == "added" and len(q) == n + 1 and len(p) == n:
            if q[:n] == prefix:
                added.add(q[n])
        elif len(p) > n and len(q) > n and p[:n] == prefix == q[:n]:
            pairs.setdefault(p[n], set()).add(q[n])
    ids = [dict((k, like.ident(v)) for k, v in d.items()) for d in (xs, ys)]
    if o.ignore_empty_items:
        for d in ids:
            for k in [k for k, v in d.items() if all(
                    x is None or x == "" or x == NOTHING for x in v)]:
                del d[k]
                ctx.ev("empty items")
    # items of equal identity are each other's
    left = []
    counts = [Counter(d.values()) for d in ids]
    for k, v in ids[0].items():
        if k in pairs:
            ctx.ok(len(pairs[k]) == 1, "item %r is compared with %s", k,
                   pairs[k])
            l = min(pairs[k])
            ctx.ok(l in ids[1], "there's no item %r", l)
    exact = 0
    free = []
    partner = [{}, {}]
    for k, ls in pairs.items():
        l = min(ls)
        ctx.ok(l not in partner[1], "item %r of the other is compared with "
               "%r and %r", l, k, partner[1].get(l))
        ctx.ok(k in ids[0], "there's no item %r", k)
        partner[0][k] = l
        partner[1][l] = k
    for v in set(counts[0]) | set(counts[1]):
        both = min(counts[0][v], counts[1][v])
        for which, d, gone in ((0, ids[0], removed), (1, ids[1], added)):
            mine = [k for k in d if d[k] == v]
            # compared with one of another identity, or reported as missing
            away = [k for k in mine if k in gone or k in partner[which] and
                    ids[1 - which][partner[which][k]] != v]
            ctx.ok(len(away) == len(mine) - both,
                   "of the items %s with the identity %r in the %s, %d are in "
                   "both, but %s are reported as new, gone or changed", mine,
                   v, ("base", "other")[which], both, away)
            if both:
                ctx.ev("of one identity")
            left.append((which, away))
    A = [k for which, away in left if which == 0 for k in away]
    B = [k for which, away in left if which == 1 for k in away]
    fuzzy = dict((k, partner[0][k]) for k in A if k in partner[0])
    if not o.fuzzy_match:
        ctx.ok(not fuzzy, "no approximate matching was asked for, but %s are "
               "compared", fuzzy)
        ctx.ev("exact only")
        return
    ctx.ev("fuzzy")
    now = {}
    for k, l in fuzzy.items():
        now[k] = like.common(ids[0][k], ids[1][l])
        ctx.ok(now[k][0], "items %r and %r are compared, but have nothing in "
               "common: %r %r", k, l, xs[k], ys[l])
        ctx.ev("pairs")
    for k in A:
        for l in B:
            if fuzzy.get(k) == l and k in fuzzy:
                continue
            ctx.ev("rivals")
            c = like.common(ids[0][k], ids[1][l])
            mine = now.get(k)
            other = now.get(partner[1].get(l))
            better = like.better(c, mine) and like.better(c, other)
            ctx.ok(not better, "items %r (%r) and %r (%r) should be "
                   "compared, but %r is compared with %s, %r with %s", k,
                   xs[k], l, ys[l], k, fuzzy.get(k, "none"), l,
                   partner[1].get(l, "none"))
            if like.better(c, mine) != like.better(c, other):
                ctx.ev("preferred")
    ctx.ev("unpaired", len(A) + len(B) - 2 * len(fuzzy))
    if fuzzy and len(A) + len(B) > 2:
        ctx.sig(repr(sorted(ids[0].items(), key=repr)),
                repr(sorted(ids[1].items(), key=repr)))


SCENARIOS = [("pairing", scenario, 4000, 150000)]
