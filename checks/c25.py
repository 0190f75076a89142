"""C25: visiting reaches every selected slot once, and casting inverts it."""
from collections import Counter

import normalize.exc as exc
from mon.core import attempt
from mon.differ import UNSET, Sel, sub
from mon.pairs import World, a_filter, own_attributes
from mon.recmodel import new_class
from mon.shapes import D, T, snapshot
from normalize import JsonRecord, Property, Record
from normalize.coll import Collection, DictCollection, ListCollection
from normalize.selector import FieldSelector, MultiFieldSelector
from normalize.visitor import VisitorPattern

RULE = (
    "a case declares 1-4 related record classes (nested records, typed lists "
    "and dicts, unions, defaults, lazy and extraneous attributes, collections "
    "with attributes of their own), and visits and casts instances with "
    "recording conversions under random options and filters; the calls "
    "(value, attribute, path) and the result are judged against a walk of "
    "the declared types by the monitor; non-trivial: distinct results with "
    "several calls")
ASSUMPTIONS = [
    "no cycles", "at most one record or collection type in a union",
    "filters are not combined with attributes of collections"]
NEED = {"visits": 2500, "calls": 15000, "item calls": 1500,
        "filtered": 700, "left out": 1000, "empty slots": 800, "casts": 2500,
        "roundtrips": 2000, "dropped": 300, "garbage": 600, "stopped": 150,
        "prop errors": 150, "unchanged": 2500, "undeclared": 200,
        "plain collections": 100,
        "default conversion": 500}


def touch(value):
    """Compute everything lazy"""
    if isinstance(value, Record):
        for name in list(type(value).properties):
            touch(getattr(value, name, None))
        if isinstance(value, Collection):
            for v in [x for k, x in value.itertuples()]:
                touch(v)


class Walk(object):
    """What a visit of a value ought to do"""
    def __init__(self, extraneous=False, sel=Sel.ALL, empty=False,
                 none=True, string=False, convert=None):
        self.extraneous, self.sel, self.empty = extraneous, sel, empty
        self.none, self.string, self.convert = none, string, convert
        self.calls = []
        self.dropped = 0
        self.left_out = 0

    def slots(self, cls, sel):
        for name, prop in cls.properties.items():
            if prop.extraneous and not self.extraneous or sub(
                    sel, name) is None:
                self.left_out += 1
            else:
                yield name, prop

    def leaf(self, value, name, path):
        self.calls.append((value, name, path))
        return self.convert(value, name, path)

    def keep(self, v):
        keep = not (v is None and self.none or self.string and
                    isinstance(v, str) and v == "")
        self.dropped += not keep
        return keep

    def value(self, v, path=(), sel=None, name=None):
        """-> converted"""
        if not isinstance(v, Record):
            return self.leaf(v, name, path)
        sel = self.sel if not path else sel
        out = {}
        slots = list(self.slots(type(v), sel))
        for name, prop in slots:
            x = getattr(v, name, UNSET)
            at = path + (name,)
            if x is UNSET:
                if not self.empty:
                    continue
                x = self.leaf(UNSET, name, at)
            else:
                x = self.value(x, at, sub(sel, name), name)
            if self.keep(x):
                out[name] = x
        if isinstance(v, Collection):
            values = v.__dict__["_values"]
            items = []
            for k, x in (values.items() if isinstance(values, dict)
                         else enumerate(values)):
                s = sub(sel, k)
                if s is None:
                    self.left_out += 1
                    continue
                x = self.value(x, path + (k,), s)
                if self.keep(x):
                    items.append((k, x))
            items = dict(items) if isinstance(values, dict) else [
                x for k, x in items]
            if not slots:
                return items
            out["values"] = items
        return out


class Recorder(object):
    """Visitor patterns which record the calls of the conversions"""
    def __init__(self, convert):
        calls = self.calls = []

        class Pattern(VisitorPattern):
            @classmethod
            def apply(cls, value, prop, visitor):
                calls.append((value, prop, visitor.field_selector))
                return convert(
                    UNSET if isinstance(value, (AttributeError, KeyError))
                    else value, prop and prop.name,
                    tuple(visitor.field_selector))

            reverse = apply
        self.pattern = Pattern

    def told(self, ctx, top):
        """-> calls in a comparable form"""
        out = []
        for value, prop, fs in self.calls:
            if isinstance(value, (AttributeError, KeyError)):
                value = UNSET
            ctx.ok(isinstance(fs, FieldSelector), "field_selector is %r", fs)
            path = tuple(fs)
            if prop is not None:
                ctx.ok(path and prop.name == path[-1], "called with %s at "
                       "%s", prop.name, path)
            out.append((value, prop and prop.name, path))
        self.calls[:] = []
        return out


def same_calls(a, b):
    def key(calls):
        return sorted((repr(p), n or "", type(v).__name__, repr(v))
                      for v, n, p in calls)
    return key(a) == key(b)


def identity(v, name, path):
    return None if v is UNSET else v


def marked(v, name, path):
    return ("converted", repr(v), name, path)


def spotty(rng):
    """Some values are converted to None, some to the empty string"""
    salt = rng.randrange(1000)

    def convert(v, name, path):
        n = sum(map(ord, repr((salt, path)))) % 4
        return [None, "", 0, [v, name]][n]
    return convert


def plain_copy(x):
    if isinstance(x, dict):
        return dict((k, plain_copy(v)) for k, v in x.items())
    if isinstance(x, list):
        return [plain_copy(v) for v in x]
    return x


def describe(ctx, w):
    ctx.log("classes", "; ".join(w.describe()))


def options(rng):
    kw = {}
    if rng.random() < .3:
        kw["extraneous"] = True
    if rng.random() < .3:
        kw["apply_empty_slots"] = True
    if rng.random() < .3:
        kw["ignore_none"] = False
    if rng.random() < .3:
        kw["ignore_empty_string"] = True
    return kw


def walk_for(kw, sel=Sel.ALL, convert=None):
    return Walk(kw.get("extraneous", False), sel,
                kw.get("apply_empty_slots", False),
                kw.get("ignore_none", True),
                kw.get("ignore_empty_string", False), convert)


def visits(ctx, rng):
    w = World(rng, compare=0)
    describe(ctx, w)
    for _ in range(3):
        t = w.top_type()
        d = t.rec.desc(rng, w.o, -1) if t.kind == "rec" else t.desc(
            rng, w.o, -1)
        a = d.build()
        kw = options(rng)
        sel, f = Sel.ALL, None
        if w.o.p_coll_attr:
            if rng.random() < .8:
                own_attributes(rng, t, a)
        elif rng.random() < .5:
            f = a_filter(rng, t, [d])
            sel = Sel.of(f)
            kw[rng.choice(["filter", "visit_filter"])] = rng.choice(
                [f, MultiFieldSelector(*f), [FieldSelector(x) for x in f]])
        if rng.random() < .7:
            touch(a)
            before = snapshot(a, True)
        else:
            before = None       # (visiting computes what's lazy)
        convert = rng.choice([identity, marked, spotty(rng)])
        rec = Recorder(convert)
        ctx.log("visit", a, kw)
        args = (a,)
        if isinstance(a, Collection) and not type(a).properties and \
                rng.random() < .5:
            # the same, not in a typed collection
            raw = dict(a.itertuples()) if isinstance(
                a, DictCollection) else list(a)
            args = (raw, type(a))
            ctx.ev("plain collections")
        elif rng.random() < .2:
            args = (a, type(a))
        got = ctx.value(attempt(rec.pattern.visit, *args, **kw), "visit")
        if before:
            ctx.equal(snapshot(a, True), before, "visiting changed it")
            ctx.ev("unchanged")
        m = walk_for(kw, sel, convert)
        want = m.value(a)
        calls = rec.told(ctx, a)
        ctx.ok(same_calls(calls, m.calls), "visiting %r with %s called the "
               "conversion with %s, not %s", a, kw, calls, m.calls)
        ctx.ok(snapshot(got) == snapshot_like(want, got), "visiting %r with "
               "%s gave %r, not %r", a, kw, got, want)
        ctx.ev("visits")
        if convert is identity:
            # which is what there is by default
            ctx.ok(snapshot(ctx.value(attempt(
                VisitorPattern.visit, *args, **kw), "visit")) ==
                snapshot(got), "by default, visiting %r with %s gives other "
                "than %r", a, kw, got)
            ctx.ev("default conversion")
        ctx.ev("calls", len(calls))
        ctx.ev("item calls", sum(1 for v, n, p in calls if n is None))
        ctx.ev("empty slots", sum(1 for v, n, p in calls if v is UNSET))
        ctx.ev("dropped", m.dropped)
        if f:
            ctx.ev("filtered")
        ctx.ev("left out", m.left_out)
        if len(calls) > 2:
            ctx.sig("visit", repr(sorted(kw)), repr(want))


def snapshot_like(want, got):
    """Order of attributes doesn't matter, nor that of dict items; that of
    lists does"""
    def sort_as(w, g):
        if isinstance(w, dict) and isinstance(g, dict):
            keys = [k for k in g if k in w] + [k for k in w if k not in g]
            return dict((k, sort_as(w[k], g.get(k))) for k in keys)
        if isinstance(w, list) and isinstance(g, list):
            return [sort_as(x, g[i] if i < len(g) else None)
                    for i, x in enumerate(w)]
        return w
    return snapshot(sort_as(want, got))


def roundtrips(ctx, rng):
    w = World(rng, compare=0, p_required=rng.choice([0, .1]))
    describe(ctx, w)
    for _ in range(3):
        t = w.top_type()
        d = t.rec.desc(rng, w.o, -1) if t.kind == "rec" else t.desc(
            rng, w.o, -1)
        a = d.build()
        own = w.o.p_coll_attr and rng.random() < .8
        if own:
            own_attributes(rng, t, a)
        kw = {}
        if rng.random() < .3 or any(
                at.extraneous and at.required for r in w.recs
                for at in r.attrs.values()):
            kw["extraneous"] = True
        touch(a)
        m = walk_for(kw, convert=identity)
        m.value(a)
        if m.dropped or rng.random() < .2:
            # (what's dropped would be missed)
            kw["ignore_none"] = False
        ctx.log("visit", a, kw)
        rec = Recorder(identity)
        plain = ctx.value(attempt(rec.pattern.visit, a, **kw), "visit")
        rec.told(ctx, a)
        before = snapshot(plain, True)
        ctx.log("plain", plain)
        cast = ctx.value(attempt(rec.pattern.cast, type(a), plain, **kw),
                         "cast")
        ctx.equal(snapshot(plain, True), before, "casting changed its input")
        ctx.ev("unchanged")
        ctx.ok(type(cast) is type(a), "cast to %s gave %s", type(a),
               type(cast))
        ctx.ok(cast == a, "%r visited gives %r, which is cast to %r", a,
               plain, cast)
        calls = rec.told(ctx, a)
        ctx.ok(same_calls(calls, m.calls), "casting %r called the "
               "conversion with %s, not %s", plain, calls, m.calls)
        ctx.ev("cast calls", len(calls))
        again = ctx.value(attempt(VisitorPattern.visit, cast, **kw),
                          "visit again")
        ctx.ok(snapshot(again) == snapshot_like(plain, again),
               "%r, cast from %r, is visited as %r", cast, plain, again)
        ctx.ev("roundtrips")
        ctx.ev("casts")
        ctx.sig("roundtrip", repr(plain))
        # with the extraneous attributes, everything is the same
        if kw.get("extraneous"):
            for x, y, at in both(a, cast):
                ctx.ok(x == y, "%s was %r, is %r after casting", at, x, y)


def both(a, b, path=()):
    """Pairs of attributes of both, at any depth"""
    if isinstance(a, Record):
        for n in type(a).properties:
            if n == "unknown_json_keys":
                continue
            x, y = getattr(a, n, UNSET), getattr(b, n, UNSET)
            yield x, y, path + (n,)
            for z in both(x, y, path + (n,)):
                yield z
        if isinstance(a, Collection):
            y = dict(b.itertuples())
            for k, x in a.itertuples():
                yield x, y.get(k, UNSET), path + (k,)
                for z in both(x, y.get(k, UNSET), path + (k,)):
                    yield z


def casts(ctx, rng):
    """Casting with options and filters: the conversion is called for what's
    declared, selected and there"""
    w = World(rng, compare=0, p_required=0, p_coll_attr=0, p_none=0)
    describe(ctx, w)
    for _ in range(2):
        t = w.top_type()
        d = t.rec.desc(rng, w.o, -1) if t.kind == "rec" else t.desc(
            rng, w.o, -1)
        a = d.build()
        kw = options(rng)
        touch(a)
        plain = VisitorPattern.visit(a, ignore_none=False,
                                     extraneous=kw.get("extraneous", False))
        kw.pop("ignore_none", None)
        kw.pop("ignore_empty_string", None)
        sel = Sel.ALL
        f = None
        if not kw.get("extraneous") and rng.random() < .6:
            # (JSON collections have an extraneous attribute)
            f = a_filter(rng, t, [d])
            # (by position in what's converted, for lists)
            sel = Sel.of(f)
            kw["visit_filter"] = f
        junk = plain_copy(plain)
        n = scatter(rng, junk, d, kw.get("extraneous", False))
        ctx.log("cast", junk, "to", type(a).__name__, kw)
        rec = Recorder(identity)
        before = snapshot(junk, True)
        got = ctx.value(attempt(rec.pattern.cast, type(a), junk, **kw),
                        "cast")
        ctx.equal(snapshot(junk, True), before, "casting changed its input")
        calls = rec.told(ctx, a)
        m = walk_for(kw, sel, identity)
        want = m.value(a)
        ctx.ok(same_calls(calls, m.calls), "casting %r with %s called the "
               "conversion with %s, not %s", junk, kw, calls, m.calls)
        # the result has what was selected
        ctx.ok(type(got) is type(a), "cast to %s gave %s", type(a), type(got))
        bad = unlike(got, want, kw.get("extraneous", False))
        ctx.ok(bad is None, "casting %r with %s gave %r, not like %r (%s)",
               junk, kw, got, want, bad)
        ctx.ev("casts")
        ctx.ev("undeclared", n)
        ctx.ev("filtered", 1 if f else 0)
        ctx.ev("left out", m.left_out)
        ctx.ev("empty slots", sum(1 for v, n, p in calls if v is UNSET))
        ctx.sig("cast", repr(want))


def unlike(got, want, wrapped, at=""):
    """-> where a value cast from ``want`` isn't like it.  Attributes which
    aren't there may have got defaults.  ``wrapped``: whether collections
    with attributes have their items below a key "values"."""
    if isinstance(got, Record):
        attrs = want
        if isinstance(got, Collection):
            items, attrs = want, {}
            if type(got).properties and wrapped:
                items, attrs = want["values"], want
            have = got.__dict__["_values"]
            if type(have) is not type(items) or len(have) != len(items) or (
                    isinstance(have, dict) and set(have) != set(items)):
                return at + " items"
            for k in (have if isinstance(have, dict) else range(len(have))):
                bad = unlike(have[k], items[k], wrapped, "%s[%r]" % (at, k))
                if bad:
                    return bad
        for n in type(got).properties:
            if n in attrs:
                bad = unlike(getattr(got, n, UNSET), attrs[n], wrapped,
                             at + "." + n)
                if bad:
                    return bad
        return None
    return None if snapshot(got) == snapshot(want) else at or "value"


def scatter(rng, plain, d, wrapped=False):
    """Add undeclared keys.  ``wrapped``: whether what's in collections may
    be below a key "values" (which may be a key of theirs, too)."""
    n = 0
    if d.kind == "rec" and isinstance(plain, dict):
        for name, x in d.slots().items():
            if name in plain:
                n += scatter(rng, plain[name], x, wrapped)
        if rng.random() < .3:
            plain["undeclared"] = rng.choice([1, None, {"a": 1}, "x"])
            n += 1
    elif d.kind == "list" and isinstance(plain, list):
        for p, (k, x) in zip(plain, d.content):
            n += scatter(rng, p, x, wrapped)
    elif d.kind == "dict" and isinstance(plain, dict) and not wrapped:
        for k, x in d.content:
            if k in plain:
                n += scatter(rng, plain[k], x, wrapped)
    return n


def undeclared(ctx, rng):
    """Records in attributes of no declared type are visited by their own"""
    w = World(rng, compare=0, p_coll_attr=0)
    describe(ctx, w)
    inner = w.top_type()
    cls = new_class(rng.choice([Record, JsonRecord]), {
        "x": Property(), "y": Property(isa=int), "z": Property()}, "Any")
    d = inner.rec.desc(rng, w.o) if inner.kind == "rec" else inner.desc(
        rng, w.o)
    a = cls(x=d.build(), y=1)
    if rng.random() < .5:
        a.z = cls(x=rng.choice([[1], "s", 2]), y=2)
    kw = options(rng)
    convert = rng.choice([identity, marked, spotty(rng)])
    rec = Recorder(convert)
    ctx.log("visit", a, kw)
    got = ctx.value(attempt(rec.pattern.visit, a, **kw), "visit")
    m = walk_for(kw, convert=convert)
    want = m.value(a)
    calls = rec.told(ctx, a)
    ctx.ok(same_calls(calls, m.calls), "visiting %r with %s called the "
           "conversion with %s, not %s", a, kw, calls, m.calls)
    ctx.ok(snapshot(got) == snapshot_like(want, got), "visiting %r with %s "
           "gave %r, not %r", a, kw, got, want)
    ctx.ev("undeclared")
    ctx.ev("visits")


GARBAGE = ["green cheese", 5, 1.5, b"bytes", object()]


def errors(ctx, rng):
    w = World(rng, compare=0, p_required=0, p_coll_attr=0, p_none=0,
              kinds=["int", "str", "rec", "rec", "list", "list", "dict"])
    describe(ctx, w)
    # things which can't be visited or cast
    for x in GARBAGE + [[], {}, None]:
        ctx.raised(attempt(VisitorPattern.visit, x), TypeError,
                   "visiting %r" % (x,))
    t = w.top_type()
    d = t.rec.desc(rng, w.o, -1) if t.kind == "rec" else t.desc(
        rng, w.o, -1)
    a = d.build()
    plain = VisitorPattern.visit(a, ignore_none=False)
    # replace something which should be a dict or a list
    spots = [((), d, None, None)]

    def find(p, d, path):
        if d.kind == "rec":
            for n, x in d.slots().items():
                if n in p and x.kind != "value":
                    spots.append((path + (n,), x, p, n))
                    find(p[n], x, path + (n,))
        elif d.kind in ("list", "dict"):
            for k, x in d.content:
                if x.kind != "value":
                    spots.append((path + (k,), x, p, k))
                    find(p[k], x, path + (k,))
    find(plain, d, ())
    path, x, p, k = rng.choice(spots)
    junk = rng.choice(GARBAGE if x.kind == "rec" else [5, 1.5, object()])
    if p is None:
        plain = junk
    else:
        p[k] = junk
    ctx.log("cast", plain)
    got = attempt(VisitorPattern.cast, type(a), plain)
    ctx.raised(got, exc.VisitorGrokRecordError if x.kind == "rec" else
               exc.VisitorGrokCollectionError, "casting %r" % (plain,))
    ctx.equal(tuple(got.exc.field_selector), path, "field_selector")
    ctx.ok(repr(junk) in str(got.exc), "message: %s", got.exc)
    ctx.ev("garbage")

    # getters which fail
    class Failing(Exception):
        pass
    e = rng.choice([Failing, ValueError, TypeError, RuntimeError])("no!")

    def fails():
        raise e
    cls = new_class(Record, {
        "ok": Property(isa=int),
        "bad": Property(isa=int, lazy=True, default=fails)}, "Bad")
    lst = new_class(ListCollection, {"itemtype": cls}, "Bads")
    top = new_class(Record, {"bads": Property(isa=lst)}, "Top")
    i = rng.randrange(3)
    items = [cls(ok=j, bad=j) for j in range(i)] + [cls(ok=1)]
    got = attempt(VisitorPattern.visit, top(bads=items))
    ctx.raised(got, exc.VisitorPropError, "getter which fails")
    ctx.equal(tuple(got.exc.fs), ("bads", i), "where it fails")
    ctx.equal(got.exc.prop_name, "bad", "prop_name")
    ctx.ok(got.exc.prop is cls.properties["bad"] and got.exc.exception is e,
           "facts of %r", got.exc)
    ctx.ok("bad" in str(got.exc) and "no!" in str(got.exc), "%s", got.exc)
    ctx.ev("prop errors")

    # attribute errors mean that there's no value
    missing = rng.choice([AttributeError, KeyError])

    def absent():
        raise missing("nothing")
    cls = new_class(Record, {
        "ok": Property(isa=int),
        "not_there": Property(isa=int, lazy=True, default=absent)}, "Part")
    got = ctx.value(attempt(VisitorPattern.visit, cls(ok=4)), "visit")
    ctx.equal(got, {"ok": 4}, "without the missing one")


def stopping(ctx, rng):
    """Descent is stopped where the pattern says so"""
    w = World(rng, compare=0, p_coll_attr=0)
    describe(ctx, w)
    d = w.top.desc(rng, w.o, -1)
    a = d.build()
    stop = rng.choice(w.recs)
    how = rng.randrange(3)
    calls = []

    class Pattern(VisitorPattern):
        @classmethod
        def unpack(cls, value, value_type, visitor):
            if value_type is stop.cls:
                calls.append(visitor.field_selector.path)
                if how == 0:
                    return cls.StopVisiting
                return cls.StopVisiting("stopped" if how == 1 else {})
            return super(Pattern, cls).unpack(value, value_type, visitor)

    got = ctx.value(attempt(Pattern.visit, a), "visit")
    sentinel = [None, "stopped", {}][how]

    class Stopping(Walk):
        def value(self, v, path=(), sel=None, name=None):
            if type(v) is stop.cls:
                return sentinel
            return Walk.value(self, v, path, sel, name)
    want = Stopping(convert=identity).value(a)
    ctx.ok(snapshot(got) == snapshot_like(want, got), "visiting %r, stopping "
           "at %s, gave %r, not %r", a, stop.cls.__name__, got, want)
    ctx.ev("stopped", 1 if calls else 0)


SCENARIOS = [("visits", visits, 2000, 30000),
             ("roundtrips", roundtrips, 1800, 25000),
             ("casts", casts, 1200, 15000),
             ("undeclared", undeclared, 600, 5000),
             ("errors", errors, 900, 8000),
             ("stopping", stopping, 400, 5000)]
