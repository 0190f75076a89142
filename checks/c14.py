"""C14: JSON output read back in gives an equal record."""
import collections
import json

import normalize.exc as exc
from mon.core import attempt
from mon.jsonmodel import (
    BIG, j_back, j_out, json_options, keep, merge, plain, same_json,
    unknown_keys,
)
from mon.recmodel import new_class
from mon.shapes import D, a_type, d_eq, schema, snapshot
from normalize import JsonRecord, Property, Record, from_json, to_json
from normalize.coll import ListCollection
from normalize.property.coll import DictProperty, ListProperty
from normalize.property.types import (
    DateProperty, DatetimeProperty, FloatProperty, IntegerProperty,
    IntProperty, NumberProperty, StringProperty,
)
from normalize.record.json import JsonRecordDict, JsonRecordList

RULE = (
    "a case declares 1-4 related record classes with renamed, exchanged, "
    "suppressed and converted JSON attributes, builds a described instance, "
    "compares its JSON form with one computed from the description, and reads "
    "it back in every form (data and text, constructor and from_json), "
    "comparing the state with the expected one; non-trivial: the output has "
    "at least one entry; distinct by class and output")
ASSUMPTIONS = [
    "integers beyond 2**50 are written as text, so they only read back into "
    "attributes and items of an integer type",
    "suppressed attributes do not read back (they are as if not supplied)",
    "dictionary keys are text", "reading a lazy attribute computes it, and "
    "so does writing it",
    "conversion functions are inverse to each other, and don't return the "
    "input of another conversion"]
NEED = {"outputs": 5000, "read_back": 15000, "entries": 9000, "renamed": 1500,
        "suppressed": 300, "extraneous": 600, "converted": 900, "big": 300,
        "nested": 2000, "unknown_keys": 700, "lazy": 250, "hooks": 300}


def count(ctx, d):
    for x in d.walk():
        if x.kind == "value" and type(x.content) is int and \
                abs(x.content) > BIG:
            ctx.ev("big")
        if x.kind != "rec":
            continue
        for n, a in x.type.attrs.items():
            if n in x.content:
                ctx.ev("entries")
                if a.json_name is None:
                    ctx.ev("suppressed")
                elif a.json_name != n:
                    ctx.ev("renamed")
                if a.extraneous:
                    ctx.ev("extraneous")
                if a.conv:
                    ctx.ev("converted")
                if x.content[n].kind != "value":
                    ctx.ev("nested")
            elif a.lazy:
                ctx.ev("lazy")


def check_output(ctx, what, got, want):
    data = ctx.value(got, what)
    ctx.ok(snapshot(data) == snapshot(want) or same_json(data, want),
           "%s is %r, expected %r", what, data, want)
    ctx.ev("outputs")
    return data


def readers(cls, data):
    text = json.dumps(data)
    out = [("from_json(data)", lambda: from_json(cls, data)),
           ("from_json(text)", lambda: from_json(cls, text)),
           ("from_json(bytes)", lambda: from_json(
               cls, json.dumps(data, ensure_ascii=False).encode("utf-8")))]
    if issubclass(cls, JsonRecord):
        out += [("constructor(data)", lambda: cls(data)),
                ("constructor(text)", lambda: cls(text)),
                ("method from_json(data)", lambda: cls.from_json(data)),
                ("keyword", lambda: cls(json_data=data))]
    return out


def round_trip(ctx, rng, d, x, cls):
    for ext in (True, False):
        want = j_out(d, ext)
        data = check_output(ctx, "to_json(%r, extraneous=%r)" % (d, ext),
                            attempt(to_json, x, ext), want)
        if issubclass(cls, JsonRecord):
            check_output(ctx, "json_data(extraneous=%r) of %r" % (ext, d),
                         attempt(lambda: x.json_data(extraneous=ext)), want)
        back = j_back(d, ext)
        try:
            expected = back.build()
        except exc.NormalizeError as e:
            continue        # something required isn't in the output
        state = snapshot(expected)
        for how, read in rng.sample(readers(cls, data), 3):
            y = ctx.value(attempt(read), "%s of %r" % (how, data))
            ctx.ok(snapshot(y) == state, "%s of %r gave %r, expected %r",
                   how, data, y, expected)
            ctx.ev("read_back")
            if d_eq(d, back):
                ctx.ok(y == x and x == y, "%s of %r gave %r, not equal to %r",
                       how, data, y, x)
        check_output(ctx, "second output of %r" % d,
                     attempt(to_json, y, ext), j_out(back, ext))
    ctx.ok(ctx.value(attempt(to_json, x), "to_json") == j_out(d, True),
           "default output of %r", d)
    if issubclass(cls, JsonRecord):
        ctx.ok(ctx.value(attempt(x.json_data), "json_data") ==
               j_out(d, False), "default json_data() of %r", d)


def records(ctx, rng):
    o = json_options()
    recs = schema(rng, o)
    r = recs[-1]
    ctx.log(r.describe())
    d = r.desc(rng, o)
    ctx.log("instance", d)
    x = ctx.value(attempt(d.build), "build %r" % d)
    count(ctx, d)
    # single attributes (the lazy ones last)
    for n, a in rng.sample(list(r.attrs.items()), len(r.attrs)):
        if rng.random() > .3:
            continue
        prop = n if rng.random() < .5 else r.cls.properties[n]
        got = attempt(lambda: to_json(x, prop=prop))
        if n in d.slots():
            v = d.slots()[n]
            check_output(ctx, "to_json(%r, prop=%r)" % (d, n), got,
                         a.conv.model(v) if a.conv else j_out(v, True))
        else:
            ctx.raised(got, AttributeError, "to_json of unset %s" % n)
    round_trip(ctx, rng, d, x, r.cls)
    want = j_out(d, True)
    if want:
        ctx.sig(r.describe(), want)


def colls(ctx, rng):
    o = json_options(kinds=["int", "str", "float", "bool", "date"], p_lazy=0)
    recs = schema(rng, o, 2)
    o2 = json_options(kinds=["list", "dict"])
    t = a_type(rng, o2, recs, rng.random() < .6)
    d = t.desc(rng, o2)
    ctx.log("collection", d)
    x = ctx.value(attempt(d.build), "build %r" % d)
    count(ctx, d)
    round_trip(ctx, rng, d, x, t.cls)
    if d.content:
        ctx.sig(repr(t), j_out(d, True))


def unknown(ctx, rng):
    """Unknown keys of JSON records come out again, if asked for"""
    o = json_options(p_json_null=.1, p_ro=0)
    recs = schema(rng, o)
    if not any(r.json for r in recs):
        o.json = True
        recs = schema(rng, o)
    r = rng.choice([x for x in recs if x.json])
    d = r.desc(rng, o)
    extra = {}

    more = unknown_keys(rng, extra, ctx)
    slots = keep(d)
    doc = j_out(slots, True, more)
    ctx.log(r.describe(), "document", doc)
    back = attempt(j_back(slots, True).build)
    if not back.ok:
        return
    x = ctx.value(attempt(r.cls, doc), "read %r" % doc)
    want = j_out(j_back(slots, True), True)
    merged = merge(want, doc)
    check_output(ctx, "json_data(extraneous=True) after reading %r" % doc,
                 attempt(lambda: x.json_data(extraneous=True)), merged)
    check_output(ctx, "json_data() after reading %r" % doc,
                 attempt(lambda: x.json_data()), j_out(j_back(slots, True),
                                                       False))
    # to_json() of a JSON record is documented to do so, too
    got = ctx.value(attempt(to_json, x), "to_json")
    if not same_json(got, merged):
        lacking = dict((k, v) for k, v in merged.items() if k in want)
        ctx.ok(same_json(got, lacking), "to_json() after reading %r gave %r, "
               "expected %r", doc, got, merged)
        ctx.finding("to_json-top-level-unknown-keys", False, "to_json() after "
                    "reading %r gave %r without the unknown keys at the top"
                    % (doc, got))
    top = extra.get(id(slots))
    if top and top[1]:
        ctx.ok(same_json(x.unknown_json_keys, top[1]),
               "unknown keys are %r, not %r", x.unknown_json_keys, top[1])
    ctx.ok(x == back.value, "unknown keys matter in the comparison of %r", x)
    y = ctx.value(attempt(r.cls, json.dumps(x.json_data(extraneous=True))),
                  "reread")
    check_output(ctx, "second output", attempt(
        lambda: y.json_data(extraneous=True)), merged)
    if any(e for _, e in extra.values()):
        ctx.sig(r.describe(), doc)


class Point(object):
    """A type with its own JSON form"""
    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return type(other) is type(self) and self.x == other.x

    def __repr__(self):
        return "%s(%r)" % (type(self).__name__, self.x)

    def json_data(self):
        return {"pt": self.x}

    @classmethod
    def from_json(cls, j):
        if not isinstance(j, dict):
            raise ValueError("not a point")
        return cls(j["pt"])


class PointX(Point):
    def json_data(self, extraneous=False):
        return {"pt": self.x, "ext": extraneous}


class PointK(PointX):
    def json_data(self, **kw):
        return dict({"pt": self.x}, **dict(
            ("ext", v) for k, v in kw.items() if k == "extraneous"))


class PointO(PointX):
    def json_data(self, *, pretty=False, extraneous=False):
        return {"pt": self.x, "ext": extraneous}


class PointP(Point):
    def json_data(self, *, pretty=False):
        return {"pt": self.x}


class Radical(JsonRecord):
    """Overrides both directions"""
    a = Property(isa=int)
    b = Property(isa=str)

    @classmethod
    def json_to_initkwargs(cls, json_data, kwargs):
        return super(Radical, cls).json_to_initkwargs(
            dict(zip("ab", json_data)), kwargs)

    def json_data(self, extraneous=False):
        return [self.a, self.b]


def hooks(ctx, rng):
    """User types with JSON hooks of their own"""
    pts = [Point, PointX, PointK, PointO, PointP]
    P = rng.choice(pts)
    base = rng.choice([Record, JsonRecord])
    jl = new_class(JsonRecordList, {"itemtype": P}, "Pl")
    jd = new_class(JsonRecordDict, {"itemtype": P}, "Pd")
    cls = new_class(base, {
        "p": Property(isa=P), "q": Property(isa=P, json_name="Q"),
        "l": Property(isa=jl), "d": Property(isa=jd),
        "m": ListProperty(of=P, json_name="M"),
        "r": Property(isa=Radical),
        "rs": ListProperty(of=Radical, json_name="rs"),
        "date": DateProperty(), "dt": DatetimeProperty(json_name="when"),
        "i": IntProperty(json_name="I"), "n": NumberProperty(),
        "s": StringProperty(), "f": FloatProperty(), "g": IntegerProperty(),
    }, "Hk")
    import datetime as D_
    kw, want = {}, {}
    ext = rng.random() < .5

    def pt():
        p = P(rng.randrange(3))
        j = {"pt": p.x}
        if issubclass(P, PointX):
            j["ext"] = ext
        return p, j

    def rad():
        x = Radical(a=rng.randrange(3), b=rng.choice(["", "x"]))
        return x, [x.a, x.b]
    names = [n for n in cls.properties if n != "unknown_json_keys"]
    for n in names:
        if rng.random() < .5:
            continue
        key = {"q": "Q", "m": "M", "dt": "when", "i": "I"}.get(n, n)
        if n in ("p", "q"):
            kw[n], want[key] = pt()
        elif n in ("l", "m", "rs"):
            items = [rad() if n == "rs" else pt()
                     for _ in range(rng.randrange(3))]
            kw[n], want[key] = [a for a, b in items], [b for a, b in items]
        elif n == "d":
            items = dict((k, pt()) for k in rng.sample("abc", 2))
            kw[n] = dict((k, a) for k, (a, b) in items.items())
            want[key] = dict((k, b) for k, (a, b) in items.items())
        elif n == "r":
            kw[n], want[key] = rad()
        elif n == "date":
            kw[n] = D_.date(rng.choice([1970, 2013, 1999]), rng.randrange(
                1, 13), rng.randrange(1, 29))
            want[key] = kw[n].isoformat()
        elif n == "dt":
            kw[n] = D_.datetime(2001, rng.randrange(1, 13), 5,
                                rng.randrange(24), rng.randrange(60),
                                rng.choice([0, 7, 59]))
            want[key] = kw[n].isoformat()
        elif n == "s":
            kw[n] = want[key] = rng.choice(["", u"\u00e9", "5"])
        elif n == "f":
            kw[n] = want[key] = rng.choice([0.0, 1.25, -3e-9])
        elif n == "n":
            kw[n] = rng.choice([0, 1.5, 7, 2 ** 80])
            want[key] = plain(kw[n])
        else:
            kw[n] = rng.choice([0, -4, 2 ** 53, 2 ** 50])
            want[key] = plain(kw[n])
    x = cls(**kw)
    ctx.log("hooks", kw)
    got = attempt(to_json, x, ext)
    if P is PointK:
        # 'extraneous' goes to those taking it
        pass
    data = check_output(ctx, "to_json(%r, %r)" % (x, ext), got, want)
    for how, read in rng.sample(readers(cls, data), 2):
        y = ctx.value(attempt(read), "%s of %r" % (how, data))
        ctx.ok(y == x, "%s of %r gave %r, not %r", how, data, y, x)
        for n in kw:
            ctx.ok(type(getattr(y, n)) is type(getattr(x, n)),
                   "%s read back as %r", n, getattr(y, n))
        ctx.ev("read_back")
    ctx.ev("hooks")
    if kw:
        ctx.sig(P.__name__, base.__name__, want)


def merged_by_default(ctx, rng):
    """unknown_json_keys may be redeclared as not extraneous"""
    cls = new_class(JsonRecord, {
        "a": Property(json_name="A"),
        "unknown_json_keys": Property(json_name=None, extraneous=False,
                                      default=lambda: {})}, "Mg")
    doc = dict((k, rng.choice([1, None, "x", [1], {"z": {}}]))
               for k in rng.sample(["A", "b", "c", "a", "unknown_json_keys"],
                                   rng.randrange(5)))
    x = ctx.value(attempt(cls, doc), "read")
    for got in (attempt(x.json_data), attempt(
            lambda: x.json_data(extraneous=True))):
        check_output(ctx, "output after reading %r" % doc, got, doc)
    y = cls(x.json_data())
    ctx.ok(x == y, "not equal: %r, %r", x, y)
    z = cls(dict(doc, other=1))
    ctx.ok(x != z, "unknown keys, declared to matter, ignored")
    if doc:
        ctx.sig(doc)


SCENARIOS = [
    ("records", records, 5000, 60000), ("colls", colls, 800, 15000),
    ("unknown", unknown, 1200, 20000), ("hooks", hooks, 500, 8000),
    ("merged_by_default", merged_by_default, 150, 1000)]
