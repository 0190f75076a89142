"""C31: the text forms of records, collections, declarations and types"""
import copy
import gc
import pickle
import weakref

from mon.core import attempt
from mon.recmodel import new_class
from mon.shapes import Options, T, a_type, d_edit, schema, snapshot
from normalize import (DictProperty, JsonProperty, JsonRecord, LazyProperty,
                       ListProperty, Property, Record, ROProperty,
                       SafeProperty, subtype)
from normalize.coll import DictCollection, ListCollection, dict_of, list_of

RULE = (
    "a case declares related record classes (primary keys, extraneous, lazy "
    "and defaulted attributes, unions, typed and plain collections), builds "
    "described instances and prints these and everything in them against "
    "the key computed from the description; or declares attributes, "
    "subtypes and collections and prints those; non-trivial: distinct "
    "descriptions of which at least one text is cut short or shows a primary "
    "key or a nested key")
ASSUMPTIONS = ["primary keys are declared by the class itself",
               "the repr of values is that of Python, or of C13"]
NEED = {"records": 7000, "keyed": 1000, "implicit": 4000, "cut": 1500,
        "nested": 2000, "alone": 800, "unhashable": 250, "lists": 1500,
        "dicts": 800, "copies": 5000, "declarations": 1500, "inherited": 400,
        "unbound": 400, "collected": 150, "subtypes": 500,
        "placeholders": 1500}


class Unhashable(Exception):
    pass


class Stats(object):
    nested = False


def shown(d, obj, stats, top=True):
    """-> what stands for the described value within the key of its record"""
    if d.kind == "value":
        return d.content
    stats.nested = stats.nested or not top
    if d.kind == "rec":
        slots = d.slots()
        out = []
        for n in key_names(d):
            if n not in slots:
                out.append(None)
                continue
            x = slots[n]
            a = d.type.attrs[n]
            if a.type.kind == "any":
                out.append(x.content)
                continue
            v = shown(x, getattr(obj, n), stats, False)
            if x.kind == "value":
                try:
                    hash(v)
                except TypeError:
                    raise Unhashable()
            out.append(v)
        return tuple(out)
    if d.kind == "list":
        pairs = list(zip([x for k, x in d.content], obj))
    else:
        pairs = [(x, obj[k]) for k, x in sorted(
            d.content, key=lambda kv: kv[0])]
    out = tuple(shown(x, v, stats, False) for x, v in pairs)
    try:
        hash(out)
    except TypeError:
        raise Unhashable()
    return out


def key_names(d):
    return d.type.pk or [n for n in sorted(d.type.attrs)
                         if not d.type.attrs[n].extraneous]


def text_of(name, key):
    key = key[0] if len(key) == 1 else key
    text = repr(key)
    if len(text) > 32:
        text = text[:30] + "..."
    return "<%s %s>" % (name, text)


def judge(ctx, d, obj):
    """Print one described object"""
    cls = d.type.cls
    if d.kind == "list":
        want = "<%s: %d item(s)>" % (cls.__name__, len(d.content))
        ctx.ev("lists")
        how = "list"
    else:
        twin = d.build()        # (lazy attributes are computed in that one)
        stats = Stats()
        how = "implicit"
        try:
            key = shown(d, twin, stats)
        except Unhashable:
            ctx.ev("unhashable")
            key = tuple(twin[k] for k, x in d.content) if \
                d.kind == "dict" else tuple(
                    getattr(twin, n, None) for n in key_names(d))
            how = "unhashable"
        want = text_of(cls.__name__, key)
        if d.kind == "dict":
            ctx.ev("dicts")
        else:
            ctx.ev("records")
            ctx.ev("keyed" if d.type.pk else "implicit")
            if d.type.pk:
                how += ", keyed"
        if stats.nested:
            ctx.ev("nested")
            how += ", nested"
        if len(key) == 1:
            ctx.ev("alone")
        if want.endswith("...>"):
            ctx.ev("cut")
            how += ", cut"
    got = ctx.value(attempt(str, obj), "str(%r)" % d)
    if how.startswith("unhashable") and any(
            a.lazy for x in d.walk() if x.kind == "rec" and x is not d
            for a in x.type.attrs.values()):
        # (which of these have been computed isn't specified)
        ctx.ok(got.startswith("<%s " % cls.__name__) and got[-1] == ">" and
               len(got) <= len(cls.__name__) + 36, "%r prints as %r", d, got)
        return how
    ctx.ok(got == want, "str() of %r is %r, and should be %r", d, got, want)
    ctx.ok(str(obj) == got and "%s" % (obj,) == got and
           "{0}".format(obj) == got, "%r prints in different ways", d)
    return how


def records(ctx, rng):
    o = Options(
        p_none=.2, p_unset=.3, p_pk=.35, p_lazy=.1, p_extraneous=.2,
        kinds=["int", "str", "float", "bool", "any", "union", "rec", "rec",
               "list", "dict", "list", "dict", "date", "int", "str"] +
        rng.choice([[], [], ["plainlist", "plaindict"]]),
        item_kinds=["rec", "rec", "int", "str", "plainlist"] if
        rng.random() < .2 else ["rec", "rec", "int", "str"],
        ints=[0, 1, -5, 123456789], words=["", "a", "abc", u"\u00e9",
                                           "it's", "twenty characters...",
                                           "x" * 31, "line\nbreak"],
        keys=rng.choice([["k1", "k2", "K"], [1, 2, 3]]),
        p_coll_attr=.2)
    recs = schema(rng, o)
    r = recs[-1]
    ctx.log(r.describe())
    d = r.desc(rng, o)
    hows = set()
    for x in (d, d_edit(rng, o, d)[0]):
        ctx.log("instance", x)
        obj = ctx.value(attempt(x.build), "build %r" % x)
        lazy = any(a.lazy for y in recs for a in y.attrs.values())
        before = snapshot(obj, ids=True)
        calls = dict((a, len(a.calls)) for y in recs
                     for a in y.attrs.values() if a.lazy and a.extraneous)
        got = ctx.value(attempt(str, obj), "str(%r)" % x)
        for a, n in calls.items():
            if not any(a.name in (y.pk or ()) for y in recs):
                ctx.ok(len(a.calls) == n, "printing %r computed the "
                       "extraneous lazy attribute %s", x, a.name)
        if not lazy:
            ctx.ok(snapshot(obj, ids=True) == before, "printing %r changed "
                   "it", x)
        copies = [("an equal one", x.build()), ("deep copy",
                                                copy.deepcopy(obj)),
                  ("copy", copy.copy(obj))]
        if rng.random() < .5:
            copies.append(("unpickled copy", pickle.loads(pickle.dumps(obj))))
        for what, y in copies:
            ctx.ok(str(y) == str(obj) if lazy else str(y) == got, "%s of %r prints as %r, not %r", what, x,
                   str(y), got)
            ctx.ev("copies")
        for y, v in everything(x, obj):
            hows.add(judge(ctx, y, v))
    if hows - set(["list", "implicit"]):
        ctx.sig(r.describe(), d)


def everything(d, obj):
    """The description of each record and collection in one, and itself"""
    if d.kind == "value":
        return
    yield d, obj
    if d.kind == "rec":
        for n, x in d.content.items():
            for y in everything(x, getattr(obj, n)):
                yield y
    else:
        for k, x in d.content:
            for y in everything(x, obj[k]):
                yield y


def colls(ctx, rng):
    """Collections by themselves, with any items"""
    o = Options(item_kinds=["rec", "int", "str", "plainlist", "plaindict",
                            "union"][:rng.choice([3, 6])],
                generic=False,
                ints=[0, 1, 99999], words=["a", "b", "longer text"],
                keys=rng.choice([["k1", "k2", "K"], [1, 2, 3]]), p_lazy=0)
    recs = schema(rng, Options(kinds=["int", "str"], p_lazy=0, ints=[0, 1],
                               words=["a", "b"]), 1)
    t = a_type(rng, o, recs, False, kinds=["list", "dict"])
    d = t.desc(rng, o)
    ctx.log("collection", t, d)
    how = judge(ctx, d, d.build())
    if how != "list":
        ctx.sig(t, d)


KINDS = [
    ("plain", lambda kw: Property(**kw), {}),
    ("checked", lambda kw: Property(**kw), {"isa": int}),
    ("safe", lambda kw: SafeProperty(**kw), {}),
    ("ro", lambda kw: ROProperty(**kw), {}),
    ("ro trait", lambda kw: Property(**kw), {"traits": ["ro"]}),
    ("lazy", lambda kw: LazyProperty(**kw), {"default": lambda: 5}),
    ("lazy checked", lambda kw: Property(**kw), {
        "lazy": True, "isa": int, "default": lambda: 5}),
    ("json", lambda kw: JsonProperty(**kw), {"json_name": "x"}),
    ("json name", lambda kw: Property(**kw), {"json_name": "x"}),
    ("list", lambda kw: ListProperty(**kw), {"of": int}),
    ("dict", lambda kw: DictProperty(**kw), {"of": int}),
    ("v1", lambda kw: Property(**kw), {"isa": str, "default": None}),
    ("extraneous", lambda kw: Property(**kw), {"extraneous": True}),
]


def declarations(ctx, rng):
    """Attributes name themselves and document what they are"""
    props, docs, kinds = {}, {}, {}
    for name in rng.sample(["a", "b", "c1", "_d", "long_name"], rng.choice(
            [1, 2, 3])):
        kind, make, kw = rng.choice(KINDS)
        kw = dict(kw)
        docs[name] = rng.choice([None, "", "Some text", u"caf\u00e9 \n x"])
        if docs[name] is not None or rng.random() < .5:
            kw["doc"] = docs[name]
        p = ctx.value(attempt(make, kw), "declaration of %s" % kind)
        got = ctx.value(attempt(str, p), "str() of an undeclared " + kind)
        ctx.equal(got, "<%s (unbound)>" % type(p).__name__, "unbound")
        ctx.equal(p.fullname, "(unbound)", "full name")
        ctx.ok(not p.bound, "bound before being declared")
        ctx.ev("unbound")
        props[name] = p
        kinds[name] = kind
        ctx.log(name, kind, docs[name])
    base = rng.choice([Record, JsonRecord])
    kept = rng.random() < .8
    cname = rng.choice(["Klass", "K%d" % rng.randrange(99)])
    cls = new_class(base, props, cname) if kept else type(base)(
        cname, (base,), dict(props))
    sub = new_class(cls, {"more": Property()}, "Sub") if kept else None
    for n, p in props.items():
        want = "%s.%s" % (cls.__name__, n)
        for c in [cls] + ([sub] if sub else []):
            for q in (c.properties[n], getattr(c, n)):
                ctx.ok(q is p, "%s of %s isn't the declared one", n, c)
                ctx.equal(q.fullname, want, "full name")
                ctx.equal(str(q), "<%s %s>" % (type(p).__name__, want),
                          "str() of a declaration")
                ctx.equal(q.__doc__, docs[n], "documentation")
                ctx.equal(q.name, n, "name")
                ctx.ok(q.bound, "not bound")
                ctx.ok(q.class_() is cls, "bound to %r", q.class_())
        ctx.ev("declarations")
        if sub:
            ctx.ev("inherited")
            over = new_class(cls, {n: Property()}, "Over")
            ctx.equal(over.properties[n].fullname,
                      "%s.%s" % (over.__name__, n), "an overriding one")
            ctx.equal(p.fullname, want, "the overridden one")
        # reading one which isn't set says which
        if kinds[n] not in ("v1", "lazy", "lazy checked"):
            got = attempt(getattr, cls(), n)
            ctx.raised(got, AttributeError, "reading %s" % n)
            ctx.equal(str(got.exc), want, "text of the error")
    if not kept:
        p = props[sorted(props)[0]]
        gone = weakref.ref(cls)
        c = q = over = got = None
        del cls
        gc.collect()
        if gone() is None:
            ctx.ev("collected")
            text = ctx.value(attempt(str, p), "str() of a declaration in a "
                             "class which is gone")
            ctx.ok(p.name in text and cname not in text, "%r", text)
        else:
            ctx.ok(False, "%s keeps its class", p.name)
    ctx.sig(sorted(docs.items()), [type(p).__name__ for p in props.values()],
            base, kept)


class Meta(type):
    pass


class Custom(metaclass=Meta):
    pass


def typenames(ctx, rng):
    """Subtypes and placeholders name types"""
    base = rng.choice([int, str, list, Custom, object, float])
    name = rng.choice(["Small", "Large", "An_X9"])
    sub = subtype(name, of=base, where=lambda x: True)
    text = ctx.value(attempt(str, sub), "str() of a subtype")
    ctx.equal(text, "<%s %s of %s>" % (type(sub).__name__, name,
                                       base.__name__), "text of a subtype")
    sub2 = subtype("Sub" + name, of=sub, where=lambda x: x)
    ctx.equal(str(sub2), "<%s Sub%s of %s>" % (type(sub2).__name__, name,
                                               name), "text of a subtype")
    ctx.ev("subtypes", 2)
    rec = new_class(rng.choice([Record, JsonRecord]), {
        "x": Property(isa=base)}, "Inner")
    coll = new_class(rng.choice([ListCollection, DictCollection]), {
        "itemtype": rec}, "Coll")
    pool = [int, str, float, rec, coll, sub, Custom, list_of(rec),
            dict_of(int)]
    types = rng.sample(pool, rng.choice([1, 1, 2, 3]))
    want = ",".join(t.__name__ for t in types)
    outer = new_class(Record, {
        "one": Property(isa=types[0] if len(types) == 1 else tuple(types)),
        "free": Property(), "many": ListProperty(of=rec),
        "rec": Property(isa=rec),
    }, "Outer")
    o = outer()
    ctx.log("types", types)
    for ph, names in ((o.one0, want), (o.free0, "any"),
                      (o.many0, outer.properties["many"].valuetype.__name__),
                      (o.many0[3], rec.__name__), (o.rec0, rec.__name__),
                      (o.rec0.x, base.__name__), (o.free0.x[3](), "any")):
        ctx.equal(ctx.value(attempt(str, ph), "str()"), "False(%s)" % names,
                  "text of a placeholder")
        ctx.equal(ctx.value(attempt(repr, ph), "repr()"),
                  "normalize.empty.placeholder(%s)" % names,
                  "text of a placeholder")
        ctx.ev("placeholders")
    ctx.sig(base, name, want)


SCENARIOS = [("records", records, 3000, 90000), ("colls", colls, 800, 20000),
             ("declarations", declarations, 1200, 20000),
             ("typenames", typenames, 400, 5000)]
