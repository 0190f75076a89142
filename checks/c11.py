"""C11: construction forms agree; arguments and siblings are never altered."""
import copy

import normalize.exc as exc
from mon.core import attempt
from mon.recmodel import new_class
from mon.shapes import (
    Attr, Options, T, schema, set_names, snapshot,
)
from normalize import JsonRecord, Property, Record
from normalize.coll import DictCollection, ListCollection
from normalize.property import LazyProperty
from normalize.property.coll import ListProperty, DictProperty
from normalize.record.json import AutoJsonRecord, NCAutoJsonRecord

RULE = (
    "a case declares 1-4 related record classes, constructs records of one "
    "of them in all forms from the same arguments (conforming and plain "
    "forms of nested values), with undeclared names or both forms mixed in; "
    "then applies random operations to one of several sibling records, while "
    "snapshots of the arguments and of all other records are compared; "
    "non-trivial: at least one argument, distinct by class and arguments")
ASSUMPTIONS = [
    "values which already conform are stored as they are (and so shared)",
    "a default which is a mutable object is used as it is (and so shared)"]
NEED = {"forms_compared": 1500, "undeclared": 1500, "both_forms": 400,
        "sibling_ops": 20000, "copy_ops": 6000, "arguments_checked": 8000, "collections": 800}
LIBERR = exc.NormalizeError


def unchanged(ctx, what, value, before):
    ctx.ok(snapshot(value, ids=True) == before,
           "%s altered its argument %r, was %r", what, value, before)
    ctx.ev("arguments_checked")


BAD_NAMES = ["zz", "properties", "diff", "__init__", "_values", "values_",
             "self_", "primary_key", "a0", "A", "", "a b", "__dict__",
             "eager_properties", "init_dictx", "__pk__", "diff_iter"]


def forms(ctx, rng):
    o = Options(json=rng.choice([False, None]), p_none=.2, p_null=.3)
    recs = schema(rng, o)
    r = recs[-1]
    ctx.log(r.describe())
    kw = r.kwargs(rng, o)
    if rng.random() < .5:
        # plain forms, to be converted
        kw = dict((n, r.attrs[n].type.raw(v) if rng.random() < .7 and
                   r.attrs[n].type.kind != "union" else v)
                  for n, v in kw.items())
    items = list(kw.items())
    rng.shuffle(items)
    kw = dict(items)
    ctx.log("arguments", kw)
    before = snapshot(kw, ids=True)
    x = ctx.value(attempt(lambda: r.cls(**kw)), "construct by keywords")
    unchanged(ctx, "construction by keywords", kw, before)
    made = [("keywords", x)]
    rev = dict(reversed(items))
    made.append(("keywords in another order", ctx.value(
        attempt(lambda: r.cls(**rev)), "construct by keywords")))
    if not r.json:
        y = ctx.value(attempt(lambda: r.cls(kw)), "construct from a dict")
        unchanged(ctx, "construction from a dict", kw, before)
        made.append(("a dict", y))
        y = ctx.value(attempt(lambda: r.cls(init_dict=kw)),
                      "construct from init_dict=")
        unchanged(ctx, "construction from init_dict=", kw, before)
        made.append(("init_dict=", y))
    else:
        y = ctx.value(attempt(lambda: r.cls(None, **kw)),
                      "construct from None and keywords")
        made.append(("None and keywords", y))
    first = snapshot(x)
    for what, y in made:
        ctx.ok(snapshot(y) == first, "records by keywords and %s hold "
               "different things: %r, %r", what, x, y)
    for what, y in made:
        ctx.ok(x == y and y == x and not x != y,
               "records by keywords and %s differ: %r, %r", what, x, y)
        for n in kw:
            v = attempt(getattr, y, n)
            ctx.ok(v.ok, "argument %s was dropped (%r)", n, v)
    ctx.ev("forms_compared", len(made) - 1)
    # later changes to the dict don't show
    copy_ = dict(kw)
    y = r.cls(copy_) if not r.json else r.cls(**copy_)
    held = snapshot(y)
    copy_.clear()
    copy_["zz"] = 1
    ctx.ok(snapshot(y) == held, "record changed with the dict it was "
           "constructed from")
    # undeclared names
    bad = rng.choice(BAD_NAMES + [n + "0" for n in r.attrs] +
                     [a.json_name for a in r.attrs.values()
                      if a.json_name])
    if bad not in r.cls.properties:
        badkw = dict(items)
        badkw[bad] = rng.choice([1, None, {}])
        order = list(badkw.items())
        rng.shuffle(order)
        badkw = dict(order)
        ctx.raised(attempt(lambda: r.cls(**badkw)), exc.PropertyNotKnown,
                   "undeclared %r by keyword" % bad)
        ctx.ev("undeclared")
        if not r.json:
            ctx.raised(attempt(lambda: r.cls(badkw)), exc.PropertyNotKnown,
                       "undeclared %r in a dict" % bad)
            ctx.ev("undeclared")
    if not r.json and kw:
        for a, b in ((kw, kw), (kw, {"zz": 1}), ({"zz": 1}, kw)):
            got = attempt(lambda: r.cls(a, **b))
            ctx.raised(got, LIBERR, "both %r and keywords %r" % (a, b))
            ctx.ev("both_forms")
        one = [n for n in kw]
        cut = rng.randrange(len(one) + 1)
        a = dict((n, kw[n]) for n in one[:cut])
        b = dict((n, kw[n]) for n in one[cut:])
        got = attempt(lambda: r.cls(a, **b))
        if a and b:
            ctx.raised(got, exc.AmbiguousConstruction, "both forms at once")
            ctx.ev("both_forms")
        else:
            v = ctx.value(got, "one form, the other empty")
            ctx.ok(v == x, "an empty dict beside keywords (or "
                   "none) changed the result: %r", v)
    if kw:
        ctx.sig(r.describe(), kw)


def collections(ctx, rng):
    """Collections with attributes: items and attributes both arrive"""
    o = Options(json=False, p_pk=0, p_lazy=0)
    recs = schema(rng, o, rng.randrange(1, 3))
    r = recs[-1]
    props = {}
    kinds = {}
    for n in rng.sample(["p", "q", "s"], rng.randrange(1, 4)):
        kinds[n] = rng.choice(["int", "default", "required", "any"])
        props[n] = {
            "int": lambda: Property(isa=int),
            "default": lambda: Property(default=5),
            "required": lambda: Property(required=True),
            "any": lambda: Property()}[kinds[n]]()
    base = rng.choice([ListCollection, DictCollection])
    cls = new_class(base, dict(props, itemtype=r.cls), "WithAttrs")
    items = [r.make(rng, o) for _ in range(rng.randrange(3))]
    raws = [T("rec", rec=r).raw(x) if rng.random() < .5 else x
            for x in items]
    src = raws if base is ListCollection else dict(zip("abc", raws))
    src_before = snapshot(src, ids=True)
    kw = dict((n, rng.randrange(9)) for n in props
              if kinds[n] == "required" or rng.random() < .6)
    ctx.log("%s with %s from %r and %r" % (base.__name__, kinds, src, kw))
    a = ctx.value(attempt(lambda: cls(src, **kw)), "construct")
    b = ctx.value(attempt(lambda: cls(values=src, **kw)), "construct values=")
    unchanged(ctx, "construction of a collection", src, src_before)
    ctx.ok(a == b and snapshot(a) == snapshot(b),
           "positional and keyword values differ: %r %r", a, b)
    got = list(a) if base is ListCollection else list(a.values())
    ctx.ok(got == items, "items are %r, expected %r", got, items)
    for n in props:
        if n in kw:
            ctx.same(getattr(a, n), kw[n], "attribute %s" % n)
        elif kinds[n] == "default":
            ctx.same(getattr(a, n), 5, "attribute %s" % n)
        else:
            ctx.raised(attempt(getattr, a, n), AttributeError, n)
    ctx.raised(attempt(lambda: cls(src, nosuch=1, **kw)), exc.PropertyNotKnown,
               "undeclared attribute of a collection")
    ctx.ev("undeclared")
    # copies between collections are independent
    c = ctx.value(attempt(lambda: cls(a, **kw)), "construct from a collection")
    before = snapshot(a, ids=True)
    if base is ListCollection:
        c.append(r.make(rng, o))
        c.reverse()
        del c[0]
    else:
        c["new"] = r.make(rng, o)
        c.pop("new")
        c.clear()
    ctx.ok(snapshot(a, ids=True) == before,
           "changing a copy changed the collection it was made from")
    unchanged(ctx, "changing a collection", src, src_before)
    # and from the source
    before = snapshot(a, ids=True)
    if base is ListCollection:
        src.append(5)
    else:
        src["zz"] = 5
    ctx.ok(snapshot(a, ids=True) == before,
           "changing the source changed the collection")
    ctx.ev("collections")
    ctx.sig(base.__name__, kinds, src, kw)


def mutate(ctx, rng, o, r, x, raw_only=False):
    """A random operation on record x; -> text"""
    a = rng.choice(list(r.attrs.values()))
    how = rng.randrange(6 if raw_only else 7)
    if how < 3:
        v = a.type.gen(rng, o)
        if a.type.kind != "union" and rng.random() < .5:
            v = a.type.raw(v)
        before = snapshot(v, ids=True)
        got = attempt(setattr, x, a.name, v)
        if snapshot(v, ids=True) != before:
            ctx.ok(False, "assigning to %s altered the value %r", a, v)
        ctx.ev("arguments_checked")
        if got.ok and how == 0 and isinstance(v, (list, dict)) and \
                getattr(x, a.name) is not v:
            # it was converted: later changes to the argument don't show
            held = snapshot(x, ids=True)
            if isinstance(v, list):
                v.append(99)
            else:
                v["zz"] = 99
            ctx.ok(snapshot(x, ids=True) == held, "changing the list or dict "
                   "assigned to %s changed the record", a)
        return "set %s" % a.name
    if how == 3:
        attempt(delattr, x, a.name)
        return "del %s" % a.name
    if how == 4:
        attempt(setattr, x, a.name, object())
        return "bad set %s" % a.name
    if how == 5:
        attempt(getattr, x, a.name)
        attempt(getattr, x, a.name + "0")
        return "get %s" % a.name
    # change a collection the record holds, in place
    for n, v in x.__dict__.items():
        t = r.attrs[n].type if n in r.attrs else None
        if t is None or t.kind not in ("list", "dict"):
            continue
        if t.kind == "list":
            v.append(t.item.gen(rng, o))
            if len(v) > 1 and rng.random() < .5:
                v.reverse()
                v.pop()
        else:
            v["q"] = t.item.gen(rng, o)
            v.pop("q" if rng.random() < .3 else rng.choice(list(v.keys())))
        return "change %s in place" % n
    return "nothing"


def siblings(ctx, rng):
    """Operations on one record never show in others"""
    o = Options(kinds=["int", "str", "any", "union", "rec", "list", "dict",
                       "list", "dict"], p_default=.4)
    recs = schema(rng, o)
    r = recs[-1]
    ctx.log(r.describe())
    proto = r.kwargs(rng, o)
    plain = dict((n, r.attrs[n].type.raw(v)
                  if r.attrs[n].type.kind in ("list", "dict") else
                  copy.deepcopy(v))
                 for n, v in proto.items())
    sibs = []
    for _ in range(rng.randrange(2, 5)):
        # everything conforming is fresh; plain lists and dicts are the very
        # same objects for all siblings
        kw = dict((n, plain[n] if isinstance(plain[n], (list, dict))
                   and not isinstance(plain[n], Record)
                   and r.attrs[n].type.kind in ("list", "dict")
                   else copy.deepcopy(plain[n])) for n in plain)
        sibs.append(ctx.value(attempt(lambda: r.cls(**kw)), "construct"))
    plain_before = snapshot(plain, ids=True)
    held = [snapshot(x, ids=True) for x in sibs]
    for _ in range(rng.randrange(4, 14)):
        i = rng.randrange(len(sibs))
        text = mutate(ctx, rng, o, r, sibs[i])
        ctx.log("record %d: %s" % (i, text))
        ctx.ev("sibling_ops")
        for j, x in enumerate(sibs):
            now = snapshot(x, ids=True)
            if j != i:
                ctx.ok(now == held[j],
                       "%s on one record changed another: %r, was %r",
                       text, now, held[j])
            held[j] = now
        ctx.ok(snapshot(plain, ids=True) == plain_before,
               "%s on a record changed an argument it was made from", text)
    # the class is as before too: a new one is made as ever
    again = ctx.value(attempt(lambda: r.cls(**copy.deepcopy(plain))), "again")
    y = ctx.value(attempt(lambda: r.cls(**copy.deepcopy(plain))), "again")
    ctx.ok(snapshot(again) == snapshot(y), "two records from the same "
           "arguments differ")
    # defaults are as declared
    for n, a in r.attrs.items():
        if n in plain or a.lazy or not a.default:
            continue
        v = getattr(again, n)
        ctx.ok(v == a.default_value, "default of %s is now %r, was %r", a, v,
               a.default_value)
    ctx.sig(r.describe(), plain)


def copies(ctx, rng):
    """Operations on a copy of a record never show in the original"""
    o = Options(p_default=.4, p_none=.2, p_null=.3)
    recs = schema(rng, o)
    r = recs[-1]
    ctx.log(r.describe())
    sibs = [r.make(rng, o)]
    for _ in range(rng.randrange(1, 4)):
        how = rng.choice([copy.copy, copy.copy, copy.deepcopy,
                          lambda x: copy.copy(copy.deepcopy(x))])
        sibs.append(ctx.value(attempt(how, rng.choice(sibs)), "copy"))
    held = [snapshot(x, ids=True) for x in sibs]
    for _ in range(rng.randrange(4, 10)):
        i = rng.randrange(len(sibs))
        text = mutate(ctx, rng, o, r, sibs[i], raw_only=True)
        ctx.log("record %d: %s" % (i, text))
        ctx.ev("copy_ops")
        for j, x in enumerate(sibs):
            now = snapshot(x, ids=True)
            if j != i:
                ctx.ok(now == held[j], "%s on one of a record and its copies "
                       "changed another: %r, was %r", text, now, held[j])
            held[j] = now
    ctx.sig(r.describe(), repr(held[0])[:80])


def copying(ctx, rng):
    """Copying values between records alters neither the source"""
    o = Options(kinds=["int", "str", "rec", "list", "dict", "list", "dict"])
    recs = schema(rng, o)
    r = recs[-1]
    ctx.log(r.describe())
    src = r.make(rng, o)
    before = snapshot(src, ids=True)
    ctx.log("source", src)
    # another class with collection types of its own, converting
    attrs = {}
    for n in set_names(src):
        t = r.attrs[n].type
        if t.kind == "list":
            attrs[n] = Property(isa=new_class(
                ListCollection, {"itemtype": t.item.isa()}, "Cp"))
        elif t.kind == "dict":
            attrs[n] = Property(isa=new_class(
                DictCollection, {"itemtype": t.item.isa()}, "Cp"))
        else:
            attrs[n] = Property()
    other = new_class(Record, attrs, "CopyTo")
    vals = dict((n, getattr(src, n)) for n in attrs)
    if rng.random() < .5:
        dst = ctx.value(attempt(lambda: other(**vals)), "copy by keywords")
    elif rng.random() < .5:
        dst = ctx.value(attempt(lambda: other(vals)), "copy by dict")
    else:
        dst = other()
        for n, v in vals.items():
            ctx.value(attempt(setattr, dst, n, v), "copy by assignment")
    ctx.ok(snapshot(src, ids=True) == before, "copying changed the source")
    for n in attrs:
        t = r.attrs[n].type
        v = getattr(dst, n)
        if t.kind == "list":
            v.append(t.item.gen(rng, o))
            v.reverse()
            v.pop()
            v[:] = []
        elif t.kind == "dict":
            v["n"] = t.item.gen(rng, o)
            v.clear()
        attempt(delattr, dst, n)
        ctx.ok(snapshot(src, ids=True) == before,
               "changing a converted copy of %s changed the source", n)
        ctx.ev("sibling_ops")
    ctx.sig(r.describe(), repr(before)[:50])


def auto(ctx, rng):
    """Schemaless records share nothing either"""
    cls = rng.choice([AutoJsonRecord, NCAutoJsonRecord])
    doc = {"a": rng.choice([1, [1], {"b": 2}, [{"c": 3}]]), "d": {"e": []}}
    before = snapshot(doc, ids=True)
    x, y, z = cls(doc), cls(doc), cls()
    w = cls()
    for rec in (x, z):
        rec.new = 5
        rec.a = 7
        attempt(delattr, rec, "d")
        if rec is x:
            rec.other = [1]
    y.d.e.append(4)
    ctx.ok(snapshot(doc, ids=True) == before, "%s altered its input",
           cls.__name__)
    ctx.equal(y.json_data()["a"], doc["a"], "another %s" % cls.__name__)
    ctx.equal(y.json_data()["d"], {"e": [4]}, "another %s" % cls.__name__)
    ctx.equal(w.json_data(), {}, "an empty %s" % cls.__name__)
    ctx.equal(cls().json_data(), {}, "a new %s" % cls.__name__)
    ctx.ev("auto")
    ctx.sig(cls.__name__, doc)


SCENARIOS = [("forms", forms, 2500, 60000),
             ("collections", collections, 1200, 20000),
             ("siblings", siblings, 3000, 80000),
             ("copying", copying, 1200, 20000),
             ("copies", copies, 1500, 40000),
             ("auto", auto, 50, 200)]
