"""C06: empty-safe accessors, against a model of the declared type graph."""
import itertools

import normalize.exc as exc
from mon.core import attempt, Violation
from mon.recmodel import new_class
from mon.sizes import few
from normalize import Property, Record, JsonRecord, ListProperty, DictProperty
from normalize.coll import ListCollection, DictCollection
from normalize.property import LazyProperty
from normalize.record.json import AutoJsonRecord  # noqa: F401

RULE = (
    "a case declares 2-6 record types over attribute names a-e whose types "
    "are earlier records, unions, typed lists/dicts, classes with call/item/"
    "getattr protocols, plain types or nothing, builds a partially set "
    "instance and follows 12 random access chains (attributes, items, "
    "slices, calls, iteration, assignments) through the empty-safe accessors in step "
    "with a model of the declared types; non-trivial: at least one chain "
    "continued past an unset attribute, distinct by declaration and chains")
ASSUMPTIONS = ["methods and other plain class attributes aren't followed"]
NEED = {"placeholder_steps": 8000, "set_reads": 2000, "NoSuchAttribute": 800,
        "NotSubscriptable": 300, "NotCallable": 200, "BadAssignment": 500,
        "any_steps": 1500, "iterated": 300}

ANY = "ANY"


class Callable(object):
    def __call__(self):
        return 1


class Subscriptable(object):
    def __getitem__(self, i):
        return 1


class Dynamic(object):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return 1


class Opaque(object):
    pass


class T(object):
    """A declared type, as the model sees it"""
    def __init__(self, real, attrs=None, item=None, call=False, dyn=False,
                 make=None):
        self.real = real
        self.attrs = attrs or {}        # name -> ANY | tuple of T
        self.item = item                # None | ANY | tuple of T
        self.call = call
        self.dyn = dyn
        self.make = make


PLAIN = [
    T(int, make=lambda r: r.choice([0, 5])),
    T(str, item=ANY, make=lambda r: r.choice(["", "abc"])),
    T(Callable, call=True, make=lambda r: Callable()),
    T(Subscriptable, item=ANY, make=lambda r: Subscriptable()),
    T(Dynamic, dyn=True, make=lambda r: Dynamic()),
    T(Opaque, make=lambda r: Opaque()),
]


def declare(rng):
    """-> list of record T's"""
    recs = []
    desc = []
    for i in range(rng.randrange(2, 7)):
        attrs = {}
        props = {}
        acc = {}
        base = Record
        if recs and rng.random() < .2:
            parent = rng.choice(recs)
            if parent.kind == "rec":
                base = parent.real
                attrs.update(parent.attrs)
                acc.update(parent.acc)
        kind = rng.choice(["rec", "rec", "rec", "list", "dict"])
        if kind != "rec" or base is not Record:
            pass
        names = "abcde" if rng.random() > .05 else "abcdefghijklm"
        for name in rng.sample(names, min(
                len(names), few(rng, 3, .04) + 1 if len(names) < 6 else
                rng.randrange(6, 12))):
            if name in attrs and rng.random() < .7:
                continue
            kw = {}
            r = rng.random()
            if r < .15 or (not recs and r < .3):
                t = ANY
                p = Property
            elif r < .45 and recs:
                t = (rng.choice(recs),)
                p = Property
            elif r < .6 and recs:
                pool = recs + PLAIN
                t = tuple(rng.sample(pool, min(len(pool), 2)))
                p = Property
            elif r < .75 and recs:
                it = rng.choice(recs + PLAIN[:2])
                p = ListProperty
                kw["of"] = it.real
                t = None
            elif r < .85 and recs:
                it = rng.choice(recs + PLAIN[:2])
                p = DictProperty
                kw["of"] = it.real
                t = None
            else:
                t = (rng.choice(PLAIN),)
                p = Property
            if p is Property and t is not ANY:
                kw["isa"] = t[0].real if len(t) == 1 else tuple(
                    x.real for x in t)
            accessor = name + "0"
            if rng.random() < .1:
                accessor = "maybe_" + name
                kw["empty_attr"] = accessor
            if rng.random() < .1:
                kw["traits"] = ["ro"]
            prop = p(**kw)
            if t is None:
                t = (T(prop.valuetype, item=(it,), make=None),)
                t[0].kind = "list" if p is ListProperty else "dict"
                t[0].attrs = {}
            attrs[name] = t
            acc[name] = accessor
            props[name] = prop
            desc.append("%d.%s:%s" % (i, name, "any" if t is ANY else [
                x.real.__name__ for x in t]))
        if kind == "rec" or base is not Record or not recs:
            kind = "rec"
            real = new_class(base, props, "E")
            new = T(real, attrs=attrs)
        else:
            it = rng.choice(recs + PLAIN[:2])
            props["itemtype"] = it.real
            real = new_class(
                ListCollection if kind == "list" else DictCollection, props,
                "EC")
            new = T(real, attrs=attrs, item=(it,))
        new.kind = kind
        new.acc = acc
        recs.append(new)
    return recs, desc


for _t in PLAIN:
    _t.kind = "plain"


def build(rng, t, depth=0):
    """A partially set instance of the type"""
    if t.kind == "plain":
        return t.make(rng)
    kw = {}
    for name, at in t.attrs.items():
        if rng.random() < (.55 if depth < 3 else .2):
            if at is ANY:
                kw[name] = rng.choice([None, 0, "", 7, [1], {}])
            else:
                kw[name] = build(rng, rng.choice(at), depth + 1)
    if t.kind == "rec":
        return t.real(**kw)
    n = rng.randrange(0, 3) if depth < 4 else 0
    items = [build(rng, t.item[0], depth + 1) for _ in range(n)]
    if t.kind == "list":
        return t.real(values=items, **kw)
    return t.real(values=dict(zip("xyz", items)), **kw)


def is_ph(v):
    return type(v).__name__ == "EmptyVal"


def chain(ctx, rng, root_t, root):
    """Follow one chain; -> its text"""
    text = ["rec"]
    cur, t = root, root_t       # a real object of model type t
    # real prefix
    for _ in range(6):
        if t.kind == "rec" or (t.attrs and rng.random() < .5):
            name = rng.choice(sorted(t.attrs))
            acc = t.acc[name]
            text.append("." + acc)
            ctx.log("".join(text))
            set_ = name in cur.__dict__
            got = attempt(getattr, cur, acc)
            ctx.ok(got.ok, "%s %r", "".join(text), got)
            if set_:
                ctx.ok(got.value is cur.__dict__[name],
                       "%s should be the stored %r, but is %r",
                       "".join(text), cur.__dict__[name], got.value)
                ctx.ev("set_reads")
                at = t.attrs[name]
                if at is ANY or type(got.value).__module__ == "builtins":
                    return text
                nt = [x for x in at if type(got.value) is x.real]
                if not nt or nt[0].kind == "plain":
                    return text
                cur, t = got.value, nt[0]
                if not hasattr(t, "acc"):
                    t.acc = {}
                continue
            ctx.ok(not got.value, "%s is unset but gives true %r",
                   "".join(text), got.value)
            return follow(ctx, rng, got.value, t.attrs[name], text)
        if t.kind in ("list", "dict") and len(cur):
            k = rng.randrange(len(cur)) if t.kind == "list" else \
                rng.choice(sorted(cur.keys()))
            cur, t = cur[k], t.item[0]
            text.append("[%r]" % (k,))
            if t.kind == "plain":
                return text
            continue
        return text
    return text


def first(ph):
    for x in ph:
        return [x]
    return []


def follow(ctx, rng, ph, types, text):
    """Follow a chain from a placeholder for the types (ANY or T's)"""
    ctx.ev("past_unset")
    for _ in range(rng.randrange(1, 7)):
        ctx.ok(not ph and bool(ph) is False, "%s is not false: %r",
               "".join(text), ph)
        ctx.ev("any_steps" if types is ANY else "placeholder_steps")
        step = rng.choice(["attr", "attr", "attr", "attr", "item", "item",
                           "slice", "call", "assign", "undeclared", "chk",
                           "iterate"])
        if step == "attr":
            pool = ["a", "b"] if types is ANY else sorted(
                set(n for x in types for n in x.attrs)) or ["a"]
            if types is not ANY and any(x.dyn for x in types):
                pool = pool + ["a"]
            name = rng.choice(pool)
            found = []
            if types is not ANY:
                for x in types:
                    if name in x.attrs:
                        found.append(x.attrs[name])
                    elif x.dyn:
                        found.append(ANY)
            suffix = ""
            if types is not ANY and not any(x.dyn for x in types) and found \
                    and all(getattr(x, "acc", {}).get(name) == name + "0"
                            for x in types if name in x.attrs):
                suffix = rng.choice(["", "0"])
            text.append("." + name + suffix)
            ctx.log("".join(text))
            got = attempt(getattr, ph, name + suffix)
            if types is ANY:
                new = ANY
            elif not found:
                ctx.raised(got, exc.NoSuchAttribute, "".join(text))
                ctx.ok(isinstance(got.exc, AttributeError), "%r", got)
                ctx.ev("NoSuchAttribute")
                text.pop()
                continue
            elif ANY in found:
                new = ANY
            else:
                new = []
                for f in found:
                    for x in f:
                        if x not in new:
                            new.append(x)
            v = ctx.value(got, "".join(text))
            ctx.ok(not v, "%s gives true %r", "".join(text), v)
            ph, types = v, new
        elif step == "item":
            k = rng.choice([0, 3, -1, "x", "nope"])
            text.append("[%r]" % (k,))
            ctx.log("".join(text))
            got = attempt(lambda: ph[k])
            if types is ANY:
                new = ANY
            else:
                found = [x.item for x in types if x.item is not None]
                if not found:
                    ctx.raised(got, exc.NotSubscriptable, "".join(text))
                    ctx.ok(isinstance(got.exc, TypeError), "%r", got)
                    ctx.ev("NotSubscriptable")
                    text.pop()
                    continue
                new = ANY if ANY in found else [
                    x for f in found for x in f]
            v = ctx.value(got, "".join(text))
            ctx.ok(not v, "%s gives true %r", "".join(text), v)
            ph, types = v, new
        elif step == "slice":
            if types is not ANY and not any(x.item for x in types):
                continue        # not specified
            text.append("[1:]")
            v = ctx.value(attempt(lambda: ph[1:]), "".join(text))
            ctx.ok(not v, "%s gives true %r", "".join(text), v)
            if types is ANY or not any(x.item is ANY for x in types):
                ph = v          # a slice of a list is a list
            else:
                return text
        elif step == "call":
            text.append("()")
            ctx.log("".join(text))
            got = attempt(lambda: ph())
            if types is not ANY and not any(x.call for x in types):
                ctx.raised(got, exc.NotCallable, "".join(text))
                ctx.ok(isinstance(got.exc, TypeError), "%r", got)
                ctx.ev("NotCallable")
                text.pop()
                continue
            v = ctx.value(got, "".join(text))
            ctx.ok(not v, "%s gives true %r", "".join(text), v)
            ph, types = v, ANY
        elif step == "assign":
            how = rng.randrange(2)
            name = rng.choice("abz")
            ctx.log("".join(text), "assignment", how)
            got = attempt(setattr, ph, name, 5) if how else attempt(
                ph.__setitem__, 0, 5)
            ctx.raised(got, exc.BadAssignment, "assignment through %s" %
                       "".join(text))
            ctx.ev("BadAssignment")
            after = attempt(getattr, ph, name)
            ctx.ok(not after.ok or not after.value,
                   "assignment through %s was refused, but %s reads %r",
                   "".join(text), name, after)
        elif step == "undeclared":
            if types is ANY or any(x.dyn for x in types):
                continue
            got = attempt(getattr, ph, "zz_undeclared")
            ctx.raised(got, exc.NoSuchAttribute,
                       "".join(text) + ".zz_undeclared")
            ctx.ev("NoSuchAttribute")
        elif step == "iterate":
            ctx.log("".join(text), "iterated over")
            how = rng.randrange(3)
            got = attempt(lambda: list(itertools.islice(ph, 5))) \
                if how == 0 else attempt(first, ph) if how == 1 else \
                attempt(lambda: [x for x in itertools.islice(
                    itertools.chain([], ph), 5) if x is ph])
            if types is not ANY and not any(x.item for x in types):
                ctx.raised(got, exc.NotSubscriptable,
                           "iterating over " + "".join(text))
                ctx.ev("NotSubscriptable")
                continue
            ctx.equal(ctx.value(got, "iterating over " + "".join(text)), [],
                      "the items of " + "".join(text))
            ctx.ev("iterated")
        else:
            ctx.value(attempt(repr, ph), "repr of " + "".join(text))
            ctx.value(attempt(str, ph), "str of " + "".join(text))
    return text


def state(obj):
    if isinstance(obj, Record):
        return (type(obj), sorted(
            (k, id(v)) for k, v in obj.__dict__.items() if k != "_values"),
            [state(v) for v in obj.__dict__.values()])
    if isinstance(obj, list):
        return [(id(x), state(x)) for x in obj]
    if isinstance(obj, dict):
        return sorted((str(k), id(v)) for k, v in obj.items())
    return id(obj)


def graph(ctx, rng):
    recs, desc = declare(rng)
    for d in desc:
        ctx.log("declare", d)
    root_t = rng.choice([r for r in recs if r.kind == "rec"])
    root = build(rng, root_t)
    ctx.log("instance", root)
    before = state(root)
    n0 = ctx.events["past_unset"]
    texts = []
    for _ in range(12):
        texts.append("".join(chain(ctx, rng, root_t, root)))
        ctx.ev("chains")
    ctx.ok(state(root) == before,
           "reading through empty-safe accessors changed the record: %r",
           root)
    if ctx.events["past_unset"] > n0:
        ctx.sig(*(desc + texts))


def misc(ctx, rng):
    """Accessor existence and lazy attributes"""
    calls = []
    value = rng.choice([0, "", None, 7, "x"])

    def dflt():
        calls.append(1)
        return value
    stem = rng.choice(["name", "x1", "n9", "long_name"])
    kw = {}
    if rng.random() < .3:
        kw["empty_attr"] = None
    elif rng.random() < .3:
        kw["empty_attr"] = "safe_" + stem
    cls = new_class(Record, {stem: Property(**kw),
                             "lz": LazyProperty(default=dflt)})
    acc = kw.get("empty_attr", stem + "0" if stem[-1] not in "0123456789"
                 else None)
    rec = cls()
    ctx.log("declare", stem, kw, "value", value)
    if acc is None:
        got = attempt(getattr, rec, stem + "0")
        ctx.raised(got, AttributeError, "accessor of %s" % stem)
    else:
        v = ctx.value(attempt(getattr, rec, acc), acc)
        ctx.ok(not v and not v.anything[3:4][0].at_all,
               "untyped placeholder isn't false")
        ctx.raised(attempt(getattr, rec, stem), AttributeError, stem)
        setattr(rec, stem, value)
        ctx.ok(getattr(rec, acc) is value, "%s should be %r", acc, value)
        delattr(rec, stem)
        v2 = ctx.value(attempt(getattr, rec, acc), acc)
        ctx.ok(not v2 and v2 is not value or value is None or not value,
               "%s after deletion: %r", acc, v2)
    ctx.ok(rec.lz0 is value and rec.lz is value and len(calls) == 1,
           "lazy accessor: %r after %d calls", rec.lz0, len(calls))
    ctx.ev("accessors")
    ctx.sig(stem, kw, value)


SCENARIOS = [("graph", graph, 5000, 150000), ("misc", misc, 200, 2000)]
