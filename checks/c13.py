"""C13: pickle, copy, deepcopy and repr reproduce the object."""
import copy
import datetime
import pickle

import normalize
import normalize.exc as exc
from mon.core import attempt
from mon.recmodel import DYN, new_class
from mon.shapes import D, Options, T, a_type, schema, snapshot
from normalize import (
    DictProperty, JsonRecord, ListProperty, Property, Record,
)
from normalize.coll import (
    Collection, DictCollection, ListCollection, dict_of, list_of,
)
from normalize.diff import Diff, DiffInfo
from normalize.record.json import (
    AutoJsonRecord, JsonDiff, JsonRecordDict, JsonRecordList,
    NCAutoJsonRecord,
)
from normalize.selector import FieldSelector, MultiFieldSelector

RULE = (
    "a case builds a record, collection, selector or difference (of 1-4 "
    "generated classes, in a random state), reproduces it by every pickle "
    "protocol, copy, deepcopy and (where it has one) evaluation of its repr, "
    "compares the states of original and reproduction by structure, and then "
    "applies the same random operations to both and compares what they do; "
    "non-trivial: the object has at least one set attribute, item or step; "
    "distinct by class and content")
ASSUMPTIONS = [
    "an attribute whose default was deleted is set again by evaluating the "
    "repr (not judged)",
    "declared classes are importable under their own name",
    "two generated collection classes of one name (list_of() and a JSON list "
    "of the same items) can't both be in scope of a repr",
    "the repr of difference objects isn't an expression"]
NEED = {"pickled": 40000, "copied": 6000, "deepcopied": 6000, "reprs": 5000,
        "later_ops": 8000, "lazy_unset": 150, "selectors": 500,
        "differences": 400, "counted": 400, "unknown_keys": 400,
        "same names": 80,
        "old pickles": 50}


def same_state(ctx, what, orig, got):
    ctx.ok(type(got) is type(orig), "%s of %r is a %s, not a %s", what, orig,
           type(got).__name__, type(orig).__name__)
    a, b = snapshot(orig), snapshot(got)
    ctx.ok(a == b, "%s of %r has another state: %r", what, orig, got)


def mutable_ids(x, out=None):
    """ids of all mutable parts"""
    if out is None:
        out = {}
    if id(x) in out:
        return out
    if isinstance(x, Record):
        out[id(x)] = x
        for v in x.__dict__.values():
            mutable_ids(v, out)
    elif isinstance(x, dict):
        out[id(x)] = x
        for v in x.values():
            mutable_ids(v, out)
    elif isinstance(x, (list, tuple)):
        if not isinstance(x, tuple):
            out[id(x)] = x
        for v in x:
            mutable_ids(v, out)
    return out


def namespace():
    ns = dict(vars(DYN))
    ns.update(vars(normalize))
    ns["datetime"] = datetime
    for cls in (AutoJsonRecord, NCAutoJsonRecord, FieldSelector,
                MultiFieldSelector):
        ns[cls.__name__] = cls
    return ns


def reproductions(ctx, orig, use_repr=True, shared=()):
    """-> [(how, the reproduced object)], after judging their states"""
    before = snapshot(orig, ids=True)
    out = []
    for proto in range(pickle.HIGHEST_PROTOCOL + 1):
        data = ctx.value(attempt(pickle.dumps, orig, proto),
                         "pickle protocol %d of %r" % (proto, orig))
        got = ctx.value(attempt(pickle.loads, data),
                        "unpickle protocol %d of %r" % (proto, orig))
        same_state(ctx, "pickle protocol %d" % proto, orig, got)
        ctx.ev("pickled")
        out.append(("pickle %d" % proto, got))
    got = ctx.value(attempt(copy.copy, orig), "copy of %r" % orig)
    ctx.ok(got is not orig, "copy is the same object")
    same_state(ctx, "copy", orig, got)
    ctx.ev("copied")
    out.append(("copy", got))
    got = ctx.value(attempt(copy.deepcopy, orig), "deepcopy of %r" % orig)
    same_state(ctx, "deepcopy", orig, got)
    both = set(mutable_ids(orig)) & set(mutable_ids(got))
    ctx.ok(not both, "deepcopy of %r shares mutable parts with it", orig)
    ctx.ev("deepcopied")
    out.append(("deepcopy", got))
    ns = namespace()
    for part in mutable_ids(orig).values():
        if isinstance(part, Collection) and hasattr(part, "generic_key"):
            cls = type(part)
            if ns.setdefault(cls.__name__ + "!", cls) is not cls:
                use_repr = False    # two classes of one name
            ns[cls.__name__] = cls
    if use_repr:
        text = ctx.value(attempt(repr, orig), "repr")
        got = ctx.value(attempt(eval, text, ns),
                        "evaluating the repr %s" % text)
        same_state(ctx, "repr", orig, got)
        ctx.ev("reprs")
        out.append(("repr", got))
    ctx.ok(snapshot(orig, ids=True) == before,
           "reproducing %r changed it", orig)
    return out


def equal(ctx, how, orig, got):
    ctx.ok(got == orig and orig == got and not (got != orig),
           "%s of %r isn't equal to it: %r", how, orig, got)


def outcome(got):
    if got.exc is not None:
        return type(got.exc)
    return snapshot(got.value)


class Alien(object):
    def __eq__(self, other):
        return type(other) is Alien

    def __hash__(self):
        return 7

    def __repr__(self):
        return "Alien()"


def random_ops(rng, o, r):
    """Operations which can be applied to any instance of the class"""
    ops = []
    for _ in range(rng.randrange(1, 6)):
        a = rng.choice(list(r.attrs.values()))
        n = a.name
        k = rng.randrange(6)
        if k == 0:
            ops.append(("read " + n, lambda x, n=n: getattr(x, n)))
        elif k == 1:
            d = a.type.desc(rng, o, 2)
            ops.append(("set %s" % n,
                        lambda x, n=n, d=d: setattr(x, n, d.build())))
        elif k == 2:
            ops.append(("set %s wrongly" % n, lambda x, n=n: setattr(
                x, n, Alien())))
        elif k == 3:
            ops.append(("delete %s" % n, lambda x, n=n: delattr(x, n)))
        elif k == 4:
            def empty(x, n=n):
                v = getattr(x, n + "0")
                return bool(v)
            ops.append(("read %s0" % n, empty))
        elif a.type.kind == "list":
            bad = rng.random() < .4
            d = None if bad else a.type.item.desc(rng, o, 2)

            def app(x, n=n, d=d):
                getattr(x, n).append(Alien() if d is None else d.build())
            ops.append(("append to %s %r" % (n, d), app))
        elif a.type.kind == "dict":
            bad = rng.random() < .4
            d = None if bad else a.type.item.desc(rng, o, 2)

            def put(x, n=n, d=d):
                getattr(x, n)["k9"] = Alien() if d is None else d.build()
            ops.append(("set item of %s %r" % (n, d), put))
        else:
            ops.append(("json", lambda x: normalize.to_json(x)))
    return ops


def records(ctx, rng):
    o = Options(p_none=.2, p_null=.4, p_unset=.3, p_lazy=.2, p_ro=.2, p_extraneous=.2,
                keys=rng.choice([["k1", "k2", "(x", "[y"], [1, 2, 3]]))
    recs = schema(rng, o)
    r = recs[-1]
    ctx.log(r.describe())
    d = r.desc(rng, o)
    x = ctx.value(attempt(d.build), "build %r" % d)
    for a in r.attrs.values():
        if a.lazy and a.name not in d.content:
            if rng.random() < .4:
                getattr(x, a.name)      # computed
            else:
                ctx.ev("lazy_unset")
    # some deletions and assignments, to reach more states
    deleted_default = False
    for a in r.attrs.values():
        if rng.random() < .15 and not a.required and not a.ro:
            if attempt(delattr, x, a.name).ok and a.default:
                deleted_default = not a.lazy or deleted_default
    calls = [(a, len(a.calls)) for q in recs for a in q.attrs.values()]
    ctx.log("instance", x)
    repros = reproductions(ctx, x, use_repr=not deleted_default)
    for a, n in calls:
        extra = len(a.calls) - n
        ctx.ok(extra == 0 or not set_here(x, a), "reproducing %r called the "
               "default of %s, which was set", x, a.name)
    ctx.ev("counted")
    # the same operations do the same to original and reproduction
    how, y = rng.choice(repros)
    if how == "copy":
        y = repros[rng.randrange(6)][1]
    z = x if rng.random() < .5 else copy.deepcopy(x)
    for what, op in random_ops(rng, o, r):
        p, q = attempt(op, z), attempt(op, y)
        ctx.ok(outcome(p) == outcome(q), "%s: after %s, the original %r, and "
               "the reproduction %r", what, how, p, q)
        ctx.ok(snapshot(z) == snapshot(y), "%s: after %s, the original "
               "became %r and the reproduction %r", what, how, z, y)
        ctx.ev("later_ops")
    equal(ctx, how, z, y)
    # attributes set on a shallow copy aren't those of the original
    c = repros[6][1]
    before = snapshot(x)
    for a in r.attrs.values():
        if rng.random() < .5:
            attempt(setattr, c, a.name, a.type.desc(rng, o, 2).build())
        else:
            attempt(delattr, c, a.name)
    ctx.ok(snapshot(x) == before, "changing the attributes of a copy changed "
           "the original to %r", x)
    if d.content:
        ctx.sig(r.describe(), d)


def set_here(x, attr):
    """Is the attribute set in every record which has it, within x?"""
    for y in mutable_ids(x).values():
        if isinstance(y, Record) and attr.name in type(y).properties and \
                attr.name not in y.__dict__:
            return False
    return True


def colls(ctx, rng):
    o = Options(kinds=["list", "dict"], p_lazy=.1,
                item_kinds=["int", "str", "rec", "rec", "float", "date"],
                keys=rng.choice([["k1", "k2", "{", "(["], [1, 2, 3]]))
    recs = schema(rng, Options(kinds=["int", "str", "date", "any"]), 1)
    t = a_type(rng, o, recs, rng.random() < .4)
    kw = {}
    if rng.random() < .7:
        # with attributes of its own
        props = {"label": Property(isa=str), "page": Property(isa=int),
                 "hidden": Property(extraneous=True),
                 "computed": Property(lazy=True, default=lambda: [1])}
        if hasattr(t.cls, "generic_key") and rng.random() < .5:
            # a generic one which extends the user's
            t.cls = (ListProperty if t.kind == "list" else DictProperty)(
                of=t.item.isa(), coll=new_class(
                    ListCollection if t.kind == "list" else DictCollection,
                    props, "Y" + t.kind)).valuetype
        else:
            t.cls = new_class(t.cls, props, "X" + t.kind)
        for n, v in (("label", "x [y] {z} ("), ("page", 0), ("hidden", 5)):
            if rng.random() < .5:
                kw[n] = v
    d = t.desc(rng, o)
    plain = [x.build() for k, x in d.content] if t.kind == "list" else dict(
        (k, x.build()) for k, x in d.content)
    x = ctx.value(attempt(lambda: t.cls(values=plain, **kw)), "build")
    if kw and rng.random() < .3:
        delattr(x, rng.choice(list(kw)))
    ctx.log("collection", x)
    repros = reproductions(ctx, x)
    for how, y in repros:
        equal(ctx, how, x, y)
    # the reproduction is a collection of its own, of the same kind
    how, y = rng.choice(repros)
    before = snapshot(x)
    z = copy.deepcopy(x)
    for _ in range(rng.randrange(1, 5)):
        k = rng.randrange(6)
        bad = rng.random() < .3
        item = Alien() if bad and t.item.kind != "str" else \
            t.item.desc(rng, o, 2).build()
        if t.kind == "list":
            op = [lambda c: c.append(item), lambda c: c.pop(),
                  lambda c: c.__setitem__(0, item), lambda c: c.reverse(),
                  lambda c: c.extend([item, item]), lambda c: c[:]][k]
        else:
            op = [lambda c: c.__setitem__("n", item),
                  lambda c: c.pop("k1"), lambda c: c.update({"m": item}),
                  lambda c: c.clear(), lambda c: c.keys(),
                  lambda c: sorted(map(repr, c.values()))][k]
        p, q = attempt(op, z), attempt(op, y)
        ctx.ok(outcome(p) == outcome(q) and snapshot(z) == snapshot(y),
               "after %s: the original %r, now %r; the reproduction %r, now "
               "%r", how, p, z, q, y)
        ctx.ev("later_ops")
    ctx.ok(snapshot(x) == before, "changing the %s of a collection changed "
           "the original, to %r", how, x)
    if d.content or kw:
        ctx.sig(t.kind, d, sorted(kw))


STEPS = ["a", "b", "", "it's", 'q"', "a.b", "\\", "n\nl", u"\u4e2d", 0, 1,
         -1, 10 ** 20]


def selectors(ctx, rng):
    def steps(wild=True):
        return [rng.choice(STEPS + ([None, None] if wild else []))
                for _ in range(rng.randrange(5))]
    s = steps()
    f = FieldSelector(s)
    ctx.log("selector", s)
    for how, y in reproductions_of_selector(ctx, f):
        ctx.ok(type(y) is FieldSelector and y == f and y.path == f.path and
               hash(y) == hash(f) and y.selectors == s,
               "%s of selector %r is %r", how, s, y)
        # it's a selector of its own
        y.add_property("more")
        y.add_index(3)
        y.add_full_collection()
        y.extend(f)
        ctx.equal(y.selectors, s + ["more", 3, None] + s, "extended")
        ctx.equal(f.selectors, s, "selector, after extending its %s" % how)
    many = [steps(False) for _ in range(rng.randrange(5))]
    many = [m for m in many if m]
    m = MultiFieldSelector(*many)
    ctx.log("multi", many)
    for how, y in reproductions_of_selector(ctx, m):
        ctx.ok(type(y) is MultiFieldSelector, "%s of %r is %r", how, m, y)
        ctx.ok(sorted(map(repr, y)) == sorted(map(repr, m)),
               "%s of %r is %r", how, m, y)
        ctx.ok(y.complete == m.complete and bool(y) == bool(m),
               "%s of %r differs", how, m)
        for p in many + [steps() for _ in range(3)]:
            ctx.ok(attempt(lambda: p in y).value ==
                   attempt(lambda: p in m).value,
                   "%s of %r disagrees on %r", how, m, p)
    # in complete form
    c = MultiFieldSelector([None])
    for how, y in reproductions_of_selector(ctx, c):
        ctx.ok(y.complete and ["x", 1] in y and list(y) == list(c),
               "%s of the complete selector", how)
    ctx.ev("selectors")
    if s and many:
        ctx.sig(s, many)


def reproductions_of_selector(ctx, f):
    out = []
    for proto in range(pickle.HIGHEST_PROTOCOL + 1):
        got = attempt(lambda: pickle.loads(pickle.dumps(f, proto)))
        out.append(("pickle %d" % proto, ctx.value(got, "pickle")))
        ctx.ev("pickled")
    out.append(("copy", ctx.value(attempt(copy.copy, f), "copy")))
    out.append(("deepcopy", ctx.value(attempt(copy.deepcopy, f), "deep")))
    text = ctx.value(attempt(repr, f), "repr")
    out.append(("repr", ctx.value(attempt(eval, text, namespace()),
                                  "evaluating the repr %s" % text)))
    ctx.ev("copied")
    ctx.ev("deepcopied")
    ctx.ev("reprs")
    return out


def differences(ctx, rng):
    from mon.shapes import d_edit
    o = Options(p_lazy=0, p_extraneous=0, kinds=[
        "int", "str", "rec", "list", "dict", "list"], ints=[0, 1, 2],
        words=["a", "b", "c"], keys=["k1", "k2"], p_pk=0,
        item_kinds=["rec", "int", "str"])
    recs = schema(rng, o)
    r = recs[-1]
    d = r.desc(rng, o)
    e = d
    for _ in range(rng.randrange(1, 4)):
        e, what = d_edit(rng, o, e)
    x, y = d.build(), e.build()
    got = attempt(lambda: x.diff(y, **(
        {"unchanged": True} if rng.random() < .2 else {})))
    diff = ctx.value(got, "diff of %r and %r" % (x, y))
    ctx.log("diff", diff)
    ctx.ok(type(diff) is (JsonDiff if r.json else Diff), "type of diff")
    states = lambda df: [
        (type(i).__name__, i.diff_type.canonical_name, i.base.selectors,
         i.other.selectors) for i in df] + [
             df.base_type_name, df.other_type_name]
    want = states(diff)
    for how, y in reproductions_simple(ctx, diff):
        ctx.ok(type(y) is type(diff) and y == diff and states(y) == want and
               str(y) == str(diff) and repr(y) == repr(diff),
               "%s of %r is %r", how, diff, y)
        ctx.ok(list(y.iter()) == list(diff.iter()) if hasattr(
            diff, "iter") else True, "iteration")
        y.pop() if len(y) else None
        ctx.ok(states(diff) == want, "changing the %s of a difference "
               "changed it", how)
    for i in list(diff)[:3]:
        for how, y in reproductions_simple(ctx, i):
            ctx.ok(type(y) is type(i) and y == i and
                   y.diff_type == i.diff_type and str(y) == str(i) and
                   y.base == i.base and y.other == i.other and
                   (not r.json or y.json_data() == i.json_data()),
                   "%s of %r is %r", how, i, y)
    ctx.ev("differences")
    if len(diff):
        ctx.sig(want)


def reproductions_simple(ctx, x):
    out = []
    for proto in range(pickle.HIGHEST_PROTOCOL + 1):
        got = attempt(lambda: pickle.loads(pickle.dumps(x, proto)))
        out.append(("pickle %d" % proto, ctx.value(got, "pickle of %r" % x)))
        ctx.ev("pickled")
    out.append(("copy", ctx.value(attempt(copy.copy, x), "copy")))
    out.append(("deepcopy", ctx.value(attempt(copy.deepcopy, x), "deep")))
    ctx.ev("copied")
    ctx.ev("deepcopied")
    return out


class Cell(object):
    """A value which can be reproduced, and counts its conversions"""
    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Cell) and self.n == other.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return "Cell(%r)" % self.n


def hooks(ctx, rng):
    """No default, converter or check runs again"""
    counts = {"default": 0, "coerce": 0, "check": 0, "lazy": 0}

    def count(what, value):
        def f(*a):
            counts[what] += 1
            return value(*a)
        return f
    base = rng.choice([Record, JsonRecord])
    props = {}
    for n in rng.sample(["a", "b", "c", "d", "e"], rng.randrange(1, 6)):
        kw = {}
        if rng.random() < .6:
            kw["isa"] = Cell
            kw["coerce"] = count("coerce", Cell)
        if rng.random() < .5:
            kw["check"] = count("check", lambda v: True)
        k = rng.randrange(4)
        if k == 0:
            kw["default"] = count("default", lambda: Cell(1))
        elif k == 1:
            kw["default"] = count("lazy", lambda: Cell(2))
            kw["lazy"] = True
        elif k == 2:
            kw["required"] = True
        if rng.random() < .3:
            kw["traits"] = ["ro"]
        elif rng.random() < .3:
            kw["traits"] = ["unsafe"]
        if rng.random() < .2:
            kw["extraneous"] = True
        props[n] = (kw, Property(**kw))
    cls = new_class(base, dict((n, p) for n, (kw, p) in props.items()), "H")
    x = cls(**dict((n, rng.choice([5, Cell(7)]) if "coerce" in kw else
                    Cell(3)) for n, (kw, p) in props.items()
                   if kw.get("required") or rng.random() < .6))
    for n, (kw, p) in props.items():
        if kw.get("lazy") and rng.random() < .5:
            attempt(getattr, x, n)
    # what is set stays so; within a list and an untyped attribute as well
    holder = new_class(Record, {"x": Property(), "xs": Property()}, "Ho")
    thing = rng.choice([x, holder(x=x, xs=[x, x]), ListCollection and
                        new_class(ListCollection, {"itemtype": cls}, "Hl")(
                            [x, x]),
                        dict_of(cls)({"p": x})])
    ctx.log("counting", sorted((n, sorted(kw)) for n, (kw, p)
                               in props.items()), x)
    before = dict(counts)
    state = snapshot(x)
    DYN.Cell = Cell
    got = []
    for proto in range(pickle.HIGHEST_PROTOCOL + 1):
        got.append(pickle.loads(pickle.dumps(thing, proto)))
        ctx.ev("pickled")
    got.append(copy.copy(thing))
    got.append(copy.deepcopy(thing))
    repr(thing), str(thing) if not isinstance(thing, Record) else None
    after = dict(counts)
    ctx.ok(before == after, "pickling or copying %r called %r times default, "
           "converter or check functions (before %r)", thing, after, before)
    for y in got:
        ctx.ok(snapshot(y) == snapshot(thing), "reproduced as %r", y)
    # sharing within is kept by deep copies and pickles
    if isinstance(thing, Record) and hasattr(thing, "xs"):
        for y in got:
            if y.x is not x:
                ctx.ok(y.x is y.xs[0] is y.xs[1], "shared record split")
    ctx.ok(snapshot(x) == state, "original changed")
    # unset lazy attributes of a reproduction are still computed when read
    y = got[rng.randrange(6)]
    if isinstance(y, cls):
        for n, (kw, p) in props.items():
            if kw.get("lazy") and n not in x.__dict__:
                ctx.equal(getattr(y, n), Cell(2), "lazy, after copying")
                ctx.ok(n not in x.__dict__, "computed in the original")
            if "ro" in kw.get("traits", ()) and n in y.__dict__:
                ctx.raised(attempt(setattr, y, n, Cell(1)),
                           exc.ReadOnlyAttributeError, "read-only, reproduced")
    ctx.ev("counted")
    ctx.sig(snapshot(thing)[2:])


def cycles(ctx, rng):
    cls = new_class(rng.choice([Record, JsonRecord]), {
        "name": Property(), "other": Property(extraneous=True),
        "children": Property()}, "Cy")
    a, b = cls(name="a"), cls(name="b")
    a.other, b.other = b, a
    a.children = [b, a] if rng.random() < .5 else {"b": b, "a": a}
    for proto in range(pickle.HIGHEST_PROTOCOL + 1):
        x = ctx.value(attempt(lambda: pickle.loads(pickle.dumps(a, proto))),
                      "pickle of a cycle")
        check_cycle(ctx, a, x)
        ctx.ev("pickled")
    x = ctx.value(attempt(copy.deepcopy, a), "deepcopy of a cycle")
    check_cycle(ctx, a, x)
    ctx.sig(type(a.children).__name__)


def check_cycle(ctx, a, x):
    c = x.children
    if isinstance(c, dict):
        c = [c["b"], c["a"]]
    ctx.ok(x is not a and x.other is not a.other and x.other.other is x and
           c[0] is x.other and c[1] is x and x.name == "a" and
           x.other.name == "b", "cycle not reproduced")


def unknown(ctx, rng):
    """JSON records with unknown keys, and schemaless ones"""
    def doc(depth=0):
        out = {}
        for _ in range(rng.randrange(4)):
            k = rng.choice(["a", "bC", "d_e", "fooBar", "x", "items_", "z9"])
            r = rng.randrange(6)
            out[k] = rng.choice([0, "", None, True, 1.5, u"\u00e9", []]) \
                if r < 3 or depth > 2 else \
                doc(depth + 1) if r == 3 else \
                [doc(depth + 1) for _ in range(rng.randrange(3))] if r == 4 \
                else [1, "x", None]
        return out
    base = rng.choice([JsonRecord, AutoJsonRecord, NCAutoJsonRecord])
    cls = new_class(base, {
        "known": Property(json_name="Known"), "plain": Property(isa=int),
        "lazy": Property(lazy=True, default=lambda: 5)}, "U")
    data = doc()
    if rng.random() < .5:
        data["Known"] = doc(2)
    if rng.random() < .5:
        data["plain"] = 0
    x = cls(copy.deepcopy(data))
    ctx.log("document", data)
    has = hasattr(x, "unknown_json_keys")
    for how, y in reproductions(ctx, x):
        equal(ctx, how, x, y)
        ctx.ok(y.json_data(extraneous=True) == x.json_data(extraneous=True),
               "%s of %r has other JSON output", how, x)
        ctx.ok(hasattr(y, "unknown_json_keys") == has, "unknown keys")
        if how != "copy" and has:
            y.unknown_json_keys["more"] = 1
            ctx.ok("more" not in x.unknown_json_keys, "shared unknown keys")
        if issubclass(base, AutoJsonRecord):
            y.something_new = 5
            ctx.ok(y.something_new == 5 and
                   not hasattr(x, "something_new"),
                   "attribute set on the %s appears in the original", how)
            ctx.raised(attempt(getattr, y, "no_such"), AttributeError,
                       "missing attribute after %s" % how)
        ctx.ev("unknown_keys")
    if data:
        ctx.sig(base.__name__, data)


def names(ctx, rng):
    """Generated collection classes, next to the user's of the same name"""
    item = new_class(rng.choice([Record, JsonRecord]),
                     {"n": Property(isa=int)}, "Named")
    lists = rng.random() < .5
    make = list_of if lists else dict_of
    base = ListCollection if lists else DictCollection
    name = item.__name__ + base.suffix
    generic = make(item) if rng.random() < .5 else None
    kind = rng.randrange(2)
    if kind == 0:
        own = type(base)(name, (base,), {
            "itemtype": item, "__module__": DYN.__name__,
            "label": Property(isa=str)})
        a = own(values=[item(n=1)] if lists else {"k": item(n=1)}, label="x")
    else:
        own = type(Record)(name, (Record,), {
            "n": Property(isa=int), "__module__": DYN.__name__})
        a = own(n=5)
    setattr(DYN, name, own)
    ctx.log("class", own, "and", make, "before" if generic else "after")
    for _ in range(rng.randint(1, 2)):
        if rng.random() < .5:
            again = make(item)
        else:
            again = (ListProperty if lists else DictProperty)(
                of=item).valuetype
        generic = generic or again
        ctx.ok(again is generic, "another generic type for %s", item)
    g = generic(values=[item(n=2)] if lists else {"k": item(n=2)})
    for x in (a, g, new_class(Record, {"x": Property()}, "Ho")(x=[a, g])):
        reproductions(ctx, x, use_repr=False)
    ctx.ev("same names")
    ctx.sig("names", lists, kind, generic is None)


def old_pickles(ctx, rng):
    """Pickles which name the built-in types as Python 2 did"""
    t, values = rng.choice([(int, [1, 0, -5]), (float, [.5, 1.]),
                            (str, ["x", "", u"\u00e9"]), (bool, [True])])
    items = [rng.choice(values) for _ in range(rng.randrange(4))]
    x = list_of(t)(items) if rng.random() < .5 else dict_of(t)(
        dict(zip("klm", items)))
    holder = rng.random() < .5
    whole = new_class(Record, {"x": Property()}, "Ho")(x=x) if holder else x
    data = pickle.dumps(whole, 0)
    old = data.replace(b"builtins.%s\n" % t.__name__.encode(),
                       b"__builtin__.%s\n" % t.__name__.encode())
    ctx.log("pickle", data)
    ctx.ok(old != data, "the type of the items isn't in %r", data)
    got = ctx.value(attempt(pickle.loads, old), "unpickle %r" % old)
    same_state(ctx, "pickle naming __builtin__", whole, got)
    # and what is read can be pickled again
    got = ctx.value(attempt(lambda: pickle.loads(pickle.dumps(got))), "again")
    same_state(ctx, "pickle of what was read", whole, got)
    ctx.ev("old pickles")
    ctx.sig("old", repr(x))


SCENARIOS = [
    ("old_pickles", old_pickles, 100, 1000),
    ("names", names, 150, 2000),
    ("records", records, 3000, 50000), ("colls", colls, 1200, 20000),
    ("selectors", selectors, 700, 10000),
    ("differences", differences, 700, 10000),
    ("hooks", hooks, 700, 10000), ("unknown", unknown, 500, 10000),
    ("cycles", cycles, 20, 100)]
