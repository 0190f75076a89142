"""C17: schemaless JSON records give access to everything they were given."""
import copy
import json

from mon.core import attempt
from mon.jsonmodel import plain, same_json
from mon.recmodel import new_class
from mon.shapes import snapshot
from mon.sizes import few, more_keys
from normalize import JsonRecord, Property, from_json, to_json
from normalize.coll import ListCollection
from normalize.record.json import AutoJsonRecord, NCAutoJsonRecord

RULE = (
    "a case constructs a schemaless record (of either variant, or a subclass "
    "with declared attributes) from a generated JSON object in a random form, "
    "reads everything in it by attribute access at every depth and compares "
    "its output with the document; then runs a random history of reads, "
    "assignments and deletions against a dictionary model, at random depths, "
    "comparing reads, errors, presence and output after each; non-trivial: "
    "the document has at least one key; distinct by document and history")
ASSUMPTIONS = [
    "keys are identifiers, not starting with an underscore and not names of "
    "attributes or methods of the class",
    "no two keys of one object have the same attribute name",
    "lists which are not (non-empty) lists of objects only are given as they "
    "are", "integers beyond 2**50 are written as text"]
NEED = {"documents": 2500, "reads": 20000, "converted": 700, "missing": 5000,
        "objects": 3000, "object_lists": 1200, "assigned": 2500,
        "deleted": 1000, "outputs": 8000, "irreversible": 250,
        "nested_ops": 2000}

LOWER = "abcdefghijklmnopqrstuvwxyz"


def key_in(k):
    """camelCase -> camel_case"""
    out = ""
    for i, c in enumerate(k):
        if "A" <= c <= "Z" and i and (k[i - 1] in LOWER or
                                      k[i - 1] in "0123456789"):
            out += "_" + c.lower()
        else:
            out += c
    return out


def key_out(k):
    """camel_case -> camelCase (None if that can't be told)"""
    out, i = "", 0
    while i < len(k):
        if k[i] == "_" and 0 < i < len(k) - 1 and k[i + 1] in LOWER and (
                k[i - 1] in LOWER or k[i - 1] in "0123456789"):
            if i >= 2 and k[i - 2] == "_":
                return None         # single letters between underscores
            out += k[i + 1].upper()
            i += 2
        else:
            out += k[i]
            i += 1
    return out


KEYS = ["a", "b", "x", "name", "fooBar", "foo_bar", "aB", "a1B", "fooBarBaz",
        "foo2bar", "URL", "someURL", "Upper", "trailing_", "two__part",
        "x1", "key9Z", "items", "values", "keys", "get", "pop", "update",
        "append", "class_", "fooB", "foo_1", "default", "clear", "copy",
        "longerCamelCaseKey", "snake_case_key", "A", "a0", "mixed_camelCase"]


def ok_keys(nc):
    out = []
    for k in KEYS:
        if hasattr(AutoJsonRecord, k) or hasattr(
                AutoJsonRecord, k if nc else key_in(k)):
            continue
        out.append(k)
    return out


def a_doc(rng, keys, nc, depth=0):
    out = {}
    used = set()
    for k in more_keys(rng, [rng.choice(keys) for _ in range(
            rng.choice([0, 1, 2, 3, 4]) if depth else
            rng.choice([0, 1, 2, 3, 4, 5, 6]))], .01 if depth < 2 else 0):
        if (k if nc else key_in(k)) in used:
            continue
        used.add(k if nc else key_in(k))
        out[k] = a_value(rng, keys, nc, depth)
    return out


def a_value(rng, keys, nc, depth):
    r = rng.randrange(12)
    if r < 5 or depth > 3:
        return rng.choice([0, 1, -5, "", "x", None, True, False, 1.5,
                           u"\u00e9\u4e2d", 2 ** 50, 2 ** 60, "[]", "{}"])
    if r < 8:
        return a_doc(rng, keys, nc, depth + 1)
    if r < 10:
        return [a_doc(rng, keys, nc, depth + 1)
                for _ in range(few(rng, 4, .03 if depth < 2 else 0))]
    if r == 10:
        return [rng.choice([0, "", None, 1.5, "z"])
                for _ in range(few(rng, 4, .03 if depth < 2 else 0))]
    items = [rng.choice([lambda: {}, lambda: 5, lambda: [{"a": 1}],
                         lambda: [], lambda: {"fooBar": [1]}])()
             for _ in range(rng.randrange(1, 4))]
    if rng.random() < .2:
        # objects, except for the last
        items[:0] = [{"b": 1} for _ in range(few(rng, 4, .5))]
    return items


def is_objects(v):
    return isinstance(v, list) and bool(v) and all(
        isinstance(x, dict) for x in v)


class Model(object):
    """What a schemaless record should contain: attribute name -> value"""
    def __init__(self, doc, nc):
        self.nc = nc
        self.attrs = {}
        for k, v in doc.items():
            self.attrs[k if nc else key_in(k)] = upgrade(v, nc)

    def out(self):
        """JSON output: attribute name -> (key or None, data)"""
        return dict((n, (n if self.nc else key_out(n), m_out(v)))
                    for n, v in self.attrs.items())

    def json(self):
        out = {}
        for n, (k, v) in self.out().items():
            if k is None or v is Unknown:
                return Unknown
            out[k] = v
        return out


class Unknown(object):
    """Output which isn't specified"""


class MList(object):
    """A list of schemaless records"""
    def __init__(self, items):
        self.items = items


def upgrade(v, nc):
    if isinstance(v, dict):
        return Model(v, nc)
    if is_objects(v):
        return MList([Model(x, nc) for x in v])
    return v


def m_out(v):
    if isinstance(v, Model):
        return v.json()
    if isinstance(v, MList):
        items = [x.json() for x in v.items]
        return Unknown if Unknown in items else items
    return plain(v)


MISSING = ["nosuch", "noSuch", "no_such", "zz", "_private", "__x__",
           "unknown_key", "fooBarX"]


def compare(ctx, x, m, cls, declared=(), depth=0):
    """The record has exactly what the model has"""
    ctx.ok(isinstance(x, cls), "%r should be a %s", x, cls.__name__)
    for n, v in m.attrs.items():
        if n in declared:
            continue
        got = ctx.value(attempt(getattr, x, n), "read %r of %r" % (n, x))
        ctx.ok(hasattr(x, n), "hasattr %r", n)
        ctx.ev("reads")
        compare_value(ctx, n, got, v, cls, depth)
    for i, n in enumerate(MISSING):
        if n not in m.attrs and (not depth or i < 1):
            ctx.raised(attempt(getattr, x, n), AttributeError,
                       "missing name %r of %r" % (n, x))
            ctx.ok(not hasattr(x, n), "hasattr missing %r", n)
            ctx.ok(getattr(x, n, 5) == 5, "getattr of missing, with default")
            ctx.ev("missing")


def compare_value(ctx, n, got, v, cls, depth):
    if isinstance(v, Model):
        ctx.ev("objects")
        base = NCAutoJsonRecord if v.nc else AutoJsonRecord
        compare(ctx, got, v, base, (), depth + 1)
        if not v.nc:
            ctx.ok(not isinstance(got, NCAutoJsonRecord), "variant of %r",
                   got)
    elif isinstance(v, MList):
        ctx.ev("object_lists")
        ctx.ok(len(got) == len(v.items), "%s is %r", n, got)
        for i, (g, w) in enumerate(zip(got, v.items)):
            base = NCAutoJsonRecord if w.nc else AutoJsonRecord
            compare(ctx, g, w, base, (), depth + 1)
            ctx.ok(got[i] is g, "item %d of %r", i, got)
    else:
        ctx.ok(same_json(got, v) or got == v and type(got) is type(v),
               "%s is %r, expected %r", n, got, v)


def output(ctx, x, m, extra=None):
    want = m.json()
    for how, got in (
        ("json_data()", attempt(lambda: x.json_data())),
        ("json_data(extraneous=True)",
         attempt(lambda: x.json_data(extraneous=True))),
    ):
        data = ctx.value(got, how)
        if want is Unknown:
            # at least everything which is known is there
            for n, (k, v) in m.out().items():
                if k is not None and v is not Unknown:
                    ctx.ok(k in data and same_json(data[k], v),
                           "%s gave %r for %s", how, data, n)
            ctx.ok(len(data) == len(m.attrs) + len(extra or {}),
                   "%s gave %r", how, data)
        else:
            w = dict(want, **(extra or {}))
            ctx.ok(same_json(data, w), "%s gave %r, expected %r", how, data,
                   w)
        ctx.ok(attempt(json.dumps, data).ok, "not JSON: %r", data)
        ctx.ev("outputs")


def reversible(k, nc):
    return nc or key_out(key_in(k)) == k


def all_reversible(doc, nc):
    if isinstance(doc, dict):
        return all(reversible(k, nc) and all_reversible(v, nc)
                   for k, v in doc.items())
    if is_objects(doc):
        return all(all_reversible(x, nc) for x in doc)
    return True


def construct(rng, cls, doc):
    text = json.dumps(doc)
    return rng.choice([
        lambda: cls(copy.deepcopy(doc)), lambda: cls(text),
        lambda: cls(text.encode()), lambda: cls.from_json(doc),
        lambda: from_json(cls, doc), lambda: cls(json_data=doc)])


def walk(x, m, rng):
    """-> a random schemaless record within, with its model"""
    while True:
        subs = [(n, v) for n, v in m.attrs.items()
                if isinstance(v, (Model, MList))]
        if not subs or rng.random() < .4:
            return x, m
        n, v = rng.choice(subs)
        if isinstance(v, MList):
            i = rng.randrange(len(v.items))
            x, m = getattr(x, n)[i], v.items[i]
        else:
            x, m = getattr(x, n), v


def documents(ctx, rng):
    nc = rng.random() < .4
    base = NCAutoJsonRecord if nc else AutoJsonRecord
    keys = ok_keys(nc)
    if rng.random() < .3:
        # only those which can be reversed
        keys = [k for k in keys if reversible(k, nc)]
    keys = rng.sample(keys, min(len(keys), rng.choice([3, 6, 30])))
    doc = a_doc(rng, keys, nc)
    cls = base
    extra = {}
    if rng.random() < .3:
        cls = new_class(base, {
            "declared": Property(json_name="Declared", isa=int),
            "other_one": Property(isa=str)}, "Au")
        if rng.random() < .6:
            extra["Declared"] = 5
        if rng.random() < .6:
            extra["other_one"] = "x"
    ctx.log(cls.__name__, "document", doc, extra)
    full = dict(doc, **extra)
    if rng.random() < .5:
        items = list(full.items())
        rng.shuffle(items)
        full = dict(items)
    x = ctx.value(attempt(construct(rng, cls, full)), "read %r" % full)
    m = Model(doc, nc)
    if not nc and any(key_in(k) != k for k in doc):
        ctx.ev("converted")
    if not all_reversible(doc, nc):
        ctx.ev("irreversible")
    compare(ctx, x, m, cls)
    if extra:
        ctx.ok(getattr(x, "declared", None) == extra.get("Declared") and
               getattr(x, "other_one", None) == extra.get("other_one"),
               "declared attributes of %r", x)
    output(ctx, x, m, extra)
    if all_reversible(doc, nc):
        ctx.ok(same_json(x.json_data(), plain(full)), "the output %r isn't "
               "the document %r", x.json_data(), full)
        y = cls(x.json_data())
        if not has_big(full):
            ctx.ok(x == y, "reading the output of %r gave %r", x, y)
    ctx.ev("documents")
    # a history
    hist = []
    snap_doc = copy.deepcopy(full)
    for _ in range(rng.randrange(6)):
        sx, sm = walk(x, m, rng)
        if sx is not x:
            ctx.ev("nested_ops")
        names = list(sm.attrs)
        op = rng.randrange(5)
        if op <= 1:
            n = rng.choice(names or ["newName"]) if rng.random() < .5 else \
                rng.choice(["new_name", "other", "x", "zz", "newName", "n1"])
            if not nc and any(key_out(a) == key_out(n) and a != n
                              for a in list(names) + [
                                  key_in(k) for k in extra]):
                continue        # one key for two attributes
            if rng.random() < .2:
                # an object of another document
                inner = a_doc(rng, keys, nc, 3)
                v = base(inner)
                sm.attrs[n] = Model(inner, nc)
            else:
                v = rng.choice([0, None, "", "text", 1.5, [1, 2], [], False])
                sm.attrs[n] = v
            ctx.value(attempt(setattr, sx, n, v), "set %s=%r" % (n, v))
            hist.append(("set", n, v))
            ctx.ev("assigned")
        elif op == 2 and names:
            n = rng.choice(names)
            ctx.value(attempt(delattr, sx, n), "delete %s" % n)
            del sm.attrs[n]
            ctx.raised(attempt(getattr, sx, n), AttributeError,
                       "read of deleted %s" % n)
            hist.append(("delete", n))
            ctx.ev("deleted")
        elif op == 3:
            n = rng.choice([k for k in MISSING if k not in sm.attrs])
            before = snapshot(x)
            ctx.raised(attempt(delattr, sx, n), AttributeError,
                       "delete of missing %s" % n)
            ctx.ok(snapshot(x) == before, "refused deletion changed %r", x)
            ctx.raised(attempt(getattr, sx, n), AttributeError,
                       "read of missing %s" % n)
        elif extra and cls is not base:
            k = rng.randrange(3)
            if k == 0:
                x.declared = extra["Declared"] = rng.randrange(9)
            elif k == 1:
                attempt(delattr, x, "declared")
                extra.pop("Declared", None)
                ctx.raised(attempt(getattr, x, "declared"), AttributeError,
                           "deleted declared attribute")
            else:
                got = attempt(setattr, x, "declared", "nonsense")
                ctx.raised(got, Exception, "wrong declared value")
        ctx.log("ops", hist)
        compare(ctx, sx, sm, cls if sx is x else base)
        if rng.random() < .3:
            compare(ctx, x, m, cls)
        output(ctx, x, m, extra)
    compare(ctx, x, m, cls)
    if doc:
        ctx.sig(cls.__mro__[0 if cls is base else 1].__name__, doc, hist)


def has_big(v):
    return plain(v) != v


def conversion(ctx, rng):
    """Key conversion, on random keys"""
    for _ in range(20):
        k = "".join(rng.choice("abzABZ019__") for _ in range(
            rng.randrange(1, 9)))
        ctx.same(AutoJsonRecord.convert_json_key_in(k), key_in(k),
                 "conversion of %r" % k)
        ctx.same(NCAutoJsonRecord.convert_json_key_in(k), k,
                 "non-conversion of %r" % k)
        ctx.same(NCAutoJsonRecord.convert_json_key_out(k), k,
                 "non-conversion of %r" % k)
        if key_out(k) is not None:
            ctx.same(AutoJsonRecord.convert_json_key_out(k), key_out(k),
                     "conversion back of %r" % k)
        if k[0] in "_019" or hasattr(AutoJsonRecord, key_in(k)):
            continue
        x = AutoJsonRecord({k: 1})
        ctx.equal(getattr(x, key_in(k)), 1, "attribute for key %r" % k)
        if key_out(key_in(k)) == k:
            ctx.equal(x.json_data(), {k: 1}, "output of key %r" % k)
        y = NCAutoJsonRecord({k: 1})
        ctx.equal((getattr(y, k), y.json_data()), (1, {k: 1}),
                  "verbatim key %r" % k)
        ctx.sig(k)


SCENARIOS = [("documents", documents, 4000, 60000),
             ("conversion", conversion, 300, 5000)]
