"""C15: JSON input forms are equivalent; JSON operations have no side effects.
"""
import copy
import json

import normalize.exc as exc
from mon.core import attempt
from mon.jsonmodel import (
    j_out, json_options, keep, same_json, unknown_keys,
)
from mon.recmodel import new_class
from mon.shapes import a_type, schema, snapshot
from mon.sizes import few, more_keys
from normalize import JsonRecord, Property, Record, from_json, to_json
from normalize.coll import Collection
from normalize.record.json import (
    AutoJsonRecord, JsonRecordDict, JsonRecordList, NCAutoJsonRecord,
)

RULE = (
    "a case generates a document accepted by a generated record, JSON "
    "collection or schemaless class, reads it in every input form through "
    "every route, comparing the states and that the input is unchanged; then "
    "mutates the input, the records and their outputs in place, at random "
    "places, while snapshots of the other sides are compared; non-trivial: "
    "the document has at least one entry; distinct by document")
ASSUMPTIONS = [
    "plain lists and dictionaries which are the value of a declared "
    "attribute may be shared with the input (which is recognised)",
    "text input is valid JSON"]
NEED = {"forms": 25000, "inputs_checked": 25000, "input_mutations": 8000,
        "record_mutations": 4000, "output_mutations": 9000,
        "collections": 800, "schemaless": 800, "merged_kwargs": 500,
        "spoilt_read": 300, "spoilt_refused": 250}


def forms(doc, rng):
    """All input forms of a document"""
    text = json.dumps(doc, ensure_ascii=rng.random() < .5,
                      indent=rng.choice([None, None, 2]))
    yield "data", copy.deepcopy(doc)
    yield "text", text
    yield "bytes", text.encode("utf-8")
    yield "bytearray", bytearray(text.encode("utf-8"))


def routes(cls):
    yield "from_json()", lambda d: from_json(cls, d)
    if issubclass(cls, JsonRecord):
        yield "constructor", lambda d: cls(d)
        yield "constructor keyword", lambda d: cls(json_data=d)
        yield "from_json method", lambda d: cls.from_json(d)


def read_all(ctx, rng, cls, doc, reference=None):
    """-> (the data read in data form, the record), having compared all"""
    first = None
    for form, data in forms(doc, rng):
        for route, read in routes(cls):
            d = copy.deepcopy(data)
            before = (snapshot(d, ids=True), copy.deepcopy(d))
            what = "%s through %s, of %r" % (form, route, doc)
            x = ctx.value(attempt(read, d), what)
            ctx.ok(snapshot(d, ids=True) == before[0] and d == before[1],
                   "reading %s changed the input to %r", what, d)
            ctx.ev("inputs_checked")
            ctx.ok(type(x) is cls, "%s gave a %s", what, type(x).__name__)
            if first is None:
                first = (d, x, snapshot_unordered(x))
            else:
                ctx.ok(snapshot_unordered(x) == first[2], "%s gave %r; in "
                       "data form, it gave %r", what, x, first[1])
                got = attempt(lambda: x == first[1] and first[1] == x)
                ctx.ok(ctx.value(got, "comparison"), "%s gave %r, which isn't "
                       "equal to %r", what, x, first[1])
            ctx.ev("forms")
    return first[:2]


def snapshot_unordered(x):
    """State; the order of unknown keys is not significant"""
    def walk(s):
        if isinstance(s, tuple) and len(s) == 2 and s[0] == "dict" and \
                isinstance(s[1], list):
            return ("dict", sorted((k, walk(v)) for k, v in s[1]))
        if isinstance(s, (tuple, list)):
            return type(s)(walk(v) for v in s)
        return s
    return repr(walk(snapshot(x)))


def containers(data, out=None):
    if out is None:
        out = []
    if isinstance(data, (dict, list)):
        out.append(data)
        for v in list(data.values() if isinstance(data, dict) else data):
            containers(v, out)
    return out


def state_containers(x, out=None, seen=None):
    """ids of the containers which make up the state of a record"""
    if out is None:
        out, seen = {}, set()
    if id(x) in seen:
        return out
    seen.add(id(x))
    if isinstance(x, Record):
        out[id(x.__dict__)] = x.__dict__
        for v in x.__dict__.values():
            state_containers(v, out, seen)
    elif isinstance(x, (dict, list)):
        out[id(x)] = x
        for v in x.values() if isinstance(x, dict) else x:
            state_containers(v, out, seen)
    return out


def scramble(rng, data):
    """Mutates one container of the data in place"""
    cs = containers(data)
    if not cs:
        return False
    c = rng.choice(cs)
    if isinstance(c, dict):
        k = rng.randrange(3)
        if k == 0 or not c:
            c["mutated"] = rng.randrange(9)
        elif k == 1:
            c.pop(rng.choice(list(c)))
        else:
            c[rng.choice(list(c))] = ["mutated"]
    else:
        k = rng.randrange(3)
        if k == 0 or not c:
            c.append("mutated")
        elif k == 1:
            c.pop(rng.randrange(len(c)))
        else:
            c[rng.randrange(len(c))] = {"mutated": 1}
    return True


def outputs(x):
    yield "to_json()", lambda: to_json(x)
    yield "to_json(extraneous=False)", lambda: to_json(x, False)
    if isinstance(x, JsonRecord):
        yield "json_data()", lambda: x.json_data()
        yield "json_data(extraneous=True)", lambda: x.json_data(
            extraneous=True)
    if not isinstance(x, Collection):
        for n, p in type(x).properties.items():
            if n in x.__dict__ and p.__class__.__name__:
                yield "to_json(prop=%r)" % n, lambda n=n: to_json(x, prop=n)


def write_all(ctx, rng, x):
    state = snapshot(x, ids=True)
    for what, write in outputs(x):
        data = ctx.value(attempt(write), "%s of %r" % (what, x))
        ctx.ok(snapshot(x, ids=True) == state, "%s changed %r", what, x)
        again = ctx.value(attempt(write), "again")
        ctx.ok(same_json(data, again), "%s of %r gave %r, then %r", what, x,
               data, again)
        mine = state_containers(x)
        for c in containers(data):
            ctx.ok(id(c) not in mine, "%s of %r returned the record's own "
                   "%r", what, x, c)
        kept = copy.deepcopy(again)
        for _ in range(3):
            if scramble(rng, data):
                ctx.ev("output_mutations")
        ctx.ok(snapshot(x, ids=True) == state, "changing what %s returned "
               "changed the record to %r", what, x)
        ctx.ok(same_json(again, kept), "changing what %s returned changed "
               "another output", what)


def both_sides(ctx, rng, d, x, unknown_only):
    """Later changes to the input don't show in the record, and vice versa"""
    state = snapshot(x)
    parts = unknown_only if unknown_only is not None else d
    mine = state_containers(x)
    for c in containers(parts):
        ctx.ok(id(c) not in mine, "the record keeps the unrecognised part %r "
               "of its input", c)
    for _ in range(4):
        if scramble(rng, parts):
            ctx.ev("input_mutations")
    ctx.ok(snapshot(x) == state, "changing the input changed the record to "
           "%r", x)
    before = copy.deepcopy(d)
    if isinstance(x, JsonRecord) and hasattr(x, "unknown_json_keys"):
        u = x.unknown_json_keys
        for _ in range(3):
            scramble(rng, u)
            ctx.ev("record_mutations")
    ctx.ok(same_json(d, before), "changing the record changed its input to "
           "%r", d)


def records(ctx, rng):
    o = json_options(p_json_null=.1, p_lazy=0, p_ro=.05,
                     kinds=["int", "str", "float", "bool", "any", "union",
                            "rec", "rec", "list", "list", "dict", "date"])
    recs = schema(rng, o)
    r = recs[-1]
    extra = {}
    d = keep(r.desc(rng, o))
    doc = j_out(d, True, unknown_keys(rng, extra, ctx) if rng.random() < .8
                else None)
    ctx.log(r.describe(), "document", doc)
    if any(a.required and (a.json_name is None) for q in recs
           for a in q.attrs.values()):
        return
    data, x = read_all(ctx, rng, r.cls, doc)
    write_all(ctx, rng, x)
    both_sides(ctx, rng, data, x, None)
    if doc:
        ctx.sig(r.describe(), doc)


def plain_parts(ctx, rng):
    """With plain containers as values of declared attributes, which may be
    shared, and unrecognised ones, which may not"""
    o = json_options(kinds=["plainlist", "plaindict", "any", "rec", "list"],
                     p_lazy=0, p_json_null=.1, json=True)
    recs = schema(rng, o)
    r = recs[-1]
    d = keep(r.desc(rng, o))
    doc = j_out(d, True)
    known = set(a.json_name for a in r.attrs.values())
    unknown = {}
    for k in rng.sample([k for k in ("zz", "unknown", "more", "", u"\u00e9")
                         if k not in known], 3):
        doc[k] = unknown[k] = rng.choice([
            lambda: [1, [2, {"x": []}]], lambda: {"p": {"q": [{}]}},
            lambda: [], lambda: {}, lambda: 5])()
    doc = copy.deepcopy(doc)
    ctx.log(r.describe(), "document", doc)
    data, x = read_all(ctx, rng, r.cls, doc)
    write_all(ctx, rng, x)
    for k in unknown:
        both_sides(ctx, rng, data[k], x, data[k])
    ctx.sig(r.describe(), doc)


def colls(ctx, rng):
    o = json_options(kinds=["int", "str", "float", "bool", "date"], p_lazy=0)
    recs = schema(rng, o, 2)
    t = a_type(rng, json_options(kinds=["list", "dict"]), recs,
               rng.random() < .7)
    d = keep(t.desc(rng, o))
    extra = {}
    doc = j_out(d, True, unknown_keys(rng, extra, ctx) if rng.random() < .5
                else None)
    ctx.log(repr(t), "document", doc)
    data, x = read_all(ctx, rng, t.cls, doc)
    write_all(ctx, rng, x)
    both_sides(ctx, rng, data, x, None)
    ctx.ev("collections")
    if doc:
        ctx.sig(repr(t), doc)


def a_doc(rng, depth=0, top=True):
    k = rng.randrange(8) if not top else 7
    if k < 4 or depth > 3:
        return rng.choice([0, 1, "", "x", None, True, 1.5, u"\u00e9\u4e2d",
                           -3, "2013"])
    if k < 6:
        return [a_doc(rng, depth + 1, False)
                for _ in range(few(rng, 4, .02 if depth < 2 else 0))]
    out = {}
    names = ["a", "b", "fooBar", "foo_bar", "items", "values", "x",
             "known", "Known", "n1", "camelCaseKey", "keys"]
    for k in more_keys(rng, rng.sample(names, rng.randrange(5)),
                       .02 if depth < 2 else 0):
        out[k] = \
            a_doc(rng, depth + 1, False)
    return out


def schemaless(ctx, rng):
    base = rng.choice([AutoJsonRecord, NCAutoJsonRecord, JsonRecord])
    cls = base if rng.random() < .5 and base is not JsonRecord else \
        new_class(base, {"known": Property(json_name="Known")}, "S")
    doc = a_doc(rng)
    ctx.log(cls.__name__, "document", doc)
    data, x = read_all(ctx, rng, cls, doc)
    write_all(ctx, rng, x)
    both_sides(ctx, rng, data, x, dict((k, v) for k, v in data.items()
                                       if k != "Known"))
    ctx.ev("schemaless")
    if doc:
        ctx.sig(cls.__mro__[1].__name__, doc)


def with_keywords(ctx, rng):
    """Keywords given next to a document take precedence; neither changes"""
    o = json_options(json=True, p_lazy=0, p_json_null=0, p_ro=0,
                     kinds=["int", "str", "float", "list", "rec", "dict",
                            "any"])
    recs = schema(rng, o)
    r = recs[-1]
    d = keep(r.desc(rng, o))
    doc = j_out(d, True)
    kw = dict((n, a.type.desc(rng, o, 1).build()) for n, a in r.attrs.items()
              if rng.random() < .4)
    kw.update((n, None) for n, a in r.attrs.items()
              if n not in kw and a.type.kind == "any" and
              not a.required and rng.random() < .4)
    ctx.log(r.describe(), "document", doc, "keywords", kw)
    expected = attempt(r.cls, copy.deepcopy(doc))
    kw_state = snapshot(kw, ids=True)
    for form, data in forms(doc, rng):
        before = copy.deepcopy(data)
        x = ctx.value(attempt(lambda: r.cls(data, **kw)), "read with keywords")
        ctx.ok(same_json(data, before) if form == "data" else data == before,
               "input changed to %r", data)
        ctx.ok(snapshot(kw, ids=True) == kw_state, "keywords changed")
        for n in r.attrs:
            if n in kw:
                ctx.ok(snapshot(getattr(x, n)) == snapshot(kw[n]),
                       "keyword %s=%r gave %r", n, kw[n], x)
            else:
                ctx.ok((n in x.__dict__) == (n in expected.value.__dict__) and
                       snapshot(x.__dict__.get(n)) ==
                       snapshot(expected.value.__dict__.get(n)),
                       "%s is %r", n, x.__dict__.get(n))
        ctx.ok(set(kw) | set(d.content) >= set(
            n for n in x.__dict__ if n != "unknown_json_keys"), "extra "
            "attributes: %r", x)
    ctx.ev("merged_kwargs")
    if doc and kw:
        ctx.sig(r.describe(), doc, sorted(kw))


JUNK = [None, None, "", 0, False, True, "x", 1.5, -3, [], {}, [None],
        [1, None, [None]], {"x": None}, {"x": {"y": [None, 1]}}, [[]],
        [None, {"a": [None]}], "2013-01-01", 2 ** 70, [3, 2, 1, 1]]


def spoil(rng, doc):
    """Changes some parts of the document, at any place"""
    for _ in range(rng.choice([1, 1, 2, 4])):
        cs = containers(doc)
        c = rng.choice(cs)
        v = copy.deepcopy(rng.choice(JUNK))
        if isinstance(c, dict):
            if c and rng.random() < .8:
                c[rng.choice(list(c))] = v
            else:
                c[rng.choice(["zz", "a", ""])] = v
        elif c and rng.random() < .6:
            c[rng.randrange(len(c))] = v
        else:
            c.insert(rng.randrange(len(c) + 1), v)


def any_input(ctx, rng):
    """The input is left alone whatever there is in it, including when it is
    refused; and all forms of it are read the same"""
    o = json_options(p_lazy=0, p_json_null=.1, json=rng.random() < .8,
                     kinds=["int", "str", "any", "union", "rec", "rec",
                            "list", "list", "dict", "date", "plainlist",
                            "plainlist", "plaindict", "plaindict"])
    recs = schema(rng, o)
    t = recs[-1]
    d = keep(t.desc(rng, o))
    if rng.random() < .3:
        t = a_type(rng, json_options(kinds=["list", "dict"]), recs, True)
        d = keep(t.desc(rng, o))
    doc = j_out(d, True)
    spoil(rng, doc)
    doc = copy.deepcopy(doc)
    ctx.log(getattr(t, "cls", t), "document", doc)
    seen = None
    for form, data in forms(doc, rng):
        for route, read in routes(t.cls):
            arg = copy.deepcopy(data)
            before = (snapshot(arg, ids=True), copy.deepcopy(arg))
            got = attempt(read, arg)
            what = "%s through %s, of %r" % (form, route, doc)
            ctx.ok(snapshot(arg, ids=True) == before[0] and arg == before[1],
                   "reading %s changed the input to %r", what, arg)
            ctx.ev("inputs_checked")
            ctx.ev("spoilt_read" if got.ok else "spoilt_refused")
            state = (True, snapshot_unordered(got.value)) if got.ok else (
                False, type(got.exc).__name__)
            if seen is None:
                seen = state, what
            else:
                ctx.ok(state == seen[0], "%s gave %r, whereas %s gave %r",
                       what, state, seen[1], seen[0])
            if got.ok:
                keep_state = snapshot(got.value)
                write_all(ctx, rng, got.value)
                ctx.ok(snapshot(got.value) == keep_state, "output changed %r",
                       got.value)
    ctx.sig(repr(t), doc)


SCENARIOS = [
    ("records", records, 1200, 20000),
    ("plain_parts", plain_parts, 500, 8000), ("colls", colls, 1200, 15000),
    ("schemaless", schemaless, 1200, 15000),
    ("with_keywords", with_keywords, 700, 8000),
    ("any_input", any_input, 800, 10000)]
