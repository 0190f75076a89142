"""C16: JSON input errors name the exact location and cause."""
import copy
import json

import normalize.exc as exc
from mon.core import attempt
from mon.jsonmodel import Conv, j_out, json_options, keep, value_conv
from mon.shapes import D, a_type, schema, snapshot
from normalize import JsonRecord, Record, from_json
from normalize.record.json import JsonRecordDict, JsonRecordList

RULE = (
    "a case generates a document which a generated class accepts (checked), "
    "replaces one or two parts at random depths by unacceptable values, "
    "removes a required key or adds a key to a closed record, reads it "
    "through a random route, and judges the error: its class, that its path "
    "followed by hand in the document leads to the part, and its cause; "
    "non-trivial: the part is nested; distinct by class and document")
ASSUMPTIONS = [
    "null for a nested JSON record or collection is accepted (as an empty "
    "one), and false values for a plain one",
    "the path leads to the innermost nested record, JSON collection or "
    "converted attribute which could not be read; the original error "
    "identifies the attribute or item within it",
    "values of text and boolean attributes are convertible from anything"]
NEED = {"accepted": 3000, "rejected": 5000, "located": 3000, "depth2": 1200,
        "depth3": 400, "in_list": 900, "in_dict": 500, "renamed": 700,
        "cause": 500, "missing": 300, "closed": 100}


class Refused(Exception):
    pass


REFUSE = u"\u2620 refused"


def refusing(name, out, in_):
    def json_in(j):
        if j == REFUSE:
            e = Refused(j)
            refusing.raised = e
            raise e
        return in_(j)
    return value_conv(name, out, json_in)


def converter(rng, attr, t):
    if t.kind == "date":
        import datetime
        return refusing("iso", lambda v: v.isoformat(),
                        datetime.date.fromisoformat)
    if t.kind in ("int", "str", "float") and rng.random() < .2:
        return refusing("wrap", lambda v: [v], lambda j: j[0])
    return None


def is_json(t):
    """Does the type read JSON itself?"""
    if t.kind == "rec":
        return t.rec.json
    return t.kind in ("list", "dict") and issubclass(t.cls, JsonRecord)


def bad_value(rng, t, conv):
    """-> a JSON value the type can't be made of, or None"""
    if conv:
        return REFUSE
    k = t.kind
    if k in ("int", "float"):
        return rng.choice(["zz", None, [1], {"a": 1}, [], {}])
    if k == "union":
        return rng.choice([1.5, [], {"a": 1}])
    if k == "rec":
        return rng.choice([5, [1], "x", True] if not t.rec.json else
                          [5, [1], [], True, "x", 0, 1.5, "5", "[]"])
    if k == "list":
        return rng.choice([5, "x"] if not is_json(t) else
                          [5, {}, {"a": 1}, "x", 0, True, "{}"])
    if k == "dict":
        return rng.choice([5, "x"] if not is_json(t) else
                          [5, [], [1], "x", 0, False, "[]"])
    return None


class Node(object):
    """A part of the document, and what it's read as"""
    def __init__(self, parent, key, d, t, conv):
        self.parent = parent
        self.key = key
        self.d = d
        self.t = t
        self.conv = conv

    def chain(self):
        out = []
        n = self
        while n:
            out.append(n)
            n = n.parent
        return out[::-1]

    def path(self):
        return [n.key for n in self.chain()[1:]]


class Fake(object):
    """Type of the top"""
    def __init__(self, d):
        self.kind = d.kind
        self.rec = d.type if d.kind == "rec" else None
        self.cls = d.type.cls


def nodes(d, t=None, parent=None, key=None, conv=None, out=None):
    if out is None:
        out = []
        t = Fake(d)
    me = Node(parent, key, d, t, conv)
    out.append(me)
    if conv:
        return out
    if d.kind == "rec":
        for n, x in d.content.items():
            a = d.type.attrs[n]
            if a.json_name is not None:
                nodes(x, a.type, me, a.json_name, a.conv, out)
    elif d.kind in ("list", "dict"):
        for k, x in d.content:
            nodes(x, d.type.item, me, k, None, out)
    return out


def least_path(node, inside):
    """The path which must at least be given.

    ``inside``: the node is a record which lacks something, rather than being
    of the wrong kind"""
    chain = node.chain()
    k = len(chain) - 1

    def fails(i):
        n = chain[i]
        if i == k:
            if n.conv or is_json(n.t):
                return True
            return inside
        if is_json(n.t) or n.t.kind == "rec":
            return True
        return fails(i + 1)
    for i in range(k, 0, -1):
        if fails(i):
            return [n.key for n in chain[1:i + 1]]
    return []


def follow(doc, path):
    for k in path:
        doc = doc[k]
    return doc


def replace(doc, path, value):
    if not path:
        return value
    follow(doc, path[:-1])[path[-1]] = value
    return doc


def spoil(ctx, rng, d, doc, allnodes):
    """-> (document, full path, least path, node, how) or None"""
    rng.shuffle(allnodes)
    allnodes = sorted(allnodes, key=lambda n: -len(n.path())) if \
        rng.random() < .3 else allnodes
    for n in allnodes:
        if n.d.kind == "rec" and not n.conv and rng.random() < .4:
            req = [a for a in n.d.type.attrs.values()
                   if a.required and not a.default]
            at = follow(doc, n.path())
            if req:
                a = rng.choice(req)
                if a.json_name in at:
                    del at[a.json_name]
                    ctx.ev("missing")
                    return doc, n.path(), least_path(n, True), n, "missing"
            elif not n.d.type.json:
                k = "no such key"
                at[k] = rng.choice([1, None, {}])
                ctx.ev("closed")
                return doc, n.path(), least_path(n, True), n, "closed"
        if n.parent is None and rng.random() < .8:
            continue
        if n.parent is None and not (is_json(n.t)):
            continue
        v = bad_value(rng, n.t, n.conv)
        if v is None and n.t.kind not in ("int", "float"):
            continue
        if n.parent is None and isinstance(v, str):
            continue
        doc = replace(doc, n.path(), copy.deepcopy(v))
        return doc, n.path(), least_path(n, False), n, "bad"
    return None


def routes(rng, cls, doc):
    text = json.dumps(doc)
    out = [lambda: from_json(cls, doc), lambda: from_json(cls, text),
           lambda: from_json(cls, text.encode())]
    if issubclass(cls, JsonRecord):
        out += [lambda: cls(doc), lambda: cls(text),
                lambda: cls.from_json(doc)] * 2
    return rng.choice(out)


def judge(ctx, got, doc, spoilt):
    ctx.ok(got.exc is not None, "a document with an unacceptable part was "
           "accepted: %r gave %r", doc, got)
    ctx.ev("rejected")
    e = got.exc
    fits = [s for s in spoilt if not s[2]]
    if not isinstance(e, exc.JsonConversionError):
        ctx.ok(fits, "reading %r should have raised an error located at %r, "
               "but %r", doc, [s[1] for s in spoilt], got)
        ctx.raised(got, (exc.NormalizeError, ValueError), "reading %r" % doc)
        return
    p = list(e.error_fs.selectors)
    ok = [s for s in spoilt if s[1][:len(p)] == p and len(p) >= len(s[2])]
    ctx.ok(ok, "reading %r: the error is located at %r, but the unacceptable "
           "part is at %r (%s)", doc, p, [s[1] for s in spoilt], e)
    ctx.ok(attempt(follow, doc, p).ok, "path %r isn't in %r", p, doc)
    ctx.ev("located")
    if len(p) > 1:
        ctx.ev("depth2")
    if len(p) > 2:
        ctx.ev("depth3")
    node = ok[0][3]
    for n in node.chain()[1:len(p) + 1]:
        if isinstance(n.key, int):
            ctx.ev("in_list")
        elif n.parent.d.kind == "dict":
            ctx.ev("in_dict")
        elif n.parent.d.kind == "rec" and n.key not in \
                n.parent.d.type.attrs:
            ctx.ev("renamed")
    # the cause
    cause = e.sub_exception
    ctx.ok(isinstance(cause, Exception) and
           not isinstance(cause, exc.JsonConversionError),
           "the original error is %r", cause)
    if len(ok) == len(spoilt) == 1 and follow(doc, ok[0][1]) == REFUSE:
        ctx.ok(cause is refusing.raised, "the original error is %r, not %r",
               cause, refusing.raised)
        ctx.ev("cause")
    elif len(spoilt) == 1 and ok[0][4] == "missing" and \
            p == ok[0][1]:
        ctx.ok(isinstance(cause, (ValueError, exc.NormalizeError)),
               "cause is %r", cause)
    text = ctx.value(attempt(str, e), "message")
    ctx.ok(e.error_fs.path in text, "the message %r doesn't mention the path "
           "%r", text, e.error_fs.path)


def check(ctx, rng, d, cls):
    doc = j_out(d, True)
    read = routes(rng, cls, doc)
    x = ctx.value(attempt(read), "reading the acceptable %r" % doc)
    ctx.ok(type(x) is cls, "gave %r", x)
    ctx.ev("accepted")
    found = False
    for _ in range(3):
        doc = copy.deepcopy(j_out(d, True))
        spoilt = []
        s = spoil(ctx, rng, d, doc, nodes(d))
        if not s:
            continue
        doc = s[0]
        spoilt.append(s)
        if rng.random() < .2:
            rest = [n for n in nodes(d) if n.path() and not
                    related(n.path(), s[1])]
            s = rest and spoil(ctx, rng, d, doc, rest)
            if s:
                spoilt.append(s)
        ctx.log("spoilt", doc, "at", [s[1] for s in spoilt])
        before = copy.deepcopy(doc)
        got = attempt(routes(rng, cls, doc))
        ctx.ok(doc == before, "input changed")
        judge(ctx, got, doc, spoilt)
        if any(len(s[1]) > 1 for s in spoilt):
            found = True
            ctx.sig(cls.__mro__[1].__name__, doc)


def related(p, q):
    n = min(len(p), len(q))
    return p[:n] == q[:n]


def options(**kw):
    d = dict(kinds=["int", "float", "rec", "rec", "rec", "list", "list",
                    "dict", "date", "union", "str"],
             item_kinds=["rec", "rec", "rec", "int", "list", "dict"],
             json_conv=converter, p_lazy=.03, p_unset=.1, p_json_null=0,
             p_required=.25, p_swap=.1, ints=[0, 1, 2], p_default=.05,
             words=["a", "b", u"\u00e9"])
    d.update(kw)
    return json_options(**d)


def records(ctx, rng):
    o = options(json=rng.choice([True, True, None]))
    recs = schema(rng, o, rng.choice([2, 3, 3, 4]))
    r = recs[-1]
    ctx.log(r.describe())
    check(ctx, rng, keep(r.desc(rng, o)), r.cls)


def colls(ctx, rng):
    o = options(json=True, kinds=["int", "rec", "rec", "list", "dict",
                                  "date"])
    recs = schema(rng, o, 2)
    while True:
        t = a_type(rng, options(kinds=["list", "dict"], item_kinds=[
            "rec", "rec", "list", "dict"]), recs, True)
        if issubclass(t.cls, (JsonRecordList, JsonRecordDict)):
            break
    check(ctx, rng, keep(t.desc(rng, o)), t.cls)


SCENARIOS = [("records", records, 4000, 60000), ("colls", colls, 1500, 20000)]
