"""A model of the JSON forms of generated records (see mon.shapes).

Written from the documentation of to_json/from_json; independent of the
library's implementation.
"""
import copy
import datetime

from mon.shapes import D, Options, T
from mon.sizes import more_keys
from normalize.record.json import from_json, to_json

BIG = 2 ** 50


class Conv(object):
    """A pair of inverse conversion functions, and a model of the output"""
    def __init__(self, name, json_out, json_in, model):
        self.name = name
        self.json_out = json_out
        self.json_in = json_in
        self.model = model          # D -> JSON data


def value_conv(name, out, in_):
    return Conv(name, out, in_, lambda d: out(d.content))


def boom(*a):
    raise AssertionError("called for nothing")


def converter(rng, attr, t):
    """-> Conv or None"""
    k = t.kind
    if k == "date":
        return value_conv("iso", lambda v: v.isoformat(),
                          datetime.date.fromisoformat)
    if rng.random() < .8:
        return None
    if k == "int":
        return rng.choice([
            value_conv("text", lambda v: "n%d" % v, lambda j: int(j[1:])),
            value_conv("shift", lambda v: v - 1, lambda j: j + 1),
            value_conv("null", lambda v: None if v == 0 else v,
                       lambda j: 0 if j is None else j),
            value_conv("wrap", lambda v: {"v": v}, lambda j: j["v"]),
            value_conv("list", lambda v: [v] * 2, lambda j: j[1])])
    if k == "str":
        return rng.choice([
            value_conv("reverse", lambda v: v[::-1], lambda j: j[::-1]),
            value_conv("prefix", lambda v: "<" + v, lambda j: j[1:]),
            value_conv("false", lambda v: v or False, lambda j: j or "")])
    if k == "float":
        return value_conv("repr", repr, float)
    if k == "rec":
        return Conv("inner", lambda v: {"w": [to_json(v)]},
                    lambda j, c=t.rec.cls: from_json(c, j["w"][0]),
                    lambda d: {"w": [j_out(d, True)]})
    if k in ("list", "dict"):
        return Conv("items", lambda v: {"i": to_json(v)},
                    lambda j: j["i"], lambda d: {"i": j_out(d, True)})
    return None


def json_options(**kw):
    d = dict(
        kinds=["int", "str", "float", "bool", "any", "union", "rec", "rec",
               "list", "list", "dict", "plainlist", "plaindict", "date"],
        item_kinds=["rec", "rec", "int", "str", "list", "dict", "float"],
        words=["a", "b", "", "x y", u"caf\u00e9", u"\u4e2d", "null", "true",
               "0", '{"a": 1}', "[1]", "line\nbreak", 'quo"te', "\\"],
        ints=[0, 1, 2, -1, 42, 2 ** 50, 2 ** 50 + 1, 2 ** 64, -10 ** 30],
        keys=["k1", "k2", "K", "a.b", u"\u00e9", "x y", ""],
        p_json_name=.4, p_json_null=.06, p_extraneous=.12, p_swap=.1,
        json_conv=converter)
    d.update(kw)
    return JsonOptions(**d)


class JsonOptions(Options):
    """Untyped values must have a JSON form of their own"""
    def untyped_ints(self):
        return [i for i in self.ints if abs(i) <= BIG]


def scalar(v):
    if isinstance(v, bool) or not isinstance(v, int):
        return v
    return str(v) if abs(v) > BIG else v


def plain(v):
    if isinstance(v, dict):
        return dict((k, plain(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return scalar(v)


def j_out(d, ext, unknown=None):
    """The JSON form of the described value.

    ``unknown``: D -> extra keys, for JSON records"""
    if d.kind == "value":
        return plain(d.content)
    if d.kind == "list":
        return [j_out(x, ext, unknown) for k, x in d.content]
    if d.kind == "dict":
        return dict((k, j_out(x, ext, unknown)) for k, x in d.content)
    out = {}
    for n, x in d.slots().items():
        a = d.type.attrs[n]
        if a.json_name is None or (a.extraneous and not ext):
            continue
        out[a.json_name] = a.conv.model(x) if a.conv else j_out(
            x, ext, unknown)
    if unknown and d.type.json:
        for k, v in unknown(d).items():
            out.setdefault(k, v)
    return out


def j_back(d, ext):
    """The record which reading the JSON form gives"""
    if d.kind == "value":
        return d
    if d.kind != "rec":
        return D(d.kind, d.type, [(k, j_back(x, ext)) for k, x in d.content])
    out = {}
    for n, x in d.slots().items():
        a = d.type.attrs[n]
        if a.json_name is None or (a.extraneous and not ext):
            continue
        out[n] = j_back(x, True if a.conv else ext)
    return D("rec", d.type, out)


def same_json(a, b):
    """Equality of JSON data, minding the types and not the order of keys"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(same_json(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same_json(x, y)
                                        for x, y in zip(a, b))
    return a == b


def keep(d):
    """The same description with everything set which can be read"""
    if d.kind == "value":
        return d
    if d.kind == "rec":
        return D("rec", d.type, dict((n, keep(x))
                                     for n, x in d.slots().items()))
    return D(d.kind, d.type, [(k, keep(x)) for k, x in d.content])


def merge(want, doc):
    """Adds what's only in the document"""
    if isinstance(want, dict) and isinstance(doc, dict):
        out = dict(want)
        for k, v in doc.items():
            out[k] = merge(want[k], v) if k in want else plain(v)
        return out
    if isinstance(want, list) and isinstance(doc, list) and \
            len(want) == len(doc):
        return [merge(a, b) for a, b in zip(want, doc)]
    return want


UNKNOWN = ["zz", "unknown_json_keys", "a", "b", "camelCase", "values", "",
           u"\u00e9", "json_data", "properties", "x y", "self"]


def unknown_keys(rng, extra, ctx):
    """-> function for j_out, which makes up unknown keys for JSON records"""
    def more(x):
        if id(x) not in extra:
            known = set(a.json_name for a in x.type.attrs.values())
            e = {}
            for k in more_keys(rng, [
                    rng.choice(UNKNOWN + list(x.type.attrs))
                    for _ in range(rng.choice([0, 1, 2]))], .01):
                if k not in known:
                    e[k] = copy.deepcopy(rng.choice([
                        0, None, "", "x", [], {}, [1, {"p": None}],
                        {"q": [0, {"r": 2 ** 60}]}, 2 ** 70, 1.5, True]))
                    ctx.ev("unknown_keys")
            extra[id(x)] = (x, e)
        return extra[id(x)][1]
    return more
