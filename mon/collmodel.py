"""Item types and sources for the monitors of typed collections"""
import collections

from mon.core import attempt
from mon.recmodel import (
    Inner, Odd, Positive, PositiveC, Raw, SubTok, Tok, new_class, uniq,
)
from normalize import JsonRecord, Property, Record
from normalize.coll import DictCollection, ListCollection, dict_of, list_of
from normalize.record.json import JsonRecordDict, JsonRecordList


class Boom(Exception):
    """Raised by a source half-way"""


class JItem(JsonRecord):
    n = Property(json_name="N", isa=int)


class Kind(object):
    """An item type with its (reference) conversion"""
    def __init__(self, name, itemtype, good, conv, bad, coerceitem=None,
                 orderable=False):
        self.name = name
        self.itemtype = itemtype
        self.good = good            # rng -> conforming value
        self.conv = conv            # rng -> (value, what it converts to)
        self.bad = bad              # rng -> inconvertible value
        self.coerceitem = coerceitem
        self.orderable = orderable


def custom_coerce(v):
    """May raise, or return the wrong type"""
    if isinstance(v, str):
        if v == "wrong":
            return "still text"
        if v == "nothing":
            return None
        return len(v) + 1000
    raise ValueError("don't like %r" % (v,))


IntList = list_of(int)
KINDS = [
    Kind("int", int, lambda r: r.choice([0, 1, 2, 5, -3, True]),
         lambda r: r.choice([("12", 12), (3.7, 3), ("-1", -1)]),
         lambda r: r.choice(["x", None, [], {}, Odd(1), "", "1.5", (1, 2, 3)]),
         orderable=True),
    Kind("str", str, lambda r: r.choice(["", "a", "b", "abc", u"\u00e9"]),
         lambda r: r.choice([(5, "5"), (None, "None"), ([], "[]")]),
         None, orderable=True),
    Kind("tok", Tok,
         lambda r: (SubTok if r.random() < .2 else Tok)(
             Raw(r.randrange(5))),
         lambda r: (lambda n: (Raw(n), Tok(Raw(n))))(r.randrange(5)),
         lambda r: r.choice([Odd(1), None, 5, "x", Raw(1, ValueError),
                             Raw(2, KeyError), Raw(3, StopIteration),
                             Raw(4, AttributeError)])),
    Kind("rec", Inner, lambda r: Inner(a=r.randrange(3)),
         lambda r: (lambda n: ({"a": n, "b": "x"}, Inner(a=n, b="x")))(
             r.randrange(3)),
         lambda r: r.choice([{"zz": 1}, 5, "abc", {"a": "no"}, Odd(2)])),
    Kind("json", JItem, lambda r: JItem(n=r.randrange(3)),
         lambda r: (lambda n: ({"N": n}, JItem(n=n)))(r.randrange(3)),
         lambda r: r.choice([{"N": "no"}, 5, [1], Odd(2)])),
    Kind("pos", Positive, lambda r: r.randrange(1, 5), None,
         lambda r: r.choice([0, -1, "5", None, 1.5, []]), orderable=True),
    Kind("posc", PositiveC, lambda r: r.randrange(1, 5),
         lambda r: r.choice([(-3, 3), ("7", 7), (2.5, 2)]),
         lambda r: r.choice([0, "x", None, [], "0"]), orderable=True),
    Kind("custom", int, lambda r: r.randrange(5),
         lambda r: r.choice([("abc", 1003), ("", 1000)]),
         lambda r: r.choice(["wrong", "nothing", None, 1.5, [1]]),
         coerceitem=custom_coerce, orderable=True),
    Kind("nested", IntList, lambda r: IntList([r.randrange(3)]),
         lambda r: (lambda n: ([n, str(n)], IntList([n, n])))(r.randrange(3)),
         lambda r: r.choice([["x"], [1, None], 5, "abc", [[1]]])),
    Kind("plainlist", list, lambda r: [r.randrange(3)],
         lambda r: (lambda n: ((n, n), [n, n]))(r.randrange(3)),
         lambda r: r.choice([5, None, Odd(1)])),
]


def list_class(rng, kind):
    how = rng.randrange(4)
    attrs = {"itemtype": kind.itemtype}
    if kind.coerceitem:
        attrs["coerceitem"] = kind.coerceitem
    elif how == 0 and kind.itemtype.__module__:
        return list_of(kind.itemtype)
    if how == 1 and kind.name in ("json", "int", "str", "pos"):
        return new_class(JsonRecordList, attrs, "JList")
    if how == 2:
        attrs["label"] = Property(isa=str)
    return new_class(ListCollection, attrs, "TList")


def dict_class(rng, kind):
    how = rng.randrange(4)
    attrs = {"itemtype": kind.itemtype}
    if kind.coerceitem:
        attrs["coerceitem"] = kind.coerceitem
    elif how == 0:
        return dict_of(kind.itemtype)
    if how == 1 and kind.name in ("json", "int", "str", "pos"):
        return new_class(JsonRecordDict, attrs, "JDict")
    if how == 2:
        attrs["label"] = Property(isa=str)
    return new_class(DictCollection, attrs, "TDict")


class Item(object):
    """An incoming item: what is passed, and what should be stored"""
    __slots__ = ("raw", "want", "bad", "asis")

    def __init__(self, raw, want=None, bad=False, asis=False):
        self.raw = raw
        self.want = want
        self.bad = bad
        self.asis = asis

    def __repr__(self):
        return "%r%s" % (self.raw, "!" if self.bad else "")


def an_item(rng, kind, pbad=.06):
    r = rng.random()
    if kind.bad and r < pbad:
        return Item(kind.bad(rng), bad=True)
    if kind.conv and r < .35:
        raw, want = kind.conv(rng)
        return Item(raw, want)
    v = kind.good(rng)
    return Item(v, v, asis=True)


def same_item(got, item):
    """Is the stored object right for the item?"""
    if item.asis:
        return got is item.want
    return type(got) is type(item.want) and got == item.want


class SeqLike(collections.abc.Sequence):
    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


class IterOnly(object):
    def __init__(self, items, boom=None):
        self.items = items
        self.boom = boom

    def __iter__(self):
        for i, x in enumerate(self.items):
            if i == self.boom:
                raise Boom("half-way")
            yield x
        if self.boom is not None:
            raise Boom("half-way")


class NextOnly(object):
    def __init__(self, items):
        self.it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)


class MapLike(collections.abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


def iterable(rng, items, form=None):
    """-> (source, name of form, raises Boom)"""
    raws = [x.raw for x in items]
    form = form or rng.choice(
        ["list", "list", "tuple", "gen", "iter", "seq", "iterable", "next",
         "deque", "boom"])
    if form == "list":
        return raws, form, False
    if form == "tuple":
        return tuple(raws), form, False
    if form == "gen":
        return (x for x in raws), form, False
    if form == "iter":
        return iter(raws), form, False
    if form == "seq":
        return SeqLike(raws), form, False
    if form == "iterable":
        return IterOnly(raws), form, False
    if form == "next":
        return NextOnly(raws), form, False
    if form == "deque":
        return collections.deque(raws), form, False
    if form == "boom":
        return IterOnly(raws, rng.randrange(len(raws) + 1)), form, True
    raise AssertionError(form)
