"""Random record classes and instances, with a model of what they declare.

Used by the monitors which look at whole structures (construction, copying,
JSON, comparison, visiting).
"""
import datetime
import copy

from mon.recmodel import new_class
from normalize import JsonRecord, Property, Record
from normalize.coll import DictCollection, ListCollection, dict_of, list_of
from normalize.property.coll import DictProperty, ListProperty
from normalize.property.json import JsonDictProperty, JsonListProperty
from normalize.record.json import JsonRecordDict, JsonRecordList

WORDS = ["a", "b", "abc", "x y", "", u"caf\u00e9", "0", "None", u"\u4e2d",
         "it's", 'quo"te', "back\\slash", "line\nbreak", "{brace}", "%s"]
CLEAN_WORDS = ["a", "b", "abc", "d", "efg", "hello", u"caf\u00e9", "Zed"]
FLOATS = [0.0, 1.5, -2.25, 1e20]
INTS = [0, 1, 2, 3, -1, 7, 42]


class T(object):
    """A declared type"""
    def __init__(self, kind, item=None, rec=None, alts=None, cls=None):
        self.kind = kind
        self.item = item        # T of the items of a list or dict
        self.rec = rec          # Rec
        self.alts = alts        # [T], for unions
        self.cls = cls          # the collection class
        self.compare_item = None        # comparison function of the items
        self.own = {}           # further attributes of the collection
        self.solo = False       # has exactly one item

    def __repr__(self):
        if self.kind in ("list", "dict"):
            return "%s<%r>" % (self.kind, self.item)
        if self.kind == "rec":
            return self.rec.cls.__name__
        if self.kind == "union":
            return "|".join(map(repr, self.alts))
        return self.kind

    def isa(self):
        return {"int": int, "str": str, "float": float, "bool": bool,
                "date": datetime.date, "null": type(None), "plainlist": list, "plaindict": dict,
                }.get(self.kind) or (
            self.rec.cls if self.kind == "rec" else
            tuple(t.isa() for t in self.alts) if self.kind == "union" else
            self.cls)

    def desc(self, rng, o, depth=0):
        """-> a description of a conforming value, for build() and d_eq()"""
        k = self.kind
        if k == "union":
            return rng.choice(self.alts).desc(
                rng, self.untyped(rng, o), depth + 1)
        if k == "rec":
            return self.rec.desc(rng, o, depth + 1)
        if k in ("list", "dict"):
            n, o, keys = self.size(rng, o, depth)
            keys = range(n) if k == "list" else rng.sample(
                keys, min(n, len(keys)))
            return D(k, self, [
                (key, self.item.desc(rng, o, depth + 1)) for key in keys])
        return D("value", self, self.gen(rng, o, depth))

    def size(self, rng, o, depth, usual=(0, 1, 2, 2, 3)):
        """-> how many items; what of; and the keys to choose from.  Once in
        a while there are many."""
        if self.solo:
            return 1, o, o.keys
        if depth > 2:
            return 0, o, o.keys
        if not o.big_left[0] or rng.random() >= o.p_big:
            return rng.choice(usual), o, o.keys
        o.big_left[0] -= 1
        o = copy.copy(o)
        n = rng.choice([10, 13, 17, 24, 33, 40])
        if rng.random() < .7:
            o.ints = list(o.ints) + list(range(1000, 1000 + n))
            o.words = list(o.words) + ["w%d" % i for i in range(n)]
        return n, o, list(o.keys) + [
            "k%d" % i if isinstance(o.keys[0], str) else i
            for i in range(5, n + 5)]

    def untyped(self, rng, o):
        if hasattr(o, "untyped_ints"):
            o2 = copy.copy(o)
            o2.ints = o.untyped_ints()
            return o2
        return o

    def gen(self, rng, o, depth=0):
        """-> a conforming value"""
        k = self.kind
        if k == "int":
            return rng.choice(o.ints)
        if k == "str":
            return rng.choice(o.words)
        if k == "float":
            return rng.choice(FLOATS)
        if k == "bool":
            return rng.random() < .5
        if k == "null":
            return None
        if k == "date":
            return datetime.date(2000 + rng.randrange(3), 1, 2)
        if k == "any":
            if o.p_none and rng.random() < o.p_none:
                return None
            return rng.choice([T("int"), T("str"), T("float")]).gen(
                rng, self.untyped(rng, o))
        if k == "plainlist":
            o = self.untyped(rng, o)
            if o.p_deep_plain and rng.random() < o.p_deep_plain:
                return deep_items(rng, o)
            return [rng.choice(o.ints) for _ in range(
                self.size(rng, o, 0, [0, 1, 2])[0])]
        if k == "plaindict":
            o = self.untyped(rng, o)
            if o.p_deep_plain and rng.random() < o.p_deep_plain:
                items = deep_items(rng, o)
                return dict(zip(rng.sample("abc", len(items)), items))
            return dict((rng.choice("abc"), rng.choice(o.ints))
                        for _ in range(rng.randrange(3)))
        if k == "union":
            return rng.choice(self.alts).gen(
                rng, self.untyped(rng, o), depth + 1)
        if k == "rec":
            return self.rec.make(rng, o, depth + 1)
        n, o, keys = self.size(rng, o, depth)
        if k == "list":
            return self.cls(values=o.distinct(
                rng, [self.item.gen(rng, o, depth + 1) for _ in range(n)],
                self.item))
        keys = rng.sample(keys, min(n, len(keys)))
        return self.cls(values=dict(zip(keys, o.distinct(
            rng, [self.item.gen(rng, o, depth + 1) for _ in keys],
            self.item))))

    def raw(self, value):
        """A plain form which converts to the value (same value if none)"""
        k = self.kind
        if k == "list":
            if issubclass(self.cls, JsonRecord):
                return list(value)      # takes JSON forms
            return [self.item.raw(x) for x in value]
        if k == "dict":
            if issubclass(self.cls, JsonRecord):
                return dict(value.items())
            return dict((key, self.item.raw(x)) for key, x in value.items())
        if k == "rec" and not self.rec.json:
            return dict((n, self.rec.attrs[n].type.raw(v))
                        for n, v in value.__dict__.items())
        return value


def deep_items(rng, o):
    """Items which are lists, dictionaries and the like, and some which look
    like these"""
    def scalar():
        return rng.choice([rng.choice(o.ints), rng.choice(o.words), None,
                           float(rng.choice(o.ints))])

    def item(depth=0):
        r = rng.randrange(7)
        if r < 2 or depth > 2:
            return scalar()
        if r == 2:
            return [item(depth + 1) for _ in range(rng.randrange(3))]
        if r == 3:
            return dict((k, item(depth + 1)) for k in rng.sample(
                "xy", rng.choice([0, 1, 2, 2])))
        if r == 4:
            return tuple(item(depth + 1) for _ in range(rng.randrange(3)))
        if r == 5:
            return set(rng.sample(o.ints, min(2, len(o.ints))))
        return repr(item(depth + 1))
    items = [item() for _ in range(rng.randrange(4))]
    if items and rng.random() < .5:
        # the same in other words
        items[-1] = reworded(rng, items[0])
    return items


def reworded(rng, v):
    if type(v) in (int, float):
        return rng.choice([int, float])(v)
    if isinstance(v, dict):
        return dict((k, reworded(rng, v[k])) for k in rng.sample(
            sorted(v), len(v)))
    if isinstance(v, (list, tuple)):
        return type(v)(reworded(rng, x) for x in v)
    return v


class D(object):
    """Description of a value; independent of the library's own equality"""
    __slots__ = ("kind", "type", "content")

    def __init__(self, kind, type_, content):
        self.kind = kind        # value / list / dict / rec
        self.type = type_       # T, or Rec
        self.content = content  # value / [(key, D)] / {name: D}

    def build(self):
        k, c = self.kind, self.content
        if k == "value":
            return copy.deepcopy(c)
        if k == "list":
            return self.type.cls(values=[x.build() for key, x in c])
        if k == "dict":
            return self.type.cls(values=dict(
                (key, x.build()) for key, x in c))
        return self.type.cls(**dict((n, x.build()) for n, x in c.items()))

    def slots(self):
        """What reading each attribute of the built record gives"""
        out = {}
        for n, a in self.type.attrs.items():
            if n in self.content:
                out[n] = self.content[n]
            elif a.default:
                out[n] = a.default_desc
        return out

    def copy(self):
        k, c = self.kind, self.content
        if k == "value":
            return D(k, self.type, copy.deepcopy(c))
        if k == "rec":
            return D(k, self.type, dict((n, x.copy()) for n, x in c.items()))
        return D(k, self.type, [(key, x.copy()) for key, x in c])

    def reordered(self, rng):
        """The same, with the items of dictionaries in another order"""
        d = self.copy()
        for x in d.walk():
            if x.kind == "dict":
                rng.shuffle(x.content)
        return d

    def walk(self):
        """Every description within (including itself)"""
        yield self
        if self.kind == "rec":
            for x in list(self.content.values()):
                for y in x.walk():
                    yield y
        elif self.kind in ("list", "dict"):
            for key, x in self.content:
                for y in x.walk():
                    yield y

    def __repr__(self):
        k, c = self.kind, self.content
        if k == "value":
            return repr(c)
        if k == "rec":
            return "%s(%s)" % (self.type.cls.__name__, ", ".join(
                "%s=%r" % i for i in c.items()))
        if k == "list":
            return "[%s]" % ", ".join(repr(x) for key, x in c)
        return "{%s}" % ", ".join("%r: %r" % i for i in c)


def d_eq(a, b):
    """Are the described values equal, as documented?"""
    if a.kind != b.kind:
        return False
    if a.kind == "value":
        return a.content == b.content
    if a.kind == "rec":
        if a.type is not b.type:
            return False
        x, y = a.slots(), b.slots()
        for n, attr in a.type.attrs.items():
            if attr.extraneous:
                continue
            if (n in x) != (n in y):
                return False
            if n in x and not d_eq(x[n], y[n]):
                return False
        return True
    if a.type.cls is not b.type.cls:
        return False
    if a.kind == "list":
        return len(a.content) == len(b.content) and all(
            d_eq(x[1], y[1]) for x, y in zip(a.content, b.content))
    y = dict(b.content)
    return len(a.content) == len(y) and all(
        k in y and d_eq(x, y[k]) for k, x in a.content)


def d_edit(rng, o, d, where=None):
    """-> a copy of the description with one thing changed, and what"""
    d = d.copy()
    spots = [x for x in d.walk() if x.kind != "rec" or x.type.attrs]
    x = where(d) if where else rng.choice(spots)
    if x.kind == "value":
        new = x.type.desc(rng, o)
        x.kind, x.content = new.kind, new.content
        return d, "value"
    if x.kind == "rec":
        n = rng.choice(sorted(x.type.attrs))
        a = x.type.attrs[n]
        if n in x.content and not a.required and rng.random() < .5:
            del x.content[n]
            return d, "unset"
        x.content[n] = a.type.desc(rng, o, 2)
        return d, "attribute"
    c = x.content
    r = rng.randrange(4)
    if r == 0 and c:
        c.pop(rng.randrange(len(c)))
        if x.kind == "list":
            x.content = [(i, v) for i, (k, v) in enumerate(c)]
        return d, "item removed"
    if r == 1 and len(c) > 1:
        i, j = rng.sample(range(len(c)), 2)
        if x.kind == "list":
            c[i], c[j] = (c[i][0], c[j][1]), (c[j][0], c[i][1])
        else:
            c[i], c[j] = c[j], c[i]         # only the order
        return d, "items exchanged"
    if r == 2 and c:
        i = rng.randrange(len(c))
        c[i] = (c[i][0], x.type.item.desc(rng, o, 2))
        return d, "item changed"
    if x.kind == "list":
        i = rng.randrange(len(c) + 1)
        c.insert(i, (0, x.type.item.desc(rng, o, 2)))
        x.content = [(i, v) for i, (k, v) in enumerate(c)]
    else:
        c.append((rng.choice([k for k in o.keys if k not in dict(c)] or
                             [k * 99 for k in o.keys]), x.type.item.desc(rng, o, 2)))
        x.content = list(dict(c).items())
    return d, "item added"


class Options(object):
    """What to generate"""
    def __init__(self, **kw):
        self.kinds = ["int", "str", "float", "bool", "any", "union", "rec",
                      "rec", "list", "dict", "list", "plainlist", "date"]
        self.words = WORDS
        self.ints = INTS
        self.keys = ["k1", "k2", "K", "a.b", u"\u00e9", "x y", "values"]
        self.json = None        # None: sometimes
        self.p_required = .1
        self.p_ro = .1
        self.p_lazy = .1
        self.p_default = .15
        self.p_extraneous = .1
        self.p_json_name = .3
        self.p_json_null = .05
        self.p_unset = .3
        self.p_pk = .25
        self.p_coll_attr = 0      # collections with attributes of their own
        self.item_kinds = ["rec", "rec", "int", "str"]
        self.names = ["a", "b", "c", "d", "e", "camelCase", "f_g"]
        self.colls_custom = True
        self.generic = True
        self.distinct_items = False
        self.json_conv = None   # (rng, attr, T) -> converter, or None
        self.compare_as = None  # (rng, attr, T) -> Comparison, or None
        self.compare_item = None        # (rng, T) -> (function, model)
        self.p_deep_plain = 0   # containers and the like in plain ones
        self.p_null = 0         # unions with NoneType
        self.p_none = 0         # None for attributes of no declared type
        self.p_swap = 0         # exchange the JSON names of two attributes
        self.p_big = .01        # per collection; see T.size()
        self.big_left = [1]
        self.p_wide = .015      # many attributes
        self.p_deep = .015      # records in records in records ...
        self.__dict__.update(kw)

    def distinct(self, rng, items, t):
        if not self.distinct_items:
            return items
        out = []
        for x in items:
            if not any(x == y for y in out):
                out.append(x)
        return out


class Attr(object):
    def __init__(self, name, type_):
        self.name = name
        self.type = type_
        self.required = self.ro = self.lazy = self.extraneous = False
        self.default = None             # None / "const" / "func"
        self.default_value = None
        self.json_name = name
        self.calls = []
        self.json = False
        self.conv = None                # JSON conversion functions
        self.compare = None             # comparison function
        self.link = False               # see a_chain()

    def __repr__(self):
        flags = [f for f in ("required", "ro", "lazy", "extraneous")
                 if getattr(self, f)]
        if self.default:
            flags.append("default=%s:%r" % (self.default,
                                            self.default_value))
        if self.conv:
            flags.append("conv=%s" % self.conv.name)
        if self.compare:
            flags.append("compare_as=%s" % self.compare.name)
        if self.json_name != self.name:
            flags.append("json_name=%r" % (self.json_name,))
        return "%s:%r%s" % (self.name, self.type,
                            " [%s]" % " ".join(flags) if flags else "")


class Rec(object):
    """A declared record class"""
    def __init__(self, cls, attrs, json, pk=()):
        self.cls = cls
        self.attrs = attrs
        self.json = json
        self.pk = pk

    def describe(self):
        return "%s(%s)%s: %s" % (
            self.cls.__name__, self.cls.__mro__[1].__name__,
            " pk=%s" % (self.pk,) if self.pk else "",
            ", ".join(map(repr, self.attrs.values())))

    def kwargs(self, rng, o, depth=0):
        kw = {}
        for a in self.attrs.values():
            if a.link:
                kw[a.name] = a.type.gen(rng, o, 0)
                continue
            if not a.required and rng.random() < o.p_unset:
                continue
            if a.required and a.default and rng.random() < .5:
                continue
            kw[a.name] = a.type.gen(rng, o, depth)
        return kw

    def desc(self, rng, o, depth=0):
        d = D("rec", self, {})
        for a in self.attrs.values():
            if a.link:
                d.content[a.name] = a.type.desc(rng, o, 0)
                continue
            if not a.required and rng.random() < o.p_unset:
                continue
            d.content[a.name] = a.type.desc(rng, o, depth)
        return d

    def make(self, rng, o, depth=0):
        return self.cls(**self.kwargs(rng, o, depth))


def a_type(rng, o, recs, json, depth=0, kinds=None):
    kind = rng.choice(kinds or o.kinds)
    if kind == "rec":
        if not recs:
            kind = "int"
        else:
            return T("rec", rec=rng.choice(recs))
    if kind == "union":
        alts = [T("int"), T("str")]
        if recs and rng.random() < .4 and "rec" in o.kinds and \
                not o.json_conv:
            alts = [T("rec", rec=rng.choice(recs)), T(rng.choice(
                ["str", "int"]))]
        if rng.random() < o.p_null:
            alts = alts[:rng.randint(1, 2)] + [T("null")]
        return T("union", alts=alts)
    if kind in ("list", "dict"):
        item = a_type(rng, o, recs, json, depth + 1,
                      o.item_kinds if depth < 1 else ["int", "str"])
        return coll_type(rng, o, kind, item, json)
    return T(kind)


def coll_type(rng, o, kind, item, json):
    base, jbase, of = (ListCollection, JsonRecordList, list_of) if \
        kind == "list" else (DictCollection, JsonRecordDict, dict_of)
    itemtype = item.isa()
    # (generic ones are called the same whatever they extend, and so can't
    # both be items of generic ones)
    generic = o.generic and not (
        hasattr(itemtype, "generic_key") and
        itemtype.__mro__[1] not in (ListCollection, DictCollection))
    how = rng.random()
    if json and o.json is not False and how < .5:
        cls = new_class(jbase, {"itemtype": itemtype}, "J" + kind)
    elif how > .88 and generic and o.colls_custom:
        # a generic one of the user's kind of collection, or a class which
        # extends a generic one
        own = {}
        if o.p_coll_attr and rng.random() < o.p_coll_attr:
            own = {"label": Property(isa=str), "extra": Property()}
        if rng.random() < .5:
            cls = (ListProperty if kind == "list" else DictProperty)(
                of=itemtype, coll=new_class(base, own, "B" + kind)).valuetype
        else:
            cls = new_class(of(itemtype), own, "G" + kind)
        t = T(kind, item=item, cls=cls)
        if own:
            t.own = {"label": T("str"), "extra": T("any")}
        return t
    elif how < .75 and generic or not o.colls_custom:
        cls = of(itemtype)
    else:
        attrs = {"itemtype": itemtype}
        cls = new_class(base, attrs, "C" + kind)
    t = T(kind, item=item, cls=cls)
    if o.compare_item and not hasattr(cls, "generic_key"):
        t.compare_item = o.compare_item(rng, item)
        if t.compare_item:
            t.cls = cls = new_class(cls, {
                "compare_item_as": t.compare_item.function}, "I" + kind)
    if o.p_coll_attr and not hasattr(cls, "generic_key") and \
            rng.random() < o.p_coll_attr:
        t.own = {"label": T("str"), "extra": T("any")}
        t.cls = new_class(cls, {"label": Property(isa=str),
                                "extra": Property()}, "X" + kind)
    return t


def a_record(rng, o, recs, json, nattrs=None, link=None):
    attrs = {}
    props = {}
    names = list(o.names)
    if not nattrs and rng.random() < o.p_wide:
        nattrs = rng.choice([9, 12, 17, 22])
        names += [n + str(i) for i in range(2, 6) for n in o.names]
    names = rng.sample(names, min(
        len(names), nattrs or rng.choice([1, 2, 3, 4])))
    swap = {}
    if len(names) > 1 and rng.random() < o.p_swap:
        p, q = rng.sample(names, 2)
        swap = {p: q, q: p}
    for i, name in enumerate(names):
        t = a_type(rng, o, recs, json)
        a = Attr(name, t)
        if link and not i:
            a.link = True
            a.type = t = link
        a.required = rng.random() < o.p_required
        if o.p_none and t.kind == "any":
            a.required = False
        a.ro = rng.random() < o.p_ro
        a.extraneous = rng.random() < o.p_extraneous
        kw = {}
        if rng.random() < o.p_json_name and o.json is not False:
            a.json_name = rng.choice(["J" + name, "the " + name, name.upper(),
                                      name + "Out"])
            if rng.random() < .04 and not any(
                    x.json_name == "" for x in attrs.values()):
                a.json_name = ""
            if rng.random() < o.p_json_null / max(o.p_json_name, .01):
                a.json_name = None
            kw["json_name"] = a.json_name
            a.json = True
        if name in swap:
            a.json_name = kw["json_name"] = swap[name]
            a.json = True
        if o.json_conv:
            a.conv = o.json_conv(rng, a, t)
            if a.conv:
                kw["json_in"] = a.conv.json_in
                kw["json_out"] = a.conv.json_out
                a.json = True
            if a.json_name is None or a.extraneous:
                a.required = False
        if o.compare_as:
            a.compare = o.compare_as(rng, a, t)
            if a.compare:
                kw["compare_as"] = a.compare.function
        pcls = Property
        if t.kind == "list" and t.cls.__mro__[1] is ListCollection and \
                hasattr(t.cls, "generic_key") and rng.random() < .7:
            pcls = ListProperty
            kw["of"] = t.item.isa()
        elif t.kind == "dict" and t.cls.__mro__[1] is DictCollection and \
                hasattr(t.cls, "generic_key") and rng.random() < .7:
            pcls = DictProperty
            kw["of"] = t.item.isa()
        elif t.kind != "any":
            kw["isa"] = t.isa()
        if pcls is not Property:
            # with a JSON mapping, it's the JSON collection type
            t.cls = pcls(**kw).valuetype
        r = rng.random()
        if r < o.p_lazy and not a.required:
            a.lazy = True
            a.default = "func"
        elif r < o.p_lazy + o.p_default:
            a.default = "func"
            if t.kind in ("int", "str") and rng.random() < .5:
                a.default = "const"
        if a.default == "const":
            a.default_value = kw["default"] = rng.choice([5, 9]) if \
                t.kind == "int" else "dflt"
            a.default_desc = D("value", t, a.default_value)
        elif a.default:
            a.default_desc = t.desc(rng, o, 2)
            a.default_value = a.default_desc.build()

            def dflt(a=a):
                a.calls.append(1)
                return a.default_desc.build()
            kw["default"] = dflt
        if a.required:
            kw["required"] = True
        if a.extraneous:
            kw["extraneous"] = True
        if a.lazy:
            kw["lazy"] = True
        if a.ro:
            kw["traits"] = ["ro"]
        attrs[name] = a
        props[name] = pcls(**kw)
    pk = ()
    able = [n for n in names if attrs[n].type.kind in ("int", "str") and
            not attrs[n].extraneous]
    if able and rng.random() < o.p_pk:
        pk = tuple(rng.sample(able, rng.choice([1, 1, min(2, len(able))])))
        props["primary_key"] = list(pk)
    cls = new_class(JsonRecord if json else Record, props,
                    "J" if json else "R")
    return Rec(cls, attrs, json, pk)


def schema(rng, o, n=None):
    """-> [Rec], later ones may refer to earlier ones"""
    if "rec" in o.kinds and rng.random() < o.p_deep:
        return a_chain(rng, o)
    recs = []
    for _ in range(n or rng.choice([1, 2, 2, 3, 4])):
        json = rng.random() < .35 if o.json is None else o.json
        recs.append(a_record(rng, o, [
            r for r in recs], json))
    return recs


def a_chain(rng, o):
    """-> [Rec], each of which holds the one before it"""
    json = rng.random() < .35 if o.json is None else o.json
    recs = [a_record(rng, o, [], json)]
    for _ in range(rng.choice([5, 6, 7, 8])):
        t = T("rec", rec=recs[-1])
        how = rng.choice(["rec", "rec", "list", "dict"])
        if how in o.kinds and how != "rec":
            t = coll_type(rng, o, how, t, json)
            t.solo = True
        recs.append(a_record(rng, o, [], json, link=t))
    return recs


def snapshot(value, ids=None, seen=None):
    """A structure which changes whenever the value does (by content; and by
    identity of the parts if ids is set)"""
    if seen is None:
        seen = set()
    if id(value) in seen:
        return ("cycle",)
    if isinstance(value, Record):
        seen = seen | {id(value)}
        d = dict(value.__dict__)
        inner = None
        if "_values" in d and hasattr(value, "itertuples"):
            v = d.pop("_values")
            items = v.items() if isinstance(v, dict) else enumerate(v)
            inner = [(repr(k), snapshot(x, ids, seen)) for k, x in items]
        out = ("rec", type(value).__name__, inner, sorted(
            (k, snapshot(x, ids, seen)) for k, x in d.items()))
    elif isinstance(value, dict):
        seen = seen | {id(value)}
        out = (type(value).__name__, [
            (repr(k), snapshot(x, ids, seen)) for k, x in value.items()])
    elif isinstance(value, (list, tuple)):
        seen = seen | {id(value)}
        out = (type(value).__name__, [
            snapshot(x, ids, seen) for x in value])
    else:
        out = (type(value).__name__, repr(value))
    return out + (id(value),) if ids else out


def set_names(rec):
    """Names of the set attributes of a record"""
    return set(k for k in rec.__dict__ if k in type(rec).properties)
