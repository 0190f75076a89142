"""Pairs of objects to compare (C22, C23, C24), and other diff workloads."""
from mon.differ import (
    MIRROR, Judge, Opts, Sel, entries_of, mirrored, show)
from mon.recmodel import new_class
from mon.shapes import (
    D, Options, Rec, T, a_record, coll_type, d_edit, reworded, schema,
    set_names)
from normalize import Record
from normalize.coll import Collection, DictCollection, ListCollection

WORDS = ["a", "b", "ab", "A", "a  b", " a b", "a b", "", " ", u"\u00e9",
         u"e\u0301", u"\u00c9", "a\tb\n", u"\u00a0b", u"\u00df", "ss", "SS",
         "0", "None", "Ab", u"\ufb01", u"\u0130", u"a\u030a", u"\u212b"]
INTS = [0, 1, 2, 3]


class Comparison(object):
    def __init__(self, name, function, model):
        self.name, self.function, self.model = name, function, model


def _lower(v):
    return v.lower()


def _half(v):
    return v // 2


def _pair(self, value):
    return "%s/%s" % (value, len(self.__dict__) > 99)


def _constant(self):
    return "const"


def _item_lower(self, v):
    return v.lower()


def _item_half(self, v):
    return v // 2


def compare_as(rng, attr, t):
    """Some comparison functions, for some attributes"""
    if rng.random() > .25:
        return
    if t.kind == "str":
        return rng.choice([
            Comparison("lower", _lower, lambda r, v: v.lower()),
            Comparison("lower, lambda", lambda v: v.lower(),
                       lambda r, v: v.lower()),
            Comparison("len", lambda v: len(v), lambda r, v: len(v)),
            Comparison("method", _pair, lambda r, v: "%s/False" % v),
            Comparison("none", lambda v: v or None, lambda r, v: v or None),
            Comparison("no argument", _constant, lambda r, v: "const")])
    if t.kind == "int":
        return rng.choice([
            Comparison("half", _half, lambda r, v: v // 2),
            Comparison("str", lambda v: " %s " % v,
                       lambda r, v: " %s " % v),
            Comparison("method", _pair, lambda r, v: "%s/False" % v)])


def compare_item(rng, t):
    if rng.random() > .3:
        return
    if t.kind == "str":
        return Comparison("lower", _item_lower, lambda v: v.lower())
    if t.kind == "int":
        return Comparison("half", _item_half, lambda v: v // 2)


class World(object):
    """Related record classes, and pairs of instances of the last one"""
    def __init__(self, rng, compare=.3, **kw):
        self.rng = rng
        self.words = rng.sample(WORDS, rng.choice([3, 5, 8]))
        opts = dict(
            kinds=["int", "str", "str", "any", "union", "rec", "rec", "list",
                   "list", "list", "dict", "date", "bool"],
            words=self.words, ints=rng.choice([[0, 1], INTS]),
            keys=rng.choice([["k1", "k2", "K", "a.b", "0", "values"]] * 6 + [
                [-1, -2, "k1", "0"]]), p_required=.05, p_ro=.05,
            p_lazy=.05, p_extraneous=.1, p_json_name=0, p_pk=.35,
            p_unset=.25, p_coll_attr=rng.choice([0, 0, .3]),
            item_kinds=["rec", "rec", "rec", "int", "str"] + rng.choice([
                [], [], ["list", "list", "dict"]]),
            p_none=rng.choice([0, 0, .3]),
            p_deep_plain=rng.choice([0, .5]))
        opts.update(kw)
        o = self.o = Options(**opts)
        if rng.random() < compare:
            o.compare_as = compare_as
            o.compare_item = compare_item
        self.recs = schema(rng, o, rng.choice([1, 1, 2, 2, 3]))
        # only the outermost has plain lists and dicts: they can't identify
        o.kinds = o.kinds + ["plainlist", "plaindict"]
        self.top = a_record(rng, o, self.recs, False,
                            rng.choice([2, 3, 4, 5]))
        o.kinds = o.kinds[:-2]
        self.recs.append(self.top)
        self.functions = {}
        self.item_functions = {}
        for r in self.recs:
            for a in r.attrs.values():
                if a.compare:
                    self.functions[r.cls, a.name] = a.compare.model
                t = a.type
                while t.kind in ("list", "dict"):
                    if t.compare_item:
                        self.item_functions[t.cls] = t.compare_item.model
                    t = t.item

    def describe(self):
        return [r.describe() for r in self.recs]

    def top_type(self):
        """What to compare: usually a record"""
        rng = self.rng
        if rng.random() < .8:
            return T("rec", rec=self.top)
        item = T("rec", rec=rng.choice(self.recs[:-1])) if \
            rng.random() < .8 and len(self.recs) > 1 else \
            T(rng.choice(["int", "str"]))
        t = coll_type(rng, self.o, rng.choice(["list", "dict"]), item, False)
        if t.compare_item:
            self.item_functions[t.cls] = t.compare_item.model
        return t

    def pair(self, t, edits=None):
        """-> descriptions of two objects"""
        rng, o = self.rng, self.o
        p = t.desc(rng, o, -1) if t.kind != "rec" else t.rec.desc(rng, o, -1)
        if rng.random() < .1:
            return p, (t.desc(rng, o) if t.kind != "rec" else
                       t.rec.desc(rng, o, -1))
        q = p.reordered(rng)
        n = rng.choice([0, 1, 1, 1, 2, 3, 5]) if edits is None else edits
        for _ in range(n):
            if rng.random() < .3:
                q = respell(rng, o, q)
            else:
                q = d_edit(rng, o, q)[0]
        if rng.random() < .2:
            p, q = q, p
        return p, q

    def judge(self, opts):
        return Judge(opts, self.functions, self.item_functions)


def respell(rng, o, d):
    """Another spelling of some text in it, or an exchange of items"""
    import unicodedata
    d = d.copy()
    texts = [x for x in d.walk() if x.kind == "value" and
             isinstance(x.content, str)]
    colls = [x for x in d.walk() if x.kind == "list" and
             len(x.content) > 1]
    plain = [x for x in d.walk() if x.kind == "value" and
             isinstance(x.content, (list, dict))]
    if plain and rng.random() < .4:
        x = rng.choice(plain)
        x.content = reworded(rng, x.content)
    elif colls and (rng.random() < .4 or not texts):
        x = rng.choice(colls)
        values = [v for k, v in x.content]
        rng.shuffle(values)
        x.content = list(enumerate(values))
    elif texts:
        x = rng.choice(texts)
        x.content = rng.choice([
            lambda s: " " + s, lambda s: s.replace(" ", "\n\t"),
            lambda s: unicodedata.normalize("NFD", s),
            lambda s: unicodedata.normalize("NFC", s),
            lambda s: s.lower(), lambda s: s.upper(), lambda s: s + "  ",
            lambda s: u"\u3000" + s])(x.content)
    return d


def own_attributes(rng, t, coll):
    """Set attributes of the collections within a value"""
    if isinstance(coll, Collection):
        for n in ("label", "extra"):
            if n in type(coll).properties and rng.random() < .5:
                setattr(coll, n, rng.choice(["a", "b", " a"]))
        for v in list(coll.__dict__["_values"].values() if isinstance(
                coll, DictCollection) else coll.__dict__["_values"]):
            own_attributes(rng, t, v)
    elif isinstance(coll, Record):
        for v in list(coll.__dict__.values()):
            own_attributes(rng, t, v)


def option_sample(rng, p=.3, names=Opts.NAMES):
    default = {"ignore_ws": True, "unicode_normal": True,
               "fuzzy_match": True}
    return dict((n, not default.get(n, False)) for n in names
                if rng.random() < p)


def tails(rng, t, ds, style, depth=0):
    """Paths into a type, for objects described by ds; style: how often items
    are selected by wildcard"""
    if depth and (rng.random() < .3 or depth > 5):
        return [[]]
    if t.kind == "rec" and t.rec.attrs:
        names = sorted(t.rec.attrs)
        names = rng.sample(names, min(len(names), rng.choice(
            [1, 1, 2, 3] if depth else [1, 2, 3])))
        return [[n] + x for n in names for x in tails(
            rng, t.rec.attrs[n].type, [
                d.content[n] for d in ds
                if d.kind == "rec" and n in d.content], style, depth + 1)]
    if t.kind in ("list", "dict"):
        keys = sorted(set(k for d in ds if d.kind == t.kind
                          for k, x in d.content), key=repr)
        # (of each item, the same is selected)
        some = tails(rng, t.item, [
            x for d in ds if d.kind == t.kind for j, x in d.content],
            style, depth + 1)
        keys = [None] if rng.random() < style or not keys else rng.sample(
            keys, min(len(keys), rng.choice([1, 1, 2])))
        return [[k] + x for k in keys for x in some]
    if t.kind.startswith("plain") and rng.random() < .5:
        keys = sorted(set(k for d in ds if d.kind == "value" for k in (
            d.content if isinstance(d.content, dict) else
            range(len(d.content)))), key=repr)
        if keys:
            return [[rng.choice(keys) if rng.random() > style else None]]
    return [[]]


def a_filter(rng, t, ds):
    """-> paths"""
    paths = tails(rng, t, ds, rng.choice([0, 1, 1, .5]))
    if rng.random() < .1 and t.kind == "rec":
        paths.append(rng.choice(paths)[:1])
    rng.shuffle(paths)
    return paths
