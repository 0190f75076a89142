"""C32: threads which use the library at the same time don't affect each other.

A case is a plan of 2-4 programs, which are run twice, each time in a process
forked for it in which nothing was declared before: by threads, under a
schedule which switches between them at lines (or instructions) of the library
chosen by the case; and one after another.  What each program observed must be
the same, and so must be what is observed afterwards (what is registered, what
is shared).
"""
import copy
import importlib
import itertools
import json
import pickle
import random
import re
import sys
import threading
import time
import types as pytypes

import normalize
from mon import threads
from mon.core import Abandon, Ctx, Violation, safe_repr, safe_str, short

RULE = (
    "a case draws what 2-4 threads do (declare attributes, use those of "
    "shared classes, make property types or generic collections, output the "
    "first JSON of new classes, read shared structures and change their own, "
    "infer types of placeholders, or any scenario of the other monitors) and "
    "a schedule (where in the library turns are passed on, by line or by "
    "instruction); non-trivial: at least two switches, distinct by schedule")
ASSUMPTIONS = [
    "threads share classes, selectors, options and structures which they "
    "don't change; an object which is changed (or has lazy attributes not "
    "yet computed) is used by one thread at a time",
]
NEED = {"cases": 500, "switches": 20000, "points": 1000000, "threads": 1300,
        "free": 20, "declare": 60, "classes": 300, "types": 40, "generics": 40,
        "hooks": 40, "shared": 400, "compare": 150, "placeholders": 30,
        "borrowed": 80, "by_opcode": 200}
# how long threads may take, at least, and compared with one after another
LIMIT = 40, 400
TIMEOUT = 300


def text(x):
    # (addresses, and traits which are made up)
    return re.sub(r"\b(0x|trait|run)[0-9a-f]+", r"\1#", x)


def outcome(fn, *a, **kw):
    try:
        v = fn(*a, **kw)
    except Exception as e:
        return "!%s: %s" % (type(e).__name__, text(safe_str(e)))
    return text(safe_repr(v))


def fresh_class(base, name, attrs, module="c32_dyn"):
    mod = sys.modules.get(module)
    if mod is None:
        mod = sys.modules[module] = pytypes.ModuleType(module)
    cls = type(base)(name, (base,), dict(attrs, __module__=module))
    setattr(mod, name, cls)
    return cls


# -- declarations

class PerThread(object):
    """The c07 module's list of calls, for each thread"""
    def __init__(self):
        self.local = threading.local()

    def own(self):
        if not hasattr(self.local, "calls"):
            self.local.calls = []
        return self.local.calls

    def append(self, x):
        self.own().append(x)

    def __delitem__(self, i):
        del self.own()[i]

    def __iter__(self):
        return iter(self.own())


def declare(rng, n):
    """Each declares attributes and records what these do"""
    from checks import c07
    c07.CALLS = PerThread()
    pool = [(c07.spec_for(rng), rng.getrandbits(40))
            for _ in range(rng.choice([1, 1, 2, 3]))]
    programs = []
    for _ in range(n):
        mine = [rng.choice(pool) for _ in range(rng.choice([1, 1, 2]))] if \
            rng.random() < .7 else [(c07.spec_for(rng), rng.getrandbits(40))]
        programs.append(
            lambda mine=mine: [c07.full(s, seed)[0] for s, seed in mine])

    def after():
        return [c07.full(s, seed)[0] for s, seed in pool]
    return programs, after


def classes(rng, n):
    """Each uses instances of its own of shared classes"""
    from checks import c07
    c07.CALLS = PerThread()
    made = []
    while not made:
        for _ in range(rng.choice([1, 1, 2])):
            s = c07.spec_for(rng)
            try:
                prop, _text = c07.declare(s, rng)
                base = normalize.JsonRecord if s["jsonbase"] else \
                    normalize.Record
                made.append((fresh_class(base, "C%d" % len(made), {
                    "attr": prop, "other": normalize.Property(isa=int)}),
                    prop, s))
            except Exception:
                pass

    use = [
        lambda r, cls, x, v: setattr(x, "attr", v),
        lambda r, cls, x, v: setattr(x, "attr", v),
        lambda r, cls, x, v: x.attr,
        lambda r, cls, x, v: delattr(x, "attr"),
        lambda r, cls, x, v: normalize.to_json(x),
        lambda r, cls, x, v: normalize.from_json(
            cls, {r.choice(["attr", "jName"]): v}),
        lambda r, cls, x, v: x == cls(attr=v),
        lambda r, cls, x, v: [
            d.diff_type for d in x.diff_iter(cls(attr=v))],
        lambda r, cls, x, v: repr(x)]
    # all of them doing much the same finds more than each its own
    focus = rng.sample(use, rng.choice([1, 2, 4, len(use)]))
    # (values of which each thread has its own, if possible)
    good = []
    for cls, _prop, _s in made:
        for v in c07.VALUES:
            try:
                good.append((cls, v, cls(attr=v)))
            except Exception:
                pass

    def program(seed):
        r = random.Random(seed)
        out = []
        cls = r.choice(made)[0]
        mine = [v for c, v, _x in good if c is cls] or c07.VALUES
        mine = r.choice([c07.VALUES, mine, mine, r.sample(
            mine, min(2, len(mine)))])
        for _ in range(r.choice([1, 2, 4])):
            got = []
            kw = r.choice([{}] + [{"attr": v} for v in mine] * 2)
            out.append(c07.outcome(lambda: got.append(cls(**kw))))
            for _ in range(r.choice([2, 4, 10]) if got else 0):
                x = got[0]
                v = r.choice(mine)
                fn = r.choice(focus)
                out.append(c07.outcome(lambda: fn(r, cls, x, v)))
                if r.random() < .5:
                    out.append(c07.outcome(lambda: x.attr))
        return out

    programs = [lambda seed=rng.getrandbits(30): program(seed)
                for _ in range(n)]
    return programs, lambda: program(1)


class Conv(object):
    @staticmethod
    def conv(value):
        return int(value) + 1000

    @staticmethod
    def chk(value):
        return value != 13


def use(cls, values):
    out = []
    for v in values:
        made = []
        out.append(outcome(lambda: made.append(cls(x=v))))
        if made:
            r = made[0]
            out.append(outcome(getattr, r, "x"))
            out.append(outcome(setattr, r, "x", 7))
            out.append(outcome(getattr, r, "x"))
            out.append(outcome(normalize.to_json, r))
            out.append(outcome(delattr, r, "x"))
            out.append(outcome(repr, r))
    return out


RUNS = itertools.count()


def types(rng, n):
    """Each makes property types, and declares with these"""
    run = next(RUNS)
    from normalize.property import make_property_type
    serial = itertools.count()
    made = []
    programs = []
    for me in range(n):
        plans = []
        for _ in range(rng.choice([1, 2, 3])):
            base = rng.choice([
                normalize.Property, normalize.SafeProperty,
                normalize.JsonProperty, normalize.ROProperty,
                normalize.LazyProperty, normalize.ListProperty])
            kw = rng.choice([
                {"isa": int}, {"isa": int, "coerce": Conv.conv},
                {"default": 5}, {"check": Conv.chk}, {"json_name": "jx"},
                {"v1_none": 0}, {"required": True}])
            if base is normalize.ListProperty:
                kw = {"of": int}
            more = rng.choice([{}, {"traits": ["ro"]}, {"json_name": "j"},
                               {"doc": "d"}, {"traits": ["unsafe"]}])
            trait = rng.choice([None, None, "run%d_t%d_%d" % (
                run, me, next(serial))])
            plans.append((base, kw, more, trait))

        def program(plans=plans, me=me):
            out = []
            for i, (base, kw, more, trait) in enumerate(plans):
                got = []
                out.append(outcome(lambda: got.append(make_property_type(
                    "Made%d_%d" % (me, i), base_type=base, trait_name=trait,
                    **kw))))
                if not got:
                    continue
                made.append(got[0])

                def rec():
                    got.append(fresh_class(
                        normalize.Record, "Rec%d_%d" % (me, i),
                        {"x": got[0](**more)}))
                out.append(outcome(rec))
                if len(got) > 1:
                    p = got[1].properties["x"]
                    out.append(str(isinstance(p, got[0])))
                    out.append(text(" ".join(sorted(set(p.traits) - set(
                        x for x in p.traits if re.match(r"trait\d", x))))))
                    out.extend(use(got[1], [5, "6", 13, [1], None]))
            return out
        programs.append(program)

    def after():
        # traits which were made up are one type's each
        own = [set(t.traits) - set(t.__mro__[1].traits) for t in made]
        return [len(own), len(set(frozenset(x) for x in own))] + [
            len(x) for x in own]
    return programs, after


# -- generic collections

def generics(rng, n):
    """Each gets at the collection types of shared classes"""
    from normalize.coll import dict_of, list_of
    from normalize.property.coll import DictProperty, ListProperty
    shared = [fresh_class(
        rng.choice([normalize.Record, normalize.JsonRecord]), "Item%d" % i,
        {"x": normalize.Property(isa=int), "y": normalize.Property()})
        for i in range(rng.choice([1, 1, 2, 3]))]
    seen = {}
    programs = []
    for me in range(n):
        plan = [(rng.choice(["list", "dict", "listprop", "dictprop", "list"]),
                 rng.choice(shared)) for _ in range(rng.choice([1, 2, 3]))]

        def program(plan=plan, me=me):
            out = []
            for i, (kind, of) in enumerate(plan):
                isdict = kind.startswith("dict")
                try:
                    if kind.endswith("prop"):
                        prop = (DictProperty if isdict else ListProperty)(
                            of=of)
                        cls = prop.valuetype
                        rec = fresh_class(normalize.Record, "Has%d_%d" % (
                            me, i), {"c": prop})
                    else:
                        cls = (dict_of if isdict else list_of)(of)
                        rec = None
                    seen.setdefault((isdict, of), []).append(cls)
                    content = {"a": {"x": 1}, "b": {"x": 2, "y": [3]}}
                    if not isdict:
                        content = list(content.values())
                    c = cls(content)
                    out.append(outcome(lambda: c))
                    out.append(cls.__name__ + " " + cls.__module__)
                    again = pickle.loads(pickle.dumps(c))
                    out.append(str(again == c and type(again) is type(c)))
                    out.append(outcome(normalize.to_json, c))
                    out.append(outcome(lambda: [
                        d.diff_type.canonical_name
                        for d in c.diff_iter(cls({} if isdict else []))]))
                    if rec:
                        r = rec(c=content)
                        out.append(outcome(lambda: r))
                        out.append(str(type(r.c) is cls and
                                       rec(c=c).c is c))
                except Exception as e:
                    out.append("!%s: %s" % (type(e).__name__, safe_str(e)))
            return out
        programs.append(program)

    def after():
        out = []
        for i, of in enumerate(shared):
            for isdict, make in ((False, list_of), (True, dict_of)):
                got = set(map(id, seen.get((isdict, of), [])))
                got.add(id(make(of)))
                name = make(of).__name__
                out.append("%s: %d types, %s" % (
                    name, len(got),
                    getattr(sys.modules["c32_dyn"], name) is make(of)))
        return out
    return programs, after


# -- JSON

def hooks(rng, n):
    """Each outputs JSON of classes of which none was output before"""
    from normalize.coll import list_of
    classes = []
    for i in range(rng.choice([1, 2, 3])):
        kind = rng.choice(["rec", "jrec", "none", "extraneous", "kw", "plain",
                           "list", "static"])
        attrs = {"x": normalize.Property(isa=int),
                 "z": normalize.Property(extraneous=True)}
        if kind in ("rec", "jrec"):
            cls = fresh_class(normalize.Record if kind == "rec" else
                              normalize.JsonRecord, "J%d" % i, attrs)
            made = cls(x=i, z="zz")
        elif kind == "list":
            cls = list_of(fresh_class(
                normalize.Record, "J%d" % i, attrs))
            made = cls([{"x": 1, "z": 2}])
        else:
            d = {}
            exec({
                "none": "def json_data(self):\n    return 'none'",
                "extraneous": "def json_data(self, extraneous=None):\n"
                              "    return 'extraneous', extraneous",
                "kw": "def json_data(self, **kw):\n"
                      "    return 'kw', sorted(kw.items())",
                "static": "@staticmethod\ndef json_data(extraneous):\n"
                          "    return 'static', extraneous",
                "plain": "",
            }[kind], d)
            d.pop("__builtins__", None)
            made = type("Hook%d" % i, (object,), d)()
            if kind == "plain":
                made = {"k": 3, "j": [i, "plain"]}
        classes.append(made)
    holder = fresh_class(normalize.JsonRecord, "Holder", {
        "a": normalize.Property(), "b": normalize.Property(extraneous=True),
        "c": normalize.JsonProperty(json_name="jc")})
    programs = []
    for me in range(n):
        plan = [(rng.choice(["direct", "in list", "in dict", "attr", "ext",
                             "json_data"]),
                 rng.choice([True, False]), rng.randrange(len(classes)))
                for _ in range(rng.choice([1, 2, 4]))]

        def program(plan=plan):
            out = []
            for how, ext, i in plan:
                x = classes[i]
                out.append(outcome({
                    "direct": lambda: normalize.to_json(x, ext),
                    "in list": lambda: normalize.to_json([x, [x]], ext),
                    "in dict": lambda: normalize.to_json({"k": x}, ext),
                    "attr": lambda: normalize.to_json(
                        holder(a=x, c=[x]), ext),
                    "ext": lambda: normalize.to_json(holder(b=x), ext),
                    "json_data": lambda: holder(a=x, b=x).json_data(
                        extraneous=ext),
                }[how]))
            return out
        programs.append(program)

    def after():
        return [outcome(normalize.to_json, x, e) for x in classes
                for e in (True, False)]
    return programs, after


# -- placeholders

def placeholders(rng, n):
    """Each infers types from placeholders"""
    from normalize.empty import placeholder
    inner = fresh_class(normalize.Record, "Inner", {
        "x": normalize.Property(isa=int),
        "s": normalize.Property(isa=(int, str))})
    mid = fresh_class(normalize.Record, "Mid", {
        "inner": normalize.Property(isa=inner),
        "many": normalize.ListProperty(of=inner),
        "any": normalize.Property()})
    outer = fresh_class(normalize.Record, "Outer", {
        "mid": normalize.Property(isa=mid),
        "either": normalize.Property(isa=(mid, inner)),
        "mids": normalize.DictProperty(of=mid)})
    fresh = [fresh_class(normalize.Record, "Own%d" % i, {
        "o": normalize.Property(isa=outer),
        "i": normalize.Property(isa=inner)}) for i in range(2)]
    seen = {}
    programs = []
    paths = [["mid0"], ["mid0", "inner"], ["mid0", "inner", "x"],
             ["mid0", "many", 0, "x"], ["either0", "x"], ["mids0", "k"],
             ["either0", "inner", "s"], ["mid0", "nope"], ["mid0", 0],
             ["mid0", "any", "thing", 3], ["mids0", "k", "many", 1, "x"]]
    for me in range(n):
        plan = [(rng.choice(["path", "path", "type"]), rng.choice(paths),
                 rng.choice([(inner,), (mid,), (inner, mid), (int, str),
                             (fresh[0],), (fresh[1],)]))
                for _ in range(rng.choice([2, 4, 8]))]

        def program(plan=plan):
            out = []
            for what, path, key in plan:
                if what == "type":
                    got = placeholder(key)
                    seen.setdefault(key, []).append(got)
                    out.append(text(repr(got)))
                    continue
                x = outer()
                try:
                    for step in path:
                        x = x[step] if isinstance(step, int) or \
                            step == "k" else getattr(x, step)
                    seen.setdefault(("path",) + tuple(path), []).append(x)
                    out.append(text(repr(x)))
                except Exception as e:
                    out.append("!%s: %s" % (type(e).__name__, safe_str(e)))
            return out
        programs.append(program)

    def after():
        return sorted("%s: %d" % (
            safe_repr(key), len(set(map(id, xs))) if
            all(type(x).__name__ == "EmptyVal" for x in xs) else -1)
            for key, xs in seen.items())
    return programs, after


# -- structures

def shared(rng, n):
    """Each reads shared structures, in many ways, and changes its own"""
    from checks import c21
    from mon.shapes import snapshot
    from normalize.diff import DiffOptions
    from normalize.visitor import VisitorPattern
    o = c21.options(p_big=0, p_wide=.02, p_deep=.02, p_lazy=0)
    recs, types_, (a, b, c, d) = c21.build(rng, o, 4)
    if rng.random() < .25:
        b = pickle.loads(pickle.dumps(a))
    structures = [a, b, c, d]
    tree = c21.choose(rng, types_, [a]) or {}
    ps = c21.paths(tree) or [()]
    selectors = [normalize.FieldSelector(p) for p in ps]
    try:
        mfs = normalize.MultiFieldSelector(*ps)
    except Exception:
        mfs = None
    diffopts = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        kw = dict((k, rng.random() < .5) for k in (
            "ignore_ws", "ignore_case", "ignore_empty_slots",
            "ignore_empty_items", "unicode_normal", "unchanged", "moved",
            "duck_type", "extraneous", "fuzzy_match"))
        kw["recurse"] = rng.random() < .1
        if mfs and rng.random() < .3:
            kw["compare_filter"] = mfs
        diffopts.append(DiffOptions(**kw))
    try:
        data = normalize.to_json(a)
    except Exception:
        data = None
    cls = type(a)

    def own():
        return pickle.loads(pickle.dumps(a))

    def differences(x, y, opts):
        return [(d.diff_type.canonical_name, d.base.path, d.other.path)
                for d in x.diff_iter(y, options=opts)]

    def any_two(r):
        return outcome(differences, r.choice(structures),
                       r.choice(structures), r.choice(diffopts))

    class Pattern(VisitorPattern):
        @classmethod
        def apply(cls, value, prop, visitor):
            return "%s=%r" % (visitor.field_selector.path, value)

    def mine(r):
        rec = r.choice(recs)
        x = rec.make(r, o)
        return (snapshot(x), snapshot(normalize.from_json(
            rec.cls, normalize.to_json(x))), [
                (n, outcome(lambda: (setattr(x, n, v), snapshot(x))))
                for n, v in sorted(rec.kwargs(r, o).items())])

    def any(r):
        return r.choice(structures)

    def mutate(r, fn):
        x = pickle.loads(pickle.dumps(any(r)))
        return outcome(fn, x), snapshot(x)

    records = [
        lambda r: outcome(mine, r),
        lambda r: outcome(lambda: any(r) == any(r)),
        lambda r: outcome(lambda: any(r) != any(r)),
        lambda r: outcome(lambda: snapshot(own())),
        lambda r: outcome(lambda: hash(a) == hash(own())),
        lambda r: outcome(repr, any(r)),
        lambda r: outcome(str, any(r)),
        lambda r: outcome(lambda: any(r).__pk__),
        lambda r: outcome(lambda: sorted(repr(x) for x in any(r))),
        lambda r: outcome(lambda: snapshot(copy.deepcopy(any(r)))),
        lambda r: outcome(lambda: [
            str(cls.properties[k]) for k in sorted(cls.properties)]),
    ]
    in_json = [
        lambda r: outcome(lambda: normalize.to_json(
            any(r), r.random() < .5)),
        lambda r: outcome(lambda: snapshot(
            normalize.from_json(cls, data))),
        lambda r: outcome(lambda: snapshot(normalize.from_json(
            cls, normalize.to_json(any(r))))),
        lambda r: outcome(mine, r),
    ]
    visits = [
        lambda r: outcome(Pattern.visit, any(r)),
        lambda r: outcome(Pattern.visit, any(r)),
        lambda r: outcome(lambda: Pattern.visit(
            any(r), visit_filter=r.choice([None, mfs]))),
        lambda r: outcome(lambda: Pattern.visit(
            any(r), apply_empty_slots=r.random() < .5,
            extraneous=r.random() < .5)),
        lambda r: outcome(lambda: snapshot(VisitorPattern.cast(
            cls, VisitorPattern.visit(any(r))))),
        lambda r: outcome(VisitorPattern.reflect, cls),
        lambda r: outcome(VisitorPattern.reflect, any(r)),
    ]
    compares = [
        any_two, any_two,
        lambda r: outcome(differences, a, own(), r.choice(diffopts)),
        lambda r: outcome(lambda: str(any(r).diff(
            any(r), options=r.choice(diffopts)))),
    ]
    selects = [
        lambda r: outcome(lambda: snapshot(r.choice(selectors).get(any(r)))),
        lambda r: mutate(r, lambda x: r.choice(selectors).delete(x)),
        lambda r: mutate(r, lambda x: r.choice(selectors).put(x, r.choice(
            [1, "s", None, [], {}]))),
        lambda r: mutate(r, lambda x: r.choice(selectors).post(x, r.choice(
            [1, "s", None, [], {}]))),
        lambda r: outcome(lambda: snapshot(mfs.get(any(r)))),
        lambda r: outcome(lambda: repr(mfs[r.choice(ps)])),
        lambda r: outcome(lambda: [s in mfs for s in selectors]),
        lambda r: mutate(r, lambda x: mfs.patch(x, any(r))),
        lambda r: mutate(r, lambda x: mfs.delete(x)),
        lambda r: outcome(lambda: mfs.path),
        lambda r: outcome(lambda: [s.path for s in selectors]),
        lambda r: outcome(lambda: sorted(
            str(normalize.FieldSelector.from_path(s.path)) for s in selectors
        )),
    ]
    before = [snapshot(x, ids=True) for x in structures]
    programs = []
    # all of them doing much the same finds more than each its own
    ops = rng.choice([records, in_json, visits, compares, selects] * 3 + [
        records + in_json + visits + compares + selects])
    focus = rng.sample(range(len(ops)), min(len(ops), rng.choice(
        [1, 2, 3, len(ops)])))
    pool = [(rng.choice(focus), rng.getrandbits(30)) for _ in range(4)]
    for me in range(n):
        plan = [rng.choice(pool) if rng.random() < .4 else
                (rng.choice(focus), rng.getrandbits(30))
                for _ in range(rng.choice([2, 4, 6]))]
        programs.append(lambda plan=plan: [
            "%d: %s" % (i, ops[i](random.Random(seed))) for i, seed in plan])

    def after():
        return [str(before == [snapshot(x, ids=True) for x in structures])]
    return programs, after


def compare(rng, n):
    """Each compares shared objects, with shared options"""
    from mon.pairs import World, option_sample
    from mon.shapes import snapshot
    from normalize.diff import DiffOptions, diff
    w = World(rng, p_big=0, p_wide=.02, p_deep=.02, p_lazy=0)
    t = w.top_type()
    pairs = []
    for _ in range(rng.choice([1, 2, 3])):
        p, q = w.pair(t)
        pairs.append((p.build(), q.build()))
    kws = []
    for _ in range(rng.choice([1, 1, 2])):
        kw = option_sample(rng, .5)
        for k in "unchanged", "moved":
            if rng.random() < .4:
                kw[k] = True
        kws.append((kw, DiffOptions(**kw)))

    def program(plan):
        out = []
        for (a, b), (kw, opts), how in plan:
            if how == "own":
                got = outcome(lambda: [str(x) for x in diff(a, b, **kw)])
            elif how == "str":
                got = outcome(lambda: str(diff(a, b, options=opts)))
            elif how == "json":
                got = outcome(lambda: normalize.to_json(
                    diff(a, b, options=opts)))
            elif how == "id":
                got = outcome(lambda: (opts.record_id(a), opts.record_id(b)))
            else:
                got = outcome(lambda: [
                    str(x) for x in diff(a, b, options=opts)])
            out.append(got)
        return out

    before = snapshot([list(x) for x in pairs], ids=False)
    programs = []
    hows = rng.choice([["list"], ["list", "str", "json", "id", "own"]])
    for _ in range(n):
        plan = [(rng.choice(pairs), rng.choice(kws), rng.choice(hows))
                for _ in range(rng.choice([1, 2, 4]))]
        programs.append(lambda plan=plan: program(plan))

    def after():
        return [str(before == snapshot([list(x) for x in pairs], ids=False)),
                program([(x, k, "list") for x in pairs for k in kws])]
    return programs, after


# -- what the other monitors do

# (these use processes of their own)
NOT_BORROWED = {("c07", "spellings"), ("c07", "order")}
_scenarios = []


def scenarios():
    if not _scenarios:
        for i in range(1, 32):
            name = "c%02d" % i
            mod = importlib.import_module("checks." + name)
            for sc in mod.SCENARIOS:
                if (name, sc[0]) not in NOT_BORROWED:
                    _scenarios.append((name, sc[0], sc[1], i))
        # (what's counted, and what's warned of, is any thread's)
        sys.modules["checks.c07"].CALLS = PerThread()
        sys.modules["checks.c09"].ALONE = False
    return _scenarios


def borrowed(rng, n):
    """Each runs a scenario of another check"""
    pool = rng.sample(scenarios(), rng.choice([1, 1, 2, 3]))
    programs = []
    for me in range(n):
        name, sc, fn, i = rng.choice(pool)
        seed = rng.choice([1, 2, 3, 4]) if rng.random() < .2 else \
            rng.getrandbits(30)

        def program(fn=fn, i=i, seed=seed, name=name, sc=sc):
            from mon.core import load_known
            pid = "C%02d" % i
            ctx = Ctx(pid, "quick", seed, load_known(pid))
            try:
                fn(ctx, random.Random(seed))
            except Violation as e:
                return ["%s %s" % (name, sc), "violation: " + e.msg]
            except Abandon as e:
                return ["%s %s" % (name, sc), "abandoned"]
            except Exception as e:
                return ["%s %s" % (name, sc), "%s: %s" % (
                    type(e).__name__, safe_str(e))]
            return ["%s %s" % (name, sc), "quiet"]
        programs.append(program)
    return programs, lambda: []


KINDS = {"declare": declare, "classes": classes, "compare": compare,
         "types": types, "generics": generics, "hooks": hooks,
         "placeholders": placeholders, "shared": shared,
         "borrowed": borrowed}


# these find everything declared, but under many schedules
WARM = ("classes", "shared", "compare")
ROUNDS = 10


def one_by_one(programs, after):
    start = time.monotonic()
    outs = []
    for p in programs:
        try:
            outs.append(p())
        except Exception as e:
            outs.append("ended with %s: %s" % (type(e).__name__, safe_str(e)))
    took = time.monotonic() - start
    return outs, after(), max(LIMIT[0], took * LIMIT[1])


def at_once(programs, after, seed, style, limit):
    outs, facts = threads.run(programs, seed, style, limit)
    if not facts["ended"]:
        return [], [], facts
    outs = ["ended with %s: %s" % (type(x).__name__, safe_str(x)) if
            isinstance(x, BaseException) else x for x in outs]
    try:
        rest = after()
    except Exception as e:
        rest = ["ended with %s: %s" % (type(e).__name__, safe_str(e))]
    return outs, rest, facts


def run_kind(kind):
    def fn(ctx, rng):
        seed = rng.getrandbits(40)
        n = rng.choice([2, 2, 2, 3, 4])
        styles = [threads.a_style(rng) for _ in range(
            ROUNDS if kind in WARM else 1)]

        def plan():
            random.seed(seed)
            return KINDS[kind](random.Random(seed), n)

        def concurrent(limit):
            return [at_once(*plan(), seed, styles[0], limit)]

        def sequential():
            return one_by_one(*plan())

        def both():
            programs, after = plan()
            want = one_by_one(programs, after)
            got = []
            for i, style in enumerate(styles):
                got.append(at_once(
                    programs, after, seed + i, style, want[2]))
                if got[-1][:2] != want[:2]:
                    break
            return want, got

        def tried():
            """-> what one after another gave, what each round gave"""
            if kind in WARM:
                scenarios()
                result = threads.in_child(both, TIMEOUT)
                want, rounds = result or (None, None)
            else:
                want = threads.in_child(sequential, TIMEOUT)
                rounds = want and threads.in_child(
                    lambda: concurrent(want[2]), max(TIMEOUT, 2 * want[2]))
            if rounds is None:
                raise Abandon("takes too long")
            return want, rounds

        ctx.log(kind, "%d threads" % n, "schedules", styles)
        want, rounds = tried()
        if not all(facts["ended"] for _, _, facts in rounds):
            # the machine may have been busy with something else: threads
            # which don't end must do so again
            for _ in range(3):
                want, rounds = tried()
                if not all(facts["ended"] for _, _, facts in rounds):
                    break
            ctx.ev("delayed")
        for (outs, rest, facts), style in zip(rounds, styles):
            for k in ("points", "switches", "stolen", "locks", "waits"):
                ctx.ev(k, facts[k])
            ctx.ok(facts["ended"], "%d threads (%s) have not ended after "
                   "%.0f s", n, kind, want[2])
            ctx.ev("threads", n)
            ctx.ev("runs")
            ctx.ev(kind)
            ctx.ev("free" if "free" in style else
                   "by_opcode" if style["opcodes"] else "by_line")
            ctx.log("%(points)d points, %(switches)d switches, schedule "
                    "%(schedule)s" % facts)
            for i, (x, y) in enumerate(zip(outs, want[0])):
                if kind == "borrowed" and y[-1] != "quiet":
                    continue
                ctx.ok(x == y, "thread %d of %d (%s): %s", i, n, kind,
                       difference(x, y))
            ctx.ok(rest == want[1], "after %d threads (%s): %s", n, kind,
                   difference(rest, want[1]))
            if facts["switches"] > 1:
                ctx.sig(kind, facts["schedule"])
        ctx.ev("cases")
    return fn


def difference(x, y):
    if not isinstance(x, list) or not isinstance(y, list):
        return "%s, rather than %s" % (x, y)
    while isinstance(x, list) and isinstance(y, list):
        for p, q in itertools.zip_longest(x, y, fillvalue="(nothing)"):
            if p != q:
                x, y = p, q
                break
        else:
            return "no difference"
    x, y = short(safe_repr(x), 700), short(safe_repr(y), 700)
    return "%s with threads, %s without" % (x, y)


# (those which start with nothing declared come before the others)
SCENARIOS = [
    ("declare", run_kind("declare"), 200, 3000),
    ("types", run_kind("types"), 120, 2000),
    ("generics", run_kind("generics"), 140, 2000),
    ("hooks", run_kind("hooks"), 140, 2000),
    ("placeholders", run_kind("placeholders"), 100, 1500),
    ("borrowed", run_kind("borrowed"), 160, 6000),
    ("classes", run_kind("classes"), 120, 1500),
    ("shared", run_kind("shared"), 160, 4000),
    ("compare", run_kind("compare"), 56, 1500),
]
WORKERS = 8
TECHNIQUE = (
    "runtime monitoring: controlled thread schedules (switches at chosen lines "
    "and instructions of the library), compared with runs without threads")
