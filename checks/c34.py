"""C34: the library keeps nothing of what it's given or returns."""
import copy
import importlib
import itertools
import pickle
import random
import traceback
import types

import normalize
from mon import reach
from mon.core import Ctx, load_known, safe_repr, short
from mon.recmodel import new_class
from normalize import (
    DictProperty, FieldSelector, JsonProperty, JsonRecord, LazyProperty,
    ListProperty, MultiFieldSelector, Property, Record, ROProperty,
    SafeProperty, from_json, to_json)
from normalize.record.json import AutoJsonRecord
from normalize.coll import dict_of, list_of
from normalize.diff import DiffOptions, diff
from normalize.empty import placeholder
from normalize.identity import record_id
from normalize.visitor import Visitor, VisitorPattern

RULE = (
    "either runs scenarios of all the other monitors and then walks from all "
    "that the library keeps (globals, classes, functions, caches, properties "
    "of declared classes) looking for records, collections, selectors, "
    "options, visitors, exceptions and values of the monitors; or repeats "
    "random operations with ever new values on the same classes, and measures "
    "what can be reached from there; non-trivial: distinct sets of operations")
ASSUMPTIONS = [
    "what is given in declarations (defaults, functions, types) may be kept, "
    "as may be the declarations", "a bounded number of values may be kept for "
    "reuse, if no records are among them"]
NEED = {"scenarios": 600, "walks": 80, "walked objects": 500000,
        "rounds": 2000, "measures": 600, "operations": 8000, "refused": 500}
WORKERS = 8

USERS = (Record, FieldSelector, MultiFieldSelector, DiffOptions, Visitor,
         BaseException, types.TracebackType)
MINE = ("checks", "mon", "verif_dyn", "c32_dyn")

pool = []


def prepare():
    if pool:
        return
    for i in range(1, 34):
        name = "c%02d" % i
        if i == 32:
            continue
        mod = importlib.import_module("checks." + name)
        for sc in mod.SCENARIOS:
            # (those use processes of their own)
            if (name, sc[0]) not in (("c07", "spellings"), ("c07", "order")):
                pool.append((name.upper(), sc[0], sc[1]))


def users(seen):
    """What is held, but is not the library's"""
    return [x for x, _by in seen.values() if not isinstance(x, type) and (
        isinstance(x, USERS) or type(x).__module__.split(".")[0] in MINE)]


known = []          # (kept, so that they are recognised)


def borrowed(ctx, rng):
    """After anything, nothing is kept"""
    prepare()
    some = [rng.choice(pool) for _ in range(8)]

    def run():
        for pid, name, fn in some:
            other = Ctx(pid, "quick", 1, load_known(pid))
            try:
                fn(other, random.Random(rng.getrandbits(40)))
            except Exception:
                pass        # (that's the other check's)
            del other
            ctx.ev("scenarios")

    names = [x[:2] for x in some]
    ctx.log("ran", names)
    run()
    new, text = news(ctx)
    # (there may be things of which there's one)
    total = 0
    for _ in range(40 if new else 0):
        run()
        new, more = news(ctx)
        total += len(new)
        text = more or text
        ctx.ok(total < 3, "%s (or what was run before) left more and more "
               "behind: %s", names, text)
    ctx.ok(True, "")
    ctx.sig(repr(names))


def news(ctx):
    seen = reach.held()
    ctx.ev("walks")
    ctx.ev("walked objects", len(seen))
    ids = set(map(id, known))
    new = [x for x in users(seen) if id(x) not in ids]
    known.extend(new)
    return new, new and "%s %s, held by %s" % (
        type(new[0]).__name__, short(safe_repr(new[0]), 200),
        reach.route(seen, new[0]))


# -- the same again and again, with other values

serial = itertools.count(1000003)


def new_text():
    return "text%d" % next(serial)


class Raised(Exception):
    pass


def refuse(_value):
    raise Raised(new_text())


def twice(value):
    if isinstance(value, str) and value.startswith("bad"):
        raise Raised(value)
    return [value, value]


def declare(rng):
    """-> (inner, outer) record classes, one of each per case"""
    base = rng.choice([Record, JsonRecord])
    inner_attrs = {
        "id": Property(), "name": Property(isa=str),
        "note": Property(compare_as=lambda x: "%s" % x),
        "n": Property(isa=int, coerce=int),
        "later": LazyProperty(isa=str, default=lambda: new_text()),
        "made": Property(isa=str, default=lambda self: new_text()),
        "aside": Property(extraneous=True)}
    if rng.random() < .5:
        inner_attrs["primary_key"] = [inner_attrs["id"]]
    inner = new_class(base, inner_attrs)
    outer = new_class(rng.choice([Record, JsonRecord]), {
        "one": Property(isa=inner), "many": ListProperty(of=inner),
        "named": DictProperty(of=inner), "any": Property(),
        "fixed": ROProperty(isa=str),
        "checked": SafeProperty(check=lambda x: not str(x).startswith("bad"),
                                default=""),
        "other": JsonProperty(json_name="oth", json_in=twice, default=()),
        "v1": Property(isa=str, v1_none="", default=None)
        if rng.random() < .5 else Property(isa=str),
        "plain": ListProperty(of=str)})
    return inner, outer


def an_inner(inner, rng):
    kw = {"id": next(serial), "name": new_text(), "note": new_text(),
          "n": next(serial), "aside": new_text()}
    for k in rng.sample(sorted(kw), rng.choice([0, 0, 1, 3])):
        del kw[k]
    return inner(**kw)


def an_outer(inner, outer, rng):
    return outer(
        one=an_inner(inner, rng),
        many=[an_inner(inner, rng) for _ in range(rng.choice([0, 2, 3]))],
        named=dict((new_text(), an_inner(inner, rng)) for _ in range(
            rng.choice([0, 1, 2]))),
        any=[new_text(), {new_text(): next(serial)}], fixed=new_text(),
        plain=[new_text(), new_text()])


def a_path(rng):
    return rng.choice([
        ("one",), ("one", "name"), ("many", rng.randrange(99), "id"),
        ("named", new_text(), "note"), ("any", 0), (new_text(),),
        ("many", None, "name"), (new_text(), next(serial)), ("plain", 0)])


class Trail(VisitorPattern):
    @classmethod
    def apply(cls, value, prop, visitor):
        return "%s=%r" % (visitor.field_selector.path, value)


class Hooked(DiffOptions):
    def normalize_text(self, value):
        return super(Hooked, self).normalize_text(value)[1:]


class Alien(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def make_ops(inner, outer, rng):
    """What is done repeatedly, with something new each time"""
    def rec():
        return an_inner(inner, rng)

    def tree():
        return an_outer(inner, outer, rng)

    def options(**kw):
        for k in ("ignore_case", "moved", "unchanged", "extraneous",
                  "ignore_empty_slots", "duck_type", "recurse"):
            if rng.random() < .25:
                kw[k] = True
        return rng.choice([DiffOptions, DiffOptions, Hooked])(**kw)

    lists, dicts = list_of(inner), dict_of(inner)
    shared = DiffOptions()
    mfs = MultiFieldSelector(("one", "name"), ("many", None), ("any",))
    cases = {}
    holder = new_class(JsonRecord, {"auto": Property(isa=AutoJsonRecord)})

    def op(fn):
        cases[fn.__name__] = fn

    @op
    def construct():
        return repr(tree()), str(rec()), hash(rec())

    @op
    def bad_construct():
        outer(one=new_text())

    @op
    def bad_keyword():
        inner(id=next(serial), **{new_text(): 1})

    @op
    def assign():
        x = rec()
        x.name = new_text()
        x.note = [new_text()]
        x.n = str(next(serial))
        x.later
        del x.later
        x.later

    @op
    def bad_assign():
        setattr(rec(), rng.choice(["n", "later"]), [new_text()])

    @op
    def read_only():
        tree().fixed = new_text()

    @op
    def bad_check():
        tree().checked = "bad" + new_text()

    @op
    def other_attributes():
        x = rec()
        setattr(x, "zz", new_text())
        x.__dict__[new_text()] = new_text()
        copy.copy(x)

    @op
    def unset():
        getattr(inner(), "name")

    @op
    def lists_():
        x = lists([rec(), rec()])
        x.append({"name": new_text()})
        x.extend([rec(), rec()])
        x[0] = rec()
        del x[1]
        x.sort(key=lambda i: i.n if hasattr(i, "n") else 0)
        x += [rec()]
        return x.index(x[-1]), x + [rec()], x[1:]

    @op
    def bad_item():
        lists([rec(), new_text()])

    @op
    def bad_append():
        lists([rec()]).append(new_text())

    @op
    def dicts_():
        x = dicts({new_text(): rec()})
        x[new_text()] = {"name": new_text()}
        x.update({new_text(): rec()})
        return x.popitem(), list(x.items()), x.get(new_text())

    @op
    def bad_key():
        dicts({new_text(): rec()})[new_text()]

    @op
    def json_out():
        return to_json(tree()), to_json([rec(), {new_text(): rec()}], True)

    @op
    def json_in():
        return from_json(outer, to_json(tree()))

    @op
    def json_made():
        return (from_json(inner, {"name": new_text(), "n": next(serial)}),
                from_json(lists, [{"name": new_text()}]),
                from_json(dicts, {new_text(): {"name": new_text()}}),
                from_json(outer, {"oth": new_text()}),
                JsonRecord({new_text(): [new_text()]}))

    @op
    def bad_json():
        from_json(outer, {"many": [{"n": new_text()}]})

    @op
    def json_refused():
        from_json(outer, {"oth": "bad" + new_text()})

    @op
    def json_unknown():
        x = from_json(outer, {new_text(): new_text(), "any": new_text(),
                              "one": {new_text(): next(serial)}})
        return to_json(x), repr(x)

    @op
    def compared():
        return str(diff(tree(), tree(), options=options()))

    @op
    def compared_shared():
        return list(tree().diff_iter(tree(), options=shared))

    @op
    def compared_lists():
        return (diff(lists([rec(), rec()]), lists([rec(), rec()])),
                diff(dicts({new_text(): rec()}), dicts({new_text(): rec()})))

    @op
    def compared_filtered():
        return tree().diff(tree(), compare_filter=[a_path(rng), ("one",)])

    @op
    def compared_alien():
        return inner(name=new_text()).diff(
            Alien(name=new_text(), note=new_text()), duck_type=True)

    @op
    def bad_compare():
        return rec().diff(tree())

    @op
    def abandoned():
        return (next(tree().diff_iter(tree()), None),
                next(iter(dicts({new_text(): rec()}).itertuples())),
                next(iter(lists([rec()]))))

    @op
    def equal():
        x, y = tree(), tree()
        return x == y, x != copy.deepcopy(x), rec() in {rec(): 1}

    @op
    def identity():
        return record_id(rec()), rec().__pk__, shared.record_id(rec())

    @op
    def pickled():
        return pickle.loads(pickle.dumps(tree())), copy.deepcopy(rec())

    @op
    def visited():
        return Trail.visit(tree()), VisitorPattern.visit(
            tree(), visit_filter=[("one",), ("many", None, "name")])

    @op
    def cast():
        return VisitorPattern.cast(outer, VisitorPattern.visit(tree()))

    @op
    def bad_cast():
        return VisitorPattern.cast(outer, {"many": {new_text(): new_text()}})

    @op
    def reflected():
        return VisitorPattern.reflect(outer), VisitorPattern.reflect(tree())

    @op
    def selectors():
        fs = FieldSelector(a_path(rng))
        again = FieldSelector.from_path(fs.path)
        return again == fs, hash(fs), fs + [new_text()], str(fs), fs[1:]

    @op
    def bad_selector():
        FieldSelector((1.5, new_text()))

    @op
    def selected():
        fs = FieldSelector(a_path(rng))
        x = tree()
        fs.get(x)

    @op
    def selected_more():
        x = tree()
        FieldSelector(("one", "note")).put(x, new_text())
        FieldSelector(("many", 0, "name")).post(x, new_text())

    @op
    def deleted():
        FieldSelector(("named", new_text())).delete(tree())

    @op
    def multi():
        m = MultiFieldSelector(a_path(rng), a_path(rng), ("one", "id"))
        return m.path, m["one"], ("one", new_text()) in m, m.get(tree()), \
            MultiFieldSelector(m, [new_text()])

    @op
    def multi_shared():
        x = tree()
        mfs.patch(x, tree())
        return mfs.get(x), mfs.delete(x)

    @op
    def placeholders():
        return (outer().one0.name, outer().many0[next(serial)].note,
                tree().one0.name0, str(placeholder(inner)),
                outer().any0)

    @op
    def bad_placeholder():
        getattr(outer().one0, new_text())

    @op
    def schemaless():
        x = AutoJsonRecord({new_text(): [{new_text(): next(serial)}]})
        getattr(x, new_text(), None)
        return to_json(x), repr(x), x == copy.deepcopy(x)

    @op
    def schemaless_placeholders():
        return (getattr(holder().auto0, new_text()),
                getattr(holder(auto={"a": new_text()}).auto0, "a"),
                holder(auto={new_text(): {new_text(): 1}}).auto0)

    @op
    def from_holder():
        x = holder(auto={new_text(): [new_text()]})
        return repr(x), x.diff(holder(auto={new_text(): 1})), to_json(x)

    @op
    def collection_types():
        return list_of(inner), dict_of(inner), list_of(lists)

    @op
    def declarations():
        return (Property(isa=inner, doc=new_text()),
                ROProperty(isa=str, default=new_text()),
                LazyProperty(isa=inner, default=rec),
                ListProperty(of=inner, json_name=new_text()),
                SafeProperty(isa=int, coerce=lambda x: 1))

    @op
    def described():
        return [str(p) + repr(p) for p in outer.properties.values()]

    return cases


def quietly(fn, *a):
    try:
        fn(*a)
    except Exception as e:
        str(e), repr(e)
        traceback.format_exc()
        return True
    return False


def size():
    """How much there is, counting also the entries of what's there"""
    seen = reach.held()
    n = len(seen)
    for x, _by in seen.values():
        if isinstance(x, (dict, list, set)):
            n += len(x)
    return n


def repeated(ctx, rng):
    """What is kept does not grow with the number of values"""
    inner, outer = declare(rng)
    cases = make_ops(inner, outer, rng)
    names = sorted(rng.sample(sorted(cases), rng.choice([1, 2, 4, 8])))
    ctx.log("operations", names)

    def round_():
        for n in names:
            if quietly(cases[n]):
                ctx.ev("refused")
            ctx.ev("operations")
        ctx.ev("rounds")

    for _ in range(4):
        round_()
    sizes = [size()]
    for _ in range(3):
        for _ in range(3):
            round_()
        sizes.append(size())
        ctx.ev("measures")
        if sizes[-1] <= sizes[-2]:
            break
    else:
        # (unless there's a bound)
        for n in 40, 400:
            before = size()
            for _ in range(n):
                round_()
            if size() - before < n / 4:
                break
        else:
            seen = reach.held()
            for _ in range(3):
                round_()
            after = reach.held()
            new = [x for i, (x, _by) in after.items() if i not in seen]
            what = new and "%s, held by %s" % (
                short(safe_repr(new[-1]), 200), reach.route(after, new[-1]))
            ctx.ok(False, "what the library keeps grows with the number of "
                   "%s (%s objects): %s", "/".join(names), sizes, what)
    ctx.ok(True, "")
    ctx.sig(*names)


SCENARIOS = [("repeated", repeated, 800, 30000),
             ("borrowed", borrowed, 100, 3000)]
