"""C35: an operation which is interrupted leaves everything usable.

A case is a plan of programs (those of the monitor of threads), run in a
process forked for it.  One program is run up to a point of the library chosen
by the case, where it's interrupted by an exception; this may happen several
times.  Then everything is run, in another thread (which any lock left behind
would stop), and what's observed must be the same as without interruption.
"""
import ast
import copy
import pickle
import random
import sys
import threading
import time

import normalize
from normalize import FieldSelector
from normalize.visitor import VisitorPattern as JsonVisitor
from checks import c32
from mon import threads
from mon.core import Abandon, attempt, safe_repr, safe_str
from mon.heap import heap_of, node_of
from mon.shapes import Options, schema, snapshot

RULE = (
    "a case draws an operation on a random record (a change, a reading, a "
    "conversion) or programs (declare attributes, use shared classes, make "
    "property types or generic collections, output the first JSON of new "
    "classes, infer types of placeholders, read, compare, visit and select "
    "shared structures, change own ones, or any scenario of the other "
    "monitors, in a fresh process or with all in use) and the points of the "
    "library at which these are interrupted; non-trivial: distinct places of "
    "interruption by operation")
ASSUMPTIONS = [
    "an object whose construction or change was interrupted is not used "
    "further, but for what its declaration guarantees",
    "interruptions happen between lines (signals, limits of memory or depth), "
    "but not while something is cleaned up",
    "a property type of whose declaration is interrupted is not declared "
    "again under the same trait",
]
NEED = {"cases": 700, "interrupted": 15000, "repeated": 1200, "declare": 100,
        "types": 80, "generics": 80, "hooks": 60, "placeholders": 60,
        "classes": 300, "shared": 300, "compare": 100, "borrowed": 60,
        "changing": 8000, "reading": 5000, "once_more": 8000}
WORKERS = 8


class Interrupt(KeyboardInterrupt):
    pass


KINDS = (Interrupt, Interrupt, MemoryError, RecursionError)


def spared(filename):
    """Lines at which no interruption is tried: those which take or release
    what a `with` or `try` holds (the interpreter reports the end of a block
    as its first line, before it's left; no signal arrives there), and those
    which clean up"""
    out = set()
    with open(filename) as f:
        tree = ast.parse(f.read())

    def lines(stmts):
        for x in stmts:
            out.update(range(x.lineno, x.end_lineno + 1))
    for x in ast.walk(tree):
        if isinstance(x, (ast.With, ast.Try)):
            out.update(range(x.lineno, x.body[0].lineno))
        if isinstance(x, ast.With):
            out.add(x.lineno)
        if isinstance(x, ast.Try):
            lines(x.finalbody)
            for h in x.handlers:
                if isinstance(h.body[-1], ast.Raise):
                    lines(h.body)
        if isinstance(x, ast.FunctionDef) and x.name in (
                "__exit__", "__enter__", "__del__"):
            lines([x])
        for field in "body", "orelse", "finalbody":
            stmts = getattr(x, field, None)
            if isinstance(stmts, list):
                # (what's taken just before the `try` which releases it)
                for a, b in zip(stmts, stmts[1:]):
                    if isinstance(b, ast.Try) and b.finalbody:
                        lines([a])
    return out


SPARED = {}


def may_be_interrupted(frame):
    while frame:
        name = frame.f_code.co_filename
        if threads.ours(name):
            if name not in SPARED:
                SPARED[name] = spared(name)
            if frame.f_lineno in SPARED[name]:
                return False
        frame = frame.f_back
    return True


class Tracer(object):
    """Counts points, and raises at one of them"""
    def __init__(self, at=None, kind=Interrupt):
        self.at = at
        self.kind = kind
        self.n = 0
        self.where = None
        self.files = {}

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.at and self.n >= self.at and not self.where and \
                    may_be_interrupted(frame):
                self.where = "%s:%d" % (
                    frame.f_code.co_filename[len(threads.LIB):],
                    frame.f_lineno)
                raise self.kind("interrupted")
        return self.local

    def enter(self, frame, event, arg):
        name = frame.f_code.co_filename
        ours = self.files.get(name)
        if ours is None:
            ours = self.files[name] = threads.ours(name)
        return self.local if ours else None

    def run(self, fn):
        """-> whether it ended by itself"""
        sys.settrace(self.enter)
        try:
            fn()
        except Interrupt:
            return False
        except Exception:
            pass
        finally:
            sys.settrace(None)
        return True


def in_thread(fn, limit):
    """-> its result, or None if it did not end in time"""
    out = []

    def body():
        try:
            out.append(fn())
        except BaseException as e:
            out.append("ended with %s: %s" % (type(e).__name__, safe_str(e)))
    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join(limit)
    return out[0] if out else None


def everything(kind, plan, programs, after):
    if kind == "types":
        # (a trait is registered once, so with others of the same)
        programs, after = plan()
    outs, rest, _limit = c32.one_by_one(programs, after)
    return [outs, rest]


unraisable = []


def interrupt(programs, which, at, kind):
    """-> (where, whether the interruption came through)"""
    del unraisable[:]
    sys.unraisablehook = unraisable.append
    t = Tracer(at, kind)
    ended = t.run(programs[which])
    through = not ended or t.where is None or kind is not Interrupt or \
        bool(unraisable)
    return t.where, through


def run_kind(kind):
    warm = kind in c32.WARM

    def fn(ctx, rng):
        seed = rng.getrandbits(40)
        n = rng.choice([1, 2, 2])
        times = rng.choice([1, 1, 2, 4])
        rounds = c32.ROUNDS if warm else 1
        choices = [[(rng.randrange(n), rng.random(), rng.randrange(len(KINDS)))
                    for _ in range(times)] for _ in range(rounds)]

        def plan():
            random.seed(seed)
            return c32.KINDS[kind](random.Random(seed), n)

        def reference():
            programs, after = plan()
            start = time.monotonic()
            points = []
            outs = []
            for p in programs:
                t = Tracer()
                got = []
                t.run(lambda: got.append(p()))
                outs.append(got[0] if got else "failed")
                points.append(t.n)
            return [[outs, after()], points,
                    max(40, 400 * (time.monotonic() - start))]

        def interrupted(want=None, points=None):
            programs, after = plan()
            limit = 120
            if want is None:
                start = time.monotonic()
                want = everything(kind, plan, programs, after)
                points = []
                for p in programs:
                    t = Tracer()
                    t.run(p)
                    points.append(t.n)
                limit = max(40, 400 * (time.monotonic() - start))
            out = []
            for some in choices:
                done = []
                for which, part, k in some:
                    at = 1 + int(part * points[which])
                    done.append(interrupt(programs, which, at, KINDS[k]) + (
                        which, KINDS[k].__name__))
                got = in_thread(
                    lambda: everything(kind, plan, programs, after), limit)
                out.append([done, got])
                if got != want:
                    break
            return [want, out]

        ctx.log(kind, "%d programs" % n, "interrupted at", choices)
        if warm:
            c32.scenarios()
            result = threads.in_child(interrupted, c32.TIMEOUT)
            if result is None:
                raise Abandon("takes too long")
            want, out = result
        else:
            ref = threads.in_child(reference, c32.TIMEOUT)
            if ref is None:
                raise Abandon("takes too long")
            want, points, limit = ref
            result = threads.in_child(
                lambda: interrupted(want, points), c32.TIMEOUT)
            if result is None:
                raise Abandon("takes too long")
            out = result[1]
        for done, got in out:
            places = []
            for where, through, which, exc in done:
                if where is None:
                    continue
                places.append("%s by %s" % (where, exc))
                ctx.ev("interrupted")
                ctx.ev(exc)
                ctx.sig(kind, where)
                ctx.ok(through, "the %s at %s did not reach the caller (%s)",
                       exc, where, kind)
            ctx.ok(got is not None, "nothing goes on after interruptions at "
                   "%s (%s)", places, kind)
            ctx.ok(isinstance(got, list), "after interruptions at %s: %s",
                   places, got)
            for i, (x, y) in enumerate(zip(got[0], want[0])):
                if kind == "borrowed" and y[-1] != "quiet":
                    continue
                ctx.ok(x == y, "after interruptions at %s, program %d (%s): "
                       "%s", places, i, kind, c32.difference(x, y).replace(
                           "with threads", "then").replace(
                               "without", "uninterrupted"))
            ctx.ok(got[1] == want[1], "after interruptions at %s (%s): %s",
                   places, kind, c32.difference(got[1], want[1]))
            ctx.ev("repeated")
            ctx.ev(kind)
        ctx.ev("cases")
    return fn


# -- what was being changed

def places(d, path=()):
    """-> (path, description) of the records and collections"""
    if d.kind == "value":
        return
    yield path, d
    if d.kind == "rec":
        for n, x in d.content.items():
            for y in places(x, path + (("attr", n),)):
                yield y
    else:
        for k, x in d.content:
            for y in places(x, path + (("item", k),)):
                yield y


def locate(x, path):
    for kind, k in path:
        x = getattr(x, k) if kind == "attr" else x[k]
    return x


def conforms(t, v):
    """What's wrong with the value of this type, or None"""
    if t.kind == "any":
        return None
    if t.kind == "union":
        wrong = [conforms(a, v) for a in t.alts]
        return None if None in wrong else wrong[0]
    if not isinstance(v, t.isa()):
        return "%r is no %r" % (v, t)
    if t.kind == "rec":
        return rec_conforms(t.rec, v)
    if t.kind not in ("list", "dict"):
        return None
    vals = v.__dict__.get("_values")
    if not isinstance(vals, list if t.kind == "list" else dict):
        return "%s holds %r" % (type(v).__name__, vals)
    for k, x in enumerate(vals) if t.kind == "list" else vals.items():
        wrong = conforms(t.item, x)
        if wrong:
            return "item %r: %s" % (k, wrong)
    for n, at in t.own.items():
        if n in v.__dict__:
            wrong = conforms(at, v.__dict__[n])
            if wrong:
                return "%s: %s" % (n, wrong)
    return None


def rec_conforms(rec, v):
    for n, a in rec.attrs.items():
        if n in v.__dict__:
            wrong = conforms(a.type, v.__dict__[n])
            if wrong:
                return "%s: %s" % (n, wrong)
        elif a.required:
            return "%s is required, but not set" % n
    return None


def a_change(rng, o, root):
    """-> (what, path of what is changed, its key or None for several,
    fn(object, value), function making the value)"""
    path, d = rng.choice(list(places(root)))

    def value(t):
        # (every time a new one, the same)
        vd = t.desc(rng, o, 1)
        raw = rng.random() < .6
        return lambda: t.raw(vd.build()) if raw else vd.build()

    def slot(assign, key, t):
        put = rng.random() < .3
        if put:
            fs = FieldSelector([key])
            return "put", key, lambda x, v: fs.put(x, v), value(t)
        return "set", key, assign, value(t)

    if d.kind == "rec":
        able = [a for a in d.type.attrs.values() if not a.ro]
        if not able:
            return None
        a = rng.choice(able)
        if rng.random() < .2 and not a.required:
            return "delete", path, a.name, lambda x, v: delattr(
                x, a.name), lambda: None
        what, key, fn, make = slot(
            lambda x, v: setattr(x, a.name, v), a.name, a.type)
        return what, path, key, fn, make
    t = d.type.item
    keys = [k for k, x in d.content]
    if d.kind == "dict":
        what = rng.choice(["set", "set", "pop", "update", "setdefault",
                           "clear", "popitem"])
        if what == "set":
            key = rng.choice(keys + ["new"])
            what, key, fn, make = slot(
                lambda x, v: x.__setitem__(key, v), key, t)
            return what, path, key, fn, make
        if what == "pop":
            key = rng.choice(keys + ["new"])
            return what, path, key, lambda x, v: x.pop(key, None), lambda: 0
        if what == "setdefault":
            key = rng.choice(keys + ["new"])
            return what, path, key, lambda x, v: x.setdefault(key, v), \
                value(t)
        if what == "update":
            makes = dict((k, value(t)) for k in rng.sample(
                keys + ["n1", "n2", "n3"], rng.choice([1, 2, 3])
                if len(keys) else 2))
            return what, path, None, lambda x, v: x.update(v), lambda: dict(
                (k, m()) for k, m in makes.items())
        return what, path, None, lambda x, v: getattr(x, what)(), lambda: 0
    what = rng.choice(["set", "set", "append", "insert", "extend", "slice",
                       "pop", "delete", "clear", "reverse", "+="])
    if what in ("set", "pop", "delete") and not keys:
        what = "append"
    if what == "set":
        key = rng.choice(keys)
        what, key, fn, make = slot(
            lambda x, v: x.__setitem__(key, v), key, t)
        return what, path, key, fn, make
    if what == "append":
        return what, path, None, lambda x, v: x.append(v), value(t)
    i = rng.randrange(len(keys) + 1)
    j = rng.randrange(len(keys) + 1)
    if what == "insert":
        return what, path, None, lambda x, v: x.insert(i, v), value(t)
    if what in ("extend", "slice", "+="):
        makes = [value(t) for _ in range(rng.choice([1, 2, 3]))]
        return what, path, None, {
            "extend": lambda x, v: x.extend(v),
            "slice": lambda x, v: x.__setitem__(slice(i, j), v),
            "+=": lambda x, v: x.__iadd__(v)}[what], lambda: [
                m() for m in makes]
    if what in ("pop", "delete"):
        i = rng.choice(keys)
        return what, path, None, {
            "pop": lambda x, v: x.pop(i),
            "delete": lambda x, v: x.__delitem__(i)}[what], lambda: 0
    return what, path, None, lambda x, v: getattr(x, what)(), lambda: 0


def a_reading(rng, o, root, twin):
    path, d = rng.choice(list(places(root)))
    what = rng.choice(["repr", "compare", "diff", "to_json", "copy", "read",
                       "select", "pickle", "visit", "deepcopy", "gather",
                       "from_json", "make", "make"])
    names = [k for kind, k in path]
    fs = FieldSelector(names)
    given = dict((n, root.type.attrs[n].type.raw(x.build()))
                 for n, x in root.content.items())
    fn = {
        "repr": repr,
        "compare": lambda x: (x == twin, x != twin, hash(x)),
        "diff": lambda x: list(x.diff_iter(twin)),
        "to_json": normalize.to_json,
        "copy": copy.copy,
        "deepcopy": copy.deepcopy,
        "pickle": lambda x: pickle.loads(pickle.dumps(x)),
        "visit": lambda x: JsonVisitor.visit(x),
        "select": fs.get,
        "gather": lambda x: normalize.MultiFieldSelector(names).get(x),
        "from_json": lambda x: normalize.from_json(
            type(x), normalize.to_json(x)),
        "make": lambda x: type(x)(**given),
        "read": lambda x: [getattr(locate(x, path), n)
                           for n in sorted(type(locate(x, path)).properties)]
    }[what]
    return what, (), None, lambda x, v: fn(x), lambda: None


def shadow(x):
    return dict((k, (n.obj, list(n.items) if isinstance(n.items, list) else
                     n.items and dict(n.items), n.attrs))
                for k, n in heap_of(x).items())


def settled(x):
    """-> its snapshot, once everything computed when read is"""
    now = None
    while now != snapshot(x):
        now = snapshot(x)
        for obj, _items, _attrs in shadow(x).values():
            for n in getattr(type(obj), "properties", ()):
                attempt(getattr, obj, n)
    return now


def changed(ctx, rng):
    o = Options(p_lazy=.1, names=["a", "b", "c", "d"], p_big=.003)
    o.kinds = [k for k in o.kinds if k != "date"]    # (which has no JSON form)
    recs = schema(rng, o)
    rec = rng.choice(recs)
    root = rec.desc(rng, o)
    reading = rng.random() < .3
    try:
        twin = root.build()
        change = a_reading(rng, o, root, twin) if reading else \
            a_change(rng, o, root)
    except Exception as e:
        raise Abandon("can't be built: %s" % type(e).__name__)
    if not change:
        raise Abandon("nothing to change")
    what, path, key, fn, make = change
    ctx.log("classes", "; ".join(r.describe() for r in recs))
    ctx.log("record", repr(root), "change", what, path, key)

    # as it is without interruption
    x = root.build()
    v = make()
    t = Tracer()
    target = locate(x, path)
    out = []
    t.run(lambda: out.append(attempt(fn, target, v)))
    if not out:
        raise Abandon("interrupted otherwise")
    fails = out[0].exc
    ctx.log("usually", out[0])
    want = settled(x)
    if not t.n:
        raise Abandon("no point within the library")
    for _ in range(rng.choice([2, 4, 8])):
        at = rng.randrange(1, t.n + 1)
        kind = rng.choice(KINDS)
        x = root.build()
        v = make()
        given = snapshot(v)
        target = locate(x, path)
        before = shadow(x)
        given_before = shadow(v)
        tr = Tracer(at, kind)
        ended = tr.run(lambda: fn(target, v))
        if tr.where is None:
            continue
        ctx.ev("interrupted")
        ctx.ev("reading" if reading else "changing")
        ctx.sig("changed", what, tr.where)
        how = "%s interrupted at %s by %s" % (what, tr.where, kind.__name__)
        if kind is Interrupt:
            ctx.ok(not ended, "%s: the interruption did not reach the caller",
                   how)
        for k, (obj, items, attrs) in before.items():
            now = node_of(obj)
            for part, was, got in (("attributes", attrs, now.attrs),
                                   ("items", items, now.items)):
                if was is None or obj is target and key is None and \
                        part == "items" and not reading:
                    continue
                if isinstance(was, list):
                    was = dict(enumerate(was))
                    got = dict(enumerate(got))
                for n in set(was) | set(got):
                    if n in was and n in got and was[n] is got[n]:
                        continue
                    if obj is target and n == key and not reading:
                        continue
                    prop = type(obj).properties.get(n) if \
                        part == "attributes" and isinstance(
                            obj, normalize.Record) else None
                    if n not in was and prop and "lazy" in prop.traits:
                        continue
                    ctx.ok(False, "%s: %r of %s was %s, is now %s", how, n,
                           type(obj).__name__, safe_repr(was.get(n, "unset")),
                           safe_repr(got.get(n, "unset")))
        ctx.ok(snapshot(v) == given or what in ("read", "deepcopy"),
               "%s: what was given became %s", how, safe_repr(v))
        wrong = rec_conforms(rec, x)
        ctx.ok(not wrong, "%s: %s", how, wrong)
        for use in repr, normalize.to_json, lambda x: x == x:
            got = attempt(use, x)
            ref = attempt(use, twin)
            ctx.ok(not got.exc or ref.exc, "%s: then %s fails: %r", how,
                   getattr(use, "__name__", "=="), got)
        if reading or key is not None and what in ("set", "put", "delete"):
            # once more
            got = attempt(fn, target, make())
            now = settled(x)
            # (a deletion may have happened, or have something to delete now)
            ctx.ok(type(got.exc) is type(fails) or what == "delete", "%s: then it %r, not %r",
                   how, got, out[0])
            ctx.ok(now == want, "%s: then it's %s, not %s", how, now, want)
            ctx.ev("once_more")
    ctx.ev("changed")


SCENARIOS = [
    ("changed", changed, 6000, 200000),
    ("declare", run_kind("declare"), 200, 3000),
    ("types", run_kind("types"), 160, 2000),
    ("generics", run_kind("generics"), 160, 2000),
    ("hooks", run_kind("hooks"), 120, 2000),
    ("placeholders", run_kind("placeholders"), 120, 1500),
    ("borrowed", run_kind("borrowed"), 120, 6000),
    ("classes", run_kind("classes"), 60, 1500),
    ("shared", run_kind("shared"), 60, 4000),
    ("compare", run_kind("compare"), 40, 1500),
]
TECHNIQUE = (
    "runtime monitoring: faults injected at chosen lines of the library, "
    "compared with uninterrupted runs")
