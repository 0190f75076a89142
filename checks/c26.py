"""C26: subtypes and ready-made typed attributes"""
import abc
import calendar
import datetime
import decimal
import fractions
import json
import numbers

import normalize.exc as exc
import normalize.property.types as types
from mon.core import attempt
from mon.recmodel import new_class
from mon.shapes import snapshot
from normalize import (JsonRecord, ListProperty, Property, Record, from_json,
                       subtype, to_json)

RULE = (
    "a case makes a chain of 1-3 subtypes of a random base (built-in, "
    "abstract, with a metaclass, record) with pure, raising and stateful "
    "predicates and tests, constructs and assigns values of many types; or "
    "gives a ready-made typed attribute inputs of every documented and many "
    "undocumented kinds by construction, assignment and JSON; expected "
    "values are computed by the monitor from the types; non-trivial: "
    "distinct (type, input) pairs")
ASSUMPTIONS = ["naive datetimes for text", "no non-finite numbers in JSON",
               "coerce functions of subtypes return, or raise Exceptions"]
NEED = {"instance checks": 20000, "instances": 4000, "predicate raised": 1500,
        "mutated": 300, "constructed as is": 1500, "converted": 700,
        "bad conversions": 500, "no conversion": 700, "in attributes": 3000,
        "squashed": 12, "in lists": 500, "as is": 2000, "documented": 5000,
        "rejected": 2500, "truncated": 400, "json": 2500}


class Meta(type):
    """A metaclass of the user's"""
    def __instancecheck__(cls, x):
        return type.__instancecheck__(cls, x) or getattr(x, "quacks", False)


class Thing(object, metaclass=Meta):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "Thing(%r)" % (self.n,)


class Duck(object):
    quacks = True
    n = 3

    def __repr__(self):
        return "Duck()"


class Shape(metaclass=abc.ABCMeta):
    @abc.abstractmethod
    def area(self):
        pass


class Square(Shape):
    def __init__(self, n):
        self.n = n

    def area(self):
        return self.n * self.n


class Rec(Record):
    n = Property(isa=int)


class SubRec(Rec):
    m = Property()


class MyInt(int):
    pass


def pool():
    return [0, 1, True, 1.0, -1, 2, 7, -50, 2.5, MyInt(7), 10 ** 20, "", "a",
            "abc", "12", [], [1], [1, 2, 3], (1, 2), {}, {"a": 1}, {1, 2},
            None, Thing(2), Thing(0), Duck(), Square(3), Square(0),
            Rec(n=0), Rec(n=5), Rec(), SubRec(n=7), object(),
            decimal.Decimal("2.5"), fractions.Fraction(1, 2), b"xy",
            datetime.date(2020, 1, 2), datetime.datetime(2020, 1, 2, 3, 4),
            len, int, Exception("x"), float("nan"), 1j]


BASES = [int, int, str, float, list, dict, tuple, object, set,
         numbers.Number, numbers.Integral, Shape, Thing, Rec, SubRec,
         datetime.date, Exception, abc.ABC]


def size(x):
    """A number for (almost) anything"""
    if isinstance(x, (Thing, Rec, Square, Duck)):
        return x.n                  # (AttributeError for Rec())
    if isinstance(x, (numbers.Number,)):
        return x                    # (complex numbers can't be compared)
    if isinstance(x, datetime.date):
        return x.month
    return len(x)                   # (TypeError)


class Odd(object):
    def __init__(self, true):
        self.true = true

    def __bool__(self):
        if self.true is None:
            raise ValueError("neither true nor false")
        return self.true


def predicate(rng):
    n = rng.choice([0, 1, 2, 3])
    if rng.random() < .5:
        n = rng.choice([-1, 0, 10])
        return ("size > %d" % n, lambda x: size(x) > n) if n < 5 else (
            "size <= %d" % n, lambda x: size(x) <= n)
    return rng.choice([
        ("size > %d" % n, lambda x: size(x) > n),
        ("size > %d" % n, lambda x: size(x) > n),
        ("size <= %d" % n, lambda x: size(x) <= n),
        ("size", lambda x: size(x)),                # truth of a non-bool
        ("not size", lambda x: not size(x)),
        ("no", lambda x: False),
        ("any", lambda x: True),
        ("None", lambda x: None),
        ("100 / size", lambda x: 100 / size(x) > 20),
        ("odd", lambda x: Odd(size(x) > 1)),
        ("neither", lambda x: Odd(None)),
        ("key", lambda x: {1: True, "a": 1, 7: 0}[x]),
        ("stop", lambda x: next(iter([y for y in [x] if size(x)]))),
        ("isinstance", lambda x: not isinstance(x, (bool, MyInt))),
    ])


class Model(object):
    """One subtype, and what it should be"""
    serial = [0]

    def __init__(self, ctx, rng, parent=None):
        self.parent = parent
        self.base = parent.cls if parent else rng.choice(BASES)
        self.text, where = predicate(rng)
        self.where = where
        self.calls = []
        self.failing = None
        Model.serial[0] += 1
        self.name = "Sub%d" % Model.serial[0]
        args = {"name": self.name, "of": self.base, "where": where}
        self.coerce = None
        if rng.random() < .6:
            result = rng.choice(pool())
            fit = [x for x in pool() if isinstance(x, self.base)]
            if rng.random() < .6:
                result = rng.choice(fit or [5])
            self.to, to = rng.choice([
                (repr(result), lambda x: result),
                ("fitting list", lambda x: (list(x) * 3)[:3]),
                ("fitting number", lambda x: abs(int(x)) + 3),
                ("fitting text", lambda x: str(x)[:3]),
                ("int", lambda x: int(x)), ("list", lambda x: list(x)),
                ("str", lambda x: str(x)), ("same", lambda x: x),
                ("abs or None", lambda x: abs(int(x)) or None),
                ("Rec", lambda x: Rec(n=int(x))),
                (repr(result), lambda x: result)])

            def coerce(x):
                self.calls.append(x)
                return to(x)
            self.coerce = to
            args["coerce"] = coerce
        if rng.random() < .5:
            name = args.pop("name")
            of = args.pop("of")
            got = attempt(subtype, name, of, **args)
        else:
            got = attempt(subtype, **args)
        self.cls = ctx.value(got, "subtype(%s)" % self)
        ctx.log("subtype", self)
        ctx.ok(isinstance(self.cls, type) and isinstance(
            self.cls, subtype), "%r isn't a type", self.cls)
        ctx.equal(self.cls.__name__, self.name, "name")
        ctx.ok(self.name in str(self.cls) and self.base.__name__ in str(
            self.cls), "str() is %s", self.cls)
        b = self
        while b:
            ctx.ok(issubclass(self.cls, b.base), "%s isn't a subclass of %s",
                   self.cls, b.base)
            b = b.parent

    def __str__(self):
        return "%s of %s where %s%s" % (
            self.name, self.base.__name__, self.text,
            "" if self.coerce is None else " coerce " + self.to)

    def accepts(self, ctx, x):
        if not (self.parent.accepts(ctx, x) if self.parent
                else isinstance(x, self.base)):
            return False
        try:
            return bool(self.where(x))
        except Exception:
            ctx.ev("predicate raised")
            return False

    def construct(self, ctx, x):
        """-> ("same", x) | ("converted", y) | (error,)"""
        if self.accepts(ctx, x):
            return "same", x
        if self.coerce is None:
            return (exc.SubtypeNoCoerceFunc,)
        try:
            y = self.coerce(x)
        except Exception as e:
            return ("raises", type(e))
        if self.accepts(ctx, y):
            return "converted", y
        return exc.SubtypeCoerceError, y


def chain(ctx, rng):
    m = Model(ctx, rng)
    for _ in range(rng.choice([0, 0, 1, 2])):
        m = Model(ctx, rng, m)
    return m


def alike(a, b):
    return a is b or type(a) is type(b) and (
        repr(a) == repr(b) or isinstance(a, Record) and a == b)


def subtypes(ctx, rng):
    m = chain(ctx, rng)
    values = pool()
    rng.shuffle(values)
    for x in values:
        want = m.accepts(ctx, x)
        ctx.ok(isinstance(x, m.cls) is want, "isinstance(%r, %s) is %s", x,
               m, not want)
        p = m.parent
        while p:
            if want:
                ctx.ok(isinstance(x, p.cls), "%r isn't a %s", x, p)
            p = p.parent
        ctx.ev("instance checks")
        ctx.ev("instances", int(want))
    # the same again, and for things which change
    thing = rng.choice([[], {}, Thing(0), Rec(n=0), set()])
    for n in rng.sample([0, 1, 2, 3, 4], 3) + [None]:
        if isinstance(thing, list):
            thing[:] = range(n or 0)
        elif isinstance(thing, dict):
            thing.clear()
            thing.update((i, i) for i in range(n or 0))
        elif isinstance(thing, set):
            thing.clear()
            thing.update(range(n or 0))
        elif n is None:
            del thing.n
        else:
            thing.n = n
        want = m.accepts(ctx, thing)
        ctx.ok(isinstance(thing, m.cls) is want, "isinstance(%r, %s) is %s",
               thing, m, not want)
        ctx.ev("mutated")
    # construction
    for x in values[:16]:
        want = m.construct(ctx, x)
        before = snapshot(x)
        del m.calls[:]
        ctx.log("construct", x)
        got = attempt(m.cls, x)
        if want[0] == "same":
            ctx.ok(got.ok and got.value is x, "%s(%r) gave %r", m, x, got)
            ctx.equal(m.calls, [], "conversions called")
            ctx.ev("constructed as is")
        elif want[0] == "converted":
            ctx.ok(got.ok and alike(got.value, want[1]), "%s(%r) gave %r, "
                   "not %r", m, x, got, want[1])
            ctx.ok(len(m.calls) == 1 and m.calls[0] is x, "converted %r",
                   m.calls)
            ctx.ev("converted")
        elif want[0] == "raises":
            ctx.raised(got, want[1], "%s(%r)" % (m, x))
        else:
            ctx.raised(got, want[0], "%s(%r)" % (m, x))
            ctx.ok(isinstance(got.exc, TypeError) and isinstance(
                got.exc, exc.CoercionError), "%r", got.exc)
            ctx.ok(got.exc.passed is x and got.exc.subtype is m.cls and
                   got.exc.subtype_of is m.base, "facts of %r", got.exc)
            ctx.ok(repr(x) in str(got.exc) and m.name in str(got.exc),
                   "message %s", got.exc)
            if len(want) > 1:
                ctx.ok(alike(got.exc.coerced, want[1]), "coerced is %r, not "
                       "%r", got.exc.coerced, want[1])
                ctx.ev("bad conversions")
            else:
                ctx.ev("no conversion")
        ctx.equal(snapshot(x), before, "the value was changed")
        ctx.sig(m.text, m.base.__name__, repr(x))
    ctx.raised(attempt(subtype, "Bad", rng.choice([
        5, "int", (int, str), None, [int]]), where=lambda x: True),
        exc.SubtypeOfWhat, "a subtype of no type")


def in_attributes(ctx, rng):
    """As the type of attributes and items"""
    m = chain(ctx, rng)
    own = None
    kw = {"isa": m.cls}
    union = rng.random() < .3
    if union:
        other = rng.choice([str, chain(ctx, rng)])
        kw["isa"] = (m.cls, getattr(other, "cls", other))
        own = rng.choice([None, lambda x: x, lambda x: str(x),
                          lambda x: size(x)])
    elif rng.random() < .3:
        own = rng.choice([lambda x: x, lambda x: size(x),
                          lambda x: [size(x)]])
    if own:
        kw["coerce"] = own
    base = rng.choice([Record, JsonRecord])
    got = attempt(new_class, base, {"a": Property(**kw)}, "H")
    cls = ctx.value(got, "declare")
    r = cls()
    values = pool()
    rng.shuffle(values)

    def ok(x):
        return m.accepts(ctx, x) or union and (
            other.accepts(ctx, x) if isinstance(other, Model) else
            isinstance(x, other))

    for x in values[:12]:
        if base is JsonRecord and issubclass(m.cls, Record):
            continue
        squash = False
        if ok(x):
            want = "same", x
        else:
            try:
                if own:
                    y = own(x)
                elif union:
                    # (tuples of types have no conversion)
                    want = ("error",)
                    raise TypeError
                else:
                    y = m.coerce(x) if m.coerce else 1 / 0
            except Exception:
                want = ("error",)
            else:
                want = ("converted", y) if ok(y) else ("error",)
                squash = y is None and want[0] == "error"
        before = dict(r.__dict__)
        ctx.log("a =", x)
        got = attempt(setattr, r, "a", x)
        built = attempt(cls, a=x)
        if want[0] == "error":
            if not isinstance(x, type(None)):
                ctx.raised(got, exc.CoercionError, "a = %r" % (x,))
                if squash:
                    # conversion to None at construction is no value
                    r2 = ctx.value(built, "construct")
                    ctx.ok("a" not in r2.__dict__ and not hasattr(r2, "a"),
                           "a is %r", r2)
                    ctx.ev("squashed")
                else:
                    ctx.raised(built, exc.CoercionError, "a=%r" % (x,))
            if not got.ok:
                ctx.ok(r.__dict__ == before or snapshot(
                    r.__dict__) == snapshot(before), "a rejected value "
                    "changed %r", r)
        else:
            ctx.ok(got.ok, "a = %r: %r", x, got)
            for v in (r.a, ctx.value(built, "construct").a):
                ctx.ok(v is x if want[0] == "same" else alike(v, want[1]),
                       "a = %r gave %r, not %r", x, v, want)
                ctx.ok(isinstance(v, kw["isa"]), "%r isn't a %s", v, m)
        ctx.ev("in attributes")
        ctx.sig("attr", m.text, m.base.__name__, repr(x), union)

    # in lists
    if issubclass(m.cls, Record):
        return
    got = attempt(new_class, Record, {"xs": ListProperty(of=m.cls)}, "L")
    cls = ctx.value(got, "declare")
    r = cls(xs=[])
    have = []
    for x in values[:6]:
        want = m.construct(ctx, x)
        ctx.log("append", x)
        got = attempt(r.xs.append, x)
        if want[0] in ("same", "converted"):
            ctx.ok(got.ok, "append %r: %r", x, got)
            have.append(want[1])
        else:
            ctx.raised(got, exc.CoercionError, "append %r" % (x,))
        ctx.ok(len(r.xs) == len(have) and all(map(alike, r.xs, have)),
               "list is %r, not %r", r.xs, have)
        ctx.ev("in lists")


# the ready-made ones
BAD = [[], {}, object(), "", "x", "1.2.3", "12a", [1], (1, 2), set(), len,
       {"a": 1}]


class Reject(object):
    pass


def a_number_text(rng):
    n = rng.choice([0, 1, 12, 345, -7, 10 ** 6, 2 ** 60, -10 ** 25])
    return rng.choice([str(n), " %d " % n, "+%d" % abs(n), "00%d" % abs(n),
                       str(n) + "\n"])


def a_float_text(rng):
    return rng.choice(["1.5", "-0.25", "1e5", " 2.0 ", "1e-3", ".5", "5.",
                       "123.0", "1E+2", "inf", "-1.25e2", "0.1",
                       "3.141592653589793", "-2.2250738585072014e-308",
                       "0.12345678901234567890123", "1e-17",
                       "123456789.123456789", "9007199254740993.0"])


def a_date(rng):
    """Any day, often the first or last of a month"""
    y = rng.choice([2012, 1999, 1, 999, 1000, 2000, 2038, 9999,
                    rng.randint(1, 9999)])
    m = rng.randint(1, 12)
    last = calendar.monthrange(y, m)[1]
    return datetime.date(y, m, rng.choice([1, last, rng.randint(1, last)]))


def a_datetime(rng, micro=True):
    d = a_date(rng)
    return datetime.datetime(
        d.year, d.month, d.day, rng.choice([0, 23, rng.randrange(24)]),
        rng.choice([0, 59, rng.randrange(60)]),
        rng.choice([0, 0, rng.randrange(60)]),
        rng.choice([0, 1, 999999, 120000]) if micro else 0)


class Dated(object):
    """Something else with a date"""
    def __init__(self, d):
        self.d = d

    def date(self):
        return self.d


class MyDate(datetime.date):
    pass


class MyDatetime(datetime.datetime):
    pass


def date_text(rng):
    """-> text, datetime"""
    d = a_datetime(rng, False)
    day = d.date()
    how = rng.randrange(6)
    iso = day.isoformat()
    if how < 2:
        d = datetime.datetime(day.year, day.month, day.day)
        return (iso, iso.replace("-", ""))[how], d
    sep = rng.choice("T ")
    z = rng.choice(["", "", "Z"]) if types.parse_datetime.__module__ == \
        types.__name__ else ""
    if how == 2:
        return "%s%s%02d:%02d%s" % (
            iso, sep, d.hour, d.minute, z), d.replace(second=0)
    if how == 3:
        if d.year < 1969:
            return iso, datetime.datetime(day.year, day.month, day.day)
        d = datetime.datetime(2000 + day.year % 30, day.month,
                              min(day.day, 28))
        return (d.isoformat()[2:10].replace("-", "") if types.
                parse_datetime.__module__ == types.__name__ else
                d.isoformat()), d
    if how == 4:
        d = d.replace(microsecond=rng.choice([1, 500000, 999999]))
        return d.isoformat(sep) + z, d
    return d.isoformat(sep) + z, d


def same(x):
    return x, x, "as is"


def an_input(rng, kind):
    """-> input, expected value, how"""
    r = rng.random()
    if r < .25:
        if kind == "datetime":
            bad = rng.choice(BAD + [5, 1.5, "2012-13-45", "20121301", b"x"])
        elif kind == "date":
            bad = rng.choice(BAD + [5, 1.5, "2012-13-45", b"20121212"])
        elif kind == "unicode":
            bad = rng.choice([5, 1.5, b"bytes", [], {}, object(), ["a"]])
        elif kind == "str":
            # (anything with a text form is cast)
            n = rng.choice([5, 1.5, True, decimal.Decimal("1.50"), -3])
            return n, str(n), "documented"
        else:
            bad = rng.choice(BAD)
            if kind in ("int", "integer", "long"):
                bad = rng.choice(BAD + ["1.5", float("nan"), float("inf"),
                                        1j, "1e3"])
        return bad, Reject, "rejected"
    if kind in ("int", "integer", "long"):
        if r < .5:
            return same(rng.choice([0, 5, -1, True, MyInt(8), 2 ** 70]))
        if r < .8:
            t = a_number_text(rng)
            return t, int(t), "documented"
        n = rng.choice([1e20, 5.0, -2.0, 2.75, rng.uniform(-1e6, 1e6), decimal.Decimal("7"),
                        fractions.Fraction(8, 2)])
        return n, int(n), "documented"
    if kind == "number":
        if r < .6:
            return same(rng.choice([
                0, 1.5, -1, True, 2 ** 70, decimal.Decimal("1.5"),
                fractions.Fraction(1, 3), 1j, float("inf"), -0.0]))
        if r < .8:
            t = a_number_text(rng)
            return t, int(t), "documented"
        t = a_float_text(rng)
        return t, float(t), "documented"
    if kind == "float":
        if r < .5:
            return same(rng.choice([0.0, 1.5, -1e300, 1e-5, float("inf"),
                                    rng.uniform(-1e3, 1e3)]))
        if r < .75:
            t = rng.choice([a_number_text(rng), a_float_text(rng)])
            return t, float(t), "documented"
        n = rng.choice([0, 5, True, -7, decimal.Decimal("2.5")])
        return n, float(n), "documented"
    if kind in ("str", "unicode"):
        return same(rng.choice(["", "a", "12", "\u00e9\u0130", "a\nb",
                                "\U0001f600", " x ", "None"]))
    if kind == "date":
        if r < .45:
            return same(rng.choice([a_date(rng), MyDate(2014, 4, 2)]))
        if r < .65:
            d = a_datetime(rng)
            d = rng.choice([d, d, d.replace(tzinfo=datetime.timezone.utc),
                            MyDatetime(2014, 4, 2, 12, 34)])
            return d, d.date(), "truncated"
        if r < .7:
            d = a_date(rng)
            return Dated(d), d, "documented"
        t, d = date_text(rng)
        return t, d.date(), "documented"
    if kind == "datetime":
        if r < .45:
            return same(rng.choice([
                a_datetime(rng), MyDatetime(2014, 4, 2, 12),
                a_datetime(rng).replace(tzinfo=datetime.timezone.utc)]))
        if r < .6:
            d = rng.choice([a_date(rng), MyDate(2014, 4, 2)])
            return (d, datetime.datetime(d.year, d.month, d.day),
                    "documented")
        t, d = date_text(rng)
        return t, d, "documented"


KINDS = {"int": (types.IntProperty, int),
         "long": (types.LongProperty, int),
         "integer": (types.IntegerProperty, int),
         "number": (types.NumberProperty, numbers.Number),
         "float": (types.FloatProperty, float),
         "str": (types.StringProperty, str),
         "unicode": (types.UnicodeProperty, str),
         "date": (types.DateProperty, datetime.date),
         "datetime": (types.DatetimeProperty, datetime.datetime)}


def of_kind(kind, v):
    return isinstance(v, KINDS[kind][1]) and not (
        kind == "date" and isinstance(v, datetime.datetime))


def same_value(a, b):
    return type(a) is type(b) and (a == b or repr(a) == repr(b))


def declared(ctx, rng, **kw):
    """A class with attributes of several kinds -> class, {name: kind}"""
    kinds = dict(("%s_%s" % (k, "ab"[i]), k) for i in range(2)
                 for k in KINDS if rng.random() < .4)
    kinds["x"] = rng.choice(list(KINDS))
    body = {}
    for n, k in kinds.items():
        opts = dict(kw)
        if rng.random() < .2:
            opts["json_name"] = n.upper()
        # by class, or by the name of the trait
        body[n] = KINDS[k][0](**opts) if rng.random() < .8 else Property(
            traits=[k], **opts)
    return new_class(rng.choice([Record, JsonRecord]), body, "Ready"), kinds


def ready_made(ctx, rng):
    cls, kinds = declared(ctx, rng)
    ctx.log("kinds", kinds)
    r = cls()
    for _ in range(12):
        name = rng.choice(list(kinds))
        kind = kinds[name]
        x, want, how = an_input(rng, kind)
        via = rng.randrange(3)
        ctx.log(name, "=", x, via)
        held = r.__dict__.get(name, "unset")
        if via:
            got = attempt(setattr, r, name, x)
        else:
            got = attempt(cls, **{name: x})
        if want is Reject:
            ctx.raised(got, exc.CoercionError, "%s = %r" % (name, x))
            ctx.ok(r.__dict__.get(name, "unset") is held, "%s was changed",
                   name)
        else:
            ctx.ok(got.ok, "%s = %r: %r", name, x, got)
            v = getattr(r if via else got.value, name)
            ctx.ok(v is x if how == "as is" else same_value(v, want),
                   "%s = %r gave %r, not %r", name, x, v, want)
        for n, k in kinds.items():
            if n in r.__dict__:
                ctx.ok(of_kind(k, getattr(r, n)), "%s holds %r", n,
                       getattr(r, n))
        ctx.ev(how)
        ctx.sig(kind, repr(x))


def json_back(ctx, rng):
    cls, kinds = declared(ctx, rng)
    ctx.log("kinds", kinds)
    args = {}
    for name, kind in kinds.items():
        for _ in range(6):
            x, want, how = an_input(rng, kind)
            if want is Reject or isinstance(
                    want, (complex, decimal.Decimal, fractions.Fraction)):
                continue
            if want == float("inf") or getattr(want, "tzinfo", None):
                continue
            args[name] = x
            break
    ctx.log("args", args)
    r = ctx.value(attempt(cls, **args), "construct")
    data = ctx.value(attempt(to_json, r), "to_json")
    text = ctx.value(attempt(json.dumps, data), "dump")
    ctx.log("json", text)
    for doc in (data, json.loads(text), text):
        back = ctx.value(attempt(from_json, cls, doc), "from_json")
        for n, k in kinds.items():
            if n not in args:
                ctx.ok(n not in back.__dict__, "%s appeared", n)
                continue
            a, b = getattr(r, n), getattr(back, n)
            ctx.ok(of_kind(k, b) and a == b, "%s was %r, is %r", n, a, b)
        ctx.ok(back == r, "%r read back is %r", r, back)
        ctx.ev("json", len(args))
    # also from JSON forms of what was given
    doc = dict((getattr(cls.properties[n], "json_name", None) or n, x) for n, x in args.items()
               if isinstance(x, (str, int, float)))
    back = ctx.value(attempt(from_json, cls, json.loads(json.dumps(doc))),
                     "from_json")
    for n, x in args.items():
        if isinstance(x, (str, int, float)):
            ctx.ok(getattr(back, n) == getattr(r, n), "%s from JSON %r is "
                   "%r, not %r", n, x, getattr(back, n), getattr(r, n))


SCENARIOS = [("subtypes", subtypes, 3500, 80000),
             ("in_attributes", in_attributes, 2500, 50000),
             ("ready_made", ready_made, 5000, 100000),
             ("json_back", json_back, 2000, 40000)]
