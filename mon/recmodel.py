"""Reference model of record attributes and an engine which drives the real
library through random histories in lock step with it (C01 - C05).

The model is written from the documented semantics of Property(); it knows
nothing of the implementation.  Each discrepancy is attributed to the property
(C01..C05) whose statement it contradicts; a check only judges its own.
"""
import copy
import functools
import itertools
import pickle
import sys
import types as pytypes

from mon.core import Abandon, Violation, attempt, safe_repr, short

import normalize
import normalize.exc as exc
from normalize import Property, Record, JsonRecord
from normalize.property import (
    LazyProperty, LazySafeProperty, ROProperty, SafeProperty, V1Property,
)
from normalize.property.coll import ListProperty, DictProperty
from normalize.property.json import JsonListProperty
from normalize.subtype import subtype
from normalize.coll import ListCollection, DictCollection

DYN = pytypes.ModuleType("verif_dyn")
sys.modules["verif_dyn"] = DYN
_counter = itertools.count(1)


def new_class(base, attrs, stem="Rec"):
    """Declares a record class, importable (for pickle) from verif_dyn"""
    name = "%s%d" % (stem, next(_counter))
    attrs = dict(attrs)
    attrs["__module__"] = "verif_dyn"
    bases = base if isinstance(base, tuple) else (base,)
    cls = type(bases[0])(name, bases, attrs)
    setattr(DYN, name, cls)
    return cls


class Tok(object):
    """A value with identity; only constructible from a Raw"""
    def __init__(self, raw):
        if not isinstance(raw, Raw):
            raise TypeError("Tok needs a Raw")
        if raw.boom:
            raise raw.boom("refused %r" % (raw.n,))
        self.n = raw.n

    def __eq__(self, other):
        return type(other) is type(self) and self.n == other.n

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(("Tok", self.n))

    def __repr__(self):
        return "mktok(%d)" % self.n


class SubTok(Tok):
    pass


class Raw(object):
    def __init__(self, n, boom=None):
        self.n = n
        self.boom = boom

    def __repr__(self):
        return "Raw(%d%s)" % (self.n, ", boom" if self.boom else "")

    def __eq__(self, other):
        return isinstance(other, Raw) and (self.n, self.boom) == (
            other.n, other.boom)

    def __hash__(self):
        return hash(self.n)


class Odd(object):
    """Something no declared type accepts"""
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "Odd(%d)" % self.n

    def __eq__(self, other):
        return isinstance(other, Odd) and self.n == other.n

    def __hash__(self):
        return hash(self.n)

    def __int__(self):
        raise ValueError("odd")

    def __float__(self):
        raise ValueError("odd")


def mktok(n):
    return Tok(Raw(n))


class Inner(Record):
    a = Property(isa=int)
    b = Property()


DYN.Inner = Inner
Inner.__module__ = "verif_dyn"
Positive = subtype("Positive", of=int, where=lambda x: x > 0)
PositiveC = subtype("PositiveC", of=int, where=lambda x: x > 0,
                    coerce=lambda x: abs(int(x)))
DYN.Positive = Positive


class ConvError(Exception):
    pass


class BadDefault(Exception):
    pass


class Unsaid(object):
    """Doesn't say what arguments it takes"""
    def __init__(self, step):
        self.step = step

    @property
    def __signature__(self):
        raise ValueError("no signature found")

    def __call__(self):
        return self.step(None)


class BoundDefault(object):
    """Defaults which are methods of something else"""
    def __init__(self, step):
        self.step = step

    def method(self):
        return self.step(None)

    def __call__(self):
        return self.step(None)


UNSET = type("UNSET", (object,), {"__repr__": lambda s: "UNSET"})()

_n = [100]


def uniq():
    _n[0] += 1
    return _n[0]


# name -> (isa, how to make conforming values, convertible, unconvertible)
def conforming(rng, kind):
    n = rng.choice([0, 1, 7, uniq(), uniq()])
    if kind == "int":
        return rng.choice([n, -n, True, 2 ** 60 + n])
    if kind == "str":
        return rng.choice(["", "s%d" % n, u"\u00e9%d" % n])
    if kind == "float":
        return rng.choice([0.0, n + .5, -1.25])
    if kind == "tok":
        return rng.choice([mktok(n), mktok(n), SubTok(Raw(n))])
    if kind == "toknone":
        return rng.choice([mktok(n), None])
    if kind == "intstr":
        return rng.choice([n, "s%d" % n, ""])
    if kind == "rec":
        return rng.choice([Inner(a=n), Inner(), Inner(b="x")])
    if kind in ("pos", "posc"):
        return n + 1
    if kind == "list":
        return LIST_T([n, n + 1][:rng.randrange(3)])
    if kind == "dict":
        return DICT_T({"k": n})
    return rng.choice([n, "s%d" % n, None, mktok(n), [n], {}, 0, ""])


def convertible(rng, kind):
    n = uniq()
    return {
        "int": lambda: rng.choice([str(n), n + .5]),
        "str": lambda: rng.choice([n, None, 1.5, mktok(n)]),
        "float": lambda: rng.choice([n, str(n), True]),
        "tok": lambda: Raw(n),
        "toknone": lambda: Raw(n),
        "intstr": lambda: None,
        "rec": lambda: rng.choice([{"a": n}, {"a": str(n)}, {}, {"b": [n]}]),
        "pos": lambda: None,
        "posc": lambda: rng.choice([-n, str(n), "-%d" % n]),
        "list": lambda: rng.choice(
            [[n, str(n)], (n,), [], {"b": n, "a": "5"}]),
        "dict": lambda: rng.choice([{"x": str(n)}, {}, [n, n]]),
        "none": lambda: n,
    }[kind]()


def unconvertible(rng, kind):
    n = uniq()
    return {
        "int": lambda: rng.choice(["x%d" % n, None, Odd(n), [n]]),
        "str": lambda: UnStr(n),
        "float": lambda: rng.choice(["x", None, Odd(n)]),
        "tok": lambda: rng.choice(
            [n, None, "x", Odd(n), Raw(n, ValueError), Raw(n, KeyError),
             Raw(n, ConvError), Raw(n, AttributeError)]),
        "toknone": lambda: rng.choice([n, "x", Raw(n, TypeError)]),
        "intstr": lambda: rng.choice([1.5, None, Odd(n), [n]]),
        "rec": lambda: rng.choice(
            [{"a": "x"}, {"nope": n}, {"a": None}, Odd(n)]),
        "pos": lambda: rng.choice([0, -n, "5", None, "x"]),
        "posc": lambda: rng.choice([0, "0", "x", None, Odd(n)]),
        "list": lambda: rng.choice(["abc", [n, "x"], [None], Odd(n), n]),
        "dict": lambda: rng.choice(["abc", {"k": "x"}, [None], Odd(n)]),
        "none": lambda: n,
    }[kind]()


class UnStr(object):
    def __init__(self, n):
        self.n = n

    def __str__(self):
        raise ConvError("no string form")

    def __repr__(self):
        return "UnStr(%d)" % self.n

    def __eq__(self, other):
        return isinstance(other, UnStr) and self.n == other.n

    def __hash__(self):
        return self.n


class _Holder(Record):
    l = ListProperty(of=int)
    d = DictProperty(of=int)


LIST_T = _Holder.properties["l"].valuetype
DICT_T = _Holder.properties["d"].valuetype

ISA = {
    "int": int, "str": str, "float": float, "tok": Tok,
    "toknone": (Tok, type(None)), "intstr": (int, str), "rec": Inner,
    "pos": Positive, "posc": PositiveC, "list": LIST_T, "dict": DICT_T,
    "none": None,
}


def ref_isinstance(value, kind):
    """isinstance, independently of the library's own machinery"""
    if kind == "pos" or kind == "posc":
        return isinstance(value, int) and value > 0
    return isinstance(value, ISA[kind])


class Refused(Exception):
    pass


def ref_convert(spec, value):
    """The declared conversion, as a pure function; raises if it fails"""
    kind = spec.kind
    if spec.conv == "ctor":
        if kind == "int":
            return int(value)
        if kind == "str":
            return str(value)
        if kind == "float":
            return float(value)
        if kind == "tok":
            return Tok(value)
        if kind in ("toknone", "intstr"):
            raise Refused("type tuples aren't callable")
        if kind == "rec":
            if not isinstance(value, dict):
                if not value:
                    return Inner()
                raise Refused()
            out = {}
            for k, v in value.items():
                if k == "a":
                    out[k] = v if isinstance(v, int) else int(v)
                elif k == "b":
                    out[k] = v
                else:
                    raise Refused()
            return Inner(**out)
        if kind == "pos":
            raise Refused()
        if kind == "posc":
            n = abs(int(value))
            if n <= 0:
                raise Refused()
            return n
        if kind == "list":
            return LIST_T(ref_list(value))
        if kind == "dict":
            return DICT_T(ref_dict(value))
    return spec.conv_func(value)


def ref_list(value):
    if value is None:
        return []
    if isinstance(value, str) or isinstance(value, (int, Odd)):
        raise Refused()
    if isinstance(value, dict):
        value = [value[k] for k in sorted(value)]
    elif hasattr(value, "__next__"):
        raise Abandon("iterator consumed")
    return [v if isinstance(v, int) else int(v) for v in value]


def ref_dict(value):
    if value is None:
        return {}
    if isinstance(value, (str, int, Odd)):
        raise Refused()
    if not isinstance(value, dict):
        value = dict(enumerate(value))
    return dict((k, v if isinstance(v, int) else int(v))
                for k, v in value.items())


class Spec(object):
    """One declared attribute"""
    def __init__(self, rng, name, focus):
        self.name = name
        w = {
            "C01": dict(ro=.07, lazy=.1, req=.15, default=.25, unsafe=.07),
            "C02": dict(ro=.15, lazy=.03, req=.7, default=.3, unsafe=.05),
            "C03": dict(ro=.7, lazy=.25, req=.2, default=.4, unsafe=.02),
            "C04": dict(ro=.25, lazy=.8, req=.1, default=.4, unsafe=.05),
            "C05": dict(ro=.15, lazy=.1, req=.1, default=.75, unsafe=.07),
        }[focus]
        self.kind = rng.choice(
            ["none", "none", "int", "str", "float", "tok", "tok", "toknone",
             "intstr", "rec", "pos", "posc", "list", "dict"])
        self.ro = rng.random() < w["ro"]
        self.lazy = rng.random() < w["lazy"]
        self.unsafe = rng.random() < w["unsafe"]
        self.required = rng.random() < w["req"]
        if self.lazy and self.required and rng.random() < .8:
            self.required = False
        self.extraneous = rng.random() < .15
        self.json = rng.random() < .2 and self.kind not in ("list", "dict")
        # converters
        self.conv = "ctor"
        self.conv_calls = []
        if self.kind in ("tok", "toknone", "int", "str", "intstr") and \
                rng.random() < .45:
            self.conv = rng.choice(
                ["wrap", "none", "wrongtype", "raise"]) \
                if rng.random() < .5 else "wrap"
        # checks
        self.check = rng.choice(
            [None, None, None, "trueish", "modulus", "alwaysfalse_some"])
        self.check_calls = []
        # defaults
        self.default = None       # None | const | mutable | func | method
        self.default_value = None
        self.default_calls = []
        self.default_script = []  # for failing defaults
        self.null = UNSET         # null value of a v1 attribute
        if self.lazy or rng.random() < w["default"]:
            self.pick_default(rng, focus)
        self.explicit_v1 = False
        if not self.lazy and not self.ro and self.default is None and \
                not self.unsafe and not self.required and \
                rng.random() < (.25 if focus == "C05" else .05) and \
                self.kind in ("none", "int", "tok", "str", "rec"):
            self.explicit_v1 = True
            self.null = rng.choice([None, 0, ""])
        self.spelling = rng.randrange(3)
        self.json_name = rng.random() < .5

    def pick_default(self, rng, focus):
        how = rng.random()
        if how < .25 and not self.lazy:
            self.default = "const"
            self.default_value = rng.choice(
                [5, "dflt", (1, 2), 1.5, mktok(uniq())])
            if self.kind != "none" and rng.random() < .85:
                self.default_value = conforming(rng, self.kind)
                if self.kind in ("list", "dict", "rec"):
                    self.default = "mutable"
        elif how < .45 and not self.lazy:
            self.default = "const"
            self.default_value = rng.choice([0, None, "", (), False, 0.0])
            if self.kind in ("list", "dict"):
                # whether other false values are "convertible" isn't specified
                self.default_value = rng.choice([None, ()])
        elif how < .55 and not self.lazy:
            self.default = "mutable"
            self.default_value = rng.choice([[], {}, [1], {"k": [1]}])
        elif how < .8:
            self.default = "func"
        else:
            self.default = "method"
        if self.default in ("func", "method"):
            self.fail_default = rng.random() < (
                .5 if focus == "C04" else .08)
        else:
            self.fail_default = False
        if self.default == "const" and not self.default_value and \
                not callable(self.default_value):
            # documented 'v1 upgrade': a false immutable default
            if not self.lazy and not self.required:
                self.null = self.default_value

    # -- trait queries (the documented rules)
    @property
    def v1(self):
        return self.null is not UNSET

    @property
    def checked(self):
        """Is assignment checked?  (unsafe requested: no)"""
        if self.ro:
            return False
        if self.explicit_v1 or self.v1:
            return True
        if self.unsafe:
            return False
        return bool(self.kind != "none" or self.required or self.check)

    def conv_func(self, value):
        """Custom converters: pure part"""
        c = self.conv
        if c == "raise":
            raise ConvError("cannot convert")
        if c == "none":
            return None
        if c == "wrongtype":
            return Odd(3)
        # wrap
        if self.kind in ("tok", "toknone"):
            if isinstance(value, Raw) and not value.boom:
                return mktok(value.n)
            if isinstance(value, int):
                return mktok(value)
            raise ConvError("not raw")
        if self.kind == "int":
            return len(str(value))
        if self.kind == "str":
            return "<%s>" % type(value).__name__
        if self.kind == "intstr":
            if value is None:
                raise ConvError("None")
            return type(value).__name__
        raise AssertionError(self.kind)

    def check_func(self, value):
        if self.check == "trueish":
            return True
        h = sum(map(ord, safe_repr(value)))
        if self.check == "modulus":
            return "yes" if h % 4 else 0
        return [] if h % 3 == 0 else [1]

    def make_default(self, rng):
        spec = self
        if self.default in ("const", "mutable"):
            return self.default_value
        script = self.default_script
        values = []
        for _ in range(40):
            if self.fail_default and rng.random() < .4:
                script.append(("raise", rng.choice(
                    [BadDefault, ValueError, KeyError])))
            elif self.fail_default and rng.random() < .3 and \
                    self.kind != "none":
                script.append(("value", unconvertible(rng, self.kind)))
            elif self.kind != "none" and rng.random() < .2:
                v = convertible(rng, self.kind)
                if hasattr(v, "__next__"):
                    v = [3]
                script.append(("value", v))
            else:
                script.append(("value", conforming(rng, self.kind)))

        def step(obj):
            i = len(spec.default_calls)
            what, v = script[i % len(script)]
            spec.default_calls.append((obj, what, v))
            if what == "raise":
                raise v("default failed")
            return v
        if self.default == "method":
            if rng.random() < .12:
                # (deprecated; but it works)
                def dflt(record):
                    return step(record)
            elif rng.random() < .1:
                dflt = functools.wraps(lambda: None)(lambda self: step(self))
            else:
                def dflt(self):
                    return step(self)
        else:
            how = rng.randrange(8)
            if how == 0:
                return BoundDefault(step).method
            if how == 1:
                return BoundDefault(step)

            def dflt(x=None):
                return step(x)
            if how == 2:
                return dflt
            if how == 3:
                # (a type; like list or dict)
                return type("DefaultType", (object,), {
                    "__new__": lambda cls: step(None)})
            if how == 4:
                # (doesn't say what arguments it takes; like dict or int)
                return Unsaid(step)
            if how == 5:
                # (decorated: it takes what the decorator takes)
                return functools.wraps(lambda self: None)(
                    lambda: step(None))
            return lambda: step(None)
        return dflt

    def declare(self, rng):
        """-> a real Property"""
        kw = {}
        traits = []
        spec = self
        cls = Property
        if self.kind == "list":
            cls = ListProperty
            kw["of"] = int
        elif self.kind == "dict":
            cls = DictProperty
            kw["of"] = int
        elif self.kind != "none":
            kw["isa"] = ISA[self.kind]
        if self.conv != "ctor":
            def converter(value):
                spec.conv_calls.append([value, UNSET])
                rv = spec.conv_func(value)
                spec.conv_calls[-1][1] = rv
                return rv
            kw["coerce"] = converter
        if self.check:
            def checker(value):
                spec.check_calls.append(value)
                return spec.check_func(value)
            kw["check"] = checker
        if self.required:
            kw["required"] = True
        if self.extraneous:
            kw["extraneous"] = True
        if self.default is not None:
            kw["default"] = self.make_default(rng)
        if self.json:
            if self.json_name:
                kw["json_name"] = "J_" + self.name
            else:
                traits.append("json")
        if self.lazy:
            if self.spelling == 0 and cls is Property and not self.ro:
                cls = LazyProperty
            elif self.spelling == 1:
                kw["lazy"] = True
            else:
                traits.append("lazy")
                if self.spelling == 2:
                    kw["lazy"] = True
        if self.ro:
            if self.spelling == 0 and cls is Property:
                cls = ROProperty
            else:
                traits.append("ro")
        if self.unsafe:
            traits.append("unsafe")
        if self.explicit_v1:
            kw["v1_none"] = self.null
        if traits:
            rng.shuffle(traits)
            kw["traits"] = traits
        items = list(kw.items())
        rng.shuffle(items)
        return cls(**dict(items))

    def describe(self):
        return "%s: %s%s%s%s%s%s%s%s%s" % (
            self.name, self.kind,
            " conv=" + self.conv if self.conv != "ctor" else "",
            " check=" + self.check if self.check else "",
            " required" if self.required else "",
            " ro" if self.ro else "", " lazy" if self.lazy else "",
            " unsafe" if self.unsafe else "",
            " default=%s" % (
                self.default if self.default in ("func", "method") else
                safe_repr(self.default_value)) if self.default else "",
            " null=%r" % (self.null,) if self.v1 else "",
        )

    # -- acceptance, per the documentation
    def accept(self, value, init=False):
        """-> (tag, value): ok / skip / required / type / check"""
        if value is None and self.required and self.kind == "none":
            return "required", None
        converted = False
        if self.kind != "none" and not ref_isinstance(value, self.kind):
            try:
                new = ref_convert(self, value)
            except Abandon:
                raise
            except Exception:
                return "type", None
            if not ref_isinstance(new, self.kind):
                if init and new is None and not self.required:
                    return "skip", None
                return "type", None
            value = new
            converted = True
        if self.check and not self.check_func(value):
            return "check", None
        return ("conv" if converted else "ok"), value


ERRORS = {
    "required": exc.PropertyRequired,
    "type": exc.CoercionError,
    "check": exc.ValueCheckError,
}


class Model(object):
    """State of one record, by the model"""
    def __init__(self, specs):
        self.specs = specs
        self.state = dict((s.name, UNSET) for s in specs)

    def clone(self):
        m = Model(self.specs)
        m.state = dict(self.state)
        return m


class Engine(object):
    def __init__(self, ctx, rng, focus):
        self.ctx = ctx
        self.rng = rng
        self.focus = focus

    def fail(self, pids, msg):
        if self.ctx.pid in pids:
            raise Violation(short(msg, 2000))
        raise Abandon("outside this property: %s: %s" % (
            "/".join(sorted(pids)), msg))

    def judge(self, cond, pids, msg, *args):
        if self.ctx.pid in pids:
            self.ctx.evals += 1
        if not cond:
            self.fail(pids, msg % args if args else msg)

    def declare(self):
        rng = self.rng
        n = rng.randrange(1, 6)
        self.specs = [
            Spec(rng, "p%d%s" % (i, rng.choice("ab9")), self.focus)
            for i in range(n)
        ]
        props = dict((s.name, s.declare(rng)) for s in self.specs)
        base = JsonRecord if rng.random() < .25 else Record
        self.json_base = base is JsonRecord
        if n > 1 and rng.random() < .35:
            k = rng.randrange(1, n)
            names = [s.name for s in self.specs]
            parent = new_class(base, dict((x, props[x]) for x in names[:k]))
            cls = new_class(parent, dict((x, props[x]) for x in names[k:]))
            self.ctx.ev("inherited_class")
        else:
            cls = new_class(base, props)
        self.cls = cls
        self.byname = dict((s.name, s) for s in self.specs)
        for s in self.specs:
            self.ctx.log("declare", s.describe())
        return cls

    # -- values
    def a_value(self, spec, init=False):
        rng = self.rng
        r = rng.random()
        if r < .45:
            return conforming(rng, spec.kind)
        if r < .7:
            v = convertible(rng, spec.kind)
        elif r < .93 and spec.kind != "none":
            v = unconvertible(rng, spec.kind)
        else:
            v = None
        if v is None and init and spec.v1 and spec.kind != "none":
            # constructing with the legacy null isn't specified
            v = conforming(rng, spec.kind)
        return v

    # -- verify that the whole record agrees with the model
    def verify(self, rec, model, pids_hint, what):
        """Reads everything that can be read without side effects"""
        for s in self.specs:
            want = model.state[s.name]
            if s.lazy and want is UNSET:
                continue
            got = attempt(getattr, rec, s.name)
            if want is UNSET:
                if s.v1:
                    self.judge(
                        got.ok and type(got.value) is type(s.null) and
                        got.value == s.null,
                        pids_hint or {"C05"},
                        "%s: unset attribute %s should read as %r but %r",
                        what, s.name, s.null, got)
                else:
                    self.judge(
                        isinstance(got.exc, AttributeError),
                        pids_hint or {"C05"},
                        "%s: attribute %s should be unset, but %r", what,
                        s.name, got)
            else:
                self.judge(
                    got.ok, pids_hint or {"C01"},
                    "%s: attribute %s should hold %r but %r", what, s.name,
                    want, got)
                same = got.value is want or (
                    type(got.value) is type(want) and got.value == want)
                pids = pids_hint or self.owner(s)
                self.judge(same, pids,
                           "%s: attribute %s should hold %r but holds %r",
                           what, s.name, want, got.value)
                if s.kind != "none" and (s.checked or s.ro):
                    self.judge(ref_isinstance(got.value, s.kind), {"C01"},
                               "%s: attribute %s holds %r, not of type %s",
                               what, s.name, got.value, s.kind)
            self.ctx.ev("slot_reads")

    def owner(self, s):
        pids = {"C01"}
        if s.ro:
            pids.add("C03")
        if s.lazy:
            pids.add("C04")
        return pids

    # -- operations
    def construct(self):
        rng, ctx = self.rng, self.ctx
        kwargs = {}
        for s in self.specs:
            r = rng.random()
            if r < (.75 if s.required else .45):
                kwargs[s.name] = self.a_value(s, init=True)
        if rng.random() < .6:
            # make success likely
            for s in self.specs:
                if s.name in kwargs:
                    kwargs[s.name] = conforming(rng, s.kind)
                elif s.required and s.default is None:
                    kwargs[s.name] = conforming(rng, s.kind)
        items = list(kwargs.items())
        rng.shuffle(items)
        # the model's opinion
        model = Model(self.specs)
        problems = []
        conv = {}
        for name, value in items:
            s = self.byname[name]
            tag, v = s.accept(value, init=True)
            if tag in ERRORS:
                problems.append((s, tag))
            elif tag == "skip":
                pass
            else:
                model.state[name] = v
                conv[name] = tag
        marks = dict((s.name, (len(s.default_calls), len(s.conv_calls)))
                     for s in self.specs)
        defaulted = []
        for s in self.specs:
            if s.name in kwargs:
                continue
            if s.lazy or (s.default is None and not s.required) or \
                    (s.v1 and not s.required):
                continue
            if s.default is None:
                problems.append((s, "required"))
                continue
            if s.default in ("func", "method"):
                what, v = s.default_script[
                    len(s.default_calls) % len(s.default_script)]
                if what == "raise":
                    problems.append((s, v))
                    continue
            else:
                v = s.default_value
            tag, v2 = s.accept(v, init=True)
            if tag in ERRORS:
                problems.append((s, tag))
            elif tag == "skip":
                defaulted.append((s, v, UNSET, tag))
            else:
                model.state[s.name] = v2
                defaulted.append((s, v, v2, tag))
        form = rng.randrange(3)
        ctx.log("construct", dict(items), "(form %d)" % form)
        if self.json_base and form:
            form = 0
        if form == 0 or not items:
            got = attempt(lambda: self.cls(**dict(items)))
        elif form == 1:
            got = attempt(lambda: self.cls(dict(items)))
        else:
            got = attempt(lambda: self.cls(init_dict=dict(items)))
        ctx.ev("constructions")
        for s in self.specs:
            calls = len(s.default_calls) - marks[s.name][0]
            if s.lazy:
                self.judge(calls == 0, {"C04"},
                           "construction called the lazy default of %s",
                           s.name)
            elif s.name in kwargs:
                self.judge(calls == 0, {"C05"},
                           "default of supplied attribute %s was called",
                           s.name)
            elif got.ok and s.default in ("func", "method"):
                self.judge(calls == 1, {"C05"},
                           "default of %s called %d times in a construction",
                           s.name, calls)
        if problems:
            ctx.ev("constructions_rejected")
            pids = set()
            types = []
            for s, tag in problems:
                if tag == "required":
                    pids.add("C02")
                elif isinstance(tag, str):
                    pids.add("C01")
                    if s.required:
                        pids.add("C02")
                else:
                    pids.add("C05")
                types.append(ERRORS.get(tag) if isinstance(tag, str) else tag)
            if len(pids) > 1 and got.ok:
                # several reasons: any one of them suffices to be at fault
                self.judge(False, pids, "construction should be rejected "
                           "(%s) but it %r", [
                               (s.name, str(t)) for s, t in problems], got)
            self.judge(not got.ok, pids,
                       "construction should be rejected (%s) but it %r",
                       [(s.name, str(t)) for s, t in problems], got)
            self.judge(isinstance(got.exc, tuple(types)), pids,
                       "construction should be rejected with %s, but it %r",
                       [t.__name__ for t in types], got)
            return None
        if not got.ok:
            # which attribute is to blame?
            pids = {"C01"}
            if isinstance(got.exc, exc.PropertyRequired):
                pids = {"C02"}
            elif isinstance(got.exc, exc.ReadOnlyAttributeError):
                pids = {"C03"}
            elif any(s.default for s in self.specs):
                pids = {"C01", "C05"}
            self.fail(pids, "construction with acceptable values %r" % (got,))
        rec = got.value
        ctx.ev("records_constructed")
        for s, passed, v, tag in defaulted:
            if v is UNSET:
                g = attempt(getattr, rec, s.name)
                self.judge(isinstance(g.exc, AttributeError), {"C05"},
                           "default of %s converts to nothing, but it %r",
                           s.name, g)
                continue
            g = attempt(getattr, rec, s.name)
            self.judge(g.ok, {"C05"}, "default of %s not applied: %r",
                       s.name, g)
            if tag == "ok":
                self.judge(g.value is v, {"C05"},
                           "default of %s should be %r itself but is %r",
                           s.name, v, g.value)
            if s.default == "method":
                self.judge(s.default_calls[-1][0] is rec, {"C05"},
                           "default method of %s got %r as self", s.name,
                           s.default_calls[-1][0])
            ctx.ev("defaults_applied")
        for name, value in items:
            s = self.byname[name]
            if conv.get(name) == "ok":
                g = attempt(getattr, rec, name)
                self.judge(g.ok and g.value is value,
                           self.owner(s) | {"C05"},
                           "conforming value %r supplied for %s, but it %r",
                           value, name, g)
                self.judge(
                    len(s.conv_calls) == marks[name][1], {"C01"},
                    "converter of %s called on conforming value %r", name,
                    value)
        # adopt the values actually held where a conversion made new ones
        self.verify(rec, model, None, "after construction")
        self.adopt(rec, model)
        return rec, model

    def adopt(self, rec, model):
        for s in self.specs:
            if model.state[s.name] is not UNSET:
                model.state[s.name] = getattr(rec, s.name)

    def op_set(self, rec, model):
        rng, ctx = self.rng, self.ctx
        s = rng.choice(self.specs)
        value = self.a_value(s)
        before = model.state[s.name]
        ncalls = len(s.conv_calls)
        ndef = len(s.default_calls)
        if s.ro:
            ctx.log("set", s.name, value, "(read-only)")
            got = attempt(setattr, rec, s.name, value)
            ctx.ev("ro_assignments")
            self.judge(isinstance(got.exc, exc.ReadOnlyAttributeError),
                       {"C03"}, "assigning read-only %s: %r", s.name, got)
            self.verify(rec, model, {"C03"}, "after assigning read-only")
            self.judge(len(s.default_calls) == ndef, {"C04", "C03"},
                       "assignment called the default of %s", s.name)
            return
        if not s.checked:
            ctx.log("set", s.name, value, "(unchecked)")
            got = attempt(setattr, rec, s.name, value)
            self.judge(got.ok, {"C01"}, "unchecked assignment to %s: %r",
                       s.name, got)
            model.state[s.name] = value
            ctx.ev("unchecked_assignments")
            self.verify(rec, model, None, "after assigning %s" % s.name)
            return
        tag, v = s.accept(value)
        ctx.log("set", s.name, value, "->", tag)
        got = attempt(setattr, rec, s.name, value)
        ctx.ev("assignments_" + tag)
        if tag == "type" and s.v1 and (value is None or value == s.null):
            # legacy: clears the attribute
            if s.required:
                return
            self.judge(got.ok, {"C05"},
                       "assigning %r to legacy-null %s: %r", value, s.name,
                       got)
            model.state[s.name] = UNSET
            ctx.ev("null_assignments")
            self.verify(rec, model, {"C05"}, "after clearing %s" % s.name)
            return
        if tag in ERRORS:
            pids = {"C02"} if tag == "required" else {"C01"}
            if s.required:
                pids.add("C02")
            self.judge(not got.ok, pids, "assigning %r to %s should be "
                       "rejected (%s)", value, s.name, tag)
            self.judge(isinstance(got.exc, ERRORS[tag]), pids,
                       "assigning %r to %s should raise %s, but it %r",
                       value, s.name, ERRORS[tag].__name__, got)
            hint = {"C01"}
            if s.required or any(x.required for x in self.specs):
                hint.add("C02")
            self.verify(rec, model, hint, "after rejected assignment")
            self.judge(len(s.default_calls) == ndef, {"C04"},
                       "assignment called the default of %s", s.name)
            return
        self.judge(got.ok, self.owner(s),
                   "assigning acceptable %r to %s: %r", value, s.name, got)
        if tag == "ok":
            if s.kind not in ("list", "dict"):
                self.judge(getattr(rec, s.name) is value, self.owner(s),
                           "assigned %r to %s but it reads %r", value, s.name,
                           attempt(getattr, rec, s.name))
            self.judge(len(s.conv_calls) == ncalls, {"C01"},
                       "converter of %s called on conforming %r", s.name,
                       value)
        elif s.conv == "wrap":
            self.judge(len(s.conv_calls) > ncalls and
                       getattr(rec, s.name) is s.conv_calls[-1][1],
                       {"C01"}, "%s should hold what the converter returned "
                       "for %r", s.name, value)
        model.state[s.name] = v
        self.verify(rec, model, None, "after assigning %s" % s.name)
        self.adopt(rec, model)
        self.judge(len(s.default_calls) == ndef, {"C04"},
                   "assignment called the default of %s", s.name)

    def op_del(self, rec, model):
        rng, ctx = self.rng, self.ctx
        s = rng.choice(self.specs)
        before = model.state[s.name]
        ctx.log("del", s.name)
        ndef = len(s.default_calls)
        got = attempt(delattr, rec, s.name)
        ctx.ev("deletions")
        if s.ro:
            self.judge(isinstance(got.exc, exc.ReadOnlyAttributeError),
                       {"C03"}, "deleting read-only %s: %r", s.name, got)
            self.verify(rec, model, {"C03"}, "after deleting read-only")
            ctx.ev("ro_deletions")
        elif s.checked and s.required:
            self.judge(isinstance(got.exc, exc.PropertyRequired), {"C02"},
                       "deleting required %s: %r", s.name, got)
            self.verify(rec, model, {"C02"}, "after deleting required")
            ctx.ev("required_deletions")
        elif before is UNSET:
            if s.v1:
                self.judge(got.ok, {"C05"}, "deleting null %s: %r", s.name,
                           got)
                self.verify(rec, model, {"C05"}, "after deleting null")
            else:
                self.judge(isinstance(got.exc, AttributeError),
                           {"C01", "C05"},
                           "deleting unset %s: %r", s.name, got)
                self.verify(rec, model, {"C01", "C05"},
                            "after deleting unset")
        else:
            self.judge(got.ok, {"C01", "C05"}, "deleting %s: %r", s.name,
                       got)
            model.state[s.name] = UNSET
            self.verify(rec, model, {"C05", "C01"},
                        "after deleting %s" % s.name)
        self.judge(len(s.default_calls) == ndef, {"C04", "C05"},
                   "deletion called the default of %s", s.name)

    def op_get(self, rec, model, name=None):
        rng, ctx = self.rng, self.ctx
        s = self.byname[name] if name else rng.choice(self.specs)
        n0 = len(s.default_calls)
        held = model.state[s.name]
        if not s.lazy:
            ctx.log("get", s.name)
            self.verify(rec, model, None, "read")
            return
        if held is not UNSET:
            ctx.log("get", s.name, "(lazy, set)")
            got = attempt(getattr, rec, s.name)
            self.judge(got.ok and got.value is held, {"C04"} | (
                {"C03"} if s.ro else set()),
                "lazy %s holds %r, but reading it %r", s.name, held, got)
            self.judge(len(s.default_calls) == n0, {"C04"},
                       "default of %s called although it holds %r", s.name,
                       held)
            ctx.ev("lazy_reads_set")
            return
        what, v = s.default_script[n0 % len(s.default_script)]
        ctx.log("get", s.name, "(lazy, unset) ->", what, v)
        got = attempt(getattr, rec, s.name)
        self.judge(len(s.default_calls) == n0 + 1, {"C04"},
                   "reading unset lazy %s called its default %d times",
                   s.name, len(s.default_calls) - n0)
        if s.default == "method":
            self.judge(s.default_calls[-1][0] is rec, {"C04"},
                       "default of %s called for another object", s.name)
        if what == "raise":
            ctx.ev("lazy_failures")
            self.judge(isinstance(got.exc, v), {"C04"},
                       "default of lazy %s raised %s, but reading it %r",
                       s.name, v.__name__, got)
            return
        tag, v2 = s.accept(v)
        if tag in ERRORS:
            ctx.ev("lazy_rejected")
            self.judge(isinstance(got.exc, ERRORS[tag]), {"C04", "C01"},
                       "default of lazy %s gave unacceptable %r, but reading "
                       "it %r", s.name, v, got)
            return
        ctx.ev("lazy_computed")
        self.judge(got.ok, {"C04"}, "reading lazy %s: %r", s.name, got)
        if tag == "ok" and s.kind not in ("list", "dict"):
            self.judge(got.value is v, {"C04"},
                       "lazy %s computed as %r but reads %r", s.name, v,
                       got.value)
        self.judge(type(got.value) is type(v2) and got.value == v2,
                   {"C04", "C01"}, "lazy %s should read %r, reads %r", s.name,
                   v2, got.value)
        again = attempt(getattr, rec, s.name)
        self.judge(again.ok and again.value is got.value, {"C04"},
                   "second read of lazy %s: %r", s.name, again)
        self.judge(len(s.default_calls) == n0 + 1, {"C04"},
                   "lazy default of %s called again", s.name)
        model.state[s.name] = got.value

    def op_copy(self, rec, model):
        """Continue on a copy; it must be in the same state"""
        rng, ctx = self.rng, self.ctx
        how = rng.choice(["copy", "deepcopy", "pickle0", "pickle2",
                          "pickle5"])
        ctx.log(how)
        if how == "copy":
            got = attempt(copy.copy, rec)
        elif how == "deepcopy":
            got = attempt(copy.deepcopy, rec)
        else:
            got = attempt(lambda: pickle.loads(
                pickle.dumps(rec, int(how[-1]))))
        if not got.ok:
            raise Abandon("copying is judged by C13")
        rec2 = got.value
        ctx.ev("copies")
        m2 = model.clone()
        for s in self.specs:
            if m2.state[s.name] is UNSET:
                continue
            n0 = len(s.default_calls)
            g = attempt(getattr, rec2, s.name)
            if not (g.ok and type(g.value) is type(m2.state[s.name]) and
                    g.value == m2.state[s.name]):
                raise Abandon("copying is judged by C13")
            self.judge(len(s.default_calls) == n0, {"C04", "C05"},
                       "default of %s called after copying", s.name)
            m2.state[s.name] = g.value
        return rec2, m2

    def op_observe(self, rec, model):
        """Operations which only look"""
        rng, ctx = self.rng, self.ctx
        which = rng.choice(["repr", "str", "eq", "hash", "json", "diff"])
        counts = dict((s.name, len(s.default_calls)) for s in self.specs)
        ctx.log("observe", which)
        if which == "repr":
            attempt(repr, rec)
        elif which == "str":
            attempt(str, rec)
        elif which == "eq":
            attempt(lambda: rec == rec)
        elif which == "hash":
            attempt(hash, rec)
        elif which == "json":
            attempt(lambda: normalize.to_json(rec))
        else:
            attempt(lambda: list(rec.diff_iter(rec)))
        ctx.ev("observations")
        # lazy attributes may have been computed by that: at most once
        for s in self.specs:
            calls = len(s.default_calls) - counts[s.name]
            if not s.lazy:
                self.judge(calls == 0, {"C05"},
                           "%s called the default of %s", which, s.name)
                continue
            if model.state[s.name] is not UNSET:
                self.judge(calls == 0, {"C04"},
                           "%s called the default of computed lazy %s",
                           which, s.name)
                continue
            ok_calls = [c for c in s.default_calls[counts[s.name]:]
                        if c[1] == "value" and
                        s.accept(c[2])[0] not in ERRORS]
            self.judge(len(ok_calls) <= 1, {"C04"},
                       "%s computed lazy %s %d times", which, s.name,
                       len(ok_calls))
            if ok_calls:
                n0 = len(s.default_calls)
                g = attempt(getattr, rec, s.name)
                self.judge(g.ok and len(s.default_calls) == n0, {"C04"},
                           "lazy %s not kept after being computed by %s: %r",
                           s.name, which, g)
                model.state[s.name] = g.value
                ctx.ev("lazy_computed_by_observation")
        self.verify(rec, model, {"C01", "C03", "C05"}, "after " + which)

    def run(self, nops=None):
        rng, ctx = self.rng, self.ctx
        _n[0] = 100         # cases don't depend on each other
        self.declare()
        live = []
        failures = 0
        for _ in range(rng.randrange(2, 5)):
            made = self.construct()
            if made:
                live.append(made)
            else:
                failures += 1
        if not live:
            # try harder: all attributes conforming
            ctx.sig("construct-only", *[s.describe() for s in self.specs])
            return
        ops = [self.op_set, self.op_set, self.op_set, self.op_del,
               self.op_get, self.op_observe]
        if self.focus in ("C04",):
            ops += [self.op_get] * 4
        for _ in range(nops or rng.randrange(6, 22)):
            k = rng.randrange(len(live))
            rec, model = live[k]
            if rng.random() < .08:
                got = self.op_copy(rec, model)
                if rng.random() < .5:
                    live[k] = got
                else:
                    live.append(got)
            else:
                rng.choice(ops)(rec, model)
            ctx.ev("operations")
        # nobody else was affected
        for rec, model in live:
            self.verify(rec, model, {"C01", "C03", "C05"}, "at the end")
        ctx.sig(*ctx.trace)
