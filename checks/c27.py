"""C27: library errors are structured, catchable and printable"""
import itertools
import re
import string

import normalize.exc as exc
from mon.core import attempt
from mon.recmodel import new_class
from normalize import (DictProperty, FieldSelector, JsonListProperty,
                       JsonProperty, JsonRecord, LazyProperty, ListProperty,
                       MultiFieldSelector, Property, Record, ROProperty,
                       SafeProperty, from_json, make_property_type, subtype)
from normalize.coll import Collection, DictCollection, ListCollection
from normalize.coll import list_of
from normalize.diff import DiffOptions, diff, diff_iter
from normalize.identity import record_id
from normalize.property import V1Property
from normalize.record.json import JsonRecordDict, JsonRecordList
from normalize.visitor import VisitorPattern

_UNIQUE = itertools.count()

RULE = (
    "a case constructs every error class of the library, and new ones with "
    "random messages, from random values for the arguments the message "
    "needs, with and without extra and missing ones; or misuses the library "
    "in one of ~60 ways with random classes, names and values, and judges "
    "the error it gets: its class, the built-in exception it can be caught "
    "as, its facts and its text; non-trivial: distinct (misuse, text)")
ASSUMPTIONS = ["values have a repr"]
NEED = {"constructed": 9000, "missing named": 4000, "missing positional": 300,
        "custom": 900, "misuses": 7000, "facts": 9000, "mentions": 9000,
        "caught as built-in": 3500, "raw": 300}

# what each kind of error can be caught as
BUILTIN = dict((n, b) for b, names in {
    AttributeError: "FieldSelectorAttributeError NoSuchAttribute "
                    "ReadOnlyAttributeError",
    KeyError: "FieldSelectorKeyError",
    ValueError: "AttributeValueError PropertyRequired ValueCheckError",
    TypeError: "CoercionError BadAssignment CastTypeError CoerceError "
               "CollectionCoerceError CollectionItemCoerceError NotCallable "
               "NotSubscriptable PropertyArgumentNotKnown "
               "JsonConversionError JsonCollectionCoerceError "
               "JsonRecordCoerceError SubtypeCoerceError SubtypeOfWhat "
               "SubtypeNoCoerceFunc TypeDefinitionError ValueCoercionError "
               "VisitorUnpackError VisitorGrokRecordError "
               "VisitorGrokCollectionError",
}.items() for n in names.split())

# and which kinds they belong to
KINDS = dict((n, b) for b, names in {
    "AttributeValueError": "PropertyRequired ValueCheckError",
    "CoercionError": "CoerceError CollectionCoerceError "
                     "CollectionItemCoerceError JsonConversionError "
                     "JsonCollectionCoerceError JsonRecordCoerceError "
                     "SubtypeCoerceError SubtypeNoCoerceFunc "
                     "ValueCoercionError",
    "EmptyAttributeError": "BadAssignment NotCallable NotSubscriptable "
                           "NoSuchAttribute",
    "FeatureNotImplementedException":
        "CollectionItemTypeUnsupported CollectionDiffUnsupported "
        "IdentityCrisis",
    "FieldSelectorException":
        "FieldSelectorAttributeError FieldSelectorKeyError "
        "FieldSelectorAutoVivifyError",
    "PropertyDefinitionError":
        "AmbiguousPropertyTraitArg CoerceWithoutType CollRequiredError "
        "CollTypeMismatch CompareAsSignatureError DefaultSignatureError "
        "DictOfWhat DictPropertyMustDeriveDictCollection "
        "EmptyDefinitionMissing EmptySignatureError LazyIsFalse ListOfWhat "
        "ListPropertyMustDeriveListCollection NoneMutable "
        "PositionalArgumentsProhibited PropertyArgumentNotKnown "
        "PropertyTypeMismatch",
    "PropertyTypeDefinitionError": "PropertyNotUnique",
    "RecordDefinitionError": "PropertiesNotKnown ReservedPropertyName",
    "StringFormatExceptionError":
        "KeywordExceptionFormatError PositionalExceptionFormatError",
    "SubclassError": "CollectionDefinitionError MultipleInheritanceClash",
    "TypeDefinitionError": "SubtypeOfWhat",
    "UsageException": "AmbiguousConstruction CastTypeError "
                      "DiffOptionsException PropertyNotKnown "
                      "VisitorOptionsException",
    "VisitorException":
        "VisitorPropError VisitorGrokRecordError VisitorGrokCollectionError "
        "VisitorTooSimple VisitorUnpackError",
    "PropertyTypeMixNotFound":
        "PropertyTypeMixinNotPossible PropertyTypeMixinFailure",
    "VisitorGrokRecordError": "VisitorGrokCollectionError",
}.items() for n in names.split())

CLASSES = sorted((c for c in vars(exc).values() if isinstance(c, type) and
                  issubclass(c, exc.StringFormatException)),
                 key=lambda c: c.__name__)


class Odd(object):
    """Something to report on"""
    def __init__(self, r):
        self.r = r
        self.fullname = "Odd.fullname"
        self.name = "odd"
        self.path = ".odd.path"
        self.field_selector = ".odd.fs"
        self.json_coll_name = "odd coll"
        self.__name__ = "OddName"

    def __repr__(self):
        return self.r

    __str__ = __repr__


def values(rng):
    return rng.choice([
        None, 0, 1, -2.5, "", "plain", "{0}", "{passed}", "{", "}}", "%s %(a)s",
        "\u00e9\u0130\U0001f600", b"\xff{}", ("a", "b"), (), [1, [2]],
        {"k": "{k}"}, "line\nbreak", int, Odd("<odd {0}>"), Odd("\u2603"),
        ValueError("of %s {x}"), KeyError("k"), len, True, 10 ** 30,
        frozenset([1])])


def needs(message):
    """-> [(argument, attributes, conversion, text)]"""
    out = []
    for text, field, spec, conv in string.Formatter().parse(message):
        if field is None:
            continue
        m = re.match(r"([^.\[]*)(.*)$", field)
        out.append((m.group(1), m.group(2), conv, field))
    return out


def judge(ctx, e, cls, raised=True):
    """Anything about an error that doesn't depend on the occasion"""
    ctx.ok(isinstance(e, cls), "%r isn't a %s", e, cls.__name__)
    for base in (Exception, exc.NormalizeError, exc.StringFormatException):
        ctx.ok(isinstance(e, base), "%r isn't a %s", e, base)
    for c in type(e).__mro__:
        name = c.__name__
        if name in BUILTIN and getattr(exc, name, None) is c:
            try:
                raise e
            except BUILTIN[name]:
                ctx.ev("caught as built-in")
            except Exception:
                ctx.ok(False, "%s can't be caught as %s", name,
                       BUILTIN[name].__name__)
        if name in KINDS and getattr(exc, name, None) is c:
            ctx.ok(isinstance(e, getattr(exc, KINDS[name])), "%s isn't a %s",
                   name, KINDS[name])
    text = ctx.value(attempt(str, e), "str()")
    ctx.equal(type(text), str, "type of str()")
    ctx.equal(text, type(e).message.format(*e.args, **e.kwargs), "message")
    ctx.equal(str(e), text, "str() again")
    ctx.ok(not raised or
           text and text != exc.StringFormatException.message,
           "an error which says nothing: %r", text)
    for k, v in e.kwargs.items():
        if k not in ("args", "kwargs", "formatted", "message") and \
                k not in vars(BaseException):
            ctx.ok(getattr(e, k) is v, "%s is %r", k, getattr(e, k))
    for i, v in enumerate(e.args):
        ctx.ok(e[i] is v, "[%d] is %r", i, e[i])
    ctx.raised(attempt(getattr, e, "never_passed"), AttributeError,
               "getting what's not there")
    ctx.ok(not hasattr(e, "never_passed"), "hasattr()")
    ctx.ok(getattr(e, "never_passed", 5) == 5, "getattr()")
    ctx.raised(attempt(lambda: e[len(e.args)]), IndexError, "indexing")
    r = ctx.value(attempt(repr, e), "repr()")
    ctx.ok(type(e).__name__ + "(" in r and r.endswith(")"), "repr %s", r)
    for v in list(e.args) + list(e.kwargs.values()):
        ctx.ok(repr(v) in r, "%r isn't in repr %s", v, r)
    for k in e.kwargs:
        ctx.ok("%s=" % k in r, "%s isn't in repr %s", k, r)
    return text


def construct(ctx, rng):
    cls = rng.choice(CLASSES)
    one_class(ctx, rng, cls, needs(cls.message))


def custom(ctx, rng):
    """Classes of the user's, as the documentation suggests"""
    names = rng.sample(["who", "what", "where_", "exc", "val", "x1", "self_",
                        "passed"], rng.randint(0, 4))
    positional = rng.choice([0, 0, 1, 2])
    parts = ["{%s%s}" % (n, rng.choice(["", "", "!r"])) for n in names] + [
        "{%d%s}" % (i, rng.choice(["", "!r"])) for i in range(positional)]
    rng.shuffle(parts)
    message = rng.choice([" and ", "; ", " {{}} ", " \u2192 "]).join(parts)
    base = rng.choice([c for c in CLASSES])
    cls = type(base)("Custom%d" % rng.randrange(1000), (base,), {
        "message": message, "__module__": rng.choice(["app.exc", "app"])})
    ctx.log("class", cls.__name__, base.__name__, message)
    one_class(ctx, rng, cls, needs(message))
    ctx.ev("custom")


def one_class(ctx, rng, cls, need):
    named = sorted(set(a for a, _, _, _ in need if not a.isdigit()))
    n_pos = len(set(a for a, _, _, _ in need if a.isdigit()))
    kw = {}
    for n in named:
        attrs = [at for a, at, _, _ in need if a == n and at]
        kw[n] = Odd(rng.choice(["<odd>", "{odd}", "\u2603"])) if attrs \
            else values(rng)
    extra = rng.random() < .3
    if extra:
        kw["more"] = values(rng)
    args = [values(rng) for _ in range(n_pos)]
    if rng.random() < .2:
        args.append(values(rng))
    items = list(kw.items())
    rng.shuffle(items)
    ctx.log("construct", cls.__name__, args, kw)
    e = ctx.value(attempt(cls, *args, **dict(items)), "construct")
    ctx.ok(type(e) is cls, "%r isn't a %s", e, cls)
    text = judge(ctx, e, cls, False)
    ctx.ok(len(e.args) == len(args) and all(
        x is y for x, y in zip(e.args, args)), "args are %r", e.args)
    ctx.equal(sorted(e.kwargs), sorted(kw), "names of arguments")
    for a, at, conv, field in need:
        v = args[int(a)] if a.isdigit() else kw[a]
        for step in at.split(".")[1:]:
            v = getattr(v, step)
        ctx.ok((repr if conv == "r" else format)(v) in text, "%s isn't in "
               "message %s", field, text)
        ctx.ev("mentions")
    ctx.ev("constructed")
    ctx.sig(cls.__name__, text)
    prefix = "exc." if cls.__module__.endswith(".exc") else ""
    ctx.equal(repr(e), "%s%s(%s)" % (prefix, cls.__name__, ", ".join(
        [repr(x) for x in args] + ["%s=%r" % x for x in items])), "repr")
    # without something it needs
    if named:
        gone = rng.choice(named)
        rest = dict(kw)
        del rest[gone]
        # the first one in the message is the one reported
        got = attempt(cls, *args, **rest)
        ctx.raised(got, exc.KeywordExceptionFormatError, "without %s" % gone)
        ctx.ok(type(got.exc) is exc.KeywordExceptionFormatError, "%r",
               got.exc)
        judge(ctx, got.exc, exc.KeywordExceptionFormatError)
        ctx.equal(got.exc.missing, gone, "missing")
        ctx.equal(got.exc.typename, cls.__name__, "typename")
        ctx.ok(gone in str(got.exc) and cls.__name__ in str(got.exc),
               "message %s", got.exc)
        for k in rest:
            ctx.ok(repr(k) in got.exc.passed, "%s isn't in %s", k,
                   got.exc.passed)
        ctx.ev("missing named")
    if n_pos:
        got = attempt(cls, *args[:n_pos - 1], **kw)
        ctx.raised(got, exc.PositionalExceptionFormatError,
                   "without positional argument")
        judge(ctx, got.exc, exc.PositionalExceptionFormatError)
        ctx.equal(got.exc.typename, cls.__name__, "typename")
        ctx.equal(got.exc.received, repr(tuple(args[:n_pos - 1])),
                  "received")
        ctx.ev("missing positional")


# --- misuses: each returns (function, error class, facts, mentions)

NAMES = ["a", "b_c", "camelCase", "x_y", "attr", "\u00e9t\u00e9", "_u"]


def name(rng):
    return rng.choice(NAMES)


def bad_int(rng):
    """Not convertible to int"""
    return rng.choice(["x", "{0}", "%s", "", None, [], (1, 2), {"a": 1},
                       "\u2603", "1.5", object(), ("{}",)])


def coerce_error(rng):
    n = name(rng)
    p = Property(isa=int)
    cls = new_class(Record, {n: p})
    x = bad_int(rng)
    if x is None:
        x = "y"
    r = cls()
    via = rng.choice([lambda: setattr(r, n, x), lambda: cls(**{n: x}),
                      lambda: cls({n: x})])
    full = "%s.%s" % (cls.__name__, n)
    return via, exc.CoerceError, {"prop": p, "passed": x, "valuetype": "int"}, [
        full, repr(x), "int", "int constructor"]


def coerce_error_func(rng):
    n = name(rng)
    e = rng.choice([ValueError("no {0} way"), KeyError("k"),
                    AttributeError("%s"), exc.ValueCheckError(
                        passed=1, prop=Odd("p"))])

    def fail(x):
        raise e
    p = Property(isa=(int, str), coerce=fail)
    cls = new_class(Record, {n: p})
    x = rng.choice([[], (1,), {"{a}": 1}, 1.5])
    return lambda: cls(**{n: x}), exc.CoerceError, {
        "prop": p, "passed": x, "exc": e, "func": fail,
        "valuetype": "(int, str)"}, [cls.__name__ + "." + n, repr(x), str(e)]


def value_coercion(rng):
    n = name(rng)
    bad = rng.choice(["x", "{0}", [1]])
    p = Property(isa=int, coerce=lambda x: bad)
    cls = new_class(Record, {n: p})
    x = rng.choice(["in", [2], ("{",)])
    r = cls()
    return lambda: setattr(r, n, x), exc.ValueCoercionError, {
        "prop": p, "passed": x, "coerced": bad}, [
            repr(x), repr(bad), cls.__name__ + "." + n]


def value_check(rng):
    n = name(rng)
    p = Property(check=lambda x: False)
    cls = new_class(Record, {n: p})
    x = values(rng)
    return lambda: cls(**{n: x}), exc.ValueCheckError, {
        "prop": p, "passed": x}, [repr(x), cls.__name__ + "." + n]


def required(rng):
    n = name(rng)
    p = Property(required=True)
    cls = new_class(Record, {n: p})
    r = cls(**{n: 1})
    return rng.choice([
        lambda: cls(), lambda: delattr(r, n), lambda: setattr(r, n, None),
        lambda: cls(**{n: None})]), exc.PropertyRequired, {"prop": p}, [
            cls.__name__ + "." + n]


def read_only(rng):
    n = name(rng)
    cls = new_class(Record, {n: ROProperty()})
    r = cls(**{n: 1})
    full = cls.__name__ + "." + n
    return rng.choice([
        lambda: delattr(r, n), lambda: setattr(r, n, values(rng))]), \
        exc.ReadOnlyAttributeError, {"attrname": full}, [full]


def unknown_property(rng):
    n = name(rng)
    bad = "no_such_" + rng.choice(NAMES)
    cls = new_class(Record, {n: Property()})
    return rng.choice([lambda: cls(**{bad: 1}), lambda: cls({bad: 1})]), \
        exc.PropertyNotKnown, {"propname": bad, "recordtype": cls,
                               "typename": cls.__name__}, [
            bad, cls.__name__]


def ambiguous_construction(rng):
    n = name(rng)
    cls = new_class(Record, {n: Property()})
    return lambda: cls({n: 1}, **{n: 2}), exc.AmbiguousConstruction, {}, []


def cast_type(rng):
    bad = rng.choice([int, str, dict, Odd, list])
    return lambda: from_json(bad, {}), exc.CastTypeError, {
        "badtype": bad}, [str(bad)]


def json_record(rng):
    n = name(rng)
    cls = new_class(rng.choice([Record, JsonRecord]), {n: JsonProperty()})
    x = rng.choice([[1], 5, ("a", "{b}"), 1.5, True])
    return lambda: from_json(cls, x), exc.JsonRecordCoerceError, {
        "passed": x, "recordtype": cls}, [repr(x), cls.__name__]


def json_conversion(rng):
    n = name(rng)
    inner = new_class(JsonRecord, {n: JsonProperty(isa=int)})
    cls = new_class(JsonRecord, {
        "items": JsonListProperty(of=inner),
        "one": JsonProperty(isa=inner, json_name="theOne")})
    x = rng.choice(["x", "{0}", "1.5x", [2]])
    i = rng.randrange(3)
    if rng.random() < .5:
        doc = {"items": [{n: 1}] * i + [{n: x}]}
        path = ("items", i)
    else:
        doc = {"theOne": {n: x}}
        path = ("theOne",)
    return lambda: cls(doc), exc.JsonConversionError, {
        "error_fs": FieldSelector(path)}, [FieldSelector(path).path, repr(x)]


def json_collection(rng):
    cls = new_class(JsonRecord, {"a": JsonProperty(isa=int)})
    if rng.random() < .5:
        coll = new_class(JsonRecordList, {"itemtype": cls}, "Jl")
        x = rng.choice([{"a": 1}, 1.5, 5])
    else:
        coll = new_class(JsonRecordDict, {"itemtype": cls}, "Jd")
        x = rng.choice([[1], 1.5, 5])
    return lambda: coll(x), exc.JsonCollectionCoerceError, {
        "passed": x, "colltype": coll}, [repr(x), coll.__name__]


def coll_item(rng):
    coll = new_class(rng.choice([ListCollection, DictCollection]),
                     {"itemtype": int}, "Ints")
    x = bad_int(rng)
    if issubclass(coll, ListCollection):
        lst = coll([1, 2])
        via = rng.choice([
            lambda: coll([1, x]), lambda: lst.append(x),
            lambda: lst.__setitem__(0, x), lambda: lst.insert(0, x),
            lambda: lst.extend([x])])
    else:
        dic = coll({"a": 1})
        via = rng.choice([
            lambda: coll({"k": x}), lambda: dic.__setitem__("k", x),
            lambda: dic.update({"k": x})])
    return via, exc.CollectionItemCoerceError, {
        "passed": x, "itemtype": int, "colltype": coll}, [
            repr(x), "int", coll.__name__]


def coll_coerce(rng):
    coll = new_class(rng.choice([ListCollection, DictCollection]),
                     {"itemtype": str}, "Strs")
    x = rng.choice([5, 1.5, object(), len])
    return lambda: coll(x), exc.CollectionCoerceError, {
        "passed": x, "colltype": coll}, [repr(x), coll.__name__]


def coll_definition(rng):
    which = rng.randrange(4)
    if which == 0:
        coll = new_class(ListCollection, {}, "Untyped")
        return lambda: coll([1]), exc.CollectionDefinitionError, {
            "property": "itemtype"}, ["itemtype"]
    if which == 1:
        coll = new_class(rng.choice([JsonRecordList, JsonRecordDict]), {},
                         "Untyped")
        doc = [] if issubclass(coll, JsonRecordList) else {}
        return lambda: coll(doc), exc.CollectionDefinitionError, {
            "property": "itemtype"}, ["itemtype"]
    if which == 2:
        coll = new_class(Collection, {"itemtype": int, "colltype": list},
                         "Half")
        return lambda: coll([1]), exc.CollectionDefinitionError, {
            "property": "coll_to_tuples"}, ["coll_to_tuples"]
    coll = new_class(Collection, {"itemtype": int}, "Half")
    return lambda: coll.colltype, exc.CollectionDefinitionError, {
        "property": "colltype"}, ["colltype"]


def no_such_attribute(rng):
    inner = new_class(Record, {"known": Property()})
    n = name(rng)
    cls = new_class(Record, {n: Property(isa=inner)})
    bad = "unknown_" + name(rng)
    return lambda: getattr(getattr(cls(), n + "0"), bad), \
        exc.NoSuchAttribute, {"attribute": bad}, [bad, inner.__name__]


def bad_assignment(rng):
    inner = new_class(Record, {"known": Property()})
    n = name(rng)
    cls = new_class(Record, {n: Property(isa=inner)})
    p = getattr(cls(), n + "0")
    return rng.choice([lambda: setattr(p, "known", 1),
                       lambda: p.__setitem__(0, 1)]), \
        exc.BadAssignment, {}, [inner.__name__]


def not_subscriptable(rng):
    inner = new_class(Record, {"known": Property()})
    n = name(rng)
    cls = new_class(Record, {n: Property(isa=inner)})
    p = getattr(cls(), n + "0")
    which = rng.random() < .5
    return (lambda: p[0]) if which else (lambda: p()), \
        exc.NotSubscriptable if which else exc.NotCallable, {}, [
            inner.__name__]


def positional(rng):
    t = rng.choice([Property, ListProperty, SafeProperty, LazyProperty])
    return lambda: t(values(rng)), exc.PositionalArgumentsProhibited, {}, []


def unknown_argument(rng):
    t = rng.choice([Property, SafeProperty, LazyProperty, ROProperty])
    arg = "no_such_arg_%d" % rng.randrange(100)
    x = values(rng)
    return lambda: t(**{arg: x}), exc.PropertyArgumentNotKnown, {
        "badkwarg": arg, "badkwarg_value": x, "proptype": t,
        "proptypename": t.__name__}, [arg, t.__name__]


_n = itertools.count(1)


def ambiguous_argument(rng):
    n = next(_n)
    arg = "ambiguous_arg_%d" % n
    traits = ["c27_%s_%d" % (x, n) for x in "pq"]
    scope = {"Property": Property}
    for t in traits:
        exec("class %s(Property):\n"
             "    __trait__ = %r\n"
             "    def __init__(self, %s=None, **kw):\n"
             "        super(%s, self).__init__(**kw)\n" % (t, t, arg, t),
             scope)
    return lambda: Property(**{arg: 1}), exc.AmbiguousPropertyTraitArg, {
        "trait_arg": arg}, [arg] + traits


def no_args(rng):
    coll = new_class(ListCollection, {"itemtype": int}, "Ints")
    return rng.choice([
        (lambda: ListProperty(), exc.ListOfWhat, {}, []),
        (lambda: DictProperty(), exc.DictOfWhat, {}, []),
        (lambda: LazyProperty(lazy=False), exc.LazyIsFalse, {}, []),
        (lambda: Property(coerce=int), exc.CoerceWithoutType, {}, []),
        (lambda: ListProperty(of=str, isa=coll), exc.CollTypeMismatch, {},
         []),
        (lambda: ListProperty(of=int, coll=DictCollection),
         exc.ListPropertyMustDeriveListCollection,
         {"got": "DictCollection"}, ["DictCollection"]),
        (lambda: DictProperty(of=int, coll=ListCollection),
         exc.DictPropertyMustDeriveDictCollection,
         {"got": "ListCollection"}, ["ListCollection"]),
        (lambda: V1Property(v1_none=[], isa=list), exc.NoneMutable,
         {"passed": []}, ["[]"]),
        (lambda: V1Property(v1_none={}, isa=dict), exc.NoneMutable,
         {"passed": {}}, ["{}"]),
    ])


def signatures(rng):
    n = rng.randint(2, 4)
    scope = {}
    fname = "wants_%d_%d" % (n, rng.randrange(99))
    exec("def %s(%s): pass" % (fname, ", ".join("pqrs"[:n])), scope)
    f = scope[fname]
    f.__module__ = "some.module"
    if rng.random() < .5:
        return lambda: Property(default=f), exc.DefaultSignatureError, {
            "func": f, "nargs": n, "module": "some.module"}, [
                fname, str(n), "some.module"]
    return lambda: Property(compare_as=f), exc.CompareAsSignatureError, {
        "func": f, "nargs": n, "module": "some.module"}, [
            fname, str(n), "some.module"]


def unknown_traits(rng):
    t = "no_such_trait_%d" % rng.randrange(100)
    return lambda: Property(traits=[t, rng.choice(["ro", "lazy"])]), \
        exc.PropertyTypeMixinNotPossible, {}, [repr(t)]


def mixin_failure(rng):
    """Traits whose types can't be combined"""
    made = []
    for side in "ab":
        i = next(_UNIQUE)
        made.append(type(Property)("Slotted%d" % i, (Property,), {
            "__trait__": "slotted_%d" % i, "__slots__": (side,)}))
    traits = [x.__trait__ for x in made]
    rng.shuffle(traits)
    return lambda: Property(traits=traits), exc.PropertyTypeMixinFailure, {}, [
        repr(x) for x in traits] + [x.__name__ for x in made]


def type_clash(rng):
    old = rng.choice([ROProperty, LazyProperty, SafeProperty])
    n = "Clashing%d" % rng.randrange(100)
    return lambda: type(Property)(n, (Property,), {
        "__trait__": old.__trait__}), exc.PropertyTypeClash, {
            "newtype": n, "oldtype": old.__name__}, [n, old.__name__]


def reserved(rng):
    n = rng.choice(["properties", "eager_properties"])
    return lambda: new_class(Record, {n: Property()}), \
        exc.ReservedPropertyName, {"attrname": n}, [n]


def inheritance_clash(rng):
    n = name(rng)
    a = new_class(Record, {n: Property()})
    b = new_class(Record, {n: Property()})
    return lambda: new_class((a, b), {}, "Both"), \
        exc.MultipleInheritanceClash, {}, [n, "Both"]


def bad_primary_key(rng):
    n, bad = name(rng), "missing_" + name(rng)
    return lambda: new_class(Record, {n: Property(), "primary_key": [bad]}), \
        exc.PropertiesNotKnown, {"badprop": repr(bad)}, [repr(bad)]


def diff_options(rng):
    cls = new_class(Record, {"a": Property()})
    x = cls(a=1)
    kw = rng.choice([{"moved": True}, {"moved": False}, {"ignore_ws": False},
                     {"compare_filter": None}, {"unchanged": 0, "recurse": 0}])
    return lambda: rng.choice([list, tuple])(diff_iter(
        x, x, options=DiffOptions(), **kw)), \
        exc.DiffOptionsException, {}, []


def diff_unsupported(rng):
    class Bag(Collection):
        itemtype = int
        colltype = list

        @classmethod
        def coll_to_tuples(cls, coll):
            return ((v, v) for v in coll)

        @classmethod
        def tuples_to_coll(cls, generator, coerce=True):
            return [v for k, v in generator]

        def itertuples(self):
            return ((v, v) for v in self._values)
    cls = new_class(Record, {"a": Property(isa=Bag)})
    return lambda: diff(cls(a=Bag([1])), cls(a=Bag([2]))), \
        exc.CollectionDiffUnsupported, {
            "coll_type": Bag, "item_type": int, "item_type_name": "int"}, [
                "int"]


def identity_crisis(rng):
    cls = new_class(Record, {"a": Property()})
    x = rng.choice([bytearray(b"x{}"), array()])
    return lambda: record_id(x), exc.IdentityCrisis, {
        "val": x, "val_type": type(x), "val_repr": repr(x),
        "val_type_name": type(x).__name__}, [repr(x), type(x).__name__]


def array():
    class Unhashable(object):
        __hash__ = None

        def __repr__(self):
            return "<{unhashable} %s>"
    return Unhashable()


def key_hash(rng):
    n = name(rng)
    cls = new_class(Record, {n: Property(isa=(list, dict))})
    x = cls(**{n: rng.choice([[1], {"a": 1}])})
    return lambda: hash(x), exc.KeyHashError, {
        "typename": cls.__name__}, [cls.__name__, n]


def selector_errors(rng):
    n = name(rng)
    cls = new_class(Record, {"inner": Property(), n: Property(), "xs":
                             ListProperty(of=int)})
    r = cls(xs=[1, 2])
    bad = rng.choice([n, "undeclared_" + n])
    i = rng.choice([2, 5, -3])
    return rng.choice([
        (lambda: FieldSelector([bad]).get(r),
         exc.FieldSelectorAttributeError, {"name": bad}, [bad]),
        (lambda: FieldSelector([bad, "x"]).put(r, 1),
         exc.FieldSelectorAttributeError, {"name": bad}, [bad]),
        (lambda: FieldSelector(["xs", i]).get(r),
         exc.FieldSelectorKeyError, {"key": i}, [str(i)]),
        (lambda: FieldSelector(["xs", i]).put(r, 1),
         exc.FieldSelectorKeyError, {"key": i}, [str(i)]),
        (lambda: FieldSelector(["xs", i]).delete(r),
         exc.FieldSelectorKeyError, {"key": i}, [str(i)]),
        (lambda: FieldSelector(["inner", "deep"]).post(r, 1),
         exc.FieldSelectorAutoVivifyError,
         {"prop": cls.properties["inner"]}, []),
        (lambda: MultiFieldSelector(["xs", 5]).delete(r),
         exc.FieldSelectorKeyError, {"key": 5}, ["5"]),
    ])


def subtype_errors(rng):
    n = "Sub%d" % rng.randrange(1000)
    bad = rng.choice([5, "int", None, (int, str), ["{0}"]])
    x = rng.choice(["x", -1, "{0}", [2]])
    plain = subtype(n, int, where=lambda i: i > 0)
    back = rng.choice([-5, "{y}", None])
    conv = subtype(n, int, where=lambda i: i > 0, coerce=lambda x: back)
    return rng.choice([
        (lambda: subtype(n, bad, where=len), exc.SubtypeOfWhat, {"of": bad},
         [str(bad)]),
        (lambda: plain(x), exc.SubtypeNoCoerceFunc, {
            "passed": x, "subtype": plain, "subtype_of": int},
            [repr(x), n, "int"]),
        (lambda: conv(x), exc.SubtypeCoerceError, {
            "passed": x, "coerced": back, "subtype": conv,
            "subtype_of": int}, [repr(x), repr(back), n])])


def visitor_errors(rng):
    n = name(rng)
    e = rng.choice([ValueError("broken {0}"), RuntimeError("%s")])

    def fail():
        raise e
    p = LazyProperty(default=fail)
    cls = new_class(Record, {n: p, "other": Property()})
    coll = new_class(ListCollection, {"itemtype": cls}, "Visited")
    x = rng.choice([5, "text {0}", 1.5])
    return rng.choice([
        (lambda: VisitorPattern.visit(cls()), exc.VisitorPropError, {
            "exception": e, "prop": p, "prop_name": n,
            "record_type_name": cls.__name__}, [n, cls.__name__, str(e)]),
        (lambda: VisitorPattern.cast(cls, x), exc.VisitorGrokRecordError, {
            "val": repr(x), "record_type": cls,
            "record_type_name": cls.__name__}, [repr(x), cls.__name__]),
        (lambda: VisitorPattern.cast(coll, 7),
         exc.VisitorGrokCollectionError, {
            "val": "7", "record_type": coll,
            "record_type_name": coll.__name__}, ["7", coll.__name__]),
        (lambda: VisitorPattern.visit(5.5, coll), exc.VisitorUnpackError, {
            "passed": 5.5, "colltype": "list"}, ["5.5", "list"]),
    ])


def visitor_too_simple(rng):
    cls = new_class(ListCollection, {
        "itemtype": int, "values": Property()}, "Clash")
    x = cls([1, 2])
    x.values = 5
    return lambda: VisitorPattern.visit(x), exc.VisitorTooSimple, {
        "value_type_name": cls.__name__}, [cls.__name__]


def not_unique(rng):
    a = type("SameName%d" % next(_UNIQUE), (object,), {
        "__module__": "verif_dyn"})
    b = type(a.__name__, (object,), {"__module__": "verif_dyn"})
    list_of(a)
    return lambda: list_of(b), exc.PropertyNotUnique, {}, [a.__name__]


MISUSES = [coerce_error, coerce_error_func, value_coercion, value_check,
           required, read_only, unknown_property, ambiguous_construction,
           cast_type, json_record, json_conversion, json_collection,
           coll_item, coll_coerce, coll_definition, no_such_attribute,
           bad_assignment, not_subscriptable, positional, unknown_argument,
           ambiguous_argument, no_args, no_args, signatures, unknown_traits,
           mixin_failure, type_clash, reserved, inheritance_clash,
           bad_primary_key,
           diff_options, diff_unsupported, identity_crisis, key_hash,
           selector_errors, selector_errors, subtype_errors, subtype_errors,
           visitor_errors, visitor_errors, visitor_too_simple, not_unique]


def same_fact(a, b):
    return a is b or type(a) is type(b) and (a == b or repr(a) == repr(b))


def misuses(ctx, rng):
    for how in rng.sample(MISUSES, 4):
        fn, cls, facts, mentions = how(rng)
        ctx.log("misuse", how.__name__, cls.__name__, facts)
        got = attempt(fn)
        ctx.ok(not got.ok, "%s was accepted (%r), instead of %s", how.
               __name__, got.value, cls.__name__)
        ctx.ok(type(got.exc) is cls, "%s raised %r, not %s", how.__name__,
               got.exc, cls.__name__)
        text = judge(ctx, got.exc, cls)
        for k, v in facts.items():
            ctx.ok(same_fact(getattr(got.exc, k), v), "%s: %s is %r, not %r",
                   cls.__name__, k, getattr(got.exc, k), v)
            ctx.ev("facts")
        for m in mentions:
            ctx.ok(m in text, "%s: %s isn't mentioned by %s", cls.__name__,
                   m, text)
            ctx.ev("mentions")
        ctx.ev("misuses")
        ctx.sig(how.__name__, re.sub(r"\d+", "0", text))


def raw(ctx, rng):
    """Errors of the language's own protocols"""
    n = name(rng)
    cls = new_class(rng.choice([Record, JsonRecord]), {
        n: Property(isa=int), "xs": ListProperty(of=int),
        "d": DictProperty(of=int)})
    r = cls(xs=[1], d={"a": 1})
    for fn, types in [
            (lambda: getattr(r, n), AttributeError),
            (lambda: r.undeclared, AttributeError),
            (lambda: delattr(r, n), AttributeError),
            (lambda: r.xs[4], IndexError), (lambda: r.d["zz"], KeyError),
            (lambda: r.xs.remove(9), ValueError),
            (lambda: r.xs.index(9), ValueError),
            (lambda: r.xs.pop(7), IndexError),
            (lambda: r.d.pop("zz"), KeyError),
            (lambda: FieldSelector([1.5]), ValueError),
            (lambda: FieldSelector(["a"]).add_index("x"), ValueError),
            (lambda: FieldSelector(["a"]).add_property(1), ValueError),
            (lambda: FieldSelector(["a"]) + 1.5, TypeError),
            (lambda: FieldSelector(["a"]) < FieldSelector([0]), TypeError),
            (lambda: VisitorPattern.visit(5), TypeError)]:
        got = attempt(fn)
        ctx.raised(got, types, "misuse")
        ctx.ok(str(got.exc) is not None and repr(got.exc), "text")
        ctx.ev("raw")


SCENARIOS = [("construct", construct, 12000, 400000),
             ("custom", custom, 2000, 60000),
             ("misuses", misuses, 8000, 300000),
             ("raw", raw, 300, 8000)]
