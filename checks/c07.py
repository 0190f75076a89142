"""C07: what a declaration means depends on its options only.

The behaviour of a declared attribute is recorded as a *signature*: the
outcomes of a fixed battery of uses (construct, read, assign, delete, JSON,
compare, empty access, with counted callbacks).  The signature has to be the
same for every spelling of a declaration, in a process where hundreds of other
declarations came first, and in a fresh process ("zygote") where it is the
first; and it has to show the traits asked for.
"""
import itertools
import json
import os
import random

import normalize.exc as exc
import normalize.property as nprop
from mon.core import attempt, Violation, safe_repr, short
from normalize import (
    DiffOptions, JsonRecord, Property, Record, from_json, to_json,
)
from normalize.coll import ListCollection, DictCollection
from normalize.property import (
    LazyProperty, LazySafeProperty, ROLazyProperty, ROProperty, SafeProperty,
    V1Property, DiffasProperty, make_property_type,
)
from normalize.property.coll import (
    CollectionProperty, DictProperty, ListProperty,
)
from normalize.property.json import (
    JsonDictProperty, JsonListProperty, JsonProperty, SafeJsonProperty,
)
import normalize.property.types as ntypes

RULE = (
    "a case draws a set of options/traits, declares it in 4 random spellings "
    "(keyword order, trait by name / by distinguishing argument / by "
    "dedicated class) after 0-3 unrelated random declarations, and compares "
    "the recorded behaviour signatures with each other and with that from a "
    "freshly forked process; rejected declarations are a second scenario; "
    "non-trivial: at least two options, distinct by option set and spellings")
ASSUMPTIONS = [
    "user-defined property types have names, traits and arguments of their "
    "own",
]
NEED = {"signatures": 3000, "fresh_signatures": 800, "rejected": 400,
        "user_types": 150, "order_pairs": 200, "derived": 400,
        "ambiguous": 30, "containers": 500}


class Sub(Record):
    n = Property(isa=int)


def spec_for(rng):
    s = {}
    p = rng.random
    s["coll"] = rng.choice([None] * 5 + ["list", "dict"])
    if s["coll"] is None:
        s["isa"] = rng.choice([None, None, "int", "intstr", "sub", "str"])
        s["coerce"] = s["isa"] is not None and p() < .3
    else:
        s["isa"] = None
        s["coerce"] = False
    s["check"] = p() < .2
    s["required"] = p() < .2
    s["extraneous"] = p() < .15
    s["default"] = rng.choice(
        ["-", "-", "five", "zero", "none", "empty", "tuple", "func",
         "method"])
    s["doc"] = p() < .1
    s["lazy"] = p() < .25
    s["ro"] = p() < .25
    s["unsafe"] = p() < .1
    s["safe"] = not s["unsafe"] and p() < .1
    s["json"] = rng.choice(
        ["-", "-", "-", "plain", "name", "null", "inout", "nameinout"])
    s["v1"] = rng.choice(["-"] * 7 + ["None", "zero"])
    s["diffas"] = rng.choice(["-"] * 5 + ["len", "noarg"])
    s["user"] = rng.choice(["-"] * 8 + ["checked", "jsonout", "typed", "init"])
    s["jsonbase"] = p() < .5
    s["empty_attr"] = p() < .05
    return s


_ut = itertools.count(1)


def user_type(kind):
    """-> (property type, options of an equivalent Property() or None)"""
    n = next(_ut)
    if kind == "checked":
        return make_property_type("UChecked%d" % n, check=chk)
    if kind == "jsonout":
        return make_property_type("UJson%d" % n, json_out=jout, json_in=jin)
    if kind == "typed":
        return make_property_type(
            "UTyped%d" % n, isa=int, coerce=conv,
            trait_name=random.choice("aijklrsuvz") + "trait_%d" % n)
    raise AssertionError


class Calls(list):
    pass


CALLS = Calls()


def chk(value):
    CALLS.append("check")
    return value != 13


def conv(value):
    CALLS.append("coerce")
    return int(str(value).replace("n", "")) + 1000


def convstr(value):
    CALLS.append("coerce")
    return "s%r" % (value,)


def convsub(value):
    CALLS.append("coerce")
    return Sub(n=len(value))


def jin(value):
    CALLS.append("json_in")
    return value["in"] if isinstance(value, dict) and "in" in value else value


def jout(value):
    CALLS.append("json_out")
    return {"in": repr(value)[:20]}


def fdefault():
    CALLS.append("default")
    return 5


def fdefault_list():
    CALLS.append("default")
    return [5]


def mdefault(self):
    CALLS.append("default-method-%s" % sorted(self.__dict__))
    return 6


def mdefault_list(self):
    CALLS.append("default-method")
    return [6]


def cmp_len(value):
    CALLS.append("compare_as")
    return len(repr(value))


class AmbigError(Exception):
    pass


def plain_options(s):
    """The keyword arguments, apart from those which select traits"""
    kw = {}
    coll = s["coll"]
    if s["isa"]:
        kw["isa"] = {"int": int, "intstr": (int, str), "sub": Sub,
                     "str": str}[s["isa"]]
    if s["coerce"]:
        kw["coerce"] = {"int": conv, "intstr": convstr, "sub": convsub,
                        "str": convstr}[s["isa"]]
    if s["check"] and s["user"] != "checked":
        kw["check"] = chk
    if s["required"]:
        kw["required"] = True
    if s["extraneous"]:
        kw["extraneous"] = True
    if s["doc"]:
        kw["doc"] = "documented"
    if s["empty_attr"]:
        kw["empty_attr"] = "maybe"
    d = s["default"]
    if d != "-":
        if coll == "list":
            kw["default"] = {
                "five": [5], "zero": [], "none": None, "empty": [],
                "tuple": (), "func": fdefault_list,
                "method": mdefault_list}[d]
        elif coll == "dict":
            kw["default"] = {
                "five": {"a": 5}, "zero": {}, "none": None, "empty": {},
                "tuple": None, "func": fdefault_list,
                "method": mdefault_list}[d]
        else:
            kw["default"] = {
                "five": 5, "zero": 0, "none": None, "empty": "",
                "tuple": (), "func": fdefault, "method": mdefault}[d]
    jk = s["json"]
    if jk in ("name", "nameinout"):
        kw["json_name"] = "jName"
    if jk == "null":
        kw["json_name"] = None
    if jk in ("inout", "nameinout"):
        kw["json_in"] = jin
        kw["json_out"] = jout
    if s["v1"] != "-":
        kw["v1_none"] = {"None": None, "zero": 0}[s["v1"]]
    if s["diffas"] != "-":
        kw["compare_as"] = cmp_len
    return kw


def declare(s, rng):
    """-> a Property, in a random spelling"""
    kw = plain_options(s)
    traits = []
    coll = s["coll"]
    jk = s["json"]
    # candidate classes, and which traits each provides
    options = [(Property, ())]
    if coll == "list":
        options = [(ListProperty, ("list",)), (Property, ())]
        if jk != "-":
            options.append((JsonListProperty, ("list", "json")))
    elif coll == "dict":
        options = [(DictProperty, ("dict",)), (Property, ())]
        if jk != "-":
            options.append((JsonDictProperty, ("dict", "json")))
    if s["lazy"]:
        options.append((LazyProperty, ("lazy",)))
    if s["ro"]:
        options.append((ROProperty, ("ro",)))
    if s["lazy"] and s["ro"]:
        options.append((ROLazyProperty, ("lazy", "ro")))
    if s["safe"]:
        options.append((SafeProperty, ("safe",)))
        if s["lazy"]:
            options.append((LazySafeProperty, ("safe", "lazy")))
        if jk != "-":
            options.append((SafeJsonProperty, ("safe", "json")))
    if jk != "-":
        options.append((JsonProperty, ("json",)))
    if s["v1"] != "-" and not s["unsafe"]:
        options.append((V1Property, ("v1",)))
    if s["diffas"] != "-":
        options.append((DiffasProperty, ("diffas",)))
    cls, provided = rng.choice(options)
    user = s["user"]
    if user in ("checked", "jsonout", "typed"):
        user_ok = {
            "checked": not s["check"],
            "jsonout": jk == "-",
            "typed": s["isa"] is None and coll is None,
        }[user]
        if user_ok:
            cls, provided = user_type(user), ()
            if coll:
                # the type's own default isa/coerce can't apply
                pass
    if coll == "list":
        if "list" in provided:
            kw[rng.choice(["of", "list_of"])] = int
        else:
            kw["list_of"] = int
            if rng.random() < .3:
                traits.append("list")
    elif coll == "dict":
        if "dict" in provided:
            kw[rng.choice(["of", "dict_of"])] = int
        else:
            kw["dict_of"] = int
    if s["lazy"]:
        how = rng.randrange(3)
        if "lazy" not in provided or how == 2:
            if how != 1:
                traits.append("lazy")
            if how != 0:
                kw["lazy"] = True
    if s["ro"] and ("ro" not in provided or rng.random() < .2):
        traits.append("ro")
    if s["safe"] and ("safe" not in provided or rng.random() < .2):
        traits.append("safe")
    if s["unsafe"]:
        traits.append("unsafe")
    if jk == "plain" and "json" not in provided:
        traits.append("json")
    elif jk != "-" and rng.random() < .2:
        traits.append("json")
    if s["v1"] != "-" and rng.random() < .2:
        traits.append("v1")
    if s["diffas"] != "-" and rng.random() < .2:
        traits.append("diffas")
    if traits:
        rng.shuffle(traits)
        kw["traits"] = rng.choice([list, tuple, set])(traits)
    items = list(kw.items())
    rng.shuffle(items)
    text = "%s(%s)" % (cls.__name__, ", ".join(
        "%s=%s" % (k, getattr(v, "__name__", None) or (
            sorted(v) if k == "traits" else v)) for k, v in items))
    return cls(**dict(items)), text


def clean(v):
    if isinstance(v, (ListCollection, DictCollection)):
        return "%s:%s" % (type(v).__name__, [
            (str(k), x) for k, x in v.itertuples()])
    return "%s:%r" % (type(v).__name__, v)


def outcome(fn, *a, **kw):
    del CALLS[:]
    try:
        v = fn(*a, **kw)
        r = clean(v)
    except Exception as e:
        r = "!" + type(e).__name__
        if not isinstance(e, (exc.Error if hasattr(exc, "Error") else
                              Exception)):
            r += "?"
    return "%s %s" % (r, ",".join(CALLS))


VALUES = [5, "7", None, "x", [1, "2"], {"n": 3}, {"a": "4"}, 13, Sub(n=1), 2.5]


def signature(prop, s):
    """Records what the attribute does; -> list of strings"""
    out = []
    base = JsonRecord if s["jsonbase"] else Record
    made = []

    def mk():
        made.append(type(base)("C07Rec", (base,), {
            "attr": prop, "other": Property(isa=int),
            "__module__": "verif_dyn"}))
    out.append("declare " + outcome(mk))
    if made:
        class_signature(made[0], prop, s, out)
    return out


def class_signature(cls, prop, s, out, accessors=True):
    """Records what attribute "attr" of cls does"""
    add = out.append
    base = JsonRecord if issubclass(cls, JsonRecord) else Record
    add("class-read %s" % (cls.attr is prop))
    add("doc %r" % (prop.__doc__ == "documented",))
    if accessors:
        add("accessors %s" % sorted(
            k for k in vars(cls) if k.endswith("0") or k == "maybe"))
    instances = []

    def construct(**kw):
        if base is JsonRecord:
            x = cls(**kw)
        else:
            x = cls(**kw)
        instances.append(x)
        return sorted(x.__dict__)

    for i, kw in enumerate([{}] + [{"attr": v} for v in VALUES]):
        n = len(instances)
        add("new %d %s" % (i, outcome(construct, **kw)))
        if len(instances) == n:
            continue
        x = instances[-1]
        if i in (0, 1):
            add("repr %s" % outcome(repr, x))
            add("acc %s" % outcome(getattr, x, "maybe" if s["empty_attr"]
                                   else "attr0"))
        add("read %s" % outcome(getattr, x, "attr"))
        add("again %s" % outcome(getattr, x, "attr"))
        if i in (0, 1, 5, 9):
            for j, v in enumerate(VALUES):
                add("set %d %s %s" % (j, outcome(setattr, x, "attr", v),
                                      outcome(getattr, x, "attr")))
        add("json %s" % outcome(to_json, x))
        if base is JsonRecord:
            add("json+ %s" % outcome(lambda: x.json_data(extraneous=True)))
        add("del %s %s" % (outcome(delattr, x, "attr"),
                           outcome(getattr, x, "attr")))
        add("redel %s" % (outcome(delattr, x, "attr")))
        add("json %s" % outcome(to_json, x))
    for key in ("attr", "jName"):
        for v in (5, {"in": 9}, [1], None):
            add("from_json %s %s" % (key, outcome(
                lambda: sorted(from_json(cls, {key: v}).__dict__.items()))))
    pairs = []
    for v, w in ((5, "7"), (5, 6), ([1], [2]), ({"a": 1}, {"b": 1})):
        a, b = attempt(cls, attr=v), attempt(cls, attr=w)
        if a.ok and b.ok:
            add("eq %s" % outcome(lambda: a.value == b.value))
            add("diff %s" % outcome(lambda: sorted(
                "%s %s %s" % (d.diff_type, d.base.path, d.other.path)
                for d in a.value.diff_iter(b.value))))
            add("diff+ %s" % outcome(lambda: sorted(
                "%s %s %s" % (d.diff_type, d.base.path, d.other.path)
                for d in a.value.diff_iter(b.value, extraneous=True))))
    return out


def full(s, seed):
    """declare + signature, from a spec"""
    rng = random.Random(seed)
    try:
        prop, text = declare(s, rng)
    except Exception as e:
        return ["declaration !" + type(e).__name__], "rejected"
    return signature(prop, s), text


# -- fresh processes

_zygote = []


def zygote():
    """A process forked before this one made any declaration, which forks a
    child per request to compute a signature as a process' first"""
    if _zygote:
        return _zygote[0]
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    if os.fork() == 0:
        try:
            os.close(w1)
            os.close(r2)
            fin = os.fdopen(r1, "r")
            for line in fin:
                s, seed = json.loads(line)
                pid = os.fork()
                if pid == 0:
                    try:
                        data = json.dumps(full(s, seed)).encode() + b"\n"
                    except BaseException as e:
                        data = json.dumps([["zygote " + repr(e)], ""]
                                          ).encode() + b"\n"
                    while data:
                        n = os.write(w2, data)
                        data = data[n:]
                    os._exit(0)
                os.waitpid(pid, 0)
        finally:
            os._exit(0)
    os.close(r1)
    os.close(w2)
    _zygote.append((os.fdopen(w1, "w"), os.fdopen(r2, "r")))
    return _zygote[0]


def fresh(s, seed):
    w, r = zygote()
    w.write(json.dumps([s, seed]) + "\n")
    w.flush()
    line = r.readline()
    if not line:
        raise RuntimeError("zygote died")
    sig, text = json.loads(line)
    return sig, text


def compare(ctx, a, ta, b, tb, what):
    ctx.ok(len(a) == len(b) and a == b, "%s: %s and %s behave differently: %s",
           what, ta, tb, [
               (short(x, 200), short(y, 200))
               for x, y in itertools.zip_longest(a, b, fillvalue="-")
               if x != y][:3])


def expectations(ctx, s, sig, text):
    """The traits asked for show in the behaviour"""
    def lines(*starts):
        return [x for x in sig if x.startswith(starts)]
    if sig[0].startswith("declaration !"):
        return
    if s["ro"]:
        for x in lines("set ", "del ", "redel "):
            ctx.ok("!ReadOnlyAttributeError" in x,
                   "%s should be read-only, but: %s", text, x)
    if s["lazy"] and s["default"] in ("func", "method"):
        for x in lines("new 0"):
            ctx.ok("default" not in x or "default-" not in x and
                   not x.rstrip().endswith("default"),
                   "%s is lazy, but: %s", text, x)
    if s["default"] == "func" and not s["lazy"]:
        for x in lines("new 0"):
            ctx.ok(x.split(" ")[-1].split(",").count("default") == 1,
                   "%s: default should be called once, but: %s", text, x)
    if s["json"] == "name" and not s["jsonbase"]:
        ctx.ok(any("jName" in x for x in lines("json ")) or
               not any("'attr'" in x for x in lines("json ")),
               "%s: JSON name not used: %s", text, lines("json "))
    if s["json"] in ("name", "nameinout", "null"):
        for x in lines("json "):
            ctx.ok("'attr'" not in x or x.startswith("json !"),
                   "%s: JSON output under the attribute's name: %s", text, x)
    if s["coll"] and not s["unsafe"] and not s["ro"]:
        good = [x for x in lines("set 4") if "!" not in x.split(" ")[2]]
        for x in good:
            if s["check"] or s["user"] == "checked":
                continue
            ctx.ok(("List:" if s["coll"] == "list" else "Map:") in x or
                   "Record" in x,
                   "%s: assigned list isn't a collection: %s", text, x)


def noise(ctx, rng):
    """Unrelated declarations, including of new property types"""
    for _ in range(rng.randrange(0, 4)):
        r = rng.random()
        if r < .7:
            attempt(declare, spec_for(rng), rng)
        elif r < .85:
            t = user_type(rng.choice(["checked", "jsonout", "typed"]))
            attempt(t)
            ctx.ev("user_types")
        else:
            n = next(_ut)
            ns = {}
            arg = "uarg_%d" % n

            class Custom(Property):
                __trait__ = rng.choice("abjlrsvz") + "custom_%d" % n
            del ns, arg
            attempt(lambda: Custom(traits=rng.choice([["ro"], ["lazy"]])))
            ctx.ev("user_types")


def spellings(ctx, rng):
    zygote()
    s = spec_for(rng)
    sigs = []
    for k in range(4):
        noise(ctx, rng)
        seed = rng.getrandbits(48)
        sig, text = full(s, seed)
        ctx.log("spelling", text, "->", str(len(sig)), "observations")
        ctx.ev("signatures")
        sigs.append((sig, text))
        if sig[0].startswith("declaration !"):
            ctx.ev("rejected_signatures")
            name = sig[0].split("!")[1]
            ctx.ok(isinstance(getattr(exc, name, None), type) and
                   name not in ("KeyError",),
                   "declaration %s rejected with %s, not a library error",
                   s, name)
    for sig, text in sigs[1:]:
        compare(ctx, sigs[0][0], sigs[0][1], sig, text,
                "two spellings of one declaration")
    fsig, ftext = fresh(s, rng.getrandbits(48))
    ctx.ev("fresh_signatures")
    compare(ctx, sigs[0][0], sigs[0][1], fsig, ftext + " (fresh process)",
            "declared after others and in a fresh process")
    for sig, text in sigs[:1]:
        expectations(ctx, s, sig, text)
    n = sum(1 for k, v in s.items() if v not in (None, False, "-"))
    if n >= 2 and not sigs[0][0][0].startswith("declaration !"):
        ctx.sig(json.dumps(s, sort_keys=True), *[t for _, t in sigs])


def derived(ctx, rng):
    """A made property type means its defaults plus what it's given"""
    s = spec_for(rng)
    s["user"] = "-"
    kw = plain_options(s)
    if s["coll"]:
        kw["list_of" if s["coll"] == "list" else "dict_of"] = int
    if s["lazy"]:
        kw["lazy"] = True
    traits = [t for t in ("ro", "unsafe", "safe") if s[t]]
    if s["json"] == "plain":
        traits.append("json")
    plain = dict(kw)
    if traits:
        plain["traits"] = traits
    want = attempt(lambda: Property(**plain))
    defaults, extras = {}, {}
    keys = list(kw)
    rng.shuffle(keys)
    for k in keys:
        (defaults if rng.random() < .6 else extras)[k] = kw[k]
    overridden = []
    for k, other in (("default", 99), ("required", False),
                     ("json_name", "other"), ("check", None),
                     ("extraneous", False), ("doc", "other")):
        if k in extras and rng.random() < .4:
            defaults[k] = other
            overridden.append(k)
    base = Property
    where = rng.random()
    if traits:
        byclass = {("ro",): ROProperty, ("safe",): SafeProperty,
                   ("json",): JsonProperty}.get(tuple(traits))
        if byclass and where < .5:
            base = byclass
        elif where < .7 and "unsafe" not in traits:
            defaults["traits"] = traits
        else:
            extras["traits"] = traits
    n = next(_ut)
    kind = rng.choice([None, rng.choice("abjlrsvz") + "derived%d" % n])
    if rng.random() < .3 and len(defaults) > 1:
        half = sorted(defaults)
        rng.shuffle(half)
        first = half[:len(half) // 2]
        # what selects a trait, or depends on another argument
        base = make_property_type(
            "Base%d" % n, base_type=base,
            **dict((k, defaults.pop(k)) for k in first))
    attrs = rng.choice([None, None, {}, {"unit": n, "told": lambda self: (
        self.unit, self.name)}])
    given = attrs and dict(attrs)
    if attrs is not None and rng.random() < .3:
        # (given to another type before)
        make_property_type("Other%d" % n, attrs=attrs)
        ctx.equal(attrs, given or {}, "attrs= after make_property_type")
    got_t = attempt(lambda: make_property_type(
        "Made%d" % n, base_type=base, trait_name=kind, attrs=attrs,
        **defaults))
    ctx.log("derived", "base", base.__name__, "defaults", sorted(defaults),
            "extras", sorted(extras), "overriding", overridden)
    t = ctx.value(got_t, "make_property_type")
    ctx.equal(attrs, given or attrs, "attrs= after make_property_type")
    ctx.ok(not attrs or t.unit == n, "attribute of the new type: %r",
           getattr(t, "unit", None))
    ctx.equal(t.__name__, "Made%d" % n, "name of the new type")
    if kind:
        ctx.equal(t.__trait__, kind, "trait of the new type")
    if rng.random() < .4:
        # requested by name
        more = extras.pop("traits", [])
        extras["traits"] = rng.choice([list, tuple, set])(
            [t.__trait__] + list(more))
        got = attempt(lambda: Property(**extras))
        ctx.ev("by name")
    else:
        got = attempt(lambda: t(**extras))
    ctx.ev("user_types")
    ctx.ev("derived")
    if want.exc is not None:
        ctx.ok(got.exc is not None and type(got.exc) is type(want.exc),
               "%s given %s: %r; the same as a Property(): %r", defaults,
               extras, got, want)
        return
    ctx.ok(got.ok, "%s given %s: %r", defaults, extras, got)
    if attrs:
        told = ctx.value(attempt(got.value.told), "method of a made type")
        ctx.equal(told, (n, got.value.name), "what the method returned")
        ctx.ev("with attributes")
    compare(ctx, signature(want.value, s), "Property(%s)" % sorted(plain),
            signature(got.value, s), "made type with %s and %s" % (
                sorted(defaults), sorted(extras)), "made property type")
    ctx.sig("derived", json.dumps(s, sort_keys=True), sorted(defaults))


def order(ctx, rng):
    """Two declarations in both orders, each order in a fresh process"""
    zygote()
    s1, s2 = spec_for(rng), spec_for(rng)
    seed1, seed2 = rng.getrandbits(48), rng.getrandbits(48)
    a, ta = full(s1, seed1)
    b, tb = full(s2, seed2)
    ctx.log("order", ta, "then", tb)
    f2, _ = fresh(s2, seed2)
    f1, _ = fresh(s1, seed1)
    compare(ctx, a, ta, f1, ta + " (alone)", "in company and alone")
    compare(ctx, b, tb, f2, tb + " (alone)", "in company and alone")
    ctx.ev("order_pairs")
    ctx.sig("order", ta, tb)


def two_args(a, b):
    pass


def self_two(self, a):
    pass


BAD = [
    ("positional", lambda p: Property(int),
     lambda: exc.PositionalArgumentsProhibited),
    ("unknown argument", lambda p: Property(**{"zz_%d" % p: 1}),
     lambda: exc.PropertyArgumentNotKnown),
    ("unknown argument of class", lambda p: ROProperty(zz=1),
     lambda: exc.PropertyArgumentNotKnown),
    ("unknown trait", lambda p: Property(traits=["zz_%d" % p]),
     lambda: exc.PropertyTypeMixinNotPossible),
    ("unknown trait of class",
     lambda p: LazyProperty(traits=["zz_%d" % p, "ro"]),
     lambda: exc.PropertyTypeMixinNotPossible),
    ("safe and unsafe", lambda p: Property(traits=["safe", "unsafe"]),
     lambda: exc.PropertyTypeMixinNotPossible),
    ("lazy=False", lambda p: LazyProperty(lazy=False, default=fdefault),
     lambda: exc.LazyIsFalse),
    ("lazy=False by argument", lambda p: Property(lazy=False),
     lambda: exc.LazyIsFalse),
    ("coerce without type", lambda p: Property(coerce=int),
     lambda: exc.CoerceWithoutType),
    ("coerce without type (ro)", lambda p: ROProperty(coerce=conv),
     lambda: exc.CoerceWithoutType),
    ("default signature", lambda p: Property(default=two_args),
     lambda: exc.DefaultSignatureError),
    ("default signature (self)", lambda p: Property(default=self_two),
     lambda: exc.DefaultSignatureError),
    ("default signature (lazy)", lambda p: LazyProperty(default=two_args),
     lambda: exc.DefaultSignatureError),
    ("compare_as signature", lambda p: Property(compare_as=two_args),
     lambda: exc.CompareAsSignatureError),
    ("list of nothing", lambda p: ListProperty(), lambda: exc.ListOfWhat),
    ("dict of nothing", lambda p: DictProperty(), lambda: exc.DictOfWhat),
    ("list in a dict", lambda p: ListProperty(of=int, coll=DictCollection),
     lambda: exc.ListPropertyMustDeriveListCollection),
    ("dict in a list", lambda p: DictProperty(of=int, coll=ListCollection),
     lambda: exc.DictPropertyMustDeriveDictCollection),
    ("collection of nothing", lambda p: CollectionProperty(of=int),
     lambda: exc.CollRequiredError),
    ("mutable null", lambda p: Property(v1_none=[]),
     lambda: exc.NoneMutable),
    ("mutable null (class)", lambda p: V1Property(v1_none={}),
     lambda: exc.NoneMutable),
    ("collection type mismatch",
     lambda p: CollectionProperty(isa=LIST_T, coll=DictCollection),
     lambda: exc.CollTypeMismatch),
    ("other items than those of the list type",
     lambda p: ListProperty(of=str, isa=LIST_T),
     lambda: exc.CollTypeMismatch),
    ("wider items than those of the list type",
     lambda p: ListProperty(of=object, isa=LIST_T),
     lambda: exc.CollTypeMismatch),
]


class _H(Record):
    l = ListProperty(of=int)


LIST_T = _H.properties["l"].valuetype


def rejected(ctx, rng):
    noise(ctx, rng)
    name, fn, want = rng.choice(BAD)
    ctx.log("bad declaration:", name)
    got = attempt(fn, rng.randrange(10 ** 6))
    ctx.raised(got, want(), name)
    text = ctx.value(attempt(str, got.exc), "str()")
    ctx.ok(text and text != exc.StringFormatException.message,
           "an error which says nothing: %r", text)
    ctx.ev("rejected")
    # it leaves no trace: a good declaration still works
    s = spec_for(rng)
    sig, text = full(s, 7)
    if not sig[0].startswith("declaration !"):
        ctx.ok(sig[0].startswith("declare NoneType:None"),
               "after a rejected declaration (%s), %s: %s", name, text,
               sig[0])
    ctx.sig("rejected", name, text)


def user_args(ctx, rng):
    """A distinguishing argument of a user-defined type selects it; two types
    claiming one argument are ambiguous"""
    n = next(_ut)
    letter = rng.choice("abjlrsvz")

    def make(traitname, arg):
        ns = {}
        exec("def __init__(self, %s%s=None, **kw):\n"
             "    self.seen = %s\n"
             "    super(holder[0], self).__init__(**kw)\n" % (
                 rng.choice(["", "*, "]), arg, arg),
             {"holder": (holder := [])}, ns)
        t = type(Property)("User_" + traitname, (Property,), {
            "__init__": ns["__init__"], "__trait__": traitname})
        holder.append(t)
        return t
    arg = "uarg%d" % n
    t1 = make("%sone%d" % (letter, n), arg)
    extra = rng.choice([{}, {"isa": int}, {"json_name": "J"},
                        {"lazy": True, "default": fdefault},
                        {"traits": ["ro"]}, {"compare_as": cmp_len}])
    kw = list(dict(extra, **{arg: 42}).items())
    rng.shuffle(kw)
    ctx.log("user argument", arg, "with", extra)
    p = ctx.value(attempt(lambda: Property(**dict(kw))), "Property(%s)" % kw)
    ctx.ok(isinstance(p, t1) and getattr(p, "seen", None) == 42,
           "Property(%s) isn't a %s: %r", kw, t1.__name__, type(p).__mro__)
    ctx.ok(not ("json_name" in extra) or isinstance(p, JsonProperty),
           "json trait lost")
    ctx.ok("lazy" not in extra or isinstance(p, LazyProperty), "lazy lost")
    ctx.ok("compare_as" not in extra or p.compare_as is cmp_len, "diffas")
    cls = type(Record)("U", (Record,), {"x": p, "__module__": "verif_dyn"})
    got = attempt(cls, x=3)
    ctx.ok(got.ok and got.value.x == 3, "record with user type %r", got)
    got2 = attempt(setattr, got.value, "x", 4)
    if extra.get("traits"):
        ctx.raised(got2, exc.ReadOnlyAttributeError, "read-only user type")
    else:
        ctx.ok(got2.ok and got.value.x == 4, "assignment: %r", got2)
    if rng.random() < .5:
        t2 = make("%stwo%d" % (letter, n), arg)
        got = attempt(lambda: Property(**dict(kw)))
        ctx.raised(got, exc.AmbiguousPropertyTraitArg, "ambiguous %s" % arg)
        p2 = ctx.value(attempt(lambda: t2(**{arg: 1})), "the type itself")
        ctx.ok(isinstance(p2, t2) and p2.seen == 1, "the type itself")
        ctx.ev("ambiguous")
    ctx.ev("user_types")
    ctx.sig("user", letter, sorted(extra), arg)


class Other(object):
    """Not a built-in type"""
    def __init__(self, n=0):
        self.n = n


def containers(ctx, rng):
    """The container and item types asked for are those which are used"""
    kinds = {}
    decls = []
    n = next(_ut)
    stems = ["%s%d" % (s, n) for s in rng.sample(
        ["Things", "Bag", "MyList", "L"], 2)]
    for i in range(rng.randrange(2, 6)):
        base, prop, jprop = rng.choice([
            (ListCollection, ListProperty, JsonListProperty),
            (DictCollection, DictProperty, JsonDictProperty)])
        same = [c for c in kinds.values() if issubclass(c, base)]
        r = rng.random()
        if r < .25:
            coll = base
        elif r < .5 and same:
            coll = rng.choice(same)
        else:
            serial = len(kinds)
            coll = kinds[serial] = type(base)(rng.choice(stems), (base,), {
                "__module__": rng.choice(["verif_dyn", "elsewhere"]),
                "serial": serial, "note": Property(isa=str)})
        of = rng.choice([int, str, Other])
        decls.append((coll, of, base, prop))
    ctx.log("declarations", decls)
    seen = {}
    for coll, of, base, prop in decls:
        kw = [("of", of)] + ([] if coll is base and rng.random() < .5 else
                             [("coll", coll)])
        extra = dict(rng.choice([{}, {}, {"traits": ["ro"]}, {"doc": "x"},
                                 {"required": True}]))
        how = rng.randrange(3)
        if how == 0:
            fn = prop
        elif how == 1:
            fn = Property
            extra["traits"] = extra.get("traits", []) + [
                "list" if base is ListCollection else "dict"]
        else:
            fn = CollectionProperty
            kw = [("of", of), ("coll", coll)]
        kw += list(extra.items())
        rng.shuffle(kw)
        got = attempt(lambda: fn(**dict(kw)))
        clash = any(k[0].__name__ == coll.__name__ and k[0] is not coll and
                    k[1] is of for k in seen)
        if not got.ok and clash:
            ctx.raised(got, exc.PropertyNotUnique, "another %s" %
                       coll.__name__)
            ctx.ev("not unique")
            continue
        t = ctx.value(got, "%s(%s)" % (fn.__name__, kw)).valuetype
        ctx.ok(issubclass(t, coll) and t.itemtype is of and
               getattr(t, "serial", None) == getattr(coll, "serial", None),
               "%s(%s) is of %s which extends %s, of %s", fn.__name__, kw, t,
               t.__mro__, t.itemtype)
        want = seen.setdefault((coll, of), t)
        ctx.ok(t is want, "%s(%s) is of another type than before: %s and %s",
               fn.__name__, kw, t, want)
        cls = type(Record)("H", (Record,), {
            "x": got.value, "__module__": "verif_dyn"})
        item = {int: 5, str: "y"}.get(of) or Other(3)
        raw = [item] if base is ListCollection else {"k": item}
        x = ctx.value(attempt(lambda: cls(x=raw)), "construct").x
        ctx.ok(type(x) is t and list(dict(x.itertuples()).values()) == [item],
               "%r as the value of %s(%s) became %r", raw, fn.__name__, kw,
               x)
        again = ctx.value(attempt(lambda: CollectionProperty(
            isa=t, **dict(rng.sample([("of", of), ("coll", coll)],
                                     rng.randrange(3))))), "the same type")
        ctx.ok(again.valuetype is t and again.of is of, "%s, given itself",
               t)
        if coll is not base:
            y = t(values=raw, note="n")
            ctx.ok(cls(x=y).x is y and y.note == "n", "own attribute of %r",
                   y)
        ctx.ev("containers")
    ctx.sig("containers", decls)


SCENARIOS = [("containers", containers, 300, 3000), ("spellings", spellings, 1200, 30000),
             ("order", order, 450, 15000),
             ("derived", derived, 1000, 20000),
             ("rejected", rejected, 700, 6000),
             ("user_args", user_args, 200, 3000)]
