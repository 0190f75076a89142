"""C08: a record class has exactly its own and inherited attributes.

Random class hierarchies are declared step by step, next to a model of which
attribute each class should have; every class declared so far is re-observed
(attribute table and the behaviour of fresh instances) after each declaration,
including the rejected ones.
"""
import random

import normalize.exc as exc
from checks import c07
from mon.core import attempt, Violation
from mon.recmodel import new_class
from normalize import JsonRecord, Property, Record, to_json
from normalize.coll import DictCollection, ListCollection
from normalize.property import (
    LazyProperty, LazySafeProperty, ROLazyProperty, ROProperty, SafeProperty)
from normalize.property.coll import ListProperty
from normalize.property.json import JsonProperty

RULE = (
    "a case declares 3-9 classes one after the other (chains, multiple bases, "
    "plain mix-ins, collections with attributes, overrides, primary keys by "
    "name or object; sometimes with a clash, a reserved name or a bad primary "
    "key) and after each declaration re-observes every class against the "
    "model: attribute table, class and instance reads, writes, deletions, "
    "JSON names, identity; a second scenario compares the full behaviour "
    "signature of an attribute in the declaring class and in subclasses; "
    "non-trivial: at least one class inherits an attribute, distinct by "
    "hierarchy")
ASSUMPTIONS = [
    "overriding an attribute with something which isn't an attribute is not "
    "judged", "primary keys are declared per class"]
NEED = {"classes": 1500, "inherited_observed": 6000, "overrides": 300,
        "clashes": 100, "reserved": 60, "diamonds": 50, "bad_pk": 80, "good_pk": 200,
        "signatures_compared": 150, "rejected_then_observed": 300}


class PlainMixin(object):
    extra_class_value = 17

    def helper(self):
        return "helped"


class OtherMixin(object):
    def other_helper(self):
        return "other"


class P(object):
    """A declared attribute as the model sees it"""
    def __init__(self, rng, n):
        self.n = n
        self.kind = rng.choice([
            "default", "default", "unset", "typed", "checked", "ro", "lazy",
            "required", "extraneous", "json", "list", "func", "safe",
            "rolazy", "lazysafe"])
        kind = self.kind
        self.calls = []
        if kind == "default":
            self.prop = Property(default=n)
        elif kind == "unset":
            self.prop = Property()
        elif kind == "typed":
            self.prop = Property(isa=int, coerce=lambda x: int(x[1:]) + n,
                                 default=n)
        elif kind == "checked":
            self.prop = Property(check=lambda x: x != "bad", default=n)
        elif kind == "ro":
            self.prop = ROProperty(default=n)
        elif kind == "lazy":
            self.prop = LazyProperty(default=lambda: self.call())
        elif kind == "rolazy":
            self.prop = ROLazyProperty(default=lambda: self.call())
        elif kind == "lazysafe":
            self.prop = LazySafeProperty(
                isa=int, default=lambda: self.call())
        elif kind == "required":
            self.prop = Property(required=True, isa=int)
        elif kind == "extraneous":
            self.prop = Property(extraneous=True, default=n)
        elif kind == "json":
            self.prop = JsonProperty(json_name="j%d" % n, default=n)
        elif kind == "list":
            self.prop = ListProperty(of=int, default=lambda: [n])
        elif kind == "func":
            self.prop = Property(default=lambda: self.call())
        elif kind == "safe":
            self.prop = SafeProperty(isa=int, default=n)

    def call(self):
        self.calls.append(1)
        return self.n

    def __repr__(self):
        return "%s#%d" % (self.kind, self.n)


class C(object):
    def __init__(self, cls, attrs, own, pk, kind):
        self.cls = cls
        self.attrs = attrs      # name -> P
        self.own = own
        self.pk = pk            # tuple of names
        self.kind = kind        # rec / json / list / dict


def observe(ctx, c, what):
    cls = c.cls
    props = cls.properties
    names = set(k for k in props)
    if issubclass(cls, JsonRecord):
        ctx.ok("unknown_json_keys" in names, "%s: %s lost an attribute",
               what, cls.__name__)
        names.discard("unknown_json_keys")
    ctx.equal(names, set(c.attrs), "%s: attribute names of %s" % (
        what, cls.__name__))
    for name, p in c.attrs.items():
        ctx.ok(props[name] is p.prop, "%s: %s.properties[%r] isn't %s",
               what, cls.__name__, name, p)
        ctx.ok(getattr(cls, name) is p.prop,
               "%s: %s.%s isn't the declared attribute %s", what,
               cls.__name__, name, p)
        ctx.equal(p.prop.name, name, "%s: name of attribute" % what)
        if name not in c.own:
            ctx.ev("inherited_observed")
    required = {n: p for n, p in c.attrs.items() if p.kind == "required"}
    needed = {n: p.n for n, p in required.items()}
    for n in needed:
        kw = dict(needed)
        del kw[n]
        got = attempt(cls, **kw)
        ctx.raised(got, exc.PropertyRequired, "%s: %s(%s) without required "
                   "%s" % (what, cls.__name__, kw, n))
    for p in c.attrs.values():
        del p.calls[:]
    got = attempt(cls, **needed)
    x = ctx.value(got, "%s: %s(%s)" % (what, cls.__name__, needed))
    for name, p in c.attrs.items():
        w = "%s: %s().%s (%s)" % (what, cls.__name__, name, p)
        if p.kind == "func":
            ctx.equal(len(p.calls), 1, w + ": default calls")
        elif p.kind in ("lazy", "rolazy", "lazysafe"):
            ctx.equal(len(p.calls), 0, w + ": default calls")
        got = attempt(getattr, x, name)
        if p.kind == "unset":
            ctx.raised(got, AttributeError, w)
        elif p.kind == "list":
            v = ctx.value(got, w)
            ctx.ok(isinstance(v, ListCollection) and list(v) == [p.n],
                   "%s is %r", w, v)
        else:
            ctx.same(ctx.value(got, w), p.n, w)
        ctx.equal(attempt(getattr, x, name + "0").exc, None, w + " accessor")
    if c.kind in ("rec", "json"):
        data = ctx.value(attempt(to_json, x, False), "%s: JSON of %s" % (
            what, cls.__name__))
        want = {}
        for name, p in c.attrs.items():
            if p.kind == "extraneous" or p.kind == "unset":
                continue
            want["j%d" % p.n if p.kind == "json" else name] = (
                [p.n] if p.kind == "list" else p.n)
        ctx.equal(data, want, "%s: JSON of %s" % (what, cls.__name__))
    for name, p in c.attrs.items():
        w = "%s: %s.%s (%s)" % (what, cls.__name__, name, p)
        before = dict(x.__dict__)
        if p.kind in ("ro", "rolazy"):
            ctx.raised(attempt(setattr, x, name, 3),
                       exc.ReadOnlyAttributeError, w + " assignment")
            ctx.raised(attempt(delattr, x, name),
                       exc.ReadOnlyAttributeError, w + " deletion")
            ctx.equal(x.__dict__, before, w)
            continue
        if p.kind in ("typed", "required", "safe", "lazysafe"):
            ctx.raised(attempt(setattr, x, name, "n"), exc.CoercionError,
                       w + " bad assignment")
            ctx.equal(x.__dict__, before, w)
        if p.kind == "checked":
            ctx.raised(attempt(setattr, x, name, "bad"),
                       exc.ValueCheckError, w + " bad assignment")
            ctx.equal(x.__dict__, before, w)
        good, want = (["7"], [7]) if p.kind == "list" else (
            "n7", 7 + p.n) if p.kind == "typed" else (7, 7)
        ctx.value(attempt(setattr, x, name, good), w + " assignment")
        got = ctx.value(attempt(getattr, x, name), w + " after assignment")
        ctx.ok((list(got) if p.kind == "list" else got) == want,
               "%s: assigned %r and read %r", w, good, got)
        after = dict(x.__dict__)
        after.pop(name, None)
        before.pop(name, None)
        ctx.equal(after, before, w + ": other attributes on assignment")
        if p.kind == "required":
            ctx.raised(attempt(delattr, x, name), exc.PropertyRequired,
                       w + " deletion")
        else:
            ctx.value(attempt(delattr, x, name), w + " deletion")
            if p.kind in ("lazy", "lazysafe"):
                ctx.same(x.__dict__.get(name), None, w + " after deletion")
            else:
                # an unset attribute reads as its null value, or not at all
                ctx.ok(name not in x.__dict__, "%s is still set", w)
    if c.kind in ("rec", "json"):
        a, b = cls(**needed), cls(**needed)
        ctx.ok(a == b, "%s: equal instances of %s differ", what, cls.__name__)
        if not any(p.kind == "list" for p in c.attrs.values()):
            ctx.value(attempt(hash, a), "%s: hash of %s" % (
                what, cls.__name__))
        for name, p in c.attrs.items():
            if p.kind in ("ro", "rolazy"):
                b = attempt(cls, **dict(needed, **{name: 8})).value
            else:
                b = cls(**needed)
                setattr(b, name, {"list": [8], "typed": "n8"}.get(p.kind, 8))
            ctx.equal(a == b, p.kind == "extraneous",
                      "%s: equality of two %s which differ in %s (%s)" % (
                          what, cls.__name__, name, p))
            if c.pk:
                ctx.equal(a.__pk__ == b.__pk__, name not in c.pk,
                          "%s: identity of two %s (key %s) which differ in "
                          "%s" % (what, cls.__name__, c.pk, name))
            elif not c.keyed_parent:
                ctx.equal(a.__pk__ == b.__pk__, p.kind == "extraneous",
                          "%s: identity of two %s which differ in %s" % (
                              what, cls.__name__, name))
    bad = attempt(cls, **dict(needed, not_declared=1))
    ctx.raised(bad, exc.PropertyNotKnown, "%s: %s(not_declared=1)" % (
        what, cls.__name__))
    # attributes known to other classes only are not known to this one
    return x


def hierarchy(ctx, rng):
    ordinal = [0]
    classes = []
    used_names = "abcdefg"
    desc = []
    interesting = False
    for step in range(rng.randrange(3, 10)):
        parents = []
        r = rng.random()
        if classes and r < .8:
            parents = [rng.choice(classes)]
            if rng.random() < .6:
                for _ in range(rng.randrange(1, 3)):
                    q = rng.choice(classes)
                    if q not in parents and not any(
                            issubclass(q.cls, z.cls) or
                            issubclass(z.cls, q.cls) for z in parents):
                        parents.append(q)
        kinds = set(q.kind for q in parents) - {"rec"}
        if len(kinds) > 1:
            parents = parents[:1]
            kinds = set(q.kind for q in parents) - {"rec"}
        bases = [q.cls for q in parents]
        attrs = {}
        if parents:
            kind = kinds.pop() if kinds else "rec"
        else:
            kind = rng.choice(["rec", "rec", "rec", "json", "list", "dict"])
            bases = [{"rec": Record, "json": JsonRecord,
                      "list": ListCollection, "dict": DictCollection}[kind]]
            if kind in ("list", "dict"):
                attrs["itemtype"] = int
        # collections and JSON records have to come first, for their
        # constructors (this is not about the method resolution order)
        bases.sort(key=lambda b: not issubclass(
            b, (JsonRecord, ListCollection, DictCollection)))
        parents.sort(key=lambda q: q.kind == "rec")
        if rng.random() < .2:
            bases.insert(rng.randrange(len(bases) + 1), rng.choice(
                [PlainMixin, OtherMixin]))
            if bases.index(bases[0]) == 0 and bases[0] in (
                    PlainMixin, OtherMixin) and kind != "rec":
                pass
        offered = {}
        clash = same = False
        for q in parents:
            for name, p in q.attrs.items():
                if name in offered:
                    if offered[name] is p:
                        same = True
                    else:
                        clash = True
                offered[name] = p
        own = {}
        for name in rng.sample(used_names, rng.choice([0, 0, 1, 1, 2, 2, 3])):
            if name in offered and rng.random() < .4:
                continue
            if (parents and len(parents) > 1 and clash and
                    rng.random() < .5):
                pass
            ordinal[0] += 1
            own[name] = P(rng, 100 + ordinal[0])
        want = dict(offered)
        want.update(own)
        items = [(n, p.prop) for n, p in own.items()]
        rng.shuffle(items)
        attrs.update(items)
        text = "class %d(%s): %s" % (
            step, ", ".join(b.__name__ for b in bases), own)
        # primary key
        pk = ()
        badpk = reserved = False
        # not of extraneous or unhashable attributes
        able = [n for n in sorted(want) if want[n].kind not in (
            "extraneous", "list", "unset")]
        r = rng.random()
        if able and r < .35:
            pk = tuple(rng.sample(able, rng.choice([1, 1, min(2, len(able))])))
            decl = [want[n].prop if rng.random() < .4 else n for n in pk]
            r2 = rng.random()
            if r2 < .35:
                foreign = [q.attrs[n].prop for q in classes for n in q.attrs
                           if q.attrs[n].prop not in [
                               w.prop for w in want.values()]]
                foreign += [q.prop for n, q in offered.items()
                            if want[n] is not q]
                absent = [n for n in used_names if n not in want]
                bad = rng.choice(
                    foreign[-3:] + [Property()] + absent[:2] +
                    ["nosuch", "", 5, None, PlainMixin, "properties"])
                decl.insert(rng.randrange(len(decl) + 1), bad)
                badpk = True
            attrs["primary_key"] = rng.choice([tuple, list])(decl)
            text += " primary_key=%s" % (attrs["primary_key"],)
        if rng.random() < .06:
            reserved = True
            attrs[rng.choice(["properties", "eager_properties"])] = rng.choice(
                [Property(), {}, None, 5])
            text += " reserved"
        ctx.log(text)
        desc.append(text)
        # shuffle the order of the class body
        body = list(attrs.items())
        rng.shuffle(body)
        got = attempt(new_class, tuple(bases), dict(body), "H")
        allowed = []
        if clash:
            allowed.append(exc.MultipleInheritanceClash)
        if reserved:
            allowed.append(exc.ReservedPropertyName)
        if badpk:
            allowed.append(exc.PropertiesNotKnown)
        if allowed:
            ctx.raised(got, tuple(allowed), text)
            ctx.ev("clashes", clash)
            ctx.ev("reserved", reserved)
            ctx.ev("bad_pk", badpk)
            ctx.ev("rejected_then_observed", len(classes))
        elif isinstance(got.exc, TypeError) and not isinstance(
                got.exc, exc.StringFormatException):
            ctx.ev("python_rejected")       # inconsistent MRO
        else:
            cls = ctx.value(got, text)
            c = C(cls, want, own, pk, kind)
            c.keyed_parent = any(q.pk or q.keyed_parent for q in parents)
            classes.append(c)
            ctx.ev("classes")
            ctx.ev("good_pk", bool(pk))
            ctx.ev("diamonds", same)
            ctx.ev("overrides", sum(n in offered for n in own))
            interesting = interesting or bool(set(offered) - set(own))
            if any(b is PlainMixin for b in bases):
                x = observe(ctx, c, "new class")
                ctx.equal(x.helper(), "helped", "mix-in method")
        watch = classes if len(classes) < 5 else rng.sample(classes, 3) + [
            classes[-1]]
        for c in watch:
            observe(ctx, c, "after " + text)
    if interesting:
        ctx.sig(*desc)


def inherit(ctx, rng):
    """Every behaviour of an attribute is the same in subclasses"""
    s = c07.spec_for(rng)
    s["user"] = "-"
    seed = rng.random()
    got = attempt(c07.declare, s, random.Random(seed))
    if not got.ok:
        return
    prop, text = got.value
    base = JsonRecord if s["jsonbase"] else Record
    got = attempt(type(base), "C07Rec", (base,), {
        "attr": prop, "other": Property(isa=int), "__module__": "verif_dyn"})
    if not got.ok:
        return
    parent = got.value
    ctx.log("attr =", text)
    first = []
    c07.class_signature(parent, prop, s, first, accessors=False)
    body = {"__module__": "verif_dyn"}
    bases = (parent,)
    if rng.random() < .3:
        body["another"] = Property()
    if rng.random() < .3:
        body["other"] = Property(isa=int)
    if rng.random() < .3:
        mix = type(Record)("SideRec", (Record,), {
            "side": Property(isa=int), "__module__": "verif_dyn"})
        bases = (parent, mix)
    if rng.random() < .2:
        bases += (PlainMixin,)
    child = ctx.value(attempt(type(base), "C07Rec", bases, body),
                      "subclass of the class with %s" % text)
    if rng.random() < .4:
        child = ctx.value(attempt(type(base), "C07Rec", (child,), {
            "__module__": "verif_dyn"}), "subclass of subclass")
    what = "inherited attribute %s" % text
    second = []
    c07.class_signature(child, prop, s, second, accessors=False)
    c07.compare(ctx, first, "parent", second, "subclass", what)
    again = []
    c07.class_signature(parent, prop, s, again, accessors=False)
    c07.compare(ctx, first, "parent before", again, "parent after", what)
    # a sibling overriding the attribute changes neither
    attempt(type(base), "C07Rec", (parent,), {
        "attr": Property(default=99), "__module__": "verif_dyn"})
    again = []
    c07.class_signature(parent, prop, s, again, accessors=False)
    c07.compare(ctx, first, "parent before", again,
                "parent after overriding in a subclass", what)
    second = []
    c07.class_signature(child, prop, s, second, accessors=False)
    c07.compare(ctx, first, "parent", second, "subclass after override in "
                "a sibling", what)
    ctx.ev("signatures_compared")
    ctx.sig(text, str(sorted(body)), str(len(bases)))


SCENARIOS = [("hierarchy", hierarchy, 3000, 60000),
             ("inherit", inherit, 250, 8000)]
