"""C30: overridden visitor hooks, and reflection."""
from mon.core import attempt
from mon.recmodel import new_class
from mon.shapes import snapshot
from normalize import JsonRecord, Property, Record
from normalize.coll import Collection, DictCollection, ListCollection
from normalize.coll import dict_of, list_of
from normalize.property.coll import DictProperty, ListProperty
from normalize.selector import FieldSelector, MultiFieldSelector
from normalize.visitor import Visitor, VisitorPattern

RULE = (
    "a case declares a tree of related record classes (nested records, typed "
    "lists and dicts, unions with records, untyped, extraneous and unset "
    "attributes, instances of subclasses, collections with attributes) and a "
    "visitor pattern whose hooks for visiting, casting or reflecting are "
    "overridden with recorders which build tagged structures; the calls made "
    "of the hooks (value, declared type, path, visitor class) and the "
    "structure finally returned are compared with a walk of the declared "
    "types by the monitor; non-trivial: distinct structures")
ASSUMPTIONS = [
    "no cycles", "at most one record type of a union matches a value, save "
    "where the hooks refuse the others",
    "reflection is not restricted by filters within collections (its path "
    "has the item type there)"]
NEED = {"hooked": 1200, "nodes": 6000, "leaves": 9000, "hook calls": 20000,
        "subclassed": 200, "opaque": 150, "stopped": 150, "own visitor": 300,
        "partial": 100, "mirrored": 400, "unions": 300, "refused": 150,
        "plain data": 250, "cast hooks": 350, "reflected": 900,
        "reflected records": 2500, "reflect hooks": 250, "reflect filter":
        100, "not reflected": 200, "altered": 500}

UNSET = "(unset)"


# -- declarations ----------------------------------------------------------

class Slot(object):
    """A declared attribute.  ``kind``: leaf, any, node, union"""
    def __init__(self, kind, types=(), node=None, extraneous=False):
        self.kind, self.types, self.node = kind, types, node
        self.extraneous = extraneous


class Node(object):
    """A record or collection class"""
    def __init__(self, cls, attrs, items=None, item=None):
        self.cls, self.attrs = cls, attrs
        self.items, self.item = items, item     # "list"/"dict"; Node or type
        self.sub = None


LEAVES = [int, str, float, bool]
VALUES = {int: [0, 1, 2, -7], str: ["", "x", "yz"], float: [.5, 1.5],
          bool: [True, False]}


def declare(rng, depth=3, own=.0, unions=.25, base=None, extraneous=.15):
    """-> Node"""
    attrs, decl = {}, {}
    names = rng.sample(["a", "b", "c", "d", "e", "name", "kids"],
                       rng.randint(1, 4))
    base = base or rng.choice([Record, Record, JsonRecord])
    for n in names:
        kw = {}
        if rng.random() < extraneous:
            kw["extraneous"] = True
        extra = bool(kw)
        p = rng.random()
        if depth > 0 and p < .3:
            node = declare(rng, depth - 1, own, unions, base, extraneous)
            attrs[n] = Slot("node", node=node, extraneous=extra)
            decl[n] = Property(isa=node.cls, **kw)
        elif depth > 0 and p < .55:
            coll, prop = collection(rng, depth - 1, own, unions, base,
                                    extraneous, kw)
            attrs[n] = Slot("node", node=coll, extraneous=extra)
            decl[n] = prop
        elif depth > 0 and p < .55 + unions * .6:
            node = declare(rng, depth - 1, own, unions, base, extraneous)
            types = rng.sample([int, str], rng.randint(1, 2))
            types.insert(rng.randint(0, len(types)), node.cls)
            attrs[n] = Slot("union", tuple(types), node, extra)
            decl[n] = Property(isa=tuple(types), **kw)
        elif p < .8:
            t = rng.choice(LEAVES)
            attrs[n] = Slot("leaf", (t,), extraneous=extra)
            decl[n] = Property(isa=t, **kw)
        elif p < .9:
            attrs[n] = Slot("leaf", (int, str), extraneous=extra)
            decl[n] = Property(isa=(int, str), **kw)
        else:
            attrs[n] = Slot("any", extraneous=extra)
            decl[n] = Property(**kw)
    node = Node(new_class(base, decl, "Node"), attrs)
    if rng.random() < .3:
        node.sub = new_class(node.cls, {
            "more": Property(isa=int)}, "SubNode")
    return node


def collection(rng, depth, own, unions, base, extraneous, kw):
    kind = rng.choice(["list", "list", "dict"])
    if rng.random() < .65:
        item = declare(rng, depth - 1, own, unions, base, extraneous)
        t = item.cls
    elif rng.random() < .2:
        item, _ = collection(rng, 0, 0, unions, base, extraneous, {})
        t = item.cls
    else:
        item = t = rng.choice(LEAVES)
    if rng.random() < own:
        attrs = {"label": Slot("leaf", (str,)), "size": Slot("leaf", (int,))}
        cls = new_class(
            ListCollection if kind == "list" else DictCollection,
            {"itemtype": t, "label": Property(isa=str),
             "size": Property(isa=int)}, "Coll")
        return Node(cls, attrs, kind, item), Property(isa=cls, **kw)
    if rng.random() < .5:
        prop = (ListProperty if kind == "list" else DictProperty)(of=t, **kw)
        cls = prop.valuetype
    else:
        cls = (list_of if kind == "list" else dict_of)(t)
        prop = Property(isa=cls, **kw)
    return Node(cls, {}, kind, item), prop


def instance(rng, node, subs=True, p_set=.85):
    """-> record of a Node"""
    cls = node.cls
    if node.sub and subs and rng.random() < .4:
        cls = node.sub
    kw = {}
    for n, slot in node.attrs.items():
        if rng.random() > p_set:
            continue
        kw[n] = slot_value(rng, slot, subs, p_set)
    if cls is node.sub:
        kw["more"] = 5
    if node.items:
        values = [item_value(rng, node.item, subs, p_set)
                  for _ in range(rng.randint(0, 3))]
        if node.items == "dict":
            values = dict(zip(rng.sample("klmn", 4), values))
        kw["values"] = values
    return cls(**kw)


def item_value(rng, item, subs, p_set):
    if isinstance(item, Node):
        return instance(rng, item, subs, p_set)
    return rng.choice(VALUES[item])


def slot_value(rng, slot, subs, p_set):
    if slot.kind == "node" or slot.kind == "union" and rng.random() < .6:
        return instance(rng, slot.node, subs, p_set)
    if slot.kind == "any":
        if rng.random() < .3:
            return new_class(Record, {"q": Property(isa=int)}, "Any")(q=1)
        return rng.choice([1, "x", (1, 2), [1], 2.5])
    t = rng.choice([t for t in slot.types if t in VALUES])
    return rng.choice(VALUES[t])


def said(node, seen=None):
    """Text of the declarations, for logs"""
    out = []
    for n, s in sorted(node.attrs.items()):
        out.append("%s%s: %s" % (n, "*" if s.extraneous else "", {
            "node": lambda: said(s.node), "any": lambda: "any",
            "leaf": lambda: "|".join(t.__name__ for t in s.types),
            "union": lambda: "|".join(t.__name__ for t in s.types) + "=" +
            said(s.node)}[s.kind]()))
    text = "{%s}" % ", ".join(out)
    if node.items:
        item = said(node.item) if isinstance(node.item, Node) else \
            node.item.__name__
        text = "%s of %s%s" % (node.items, item, text if out else "")
    return "%s%s" % (node.cls.__name__, text)


# -- the walk --------------------------------------------------------------

class Model(object):
    """What a visit with tagging hooks calls and returns"""
    def __init__(self, kw, f=None, opaque=None, stop=None, stopped=None,
                 first=False, alter=None):
        self.alter = alter or unaltered
        self.ignore_none = kw.get("ignore_none", True)
        self.ignore_empty = kw.get("ignore_empty_string", False)
        self.extraneous = kw.get("extraneous", False)
        self.empty = kw.get("apply_empty_slots", False)
        self.f = f              # path -> selected
        self.opaque, self.stop, self.stopped = opaque, stop, stopped
        self.first = first
        self.calls = []

    def selected(self, path):
        return self.f is None or self.f(path)

    def leaf(self, value, name, path):
        self.calls.append(("apply", show(value), name, path))
        return self.alter("apply", path, ("leaf", show(value), name, path))

    def dropped(self, x):
        return x is None and self.ignore_none or \
            type(x) is str and x == "" and self.ignore_empty

    def node(self, value, cls, path):
        """``cls``: the declared type"""
        self.calls.append(("unpack", show(value), cls, path))
        if cls is self.stop:
            return self.stopped
        if cls is self.opaque or not issubclass(cls, Record):
            return self.leaf(value, None, path)
        coll = None
        if issubclass(cls, Collection):
            have = value.__dict__["_values"]
            coll = []
            for k, v in (have.items() if isinstance(have, dict)
                         else enumerate(have)):
                if not self.selected(path + (k,)):
                    continue
                x = self.node(v, cls.itemtype, path + (k,))
                if not self.dropped(x):
                    coll.append((k, x))
            self.calls.append(("aggregate", cls, path))
            coll = ("items", cls, path, sorted(coll, key=repr))
        attrs = {}
        for n, prop in cls.properties.items():
            at = path + (n,)
            if prop.extraneous and not self.extraneous or \
                    not self.selected(at):
                continue
            v = getattr(value, n, UNSET)
            if v is UNSET:
                if not self.empty:
                    continue
                x = self.leaf(UNSET, n, at)
            else:
                x = self.slot(v, prop, at)
            if not self.dropped(x):
                attrs[n] = x
        self.calls.append(("reduce", cls, path))
        return self.alter("reduce", path, ("node", cls, path, attrs, coll))

    def slot(self, v, prop, path):
        t = prop.valuetype or type(v)
        if isinstance(t, tuple):
            records = [x for x in t if issubclass(x, Record) and
                       isinstance(v, x)]
            if not records:
                return self.leaf(v, prop.name, path)
            t = records[0]
        if issubclass(t, Record):
            return self.node(v, t, path)
        return self.leaf(v, prop.name, path)


def unaltered(hook, path, x):
    return x


def altering(rng):
    """Hooks which sometimes return nothing, or what's false"""
    given = {}

    def alter(hook, path, x):
        at = hook, repr(path)
        if at not in given:
            given[at] = rng.random() < .4, rng.choice(
                [None, None, "", "", 0, False, (), 0.0])
        changed, value = given[at]
        return value if changed else x
    return alter


def show(v):
    if v is UNSET or isinstance(v, (AttributeError, KeyError)):
        return UNSET
    return id(v) if isinstance(v, Record) else (type(v).__name__, repr(v))


class Own(Visitor):
    """A visitor class with context of its own"""
    def __init__(self, *a, **kw):
        self.tag = kw.pop("tag", None)
        super(Own, self).__init__(*a, **kw)

    def copy(self):
        twin = super(Own, self).copy()
        twin.tag = self.tag
        return twin


class Tagging(object):
    """A pattern whose hooks record their calls and tag what they return"""
    def __init__(self, ctx, rng, opaque=None, how=None, stop=None,
                 stopped=None, own=False, first=False, kw={},
                 alter=unaltered):
        calls = self.calls = []
        tag = self.tag = object()

        def check(visitor):
            ctx.ok(type(visitor) is (Own if own else Visitor),
                   "the hook is passed %r", visitor)
            if own:
                ctx.ok(visitor.tag is tag, "context of the visitor: %r, not "
                       "%r", visitor.tag, tag)
            for k, v in kw.items():
                if k != "visit_filter":
                    ctx.ok(getattr(visitor, k) is v, "option %s is %r", k,
                           getattr(visitor, k))
            fs = visitor.field_selector
            ctx.ok(isinstance(fs, FieldSelector), "field_selector %r", fs)
            return tuple(fs)

        class Pattern(VisitorPattern):
            @classmethod
            def unpack(cls, value, value_type, visitor):
                path = check(visitor)
                calls.append(("unpack", show(value), value_type, path))
                if value_type is stop:
                    return (cls.StopVisiting if stopped is None
                            else cls.StopVisiting(stopped))
                if value_type is opaque:
                    return how
                props, items = super(Pattern, cls).unpack(
                    value, value_type, visitor)
                if items is None and rng.random() < .5:
                    return props
                return props, items

            @classmethod
            def apply(cls, value, prop, visitor):
                path = check(visitor)
                name = prop and prop.name
                if prop is not None:
                    ctx.ok(path and path[-1] == name, "apply called for %s "
                           "at %s", name, path)
                calls.append(("apply", show(value), name, path))
                return alter("apply", path,
                             ("leaf", show(value), name, path))

            @classmethod
            def aggregate(cls, mapped, coll_type, visitor):
                items = sorted(list(mapped), key=repr)
                path = check(visitor)
                calls.append(("aggregate", coll_type, path))
                return ("items", coll_type, path, items)

            @classmethod
            def reduce(cls, mapped, aggregated, value_type, visitor):
                path = check(visitor)
                attrs = {}
                for prop, x in mapped or ():
                    ctx.ok(prop is value_type.properties[prop.name],
                           "mapped attribute %r isn't of %s", prop,
                           value_type)
                    ctx.ok(prop.name not in attrs, "%s twice", prop.name)
                    attrs[prop.name] = x
                    if first:
                        break
                ctx.equal(check(visitor), path, "path after the attributes")
                calls.append(("reduce", value_type, path))
                return alter("reduce", path, (
                    "node", value_type, path, attrs, aggregated))
        if own:
            Pattern.Visitor = Own
        self.pattern = Pattern


def options(rng):
    kw = {}
    if rng.random() < .3:
        kw["extraneous"] = rng.random() < .8
    if rng.random() < .3:
        kw["apply_empty_slots"] = True
    if rng.random() < .4:
        kw["ignore_none"] = rng.random() < .3
    if rng.random() < .3:
        kw["ignore_empty_string"] = rng.random() < .7
    return kw


def nodes_of(node, out=None):
    out = [] if out is None else out
    out.append(node)
    for s in node.attrs.values():
        if s.node:
            nodes_of(s.node, out)
    if isinstance(node.item, Node):
        nodes_of(node.item, out)
    return out


def selections(rng, node, path=(), depth=0):
    """-> list of paths (None for any item) which exist in the type"""
    out = []
    for n, s in node.attrs.items():
        out.append(path + (n,))
        if s.kind == "node":
            out.extend(selections(rng, s.node, path + (n,)))
    if node.items:
        at = path + (None,)
        out.append(at)
        if isinstance(node.item, Node):
            out.extend(selections(rng, node.item, at))
    return out


def selector(paths):
    def f(at):
        for p in paths:
            n = min(len(p), len(at))
            if all(x is None or x == y for x, y in zip(p[:n], at[:n])):
                return True
        return False
    return f


def key(calls):
    return sorted(calls, key=repr)


def hooked(ctx, rng):
    """All the hooks of a visit"""
    own = rng.choice([0, .4])
    node = declare(rng, own=own)
    ctx.log("types", said(node))
    everything = nodes_of(node)
    for _ in range(2):
        a = instance(rng, node)
        kw = options(rng)
        opaque = stop = how = stopped = None
        if rng.random() < .3:
            opaque = rng.choice(everything).cls
            how = rng.choice([None, (None, None)])
        elif rng.random() < .3:
            stop = rng.choice(everything).cls
            stopped = rng.choice([None, "stopped", 0, ()])
        f = None
        if type(a) is node.cls and rng.random() < .3 and not own:
            # (collections' own attributes and filters: see C25)
            paths = selections(rng, node)
            paths = rng.sample(paths, min(len(paths), rng.randint(1, 3)))
            kw["visit_filter"] = MultiFieldSelector(*paths) if \
                rng.random() < .5 else [list(p) for p in paths]
            f = selector(paths)
        mine = rng.random() < .3
        first = not f and rng.random() < .1
        alter = altering(rng) if rng.random() < .4 else unaltered
        tagging = Tagging(ctx, rng, opaque, how, stop, stopped, mine, first,
                          kw, alter)
        args = dict(kw, tag=tagging.tag) if mine else kw
        value_type = type(a)
        if type(a) is node.sub and rng.random() < .5:
            value_type = node.cls
            args = dict(args, value_type=value_type)
        ctx.log("visit", a, kw, "opaque", opaque, "stop", stop)
        got = ctx.value(attempt(tagging.pattern.visit, a, **args), "visit")
        if first:
            # the first attribute only; the paths are not affected
            for c in tagging.calls:
                if c[0] == "apply":
                    x = a
                    for step in c[3]:
                        x = getattr(x, step, UNSET) if \
                            step in type(x).properties else x[step]
                    ctx.ok(show(x) == c[1], "apply was called for %r at %s, "
                           "where there's %r", c[1], c[3], x)
            ctx.ev("partial")
            continue
        m = Model(kw, f, opaque, stop, stopped, alter=alter)
        want = m.node(a, value_type, ())
        ctx.ok(key(tagging.calls) == key(m.calls), "visiting %r with %s "
               "called the hooks with %s, not %s", a, kw,
               key(tagging.calls), key(m.calls))
        ctx.ok(got == want, "visiting %r with %s gave %r, not %r", a, kw,
               got, want)
        # things are unpacked before they're put together
        began = set()
        for c in tagging.calls:
            if c[0] == "unpack":
                began.add(c[3])
            elif c[0] in ("aggregate", "reduce"):
                ctx.ok(c[2] in began, "%s before unpack at %s", c[0], c[2])
        ctx.ev("hooked")
        ctx.ev("hook calls", len(m.calls))
        ctx.ev("nodes", sum(1 for c in m.calls if c[0] == "reduce"))
        ctx.ev("leaves", sum(1 for c in m.calls if c[0] == "apply"))
        ctx.ev("opaque", 1 if opaque else 0)
        ctx.ev("stopped", 1 if stop else 0)
        ctx.ev("altered", 0 if alter is unaltered else 1)
        ctx.ev("own visitor", 1 if mine else 0)
        ctx.ev("subclassed", sum(
            1 for c in m.calls if c[0] == "reduce" and
            node_sub(everything, c[1])))
        if len(m.calls) > 3:
            ctx.sig("hooked", repr([c[:1] + c[2:] for c in m.calls]))


def node_sub(everything, cls):
    return any(n.cls is cls and n.sub for n in everything)


# -- casting ---------------------------------------------------------------

def mirrored(ctx, rng):
    """A custom encoding, and hooks which undo it"""
    own = rng.choice([0, 0, .4])
    node = declare(rng, own=own, unions=.6)
    # more than one record type in a union
    others = [declare(rng, 1, extraneous=0) for _ in range(2)]
    if rng.random() < .5:
        types = [o.cls for o in others]
        if rng.random() < .5:
            types.insert(rng.randint(0, 2), rng.choice([int, str]))
        cls = new_class(Record, {
            "u": Property(isa=tuple(types)),
            "l": ListProperty(of=node.cls)}, "Choice")
        a = cls(u=instance(rng, rng.choice(others), False),
                l=[instance(rng, node, False)
                   for _ in range(rng.randint(0, 2))])
        ctx.ev("unions")
    else:
        cls = node.cls
        a = instance(rng, node, False)
    counts = {"grok": 0, "refused": 0}

    class Wrapped(VisitorPattern):
        @classmethod
        def apply(cls, value, prop, visitor):
            if isinstance(value, Record):
                return value
            return [value]

        @classmethod
        def reduce(cls, mapped, aggregated, value_type, visitor):
            data = super(Wrapped, cls).reduce(
                mapped, aggregated, value_type, visitor)
            return {"type": value_type.__name__, "data": data}

        @classmethod
        def grok(cls, value, value_type, visitor):
            counts["grok"] += 1
            if not issubclass(value_type, Record):
                # (an item)
                return None
            if not isinstance(value, dict) or value.get(
                    "type") != value_type.__name__:
                counts["refused"] += 1
                raise TypeError("not a %s" % value_type.__name__)
            return super(Wrapped, cls).grok(
                value["data"], value_type, visitor)

        @classmethod
        def reverse(cls, value, prop, visitor):
            if isinstance(value, (AttributeError, KeyError)):
                return None
            return value[0] if isinstance(value, list) else value

    if has_any_record(a):
        return          # (can't be told what to cast to)
    # (JSON records have an extraneous attribute)
    kw = {} if rng.random() < .7 or any(
        issubclass(c, JsonRecord) for c in classes_in(a)) else {
            "extraneous": True}
    ctx.log("types", said(node), "visit", a, kw)
    plain = ctx.value(attempt(Wrapped.visit, a, **kw), "visit")
    ctx.equal(plain["type"], cls.__name__, "what reduce returned")
    ctx.log("plain", plain)
    if rng.random() < .3:
        v = Visitor(Wrapped.grok, Wrapped.reverse, Wrapped.collect,
                    Wrapped.produce, **kw)
        back = attempt(Wrapped.cast, cls, plain, v)
    else:
        back = attempt(Wrapped.cast, cls, plain, **kw)
    back = ctx.value(back, "cast")
    ctx.ok(type(back) is type(a) and back == a, "%r, visited as %r, was cast "
           "to %r", a, plain, back)
    for x, y in pairs(a, back):
        ctx.ok(type(x) is type(y), "%r became %r", x, y)
    ctx.ok(counts["grok"] > 0, "grok wasn't called")
    ctx.ev("mirrored")
    ctx.ev("refused", 1 if counts["refused"] else 0)
    ctx.sig("mirrored", repr(plain))


def classes_in(a):
    out = {type(a)}
    for n in type(a).properties:
        v = a.__dict__.get(n)
        if isinstance(v, Record):
            out |= classes_in(v)
    if isinstance(a, Collection):
        for k, v in a.itertuples():
            if isinstance(v, Record):
                out |= classes_in(v)
    return out


def pairs(a, b):
    yield a, b
    if isinstance(a, Record) and isinstance(b, Record):
        for n, prop in type(a).properties.items():
            if not prop.extraneous and n in a.__dict__:
                for z in pairs(a.__dict__[n], b.__dict__.get(n)):
                    yield z
        if isinstance(a, Collection):
            other = dict(b.itertuples())
            for k, v in a.itertuples():
                for z in pairs(v, other.get(k)):
                    yield z


def cast_hooks(ctx, rng):
    """All the hooks of a cast"""
    node = declare(rng, unions=0, extraneous=rng.choice([0, .15]))
    a = instance(rng, node, False)
    plain = ctx.value(attempt(VisitorPattern.visit, a, ignore_none=False),
                      "visit")
    calls = []
    own = rng.random() < .4
    tag = object()

    def check(visitor):
        ctx.ok(type(visitor) is (Own if own else Visitor), "visitor: %r",
               visitor)
        ctx.ok(not own or visitor.tag is tag, "context is lost")
        return tuple(visitor.field_selector)

    class Pattern(VisitorPattern):
        @classmethod
        def grok(cls, value, value_type, visitor):
            calls.append(("grok", value_type, check(visitor)))
            if issubclass(value_type, Record):
                return super(Pattern, cls).grok(value, value_type, visitor)

        @classmethod
        def reverse(cls, value, prop, visitor):
            calls.append(("reverse", show(value), prop and prop.name,
                          check(visitor)))
            return alter("reverse", tuple(visitor.field_selector),
                         ("leaf", show(value)))

        @classmethod
        def collect(cls, mapped, coll_type, visitor):
            items = list(mapped)
            calls.append(("collect", coll_type, check(visitor)))
            return ("items", items)

        @classmethod
        def produce(cls, mapped, aggregated, value_type, visitor):
            attrs = dict((prop.name, x) for prop, x in mapped or ())
            calls.append(("produce", value_type, check(visitor)))
            return alter("produce", tuple(visitor.field_selector),
                         ("node", value_type, attrs, aggregated))
    alter = altering(rng) if rng.random() < .4 else unaltered
    kw = options(rng) if alter is not unaltered else {}
    kw.pop("extraneous", None)
    kw.pop("apply_empty_slots", None)
    drop = Model(kw).dropped
    if own:
        Pattern.Visitor = Own
        kw["tag"] = tag
    want = []

    def walk(v, t, path):
        want.append(("grok", t, path))
        if not issubclass(t, Record):
            want.append(("reverse", show(v), None, path))
            return alter("reverse", path, ("leaf", show(v)))
        attrs, coll = {}, None
        if issubclass(t, Collection):
            coll = [(k, walk(x, t.itemtype, path + (k,))) for k, x in
                    (v.items() if isinstance(v, dict) else enumerate(v))]
            coll = ("items", [(k, x) for k, x in coll if not drop(x)])
            want.append(("collect", t, path))
        for n, prop in t.properties.items():
            if not prop.extraneous and n in v:
                p = path + (n,)
                vt = prop.valuetype
                if vt and not isinstance(vt, tuple) and issubclass(
                        vt, Record):
                    x = walk(v[n], vt, p)
                else:
                    want.append(("reverse", show(v[n]), n, p))
                    x = alter("reverse", p, ("leaf", show(v[n])))
                if not drop(x):
                    attrs[n] = x
        want.append(("produce", t, path))
        return alter("produce", path, ("node", t, attrs, coll))
    ctx.log("cast", plain, "to", said(node))
    expected = walk(plain, node.cls, ())
    got = ctx.value(attempt(Pattern.cast, node.cls, plain, **kw), "cast")
    ctx.ok(key(calls) == key(want), "casting %r to %s called the hooks with "
           "%s, not %s", plain, node.cls, key(calls), key(want))
    ctx.ok(got == expected, "casting %r to %s gave %r, not %r", plain,
           node.cls, got, expected)
    ctx.ev("cast hooks")
    ctx.ev("altered", 0 if alter is unaltered else 1)
    ctx.ev("hook calls", len(want))
    ctx.sig("cast", repr([c[:1] + c[2:] for c in want]))


def plain_data(ctx, rng):
    """Visiting plain data as if it were of a type"""
    node = declare(rng, unions=0, extraneous=0)
    a = instance(rng, node, False)
    plain = ctx.value(attempt(VisitorPattern.visit, a, ignore_none=False),
                      "visit")

    class Dicts(VisitorPattern):
        @classmethod
        def unpack(cls, value, value_type, visitor):
            items = None
            if not issubclass(value_type, Record):
                return None
            if issubclass(value_type, Collection):
                # any kind of iterator will do
                items = value_type.coll_to_tuples(value)
                if rng.random() < .5:
                    items = iter(list(items))

            def get(prop):
                return value[prop.name]
            return get, items

        @classmethod
        def apply(cls, value, prop, visitor):
            return (show(value), prop and prop.name,
                    tuple(visitor.field_selector))

    class Same(VisitorPattern):
        apply = Dicts.apply
    ctx.log("visit", plain, "as", said(node))
    one = ctx.value(attempt(Same.visit, a), "visit")
    two = ctx.value(attempt(Dicts.visit, plain, node.cls), "visit a dict")
    if has_any_record(a):
        return
    ctx.equal(two, one, "visiting the plain data as %s" % said(node))
    ctx.ev("plain data")
    ctx.sig("plain", repr(one))


def has_any_record(a):
    if isinstance(a, Record):
        for n, prop in type(a).properties.items():
            v = a.__dict__.get(n)
            if isinstance(v, Record) and not prop.valuetype:
                return True
            if has_any_record(v):
                return True
        if isinstance(a, Collection):
            return any(has_any_record(v) for k, v in a.itertuples())
    return False


# -- reflection ------------------------------------------------------------

class Describer(object):
    def __init__(self, extraneous=False, f=None, custom=False):
        self.extraneous, self.f, self.custom = extraneous, f, custom
        self.n = 0

    def leaf(self, name, types):
        if self.custom:
            return ("attr", name, types)
        out = {"name": name}
        if len(types) == 1:
            out["type"] = types[0].__name__
        elif types:
            out["type"] = [t.__name__ for t in types]
        return out

    def type(self, cls, path=()):
        self.n += 1
        attrs = {}
        for n, prop in cls.properties.items():
            if prop.extraneous and not self.extraneous:
                continue
            if self.f and not self.f(path + (n,)):
                continue
            t = prop.valuetype
            types = t if isinstance(t, tuple) else (t,) if t else ()
            records = [x for x in types if issubclass(x, Record)]
            attrs[n] = (self.type(records[0], path + (n,)) if records
                        else self.leaf(n, types))
        item = None
        if issubclass(cls, Collection):
            t = cls.itemtype
            if issubclass(t, Record):
                item = self.type(t, path + (t,))
            elif self.custom:
                item = ("item", t)
            else:
                item = {"name": t.__name__}
            if self.custom:
                item = ("items", cls, [item])
        if self.custom:
            return ("type", cls, attrs, item)
        out = {"name": cls.__name__}
        if attrs:
            out["properties"] = attrs
        if item:
            out["itemtype"] = item
        return out


def reflection(ctx, rng):
    own = rng.choice([0, .5])
    node = declare(rng, own=own, unions=.5)
    kw = {}
    if rng.random() < .3:
        kw["extraneous"] = rng.random() < .7
    f = None
    if not kw and rng.random() < .3:
        # attributes, outside of collections
        paths = [p for p in selections(rng, node) if None not in p]
        paths = rng.sample(paths, min(len(paths), rng.randint(1, 3)))
        kw["visit_filter"] = MultiFieldSelector(*paths)
        keep = selector(paths)

        def f(at):
            # (within a collection which is selected as a whole)
            return keep(at)
        ctx.ev("reflect filter")
    ctx.log("reflect", said(node), kw)
    before = dict((n.cls, list(n.cls.properties)) for n in nodes_of(node))
    d = Describer(kw.get("extraneous", False), f)
    want = d.type(node.cls)
    got = ctx.value(attempt(VisitorPattern.reflect, node.cls, **kw),
                    "reflect")
    ctx.ok(got == want, "reflecting on %s with %s gave %r, not %r",
           said(node), kw, got, want)
    a = instance(rng, node, False, p_set=rng.choice([0, .5, 1]))
    before_a = snapshot(a, True)
    got = ctx.value(attempt(VisitorPattern.reflect, a, **kw),
                    "reflect on an instance")
    ctx.ok(got == want, "reflecting on %r with %s gave %r, not %r", a, kw,
           got, want)
    ctx.equal(snapshot(a, True), before_a, "reflection changed it")
    ctx.equal(dict((n.cls, list(n.cls.properties)) for n in nodes_of(node)),
              before, "reflection changed the class")
    ctx.ev("reflected", 2)
    ctx.ev("reflected records", d.n)
    ctx.sig("reflect", repr(want))

    # hooks
    if rng.random() < .5:
        class Pattern(VisitorPattern):
            @classmethod
            def propinfo(cls, value, prop, visitor):
                if prop is None:
                    return ("item", value)
                t = prop.valuetype
                ctx.ok(value is prop, "propinfo called with %r for %r",
                       value, prop)
                return ("attr", prop.name, t if isinstance(t, tuple) else
                        (t,) if t else ())

            @classmethod
            def itemtypes(cls, mapped, coll_type, visitor):
                return ("items", coll_type, [v for k, v in mapped])

            @classmethod
            def typeinfo(cls, propinfo, type_parameters, value_type,
                         visitor):
                return ("type", value_type,
                        dict((p.name, x) for p, x in propinfo),
                        type_parameters)
        d = Describer(kw.get("extraneous", False), f, True)
        want = d.type(node.cls)
        got = ctx.value(attempt(Pattern.reflect, rng.choice([node.cls, a]),
                                **kw), "reflect with hooks")
        ctx.ok(got == want, "reflecting on %s with hooks gave %r, not %r",
               said(node), got, want)
        ctx.ev("reflect hooks")
    # stopping
    if rng.random() < .3:
        stop = rng.choice(nodes_of(node)).cls

        class Stopping(VisitorPattern):
            @classmethod
            def scantypes(cls, value, value_type, visitor):
                if value_type is stop:
                    return cls.StopVisiting({"name": "..."})
                return super(Stopping, cls).scantypes(
                    value, value_type, visitor)

        class StopDescriber(Describer):
            def type(self, cls, path=()):
                if cls is stop:
                    return {"name": "..."}
                return Describer.type(self, cls, path)
        want = StopDescriber(kw.get("extraneous", False), f).type(node.cls)
        got = ctx.value(attempt(Stopping.reflect, node.cls, **kw),
                        "reflect, stopping")
        ctx.ok(got == want, "reflecting on %s, stopping at %s, gave %r, not "
               "%r", said(node), stop, got, want)
    # others
    x = rng.choice([int, 3, None, "x", object(), object, [node.cls], Visitor,
                    Property()])
    ctx.raised(attempt(VisitorPattern.reflect, x), TypeError,
               "reflecting on %r" % (x,))
    ctx.ev("not reflected")


SCENARIOS = [("hooked", hooked, 1500, 20000),
             ("mirrored", mirrored, 900, 12000),
             ("cast_hooks", cast_hooks, 700, 9000),
             ("plain_data", plain_data, 500, 6000),
             ("reflection", reflection, 900, 12000)]
