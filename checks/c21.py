"""C21: Multi-field get, delete and patch affect exactly the selected
fields."""
import copy

from checks.c18 import plain, type_map
from mon.core import attempt
from mon.heap import heap_of, node_of
from mon.recmodel import new_class
from mon.shapes import Options, a_type, schema
from normalize import (
    FieldSelector, JsonRecord, MultiFieldSelector, Property, Record)
from normalize.coll import DictCollection, ListCollection
from normalize.exc import FieldSelectorException

RULE = (
    "a case builds a structure (or two of one class) of generated records, "
    "typed and plain lists and dicts, walks it to choose a set of places "
    "(several attributes, keys and indices at each level, or a wildcard; some "
    "missing), applies the multi-field selector, and compares the results "
    "with the same done on a tree which mirrors the structure, by content "
    "and by identity of the containers; non-trivial: several places, of "
    "which some exist and some part is not selected; distinct by structure "
    "and places; or does all three with a record of which attributes are "
    "None, have defaults, or read as a null value while they hold nothing")
ASSUMPTIONS = [
    "get: selected records have no defaults, and their required attributes "
    "are selected; the places fit the structure (attributes of records, "
    "indices of lists); indices of one list are all counted from the same "
    "end",
    "delete: no selected attribute is required or read-only; patch: the "
    "target's lists have the selected indices, and the source has the "
    "selected items of its lists and dicts",
    "patching through a wildcard which is not the last step is a recorded "
    "finding; a last wildcard is used for lists only"]
NEED = {"get": 1500, "get_wild": 300, "get_missing": 400, "get_none": 150,
        "delete": 800, "delete_missing": 300, "delete_force": 150,
        "delete_wild": 200, "several_indices": 150, "patch": 1000,
        "patch_absent": 300, "patch_created": 100, "patch_copy": 300,
        "patch_wild": 60, "nulls": 800}


class Unjudged(Exception):
    pass


class Absent(Exception):
    pass


class R(object):
    """A mirror of a container; leaves are the values themselves"""
    def __init__(self, obj, kind, cls, items, attrs):
        self.obj = obj          # None: some new object
        self.kind = kind
        self.cls = cls
        self.items = items
        self.attrs = attrs

    def __repr__(self):
        return "%s(%r%r)" % (self.cls.__name__, self.items or "",
                             self.attrs or "")


def mirror(obj, new=False):
    n = node_of(obj)
    if n is None:
        return obj
    attrs = dict((k, mirror(v, new)) for k, v in n.attrs.items())
    items = n.items
    if isinstance(items, dict):
        items = dict((k, mirror(v, new)) for k, v in items.items())
    elif items is not None:
        items = [mirror(v, new) for v in items]
    return R(None if new else obj, n.kind, type(obj), items, attrs)


def differ(want, got, where=()):
    """-> None, or how the mirrors differ"""
    if not isinstance(want, R) or not isinstance(got, R):
        if type(want) is not type(got) or want != got:
            return "at %r: %r, not %r" % (list(where), got, want)
        return None
    if want.cls is not got.cls:
        return "at %r: a %s, not a %s" % (list(where), got.cls, want.cls)
    if want.obj is not None and want.obj is not got.obj:
        return "at %r: another object" % (list(where),)
    for x, y in ((want.attrs, got.attrs), (want.items, got.items)):
        if isinstance(x, dict):
            if set(x) != set(y):
                return "at %r: %r, not %r" % (
                    list(where), sorted(map(repr, y)), sorted(map(repr, x)))
            keys = list(x)
        elif x is None:
            continue
        else:
            if len(x) != len(y):
                return "at %r: %d items, not %d (%r, not %r)" % (
                    list(where), len(y), len(x), y, x)
            keys = range(len(x))
        for k in keys:
            d = differ(x[k], y[k], where + (k,))
            if d:
                return d
    return None


def slots(r, s):
    """-> the mapping or list within which the step is looked up"""
    if r.kind == "rec" or isinstance(s, str) and r.kind == "list":
        return r.attrs
    return r.items


def has(r, s):
    x = slots(r, s)
    if isinstance(x, dict):
        return s in x
    return not isinstance(s, str) and -len(x) <= s < len(x)


# -- choosing places

def choose(rng, types, objs, depth=0, unset=.15, wild=.3, last_wild=True):
    """-> tree {step: None or tree} of places for the structures, or None"""
    nodes = [n for n in map(node_of, objs) if n]
    if not nodes or depth > 4:
        return None
    n = nodes[0]
    if any(m.kind != n.kind or type(m.obj) is not type(n.obj)
           for m in nodes):
        return None
    if depth and rng.random() < .2:
        return None
    if n.kind == "rec":
        decl = types[type(n.obj)].attrs
        steps = [s for s in decl if any(s in m.attrs for m in nodes)] \
            if rng.random() > unset * 2 else list(decl)
        values = lambda s: [m.attrs[s] for m in nodes if s in m.attrs]
    elif n.kind in ("list", "plist"):
        size = max(len(m.items) for m in nodes)
        steps = list(range(size))
        if rng.random() < unset:
            steps.append(size + rng.randrange(2))
        if rng.random() < .15 and len(nodes) == 1:
            steps = list(range(-size, 0))
        values = lambda s: [m.items[s] for m in nodes
                            if -len(m.items) <= s < len(m.items)]
    else:
        steps = sorted(set().union(*[m.items for m in nodes]), key=repr)
        if rng.random() < unset:
            steps = steps + ["missing"]
        values = lambda s: [m.items[s] for m in nodes if s in m.items]
    if n.kind != "rec" and rng.random() < wild:
        everything = [v for m in nodes for v in (
            m.items.values() if isinstance(m.items, dict) else m.items)]
        sub = choose(rng, types, everything, depth + 1, unset, wild)
        if sub is None and not last_wild and n.kind not in ("list", "plist"):
            return None
        if sub is None and depth and rng.random() < .5:
            return None
        return {None: sub}
    if not steps:
        return None
    out = {}
    for s in rng.sample(steps, min(len(steps), rng.choice([1, 1, 2, 2, 3]))):
        out[s] = choose(rng, types, values(s), depth + 1, unset, wild,
                        last_wild)
    return out


def paths(tree):
    out = []
    for s, t in tree.items():
        if t is None:
            out.append((s,))
        else:
            out.extend((s,) + p for p in paths(t))
    return out


def two_wild(p):
    return len(p) > 1 and p[-1] is None and p[-2] is None


def selector(rng, ps):
    ps = list(ps)
    rng.shuffle(ps)
    k = rng.randrange(4)
    if k == 0:
        return MultiFieldSelector(*[FieldSelector(p) for p in ps])
    if k == 1:
        return MultiFieldSelector.from_path(MultiFieldSelector(*ps).path)
    if k == 2:
        return MultiFieldSelector(*[MultiFieldSelector(p) for p in ps])
    return MultiFieldSelector(*ps)


def options(**kw):
    return Options(**dict(dict(
        p_lazy=0, p_ro=0, p_required=0, p_extraneous=.1, p_default=0,
        p_unset=.25, p_pk=.1, keys=["k1", "k2", "a.b", "x y", "a"],
        kinds=["int", "str", "any", "any", "rec", "rec", "rec", "list",
               "list", "list", "dict", "dict", "plainlist", "plaindict",
               "float"],
        item_kinds=["rec", "rec", "rec", "int", "str"]), **kw))


def build(rng, o, n=1):
    """-> types, [structures of one class]"""
    recs = schema(rng, o, rng.choice([2, 3, 3, 4]))
    t = a_type(rng, o, recs, False, 0, ["list", "dict"]) if \
        rng.random() < .2 else None
    types = type_map(recs, [t] if t else [])
    out = []
    for _ in range(n):
        x = (t or recs[-1]).desc(rng, o).build()
        for m in list(heap_of(x).values()):
            if m.kind != "rec":
                continue
            for a in types[type(m.obj)].attrs.values():
                if a.type.kind == "any" and not a.ro and rng.random() < .6:
                    v = plain(rng, o, recs) if rng.random() < .8 else None
                    if v is not None or not a.required:
                        setattr(m.obj, a.name, v)
        out.append(x)
    return recs, types, out


# -- get

def project(types, r, tree):
    """-> mirror of what is selected, all new"""
    if tree is None:
        return renew(r)
    if not isinstance(r, R):
        raise Unjudged("places within a scalar")
    new = R(None, r.kind, r.cls, None, {})
    if None in tree:
        if r.kind == "rec":
            raise Unjudged("all of a record")
        sub = tree[None]
        if isinstance(r.items, dict):
            new.items = dict((k, project(types, v, sub))
                             for k, v in r.items.items())
        else:
            new.items = [project(types, v, sub) for v in r.items]
        return new
    if r.kind in ("list", "plist"):
        if any(isinstance(s, str) for s in tree):
            raise Unjudged("attributes of a list")
        new.items = [project(types, r.items[s], tree[s])
                     for s in sorted(tree) if has(r, s)]
    elif r.kind in ("dict", "pdict"):
        new.items = dict((s, project(types, r.items[s], t))
                         for s, t in tree.items() if s in r.items)
    else:
        decl = types[r.cls].attrs
        for s, t in tree.items():
            if s not in decl:
                raise Unjudged("undeclared")
            if s in r.attrs:
                # (None has no places in it)
                new.attrs[s] = None if r.attrs[s] is None else project(
                    types, r.attrs[s], t)
        if any(a.required and a.name not in new.attrs
               for a in decl.values()):
            raise Unjudged("required")
    return new


def renew(r):
    if not isinstance(r, R):
        return r
    items = r.items
    if isinstance(items, dict):
        items = dict((k, renew(v)) for k, v in items.items())
    elif items is not None:
        items = [renew(v) for v in items]
    return R(None, r.kind, r.cls, items,
             dict((k, renew(v)) for k, v in r.attrs.items()))


def some_missing(r, tree):
    """Is a place missing?  (by hand; wildcards as documented)"""
    if tree is None or not isinstance(r, R):
        return tree is not None
    return any(missing(r, p) for p in paths(tree))


def missing(r, p):
    for i, s in enumerate(p):
        if not isinstance(r, R):
            return True
        if s is None:
            if r.kind == "rec":
                return True
            vals = list(r.items.values() if isinstance(r.items, dict)
                        else r.items)
            return bool(vals) and all(missing(v, p[i + 1:]) for v in vals)
        if not has(r, s):
            return True
        r = slots(r, s)[s]
    return False


def count(r):
    return 1 + sum(count(x) for x in list(r.attrs.values()) + list(
        r.items.values() if isinstance(r.items, dict) else r.items or ())
    ) if isinstance(r, R) else 1


def getting(ctx, rng):
    o = options(p_required=.08)
    recs, types, (x,) = build(rng, o)
    before = mirror(x)
    interesting = False
    for _ in range(rng.randrange(2, 6)):
        tree = choose(rng, types, [x])
        if tree is None or any(map(two_wild, paths(tree))):
            continue
        # required attributes have to be among them
        tree = with_required(types, before, tree)
        ps = paths(tree)
        m = selector(rng, ps)
        try:
            want = project(types, before, tree)
        except Unjudged:
            ctx.ev("get_unjudged")
            continue
        got = ctx.value(attempt(m.get, x), "getting %r of %r" % (ps, x))
        ctx.log("get", ps, got)
        d = differ(want, mirror(got))
        ctx.ok(d is None, "getting %r of %r gave %r: %s", ps, x, got, d)
        shared = set(heap_of(x)) & set(heap_of(got))
        ctx.ok(not shared, "%r of %r shares %d objects with it", got, x,
               len(shared))
        d = differ(before, mirror(x))
        ctx.ok(d is None, "getting %r changed the source: %s", ps, d)
        if not any(isinstance(s, int) for p in ps for s in p):
            # what's been selected is all selected
            d = differ(want, mirror(m.get(got)))
            ctx.ok(d is None, "getting %r twice: %s", ps, d)
        ctx.ev("get")
        if any(None in p for p in ps):
            ctx.ev("get_wild")
        if some_missing(before, tree):
            ctx.ev("get_missing")
        if any(isinstance(q, R) and None in q.attrs.values()
               for q in walk(before)):
            ctx.ev("get_none")
        n = count(want)
        if len(ps) > 1 and 1 < n < count(before):
            interesting = True
    if interesting:
        ctx.sig(before, tree)


def walk(r):
    yield r
    if isinstance(r, R):
        for v in list(r.attrs.values()) + list(
                r.items.values() if isinstance(r.items, dict)
                else r.items or ()):
            for y in walk(v):
                yield y


def with_required(types, r, tree):
    if tree is None or not isinstance(r, R):
        return tree
    tree = dict(tree)
    if r.kind == "rec":
        if None not in tree:
            for a in types[r.cls].attrs.values():
                if a.required:
                    tree.setdefault(a.name, None)
    for s in list(tree):
        if s is None:
            vals = list(r.items.values() if isinstance(r.items, dict)
                        else r.items or ()) if r.kind != "rec" else []
            for v in vals:
                tree[s] = with_required(types, v, tree[s])
        elif has(r, s):
            tree[s] = with_required(types, slots(r, s)[s], tree[s])
    return tree


# -- delete

def remove(types, r, tree):
    """Remove the places from the mirror; several at once"""
    if not isinstance(r, R):
        return
    if None in tree:
        if r.kind == "rec":
            return
        sub = tree[None]
        if sub is None:
            r.items.clear()
            return
        for v in (r.items.values() if isinstance(r.items, dict)
                  else r.items):
            remove(types, v, sub)
        return
    gone = [s for s, t in tree.items() if t is None and has(r, s)]
    for s, t in tree.items():
        if t is not None and has(r, s):
            remove(types, slots(r, s)[s], t)
    if r.kind == "rec":
        for s in gone:
            a = types[r.cls].attrs[s]
            if a.required or a.ro:
                raise Unjudged("required or read-only")
            del r.attrs[s]
    elif isinstance(r.items, dict):
        for s in gone:
            del r.items[s]
    else:
        n = len(r.items)
        at = set(s if s >= 0 else s + n for s in gone)
        r.items[:] = [v for i, v in enumerate(r.items) if i not in at]


def several(tree):
    if tree is None:
        return False
    return sum(isinstance(s, int) and t is None
               for s, t in tree.items()) > 1 or any(
                   several(t) for t in tree.values())


def deleting(ctx, rng):
    o = options(p_required=.03, p_ro=.03)
    recs, types, (x,) = build(rng, o)
    trace = []
    for _ in range(rng.randrange(1, 5)):
        tree = choose(rng, types, [x], unset=rng.choice([0, 0, .15]))
        if tree is None or any(map(two_wild, paths(tree))):
            continue
        ps = paths(tree)
        m = selector(rng, ps)
        force = rng.random() < .3
        before = mirror(x)
        want = mirror(x)
        absent = some_missing(before, tree)
        try:
            remove(types, want, tree)
        except Unjudged:
            ctx.ev("delete_unjudged")
            continue
        got = attempt(m.delete, x, *([True] if force else []))
        ctx.log("delete", ps, "force" if force else "", got)
        if absent and not force:
            ctx.raised(got, FieldSelectorException,
                       "deleting %r of %r" % (ps, before))
            d = differ(before, mirror(x))
            ctx.ok(d is None, "failing to delete %r of %r changed it: %s", ps,
                   before, d)
            ctx.ev("delete_missing")
        else:
            ctx.value(got, "deleting %r of %r" % (ps, before))
            d = differ(want, mirror(x))
            ctx.ok(d is None, "after deleting %r of %r it is %r: %s", ps,
                   before, x, d)
            ctx.ev("delete")
            if several(tree):
                ctx.ev("several_indices")
            if absent:
                ctx.ev("delete_force")
            if any(None in p for p in ps):
                ctx.ev("delete_wild")
        trace.append((sorted(map(repr, ps)), absent, force))
    if any(len(t[0]) > 1 for t in trace):
        ctx.sig(trace)


# -- patch

def at(r, p):
    for s in p:
        if not isinstance(r, R) or not has(r, s):
            raise Absent(s, r)
        r = slots(r, s)[s]
    return r


def blank(types, t):
    """-> mirror of a new object of the type"""
    if t.kind == "rec":
        if any(a.required for a in t.rec.attrs.values()):
            raise Unjudged("required")
        return R(None, "rec", t.isa(), None, {})
    if t.kind == "list":
        return R(None, "list", t.cls, [], {})
    if t.kind == "dict":
        return R(None, "dict", t.cls, {}, {})
    if t.kind == "plaindict":
        return R(None, "pdict", dict, {}, {})
    raise Unjudged("can't be created")


def place(ctx, types, r, p, value):
    """Set the place in the mirror, creating what's needed"""
    s = p[0]
    if not isinstance(r, R):
        raise Unjudged("within a scalar")
    if s is None:
        if r.kind not in ("list", "plist"):
            raise Unjudged("all of a dict")
        r.items[:] = value
        return
    if r.kind == "rec" and s not in types[r.cls].attrs or \
            isinstance(s, str) and r.kind in ("list", "plist"):
        raise Unjudged("undeclared")
    if len(p) == 1:
        if r.kind == "rec" and types[r.cls].attrs[s].ro:
            raise Unjudged("read-only")
        x = slots(r, s)
        if isinstance(x, list) and not has(r, s):
            raise Unjudged("new item")
        t = types[r.cls].attrs[s].type if r.kind == "rec" else \
            types[r.cls].item if r.kind in ("list", "dict") else None
        if t and t.kind != "any" and not issubclass(
                value.cls if isinstance(value, R) else type(value), t.isa()):
            raise Unjudged("another type")
        x[s] = value
        return
    if not has(r, s):
        if r.kind == "rec":
            a = types[r.cls].attrs[s]
            if a.ro:
                raise Unjudged("read-only")
            x = blank(types, a.type)
            r.attrs[s] = x
        elif r.kind == "dict":
            x = r.items[s] = blank(types, types[r.cls].item)
        else:
            raise Unjudged("can't be created")
        ctx.ev("patch_created")
    place(ctx, types, slots(r, s)[s], p[1:], value)


def clear(types, r, p):
    """Remove an attribute (if it's there)"""
    try:
        r = at(r, p[:-1])
    except Absent:
        return
    if not isinstance(r, R) or r.kind != "rec":
        raise Unjudged("not an attribute")
    if p[-1] in r.attrs:
        a = types[r.cls].attrs[p[-1]]
        if a.required or a.ro:
            raise Unjudged("required or read-only")
        del r.attrs[p[-1]]


def patching(ctx, rng):
    o = options(p_required=.04, p_ro=.03)
    recs, types, (x, y) = build(rng, o, 2)
    if rng.random() < .3:
        x = copy.deepcopy(y)
    trace = []
    for _ in range(rng.randrange(1, 4)):
        if set(heap_of(x)) & set(heap_of(y)):
            x = copy.deepcopy(x)
        tree = choose(rng, types, [x, y] if rng.random() < .7 else [y],
                      unset=rng.choice([0, .1]), wild=.1, last_wild=False)
        if tree is None:
            continue
        ps = paths(tree)
        if any(None in p[:-1] or two_wild(p) for p in ps):
            continue
        how = rng.choice([False, False, True, "function"])
        before, source = mirror(x), mirror(y)
        want = mirror(x)
        values = []
        try:
            for p in ps:
                last = p[-1] is None
                try:
                    v = at(source, p[:-1] if last else p)
                except Absent as e:
                    s, r = e.args
                    if not isinstance(r, R) or r.kind != "rec" or last:
                        raise Unjudged("missing items")
                    clear(types, want, p)
                    ctx.ev("patch_absent_")
                    continue
                if last:
                    if not isinstance(v, R) or v.kind not in (
                            "list", "plist"):
                        raise Unjudged("all of a dict")
                    v = list(v.items)
                    v = [renew(i) for i in v] if how else v
                elif how:
                    v = renew(v)
                place(ctx, types, want, p, v)
        except Unjudged as e:
            ctx.ev("patch_unjudged")
            continue
        m = selector(rng, ps)
        calls = []

        def function(v):
            calls.append(v)
            return copy.deepcopy(v)
        arg = [] if how is False and rng.random() < .5 else [
            function if how == "function" else how]
        got = attempt(m.patch, x, y, *arg)
        ctx.log("patch", ps, how, got)
        ctx.value(got, "patching %r of %r from %r" % (ps, before, source))
        d = differ(want, mirror(x))
        ctx.ok(d is None, "after patching %r of %r from %r it is %r: %s", ps,
               before, source, x, d)
        d = differ(source, mirror(y))
        ctx.ok(d is None, "patching %r changed the source: %s", ps, d)
        if how:
            for p in ps:
                v = attempt(at, mirror(y), p[:-1] if p[-1] is None else p)
                w = attempt(at, mirror(x), p[:-1] if p[-1] is None else p)
                if v.ok and w.ok and isinstance(v.value, R) and p[-1] is not \
                        None:
                    ctx.ok(not set(heap_of(v.value.obj)) &
                           set(heap_of(w.value.obj)),
                           "patching %r with copy=%r shares objects", ps, how)
            ctx.ev("patch_copy")
        ctx.ev("patch")
        if any(isinstance(attempt(at, source, p).exc, Absent) for p in ps
               if None not in p):
            ctx.ev("patch_absent")
        trace.append((sorted(map(repr, ps)), how))
    if any(len(t[0]) > 1 for t in trace):
        ctx.sig(trace, before)


def patching_all(ctx, rng):
    """A wildcard which isn't the last step: item by item"""
    o = options(kinds=["int", "str", "any"], p_unset=0, p_extraneous=0)
    recs = schema(rng, o, 1)
    base = a_type(rng, o, recs, False, 0, ["list"])
    while base.item.kind != "rec":
        base = a_type(rng, o, recs, False, 0, ["list"])
    n = rng.choice([1, 2, 3])
    make = lambda: base.cls(values=[
        recs[0].desc(rng, o).build() for _ in range(n)])
    x, y = make(), make()
    s = rng.choice(sorted(recs[0].attrs))
    others = [dict((k, v) for k, v in i.__dict__.items() if k != s)
              for i in x]
    got = attempt(MultiFieldSelector([None, s]).patch, x, y)
    ctx.log("patch", [None, s], x, y, got)
    # whatever is done to the selected places, nothing else changes
    ctx.ok([dict((k, v) for k, v in i.__dict__.items() if k != s)
            for i in x] == others, "patching [*].%s changed other "
           "attributes", s)
    ctx.finding("patch-through-wildcard", got.ok and [
        getattr(i, s) for i in x] == [getattr(i, s) for i in y],
        "patching [*].%s of %r from %r %r" % (s, x, y, got))
    ctx.ev("patch_wild")


def nulls(ctx, rng):
    """Attributes which read as something while they hold nothing, hold None,
    or have defaults"""
    props, kinds = {}, {}
    for n in "abcdef"[:rng.randint(2, 6)]:
        kind = rng.choice(["plain", "default", "null", "null", "false"])
        isa = rng.choice([int, str, None])
        kw = {} if isa is None else {"isa": isa}
        if kind == "null":
            # (not what the type would convert)
            kw["v1_none"] = rng.choice([None, "", 0, False]) if \
                isa is not str else ""
        elif kind == "false":
            kw["default"] = isa() if isa else rng.choice([0, "", False])
        elif kind == "default":
            kw["default"] = isa(7) if isa else rng.choice([5, "x"])
        props[n] = lambda kw=kw: Property(**kw)
        kinds[n] = (kind, isa, kw)
    cls = new_class(rng.choice([Record, JsonRecord]), dict(
        (n, p()) for n, p in props.items()), "Nulls")

    def make():
        kw = {}
        for n, (kind, isa, k) in kinds.items():
            if rng.random() < .6:
                kw[n] = isa(rng.choice([0, 1, 22])) if isa else rng.choice(
                    [0, "", "t", None, 3])
        x = cls(**kw)
        for n in kinds:
            if rng.random() < .15 and n in x.__dict__:
                delattr(x, n)
        return x

    def state(x):
        return dict((n, getattr(x, n, "(absent)")) for n in kinds)

    x, y = make(), make()
    names = rng.sample(sorted(kinds), rng.randint(1, len(kinds)))
    m = selector(rng, [(n,) for n in names])
    ctx.log("attributes", kinds, "of", x, y, "select", names)
    was, other = dict(x.__dict__), dict(y.__dict__)
    got = ctx.value(attempt(m.get, x), "getting %s of %r" % (names, x))
    want = cls(**dict((n, v) for n, v in was.items() if n in names))
    ctx.ok(type(got) is cls and same(got.__dict__, want.__dict__),
           "getting %s of %r gave %r, not %r", names, x, got, want)
    ctx.ok(same(x.__dict__, was), "getting changed %r", x)
    # what was selected reads the same
    for n in names:
        if n in was or kinds[n][0] in ("null", "false"):
            v = attempt(getattr, got, n)
            ctx.ok(not v.exc and same({0: v.value}, {0: getattr(x, n)}),
                   "%s of what was got from %r: %r", n, x, v)
    want = state(y)
    want.update((n, state(x)[n]) for n in names)
    ctx.value(attempt(m.patch, y, x), "patching %r with %s of %r" % (
        y, names, x))
    ctx.ok(same(state(y), want), "patched with %s of %r: %r; expected %r",
           names, x, state(y), want)
    ctx.ok(same(x.__dict__, was), "patching changed the source %r", x)
    before = dict(y.__dict__)
    gone = [n for n in names if state(y)[n] == "(absent)"]
    r = attempt(m.delete, y)
    if gone:
        ctx.raised(r, FieldSelectorException, "deleting %s, of which %s are "
                   "missing, of %r" % (names, gone, y))
        ctx.ok(same(y.__dict__, before), "a failed deletion changed %r", y)
        ctx.value(attempt(lambda: m.delete(y, force=True)), "forced")
    else:
        ctx.value(r, "deleting %s of %r" % (names, y))
    ctx.ok(same(y.__dict__, dict((n, v) for n, v in before.items()
                                 if n not in names)),
           "deleting %s left %r", names, y)
    ctx.ev("nulls")
    ctx.sig(kinds, was, other, names)


def same(a, b):
    return a == b and all(type(a[k]) is type(b[k]) for k in a)


SCENARIOS = [
    ("nulls", nulls, 1200, 30000),
    ("getting", getting, 3500, 100000), ("deleting", deleting, 5000, 120000),
    ("patching", patching, 5000, 120000),
    ("patching_all", patching_all, 80, 500)]
