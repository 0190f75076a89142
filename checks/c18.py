"""C18: A field selector reads, writes and deletes exactly the place it
names."""
import copy

from mon.core import Abandon, attempt
from mon.heap import (
    ABSENT, Alien, Any, Fails, Gathered, Missing, Model, New, Unjudged,
    copy_heap, differences, heap_of, kind_of, node_of, same_result)
from mon.shapes import D, Options, a_type, schema
from normalize import FieldSelector, Record
from normalize.exc import (
    FieldSelectorAttributeError, FieldSelectorException,
    FieldSelectorKeyError)

RULE = (
    "a case builds a structure of generated records, typed and plain lists "
    "and dicts, and runs a history of get/get_or_none/put/post/delete "
    "through selectors made by walking the structure (with wildcards, "
    "negative indices and wrong turns); every result is compared with "
    "following the steps by hand, and after every operation the contents "
    "(by identity) of every container are compared with a model; "
    "non-trivial: some operation changed something and some selector had "
    "several steps; distinct by structure and history")
ASSUMPTIONS = [
    "the stored value is acceptable to the declared type as it is, is "
    "refused by it, or is a dict for a record (other conversions are judged "
    "by C01)",
    "wildcards over text, the last step being a wildcard for a dict, and "
    "undeclared attributes are not judged; nor is the state after a "
    "wildcard put or delete which fails on one of the items",
    "deleting an attribute which isn't set may succeed or fail, and changes "
    "nothing"]
NEED = {"get": 5000, "get_missing": 1500, "wild": 1500, "wild_partial": 150,
        "put": 2500, "put_fail": 600, "delete": 1200, "delete_fail": 300,
        "post": 1500, "post_created": 500, "post_chain": 100,
        "post_fail": 200, "deep": 3000, "several_wildcards": 300}


def options():
    return Options(
        p_lazy=0, p_ro=.07, p_required=.12, p_coll_attr=.3, p_extraneous=.1,
        p_unset=.4, p_default=.1, keys=["k1", "k2", "a.b", "x y", "a"],
        kinds=["int", "str", "any", "any", "rec", "rec", "rec", "list",
               "list", "dict", "dict", "plainlist", "plaindict", "float"],
        item_kinds=["rec", "rec", "rec", "int", "str"])


def type_map(recs, roots=()):
    """class -> Rec or T, for all of the classes"""
    out = {}

    def add(t):
        if t.kind in ("list", "dict"):
            out[t.cls] = t
            add(t.item)
        for a in t.alts or ():
            add(a)
    for r in recs:
        out[r.cls] = r
        for a in r.attrs.values():
            add(a.type)
    for t in roots:
        add(t)
    return out


def nested_options(rng):
    """Mostly collections of collections and records"""
    return Options(
        p_lazy=0, p_ro=0, p_required=.03, p_coll_attr=.1, p_extraneous=.1,
        p_unset=rng.choice([0, .03, .15]), p_default=.05, keys=["k1", "k2", "a.b"],
        kinds=["int", "str", "rec", "list", "list", "list", "dict", "dict"],
        item_kinds=["rec", "rec", "rec", "rec", "list", "dict", "int"])


def build(ctx, rng, o=None):
    o = o or options()
    recs = schema(rng, o, rng.choice([2, 3, 3, 4]))
    r = recs[-1]
    root = None
    if rng.random() < .25:
        root = a_type(rng, o, recs, False, 0, ["list", "dict"])
    types = type_map(recs, [root] if root else [])
    x = (root or r).desc(rng, o).build()
    # plain containers within untyped attributes
    for n in list(heap_of(x).values()):
        if n.kind == "rec":
            slots = [a for a in types[type(n.obj)].attrs.values()
                     if a.type.kind == "any" and not a.ro]
        elif n.kind in ("list", "dict"):
            slots = []
            if types[type(n.obj)].own and rng.random() < .5:
                n.obj.extra = plain(rng, o, recs)
                n.obj.label = "L"
        else:
            continue
        for a in slots:
            if rng.random() < .7:
                v = plain(rng, o, recs)
                if v is not None or not a.required:
                    setattr(n.obj, a.name, v)
    return o, recs, types, x


def plain(rng, o, recs, depth=0):
    def item():
        k = rng.randrange(6)
        if k < 3:
            return rng.choice(recs).make(rng, o, 2)
        if k == 3 and depth < 2:
            return plain(rng, o, recs, depth + 1)
        return rng.choice([0, 1, "text", None, 2.5])
    k = rng.randrange(5)
    if k < 2:
        return [item() for _ in range(rng.randrange(4))]
    if k < 4:
        return dict((rng.choice(["k1", "k2", "a", 1, 0]), item())
                    for _ in range(rng.randrange(4)))
    return item()


def bogus(rng, n):
    """-> a step which likely isn't there"""
    return rng.choice([99, "nope", -7, "k9", 0, 1, "a", "b", "c", -1, "k1",
                       "label", "", "items", 5])


def walk(rng, types, x, wild=.25, stop=.25, new=.1):
    """-> a path within the structure, or off it"""
    path = []
    while True:
        n = node_of(x)
        if path and rng.random() < (stop if n else .8):
            if n is None and not isinstance(x, str) and rng.random() < .04:
                path.append(None)
            return path
        steps = []
        if n is not None:
            t = types.get(type(n.obj))
            if n.kind == "rec":
                steps = [s for s in n.attrs if s in t.attrs]
                if rng.random() < max(.15, new):
                    steps = [s for s in t.attrs if s not in n.attrs and
                             rng.random() < new * 2] or list(t.attrs)
            elif n.kind in ("list", "plist"):
                steps = list(range(len(n.items)))
                if n.kind == "list" and rng.random() < .15:
                    steps = list(t.own)
                elif steps and rng.random() < .2:
                    steps = [-1, -len(steps)]
                if rng.random() < new:
                    steps = [len(n.items)]
            else:
                steps = list(n.items)
            if n.kind != "rec" and rng.random() < wild:
                steps = [None]
        if not steps or rng.random() < (.05 if wild < .5 else .01):
            s = bogus(rng, n)
            if (n is None and not isinstance(x, str) or
                    n is not None and n.kind == "rec") and \
                    rng.random() < .3:
                s = None
            path.append(s)
            x = None if n is None else x
            if rng.random() < .6:
                return path
            continue
        s = rng.choice(steps)
        path.append(s)
        if s is None:
            vals = list(n.items.values() if isinstance(n.items, dict)
                        else n.items)
            if not vals:
                if rng.random() < .5:
                    return path
                x = 0
            else:
                x = rng.choice(vals)
        elif isinstance(s, str) and n.kind in ("rec", "list"):
            x = n.attrs.get(s, 0)
            if s not in n.attrs and n.kind == "rec":
                # unset: what could be there
                a = t.attrs[s]
                if rng.random() < .85 and a.type.kind in (
                        "rec", "list", "dict", "plaindict"):
                    path.extend(into(rng, a.type))
                    return path
        elif n.kind in ("list", "plist") and s == len(n.items):
            if n.kind == "list" and rng.random() < .8:
                path.extend(into(rng, t.item))
            return path
        else:
            x = n.items[s]
            if n.kind == "dict" and rng.random() < new:
                path[-1] = "new"
                if rng.random() < .8:
                    path.extend(into(rng, t.item))
                return path


def into(rng, t, depth=0):
    """-> a path within what could be created"""
    if t.kind == "rec":
        n = rng.choice(sorted(t.rec.attrs))
        sub = t.rec.attrs[n].type
        return [n] + (into(rng, sub, depth + 1)
                      if rng.random() < .6 and depth < 3 else [])
    if t.kind in ("list", "dict"):
        s = (0 if rng.random() < .9 else 1) if t.kind == "list" else \
            rng.choice(["k1", "new"])
        if t.own and rng.random() < .3:
            return [rng.choice(["label", "extra"])]
        return [s] + (into(rng, t.item, depth + 1)
                      if rng.random() < .9 else [])
    if t.kind == "plaindict":
        return ["k1"]
    return []


def target(model, x, path):
    """-> T of the (first) place named, or None if unknown"""
    try:
        for i, s in enumerate(path[:-1]):
            if s is None:
                x = model.all_items(x)[0]
            else:
                x = model.follow(x, s)
        n = model.node(x)
        s = path[-1]
        t = model.types[type(n.obj)]
        if n.kind == "rec":
            return t.attrs[s].type
        if n.kind in ("list", "dict"):
            return t.own.get(s) if n.kind == "list" and isinstance(s, str) \
                else t.item
    except (Missing, Unjudged, LookupError, AttributeError, TypeError):
        pass
    return None


def type_at(types, x, path):
    """-> T of the place, also if it's to be created"""
    model = Model(heap_of(x), types)
    t = None
    for i, s in enumerate(path):
        try:
            if s is None:
                items = model.all_items(x) if t is None else []
                if not items:
                    return None
                x = items[0]
                continue
            if t is None:
                y = model.step(x, s)
                if y is not ABSENT:
                    if i == len(path) - 1:
                        return target(model, x, [s])
                    x = y
                    continue
                n = model.node(x)
                if n.kind == "rec":
                    t = types[type(x)].attrs[s].type
                elif n.kind in ("list", "dict"):
                    t = types[type(x)].own.get(s) \
                        if n.kind == "list" and isinstance(s, str) else \
                        types[type(x)].item
                else:
                    return None
            elif t.kind == "rec":
                t = t.rec.attrs[s].type
            elif t.kind in ("list", "dict"):
                t = t.own.get(s) if t.kind == "list" and isinstance(s, str) \
                    else t.item
            else:
                return None
        except (Missing, Unjudged, LookupError, AttributeError):
            return None
    return t


def a_value(rng, o, recs, types, x, path):
    t = type_at(types, x, path)
    if path[-1] is None:
        t2 = type_at(types, x, path[:-1] + [0])
        return [a_value(rng, o, recs, types, x, path[:-1] + [0])
                for _ in range(rng.randrange(4))] if t2 or \
            rng.random() < .8 else 5
    if rng.random() < .08:
        return Alien()
    if t is None or t.kind == "any":
        return rng.choice([
            0, None, "text", "", [1, 2], {"k1": 1}, {}, [],
            recs[0].make(rng, o, 2), recs[-1].make(rng, o, 2)])
    v = t.desc(rng, o, 1).build()
    if t.kind == "rec" and not t.rec.json and rng.random() < .2:
        return dict((n, a) for n, a in v.__dict__.items())
    return v


def make_selector(ctx, rng, path):
    k = rng.randrange(6)
    if k == 0:
        f = FieldSelector(tuple(path))
    elif k == 1:
        f = FieldSelector()
        for s in path:
            if s is None:
                f.add_full_collection()
            elif isinstance(s, str):
                f.add_property(s)
            else:
                f.add_index(s)
    elif k == 2:
        f = FieldSelector.from_path(FieldSelector(path).path)
    elif k == 3:
        i = rng.randrange(len(path) + 1)
        f = FieldSelector(path[:i]) + FieldSelector(path[i:])
    elif k == 4:
        f = FieldSelector([0] + path)[1:]
    else:
        f = FieldSelector(path)
    ctx.equal(f.selectors, path, "steps of the selector")
    return f


def judge_state(ctx, heap, what):
    for obj, how in differences(heap):
        ctx.ok(False, "after %s: %r has %s", what, obj, how)
    ctx.ok(True, "state")


def has_none(g):
    return any(x is None or isinstance(x, Gathered) and has_none(x)
               for x in g)


def do_get(ctx, rng, x, types, path, f):
    model = Model(heap_of(x), types)
    try:
        want = model.get(x, path)
        missing = False
    except Missing:
        missing = True
    got = attempt(f.get, x)
    got2 = attempt(f.get_or_none, x)
    ctx.log("get", path, got)
    if missing:
        ctx.raised(got, (FieldSelectorKeyError, FieldSelectorAttributeError),
                   "get %r from %r" % (path, x))
        ctx.ok(isinstance(got.exc, FieldSelectorException), "error class")
        ctx.ok(got2.ok and got2.value is None, "get_or_none of missing %r "
               "%r", path, got2)
        ctx.ev("get_missing")
    else:
        v = ctx.value(got, "get %r from %r" % (path, x))
        ctx.ok(same_result(v, want), "get %r from %r is %r, not %r", path, x,
               v, want)
        ctx.ok(got2.ok and same_result(got2.value, want), "get_or_none %r "
               "%r, not %r", path, got2, want)
        ctx.ev("get")
        if model.wild:
            ctx.ev("wild")
            if has_none(want):
                ctx.ev("wild_partial")
    if len(path) > 2:
        ctx.ev("deep")
    judge_state(ctx, model.heap, "get %r" % path)
    return missing


def expected(fn, model):
    try:
        return "done", fn()
    except Missing:
        return "missing", None
    except Fails as e:
        return "fails", str(e)
    except Unjudged as e:
        return "unjudged", str(e)


def do_put(ctx, rng, x, types, path, f, value):
    before = heap_of(x, value)
    model = Model(copy_heap(before), types)
    how, _ = expected(lambda: model.put(x, path, value), model)
    ctx.log("put", path, value, how)
    if how == "unjudged":
        ctx.ev("put_unjudged")
        return None
    got = attempt(f.put, x, value)
    what = "put %r at %r" % (value, path)
    if how == "done":
        ctx.value(got, what)
        judge_state(ctx, model.heap, what)
        back = attempt(f.get, x)
        reads = expected(lambda: Model(heap_of(x), types).get(x, path), None)
        if reads[0] == "done":
            ctx.ok(back.ok and same_result(back.value, reads[1]),
                   "get after %s %r", what, back)
            if not model.wild and path[-1] is not None and not (
                    isinstance(value, dict)):
                ctx.ok(back.value is value, "%s, get %r", what, back)
        ctx.ev("put")
        return True
    ctx.ok(not got.ok, "%s %r, though it %s", what, got, how)
    if how == "missing":
        ctx.raised(got, FieldSelectorException, what)
    ctx.ev("put_fail")
    if model.wild:
        return None
    judge_state(ctx, before, "failing " + what)
    return False


def do_delete(ctx, rng, x, types, path, f):
    before = heap_of(x)
    model = Model(copy_heap(before), types)
    how, _ = expected(lambda: model.delete(x, path), model)
    ctx.log("delete", path, how)
    if how == "unjudged":
        ctx.ev("delete_unjudged")
        return None
    got = attempt(f.delete, x)
    what = "delete %r" % path
    if how == "done":
        if got.ok or any(differences(before)):
            ctx.value(got, what)
            judge_state(ctx, model.heap, what)
            ctx.ev("delete")
            return True
        # nothing was to be deleted
        judge_state(ctx, model.heap, what)
        ctx.raised(got, FieldSelectorException, what)
        return False
    ctx.ok(not got.ok, "%s %r, though it %s", what, got, how)
    if how == "missing":
        ctx.raised(got, FieldSelectorException, what)
    ctx.ev("delete_fail")
    if model.wild:
        return None
    judge_state(ctx, before, "failing " + what)
    return False


def do_post(ctx, rng, x, types, path, f, value):
    before = heap_of(x, value)
    model = Model(copy_heap(before), types)
    how, count = expected(lambda: model.post(x, path, value), model)
    ctx.log("post", path, value, how)
    if how == "unjudged":
        ctx.ev("post_unjudged")
        return None
    got = attempt(f.post, x, value)
    what = "post %r at %r" % (value, path)
    if how == "done":
        ctx.value(got, what)
        ctx.ok(type(got.value) is int and got.value == count, "%s returned "
               "%r, not %r", what, got.value, count)
        judge_state(ctx, model.heap, what)
        for n in model.heap.values():
            now = node_of(n.obj)
            for slots, real in ((n.items, now.items), (n.attrs, now.attrs)):
                for k, v in (slots.items() if isinstance(slots, dict) else
                             enumerate(slots or ())):
                    if isinstance(v, New):
                        v.check(ctx, real[k])
                        ctx.ev("post_created")
                        if isinstance(v.inner, New):
                            ctx.ev("post_chain")
        if not model.wild and not isinstance(value, dict) and \
                path[-1] is not None:
            back = attempt(f.get, x)
            ctx.ok(back.ok and back.value is value, "%s, get %r", what, back)
        ctx.ev("post")
        return True
    ctx.ok(not got.ok, "%s %r, though it %s", what, got, how)
    ctx.ev("post_fail")
    return None


def wildcards(ctx, rng):
    """Selectors with several wildcards"""
    history(ctx, rng, nested_options(rng), .75)


def history(ctx, rng, o=None, wild=.25):
    o, recs, types, x = build(ctx, rng, o)
    ctx.log("structure", x)
    for r in recs:
        ctx.log(r.describe())
    shape = []
    changed = deep = False
    for _ in range(rng.randrange(4, 14)):
        k = rng.randrange(10) if wild < .5 else rng.choice(
            [0, 1, 4, 5, 6, 6, 7, 7, 7, 8])
        if wild > .5:
            path = walk(rng, types, x, wild, .02, .03)
        else:
            path = walk(rng, types, x, wild, .15 if k in (6, 7) else .25,
                        .5 if k in (6, 7) else .1)
        several = path.count(None) > 1
        deep = deep or len(path) > 1
        f = make_selector(ctx, rng, path)
        if k < 4:
            try:
                do_get(ctx, rng, x, types, path, f)
            except Unjudged:
                pass
            r = False
        elif k < 6:
            value = a_value(rng, o, recs, types, x, path)
            r = do_put(ctx, rng, x, types, path, f, value)
            if r and rng.random() < .3:
                f.delete(x) if len(path) == 1 and path[0] is None else None
        elif k < 8:
            value = a_value(rng, o, recs, types, x, path)
            r = do_post(ctx, rng, x, types, path, f, value)
        else:
            r = do_delete(ctx, rng, x, types, path, f)
            if r and not any(s is None for s in path) and isinstance(
                    path[-1], str):
                got = attempt(f.get, x)
                ctx.raised(got, FieldSelectorException, "get %r after "
                           "deleting it" % path)
                ctx.ok(f.get_or_none(x) is None, "get_or_none after delete")
        changed = changed or r
        if r and several and k >= 4:
            ctx.ev("several_wildcards")
            ctx.ev("several_wildcards_%s" % (
                "put" if k < 6 else "post" if k < 8 else "delete"))
        ctx.equal(f.selectors, path, "the selector, after use")
        shape.append((k, path))
    if changed and deep:
        ctx.sig(snap_types(x), shape)


def snap_types(x):
    return [(n.kind, sorted(map(str, n.attrs)))
            for n in heap_of(x).values()]


def create(ctx, rng):
    """post() fills a blank structure, in the order which selectors have"""
    o = Options(p_lazy=0, p_ro=0, p_required=0, p_default=0, p_extraneous=0,
                json=rng.choice([True, False, None]),
                keys=["k1", "k2", "x y"], p_pk=.1, p_unset=.2,
                kinds=["int", "str", "any", "rec", "rec", "list", "list",
                       "dict", "plaindict"], item_kinds=["rec", "rec", "rec"],
                p_coll_attr=.2)
    recs = schema(rng, o, 3)
    r = recs[-1]
    d = r.desc(rng, o)
    leaves = []

    def collect(d, path):
        if d.kind == "rec":
            for n, v in d.content.items():
                collect(v, path + [n])
        elif d.kind in ("list", "dict"):
            for k, v in d.content:
                if v.kind in ("list", "dict", "rec"):
                    collect(v, path + [k])
        elif d.kind == "value":
            leaves.append((path, d.build()))
    collect(d, [])
    # lists can only be filled in order; other orders don't matter
    order = list(range(len(leaves)))
    rng.shuffle(order)
    groups = {}
    keys = [tuple(p) for p, v in leaves]
    done = []
    pending = [leaves[i] for i in order]
    x = r.cls()
    types = type_map(recs)
    ctx.log("leaves", leaves)
    stuck = 0
    while pending and stuck <= len(pending):
        path, v = pending.pop(0)
        if not in_order(x, path):
            pending.append((path, v))
            stuck += 1
            continue
        stuck = 0
        got = attempt(FieldSelector(path).post, x, v)
        ctx.ok(got.ok and got.value == 1, "post %r at %r %r", v, path, got)
        done.append((path, v))
        ctx.ev("post")
        for p, w in done:
            g = attempt(FieldSelector(p).get, x)
            ctx.ok(g.ok and g.value == w and type(g.value) is type(w),
                   "after post at %r, get %r %r", path, p, g)
    for p, w in done:
        ctx.ok(follow_plain(x, p) == w, "followed %r", p)
    if len(done) > 2:
        ctx.sig([p for p, v in done])


def in_order(x, path):
    """Can the place be created now?"""
    for s in path:
        n = node_of(x)
        if n is None:
            return True
        if n.kind in ("list", "plist"):
            if s > len(n.items):
                return False
            if s == len(n.items):
                x = None
            else:
                x = n.items[s]
        elif n.kind in ("dict", "pdict"):
            x = n.items.get(s)
        else:
            x = n.attrs.get(s)
        if x is None:
            # within new lists, only the first item
            rest = path[path.index(s):]
            i = path.index(s)
            return all(not (isinstance(q, int) and q > 0)
                       for q in path[i + 1:])
    return True


def follow_plain(x, path):
    for s in path:
        x = getattr(x, s) if type(x).__mro__[-2] is not dict and isinstance(
            s, str) and not hasattr(x, "keys") else x[s]
    return x


SCENARIOS = [
    ("history", history, 7500, 200000), ("create", create, 1500, 30000),
    ("wildcards", wildcards, 2000, 50000)]
