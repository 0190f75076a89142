"""A shadow of a structure of records, collections and plain containers.

The shadow maps every container (by identity) to its contents, which are the
very objects stored; operations on places are modelled on it in plain Python
and then compared with what the library did to the real structure.
"""
from normalize import Record
from normalize.coll import DictCollection, ListCollection


class Missing(Exception):
    """The place does not exist: a selector error is expected"""


class Fails(Exception):
    """The operation can't succeed: an exception is expected"""


class Unjudged(Exception):
    """Not specified"""


class Any(object):
    """Some new object of the type"""
    def __init__(self, isa, why):
        self.isa = isa
        self.why = why

    def __repr__(self):
        return "<a new %s>" % (self.isa,)


ABSENT = object()


class Node(object):
    __slots__ = ("obj", "kind", "items", "attrs")

    def __init__(self, obj, kind, items, attrs):
        self.obj = obj
        self.kind = kind        # rec / list / dict / plist / pdict
        self.items = items
        self.attrs = attrs

    def copy(self):
        return Node(self.obj, self.kind, None if self.items is None else
                    self.items.copy(), dict(self.attrs))

    def children(self):
        if self.kind in ("list", "plist"):
            yield from self.items
        elif self.items is not None:
            yield from self.items.values()
        yield from self.attrs.values()


def node_of(obj):
    """-> Node, or None if the object isn't a container"""
    if isinstance(obj, Record):
        d = dict(obj.__dict__)
        if isinstance(obj, ListCollection):
            return Node(obj, "list", list(d.pop("_values")), d)
        if isinstance(obj, DictCollection):
            return Node(obj, "dict", dict(d.pop("_values")), d)
        return Node(obj, "rec", None, d)
    if type(obj) is list:
        return Node(obj, "plist", list(obj), {})
    if type(obj) is dict:
        return Node(obj, "pdict", dict(obj), {})
    return None


def heap_of(*roots):
    out = {}
    todo = list(roots)
    while todo:
        x = todo.pop()
        if id(x) in out:
            continue
        n = node_of(x)
        if n:
            out[id(x)] = n
            todo.extend(n.children())
    return out


def copy_heap(heap):
    return dict((k, n.copy()) for k, n in heap.items())


def kind_of(obj):
    n = node_of(obj)
    return n.kind if n else "value"


def same_child(got, want):
    if isinstance(want, Any):
        return want.isa is None or isinstance(got, want.isa)
    return got is want


def differences(want):
    """What differs between the objects and their predicted contents"""
    for n in want.values():
        now = node_of(n.obj)
        for what, x, y in (("items", now.items, n.items),
                           ("attributes", now.attrs, n.attrs)):
            if x is None and y is None:
                continue
            if isinstance(x, dict):
                if what == "attributes" and set(x) != set(y) or \
                        what == "items" and list(x) != list(y):
                    yield n.obj, "%s %r, not %r" % (what, list(x), list(y))
                    continue
                pairs = [(k, x[k], y[k]) for k in x]
            else:
                if len(x) != len(y):
                    yield n.obj, "%d items, not %d" % (len(x), len(y))
                    continue
                pairs = [(k, p, q) for k, (p, q) in enumerate(zip(x, y))]
            for k, p, q in pairs:
                if not same_child(p, q):
                    yield n.obj, "%r is %r, not %r" % (k, p, q)


class Model(object):
    """Operations on a heap"""

    def __init__(self, heap, types):
        self.heap = heap
        self.types = types      # class -> Rec or T
        self.wild = False       # did it apply to several items

    def node(self, obj):
        if isinstance(obj, Any):
            raise Unjudged("in an object just made")
        return self.heap.get(id(obj))

    def declared(self, n, name):
        t = self.types[type(n.obj)]
        if n.kind == "rec":
            return t.attrs.get(name)
        return t.own.get(name)

    def step(self, obj, s):
        """-> the object there; ABSENT; or raises Missing (can't be there)"""
        n = self.node(obj)
        if n is None:
            raise Missing()
        if n.kind in ("list", "plist"):
            if isinstance(s, str):
                if n.kind == "plist" or not self.declared(n, s):
                    raise Missing()
                return n.attrs.get(s, ABSENT)
            if -len(n.items) <= s < len(n.items):
                return n.items[s]
            return ABSENT
        if n.kind in ("dict", "pdict"):
            return n.items.get(s, ABSENT)
        if not isinstance(s, str) or not self.declared(n, s):
            raise Missing()
        return n.attrs.get(s, ABSENT)

    def all_items(self, obj):
        n = self.node(obj)
        if isinstance(obj, (str, bytes)):
            raise Unjudged("wildcard over text")
        if n is None or n.items is None:
            raise Missing()
        self.wild = True
        return list(n.items.values() if isinstance(n.items, dict)
                    else n.items)

    def get(self, obj, path):
        for i, s in enumerate(path):
            if s is None:
                out, failed = [], 0
                items = self.all_items(obj)
                for x in items:
                    try:
                        out.append(self.get(x, path[i + 1:]))
                    except Missing:
                        failed += 1
                        out.append(None)
                if items and failed == len(items):
                    raise Missing()
                return Gathered(out)
            obj = self.step(obj, s)
            if obj is ABSENT:
                raise Missing()
        return obj

    def follow(self, obj, s):
        x = self.step(obj, s)
        if x is ABSENT:
            raise Missing()
        return x

    # -- storing

    def accept(self, t, value):
        """-> what is stored when the value is stored in a typed slot"""
        if t is None or t.kind == "any" or isinstance(value, t.isa()):
            return value
        if isinstance(value, Alien):
            if t.kind in ("str", "bool") or t.kind == "union":
                raise Unjudged("converted")
            raise Fails("unacceptable")
        if t.kind == "rec" and isinstance(value, dict) and not t.rec.json:
            if not value or not set(value) <= set(t.rec.attrs):
                raise Unjudged("converted")
            return Any(t.isa(), "converted")
        raise Unjudged("converted")

    def put(self, obj, path, value):
        s = path[0]
        if len(path) > 1:
            if s is None:
                for x in self.all_items(obj):
                    self.put(x, path[1:], value)
            else:
                self.put(self.follow(obj, s), path[1:], value)
            return
        n = self.node(obj)
        if n is None:
            raise Fails("not a container")
        if s is None:
            if n.kind == "rec":
                raise Fails("a record")
            if n.kind not in ("list", "plist"):
                raise Unjudged("all items of a dict")
            if not isinstance(value, list):
                raise Unjudged("all items from something else")
            t = self.types[type(obj)].item if n.kind == "list" else None
            n.items = [self.accept(t, x) for x in value]
        elif n.kind in ("list", "plist") and not isinstance(s, str):
            t = self.types[type(obj)].item if n.kind == "list" else None
            value = self.accept(t, value)
            if not -len(n.items) <= s < len(n.items):
                raise Missing()
            n.items[s] = value
        elif n.kind in ("dict", "pdict"):
            t = self.types[type(obj)].item if n.kind == "dict" else None
            n.items[s] = self.accept(t, value)
        else:
            if not isinstance(s, str) or n.kind == "plist":
                raise Fails("no such place")
            a = self.declared(n, s)
            if a is None:
                raise Unjudged("undeclared attribute")
            if n.kind == "rec":
                if a.ro:
                    raise Fails("read-only")
                if a.required and value is None:
                    raise Fails("required")
                a = a.type
            n.attrs[s] = self.accept(a, value)

    def delete(self, obj, path):
        s = path[0]
        if len(path) > 1:
            if s is None:
                items = self.all_items(obj)
                failed = 0
                for x in items:
                    try:
                        self.delete(x, path[1:])
                    except Missing:
                        failed += 1
                if items and failed == len(items):
                    raise Missing()
            else:
                self.delete(self.follow(obj, s), path[1:])
            return
        n = self.node(obj)
        if n is None:
            raise Unjudged("within a scalar")
        if s is None:
            if n.kind == "rec":
                raise Missing()
            n.items.clear()
        elif n.kind in ("list", "plist") and not isinstance(s, str):
            if not -len(n.items) <= s < len(n.items):
                raise Missing()
            del n.items[s]
        elif n.kind in ("dict", "pdict"):
            if s not in n.items:
                raise Missing()
            del n.items[s]
        else:
            if not isinstance(s, str):
                raise Missing()
            if n.kind == "rec" and s in n.attrs:
                a = self.declared(n, s)
                if a and (a.required or a.ro):
                    raise Fails("required or read-only")
            n.attrs.pop(s, None)

    # -- creating

    def post(self, obj, path, value, made=None):
        """-> the number of places set.  ``made`` collects the chain of
        created objects, [(T, slot of the next)]"""
        for i, s in enumerate(path[:-1]):
            if s is None:
                return sum(self.post(x, path[i + 1:], value)
                           for x in self.all_items(obj))
            x = self.step_for_post(obj, s)
            if x is ABSENT:
                self.create(obj, path[i:], value)
                return 1
            obj = x
        self.put(obj, path[-1:], value)
        return 1

    def step_for_post(self, obj, s):
        try:
            return self.step(obj, s)
        except Missing:
            raise Fails("can't be created")

    def slot_type(self, n, s):
        """-> T of what may be created there"""
        if n.kind in ("list", "dict"):
            if isinstance(s, str) and n.kind == "list":
                return self.declared(n, s)
            if n.kind == "list" and s != len(n.items):
                raise Fails("out of order")
            return self.types[type(n.obj)].item
        if n.kind in ("plist", "pdict"):
            raise Fails("untyped")
        a = self.declared(n, s)
        if a.ro:
            raise Fails("read-only")
        return a.type

    def create(self, obj, path, value):
        n = self.node(obj)
        t = self.slot_type(n, path[0])
        new = New(t, path[1:], value, self)
        s = path[0]
        if n.kind == "list" and not isinstance(s, str):
            n.items.append(new)
        elif n.kind in ("list", "rec"):
            n.attrs[s] = new
        else:
            n.items[s] = new


class New(Any):
    """A created object, and those created within it"""
    def __init__(self, t, path, value, model):
        if t.kind not in ("rec", "list", "dict", "plaindict", "plainlist"):
            if path[0] is None:
                raise Unjudged("all of a new scalar")
            raise Fails("can't create %r" % t)
        super(New, self).__init__(t.isa(), "created")
        self.t = t
        self.slot = s = path[0]
        self.inner = None
        self.final = len(path) == 1
        if s is None:
            # all of the items of a new collection
            if t.kind == "rec":
                raise Fails("wildcard over a record")
            if self.final:
                raise Unjudged("all items of a new collection")
            raise Unjudged("count of 0")
        at = None
        if t.kind == "rec":
            a = t.rec.attrs.get(s) if isinstance(s, str) else None
            if a is None:
                raise Fails("no such attribute") if not self.final or \
                    not isinstance(s, str) else Unjudged("undeclared")
            for b in t.rec.attrs.values():
                if b.required and not b.default and not (
                        b is a and self.final):
                    raise Fails("required attributes")
            if not self.final and a.default:
                raise Unjudged("created with a default within")
            if not self.final and a.ro:
                raise Fails("read-only")
            at = a.type
        elif isinstance(s, str) and t.kind in ("list", "plainlist"):
            if s not in t.own:
                raise Fails("no such place") if not self.final or \
                    t.kind == "plainlist" else Unjudged("undeclared")
            at = t.own[s]
        elif t.kind in ("list", "plainlist"):
            if self.final or s != 0 or t.kind == "plainlist":
                raise Unjudged("new item") if self.final and s == 0 else \
                    Fails("no such item")
            at = t.item
        elif t.kind == "dict":
            at = t.item
        elif not self.final:
            raise Fails("untyped")
        if self.final:
            if value is None and t.kind == "rec" and a.required:
                raise Fails("required")
            self.inner = model.accept(at, value)
        else:
            self.inner = New(at, path[1:], value, model)

    def check(self, ctx, obj):
        """Judge that the created object has only what is needed"""
        n = node_of(obj)
        s = self.slot
        ctx.ok(type(obj) is self.isa, "created %r, not a %r", obj, self.t)
        slots = n.items if n.items is not None and not (
            n.kind == "list" and isinstance(s, str)) else n.attrs
        if n.kind == "rec":
            want = set(b.name for b in self.t.rec.attrs.values()
                       if b.default and not b.lazy) | {s}
            ctx.ok(set(n.attrs) - {"unknown_json_keys"} == want,
                   "created %r with attributes %r, not %r", obj,
                   sorted(n.attrs), sorted(want))
        else:
            have = (list(range(len(n.items))) if n.kind in ("list", "plist")
                    else list(n.items)) + list(n.attrs)
            ctx.ok(have == [s], "created %r with %r, not just %r", obj, have,
                   s)
        x = slots[s]
        if isinstance(self.inner, New):
            self.inner.check(ctx, x)
        else:
            ctx.ok(same_child(x, self.inner), "created %r with %r, not %r",
                   obj, x, self.inner)


class Gathered(list):
    """The results for all items"""


class Alien(object):
    __slots__ = ()

    def __repr__(self):
        return "Alien()"


def same_result(got, want):
    """Is it the very object, or a list of these?"""
    if isinstance(want, Gathered):
        return type(got) is list and len(got) == len(want) and all(
            same_result(a, b) for a, b in zip(got, want))
    return got is want
