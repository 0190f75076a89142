"""C09: typed lists in lock step with plain lists."""
import copy

import normalize.exc as exc
from mon.collmodel import (
    Boom, IterOnly, KINDS, Item, MapLike, an_item, iterable, list_class,
    same_item, dict_class,
)
from mon.core import attempt, Violation
from mon.recmodel import new_class
from mon.sizes import few
from normalize import Property, Record
from normalize import JsonRecordList
from normalize.coll import ListCollection, DictCollection, list_of
# whether warnings are those of this thread
ALONE = True

RULE = (
    "a case declares a typed list class (10 item types x generic / JSON / "
    "with attributes / plain subclass, sometimes as an attribute of a "
    "record), constructs it from a random source and applies 8-25 random "
    "list operations in lock step with a plain list; non-trivial: at least "
    "one modification succeeded, distinct by trace")
ASSUMPTIONS = [
    "items have deterministic conversions and sane equality",
    "membership and equality tests with unconvertible values are not judged",
    "a typed dict as the source of a list is not judged",
    "false scalars and text as the source of a list are not judged",
]
NEED = {"mutations": 20000, "rejected": 3000, "index_errors": 800,
        "value_errors": 500, "conversions": 8000, "constructions": 3000,
        "lookups": 10000, "slices": 3000, "half_way": 300, "self_source": 200}

LIBERR = exc.NormalizeError


class Run(object):
    def __init__(self, ctx, rng):
        self.ctx = ctx
        self.rng = rng
        self.kind = rng.choice(KINDS)
        self.cls = list_class(rng, self.kind)
        self.holder = None
        if rng.random() < .3:
            self.holder = new_class(Record, {
                "x": Property(isa=self.cls)}, "Holder")()
        self.mutated = False
        ctx.log("%s of %s%s" % (
            self.cls.__mro__[1].__name__, self.kind.name,
            " in a record" if self.holder is not None else ""))

    def items(self, n=None, pbad=.06):
        if n is None:
            n = self.rng.choice([0, 1, 1, 2, 3, 4, 6])
            many = few(self.rng, n + 1)
            if many > n:
                n = many
                pbad /= 10
        return [an_item(self.rng, self.kind, pbad) for _ in range(n)]

    def check(self, what):
        """The list is as the model"""
        ctx = self.ctx
        L = self.L if self.holder is None else self.holder.x
        if self.holder is not None:
            ctx.ok(L is self.L, "%s: attribute changed", what)
        got = list(L)
        for x in got:
            ctx.ok(isinstance(x, self.kind.itemtype),
                   "%s: holds %r which isn't a %s", what, x, self.kind.name)
        ctx.ok(len(got) == len(self.M) and all(
            x is y for x, y in zip(got, self.M)),
            "%s: contents are %r, expected %r", what, got, self.M)
        ctx.ok(len(L) == len(self.M), "%s: length is %r", what, len(L))
        ctx.ok(bool(L) == bool(self.M), "%s: truth is %r", what, bool(L))
        ctx.ok([L[i] for i in range(len(self.M))] == self.M,
               "%s: items by index", what)
        ctx.ok(list(L.itertuples()) == list(enumerate(self.M)),
               "%s: itertuples", what)

    def adopt(self, want, what):
        """want: model list with Items for the incoming ones.  Check them and
        replace by the stored objects."""
        got = list(self.L)
        self.ctx.ok(len(got) == len(want), "%s: contents are %r, expected %r",
                    what, got, want)
        for i, (g, w) in enumerate(zip(got, want)):
            if isinstance(w, Item):
                self.ctx.ok(same_item(g, w), "%s: item %d is %r, expected %r",
                            what, i, g, w.want)
                self.ctx.ev("conversions", not w.asis)
            else:
                self.ctx.ok(g is w, "%s: item %d is %r, expected %r",
                            what, i, g, w)
        self.M = got
        self.mutated = True
        self.ctx.ev("mutations")
        self.check(what)

    def rejected(self, got, types, what):
        self.ctx.raised(got, types, what)
        self.check(what + " (failed)")
        self.ctx.ev("rejected")

    def source(self, items, allow_map=True):
        """-> source, booms, text"""
        rng = self.rng
        r = rng.random()
        if allow_map and r < .12:
            n = len(items)
            keys = rng.sample(range(n + 80), n) if rng.random() < .5 else \
                rng.sample("abcdefghijkl" if n <= 12 else [
                    "k%03d" % i for i in range(n + 80)], n)
            d = dict((k, x.raw) for k, x in zip(sorted(keys), items))
            d = dict(sorted(d.items(), key=lambda i: hash(str(i[0])) % 7))
            d = {k: d[k] for k in rng.sample(sorted(d), n)}
            return (MapLike(d) if r < .04 else d), False, "mapping %r" % d
        if allow_map and r < .2 and not any(x.bad for x in items):
            # a typed collection of the same or another class
            other = new_class(ListCollection, {"itemtype": object}, "Other")
            raws = [x.raw for x in items]
            return other(raws), False, "collection %r" % raws
        s, form, boom = iterable(rng, items)
        return s, boom, "%s %r" % (form, items)

    def construct(self):
        ctx, rng = self.ctx, self.rng
        while True:
            items = self.items()
            src, boom, text = self.source(items)
            if not items and rng.random() < .3:
                src, boom, text = None, False, "nothing"
            how = rng.randrange(3)
            bad = any(x.bad for x in items)
            if boom and any(x.bad for x in items[:src.boom]):
                wanted = (Boom, LIBERR)
            elif boom:
                wanted = Boom
            else:
                wanted = LIBERR
            json = self.cls.__mro__[1].__name__.startswith("Json")
            if json and how != 1:
                how = 1     # positional is JSON data
            if self.holder is not None:
                if rng.random() < .5:
                    def make():
                        self.holder.x = src
                        return self.holder.x
                    if src is None or json:
                        continue
                    if isinstance(src, dict) and self.kind.coerceitem:
                        pass
                    # an attribute's converter is the class
                    got = attempt(make)
                    wanted = (wanted if isinstance(wanted, tuple) else
                              (wanted,)) + (LIBERR,)
                else:
                    got = attempt(self.cls, **({"values": src}
                                               if src is not None else {}))
                    if got.ok:
                        self.holder.x = got.value
            elif how == 0 or src is None and rng.random() < .5:
                got = attempt(self.cls, src) if src is not None else attempt(
                    self.cls)
            elif how == 2:
                got = attempt(self.cls, src)
            else:
                got = attempt(self.cls, values=src)
            what = "construct from %s" % text
            ctx.log(what)
            ctx.ev("constructions")
            if bad or boom:
                ctx.raised(got, wanted, what)
                ctx.ev("rejected")
                ctx.ev("half_way", boom)
                continue
            self.L = ctx.value(got, what)
            ctx.ok(isinstance(self.L, self.cls), "%s gave a %s", what,
                   type(self.L).__name__)
            self.M = []
            self.adopt(items, what)
            return

    # -- operations
    def an_index(self):
        n = len(self.M)
        r = self.rng.random()
        if n and r < .75:
            return self.rng.randrange(-n, n)
        return self.rng.choice([n, -n - 1, n + 3, -n - 5, 0, -1])

    def a_slice(self):
        def edge():
            n = len(self.M)
            return self.rng.choice([None, None] + list(range(-n - 2, n + 3)))
        step = self.rng.choice([None, None, None, 1, 2, -1, -2, 3])
        return slice(edge(), edge(), step)

    def op_getitem(self):
        i = self.an_index()
        got, want = attempt(lambda: self.L[i]), attempt(lambda: self.M[i])
        if want.ok:
            v = self.ctx.value(got, "L[%d] of %r" % (i, self.M))
            self.ctx.ok(v is want.value, "L[%d] is %r", i, v)
            self.ctx.ev("lookups")
        else:
            self.rejected(got, IndexError, "L[%d] of %d" % (i, len(self.M)))
            self.ctx.ev("index_errors")

    def op_getslice(self):
        s = self.a_slice()
        v = self.ctx.value(attempt(lambda: self.L[s]), "L[%s]" % s)
        self.ctx.ok(list(v) == self.M[s], "L[%s] is %r of %r", s, v, self.M)
        self.ctx.ev("slices")

    def op_setitem(self):
        i = self.an_index()
        x = an_item(self.rng, self.kind, .2)
        what = "L[%d] = %r" % (i, x)
        want = list(self.M)
        w = attempt(want.__setitem__, i, x)

        def do():
            self.L[i] = x.raw
        got = attempt(do)
        self.ctx.log(what)
        if x.bad and not w.ok:
            self.rejected(got, (LIBERR, IndexError), what)
        elif x.bad:
            self.rejected(got, LIBERR, what)
        elif not w.ok:
            self.rejected(got, IndexError, what)
            self.ctx.ev("index_errors")
        else:
            self.ctx.value(got, what)
            self.adopt(want, what)

    def op_delitem(self):
        i = self.an_index()
        what = "del L[%d]" % i
        want = list(self.M)
        w = attempt(want.__delitem__, i)
        got = attempt(self.L.__delitem__, i)
        self.ctx.log(what)
        if not w.ok:
            self.rejected(got, IndexError, what)
            self.ctx.ev("index_errors")
        else:
            self.ctx.value(got, what)
            self.adopt(want, what)

    def op_delslice(self):
        s = self.a_slice()
        what = "del L[%s]" % s
        want = list(self.M)
        del want[s]
        self.ctx.log(what)
        self.ctx.value(attempt(self.L.__delitem__, s), what)
        self.adopt(want, what)

    def op_setslice(self):
        s = self.a_slice()
        n = len(range(*s.indices(len(self.M))))
        items = self.items(n if self.rng.random() < .5 else None)
        src, form, boom = iterable(self.rng, items)
        if self.rng.random() < .1 and s.step is None:
            src, form, boom = self.L, "itself", False
            items = list(self.M)
            self.ctx.ev("self_source")
        what = "L[%s] = %s %r" % (s, form, items)
        self.ctx.log(what)

        def do():
            self.L[s] = src
        want = list(self.M)

        def ref():
            want[s] = items
        w = attempt(ref)
        got = attempt(do)
        bad = any(isinstance(x, Item) and x.bad for x in items)
        if boom or bad:
            self.rejected(got, (LIBERR, Boom, ValueError), what)
            self.ctx.ev("half_way", boom)
        elif not w.ok:
            self.rejected(got, ValueError, what)
            self.ctx.ev("value_errors")
        else:
            self.ctx.value(got, what)
            self.adopt(want, what)
            self.ctx.ev("slices")

    def op_append(self):
        x = an_item(self.rng, self.kind, .15)
        what = "append(%r)" % x
        self.ctx.log(what)
        got = attempt(self.L.append, x.raw)
        if x.bad:
            self.rejected(got, LIBERR, what)
        else:
            self.ctx.equal(self.ctx.value(got, what), None, what)
            self.adopt(self.M + [x], what)

    def op_insert(self):
        x = an_item(self.rng, self.kind, .15)
        i = self.an_index()
        if self.rng.random() < .2:
            i = self.rng.choice([100, -100, 0, len(self.M)])
        what = "insert(%d, %r)" % (i, x)
        self.ctx.log(what)
        got = attempt(self.L.insert, i, x.raw)
        if x.bad:
            self.rejected(got, LIBERR, what)
        else:
            self.ctx.equal(self.ctx.value(got, what), None, what)
            want = list(self.M)
            want.insert(i, x)
            self.adopt(want, what)

    def op_extend(self):
        items = self.items()
        src, form, boom = iterable(self.rng, items)
        r = self.rng.random()
        if r < .08 and len(self.M) < 40:
            src, form, boom = self.L, "itself", False
            items = list(self.M)
            self.ctx.ev("self_source")
        elif r < .16 and len(self.M) < 40:
            L = self.L
            src, form, boom = (x for x in L), "generator of itself", False
            items = list(self.M)
            # a list grows while iterated over: unspecified for plain lists
            return
        what = "extend(%s %r)" % (form, items)
        self.ctx.log(what)
        got = attempt(self.L.extend, src)
        bad = any(isinstance(x, Item) and x.bad for x in items)
        if boom or bad:
            self.rejected(got, (LIBERR, Boom), what)
            self.ctx.ev("half_way", boom)
        else:
            self.ctx.equal(self.ctx.value(got, what), None, what)
            self.adopt(self.M + items, what)

    def op_pop(self):
        args = () if self.rng.random() < .4 else (self.an_index(),)
        what = "pop%r" % (args,)
        want = list(self.M)
        w = attempt(want.pop, *args)
        got = attempt(self.L.pop, *args)
        self.ctx.log(what)
        if w.ok:
            v = self.ctx.value(got, what)
            self.ctx.ok(v is w.value, "%s of %r returned %r", what, self.M, v)
            self.adopt(want, what)
        else:
            self.rejected(got, IndexError, what)
            self.ctx.ev("index_errors")

    def a_probe(self):
        if self.M and self.rng.random() < .7:
            v = self.rng.choice(self.M)
            return copy.deepcopy(v) if self.rng.random() < .5 else v
        return self.kind.good(self.rng)

    def op_remove(self):
        x = self.a_probe()
        what = "remove(%r)" % (x,)
        want = list(self.M)
        w = attempt(want.remove, x)
        got = attempt(self.L.remove, x)
        self.ctx.log(what)
        if w.ok:
            self.ctx.value(got, what)
            self.adopt(want, what)
        else:
            self.rejected(got, ValueError, what)
            self.ctx.ev("value_errors")

    def op_index(self):
        x = self.a_probe()
        args = (x,)
        n = len(self.M)
        for _ in range(self.rng.randrange(3)):
            args += (self.rng.randrange(-n - 3, n + 4),)
        what = "index%r" % (args,)
        w = attempt(self.M.index, *args)
        got = attempt(self.L.index, *args)
        if w.ok:
            self.ctx.same(self.ctx.value(got, what), w.value,
                          "%s of %r" % (what, self.M))
            self.ctx.ev("lookups")
        else:
            self.rejected(got, ValueError, "%s of %r" % (what, self.M))
            self.ctx.ev("value_errors")

    def op_count(self):
        x = self.a_probe()
        got = self.ctx.value(attempt(self.L.count, x), "count")
        self.ctx.same(got, self.M.count(x), "count(%r) of %r" % (x, self.M))
        self.ctx.ev("lookups")

    def op_contains(self):
        x = self.a_probe()
        want = x in self.M
        if self.kind.conv and self.rng.random() < .3:
            x, conv = self.kind.conv(self.rng)
            if isinstance(x, self.kind.itemtype):
                return
            want = conv in self.M
        got = self.ctx.value(attempt(lambda: x in self.L), "%r in" % (x,))
        self.ctx.same(got, want, "%r in %r" % (x, self.M))
        self.ctx.ev("lookups")

    def op_reverse(self):
        self.ctx.log("reverse()")
        got = attempt(self.L.reverse)
        self.ctx.equal(self.ctx.value(got, "reverse"), None, "reverse")
        self.adopt(self.M[::-1], "reverse")

    def op_sort(self):
        kw = {}
        if not self.kind.orderable or self.rng.random() < .5:
            kw["key"] = repr
        if self.rng.random() < .4:
            kw["reverse"] = self.rng.choice([True, False])
        what = "sort(%s)" % kw
        if self.rng.random() < .1 and self.M:
            n = [self.rng.randrange(len(self.M))]

            def key(x):
                n[0] -= 1
                if n[0] < 0:
                    raise Boom("key")
                return repr(x)
            self.rejected(attempt(self.L.sort, key=key), Boom, what)
            return
        self.ctx.log(what)
        got = attempt(self.L.sort, **kw)
        self.ctx.equal(self.ctx.value(got, what), None, what)
        self.adopt(sorted(self.M, **kw), what)

    def op_add(self):
        items = self.items()
        r = self.rng.random()
        bad = any(x.bad for x in items)
        json = self.cls.__mro__[1].__name__.startswith("Json")
        if r < .4 and not bad:
            other = self.cls(values=[x.raw for x in items])
            items = [Item(x, x, asis=True) for x in other]
            text = "own type"
        elif r < .5:
            other = self.L
            items = [Item(x, x, asis=True) for x in self.M]
            text = "itself"
            bad = False
        else:
            other = [x.raw for x in items]
            text = "list"
        if json and not isinstance(other, list):
            # the constructor takes JSON data
            pass
        what = "L + %s %r" % (text, items)
        self.ctx.log(what)
        before = list(other)
        if self.rng.random() < .25:
            def do():
                x = self.L
                x += other
                return x
        else:
            def do():
                return self.L + other
        got = attempt(do)
        if bad:
            self.rejected(got, LIBERR, what)
            return
        v = self.ctx.value(got, what)
        self.ctx.ok(isinstance(v, self.cls), "%s is a %s", what,
                    type(v).__name__)
        vals = list(v)
        want = self.M + items
        self.ctx.ok(len(vals) == len(want) and all(
            same_item(g, w) if isinstance(w, Item) else g is w
            for g, w in zip(vals, want)),
            "%s is %r", what, vals)
        self.check(what)
        self.ctx.ok(all(a is b for a, b in zip(before, list(other))) and
                    len(before) == len(list(other)),
                    "%s changed the operand", what)
        # the result is independent
        v.append(self.kind.good(self.rng))
        self.check(what + ", then append to the result")

    def op_equal(self):
        ctx = self.ctx
        same = list(self.M)
        other = list(self.M)
        r = self.rng.randrange(4)
        if r == 0 or not other:
            other.append(self.kind.good(self.rng))
        elif r == 1:
            other.pop(self.rng.randrange(len(other)))
        elif r == 2:
            other.reverse()
        else:
            other[self.rng.randrange(len(other))] = self.kind.good(self.rng)
        for o in (same, other):
            want = (o == self.M)
            for form in (o, self.cls(values=list(o))):
                what = "%r == %r" % (self.M, form)
                ctx.same(ctx.value(attempt(lambda: self.L == form), what),
                         want, what)
                ctx.same(ctx.value(attempt(lambda: self.L != form), what),
                         not want, what.replace("==", "!="))
        ctx.ev("lookups")

    def op_reversed(self):
        self.ctx.ok(list(reversed(self.L)) == self.M[::-1], "reversed()")

    def op_construct_from(self):
        """A copy of the list is independent of it"""
        got = attempt(self.cls, values=self.L)
        v = self.ctx.value(got, "copy by construction")
        self.ctx.ok(len(v) == len(self.M) and all(
            x is y for x, y in zip(v, self.M)), "copy by construction")
        v.append(self.kind.good(self.rng))
        if len(v) > 1:
            v.reverse()
        self.check("after changing a copy")

    def op_values(self):
        """The deprecated attribute for the list itself"""
        import warnings
        if self.rng.random() < .4:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                v = self.ctx.value(attempt(lambda: self.L.values), ".values")
            self.ctx.ok(v is self.L, ".values is %r", v)
            self.ctx.ok(len(w) == 1 or not ALONE,
                        ".values gave %d warnings", len(w))
            self.ctx.ev("lookups")
            return
        items = self.items()
        src, form, boom = iterable(self.rng, items)
        what = "values = %s %r" % (form, items)
        self.ctx.log(what)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = attempt(setattr, self.L, "values", src)
        if boom or any(x.bad for x in items):
            self.rejected(got, (LIBERR, Boom), what)
            self.ctx.ev("half_way", boom)
        else:
            self.ctx.value(got, what)
            self.adopt(items, what)

    def op_str(self):
        got = self.ctx.value(attempt(str, self.L), "str()")
        self.ctx.ok(got == "<%s: %d item(s)>" % (
            self.cls.__name__, len(self.M)), "str() is %r", got)

    OPS = [op_values, op_str, op_getitem, op_getslice, op_setitem, op_delitem, op_delslice,
           op_setslice, op_setslice, op_append, op_append, op_insert,
           op_insert, op_extend, op_extend, op_pop, op_pop, op_remove,
           op_index, op_index, op_count, op_contains, op_reverse, op_sort,
           op_add, op_equal, op_reversed, op_construct_from]

    def run(self):
        self.construct()
        for _ in range(self.rng.randrange(8, 26)):
            self.rng.choice(self.OPS)(self)
            if self.rng.random() < .2:
                self.check("between operations")
        if self.mutated:
            self.ctx.sig(*self.ctx.trace)


def history(ctx, rng):
    Run(ctx, rng).run()


def classes(ctx, rng):
    """Rejected sources, incomplete declarations, and generic types"""
    kind = rng.choice(KINDS)
    cls = list_class(rng, kind)
    r = rng.randrange(3)
    if r == 0:
        src = rng.choice([5, 1.5, True, object()])
        ctx.raised(attempt(cls, values=src), LIBERR,
                   "%s list from %r" % (kind.name, src))
        ctx.ev("bad_source")
    elif r == 1:
        a, b = list_of(kind.itemtype), list_of(kind.itemtype)
        ctx.ok(a is b, "list_of(%s) is a different type each time", kind.name)
        ctx.ok(issubclass(a, ListCollection) and a.itemtype is kind.itemtype,
               "list_of(%s)", kind.name)
    else:
        bare = new_class(ListCollection, {}, "Bare")
        got = attempt(bare, [kind.good(rng)])
        ctx.raised(got, LIBERR, "list class without itemtype")
        bare = new_class(JsonRecordList, {}, "BareJson")
        got = attempt(bare, rng.choice([[], [kind.good(rng)]]))
        ctx.raised(got, LIBERR, "JSON list class without itemtype")
    ctx.sig(kind.name, str(r))


SCENARIOS = [("history", history, 12000, 250000),
             ("classes", classes, 300, 1000)]
