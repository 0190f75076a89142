"""C10: typed dicts in lock step with plain dicts."""
import copy

import normalize.exc as exc
from mon.collmodel import (
    Boom, IterOnly, KINDS, Item, MapLike, NextOnly, SeqLike, an_item,
    dict_class, same_item,
)
from mon.core import attempt, Violation
from mon.recmodel import new_class
from mon.sizes import more_keys
from normalize import Property, Record
from normalize.coll import DictCollection, ListCollection, dict_of

RULE = (
    "a case declares a typed dict class (10 item types x generic / JSON / "
    "with attributes / plain subclass, sometimes as an attribute of a "
    "record), constructs it from a random source and applies 8-25 random "
    "dict operations in lock step with a plain dict; non-trivial: at least "
    "one modification succeeded, distinct by trace")
ASSUMPTIONS = [
    "items have deterministic conversions and sane equality",
    "a failing update() of several keys may have set the others",
    "plain iteration over a typed dict is not judged (documentation and "
    "dict disagree)", "false scalars and text as source are not judged",
]
NEED = {"mutations": 12000, "rejected": 2500, "key_errors": 1500,
        "conversions": 4000, "constructions": 3000, "lookups": 8000,
        "half_way": 100}
LIBERR = exc.NormalizeError
KEYS = ["a", "b", "c", "", u"\u00e9", 0, 1, 2, -1, None, (1, 2), ("k", 2),
        1.5, True, frozenset([1]), b"a"]


class WithKeys(object):
    """What dict.update takes: keys() and item access"""
    def __init__(self, d):
        self.d = d

    def keys(self):
        return list(self.d)

    def __getitem__(self, k):
        return self.d[k]


def pairs_iter(pairs, boom=None):
    for i, p in enumerate(pairs):
        if i == boom:
            raise Boom("half-way")
        yield p


class Run(object):
    def __init__(self, ctx, rng):
        self.ctx = ctx
        self.rng = rng
        self.kind = rng.choice(KINDS)
        self.cls = dict_class(rng, self.kind)
        self.holder = None
        if rng.random() < .3:
            self.holder = new_class(Record, {
                "x": Property(isa=self.cls)}, "Holder")()
        self.mutated = False
        ctx.log("%s of %s%s" % (
            self.cls.__mro__[1].__name__, self.kind.name,
            " in a record" if self.holder is not None else ""))

    def check(self, what):
        ctx = self.ctx
        D = self.D if self.holder is None else self.holder.x
        if self.holder is not None:
            ctx.ok(D is self.D, "%s: attribute changed", what)
        got = list(D.items())
        for k, x in got:
            ctx.ok(isinstance(x, self.kind.itemtype),
                   "%s: holds %r which isn't a %s", what, x, self.kind.name)
        want = list(self.M.items())
        ctx.ok(len(got) == len(want) and all(
            type(a[0]) is type(b[0]) and a[0] == b[0] and a[1] is b[1]
            for a, b in zip(got, want)),
            "%s: contents are %r, expected %r", what, got, want)
        ctx.ok(len(D) == len(want), "%s: length is %r", what, len(D))
        ctx.ok(bool(D) == bool(want), "%s: truth is %r", what, bool(D))
        ctx.ok(list(D.keys()) == list(self.M), "%s: keys()", what)
        ctx.ok(list(D.iterkeys()) == list(self.M), "%s: iterkeys()", what)
        vals = list(self.M.values())
        for name in ("values", "itervalues"):
            v = list(getattr(D, name)())
            ctx.ok(len(v) == len(vals) and all(
                a is b for a, b in zip(v, vals)), "%s: %s() is %r", what,
                name, v)
        for name in ("iteritems", "itertuples"):
            v = list(getattr(D, name)())
            ctx.ok([k for k, x in v] == list(self.M) and all(
                x is y for (k, x), y in zip(v, vals)), "%s: %s() is %r",
                what, name, v)

    def adopt(self, want, what):
        got = dict(self.D.items())
        self.ctx.ok(list(got) == list(want), "%s: keys are %r, expected %r",
                    what, list(got), list(want))
        for k, w in want.items():
            g = got[k]
            if isinstance(w, Item):
                self.ctx.ok(same_item(g, w), "%s: value of %r is %r, expected "
                            "%r", what, k, g, w.want)
                self.ctx.ev("conversions", not w.asis)
            else:
                self.ctx.ok(g is w, "%s: value of %r is %r, expected %r",
                            what, k, g, w)
        self.M = got
        self.mutated = True
        self.ctx.ev("mutations")
        self.check(what)

    def rejected(self, got, types, what):
        self.ctx.raised(got, types, what)
        self.check(what + " (failed)")
        self.ctx.ev("rejected")

    def pairs(self, pbad=.06):
        n = self.rng.choice([0, 1, 1, 2, 3, 4])
        keys = [self.rng.choice(KEYS) for _ in range(n)]
        many = more_keys(self.rng, keys)
        if len(many) > n:
            pbad /= len(many)
        return [(k, an_item(self.rng, self.kind, pbad)) for k in many]

    def construct(self):
        ctx, rng = self.ctx, self.rng
        json = self.cls.__mro__[1].__name__.startswith("Json")
        while True:
            pairs = self.pairs()
            if any(isinstance(x.raw, tuple) and len(x.raw) == 2
                   for k, x in pairs):
                continue
            r = rng.randrange(9)
            raw = [(k, x.raw) for k, x in pairs]
            numbered = dict(enumerate(x for k, x in pairs))
            values = [x.raw for k, x in pairs]
            boom = False
            want = dict(pairs)
            if r == 0:
                src, text = dict(raw), "dict"
                items = want.values()
            elif r == 1:
                src, text = MapLike(dict(raw)), "mapping"
            elif r == 2:
                src, text = iter(raw), "iterator of pairs"
            elif r == 3:
                b = rng.randrange(len(raw) + 1) if rng.random() < .2 else None
                boom = b is not None and b < len(raw)
                src, text = pairs_iter(raw, b), "generator of pairs"
            elif r == 4:
                src, text = NextOnly(raw), "iterator object of pairs"
            elif r == 5:
                c = rng.choice([list, tuple, SeqLike])
                src, text = c(values), c.__name__
                want = numbered
            elif r == 6:
                src, text = iter(values), "iterator of values"
                want = numbered
            elif r == 7:
                if any(x.bad for k, x in pairs):
                    continue
                other = new_class(DictCollection, {"itemtype": object}, "Od")
                src, text = other(dict(raw)), "typed dict"
            else:
                if any(x.bad for k, x in pairs):
                    continue
                other = new_class(ListCollection, {"itemtype": object}, "Ol")
                src, text = other(values), "typed list"
                want = numbered
            if not pairs and rng.random() < .3:
                src, text = None, "nothing"
            items = [x for k, x in pairs] if r in (2, 3, 4) else \
                list(want.values())
            bad = any(x.bad for x in items)
            wanted = (Boom, LIBERR) if boom else LIBERR
            how = rng.randrange(3)
            if json:
                how = 1
            if self.holder is not None and src is not None and not json \
                    and rng.random() < .5:
                def make():
                    self.holder.x = src
                    return self.holder.x
                got = attempt(make)
            elif self.holder is not None:
                got = attempt(self.cls, **({"values": src}
                                           if src is not None else {}))
                if got.ok:
                    self.holder.x = got.value
            elif src is None and rng.random() < .5:
                got = attempt(self.cls)
            elif how == 1:
                got = attempt(self.cls, values=src)
            else:
                got = attempt(self.cls, src)
            what = "construct from %s %r" % (text, pairs)
            ctx.log(what)
            ctx.ev("constructions")
            if bad or boom:
                ctx.raised(got, wanted, what)
                ctx.ev("rejected")
                ctx.ev("half_way", boom)
                continue
            self.D = ctx.value(got, what)
            ctx.ok(isinstance(self.D, self.cls), "%s gave a %s", what,
                   type(self.D).__name__)
            self.adopt(want, what)
            return

    def a_key(self):
        if self.M and self.rng.random() < .65:
            return self.rng.choice(list(self.M))
        if self.rng.random() < .03:
            return ["unhashable"]
        return self.rng.choice(KEYS)

    def outcome(self, got, w, what):
        """Both failed or both succeeded"""
        if w.ok:
            return self.ctx.value(got, what)
        self.rejected(got, type(w.exc), what)
        self.ctx.ev("key_errors")

    def op_get(self):
        k = self.a_key()
        what = "D[%r]" % (k,)
        w = attempt(lambda: self.M[k])
        v = self.outcome(attempt(lambda: self.D[k]), w, what)
        if w.ok:
            self.ctx.ok(v is w.value, "%s is %r", what, v)
        self.ctx.ev("lookups")

    def op_in(self):
        k = self.a_key()
        what = "%r in D" % (k,)
        w = attempt(lambda: k in self.M)
        v = self.outcome(attempt(lambda: k in self.D), w, what)
        if w.ok:
            self.ctx.same(v, w.value, what)
            self.ctx.same(k not in self.D, not w.value, what)
        self.ctx.ev("lookups")

    def op_set(self):
        k = self.a_key()
        x = an_item(self.rng, self.kind, .2)
        what = "D[%r] = %r" % (k, x)
        self.ctx.log(what)
        want = dict(self.M)
        w = attempt(want.__setitem__, k, x)
        got = attempt(self.D.__setitem__, k, x.raw)
        if x.bad:
            self.rejected(got, LIBERR if w.ok else (LIBERR, TypeError), what)
        elif not w.ok:
            self.rejected(got, type(w.exc), what)
        else:
            self.ctx.value(got, what)
            self.adopt(want, what)

    def op_del(self):
        k = self.a_key()
        what = "del D[%r]" % (k,)
        self.ctx.log(what)
        want = dict(self.M)
        w = attempt(want.__delitem__, k)
        self.outcome(attempt(self.D.__delitem__, k), w, what)
        if w.ok:
            self.adopt(want, what)

    def op_pop(self):
        k = self.a_key()
        what = "pop(%r)" % (k,)
        self.ctx.log(what)
        want = dict(self.M)
        w = attempt(want.pop, k)
        v = self.outcome(attempt(self.D.pop, k), w, what)
        if w.ok:
            self.ctx.ok(v is w.value, "%s returned %r", what, v)
            self.adopt(want, what)

    def op_popitem(self):
        what = "popitem()"
        self.ctx.log(what)
        want = dict(self.M)
        w = attempt(want.popitem)
        v = self.outcome(attempt(self.D.popitem), w, what)
        if w.ok:
            # the item which was added last
            self.ctx.ok(isinstance(v, tuple) and len(v) == 2 and
                        v[0] is w.value[0] and w.value[1] is v[1],
                        "popitem() of %r returned %r", self.M, v)
            self.adopt(want, what)

    def op_clear(self):
        if self.rng.random() < .6:
            return
        self.ctx.log("clear()")
        self.ctx.equal(self.ctx.value(attempt(self.D.clear), "clear()"), None,
                       "clear()")
        self.adopt({}, "clear()")

    def op_update(self):
        rng = self.rng
        pairs = self.pairs()
        r = rng.randrange(8)
        kw = {}
        boom = False
        if rng.random() < .3:
            for k in more_keys(rng, rng.sample("abc", rng.randrange(1, 3))):
                kw[k] = an_item(rng, self.kind, .1)
        raw = [(k, x.raw) for k, x in pairs]
        if r == 0:
            src, text = (dict(raw),), "dict"
            pairs = list(dict(pairs).items())
        elif r == 1:
            src, text = (MapLike(dict(raw)),), "mapping"
            pairs = list(dict(pairs).items())
        elif r == 2:
            src, text = (WithKeys(dict(raw)),), "object with keys"
            pairs = list(dict(pairs).items())
        elif r == 3:
            src, text = (raw,), "list of pairs"
        elif r == 4:
            b = rng.randrange(len(raw) + 1) if rng.random() < .3 else None
            boom = b is not None and b < len(raw)
            if boom:
                pairs = pairs[:b]
            src, text = (pairs_iter(raw, b),), "generator of pairs"
        elif r == 5:
            pairs = [(k, x) for k, x in pairs if not x.bad]
            other = self.cls(values=dict((k, x.raw) for k, x in pairs))
            pairs = [(k, Item(v, v, asis=True)) for k, v in other.items()]
            src, text = (other,), "typed dict"
        elif r == 6:
            src, text, pairs = (self.D,), "itself", list(self.M.items())
        else:
            src, text, pairs = (), "nothing", []
        if rng.random() < .1 and not src:
            src = (None,)
        rawkw = dict((k, x.raw) for k, x in kw.items())
        what = "update(%s %r, **%r)" % (text, pairs, kw)
        self.ctx.log(what)
        got = attempt(self.D.update, *src, **rawkw)
        every = pairs + list(kw.items())
        want = dict(self.M)
        for k, x in every:
            want[k] = x
        bad = [k for k, x in every if isinstance(x, Item) and x.bad]
        if bad or boom:
            self.ctx.raised(got, (LIBERR, Boom) if boom else LIBERR, what)
            self.ctx.ev("rejected")
            self.ctx.ev("half_way", boom)
            # each key holds what it did, or a value which was given for it
            offered = {}
            for k, x in every:
                offered.setdefault(k, []).append(x)
            now = dict(self.D.items())
            for k, v in now.items():
                ok = k in self.M and v is self.M[k]
                for x in offered.get(k, ()):
                    if isinstance(x, Item):
                        ok = ok or not x.bad and same_item(v, x)
                    else:
                        ok = ok or x is v
                self.ctx.ok(ok, "%s: value of %r became %r", what, k, v)
            for k in self.M:
                self.ctx.ok(k in now, "%s: lost %r", what, k)
            self.M = now
            self.check(what)
        else:
            self.ctx.equal(self.ctx.value(got, what), None, what)
            self.adopt(want, what)

    def op_equal(self):
        ctx = self.ctx
        same = dict(self.M)
        other = dict(self.M)
        r = self.rng.randrange(4)
        key = self.rng.choice(list(other)) if other else None
        if r == 0 or not other:
            other["new"] = self.kind.good(self.rng)
        elif r == 1:
            del other[key]
        elif r == 2:
            other["moved"] = other.pop(key)
        else:
            other[key] = self.kind.good(self.rng)
        rev = dict(reversed(list(self.M.items())))
        for o in (same, other, rev):
            want = (o == self.M)
            for form in (o, self.cls(values=dict(o))):
                what = "%r == %r" % (self.M, form)
                ctx.same(ctx.value(attempt(lambda: self.D == form), what),
                         want, what)
                ctx.same(ctx.value(attempt(lambda: self.D != form), what),
                         not want, what.replace("==", "!="))
        ctx.ev("lookups")

    def op_construct_from(self):
        v = self.ctx.value(attempt(self.cls, values=self.D), "copy")
        self.ctx.ok(list(v.keys()) == list(self.M) and all(
            x is self.M[k] for k, x in v.items()), "copy by construction: %r",
            v)
        v["brand new"] = self.kind.good(self.rng)
        self.check("after changing a copy")

    def op_snapshots(self):
        """keys() and values() don't change the dict through themselves"""
        for x in (self.D.keys(), self.D.values()):
            if isinstance(x, list):
                x.append("junk")
                del x[:]
        self.check("after changing the result of keys() and values()")

    OPS = [op_get, op_get, op_in, op_set, op_set, op_set, op_del, op_pop,
           op_popitem, op_clear, op_update, op_update, op_update, op_equal,
           op_construct_from, op_snapshots]

    def run(self):
        self.construct()
        for _ in range(self.rng.randrange(8, 26)):
            self.rng.choice(self.OPS)(self)
        if self.mutated:
            self.ctx.sig(*self.ctx.trace)


def history(ctx, rng):
    Run(ctx, rng).run()


def classes(ctx, rng):
    kind = rng.choice(KINDS)
    cls = dict_class(rng, kind)
    r = rng.randrange(3)
    if r == 0:
        src = rng.choice([5, 1.5, True, object(), "text"])
        ctx.raised(attempt(cls, values=src), LIBERR,
                   "%s dict from %r" % (kind.name, src))
    elif r == 1:
        a, b = dict_of(kind.itemtype), dict_of(kind.itemtype)
        ctx.ok(a is b, "dict_of(%s) is a different type each time", kind.name)
        ctx.ok(issubclass(a, DictCollection) and a.itemtype is kind.itemtype,
               "dict_of(%s)", kind.name)
    else:
        bare = new_class(DictCollection, {}, "Bare")
        got = attempt(bare, {"a": kind.good(rng)})
        ctx.raised(got, LIBERR, "dict class without itemtype")
    ctx.sig(kind.name, str(r))


SCENARIOS = [("history", history, 10000, 200000),
             ("classes", classes, 300, 1000)]
