"""C20: A multi-field selector denotes exactly the union of its fields."""
import copy
import pickle

from checks.c19 import INTS, NAMES, text
from mon.core import attempt
from mon.sizes import MANY
from mon.union import Union, normal
from normalize import FieldSelector, MultiFieldSelector

RULE = (
    "a case builds a multi-field selector from a random tree of places, "
    "given as selectors, lists and multi-field selectors in random order "
    "with duplicates and redundant fields, and compares membership, "
    "subscripting, iteration, truth and completeness with a set-of-places "
    "model on probes derived from the places; likewise after each round trip "
    "(path, repr, iteration, pickle), and for path texts with nested "
    "alternatives written by a generator; non-trivial: several places, one "
    "of two steps; distinct by the places")
ASSUMPTIONS = [
    "a wildcard with something below it next to names or indices at one "
    "level may be refused, as the library does",
    "all items of a thing are the thing ([.., None] denotes the same as "
    "[..]); two wildcards at the end are not used",
    "groups of alternatives end their sequence in path texts"]
NEED = {"probe": 40000, "in": 10000, "part": 5000, "out": 10000,
        "absorbed": 800, "merged": 1000, "wild": 800, "complete": 60,
        "empty": 15, "paths": 2000, "texts": 800, "nested_text": 300,
        "any": 500, "refused": 50, "mixed": 50}


class Tree(object):
    """A random tree of places"""
    def __init__(self, rng, depth=0, deep=None):
        self.heads = {}
        k = rng.random()
        n = rng.choice([1, 1, 2, 2, 3]) if depth else rng.choice(
            [1, 2, 2, 3, 4])
        if deep is None:
            deep = rng.choice([6, 9, 12]) if rng.random() < .02 else 0
        if deep:
            n = 1
        many = rng.choice(MANY) if rng.random() < .01 else 0
        if k < .22:
            heads = [None]
        elif k < .6:
            heads = [rng.choice(["a", "b", "c", "foo"])
                     if rng.random() < .6 else
                     (rng.choice(NAMES) if rng.random() < .6 else text(rng))
                     for _ in range(n)]
        elif k < .9:
            heads = [rng.choice([0, 1, 2, -1] + INTS) for _ in range(n)]
        else:
            heads = [rng.choice(["a", "b", 0, 1, "0", "1"])
                     for _ in range(n)]
        if k >= .22 and many:
            # lots of them
            heads += ["name%d" % i for i in range(many)] if k < .6 else \
                [i * 3 for i in range(many)]
        for h in heads:
            self.heads[h] = None
            if deep > depth:
                self.heads[h] = Tree(rng, depth + 1, deep)
                deep = 0
            elif depth < 4 and rng.random() < .6 - .1 * depth:
                self.heads[h] = Tree(rng, depth + 1, 0)
            elif h is None and rng.random() < .7 and depth < 4:
                self.heads[h] = Tree(rng, depth + 1, 0)

    def places(self):
        for h, t in self.heads.items():
            if t is None:
                yield (h,)
            else:
                for p in t.places():
                    yield (h,) + p


def two_wild(p):
    return len(p) > 1 and p[-1] is None and p[-2] is None


def a_set(rng):
    """-> list of step sequences which may be combined"""
    while True:
        k = rng.random()
        if k < .02:
            return []
        if k < .04:
            return [rng.choice([(), (None,)])]
        places = list(Tree(rng).places())
        if not any(two_wild(p) for p in places):
            return places


def spelled(rng, places):
    """The same places, with duplicates and places within others"""
    out = list(places)
    absorbed = False
    for p in places:
        if rng.random() < .25:
            out.append(p)
        if rng.random() < .25 and p and p[-1] is not None:
            # places within
            for _ in range(rng.choice([1, 1, 2, 3, 4])):
                out.append(p + tuple(
                    rng.choice(["a", "b", 0, 1, "x y"])
                    for _ in range(rng.randrange(1, 3))))
            absorbed = True
    rng.shuffle(out)
    return out, absorbed


def construct(ctx, rng, spelled):
    """-> MultiFieldSelector made of the fields, by a random route"""
    args = []
    kept = []
    rest = list(spelled)
    while rest:
        k = rng.random()
        if k < .15 and len(rest) > 1:
            n = rng.randrange(1, len(rest))
            part, rest = rest[:n], rest[n:]
            sub = construct(ctx, rng, part)
            ctx.ev("merged")
            args.append(sub)
            kept.append((sub, Union(map(normal, part))))
            continue
        p = rest.pop(0)
        args.append(rng.choice([
            lambda: FieldSelector(p), lambda: list(p), lambda: tuple(p),
            lambda: MultiFieldSelector(p),
            lambda: FieldSelector(p)])())
    before = [repr(a) for a in args]
    if rng.random() < .1:
        args, m = args, MultiFieldSelector(*[MultiFieldSelector(*args)])
    else:
        m = MultiFieldSelector(*args)
    ctx.ok([repr(a) for a in args] == before, "building from %r altered its "
           "arguments: %r", before, args)
    for sub, u in kept:
        judge(ctx, rng, sub, u, "a part, after combining it", 4)
    return m


def probes(rng, u, n):
    out = [()]
    places = sorted(u.places, key=repr)
    for _ in range(n):
        p = list(rng.choice(places)) if places else []
        p = [rng.choice(["a", "b", 0, 1, "zz", 7]) if s is None and
             rng.random() < .7 else s for s in p]
        k = rng.randrange(5)
        if k == 0:
            p = p[:rng.randrange(len(p) + 1)]
        elif k == 1:
            p = p + [rng.choice(["a", "b", 0, 1, None, "q"])
                     for _ in range(rng.randrange(1, 3))]
        elif k == 2 and p:
            p[rng.randrange(len(p))] = rng.choice(
                ["a", "b", "c", 0, 1, None, "0", text(rng)])
        elif k == 3:
            p = [rng.choice(["a", "b", "foo", 0, 1, 2, None])
                 for _ in range(rng.randrange(4))]
        out.append(tuple(p))
    return out


def denotes(ctx, m, u, what):
    """Judge a multi-field selector without further recursion"""
    ctx.ok(type(m) is MultiFieldSelector, "%s is %r", what, m)
    got = Union(normal(f.selectors) for f in m)
    ctx.ok(got == u, "%s has the fields %r, not %r", what, got, u)
    ctx.ok(bool(m) is bool(u.places), "truth of %s (%r) is %r", what, m,
           bool(m))
    ctx.ok(bool(m.complete) == u.complete, "%s (%r): complete is %r", what, m,
           m.complete)


def judge(ctx, rng, m, u, what, n=12):
    denotes(ctx, m, u, what)
    fields = list(m)
    ctx.ok(all(type(f) is FieldSelector for f in fields), "fields of %s are "
           "%r", what, fields)
    norm = [normal(f.selectors) for f in fields]
    ctx.ok(len(set(norm)) == len(norm) == len(u.places), "%s has the fields "
           "%r, not exactly %r", what, norm, u)
    for f in fields:
        ctx.ok(f in m and m[f] is not None and m[f].complete,
               "field %r of %s isn't in it", f, what)
    if (any in m) is not bool(u.places):
        ctx.ok(False, "any in %s is %r", what, any in m)
    for p in probes(rng, u, n):
        want = u.contains(p)
        part = u.sub(p)
        form = rng.choice([tuple, list, FieldSelector])
        if u.contains(p + (None,)) and not want:
            # all of its items: which is itself, but if p ends by a wildcard
            continue
        got = attempt(lambda: form(p) in m)
        ctx.ok(got.ok and got.value is want, "%r in %s (%r): %r", form(p),
               what, u, got)
        got = attempt(lambda: m[form(p)])
        ctx.value(got, "%s subscripted by %r" % (what, p))
        if not u.places and not p:
            pass
        elif part is None:
            ctx.ok(got.value is None, "%s (%r) subscripted by %r is %r", what,
                   u, p, got.value)
            ctx.ev("out")
        else:
            denotes(ctx, got.value, part, "%s (%r) subscripted by %r" % (
                what, u, p))
            ctx.ev("in" if want else "part")
        ctx.ev("probe")
    steps = set(p[0] for p in u.places if p) | set(
        [rng.choice(["a", "b", 0, 1]), text(rng), rng.choice(INTS), None])
    for s in steps:
        want = u.contains_step(s)
        got = attempt(lambda: s in m)
        ctx.ok(got.ok and got.value is want, "%r in %s (%r): %r", s, what, u,
               got)
        sub = ctx.value(attempt(lambda: m[s]), "%s subscripted by %r" % (
            what, s))
        part = u.sub((s,))
        if part is None:
            ctx.ok(sub is None, "%s (%r) subscripted by %r is %r", what, u, s,
                   sub)
        else:
            denotes(ctx, sub, part, "%s (%r) subscripted by %r" % (
                what, u, s))
    heads = set(p[:1] for p in u.places)
    if len(heads) == 1 and not u.complete:
        (h,), = heads
        denotes(ctx, m[any], u.sub((h,)), "the only sub-selector of %s" %
                what)
        ctx.ev("any")


def unions(ctx, rng):
    places = a_set(rng)
    spell, absorbed = spelled(rng, places)
    u = Union(map(normal, places))
    ctx.log("places", places)
    ctx.log("given as", spell)
    m = ctx.value(attempt(construct, ctx, rng, spell), "construct")
    judge(ctx, rng, m, u, "the selector")
    if absorbed:
        ctx.ev("absorbed")
    if any(None in p for p in u.places):
        ctx.ev("wild")
    if u.complete:
        ctx.ev("complete")
    if not u.places:
        ctx.ev("empty")
    path = ctx.value(attempt(lambda: m.path), "path")
    ctx.ok(type(path) is str and path in str(m), "path %r, str %r", path,
           str(m))
    ctx.ev("paths")
    rounds = [
        ("path %r read back" % path,
         lambda: MultiFieldSelector.from_path(path)),
        ("repr", lambda: eval(repr(m), {
            "MultiFieldSelector": MultiFieldSelector})),
        ("its iteration", lambda: MultiFieldSelector(*m)),
        ("its iteration as lists", lambda: MultiFieldSelector(
            *[f.selectors for f in m])),
        ("a copy", lambda: copy.copy(m)),
        ("a deep copy", lambda: copy.deepcopy(m)),
        ("a pickle", lambda: pickle.loads(pickle.dumps(
            m, rng.randrange(pickle.HIGHEST_PROTOCOL + 1)))),
        ("combining it with itself", lambda: MultiFieldSelector(m, m)),
        ("combining it with nothing", lambda: MultiFieldSelector(
            m, MultiFieldSelector())),
    ]
    for what, fn in rounds:
        r = ctx.value(attempt(fn), what)
        judge(ctx, rng, r, u, what, 4)
    judge(ctx, rng, m, u, "the selector, afterwards", 4)
    if len(u.places) == 1 and len(list(m)) == 1:
        f = list(m)[0]
        ctx.ok(f.path == path, "path %r of a single field %r", path, f)
    if len(u.places) > 1 and any(len(p) > 1 for p in u.places):
        ctx.sig(sorted(map(repr, u.places)))


def texts(ctx, rng):
    """Path texts with nested alternatives"""
    def alternatives(t):
        heads = list(t.heads.items())
        rng.shuffle(heads)
        parts = [FieldSelector([h]).path + ("" if s is None else tail(s))
                 for h, s in heads]
        if rng.random() < .2:
            parts.append(rng.choice(parts))
        return parts

    def tail(t):
        parts = alternatives(t)
        if len(parts) == 1 and rng.random() < .7:
            return parts[0]
        if len(parts) > 2 and rng.random() < .3:
            # a group within a group
            i = rng.randrange(1, len(parts))
            ctx.ev("nested_text")
            parts = ["(%s)" % "|".join(parts[:i])] + parts[i:]
            rng.shuffle(parts)
        ctx.ev("nested_text")
        return "(%s)" % "|".join(parts)
    t = Tree(rng)
    places = list(t.places())
    if any(two_wild(p) for p in places):
        return
    path = tail(t)
    u = Union(map(normal, places))
    ctx.log("text", path, places)
    m = ctx.value(attempt(MultiFieldSelector.from_path, path), "from_path(%r)"
                  % path)
    judge(ctx, rng, m, u, "from_path(%r)" % path)
    judge(ctx, rng, MultiFieldSelector.from_path(m.path), u,
          "from_path(%r)" % m.path)
    ctx.ev("texts")
    if len(u.places) > 1 and any(len(p) > 1 for p in u.places):
        ctx.sig(path)


def mixed(ctx, rng):
    """All items and some of these: refused, or the union"""
    prefix = [rng.choice(["a", "b", 0])] * rng.choice([0, 0, 1])
    names = rng.sample(["x", "y", "z"], rng.choice([1, 2])) if \
        rng.random() < .6 else rng.sample([0, 1, 2], rng.choice([1, 2]))

    def end():
        return rng.choice([[], ["p"], ["p", "q"], [1]])
    fields = [prefix + [None] + end()] + [prefix + [n] + end()
                                          for n in names]
    rng.shuffle(fields)
    if rng.random() < .3:
        fields.append(["c"] if prefix != [0] else [1])
    ctx.log("fields", fields)
    how = rng.randrange(3)
    fs = [FieldSelector(f) for f in fields]
    got = attempt(MultiFieldSelector, *(
        fields if how == 0 else fs if how == 1 else [
            MultiFieldSelector(f) for f in fields]))
    if not got.ok:
        ctx.raised(got, ValueError, "combining %r" % fields)
        ctx.ok(any(len(f) > len(prefix) + 1 for f in fields if None in f) or
               len(fs) > len(names) + 1,
               "all items of anything and some of them refused: %r", fields)
        ctx.ev("refused")
    else:
        m = got.value
        for f in fields:
            concrete = [rng.choice(["x", 1, "else"]) if x is None else x
                        for x in f]
            for part in (tuple(f), tuple(concrete)):
                ctx.ok(part in m and m[part].complete, "%r isn't in %r, "
                       "though in %r", part, m, fields)
        ctx.ok(m[tuple(prefix)] and (prefix + ["other"] in m) == any(
            None in f and len(f) == len(prefix) + 1 for f in fields) or
               not prefix, "membership in %r of %r", m, fields)
        if prefix + [None] in fields:
            judge(ctx, rng, m, Union(map(normal, [
                f for f in fields if f[:len(prefix)] != prefix or
                f == prefix + [None]])), "the selector")
        ctx.ev("mixed")
    ctx.sig(fields)


SCENARIOS = [("mixed", mixed, 400, 4000), ("unions", unions, 2500, 80000), ("texts", texts, 1500, 50000)]
