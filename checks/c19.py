"""C19: Selectors form a sequence algebra with faithful text forms."""
import copy
import pickle

from mon.core import attempt
from mon.sizes import few
from normalize import FieldSelector

RULE = (
    "a case makes several selectors from random step sequences (indices, "
    "wildcards and nasty texts, related to each other by prefixes and small "
    "edits) and compares every operation on them, and on pairs and triples "
    "of them, with the same operation on the plain lists of steps; "
    "non-trivial: at least two differ and one has three steps; distinct by "
    "the sequences")
ASSUMPTIONS = [
    "steps are ints, strings and None (no bools)",
    "selectors are comparable in order if the first steps in which they "
    "differ are both indices or both texts; others raise TypeError"]
NEED = {"path": 8000, "nasty": 3000, "repr": 8000, "pickle": 8000,
        "add": 5000, "slice": 5000, "startswith": 5000, "pairs": 20000,
        "ordered": 2000, "transitive": 300, "incomparable": 800,
        "rejected": 1000, "unicode": 800}

CHARS = ["a", "b", "_", "0", "1", "'", "\\", '"', ".", "[", "]", "*", "(",
         ")", "|", "\n", "\r", u"\u2028", "\x00", u"\u00e9", u"\u4e2d", " ",
         u"\U0001f600", u"a\u0301", u"\u0661", "-", "n", "%", "{", "}"]
NAMES = ["a", "b", "foo", "foo_bar", "_x", "A1", "name", "None", "0", "-1",
         "*", "[*]", "['a']", ".a", "a.b", "it's", "\\'", "", " ", "b ar",
         u"caf\u00e9", u"\u00e9t\u00e9", "1a", "a\n", "\\", "\\\\", "'", "''",
         "a'b'c", "[0]", "\\n", "n\nl", "a]", u"\u4e2d\u6587", u"\u0661",
         u"a\u00e9", "()", "a|b", u"\ud800"]
INTS = [0, 1, 2, 3, -1, -2, 10, 12, 10 ** 20, -10 ** 20]


class Sub(FieldSelector):
    pass


def text(rng):
    if rng.random() < .5:
        return rng.choice(NAMES)
    return "".join(rng.choice(CHARS) for _ in range(few(rng, 5)))


def step(rng):
    k = rng.random()
    if k < .5:
        return text(rng)
    if k < .8:
        return rng.choice(INTS)
    return None


def steps(rng):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 8])
    return [step(rng) for _ in range(few(rng, n + 1))]


def related(rng, many):
    s = list(rng.choice(many))
    k = rng.randrange(6)
    if k == 0:
        return s[:rng.randrange(len(s) + 1)]
    if k == 1:
        return s + steps(rng)
    if k == 2 and s:
        s[rng.randrange(len(s))] = step(rng)
    elif k == 3 and s:
        i = rng.randrange(len(s))
        x = s[i]
        # the same kind of step: still comparable
        if isinstance(x, str):
            s[i] = rng.choice([x + "a", x[:-1], text(rng), x + "'",
                               x.upper(), "\\" + x])
        elif x is not None:
            s[i] = rng.choice([x + 1, -x, x * 2, rng.choice(INTS)])
    elif k == 4 and len(s) > 1:
        i = rng.randrange(len(s) - 1)
        s[i], s[i + 1] = s[i + 1], s[i]
    elif k == 5 and s:
        i = rng.randrange(len(s))
        # the other kind of step
        x = s[i]
        s[i] = str(x) if not isinstance(x, str) else \
            int(x) if x.lstrip("-").isdigit() and x.isascii() and \
            not x.startswith("--") else None if x == "None" else "*"
    return s


def make(ctx, rng, s):
    """-> a selector with the steps, by a random route"""
    cls = rng.choice([FieldSelector, FieldSelector, FieldSelector, Sub])
    k = rng.randrange(8)
    arg = list(s)
    if k == 0:
        f = cls(arg)
        arg.append("more")          # the selector doesn't see it
    elif k == 1:
        f = cls(tuple(arg))
    elif k == 2:
        f = cls(x for x in arg)
    elif k == 3:
        f = cls()
        for x in s:
            if x is None:
                f.add_full_collection()
            elif isinstance(x, str):
                f.add_property(x)
            else:
                f.add_index(x)
    elif k == 4:
        g = FieldSelector(arg)
        f = cls(g)
        g.add_index(5)
        ctx.equal(f.selectors, s, "copy made by the constructor")
    elif k == 5:
        i = rng.randrange(len(s) + 1)
        f = cls(s[:i])
        g = cls(s[i:])
        ctx.ok(f.extend(g) is f, "extend() returns the selector")
        ctx.equal(g.selectors, s[i:], "operand of extend()")
    elif k == 6:
        f = cls.from_path(cls(s).path)
    else:
        f = cls(arg)
    ctx.equal(f.selectors, s, "steps of the selector")
    ctx.ok(type(f) is cls, "class of %r", f)
    return f


def sign(a, b):
    """-> -1 / 0 / 1 / None (not comparable)"""
    for x, y in zip(a, b):
        if x == y:
            continue
        if type(x) is not type(y):
            return None
        return -1 if x < y else 1
    return (len(a) > len(b)) - (len(a) < len(b))


def one(ctx, rng, f, s):
    n = len(s)
    ctx.ok(len(f) == n and bool(f) == bool(s), "length of %r", s)
    ctx.equal(list(f), s, "iteration")
    for i in (0, 1, -1, n - 1, n, -n, -n - 1):
        got = attempt(f.__getitem__, i)
        if -n <= i < n:
            ctx.ok(got.ok and got.value == s[i] and
                   type(got.value) is type(s[i]), "%r[%d] %r", s, i, got)
        else:
            ctx.raised(got, IndexError, "%r[%d]" % (s, i))
    for _ in range(3):
        sl = slice(*[rng.choice([None, 0, 1, 2, 5, -1, -2]) for _ in "ab"] +
                   [rng.choice([None, None, 1, 2, -1])])
        g = ctx.value(attempt(f.__getitem__, sl), "slice")
        ctx.ok(type(g) is type(f) and g.selectors == s[sl], "%r sliced by %r "
               "is %r", s, sl, g)
        g.add_property("more")
        ctx.equal(f.selectors, s, "selector after extending a slice of it")
        ctx.ev("slice")
    # text forms
    path = ctx.value(attempt(lambda: f.path), "path of %r" % s)
    back = ctx.value(attempt(type(f).from_path, path), "path %r" % path)
    ctx.ok(type(path) is str and back.selectors == s and
           list(map(type, back.selectors)) == list(map(type, s)) and
           type(back) is type(f),
           "path %r of %r reads back as %r", path, s, back)
    ctx.ev("path")
    if any(isinstance(x, str) and not x.isidentifier() for x in s):
        ctx.ev("nasty")
    if any(isinstance(x, str) and not x.isascii() for x in s):
        ctx.ev("unicode")
    ctx.ok(path in str(f), "str %r lacks the path %r", str(f), path)
    back = ctx.value(attempt(eval, repr(f), {
        "FieldSelector": FieldSelector, "Sub": Sub}), "repr %r" % f)
    ctx.ok(type(back) is type(f) and back.selectors == s and back == f,
           "repr %r is %r", f, back)
    ctx.ev("repr")
    for proto in range(pickle.HIGHEST_PROTOCOL + 1):
        back = ctx.value(attempt(
            lambda: pickle.loads(pickle.dumps(f, proto))), "pickle")
        ctx.ok(type(back) is type(f) and back.selectors == s, "pickle of %r "
               "is %r", f, back)
        ctx.ev("pickle")
    for c in (copy.copy(f), copy.deepcopy(f), type(f)(f), f[:], back):
        ctx.ok(c == f and type(c) is type(f) and hash(c) == hash(f) and
               c is not f, "copy of %r is %r", f, c)
        c.add_index(1)
        c.extend(f)
        ctx.equal(c.selectors, s + [1] + s, "extended copy")
        ctx.equal(f.selectors, s, "selector after extending its copy")
    ctx.ok(f.startswith(f) and f.startswith(s) and f.startswith(()) and
           f.startswith(FieldSelector()), "%r starts with itself", s)
    x = step(rng)
    ctx.ok(bool(f.startswith(x)) == bool(s and s[0] == x), "%r.startswith"
           "(%r)", s, x)
    if s:
        ctx.ok(f.startswith(s[0]) is True, "%r starts with %r", s, s[0])
    ctx.ok((x in f) == (x in s), "%r in %r", x, s)
    # refused
    for bad in rng.sample([1.5, b"a", object(), ("a",), ["a"], {}], 2):
        got = attempt(FieldSelector, s + [bad])
        ctx.raised(got, ValueError, "selector with the step %r" % (bad,))
        ctx.raised(attempt(f.add_property, bad), ValueError,
                   "add_property(%r)" % (bad,))
        ctx.raised(attempt(f.add_index, bad), ValueError,
                   "add_index(%r)" % (bad,))
        ctx.ev("rejected")
    ctx.raised(attempt(f.add_property, 1), ValueError, "add_property(1)")
    ctx.raised(attempt(f.add_index, "a"), ValueError, "add_index('a')")
    ctx.raised(attempt(f.add_index, None), ValueError, "add_index(None)")
    ctx.equal(f.selectors, s, "the selector")
    return path


def pair(ctx, rng, f, s, g, t):
    ctx.ev("pairs")
    ctx.ok((f == g) is (s == t) and (f != g) is (s != t),
           "%r == %r: %r, != %r", s, t, f == g, f != g)
    if s == t:
        ctx.ok(hash(f) == hash(g), "hash of equal %r", s)
        ctx.ok(f.path == g.path, "path of equal %r", s)
    else:
        ctx.ok(f.path != g.path, "both %r and %r have the path %r", s, t,
               f.path)
    for other in (g, list(t), tuple(t)):
        ctx.ok(bool(f.startswith(other)) == (s[:len(t)] == t),
               "%r.startswith(%r) is %r", s, other, f.startswith(other))
        h = ctx.value(attempt(lambda: f + other), "%r + %r" % (s, other))
        ctx.ok(type(h) is type(f) and h.selectors == s + t,
               "%r + %r is %r", f, other, h)
        h.add_property("more")
        if isinstance(other, list):
            ctx.equal(other, t, "operand of +")
        ctx.ev("startswith")
        ctx.ev("add")
    for x in (text(rng), rng.choice(INTS)):
        h = ctx.value(attempt(lambda: f + x), "%r + %r" % (s, x))
        ctx.ok(h.selectors == s + [x], "%r + %r is %r", s, x, h)
    ctx.ok((f + g).path == f.path + g.path, "path of %r + %r", s, t)
    ctx.ok((f + g)[:len(s)] == f[:] and (f + g)[len(s):] == g[:],
           "%r + %r taken apart", s, t)
    got = [attempt(lambda: f < g), attempt(lambda: f > g),
           attempt(lambda: f <= g), attempt(lambda: f >= g)]
    k = sign(s, t)
    if k is None:
        for r in got:
            ctx.raised(r, TypeError, "order of %r and %r" % (s, t))
        ctx.ev("incomparable")
    else:
        want = [k < 0, k > 0, k <= 0, k >= 0]
        ctx.ok([bool(r.value) if r.ok else r for r in got] == want,
               "order of %r and %r: %r, not %r", s, t, got, want)
        if k:
            ctx.ev("ordered")
    ctx.ok(f.selectors == s and g.selectors == t, "operands altered: %r, %r",
           f, g)


def algebra(ctx, rng):
    many = [steps(rng)]
    for _ in range(rng.randrange(1, 5)):
        many.append(related(rng, many) if rng.random() < .8 else steps(rng))
    ctx.log("steps", many)
    fs = [make(ctx, rng, s) for s in many]
    for f, s in zip(fs, many):
        one(ctx, rng, f, s)
    for f, s in zip(fs, many):
        for g, t in zip(fs, many):
            pair(ctx, rng, f, s, g, t)
    # as set members and keys
    ctx.equal(len(set(fs)), len(set(map(tuple, many))), "distinct selectors")
    d = dict(zip(fs, many))
    for f, s in zip(fs, many):
        ctx.ok(d[FieldSelector(s)] == s, "lookup of %r", s)
    if all(sign(s, t) is not None for s in many for t in many):
        got = ctx.value(attempt(sorted, fs), "sorting %r" % many)
        order = [f.selectors for f in got]
        ctx.ok(all(sign(a, b) <= 0 for i, a in enumerate(order)
                   for b in order[i:]), "sorted as %r", order)
        ctx.ok(max(fs).selectors == order[-1] and
               min(fs).selectors == order[0], "extremes of %r", order)
        ctx.ev("transitive")
    # associativity
    a, b, c = (rng.choice(fs) for _ in "abc")
    ctx.ok((a + b) + c == a + (b + c) and
           (a + b) + c == (a + list(b)) + tuple(c), "associativity")
    f, s = a, list(a.selectors)
    f.extend(f)
    ctx.equal(f.selectors, s + s, "extended by itself")
    if len(set(map(tuple, many))) > 1 and any(len(s) > 2 for s in many):
        ctx.sig(many)


def exhaustive_texts(ctx, rng):
    """Texts which share special characters must stay apart, in any context"""
    chars = sorted(set(rng.sample(CHARS, 3) + ["'", "\\"]))
    seen = {}
    words = sorted(set([""] + chars + [a + b for a in chars for b in chars]))
    for w in words:
        for s in ([w], [w, 0], [0, w], [w, w], [w, None, "a"]):
            path = FieldSelector(s).path
            ctx.ok(path not in seen, "%r and %r have the path %r", s,
                   seen.get(path), path)
            seen[path] = s
            back = attempt(FieldSelector.from_path, path)
            ctx.ok(back.ok and back.value.selectors == s, "path %r of %r "
                   "reads back as %r", path, s, back)
            ctx.ev("path")
    ctx.sig(words)


SCENARIOS = [("algebra", algebra, 6000, 200000),
             ("texts", exhaustive_texts, 200, 6000)]
