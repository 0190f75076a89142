"""C29: comparison results describe themselves."""
import re

import normalize.diff as nd
import normalize.exc as exc
from checks.c19 import INTS, NAMES, text
from mon.core import attempt
from mon.differ import KINDS, Opts
from mon.pairs import World, option_sample, own_attributes
from mon.union import Union, normal
from normalize import FieldSelector, MultiFieldSelector
from normalize.diff import Diff, DiffInfo, DiffTypes

RULE = (
    "a case compares pairs of objects under random options, or makes results "
    "of entries with arbitrary places (any text as names, indices), and "
    "reads their text forms with a parser of its own: kind and places of "
    "each entry; types, number and, for each kind, the path text, which "
    "must denote exactly the union of the places of those entries; "
    "non-trivial: several entries; distinct by the text")
ASSUMPTIONS = [
    "moves are counted but not listed in the text of a result; unchanged "
    "entries are listed by their place in the base",
    "of several places of one kind, one that includes another absorbs it"]
NEED = {"results": 1500, "entries": 5000, "listed": 4000, "kind +NEW": 400,
        "kind -OLD": 400, "kind <>X": 400, "kind <->OLD": 100,
        "kind <+>NEW": 100, "kind ==X": 300, "absorbed": 60, "made": 500,
        "kinds given": 600, "kinds refused": 300, "two paths": 150,
        "two types": 100, "quoted": 300}

WORDS = {DiffTypes.NO_CHANGE: "UNCHANGED", DiffTypes.ADDED: "ADDED",
         DiffTypes.REMOVED: "REMOVED", DiffTypes.MODIFIED: "MODIFIED",
         DiffTypes.MOVED: "MOVED"}
NUMBERS = {DiffTypes.NO_CHANGE: 1, DiffTypes.ADDED: 2,
           DiffTypes.REMOVED: 3, DiffTypes.MODIFIED: 4, DiffTypes.MOVED: 5}
CANON = {DiffTypes.NO_CHANGE: "none", DiffTypes.ADDED: "added",
         DiffTypes.REMOVED: "removed", DiffTypes.MODIFIED: "modified",
         DiffTypes.MOVED: "moved"}
GROUP = re.compile(r"(\+NEW|-OLD|<>X|<->OLD|<\+>NEW|==X)\(")


def entry_text(ctx, d):
    s = ctx.value(attempt(str, d), "str of the entry")
    m = re.match(r"<DiffInfo: ([A-Z]+) (.*)>\Z", s, re.S)
    ctx.ok(m is not None, "text of an entry: %r", s)
    ctx.equal(m.group(1), WORDS[d.diff_type], "kind in %r" % s)
    base, other = list(d.base), list(d.other)
    want = None
    if base == other or other[:len(base)] == base:
        want = other
    elif base[:len(other)] == other:
        want = base
    if want is not None:
        ctx.equal(m.group(2), FieldSelector(want).path,
                  "place in %r (of %r, %r)" % (s, base, other))
    else:
        ctx.equal(m.group(2), "(%s/%s)" % (d.base.path, d.other.path),
                  "places in %r (of %r, %r)" % (s, base, other))
        ctx.ev("two paths")
    ctx.ev("entries")


def groups(ctx, s):
    """-> {kind: path text}, of what follows the number of entries"""
    out, i = {}, 0
    while i < len(s):
        m = GROUP.match(s, i)
        ctx.ok(m is not None and m.group(1) not in out,
               "what is listed: %r", s)
        i, depth, quote = m.end(), 1, None
        start = i
        while depth:
            ctx.ok(i < len(s), "brackets: %r", s)
            c = s[i]
            if quote:
                if c == "\\":
                    i += 1
                elif c == quote:
                    quote = None
            elif c in "'\"":
                quote = c
            elif c in "([":
                depth += 1
            elif c in ")]":
                depth -= 1
            i += 1
        out[m.group(1)] = s[start:i - 1]
        if i < len(s):
            ctx.ok(s[i:i + 2] == "; ", "separators: %r", s)
            i += 2
    return out


def result_text(ctx, result, types):
    s = ctx.value(attempt(str, result), "str of the result")
    ctx.log("text", s)
    m = re.match(r"<Diff \[([^\]]*)\]; (\d+) diff\(s\)(?:: (.*))?>\Z", s,
                 re.S)
    ctx.ok(m is not None, "text of a result: %r", s)
    if types:
        names = m.group(1).split(" vs ")
        ctx.ok(names == list(types) or types[0] == types[1] and
               names == [types[0]], "types in %r, for %s", s, types)
    ctx.equal(int(m.group(2)), len(result), "number in %r" % s)
    want = {}
    for d in result:
        b, o = normal(d.base), normal(d.other)
        if d.diff_type is DiffTypes.ADDED:
            want.setdefault("+NEW", []).append(o)
        elif d.diff_type is DiffTypes.REMOVED:
            want.setdefault("-OLD", []).append(b)
        elif d.diff_type is DiffTypes.NO_CHANGE:
            want.setdefault("==X", []).append(b)
        elif d.diff_type is DiffTypes.MODIFIED and b == o:
            want.setdefault("<>X", []).append(b)
        elif d.diff_type is DiffTypes.MODIFIED:
            want.setdefault("<->OLD", []).append(b)
            want.setdefault("<+>NEW", []).append(o)
    got = groups(ctx, m.group(3) or "")
    ctx.equal(sorted(got), sorted(want), "kinds listed in %r" % s)
    for kind, path in got.items():
        mfs = ctx.value(attempt(MultiFieldSelector.from_path, path),
                        "parsing %r" % path)
        have = Union(normal(fs) for fs in mfs)
        places = Union(want[kind])
        ctx.ok(have == places, "%s(%s) stands for %s, but the entries are at "
               "%s", kind, path, have, places)
        if len(places.places) < len(set(want[kind])):
            ctx.ev("absorbed")
        ctx.ev("kind " + kind)
        ctx.ev("listed", len(want[kind]))
        if "'" in path or '"' in path:
            ctx.ev("quoted")
    ctx.ok(str(result) == s, "a second time: %r, then %r", s, str(result))
    ctx.ev("results")
    if len(result) > 1:
        ctx.sig(s)


def compared(ctx, rng):
    w = World(rng, keys=["k1", "k2", "K", "a.b", "0", "x y", "it's", "",
                         "(", ")|(", "; +NEW(", u"\u00e9", "a\nb", '"q"',
                         "\\", "[0]"] if rng.random() < .6 else
              ["k1", "k2", "K"])
    ctx.log("classes", "; ".join(w.describe()))
    for _ in range(3):
        t = w.top_type()
        p, q = w.pair(t)
        a, b = p.build(), q.build()
        if w.o.p_coll_attr and rng.random() < .7:
            own_attributes(rng, t, a)
            own_attributes(rng, t, b)
        kw = option_sample(rng, .2, ("moved", "unchanged", "extraneous",
                                     "ignore_case", "fuzzy_match",
                                     "ignore_empty_slots"))
        ctx.log("base", a, "other", b, "options", kw)
        if rng.random() < .15 and type(a).properties:
            # another class with those attributes
            from normalize import Record
            other = type("Alike", (type(b),), {"__module__": __name__})
            c = object.__new__(other)
            c.__dict__.update(b.__dict__)
            b, kw["duck_type"] = c, True
            ctx.ev("two types")
        result = ctx.value(attempt(nd.diff, a, b, **kw), "diff")
        ctx.log("entries", list(result))
        for d in result:
            entry_text(ctx, d)
        ctx.equal((result.base_type_name, result.other_type_name),
                  (type(a).__name__, type(b).__name__), "type names")
        result_text(ctx, result, (type(a).__name__, type(b).__name__))


def place(rng, style):
    out = []
    for i in range(rng.choice([1, 1, 2, 2, 3, 4])):
        if style == "mixed":
            out.append(rng.choice([0, 1, 2, "a", "b", "0"]))
        elif (i + style) % 2:
            out.append(rng.choice([0, 1, 2] + INTS))
        else:
            out.append(rng.choice(["a", "b", "c"]) if rng.random() < .6 else
                       rng.choice(NAMES) if rng.random() < .6 else
                       text(rng))
    return out


def made(ctx, rng):
    """Results made of entries"""
    style = rng.choice(["mixed", 0, 0, 1])
    entries = []
    for _ in range(rng.randrange(6)):
        base = place(rng, style)
        k = rng.random()
        other = base if k < .4 else base[:-1] if k < .6 else \
            base + place(rng, style)[:1] if k < .7 else place(rng, style)
        kind = rng.choice(list(WORDS))
        if kind in (DiffTypes.ADDED, DiffTypes.REMOVED) and not (
                base and other):
            kind = DiffTypes.MOVED
        how = rng.randrange(4)
        given = [kind, NUMBERS[kind], CANON[kind], kind][how]
        d = ctx.value(attempt(
            DiffInfo, diff_type=given, base=FieldSelector(base),
            other=FieldSelector(other)), "an entry, of kind %r" % given)
        ctx.same(d.diff_type, kind, "kind of an entry made with %r" % given)
        ctx.equal((list(d.base), list(d.other)), (base, other), "places")
        ctx.ev("kinds given")
        entry_text(ctx, d)
        entries.append(d)
    if any(not d.base or not d.other for d in entries):
        return
    names = {}
    types = None
    if rng.random() < .7:
        types = ("A", rng.choice(["A", "B"]))
        names = dict(base_type_name=types[0], other_type_name=types[1])
    result = ctx.value(attempt(Diff, list(entries), **names), "a result")
    ctx.equal(list(result), entries, "entries")
    result_text(ctx, result, types)
    ctx.ev("made")


def refused(ctx, rng):
    ok = dict(diff_type=rng.choice(list(WORDS)), base=FieldSelector(["a"]),
              other=FieldSelector(["b", 0]))
    w = ok["diff_type"].canonical_name
    for bad in rng.sample([None, 0, 6, -1, "ADDED", "nope", "", 1.5, [], "1",
                           object()], 3) + [rng.choice([
                               " " + w, w + " ", w + "\n", w.title(),
                               w.upper(), w[:-1], w[1:], w + "s", [w], (w,),
                               w.encode(), w + "\0", "name." + w])]:
        ctx.raised(attempt(DiffInfo, **dict(ok, diff_type=bad)),
                   exc.CoercionError, "kind %r" % (bad,))
        ctx.ev("kinds refused")
    n = rng.choice(sorted(ok))
    kw = dict(ok)
    del kw[n]
    ctx.raised(attempt(DiffInfo, **kw), ValueError, "without %s" % n)
    d = DiffInfo(**ok)
    n = rng.choice(["base", "other"])
    bad = rng.choice([1.5, 3, object(), [1.5]])
    ctx.raised(attempt(setattr, d, n, bad), exc.NormalizeError,
               "%s = %r" % (n, bad))
    ctx.equal(d.diff_type, ok["diff_type"], "kind afterwards")
    ctx.ok(KINDS[d.diff_type] and list(d.base) == ["a"] and
           list(d.other) == ["b", 0], "the entry afterwards: %r", d)
    bad = rng.choice(["x", 1, None, FieldSelector(["a"])])
    ctx.raised(attempt(Diff, [d, bad]), exc.CoercionError,
               "a result with entry %r" % (bad,))


SCENARIOS = [("compared", compared, 1800, 15000),
             ("made", made, 1500, 20000),
             ("refused", refused, 150, 1500)]
