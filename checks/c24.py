"""C24: a comparison filter restricts a diff to exactly the selected fields."""
import normalize.diff as nd
from mon.core import attempt
from mon.differ import Opts, Sel, entries_of, show, sub
from mon.pairs import World, a_filter, option_sample, own_attributes
from mon.shapes import D, T, d_edit
from normalize.diff import DiffOptions
from normalize.selector import FieldSelector, MultiFieldSelector

RULE = (
    "a case declares 1-4 related record classes and compares pairs of "
    "objects with filters made of 1-4 selectors of any depth (attributes, "
    "wildcards, indexes, keys), in all forms a filter may be given in; a "
    "judge decides whether the entries are a true and complete account of "
    "the selected fields, values outside of these are varied, which must "
    "make no difference, and where the pairing of items does not depend on "
    "the filter, the entries must be those of the unfiltered comparison "
    "within the selected fields; non-trivial: distinct filters and entries")
ASSUMPTIONS = [
    "items of collections are identified by what is selected of them (or "
    "their primary key, where all of it is selected)",
    "a filter selects by wildcard or by names in one place, not both; items "
    "selected by index or key are compared without regard to the others, and"
    "by the same fields of each"]
NEED = {"filtered": 3000, "nonempty": 800, "varied": 1500,
        "restricted": 600, "agreeing": 1000, "extraneous": 700, "forms": 300,
        "by index": 300, "by wildcard": 500, "deep": 500}


def key(entries):
    return sorted(map(repr, entries))


def diff(ctx, a, b, what="diff", **kw):
    return entries_of(ctx.value(attempt(nd.diff, a, b, **kw), what))


def vary(rng, o, d, sel, n):
    """-> a copy of the description where things which aren't selected are
    different"""
    d = d.copy()

    def within(d, sel):
        if sel == Sel.ALL:
            return
        if d.kind == "rec":
            for name, a in d.type.attrs.items():
                s = sub(sel, name)
                if s is None:
                    if a.default:
                        pass
                    elif rng.random() < .5 and not a.required:
                        d.content.pop(name, None)
                    else:
                        d.content[name] = a.type.desc(rng, o, 2)
                    n[0] += 1
                elif name in d.content:
                    within(d.content[name], s)
        elif d.kind in ("list", "dict"):
            for i, (k, x) in enumerate(d.content):
                s = sub(sel, k)
                if s is None:
                    d.content[i] = (k, d.type.item.desc(rng, o, 2))
                    n[0] += 1
                else:
                    within(x, s)
            if None not in sel and rng.random() < .5 and d.kind == "dict" \
                    and "fresh" not in sel:
                d.content.append(("fresh", d.type.item.desc(rng, o, 2)))
                n[0] += 1
            if None not in sel and rng.random() < .5 and d.kind == "list" \
                    and len(d.content) not in sel:
                d.content.append((len(d.content), d.type.item.desc(
                    rng, o, 2)))
                n[0] += 1
    within(d, sel)
    return d


def independent(d, sel):
    """Is the pairing of items the same with and without the filter?"""
    if sel is None or sel == Sel.ALL:
        return True
    if d.kind == "rec":
        return all(independent(x, sub(sel, n))
                   for n, x in d.slots().items())
    if d.kind in ("list", "dict"):
        if None not in sel:
            return False
        item = d.type.item
        if item.kind != "rec":
            return sel[None] == Sel.ALL
        rec = item.rec
        s = sel[None]
        if s != Sel.ALL and (not rec.pk or any(
                sub(s, n) is None for n in rec.pk)):
            return False
        return all(independent(x, s) for k, x in d.content)
    return d.kind == "value" and not isinstance(d.content, (list, dict))


def inside(e, sel):
    """Does the entry lie within the selection?"""
    for k in e[1] if len(e[1]) >= len(e[2]) else e[2]:
        sel = sub(sel, k)
        if sel is None:
            return False
        if sel == Sel.ALL:
            return True
    return True


def filters(ctx, rng):
    w = World(rng)
    ctx.log("classes", "; ".join(w.describe()))
    for _ in range(3):
        t = w.top_type()
        p, q = w.pair(t)
        paths = a_filter(rng, t, [p, q])
        sel = Sel.of(paths)
        a, b = p.build(), q.build()
        kw = option_sample(rng, .12)
        ctx.log("base", a, "other", b, "filter", paths, "options", kw)
        entries = diff(ctx, a, b, compare_filter=paths, **kw)
        ctx.log("entries", show(entries))
        bad = w.judge(Opts(**kw)).judge(a, b, entries, sel)
        ctx.ok(bad is None, "filter %s, options %s: %s; reported %s", paths,
               kw, bad, show(entries))
        ctx.ev("filtered")
        ctx.ev("nonempty", 1 if entries else 0)
        ctx.ev("by wildcard", any(None in p for p in paths))
        ctx.ev("by index", any(isinstance(x, int) for p in paths for x in p))
        ctx.ev("deep", any(len(p) > 2 for p in paths))
        ctx.sig(repr(paths), repr(key(entries)))
        for e in entries:
            ctx.ok(inside(e, sel), "filter %s: %s is not within", paths,
                   show([e]))
        # the rest makes no difference
        n = [0]
        if sel != Sel.ALL and not w.functions:
            c, d = vary(rng, w.o, p, sel, n), vary(rng, w.o, q, sel, n)
            x, y = c.build(), d.build()
            ctx.log("varied", x, "other", y)
            got = diff(ctx, x, y, "varied", compare_filter=paths, **kw)
            ctx.ok(key(got) == key(entries), "filter %s: values outside of "
                   "it make a difference: %r -> %r: %s; %r -> %r: %s",
                   paths, a, b, show(entries), x, y, show(got))
            ctx.ev("varied", 1 if n[0] else 0)
            # agreeing on what's selected
            x = vary(rng, w.o, p, sel, n).build()
            got = diff(ctx, a, x, "agreeing", compare_filter=paths, **dict(
                kw, moved=False, unchanged=False))
            ctx.ok(not got, "filter %s: %r and %r agree on it, but: %s",
                   paths, a, x, show(got))
            ctx.ev("agreeing")
        # same as the unfiltered entries within
        if independent(p, sel) and independent(q, sel) and not kw.get(
                "ignore_empty_slots") and not kw.get("ignore_empty_items"):
            whole = diff(ctx, a, b, "unfiltered", **kw)
            want = [e for e in whole if inside(e, sel)]
            ctx.ok(key(want) == key(entries), "filter %s: %r -> %r: %s, of "
                   "%s in all", paths, a, b, show(entries), show(whole))
            ctx.ev("restricted")
            ctx.ev("restricted away", len(whole) - len(want))


def extraneous(ctx, rng):
    """Extraneous attributes only take part when asked for"""
    w = World(rng, p_extraneous=.35)
    ctx.log("classes", "; ".join(w.describe()))
    t = T("rec", rec=w.top)
    p, q = w.pair(t)
    a, b = p.build(), q.build()
    kw = option_sample(rng, .15, ("moved", "unchanged", "fuzzy_match",
                                  "ignore_case"))
    without = diff(ctx, a, b, extraneous=False, **kw)
    ctx.equal(key(diff(ctx, a, b, **kw)), key(without), "the default")
    with_ = diff(ctx, a, b, extraneous=True, **kw)
    ctx.log("base", a, "other", b, "options", kw)
    for name, entries in ((False, without), (True, with_)):
        bad = w.judge(Opts(extraneous=name, **kw)).judge(a, b, entries)
        ctx.ok(bad is None, "extraneous=%s, %s: %s; reported %s", name, kw,
               bad, show(entries))
    ctx.ok(not set(map(repr, without)) - set(map(repr, with_)) or
           kw.get("unchanged"),
           "%r -> %r: %s; with extraneous: %s", a, b, show(without),
           show(with_))
    ctx.ev("extraneous")
    ctx.ev("extraneous entries", len(with_) - len(without))
    ctx.sig("extraneous", repr(key(with_)))
    if not w.functions:
        p2, q2 = p.copy(), q.copy()
        for d in (p2, q2):
            for x in d.walk():
                if x.kind == "rec":
                    for n, at in x.type.attrs.items():
                        if at.extraneous:
                            x.content[n] = at.type.desc(rng, w.o, 2)
        x, y = p2.build(), q2.build()
        got = diff(ctx, x, y, **kw)
        ctx.ok(key(got) == key(without), "extraneous attributes make a "
               "difference: %r -> %r: %s, %r -> %r: %s", a, b,
               show(without), x, y, show(got))


def forms(ctx, rng):
    """All forms of giving a filter mean the same"""
    w = World(rng)
    t = T("rec", rec=w.top)
    p, q = w.pair(t)
    paths = a_filter(rng, t, [p, q])
    if [] in paths:
        return
    a, b = p.build(), q.build()
    ctx.log("classes", "; ".join(w.describe()))
    ctx.log("base", a, "other", b, "filter", paths)
    want = diff(ctx, a, b, compare_filter=paths)
    mfs = MultiFieldSelector(*paths)
    shuffled = list(paths) + [rng.choice(paths)]
    rng.shuffle(shuffled)
    for name, f in (
            ("MultiFieldSelector", mfs),
            ("FieldSelectors", [FieldSelector(x) for x in paths]),
            ("another order", shuffled),
            ("from path", MultiFieldSelector.from_path(mfs.path)
             if len(paths) == 1 else mfs),
            ("tuple", tuple(tuple(x) for x in paths))):
        got = diff(ctx, a, b, name, compare_filter=f)
        ctx.ok(key(got) == key(want), "%s %s: %s, not %s", name, paths,
               show(got), show(want))
        got = diff(ctx, a, b, name, options=DiffOptions(compare_filter=f))
        ctx.equal(key(got), key(want), "%s, as options" % name)
    whole = diff(ctx, a, b)
    for name, f in (("everything", [[]]),
                    ("everything, complete", MultiFieldSelector(
                        FieldSelector())),
                    ("each attribute", [[n] for n in w.top.attrs])):
        got = diff(ctx, a, b, name, compare_filter=f)
        ctx.ok(key(got) == key(whole), "%s: %s, not %s", name, show(got),
               show(whole))
    ctx.ev("forms")
    ctx.sig("forms", repr(paths))


SCENARIOS = [("filters", filters, 1500, 50000),
             ("extraneous", extraneous, 1000, 10000),
             ("forms", forms, 400, 8000)]
