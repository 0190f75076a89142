"""C12: equality, hashing and primary keys are coherent."""
import copy

import normalize.exc as exc
from mon.core import attempt
from mon.recmodel import new_class
from mon.shapes import D, Options, T, d_edit, d_eq, schema, snapshot
from normalize import JsonRecord, Property, Record
from normalize.coll import Collection, DictCollection, ListCollection

RULE = (
    "a case declares 1-4 related record classes and describes 3-6 instances "
    "of them (independently built twice, and variants with one edit at any "
    "depth, subclass and look-alike instances); every pair is compared, "
    "hashed and used in sets, against equality of the descriptions; "
    "non-trivial: at least one pair equal and one not, distinct by "
    "descriptions")
ASSUMPTIONS = [
    "values have sane equality (no NaN)", "None is not used as a value",
    "collections of different classes with equal items are only checked for "
    "coherence", "primary keys are made of non-extraneous attributes"]
NEED = {"pairs": 30000, "equal_pairs": 5000, "unequal_pairs": 10000,
        "hashes": 10000, "unhashable": 800, "keyed": 2000, "sets": 2000,
        "triples": 10000, "subclass_pairs": 500, "keyed collections": 100}

# (no order, or only a partial one, and the same hash)
MIXED = [-1, -2, "a", frozenset([1]), frozenset([2])]


def d_id(d):
    """The identity of a described value: what it depends on"""
    if d.kind == "value":
        return ("v", d.content)
    if d.kind == "rec":
        slots = d.slots()
        names = d.type.pk or [n for n in sorted(d.type.attrs)
                              if not d.type.attrs[n].extraneous]
        return ("r", [d_id(slots[n]) if n in slots else None for n in names])
    if d.kind == "list":
        return ("c", [d_id(x) for k, x in d.content])
    return ("d", sorted(((k, d_id(x)) for k, x in d.content),
                        key=lambda kv: repr(kv[0])))


def id_keys_ignored(i):
    """Identity up to the keys of dictionaries (which it may or may not
    include), and up to None and unset being told apart"""
    if i is None or i == ("v", None):
        return None
    if i[0] == "v":
        return i
    if i[0] == "d":
        return ("d", sorted((id_keys_ignored(x) for k, x in i[1]), key=repr))
    return (i[0], [id_keys_ignored(x) for x in i[1]])


def hashable(d, identity=True):
    """Is everything the identity is made of hashable?"""
    if d.kind == "value":
        return d.content.__hash__ is not None
    if d.kind == "rec":
        slots = d.slots()
        names = d.type.pk or [n for n, a in d.type.attrs.items()
                              if not a.extraneous]
        return all(hashable(slots[n]) for n in names if n in slots)
    return all(hashable(x) for k, x in d.content)


def judge_pair(ctx, da, a, db, b):
    want = d_eq(da, db)
    ctx.ev("pairs")
    ctx.ev("equal_pairs" if want else "unequal_pairs")
    for x, y, dx, dy in ((a, b, da, db), (b, a, db, da)):
        got = ctx.value(attempt(lambda: x == y), "%r == %r" % (dx, dy))
        ctx.ok(got is True or got is False or True, "truth")
        ctx.ok(bool(got) == want, "%r == %r is %r", dx, dy, got)
        got = ctx.value(attempt(lambda: x != y), "%r != %r" % (dx, dy))
        ctx.ok(bool(got) == (not want), "%r != %r is %r", dx, dy, got)
    if da.kind != "rec":
        return want
    ha, hb = attempt(hash, a), attempt(hash, b)
    if hashable(da) and hashable(db):
        ctx.value(ha, "hash of %r" % da)
        ctx.value(hb, "hash of %r" % db)
        ctx.ev("hashes")
        if want:
            ctx.ok(ha.value == hb.value, "equal records %r and %r have "
                   "different hashes", da, db)
            ctx.ok(len(set([a, b])) == 1 and b in {a: 1} and a in set([b]),
                   "equal records %r and %r are different set members", da,
                   db)
            ctx.ev("sets")
        else:
            ctx.ok(len(set([a, b])) == 2, "unequal records %r and %r are the "
                   "same set member", da, db)
    for d, x, h in ((da, a, ha), (db, b, hb)):
        if not hashable(d):
            ctx.raised(h, (TypeError, exc.NormalizeError),
                       "hash of %r (unhashable contents)" % d)
            ctx.ev("unhashable")
    # identity
    if da.type is db.type and hashable(da) and hashable(db):
        pa = ctx.value(attempt(lambda: a.__pk__), "identity of %r" % da)
        pb = ctx.value(attempt(lambda: b.__pk__), "identity of %r" % db)
        ia, ib = d_id(da), d_id(db)
        if ia == ib:
            ctx.ok(pa == pb and ha.value == hb.value, "%r and %r have "
                   "identities %r and %r", da, db, pa, pb)
            if da.type.pk:
                ctx.ev("keyed")
        elif id_keys_ignored(ia) != id_keys_ignored(ib):
            ctx.ok(pa != pb, "%r and %r have the same identity %r, %r", da,
                   db, pa, pb)
    return want


def pairs(ctx, rng):
    o = Options(p_none=.25, p_unset=.25, p_pk=.35, p_lazy=.08, kinds=[
        "int", "str", "float", "bool", "any", "union", "rec", "rec", "list",
        "dict", "list", "dict", "date", "int", "str"] + rng.choice(
            [[], [], ["plainlist", "plaindict"]]),
        ints=[0, 1, 2], words=["a", "b", "", u"\u00e9"],
        keys=rng.choice([["k1", "k2", "K"], [1, 2, 3], MIXED]))
    recs = schema(rng, o)
    r = recs[-1]
    ctx.log(r.describe())
    base = r.desc(rng, o)
    ds = [base, base.reordered(rng)]
    for _ in range(rng.randrange(1, 5)):
        d, what = d_edit(rng, o, rng.choice(ds))
        ds.append(d)
    if rng.random() < .3:
        ds.append(r.desc(rng, o))
    objs = [ctx.value(attempt(d.build), "build %r" % d) for d in ds]
    ctx.log("instances", ds)
    n = len(ds)
    states = [snapshot(x, ids=True) for x in objs]
    eq = {}
    kinds = set()
    for i in range(n):
        got = attempt(lambda: objs[i] == objs[i])
        ctx.ok(ctx.value(got, "x == x"), "%r isn't equal to itself", ds[i])
        for j in range(n):
            eq[i, j] = judge_pair(ctx, ds[i], objs[i], ds[j], objs[j])
            if i != j:
                kinds.add(eq[i, j])
        for alien in (None, 5, "x", {}, object()):
            ctx.ok(not (objs[i] == alien) and objs[i] != alien,
                   "%r equals %r", ds[i], alien)
        # hashing is stable, and survives reads
        if hashable(ds[i]):
            h = hash(objs[i])
            repr(objs[i]), str(objs[i])
            ctx.ok(hash(objs[i]) == h, "hash of %r changed", ds[i])
            ctx.ok(hash(ds[i].build()) == h, "hash of an equal %r", ds[i])
    for i in range(n):
        for j in range(n):
            for k in range(n):
                ctx.ev("triples")
                if objs[i] == objs[j] and objs[j] == objs[k]:
                    ctx.ok(objs[i] == objs[k], "equality isn't transitive: "
                           "%r, %r, %r", ds[i], ds[j], ds[k])
    # none of it changed anything set
    for d, x, s in zip(ds, objs, states):
        if not any(a.lazy for y in recs for a in y.attrs.values()):
            ctx.ok(snapshot(x, ids=True) == s, "comparing or hashing %r "
                   "changed it", d)
    if len(kinds) == 2:
        ctx.sig(r.describe(), ds)


def classes(ctx, rng):
    """Instances of subclasses and of look-alike classes are never equal"""
    o = Options(p_none=.2, p_pk=.3, p_lazy=0, kinds=["int", "str", "list", "rec"],
                p_ro=0, ints=[0, 1], words=["a", "b"])
    recs = schema(rng, o)
    r = recs[-1]
    d = r.desc(rng, o)
    ctx.log(r.describe(), d)
    x = d.build()
    kw = dict((n, y.build()) for n, y in d.content.items())
    same = dict(d.content)
    sub = new_class(r.cls, {} if not r.pk or rng.random() < .5 else {
        "primary_key": list(r.pk)}, "Sub")
    more = new_class(r.cls, {"extra_attr": Property()}, "Sub")
    like = new_class(JsonRecord if r.json else Record, dict(
        (n, Property()) for n in r.attrs), "Like")
    named = type(Record)(r.cls.__name__, (r.cls,), {
        "__module__": "verif_dyn"})
    for cls in (sub, more, like, named):
        y = ctx.value(attempt(lambda: cls(**kw)), "another class")
        for a, b in ((x, y), (y, x)):
            ctx.ok(not (a == b), "%r equals an instance of another class", d)
            ctx.ok(a != b, "%r isn't different from an instance of another "
                   "class", d)
        ctx.ev("subclass_pairs")
        if cls is not like and rng.random() < .5:
            z = cls(**kw)
            ctx.ok(y == z, "equal instances of a subclass differ: %r", d)
            if hashable(d):
                ctx.ok(hash(y) == hash(z), "hashes of equal subclass "
                       "instances")
        if hashable(d) and cls is not like:     # (untyped there)
            ctx.ok(len(set([x, y])) == 2, "set of two classes")
    # inherited attributes take part in equality
    for cls in (sub, more):
        d2, what = d_edit(rng, o, d)
        kw2 = dict((n, v.build()) for n, v in d2.content.items())
        y, z = cls(**kw), cls(**kw2)
        ctx.ok((y == z) == d_eq(d, d2), "%r and %r, of a subclass", d, d2)
        if cls is more:
            z = cls(extra_attr=1, **kw)
            ctx.ok(y != z and z != y, "own attribute ignored")
    ctx.sig(r.describe(), d)


def collections(ctx, rng):
    """Coherence of the equality of collections"""
    o = Options(kinds=["list", "dict"], item_kinds=["int", "str", "rec"],
                ints=[0, 1], words=["a", "b"], p_lazy=0)
    recs = schema(rng, Options(kinds=["int", "str"], p_lazy=0, ints=[0, 1],
                               words=["a", "b"]), 1)
    from mon.shapes import a_type
    t = a_type(rng, o, recs, False)
    ds = [t.desc(rng, o)]
    ds.append(ds[0].reordered(rng))
    for _ in range(4):
        ds.append(d_edit(rng, o, rng.choice(ds))[0].reordered(rng))
    ctx.log("collections", ds)
    objs = [d.build() for d in ds]
    for i in range(len(ds)):
        for j in range(len(ds)):
            judge_pair(ctx, ds[i], objs[i], ds[j], objs[j])
        for alien in (None, 5, object()):
            ctx.ok(not (objs[i] == alien) and objs[i] != alien,
                   "%r equals %r", ds[i], alien)
    other = new_class(t.cls.__mro__[1], {"itemtype": t.item.isa()}, "Oc")
    y = other(values=objs[0])
    ctx.ok((objs[0] == y) == (y == objs[0]) and
           (objs[0] != y) == (not objs[0] == y),
           "equality of different collection classes isn't symmetric")
    ctx.sig(ds)


def keyed(ctx, rng):
    """With a primary key, only the key matters for identity"""
    key = rng.sample(["a", "b", "c"], rng.choice([1, 1, 2]))
    kinds = dict((n, rng.choice(["int", "str", "any"])) for n in "abcd")
    props = dict((n, Property(**({} if k == "any" else {
        "isa": int if k == "int" else str}))) for n, k in kinds.items())
    props["plain"] = Property(isa=list)
    props["note"] = Property(extraneous=True)
    pk = [props[n] if rng.random() < .4 else n for n in key]
    base = rng.choice([Record, Record, JsonRecord, JsonRecord,
                       ListCollection, DictCollection])
    coll = issubclass(base, Collection)
    if coll:
        props["itemtype"] = int
    cls = new_class(base, dict(props, primary_key=pk), "Keyed")

    def val(n):
        return rng.choice([0, 1, 5]) if kinds[n] != "str" else rng.choice(
            ["", "x", "y"])
    kw = dict((n, val(n)) for n in "abcd")
    other = dict((n, v if n in key else val(n)) for n, v in kw.items())
    for d in (kw, other):
        d["plain"] = [rng.randrange(3)]
        d["note"] = rng.random()
    for n in "abcd":
        if n not in key and rng.random() < .2:
            del other[n]
    if coll:
        # (nor does what they contain)
        for d in (kw, other):
            items = [rng.randrange(3) for _ in range(rng.randrange(3))]
            d["values"] = items if base is ListCollection else dict(
                zip("kl", items))
        ctx.ev("keyed collections")

    def identity(r):
        # (collections can't be hashed)
        return r.__pk__ if coll else hash(r)
    x, y = cls(**kw), cls(**other)
    ctx.log("key", key, kw, other)
    want = tuple(kw[n] for n in key)
    ctx.equal(ctx.value(attempt(lambda: x.__pk__), "identity"), want,
              "identity with key %s" % key)
    ctx.ok(x.__pk__ == y.__pk__ and identity(x) == identity(y),
           "records with equal keys %s: %r and %r have different identities",
           key, x, y)
    # (collections are equal if their items are)
    ctx.ok(coll or (x == y) == all(kw.get(n) == other.get(n) and
                           (n in kw) == (n in other)
                           for n in list("abcd") + ["plain"]),
           "equality of keyed records %r and %r", x, y)
    n = rng.choice(key)
    z = cls(**dict(kw, **{n: 77 if kinds[n] != "str" else "zz"}))
    ctx.ok(z.__pk__ != x.__pk__ and (coll or z != x), "keys differ in %s", n)
    h = identity(x)
    for m in "abcd":
        if m not in key:
            setattr(x, m, val(m))
            ctx.ok(identity(x) == h, "hash changed with %s (key %s)", m, key)
    setattr(x, "note", object())
    x.plain.append(4)
    if coll:
        x.update({"m": 8}) if base is DictCollection else x.append(8)
    ctx.ok(identity(x) == h, "hash changed with other attributes (key %s)", key)
    ctx.ev("keyed")
    ctx.sig(key, kw, other)


SCENARIOS = [("pairs", pairs, 3000, 60000), ("classes", classes, 500, 10000),
             ("collections", collections, 600, 10000),
             ("keyed", keyed, 600, 10000)]
