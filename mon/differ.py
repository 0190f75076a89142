"""Judge of comparison results (C22, C23, C24).

Given two objects, the options, the selected fields and the reported entries,
decides whether the entries are a true and complete account.  It does not
predict which items of two collections are paired (that's the library's
business where several pairings are sensible): it takes the pairs from the
entries, and checks that they're admissible.
"""
from collections import Counter
import re
import unicodedata

from normalize import Record
from normalize.coll import Collection, DictCollection
from normalize.diff import DiffOptions, DiffTypes

NOTHING = "(not set)"


class Unset(object):
    def __repr__(self):
        return "<unset>"


UNSET = Unset()
COMPARABLE = (list, tuple, dict, Record)
KINDS = {DiffTypes.NO_CHANGE: "same", DiffTypes.ADDED: "added",
         DiffTypes.REMOVED: "removed", DiffTypes.MODIFIED: "modified",
         DiffTypes.MOVED: "moved"}
MIRROR = {"added": "removed", "removed": "added"}


class Wrong(Exception):
    pass


class Opts(object):
    """The options, by their documentation"""
    NAMES = ("ignore_ws", "ignore_case", "unicode_normal", "unchanged",
             "moved", "ignore_empty_slots", "ignore_empty_items",
             "extraneous", "fuzzy_match", "recurse")

    def __init__(self, **kw):
        self.ignore_ws = self.unicode_normal = self.fuzzy_match = True
        self.ignore_case = self.unchanged = self.moved = False
        self.ignore_empty_slots = self.ignore_empty_items = False
        self.extraneous = self.recurse = False
        self.__dict__.update(kw)
        self.given = kw

    def text(self, v):
        if self.ignore_ws:
            v = u" ".join(x for x in re.split(r"\s+", v) if x)
        if self.ignore_case:
            v = v.upper()
        if self.unicode_normal:
            v = unicodedata.normalize("NFC", v)
        return v

    def value(self, v):
        if isinstance(v, str):
            v = self.text(v)
        if self.ignore_empty_slots and self.is_empty(v):
            return UNSET
        return v

    # (these are what C28's hooks override)
    def is_empty(self, v):
        return v is None or isinstance(v, str) and v == ""

    def slot(self, v, name):
        return self.value(v)

    def item(self, v, compare_as=None):
        if compare_as:
            v = compare_as(v)
        return self.value(v)

    def same(self, v, w):
        return v == w


class Sel(object):
    """Selected fields; a filter as a tree (None: not selected)"""
    ALL = "all"

    @classmethod
    def of(cls, paths):
        if paths is None:
            return cls.ALL
        tree = {}
        for p in paths:
            if not p:
                return cls.ALL
            tree.setdefault(p[0], []).append(p[1:])
        return dict((k, cls.of(v)) for k, v in tree.items())


def sub(sel, key):
    """-> what's selected below the key, or None"""
    if sel == Sel.ALL:
        return sel
    if None in sel:
        return sel[None]
    return sel.get(key)


def entries_of(diff):
    return [(KINDS[d.diff_type], tuple(d.base), tuple(d.other))
            for d in diff]


def mirrored(entries):
    return [(MIRROR.get(k, k), b, a) for k, a, b in entries]


def items_of(coll):
    """-> {key: item} of any sort of collection"""
    if isinstance(coll, Collection):
        v = coll.__dict__["_values"]
    else:
        v = coll
    return dict(v) if isinstance(v, dict) else dict(enumerate(v))


def matched(left, right, fits):
    """Can everything on the left be given one of its own on the right?"""
    taken = {}

    def place(k, tried):
        for l in right:
            if l not in tried and fits(k, l):
                tried.add(l)
                if l not in taken or place(taken[l], tried):
                    taken[l] = k
                    return True
        return False

    return all(place(k, set()) for k in left)


def show(entries):
    return ["%s %s %s" % (k, list(a), list(b)) for k, a, b in entries]


class Judge(object):
    def __init__(self, opts, functions=None, item_functions=None):
        self.o = opts
        self.functions = functions or {}    # (class, attr): fn(record, value)
        self.item_functions = item_functions or {}      # class: fn(value)
        self.stats = Counter()
        # were there several ways of pairing different items?
        self.ambiguous = False

    def functions_of(self, record, name):
        for cls in type(record).__mro__:
            if (cls, name) in self.functions:
                return self.functions[cls, name]

    # values -------------------------------------------------------------

    def slot(self, record, name):
        v = getattr(record, name, UNSET)
        if v is UNSET:
            return v
        fn = self.functions_of(record, name)
        if fn:
            v = fn(record, v)
        return self.o.slot(v, name)

    def item(self, coll, v):
        fn = self.item_functions.get(type(coll))
        return self.o.item(v, fn)

    def names(self, record, sel):
        return [n for n, p in sorted(type(record).properties.items())
                if (self.o.extraneous or not p.extraneous) and
                sub(sel, n) is not None]

    def has_records(self, coll):
        return isinstance(coll, Collection) and issubclass(
            type(coll).itemtype, Record)

    def simple_items(self, coll, sel):
        out = {}
        for k, v in items_of(coll).items():
            if sub(sel, k) is None:
                continue
            v = self.item(coll, v)
            if v is not UNSET:
                out[k] = v
        return out

    def record_items(self, coll, sel):
        out = {}
        for k, v in items_of(coll).items():
            s = sub(sel, k)
            if s is None:
                continue
            if self.o.ignore_empty_items and self.no_identity(
                    self.ident(v, s)):
                continue
            out[k] = v
        return out

    def empty(self, v, sel):
        """Does the value count as not set? (ignore_empty_slots)"""
        if v is UNSET:
            return True
        out = True
        if self.has_records(v):
            items = self.record_items(v, sel)
            out = not (self.o.recurse and items) and all(
                self.empty(x, sub(sel, k)) for k, x in items.items())
        elif isinstance(v, (list, tuple, dict, Collection)):
            out = not self.simple_items(v, sel)
        if isinstance(v, Record):
            return out and all(self.empty(self.slot(v, n), sub(sel, n))
                               for n in self.names(v, sel))
        return out and isinstance(v, COMPARABLE)

    def no_identity(self, ident):
        if isinstance(ident, tuple):
            return all(self.no_identity(x) for x in ident)
        return ident is None or ident is UNSET or ident == ""

    def ident(self, rec, sel):
        """What identifies an item: the primary key, or all compared fields"""
        cls = type(rec)
        pk = [p.name for p in cls.primary_key]
        if pk and any(sub(sel, n) is None for n in pk):
            pk = []
        if not pk and isinstance(rec, Collection):
            items = [(k, v) for k, v in items_of(rec).items()
                     if sub(sel, k) is not None]
            if isinstance(rec, DictCollection):
                items.sort(key=lambda kv: repr(kv[0]))
            # (the values of simple items are taken as they are)
            return tuple(self.ident(v, sub(sel, k)) if isinstance(v, Record)
                         else v for k, v in items)
        if not pk:
            pk = [n for n, p in cls.properties.items()
                  if not p.extraneous and sub(sel, n) is not None]
            pk.sort()
        out = []
        for n in pk:
            v = self.slot(rec, n)
            if v is UNSET:
                v = None
            if isinstance(v, Record):
                v = self.ident(v, sub(sel, n))
            out.append(v)
        return tuple(out)

    def canon(self, v, sel):
        """Content, whatever the position of items"""
        if v is UNSET:
            return None
        parts = [type(v).__name__ if isinstance(v, COMPARABLE) else ""]
        if self.has_records(v):
            c = Counter(self.canon(x, sub(sel, k))
                        for k, x in self.record_items(v, sel).items())
            parts.append(frozenset(c.items()))
        elif isinstance(v, (list, tuple, dict, Collection)):
            c = Counter(self.hashable(x) for x in
                        self.simple_items(v, sel).values())
            parts.append(frozenset(c.items()))
        elif not isinstance(v, Record):
            return ("value", v)
        if isinstance(v, Record):
            for n in self.names(v, sel):
                x = self.slot(v, n)
                if x is UNSET or self.o.ignore_empty_slots and isinstance(
                        x, COMPARABLE) and self.empty(x, sub(sel, n)):
                    continue
                parts.append((n, self.canon(x, sub(sel, n))))
        return tuple(parts)

    def hashable(self, v):
        """Equal for equal items, and only for these"""
        if isinstance(v, dict):
            return (dict, frozenset(
                (k, self.hashable(x)) for k, x in v.items()))
        if isinstance(v, (list, tuple)):
            return (type(v), tuple(map(self.hashable, v)))
        if isinstance(v, set):
            return frozenset(v)
        return v

    # judgement ----------------------------------------------------------

    def fail(self, msg, *args):
        raise Wrong(msg % args)

    def judge(self, a, b, entries, sel=Sel.ALL):
        """-> None, or what's wrong with the entries"""
        try:
            dup = [e for e, n in Counter(entries).items() if n > 1]
            if dup:
                self.fail("reported more than once: %s", show(dup))
            self.values(a, b, entries, sel, ())
        except Wrong as e:
            return str(e)

    def values(self, a, b, entries, sel, at):
        if isinstance(a, Collection):
            attrs, items = [], []
            for e in entries:
                (attrs if e[1] and e[2] and e[1][0] == e[2][0] and
                 e[1][0] in type(a).properties else items).append(e)
            (self.records_in if self.has_records(a) else self.simple)(
                a, b, items, sel, at)
            self.record(a, b, attrs, sel, at)
        elif isinstance(a, Record):
            self.record(a, b, entries, sel, at)
        else:
            self.simple(a, b, entries, sel, at)

    def record(self, a, b, entries, sel, at):
        groups = {}
        names = self.names(a, sel)
        for k, x, y in entries:
            if not x or not y or x[0] != y[0] or x[0] not in names:
                self.fail("at %s: %s is not a compared attribute of both",
                          list(at), show([(k, x, y)]))
            groups.setdefault(x[0], []).append((k, x[1:], y[1:]))
        for n in names:
            self.slots(self.slot(a, n), self.slot(b, n), groups.get(n, []),
                       sub(sel, n), at + (n,))

    def slots(self, x, y, entries, sel, at):
        self.stats["slots"] += 1
        if x is UNSET and y is UNSET:
            want = []
        elif x is UNSET or y is UNSET:
            v = y if x is UNSET else x
            kind = "added" if x is UNSET else "removed"
            if self.o.ignore_empty_slots and isinstance(v, COMPARABLE) and \
                    self.empty(v, sel):
                kind = "same"
        elif type(x) is type(y) and isinstance(x, COMPARABLE):
            return self.values(x, y, entries, sel, at)
        else:
            kind = "same" if self.o.same(x, y) else "modified"
        if x is not UNSET or y is not UNSET:
            want = [(kind, (), ())] if kind != "same" or \
                self.o.unchanged else []
            self.stats[kind] += 1
        if entries != want:
            self.fail("at %s: %r -> %r should give %s, not %s", list(at), x,
                      y, show(want), show(entries))

    def simple(self, a, b, entries, sel, at):
        """Items which are plain values"""
        x, y = self.simple_items(a, sel), self.simple_items(b, sel)
        removed, added = Counter(), Counter()
        used_x, used_y = set(), set()
        for e in entries:
            kind, p, q = e
            bad = None
            if kind == "removed":
                if len(p) != 1 or q or p[0] not in x:
                    bad = "not an item of the base"
                else:
                    removed[self.hashable(x[p[0]])] += 1
            elif kind == "added":
                if p or len(q) != 1 or q[0] not in y:
                    bad = "not an item of the other"
                else:
                    added[self.hashable(y[q[0]])] += 1
            elif len(p) != 1 or len(q) != 1 or p[0] not in x or \
                    q[0] not in y:
                bad = "not items of both"
            elif kind == "modified":
                if p != q or x[p[0]] == y[q[0]]:
                    bad = "not a modification"
                else:
                    removed[self.hashable(x[p[0]])] += 1
                    added[self.hashable(y[q[0]])] += 1
            elif x[p[0]] != y[q[0]]:
                bad = "items differ"
            elif kind == "moved" and (p == q or not self.o.moved):
                bad = "not moved"
            elif kind == "same" and (p != q and self.o.moved or
                                     not self.o.unchanged):
                bad = "not to be reported as unchanged"
            if p and kind != "added" and p[0] in used_x or \
                    q and kind != "removed" and q[0] in used_y:
                bad = "item mentioned twice"
            used_x.update(p)
            used_y.update(q)
            if bad:
                self.fail("at %s: %s: %s (%r -> %r)", list(at), show([e]),
                          bad, a, b)
            self.stats["item " + kind] += 1
        n = Counter(map(self.hashable, x.values()))
        m = Counter(map(self.hashable, y.values()))
        if removed != n - m or added != m - n:
            self.fail("at %s: %r -> %r: %s gone and %s new, but reported %s",
                      list(at), a, b, dict(n - m), dict(m - n),
                      show(entries))
        rest_x = set(x) - used_x
        rest_y = set(y) - used_y
        if self.o.unchanged and (rest_x or rest_y):
            self.fail("at %s: unchanged items %s / %s not reported",
                      list(at), rest_x, rest_y)
        if self.o.moved and any(k not in rest_y or x[k] != y[k]
                                for k in rest_x):
            self.fail("at %s: %r -> %r: moves not reported: %s", list(at),
                      a, b, show(entries))

    def records_in(self, a, b, entries, sel, at):
        x, y = self.record_items(a, sel), self.record_items(b, sel)
        removed, added, inner, moves, same = [], [], {}, set(), set()
        for e in entries:
            kind, p, q = e
            if kind == "removed" and len(p) == 1 and not q:
                removed.append(p[0])
            elif kind == "added" and len(q) == 1 and not p:
                added.append(q[0])
            elif not p or not q:
                self.fail("at %s: %s?", list(at), show([e]))
            elif kind in ("moved", "same") and len(p) == len(q) == 1:
                inner.setdefault((p[0], q[0]), [])
                (moves if kind == "moved" else same).add((p[0], q[0]))
            else:
                inner.setdefault((p[0], q[0]), []).append(
                    (kind, p[1:], q[1:]))
        ps, qs = [k[0] for k in inner], [k[1] for k in inner]
        for used, have, who in ((ps + removed, x, "base"),
                                (qs + added, y, "other")):
            for k, n in Counter(used).items():
                if k not in have:
                    self.fail("at %s: no item %r in the %s (%r -> %r): %s",
                              list(at), k, who, a, b, show(entries))
                if n > 1:
                    self.fail("at %s: item %r of the %s is accounted for "
                              "more than once (%r -> %r): %s", list(at), k,
                              who, a, b, show(entries))
        ids_x = dict((k, self.ident(v, sub(sel, k))) for k, v in x.items())
        ids_y = dict((k, self.ident(v, sub(sel, k))) for k, v in y.items())
        for (k, l), sub_entries in inner.items():
            self.stats["pairs"] += 1
            if ids_x[k] != ids_y[l]:
                self.stats["fuzzy pairs"] += 1
            if self.o.recurse:
                if k != l:
                    self.fail("at %s: %r paired with %r", list(at), k, l)
            elif ids_x[k] != ids_y[l] and (not self.o.fuzzy_match or
                                           (k, l) in same and
                                           self.o.moved and k != l):
                self.fail("at %s: %r and %r are not the same item (%r -> %r)",
                          list(at), k, l, a, b)
            if (k, l) in moves and (k == l or not self.o.moved):
                self.fail("at %s: %r -> %r is not a move", list(at), k, l)
            if (k, l) in same and not self.o.unchanged:
                self.fail("at %s: unchanged not asked for", list(at))
            if self.o.moved and k != l and (k, l) not in moves:
                self.fail("at %s: move %r -> %r is not reported", list(at),
                          k, l)
            if (k, l) in same and ids_x[k] != ids_y[l] and any(
                    e[0] != "same" for e in sub_entries):
                self.fail("at %s: %r -> %r unchanged?", list(at), k, l)
            self.values(x[k], y[l], sub_entries, sub(sel, k), at + (k,))
        rest_x = sorted(set(x) - set(ps) - set(removed), key=repr)
        rest_y = sorted(set(y) - set(qs) - set(added), key=repr)
        if type(self.o).same is Opts.same:
            n = Counter(self.canon(x[k], sub(sel, k)) for k in rest_x)
            m = Counter(self.canon(y[k], sub(sel, k)) for k in rest_y)
            alike = n == m

            def like(k):
                return self.canon(x[k], sub(sel, k)) == \
                    self.canon(y[k], sub(sel, k))
        else:
            # equality isn't contents': every pair must be without entries
            def quiet(k, l):
                try:
                    self.values(x[k], y[l], [], sub(sel, k), at + (k,))
                except Wrong:
                    return False
                return True

            def like(k):
                return quiet(k, k)

            if self.o.recurse:
                alike = rest_x == rest_y and all(map(like, rest_x))
            else:
                alike = len(rest_x) == len(rest_y) and matched(
                    rest_x, rest_y, quiet)
        if not alike:
            self.fail("at %s: %r -> %r: items %s of the base and %s of the "
                      "other are taken as the same, but are not: %s",
                      list(at), a, b, rest_x, rest_y, show(entries))
        if self.o.unchanged and rest_x and not self.o.recurse:
            self.fail("at %s: unchanged items %s not reported", list(at),
                      rest_x)
        if self.o.moved and not self.o.recurse and any(
                not like(k) if k in rest_y else True for k in rest_x):
            self.fail("at %s: %r -> %r: moves not reported: %s", list(at),
                      a, b, show(entries))
        self.stats["items added"] += len(added)
        self.stats["items removed"] += len(removed)
        self.stats["items untouched"] += len(rest_x)
        if self.o.recurse:
            if set(removed) != set(x) - set(y) or \
                    set(added) != set(y) - set(x):
                self.fail("at %s: keys %s removed, %s added", list(at),
                          removed, added)
            return
        n, m = Counter(ids_x.values()), Counter(ids_y.values())
        gone, new = sum((n - m).values()), sum((m - n).values())
        if gone and new and gone + new > 2:
            self.ambiguous = True
        r = Counter(ids_x[k] for k in removed)
        s = Counter(ids_y[k] for k in added)
        if r - (n - m) or s - (m - n):
            self.fail("at %s: %r -> %r: reported as removed or added, but "
                      "present in both: %s", list(at), a, b, show(entries))
