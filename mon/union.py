"""What a multi-field selector denotes: a union of places.

A place is a tuple of steps and stands for everything at and within it; a
wildcard stands for every step.  ``[..., None]`` (all the items of a thing) is
the thing itself.
"""


def normal(steps):
    s = tuple(steps)
    return s[:-1] if s and s[-1] is None else s


def match(a, b):
    """Does the step of a place include the step b?"""
    return a is None or a == b


def includes(place, steps):
    return len(place) <= len(steps) and all(
        match(a, b) for a, b in zip(place, steps))


class Union(object):
    def __init__(self, places):
        places = set(tuple(p) for p in places)
        self.places = set(
            p for p in places
            if not any(q != p and includes(q, p) for q in places))

    def __eq__(self, other):
        return self.places == other.places

    def __repr__(self):
        return "{%s}" % ", ".join(sorted(map(repr, self.places)))

    @property
    def complete(self):
        return () in self.places

    def contains(self, steps):
        return any(includes(p, steps) for p in self.places)

    def contains_step(self, step):
        return any(not p or match(p[0], step) for p in self.places)

    def sub(self, steps):
        """-> Union of what is selected there; None if nothing"""
        out = []
        for p in self.places:
            if includes(p, steps):
                out.append(())
            elif len(p) > len(steps) and all(
                    match(a, b) for a, b in zip(p, steps)):
                out.append(p[len(steps):])
        return Union(out) if out else None


def levels_ok(places):
    """No wildcard next to names or indices at any level"""
    heads = {}
    for p in places:
        if not p:
            if len(places) > 1:
                return False
            return True
        heads.setdefault(p[0], []).append(p[1:])
    if None in heads and len(heads) > 1:
        return False
    return all(levels_ok(set(t)) or () in t and all(
        None not in x[:1] for x in t) for t in heads.values())
