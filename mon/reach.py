"""What the library holds on to.

Walks from what the library keeps for as long as the process runs - the
globals of its modules, its functions (with their closures, defaults and
caches), its classes, and given classes declared with it with their
properties - to everything which that refers to.  What a declaration was given
(defaults, functions) belongs to the user, so the walk does not go there.
"""
import collections
import gc
import sys
import types

from normalize import Record
from normalize.property import Property

SKIP = (types.ModuleType, types.FrameType, types.CodeType,
        types.BuiltinFunctionType, types.GeneratorType)
GIVEN = ("default", "default_kwargs", "doc", "__doc__")


def ours(name):
    return isinstance(name, str) and name.split(".")[0] == "normalize"


def parts(x):
    """What x refers to, if the walk is to go on there"""
    if isinstance(x, SKIP):
        return ()
    if isinstance(x, type):
        if not (ours(x.__module__) or issubclass(x, (Record, Property))):
            return ()
        return [v for k, v in vars(x).items() if k not in GIVEN]
    if isinstance(x, types.FunctionType):
        if not ours(x.__module__):
            return ()
        out = [x.__dict__, x.__defaults__, x.__kwdefaults__]
        for c in x.__closure__ or ():
            try:
                out.append(c.cell_contents)
            except ValueError:
                pass
        return out
    if isinstance(x, Property):
        return [v for k, v in vars(x).items() if k not in GIVEN]
    if isinstance(x, dict):
        # (the collector only looks at the values, if the keys are strings)
        return list(dict.keys(x)) + list(dict.values(x))
    return gc.get_referents(x)


def roots():
    return [vars(m) for n, m in list(sys.modules.items())
            if m is not None and ours(n)]


def declared():
    """All record classes there are"""
    out, todo = [], [Record]
    while todo:
        x = todo.pop()
        out.append(x)
        todo.extend(type.__subclasses__(x))
    return out


def held():
    """-> {id: (object, id of what refers to it)}"""
    seen = {}
    todo = collections.deque((x, None) for x in roots() + declared())
    while todo:
        x, by = todo.popleft()
        if id(x) in seen:
            continue
        seen[id(x)] = x, by
        for y in parts(x):
            if id(y) not in seen:
                todo.append((y, id(x)))
    return seen


def route(seen, x):
    """-> description of how x is held"""
    out = []
    i = id(x)
    while i is not None and len(out) < 12:
        y, i = seen[i]
        name = getattr(y, "__name__", None)
        if isinstance(y, dict) and "__name__" in y:
            name = y["__name__"]
        out.append("%s%s" % (type(y).__name__,
                             " " + name if isinstance(name, str) else ""))
    return " <- ".join(out)
