"""Walking the mutable parts of parse results."""
import enum
import types
from pathlib import PurePath

ATOMS = (type(None), bool, int, float, complex, str, bytes, PurePath, enum.Enum, type,
         types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.ModuleType)
# References from a part back to what contains it are no sharing
BACK = {"tileset", "parent"}


def fields(o):
    out = dict(getattr(o, "__dict__", {}))
    for c in type(o).__mro__:
        s = c.__dict__.get("__slots__", ())
        for n in (s,) if isinstance(s, str) else s:
            if n not in ("__dict__", "__weakref__") and hasattr(o, n):
                out.setdefault(n, getattr(o, n))
    return out


def mutable(root):
    """Yield (place, container, object) for every mutable object reachable from a result;
    an object reachable through two places is yielded twice (its inside once)."""
    seen = set()
    stack = [("result", root)]
    while stack:
        at, o = stack.pop()
        if isinstance(o, ATOMS):
            continue
        if isinstance(o, (tuple, frozenset)):
            stack.extend((f"{at}[{i}]", x) for i, x in enumerate(o))
            continue
        yield at, o
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, dict):
            for k, v in o.items():
                stack.append((f"{at}[{k!r}]", v))
                stack.append((f"{at} key {k!r}", k))
        elif isinstance(o, (list, set, bytearray)):
            if not isinstance(o, bytearray):
                stack.extend((f"{at}[{i}]", x) for i, x in enumerate(o))
        else:
            for k, v in fields(o).items():
                if k not in BACK:
                    stack.append((f"{at}.{k}", v))


def shared_inside(root):
    """Places of one result that hold the same mutable object."""
    first, out = {}, []
    for at, o in mutable(root):
        if id(o) in first:
            out.append((first[id(o)], at, type(o).__name__))
        else:
            first[id(o)] = at
    return out


def index(root):
    return {id(o): (at, o) for at, o in mutable(root)}


def shared_between(a, b):
    """a, b: results of index()."""
    return [(a[i][0], b[i][0], type(a[i][1]).__name__) for i in a if i in b]


def spoil(root, r, share=1.0):
    """Change every mutable object of a result, as a caller may."""
    n = 0
    for at, o in list(mutable(root)):
        if r.random() > share:
            continue
        n += 1
        try:
            if isinstance(o, dict):
                k = r.randrange(3)
                if k == 0:
                    o.clear()
                for key in list(o)[:2]:
                    o[key] = "spoiled"
                o["spoiled by the caller"] = 1
            elif isinstance(o, list):
                k = r.randrange(3)
                if k == 0:
                    o.clear()
                elif k == 1:
                    o.reverse()
                o.append("spoiled")
            elif isinstance(o, set):
                o.add("spoiled")
            elif isinstance(o, bytearray):
                o.extend(b"spoiled")
            else:
                for key in fields(o):
                    if r.random() < 0.5:
                        setattr(o, key, "spoiled")
        except Exception:
            continue
    return n
