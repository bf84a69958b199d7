"""C27: results are plain values: they compare, copy, pickle and print."""
import copy
import math
import pathlib
import pickle

from .. import alias, anything, project
from ..base import explain, guarded
from ..common import api, gen

CASES = {"quick": 12000, "thorough": 120000}
RULE = ("A case parses one document of any kind (as in C26) twice.  The monitor requires the two results to compare equal and to print "
        "alike; a deep copy and a pickled copy (of every protocol in turn) to equal the result, to show the same content, and to "
        "share no mutable part with it; and a copy in which one value at a random place was replaced (by something foreign or by a "
        "neighbour: the next number, the other boolean, a text in other case, one component of a pair, one entry less) to compare "
        "unequal, until the value is put back.  Distinct: distinct documents.")
REQUIRED = {"pairs of parses compared": 4000, "deep copies compared": 4000, "pickled copies compared": 4000,
            "changed copies compared": 10000, "kinds of change: attribute": 3000, "kinds of change: dict": 800, "kinds of change: list": 500,
            "changed to a neighbour": 4000, "changed to a neighbour: tuple": 300,
            **{f"pickle protocol {k}": 300 for k in range(pickle.HIGHEST_PROTOCOL + 1)}}


class Other:
    """Equal to nothing else."""

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__

    def __repr__(self):
        return "<another value>"


def near(g, v):
    """A value much like the given one that is not equal to it, or None."""
    if v is None:
        return g.pick(["", 0, False])
    if isinstance(v, bool):
        return not v
    if isinstance(v, (int, float)):
        return g.pick([v + 1, v - 1, -v, math.nextafter(v, math.inf), math.nextafter(v, -math.inf)])
    if isinstance(v, str):
        return g.pick([v.swapcase(), v + " ", v[:-1], v[::-1], v + "\u0301"])
    if isinstance(v, pathlib.PurePath):
        return g.pick([v / "x", v.parent, type(v)(str(v).swapcase())])
    if isinstance(v, tuple) and v:
        k = g.n(0, len(v) - 1)
        return tuple.__new__(type(v), [near(g, x) if n == k else x for n, x in enumerate(v)])
    if isinstance(v, list):
        return g.pick([v[:-1], v[1:], v + v[-1:], []])
    if isinstance(v, dict):
        return g.pick([dict(list(v.items())[1:]), {**v, "another": None}])
    return None


def plainly(v):
    """A value for a comparison that is not the library's own."""
    return tuple(v) if isinstance(v, tuple) else len(v) if isinstance(v, (list, dict)) else v


def places(root):
    """Every place of a result that holds a value: (text, kind, get, set)."""
    out, seen = [], set()
    stack = [("result", root)]
    while stack:
        at, o = stack.pop()
        if isinstance(o, alias.ATOMS) or id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, dict):
            items = [(f"{at}[{k!r}]", "dict", o, k, v) for k, v in o.items()]
        elif isinstance(o, list):
            items = [(f"{at}[{k}]", "list", o, k, v) for k, v in enumerate(o)]
        elif isinstance(o, tuple):
            stack.extend((f"{at}[{k}]", x) for k, x in enumerate(o))
            continue
        else:
            items = [(f"{at}.{k}", "attribute", o, k, v) for k, v in alias.fields(o).items() if not k.startswith("_")]
        out += items
        stack.extend((i[0], i[4]) for i in items)
    return out


def put(holder, kind, key, value):
    if kind == "attribute":
        object.__setattr__(holder, key, value)
    else:
        holder[key] = value


def equal(ctx, a, b, want, what):
    ctx.evaluated()
    o = guarded(lambda: (a == b, b == a, a != b, b != a))
    if not o.ok:
        ctx.fail(f"comparing {what} raised: {explain(o.exc)}")
    if o.value != (want, want, not want, not want):
        ctx.fail(f"{what}: (a == b, b == a, a != b, b != a) is {o.value}, not {(want, want, not want, not want)}")


def case(ctx, r, i):
    g = gen(r, i, 100)
    kind, fmt, fn, p, docs = anything.document(g, r, ctx.fresh("p"))
    parse = getattr(api(), fn)
    one, two = guarded(parse, p), guarded(parse, p)
    if not one.ok or not two.ok:
        ctx.fail(f"{fn} of a valid {fmt} document raised: {explain((one if not one.ok else two).exc)}")
    a, b = one.value, two.value
    equal(ctx, a, b, True, f"two parses of one {fmt} document ({kind})")
    ctx.count("pairs of parses compared")
    texts = guarded(lambda: (repr(a), repr(b), str(a), str(b)))
    if not texts.ok:
        ctx.fail(f"printing a result raised: {explain(texts.exc)}")
    if texts.value[0] != texts.value[1] or texts.value[2] != texts.value[3]:
        x, y = texts.value[:2]
        k = next((k for k, (c, d) in enumerate(zip(x, y)) if c != d), min(len(x), len(y)))
        ctx.fail(f"two parses print differently: ...{x[max(0, k - 60):k + 60]!r}... and ...{y[max(0, k - 60):k + 60]!r}...")
    proto = i % (pickle.HIGHEST_PROTOCOL + 1)
    shown = project.any_(a)
    for how, make in (("deep", lambda: copy.deepcopy(a)), ("pickled", lambda: pickle.loads(pickle.dumps(a, proto)))):
        o = guarded(make)
        ctx.evaluated()
        if not o.ok:
            ctx.fail(f"a {how} copy of the result of {fn} ({fmt} {kind}) raised: {explain(o.exc)}")
        equal(ctx, a, o.value, True, f"a result and its {how} copy (protocol {proto})")
        d = project.diff(shown, project.any_(o.value))
        if d or type(o.value) is not type(a):
            ctx.fail(f"a {how} copy shows other content:\n" + project.show(d))
        both = alias.shared_between(alias.index(a), alias.index(o.value))
        if both:
            ctx.fail(f"a {how} copy shares mutable parts with the result: {both[:3]}")
        ctx.count(f"{how} copies compared")
    ctx.count(f"pickle protocol {proto}")
    spots = places(b)
    sorts = {}
    for s in spots:
        # places alike but for numbers and names of entries: cells are many, frames are few
        sorts.setdefault((type(s[2]).__name__, s[3] if s[1] == "attribute" else "", type(s[4]).__name__), []).append(s)
    sorts = list(sorts.values())
    for _ in range(min(len(spots), 8)):
        at, k, holder, key, value = g.pick(g.pick(sorts))
        other = near(g, value) if g.p(0.6) else None
        if other is None or plainly(other) == plainly(value):
            other = Other()
        else:
            ctx.count("changed to a neighbour")
            ctx.count("changed to a neighbour: tuple", isinstance(value, tuple))
        put(holder, k, key, other)
        equal(ctx, a, b, False, f"a {type(a).__name__} and one with {other!r:.80} for {value!r:.80} at {at}")
        put(holder, k, key, value)
        ctx.count("changed copies compared")
        ctx.count(f"kinds of change: {k}")
    equal(ctx, a, b, True, "two results, changed and changed back")
    ctx.distinct(docs)
    ctx.sample(f"{fn} of {str(docs)[:400]}; {len(spots)} places")
