"""C09: map-level attributes are the document's, with documented defaults."""
from ..common import check_own, gen, parse_and_diff, place, spellings, styles

CASES = {"quick": 14400, "thorough": 120000}
RULE = ("A case is one map in one format with a random subset of the optional map attributes, every "
        "orientation and render order, random values.  The oracle is the stored value or documented "
        "default of each attribute, and the path the caller gave (spelled in several ways).  Cases are distinct if their documents "
        "are.")
REQUIRED = {"maps compared": 1000, "maps with one parallax origin only": 100,
            "optional attributes stored": 2000,
            "maps given by a relative path": 500}
OPT = ("class", "backgroundcolor", "hexsidelength", "staggeraxis", "staggerindex", "parallaxoriginx",
       "parallaxoriginy")


def case(ctx, r, i):
    g = gen(r, i)
    fmt = g.pick(["tmx", "json"])
    inf = g.p(0.4)
    m = g.map(g.forest(inf, 0, 2, rich=g.p(0.3), objs=False), [], infinite=inf, rich=g.p(0.9))
    rel = place(g, m, fmt)
    how = []

    def spelling(root, p):
        how.append(g.pick(spellings(g, root, p)))
        return how[0]

    diffs, docs, _, got = parse_and_diff(ctx, m, fmt, rel, styles(r), spelling=spelling)
    check_own(ctx, diffs, ("map",), "map attributes")
    ctx.count("maps compared")
    ctx.count("maps with one parallax origin only", ("parallaxoriginx" in m) != ("parallaxoriginy" in m))
    ctx.count("optional attributes stored", sum(k in m for k in OPT))
    ctx.count("optional attributes left to their default", sum(k not in m for k in OPT))
    ctx.count("maps given by a relative path", not how[0][1].startswith("/"))
    ctx.distinct(docs)
    ctx.sample(docs[rel])
