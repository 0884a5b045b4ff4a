"""
P20: version comparison is a total order consistent with its numeric fields
"""
import os
from vlib import mon
from multibag.constants import Version

ID = "P20"
LEVEL = "exploration"
RULE = ("each execution takes a batch of random and boundary versions and checks the order laws on all pairs and "
        "triples of it, in all the ways of giving an operand; distinct by (relation, lengths, first differing "
        "field, kinds of operands)")
ASSUMPTIONS = ["fields that are not numbers count as equal to each other (-1), below every number"]
N = {"quick": 600, "thorough": 4000}
REQUIRED = ["pairs", "triples", "less", "equal", "greater", "numeric_not_textual", "prefix_pairs", "tuples",
            "nonnumeric"]

EDGE = ["0", "1", "0.1", "0.2", "0.3", "0.4", "0.10", "0.9", "0.09", "0.30", "0.3.0", "1.0", "1.0.0", "01.0",
        "10", "9", "0.4.1", "2018.01", "99999999999999999999.1", "", "a", "0.a", "0.", ".1", "0.4b", "-1", "0.-1",
        "00", "0.2.9", "0.29", "0.03"]


def fields(v):
    if isinstance(v, tuple):
        return list(v)
    out = []
    for x in v.split("."):
        try:
            out.append(int(x))
        except ValueError:
            out.append(-1)
    return out


def rnd(rng):
    r = rng.random()
    if r < 0.35:
        return rng.choice(EDGE)
    n = rng.choice([1, 2, 2, 2, 3, 4])
    f = [rng.choice([0, 0, 1, 2, 3, 4, 9, 10, 11, 100, rng.randrange(30)]) for i in range(n)]
    if r < 0.6:
        return tuple(f)
    return ".".join(str(x) if rng.random() < 0.9 else "0" + str(x) for x in f)


def case(ctx, i):
    rng = ctx.rng
    vs = [rnd(rng) for k in range(9)]
    vs.append(rng.choice(vs))
    # variations of one that is there
    b = rng.choice(vs)
    f = fields(b)
    vs.append(tuple(f + [0]))
    vs.append(tuple(f[:-1]) if len(f) > 1 else tuple(f))
    vs.append(".".join(str(x) for x in f[:-1] + [f[-1] + 1]))
    V = [Version(v) for v in vs]
    keys = [fields(v) for v in vs]
    rel = {}
    for a in range(len(vs)):
        ctx.equal(str(V[a]), vs[a] if isinstance(vs[a], str) else ".".join(str(x) for x in vs[a]),
                  "str() of version %r" % (vs[a],))
        if isinstance(vs[a], tuple):
            ctx.count("tuples")
        elif -1 in keys[a]:
            ctx.count("nonnumeric")
        for b in range(len(vs)):
            x, y = keys[a], keys[b]
            want = (x < y, x <= y, x == y, x != y, x >= y, x > y)
            for form in ("object", "given"):
                o = V[b] if form == "object" else vs[b]
                got = (V[a] < o, V[a] <= o, V[a] == o, V[a] != o, V[a] >= o, V[a] > o)
                ctx.equal(got, want, "(<, <=, ==, !=, >=, >) of %r and %r (%s)" % (vs[a], vs[b], form))
            o = vs[a]
            got = (o < V[b], o <= V[b], o == V[b], o != V[b], o >= V[b], o > V[b])
            ctx.equal(got, want, "(<, <=, ==, !=, >=, >) of %r, as it is, and %r" % (vs[a], vs[b]))
            rel[a, b] = got
            ctx.count("pairs")
            ctx.count("less" if got[0] else ("equal" if got[2] else "greater"))
            d = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), -1)
            if d < 0 and len(x) != len(y):
                ctx.count("prefix_pairs")
            if isinstance(vs[a], str) and isinstance(vs[b], str) and (vs[a] < vs[b]) != (x < y):
                ctx.count("numeric_not_textual")
            ctx.feature(want, len(x), len(y), d, type(vs[a]).__name__, type(vs[b]).__name__)
    n = len(vs)
    for a in range(n):
        for b in range(n):
            ctx.check(rel[a, b][1] or rel[b, a][1], "%r and %r are not comparable" % (vs[a], vs[b]))
            ctx.check(not (rel[a, b][1] and rel[b, a][1]) or rel[a, b][2],
                      "antisymmetry of %r and %r" % (vs[a], vs[b]))
            for c in range(n):
                ctx.count("triples")
                if rel[a, b][1] and rel[b, c][1]:
                    ctx.check(rel[a, c][1], "transitivity of %r, %r, %r" % (vs[a], vs[b], vs[c]))
    ctx.equal([V.index(v) for v in sorted(V)], [V.index(v) for v in
              [V[k] for k in sorted(range(n), key=lambda k: keys[k])]], "sorted() versions")
    if i < 3:
        ctx.sample({"versions": [repr(v) for v in vs]})
