"""C27: quality indicators have the values their definitions give."""
import random

from .. import core
from ..flow import K, NONE, Obj, T, TUP, TooComplex, is_raise, show
from ..polyflow import PolyFlow, as_poly, make
from .store import func

TECHNIQUE = "abstract interpretation with values as polynomials in unknown coordinates, compared with the defining formulas cell by cell"
NOTE = ("Up to four members and three front points in one to three dimensions, ties and coinciding points included. Arithmetic is exact: rounding is not judged. "
        "Where the code's formula has another shape than the definition's and the two agree at the representative of the cell, the cell is left open.")
EXPLANATION = ("Every indicator function is interpreted on a few solutions and front points whose coordinates are unknowns. Comparisons are decided by the cell of the coordinate space under study, "
               "square roots stay symbolic; the formula that results must be the one the indicator's definition gives in that cell, for all coordinates of the cell at once.")
MOD = "metrics.metrics"


# ---------------------------------------------------------------- definitions
def squared(g, a, b):
    return g.total([g.times(d, d) for d in (g.add(x, y, -1) for x, y in zip(a, b))])


def distance(g, of, to):
    return g.sqrt(g.divide(g.total([g.smallest([squared(g, a, b) for b in to]) for a in of]), {(): len(of)}))


def gd(g, all_, nd, front):
    return distance(g, nd, front)


def igd(g, all_, nd, front):
    return distance(g, front, all_)


def ahd(g, all_, nd, front):
    return g.largest([gd(g, all_, nd, front), igd(g, all_, nd, front)])


def epsilon(g, all_, nd, front):
    return g.largest([g.smallest([g.largest([g.add(q, p, -1) for p, q in zip(a, b)]) for b in front]) for a in nd])


def extent(g, all_, nd, front):
    return g.sqrt(g.total([g.add(g.largest(list(c)), g.smallest(list(c)), -1) for c in zip(*all_)]))


def spacing(g, all_, nd, front):
    if len(nd) < 2:
        return {}
    near = [g.smallest([g.total([g.absolute(g.add(x, y, -1)) for x, y in zip(a, b)]) for j, b in enumerate(nd) if j != i]) for i, a in enumerate(nd)]
    mean = g.divide(g.total(near), {(): len(near)})
    return g.sqrt(g.divide(g.total([g.times(d, d) for d in (g.add(x, mean, -1) for x in near)]), {(): len(nd) - 1}))


def ratio(g, all_, nd, front):
    return g.divide({(): len(nd)}, {(): len(all_)})


def hypervolume(g, all_, nd, front):
    """only ever asked for one point, and for two that do not dominate each other"""
    def box(p):
        out = {(): 1}
        for x in p:
            out = g.times(out, g.add({(): 50}, x, -1))
        return out
    if len(nd) == 1:
        return box(nd[0])
    a, b = nd
    return g.add(g.add(box(a), box(b)), box([g.largest([x, y]) for x, y in zip(a, b)]), -1)


def share(g, all_, nd, union):
    return g.divide({(): sum(1 for u in union if any(not [1 for x, y in zip(u, p) if g.add(x, y, -1)] for p in nd))}, {(): len(union)})


INDICATORS = {
    "generational_distance": (gd, "the root of the mean squared distance from a non-dominated member to the nearest front point"),
    "inverse_generational_distance": (igd, "the root of the mean squared distance from a front point to the nearest member"),
    "average_hausdorff_distance": (ahd, "the larger of the two distances"),
    "epsilon": (epsilon, "the largest over the non-dominated members of the least, over the front, largest shortfall"),
    "extent": (extent, "the root of the summed ranges of the members' objectives"),
    "spacing": (spacing, "the deviation of the non-dominated members' distances to their nearest neighbours"),
    "non_domination_ratio": (ratio, "the share of non-dominated members"),
    "hypervolume": (hypervolume, "the measure dominated up to fifty in every objective"),
    "pareto_dominance_indicator": (share, "the share of the jointly non-dominated solutions that the result contributes"),
}


# ---------------------------------------------------------------- cells
def cells(name, deep):
    """(members, non-dominated members, front points, dimensions, seed)"""
    shapes = [(1, 1, 1, 1), (1, 1, 2, 2), (2, 1, 1, 2), (2, 2, 2, 2), (3, 2, 2, 2), (3, 3, 3, 2), (3, 2, 3, 3), (2, 2, 2, 3), (4, 3, 2, 2), (1, 1, 3, 3), (3, 3, 1, 1), (4, 4, 3, 3)]
    if name == "hypervolume":
        shapes = [(1, 1, 1, 1), (1, 1, 2, 2), (2, 1, 1, 2), (2, 2, 1, 2), (3, 2, 2, 3), (2, 2, 2, 3)]
    for s in shapes:
        for seed in range(60 if deep else 12):
            yield s + (seed,)


def points(g, kind, count, dims, rnd, like=()):
    """points with coordinates of their own, some of them shared with earlier points"""
    out = []
    for i in range(count):
        r = rnd.random()
        pool = list(like) + out
        if pool and r < 0.12:
            out.append(list(rnd.choice(pool)))
            continue
        p = []
        for k in range(dims):
            if pool and rnd.random() < 0.15:
                p.append(rnd.choice(pool)[k])
            else:
                p.append(g.atom("%s%d.%d" % (kind, i, k), rnd.uniform(-4.0, 9.0)))
        out.append(p)
    return out


def build(fl, name, shape):
    m, k, f, d, seed = shape
    rnd = random.Random("%s %s" % (name, shape))
    fl.cell()
    g = fl.alg
    front = points(g, "f", f, d, rnd)
    members = points(g, "s", m, d, rnd, front)
    picked = sorted(rnd.sample(range(m), k))
    if name == "hypervolume":
        # the first two exclude each other: one is better in the first objective, the other in the second
        members = [[g.atom("s%d.%d" % (i, c), rnd.uniform(-4.0, 9.0)) for c in range(d)] for i in range(m)]
        if k == 2:
            a, b = (members[i] for i in picked)
            if g.value(a[0]) > g.value(b[0]):
                a[0], b[0] = b[0], a[0]
            if g.value(a[1]) < g.value(b[1]):
                a[1], b[1] = b[1], a[1]
    return members, [members[i] for i in picked], front


def run(repo, res, tier):
    for n, (_, text) in INDICATORS.items():
        res.rule(n, "it is " + text)
    count = 0
    for name, (define, text) in INDICATORS.items():
        try:
            m, fn = func(repo, MOD, name)
        except core.AnalysisBroken as e:
            res.unknown(name, name, str(e))
            continue
        where = "%s:%d" % (m.rel, fn.lineno)
        fl = PolyFlow(repo)
        bad, unknown, good = None, None, 0
        for shape in cells(name, tier == "thorough"):
            try:
                r = one(fl, m, fn, name, define, shape)
            except (TooComplex, RecursionError, KeyError, IndexError, ValueError, TypeError, AttributeError) as e:
                unknown = unknown or "%s: %s" % (type(e).__name__, e)
                continue
            if r is None:
                good += 1
            elif r[0] == "bad":
                bad = bad or r[1]
            else:
                unknown = unknown or r[1]
        res.functions |= fl.functions
        count += good + bool(bad)
        if bad:
            res.bad(name, "%s.%s" % (MOD, name), where, "it is not %s: %s" % (text, bad))
            continue
        if good:
            res.ok(name, "%d cells" % good)
        if unknown:
            res.unknown(name, name, unknown)
    res.extra["cells"] = count
    res.floor("cells compared", count, 500)


def one(fl, m, fn, name, define, shape):
    members, nd, front = build(fl, name, shape)
    g = fl.alg
    st = fl.start()
    vec = lambda p: st.new(Obj("list", items=tuple(make(x) for x in p)))
    made = {}

    def same(p):
        return made.setdefault(id(p), vec(p))
    rows = lambda ps: st.new(Obj("list", items=tuple(same(p) for p in ps)))
    a, b = rows(members), rows(nd)
    if name == "pareto_dominance_indicator":
        union = []
        for p in nd[:max(1, len(nd) - shape[4] % 2)] + front:
            if not any(all(not g.add(x, y, -1) for x, y in zip(p, q)) for q in union):
                union.append(p)
        third = st.new(Obj("set", items=tuple(TUP(tuple(make(x) for x in p)) for p in union)))
        want = define(g, members, nd, union)
    else:
        third = rows(front)
        want = define(g, members, nd, front)
    for s, v in fl.run(m, fn, [a, b, third], st=st):
        if is_raise(v):
            return "bad", "%s raises %s" % (describe(g, members, nd, front), show(v)[:80])
        got = as_poly(v)
        if got is None:
            raise TooComplex("the value is not understood: %s" % show(v)[:60])
        diff = g.add(got, want, -1)
        if max((abs(c) for c in diff.values()), default=0) < 1e-9:
            continue
        x, y = g.value(got), g.value(want)
        if abs(x - y) > 1e-6 * (1 + abs(y)):
            return "bad", "%s gives %.6g instead of %.6g" % (describe(g, members, nd, front), x, y)
        return "open", "a cell where the two formulas agree at one point only, or in another shape"
    return None


def describe(g, members, nd, front):
    pt = lambda p: "(%s)" % ", ".join("%.3g" % g.value(x) for x in p)
    return "members %s, non-dominated %s, front %s" % (" ".join(map(pt, members)), " ".join(map(pt, nd)), " ".join(map(pt, front)))
