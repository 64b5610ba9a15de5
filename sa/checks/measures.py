"""Whom a truncation keeps, by the measure of each algorithm; compared with whom the interpreted histories keep."""
import collections
import math
import random

from . import algos
from .algos import attr, dominates, fmt, objvec, values

DIGITS = 9                 # measures this close count as equal, and equals may be kept in any order


def near(x):
    return x if x in (math.inf, -math.inf) or x == 0 else float("%.*e" % (DIGITS, x))


def distance(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))


def ranks(objs):
    """the layers of mutually non-dominated members, as lists of positions"""
    left, out = list(range(len(objs))), []
    while left:
        layer = [i for i in left if not any(dominates(objs[j], objs[i]) for j in left)]
        out.append(layer)
        left = [i for i in left if i not in layer]
    return out


# ---------------------------------------------------------------- one definition per algorithm: positions kept
def spea2(objs, size, plan):
    n = len(objs)
    strength = [sum(dominates(a, b) for b in objs) for a in objs]
    k = int(math.sqrt(n))
    fitness = []
    for i, a in enumerate(objs):
        raw = sum(strength[j] for j in range(n) if dominates(objs[j], a))
        fitness.append(raw + 1.0 / (sorted(distance(a, b) for b in objs)[k] + 2.0))
    order = sorted(range(n), key=lambda i: near(fitness[i]))
    kept = [i for i in order if fitness[i] <= 1]
    if len(kept) <= size:
        return order[:size]
    while len(kept) > size:
        gaps = {i: [near(x) for x in sorted(distance(objs[i], objs[j]) for j in kept)] for i in kept}
        kept.remove(min(kept, key=lambda i: gaps[i]))
    return kept


def ibea(objs, size, plan):
    n, kappa = len(objs), 1.0
    scaled = list(zip(*[[(x - min(c)) / (max(c) - min(c)) if max(c) > min(c) else 0.0 for x in c] for c in zip(*objs)]))
    worse = [[max(x - y for x, y in zip(a, b)) for b in scaled] for a in scaled]
    c = max(abs(x) for row in worse for x in row)
    if not c:
        return None
    kept = list(range(n))
    while len(kept) > size:
        fitness = {i: -sum(math.exp(-worse[j][i] / (c * kappa)) for j in kept if j != i) for i in kept}
        kept.remove(min(reversed(kept), key=lambda i: near(fitness[i])))
    return kept


def crowding(objs, layer):
    far = dict.fromkeys(layer, 0.0)
    if len(layer) > 1:
        for c in range(len(objs[0])):
            order = sorted(layer, key=lambda i: objs[i][c])
            lo, hi = objs[order[0]][c], objs[order[-1]][c]
            span = hi - lo + 2.0 ** -52
            far[order[0]] = math.inf
            far[order[-1]] += 2 * (hi - objs[order[-2]][c]) / span
            for k in range(1, len(order) - 1):
                far[order[k]] += (objs[order[k + 1]][c] - objs[order[k - 1]][c]) / span
    return far


def nsga2(objs, size, plan):
    kept = []
    for layer in ranks(objs):
        if len(kept) + len(layer) <= size:
            kept += layer
            continue
        far = crowding(objs, layer)
        kept += sorted(layer, key=lambda i: -near(far[i]))[:size - len(kept)]
        break
    return kept


def volume(points, ref):
    """of the union of the boxes between the points and ref"""
    points = [p for p in points if all(x <= r for x, r in zip(p, ref))]
    if not points:
        return 0.0
    if len(ref) == 1:
        return ref[0] - min(p[0] for p in points)
    cuts = sorted({p[-1] for p in points}) + [ref[-1]]
    return sum((b - a) * volume([p[:-1] for p in points if p[-1] <= a], ref[:-1]) for a, b in zip(cuts, cuts[1:]))


def smsemoa(objs, size, plan):
    ref = [30.0] * len(objs[0])
    worst = ranks(objs)[-1]
    total = volume([objs[i] for i in worst], ref)
    share = {i: total - volume([objs[j] for j in worst if j != i], ref) for i in worst}
    least = min(worst, key=lambda i: round(share[i], 7))
    return [i for i in range(len(objs)) if i != least]


DEFINITIONS = {"SPEA2": spea2, "IBEA": ibea, "NSGAII": nsga2, "JGBL": nsga2, "SMSEMOA": smsemoa}


# ---------------------------------------------------------------- histories
def judge(fl, h, tally):
    """the kept ones are those the definition keeps, wherever no two of them are level"""
    plan = h.plan
    if h.error is not None or h.hang is not None:
        return None
    for m, pool, after, how in truncations(fl, h):
        if plan.algo == "NSGAIII":
            bad = directions(fl, h, m, tally)
        elif plan.algo == "NSLS":
            bad = layers(fl, plan, m, tally)
        else:
            bad = measured(fl, plan, m, pool, after, how, tally)
        if bad:
            return bad
    return None


def truncations(fl, h):
    """(mark, those that compete, survivors, how survivors are told)"""
    plan, prev, archive, before = h.plan, None, [], None
    for i, m in enumerate(h.marks):
        if prev is not None:
            if plan.algo == "SPEA2":
                if m.final is not None:
                    if archive is not None and h.marks[i - 1].label.startswith("step") and i >= 2:
                        yield m, archive + before, m.final, "values"
                    archive = m.final
                else:
                    archive, before = (archive if h.marks[i - 1].final is not None or i == 1 else None), prev
            elif plan.algo in ("NSGAII", "JGBL", "IBEA") and m.final is not None:
                yield m, prev, m.final, "values"
            elif plan.algo == "SMSEMOA" and m.final is None:
                new = [(e[2], e[3]) for e in h.period(i) if e[0] == "eval" and e[1] == 0]
                if len(new) == 1:
                    yield m, prev + new, m.pop, "values"
            elif plan.algo in ("NSGAII", "IBEA", "NSLS") and m.final is None:
                yield m, prev, m.pop, "identity"
            elif plan.algo == "NSGAIII" and m.final is None:
                yield m, prev, m.pop, "values"
        prev = m.pop


def orders(n, key):
    rnd = random.Random("%s" % (key,))
    out = [list(range(n)), list(range(n))[::-1]]
    for _ in range(6):
        p = list(range(n))
        rnd.shuffle(p)
        out.append(p)
    return out


def measured(fl, plan, m, pool, after, how, tally):
    names = [values(fl, x) for _, x in pool]
    objs = [objvec(fl, x, plan.nobj) for _, x in pool]
    if how == "identity":
        now = {o for o, _ in after}
        got = collections.Counter(n for (o, _), n in zip(pool, names) if o in now)
        size = plan.n
    else:
        got = collections.Counter(values(fl, x) for _, x in after)
        size = len(after) if plan.algo == "SMSEMOA" else plan.n
    if len(pool) <= size:
        return None
    wanted = set()
    for p in orders(len(pool), plan):
        kept = DEFINITIONS[plan.algo]([objs[i] for i in p], size, plan)
        if kept is None:
            return None
        wanted.add(tuple(sorted(names[p[i]] for i in kept)))
        if len(wanted) > 1:
            tally["level"] = tally.get("level", 0) + 1
            return None
    want = collections.Counter(next(iter(wanted)))
    tally["truncations"] = tally.get("truncations", 0) + 1
    if got != want:
        lost, extra = list((want - got).elements()), list((got - want).elements())
        show = lambda vs: ", ".join(fmt(objs[names.index(v)]) if v in names else "a stranger" for v in vs[:2]) or "nobody"
        return "measure", plan.algo, "%s: of %d competing for %d places the individual with objectives %s is dropped and %s kept" % (m.label, len(pool), size, show(lost), show(extra))
    return None


def numbers(fl, s, v):
    return [fl.number(x)[0] for x in fl.exact(s, v)]


def competing(fl, m, tally):
    """those sorted into fronts in this step, with their vectors"""
    s, pool = m.st, []
    try:
        fronts = s.heap[attr(fl, s, m.driver, "front")[1][1]]
        for _, f in fronts.items:
            for x in fl.exact(s, f):
                v = attr(fl, s, x, "v")[1]
                pool.append((v[1], fl.exact(s, v)))
                fl.number(pool[-1][1][0])[0]
    except (KeyError, TypeError, AttributeError, IndexError, algos.Raised):
        pool = None
    if not pool or {o for o, _ in m.pop} - {o for o, _ in pool}:
        tally["unseen"] = tally.get("unseen", 0) + 1
        return None
    return pool


def ranked(plan, m, pool, rank, tally, place):
    """nobody of a later rank is kept while one of an earlier rank is dropped"""
    now = {o for o, _ in m.pop}
    kept = [r for r, (o, _) in zip(rank, pool) if o in now]
    lost = [r for r, (o, _) in zip(rank, pool) if o not in now]
    if kept and lost:
        tally["truncations"] = tally.get("truncations", 0) + 1
        if min(lost) < max(kept):
            return "measure", plan.algo, "%s: an individual that is number %d %s is dropped and one that is number %d kept" % (m.label, min(lost) + 1, place, max(kept) + 1)
    return None


def layers(fl, plan, m, tally):
    """whole layers first; the rest comes from the next one"""
    pool = competing(fl, m, tally)
    if pool is None:
        return None
    rank = [0] * len(pool)
    for r, layer in enumerate(ranks([objvec(fl, x, plan.nobj) for _, x in pool])):
        for i in layer:
            rank[i] = r
    return ranked(plan, m, pool, rank, tally, "in the layers")


def directions(fl, h, m, tally):
    """NSGA-III: those of the first ranks along their direction"""
    plan, s = h.plan, m.st
    pool = competing(fl, m, tally)
    if pool is None:
        return None
    try:
        refs = [numbers(fl, s, p) for p in fl.exact(s, attr(fl, s, m.driver, "reference_points")[1])]
        theta = fl.number(attr(fl, s, m.driver, "theta")[1])[0]
    except (KeyError, TypeError, AttributeError, algos.Raised):
        tally["unseen"] = tally.get("unseen", 0) + 1
        return None
    objs = [objvec(fl, v, plan.nobj) for _, v in pool]
    every = [objvec(fl, e[3], plan.nobj) for e in s.trace if e[0] == "eval" and e[1] == 0] + objs
    ideal = [min(c) for c in zip(*every)]
    worst = [max(c) for c in zip(*objs)]
    place, score = [], []
    for o in objs:
        z = [(x - a) / (b - a + 2.0 ** -52) for x, a, b in zip(o, ideal, worst)]
        ways = []
        for r in refs:
            size = math.sqrt(sum(x * x for x in r))
            along = sum(x * y for x, y in zip(z, r)) / size
            off = math.sqrt(sum((x - along / size * y) ** 2 for x, y in zip(z, r)))
            ways.append((off, along))
        off = sorted(w[0] for w in ways)
        if len(off) > 1 and off[1] - off[0] < 1e-7:
            tally["level"] = tally.get("level", 0) + 1
            return None
        at = min(range(len(refs)), key=lambda i: ways[i][0])
        place.append(at)
        score.append(ways[at][1] + theta * ways[at][0])
    if any(place[i] == place[j] and 0 < abs(score[i] - score[j]) < 1e-7 for i in range(len(objs)) for j in range(i)):
        tally["level"] = tally.get("level", 0) + 1
        return None
    rank = [sum(1 for t in {score[j] for j in range(len(objs)) if place[j] == place[i]} if t < score[i]) for i in range(len(objs))]
    return ranked(plan, m, pool, rank, tally, "along its direction")
