"""C39: variation operators move individuals by their published formulas."""
import itertools
import random

from .. import core
from ..flow import INF, K, NONE, Obj, RAISE, T, TUP, TooComplex, is_raise, is_t, show
from ..polyflow import PolyFlow, as_poly, make
from .store import func

TECHNIQUE = "abstract interpretation with values as polynomials in unknown coordinates and unknown random draws, compared with the published formulas cell by cell"
NOTE = ("Vectors of two or three coordinates, distribution indices 1, 2 and 4, probabilities 0.3 and 0.7; swarms of three to six particles with a single leader; local search over three or four individuals with two objectives. Which draw decides what is not prescribed: a result is accepted when some assignment of the draws made to the parts they can play, the same for all cells, gives it. "
        "Arithmetic is exact. Where the code's formula has another shape than the published one and the two agree at the representative of the cell, the cell is left open. That the generator's draws are uniform is taken from the library; the jumping genes of JGBL and the variation of BOGO have no published formula here and are not judged.")
EXPLANATION = ("Every operator is interpreted on vectors whose coordinates are unknowns, with every random draw an unknown of its own; comparisons are decided by the cell of the space of coordinates and draws under study, draws in low, middle and high bands included. "
               "Each resulting coordinate must be unchanged or the value of the operator's formula in one of the draws, as the draws compared with the probabilities say.")
RULES = {
    "mutation": "polynomial mutation: a coordinate is left with probability 1 - rate, else moved by the polynomial distribution over its bounds",
    "crossover": "simulated binary crossover: the parents with probability 1 - rate; else every coordinate is crossed with probability one half, by the spread of either bound, the children swapping it with probability one half",
    "NSGA-III mutation": "as mutation, in place",
    "NSGA-III crossover": "as crossover, with both children returned",
    "flight": "a particle's speed is inertia plus the attractions of its own best and of the leader; it moves by it, back from the bounds; the first third mutates uniformly, the second third non-uniformly",
    "local search": "per individual and coordinate a scaled difference of two members is added and subtracted, and what dominates or at least is not dominated replaces the individual",
    "initial": "initial coordinates are uniform over their bounds",
    "sprouts": "a sprouted population holds its seed and mutants of it",
    "weighted": "a weighted choice takes every item in proportion to its weight",
}
FAIL = (TooComplex, RecursionError, KeyError, IndexError, ValueError, TypeError, AttributeError, OverflowError, ZeroDivisionError)
BANDS = ((0.03, 0.28), (0.32, 0.48), (0.52, 0.68), (0.72, 0.97), (0.02, 0.98), (0.02, 0.98), (0.02, 0.98))


class Odd(Exception):
    """the code is not of a kind this check understands"""


class Draws(PolyFlow):
    """every draw is an unknown number between zero and one"""

    def begin(self, seed, band):
        self.cell()
        self.alg.loose = False
        self.rnd, self.band = random.Random("draws %s" % (seed,)), band
        self.pick = random.Random("picks %s" % (seed,))
        self.made, self.gauss, self.samples, self.choices = [], [], [], 0
        self.script = None

    def unit(self):
        v = self.script.pop(0) if self.script else self.rnd.uniform(*self.band)
        d = self.alg.atom("d%02d" % len(self.made), v)
        self.made.append(d)
        return d

    def ext_call(self, st, name, args, kw, n):
        g = self.alg
        if name in ("random.random", "numpy.random.random", "numpy.random.rand", "numpy.random.random_sample") and not args and not kw:
            return [(st, make(self.unit()))]
        if name in ("random.uniform", "numpy.random.uniform") and len(args) == 2 and not kw:
            lo, hi = as_poly(args[0]), as_poly(args[1])
            if lo is not None and hi is not None:
                return [(st, make(g.add(lo, g.times(self.unit(), g.add(hi, lo, -1)))))]
        if name in ("random.gauss", "random.normalvariate", "numpy.random.normal") and len(args) == 2 and not kw:
            mu, sigma = as_poly(args[0]), as_poly(args[1])
            if mu is not None and sigma is not None:
                z = g.atom("z%02d" % len(self.gauss), self.rnd.uniform(-1.5, 1.5))
                self.gauss.append(z)
                return [(st, make(g.add(mu, g.times(z, sigma))))]
        if name == "random.sample" and len(args) == 2 and args[1][0] == "c":
            items = self.exact(st, args[0])
            if items is not None:
                if args[1][2] > len(items):
                    return [(st, RAISE("ValueError"))]
                at = self.positions(len(items), args[1][2])
                return [(st, st.new(Obj("list", items=tuple(items[i] for i in at))))]
        if name == "random.choice" and len(args) == 1:
            items = self.exact(st, args[0])
            if items:
                self.choices += 1
                return [(st, items[min(range(len(items)), key=lambda i: self.weight(self.content(st, items[i]), i))])]
        if name.startswith(("random.", "numpy.random.")):
            raise TooComplex("draws by %s" % name)
        return super().ext_call(st, name, args, kw, n)

    def positions(self, size, k):
        at = tuple(self.pick.sample(range(size), k))
        self.samples.append(at)
        return at

    def weight(self, content, i):
        if content is None:
            return random.Random("%s %d" % (self.choices, i)).random()
        return random.Random("%s %s" % (self.choices, ["%.6f" % x for x in content])).random(), i

    def content(self, st, v):
        """the numbers of a vector or of an individual's"""
        if v[0] == "o" and st.heap[v[1]].kind == "inst":
            for f in ("v", "value"):
                if f in st.heap[v[1]].fields:
                    return self.content(st, st.heap[v[1]].fields[f])
            return None
        items = self.exact(st, v) if v[0] in ("o", "tup") else None
        ps = None if items is None else [as_poly(x) for x in items]
        return None if ps is None or any(p is None for p in ps) else [self.alg.value(p) for p in ps]

    def call_hook(self, st, fv, args, kw, n):
        if is_t(fv, "coordinate"):
            items = self.exact(st, args[0])
            return [(st, items[fv[2]] if items is not None and fv[2] < len(items) else RAISE("IndexError"))]
        if is_t(fv, "level"):
            return [(st, K(1.0))]
        if is_t(fv, "same"):
            return [(st, args[0])]
        return super().call_hook(st, fv, args, kw, n)


# ---------------------------------------------------------------- published formulas
def clip(g, v, lo, hi):
    return g.smallest([{(): hi} if hi else {}, g.largest([{(): lo} if lo else {}, v])])


def lin(g, *terms):
    """sum of c * p"""
    return g.total([g.scale(p, c) if isinstance(p, dict) else g.const(c * p) for c, p in terms])


def polynomial(g, y, box, eta, u):
    lo, hi = box
    w = hi - lo
    if g.value(u) <= 0.5:
        rest = g.scale(g.add(g.const(hi), y, -1), 1.0 / w)
        val = g.add(g.scale(u, 2), g.times(lin(g, (1, 1), (-2, u)), g.power(rest, eta + 1)))
        delta = g.add(g.power(val, 1.0 / (eta + 1)), {(): 1}, -1)
    else:
        rest = g.scale(g.add(y, g.const(lo), -1), 1.0 / w)
        val = g.add(lin(g, (2, 1), (-2, u)), g.times(lin(g, (2, u), (-1, 1)), g.power(rest, eta + 1)))
        delta = g.add({(): 1}, g.power(val, 1.0 / (eta + 1)), -1)
    return clip(g, g.add(y, g.scale(delta, w)), lo, hi)


def spread(g, x, y, box, eta, u):
    """the two children's values"""
    lo, hi = box
    a, b = (x, y) if g.value(x) < g.value(y) else (y, x)
    gap = g.add(b, a, -1)
    out = []
    for room, sign in ((g.add(a, g.const(lo), -1), -1), (g.add(g.const(hi), b, -1), 1)):
        beta = g.add({(): 1}, g.scale(g.divide(room, gap), 2))
        alpha = g.add({(): 2}, g.power(beta, -(eta + 1)), -1)
        ua = g.times(u, alpha)
        inside = g.value(u) <= 1.0 / g.value(alpha)
        q = g.power(ua if inside else g.divide({(): 1}, g.add({(): 2}, ua, -1)), 1.0 / (eta + 1))
        out.append(clip(g, g.scale(g.add(g.add(a, b), g.times(q, gap), sign), 0.5), lo, hi))
    return out


def near(g, a, b):
    return abs(g.value(a) - g.value(b)) <= 1e-7 * (1 + abs(g.value(b)))


def equal(g, a, b):
    if g.close(a, b, 1e-9):
        return True
    for d in (g.add(a, b, -1), g.cleared(g.add(a, b, -1))):
        if max((abs(c) for c in d.values()), default=0) < 1e-9:
            return True
    return False


class Match:
    """compares values, remembering whether a comparison holds at the representative only"""

    def __init__(self, g):
        self.g, self.loose, self.cache = g, False, {}

    def __call__(self, a, b):
        if not near(self.g, a, b):
            return False
        if not equal(self.g, a, b):
            self.loose = True
        return True


def assign(parts, free, used=()):
    """parts: per part the alternatives, each a tuple of acceptable draws per role; some injective choice exists"""
    if not parts:
        return True
    for alternative in parts[0]:
        for pickd in itertools.product(*alternative):
            if len(set(pickd)) == len(pickd) and not set(pickd) & set(used) and assign(parts[1:], free, used + pickd):
                return True
    return False


# ---------------------------------------------------------------- polynomial mutation
def vector(g, rnd, boxes, tag="x"):
    return [g.atom("%s%d" % (tag, i), rnd.uniform(lo + 0.05 * (hi - lo), hi - 0.05 * (hi - lo))) for i, (lo, hi) in enumerate(boxes)]


def boxes_of(seed):
    return [(-2.0, 3.0), (0.0, 1.0), (1.0, 5.0)][:2 + seed % 2]


def tup_boxes(st, boxes):
    return st.new(Obj("list", items=tuple(TUP((K(lo), K(hi))) for lo, hi in boxes)))


def lst(st, ps):
    return st.new(Obj("list", items=tuple(make(p) if isinstance(p, dict) else p for p in ps)))


def polys(fl, st, v):
    items = fl.exact(st, v) if v[0] in ("o", "tup") else None
    out = None if items is None else [as_poly(x) for x in items]
    if out is None or any(p is None for p in out):
        raise TooComplex("the result is not understood")
    return out


def coins(g, draws, p, flipped):
    """draws that say yes with probability p, and those that say no"""
    yes = [i for i, d in enumerate(draws) if (g.value(d) >= 1 - p if flipped else g.value(d) <= p)]
    return yes, [i for i in range(len(draws)) if i not in yes]


def explain_mutation(fl, xs, ys, boxes, rate, eta):
    """-> set of polarities under which the result is one of polynomial mutation, and whether only at the representative"""
    g, m = fl.alg, Match(fl.alg)
    if len(xs) != len(ys):
        return set(), False
    out = set()
    values = [[polynomial(g, x, b, eta, u) for u in fl.made] for x, b in zip(xs, boxes)]
    for flipped in (False, True):
        yes, no = coins(g, fl.made, rate, flipped)
        parts = []
        for x, y, vs in zip(xs, ys, values):
            parts.append(([(no,)] if m(y, x) else []) + [(yes, [i])
                         for i, v in enumerate(vs) if m(y, v)])
        if assign(parts, None):
            out.add(flipped)
    return out, m.loose


def mutation_cells(seeds):
    for seed in seeds:
        yield seed, boxes_of(seed), (0.3, 0.7)[seed % 3 % 2], (1, 2, 4)[seed // 3 % 3], BANDS[seed % len(BANDS)]


def mutation(fl, m, fn, seeds):
    left = fl.left or {False, True}
    for seed, boxes, rate, eta, band in mutation_cells(seeds):
        fl.begin(("mutation", seed), band)
        xs = vector(fl.alg, random.Random("m %d" % seed), boxes)
        st = fl.start()
        given = lst(st, xs)
        for s, v in fl.run(m, fn, [given, tup_boxes(st, boxes), K(rate), K(float(eta))], st=st):
            left = verdict(fl, s, v, left, lambda: explain_mutation(fl, xs, polys(fl, s, v), boxes, rate, eta), xs)
            fl.left = left
            yield left
    return


def verdict(fl, s, v, left, explain, *inputs):
    """the polarities that remain; raises Wrong"""
    if is_raise(v):
        if v[1] in ("AttributeError", "TypeError", "NameError", "KeyError"):
            raise Odd(show(v)[:80])
        raise Wrong("%s raises %s" % (say(fl, *inputs), show(v)[:80]))
    pol, loose = explain()
    if not left & pol:
        raise Wrong("%s gives what no draw of the formula gives%s" % (say(fl, *inputs), outcome(fl, s, v)))
    if loose:
        raise Odd("the formula has another shape than the published one")
    return left & pol


class Wrong(Exception):
    pass


def say(fl, *vectors):
    g = fl.alg
    return "%s with draws (%s)" % (" and ".join("(%s)" % ", ".join("%.4g" % g.value(x) for x in v) for v in vectors), ", ".join("%.2f" % g.value(d) for d in fl.made))


def outcome(fl, s, v):
    try:
        return ": (%s)" % ", ".join("%.4g" % fl.alg.value(x) for x in polys(fl, s, v))
    except FAIL:
        return ""


# ---------------------------------------------------------------- crossover
def explain_crossover(fl, xs, ys, results, boxes, rate, eta):
    """results: one child, or both"""
    g, m = fl.alg, Match(fl.alg)
    if any(len(r) != len(xs) for r in results):
        return set(), False
    out = set()
    pairs = [[None if near(g, x, y) else spread(g, x, y, b, eta, u) for u in fl.made] for x, y, b in zip(xs, ys, boxes)]
    orders = [(xs, ys), (ys, xs)]
    rate_of = lambda flipped: coins(g, fl.made, rate, flipped)
    for f1, f2, f3 in itertools.product((False, True), repeat=3):
        go, stay = rate_of(f1)
        cross, keep = coins(g, fl.made, 0.5, f2)
        straight, swapped = coins(g, fl.made, 0.5, f3)
        for order in (orders if len(results) == 1 else orders[:1]):
            if all(m(r[i], p[i]) for r, p in zip(results, order) for i in range(len(xs))) and assign([[(stay,)]], None):
                out.add((f1, f2, f3))
                continue
            parts = [[(go,)]]
            for i in range(len(xs)):
                alts = []
                if all(m(r[i], p[i]) for r, p in zip(results, order)):
                    if near(g, xs[i], ys[i]):
                        alts.append(())
                    alts.append((keep,))
                for k, pair in enumerate(pairs[i]):
                    if pair is None:
                        continue
                    for turned, who in ((False, straight), (True, swapped)):
                        want = pair[::-1] if turned else pair
                        if order is not orders[0]:
                            want = want[::-1]
                        if all(m(r[i], w) for r, w in zip(results, want)):
                            alts.append((cross, [k], who))
                parts.append(alts)
            if assign(parts, None):
                out.add((f1, f2, f3))
    return out, m.loose


def crossover_cells(seeds):
    for seed in seeds:
        yield seed, boxes_of(seed // 7), (0.7, 0.3, 0.7)[seed % 3], (1, 2, 4)[seed // 3 % 3], BANDS[seed % len(BANDS)]


def parents(g, seed, boxes):
    rnd = random.Random("c %d" % seed)
    xs, ys = vector(g, rnd, boxes), vector(g, rnd, boxes, "y")
    if seed % 4 == 1:                   # close to opposite bounds: little room on either side
        xs = [g.atom("x%d" % i, lo + rnd.uniform(0.01, 0.08) * (hi - lo)) for i, (lo, hi) in enumerate(boxes)]
        ys = [g.atom("y%d" % i, hi - rnd.uniform(0.01, 0.08) * (hi - lo)) for i, (lo, hi) in enumerate(boxes)]
    if seed % 5 == 4:
        ys[0] = xs[0]
    return xs, ys


def crossover(fl, m, fn, seeds):
    left = fl.left or set(itertools.product((False, True), repeat=3))
    for seed, boxes, rate, eta, band in crossover_cells(seeds):
        fl.begin(("crossover", seed), band)
        fl.choices = seed
        xs, ys = parents(fl.alg, seed, boxes)
        st = fl.start()
        for s, v in fl.run(m, fn, [lst(st, xs), lst(st, ys), tup_boxes(st, boxes), K(rate), K(float(eta))], st=st):
            left = verdict(fl, s, v, left, lambda: explain_crossover(fl, xs, ys, [polys(fl, s, v)], boxes, rate, eta), xs, ys)
            fl.left = left
            yield left


# ---------------------------------------------------------------- NSGA-III's own
NSGA3 = "algorithms.NSGAIII.NSGAIII"


def person(fl, st, ps, objectives):
    (st, ind), = made(fl.call(st, ("cls", NSGA3 + ".Individual"), [lst(st, ps)], {}, None))
    st.heap[ind[1]].fields["objectives"] = lst(st, objectives)
    return st, ind


def made(r):
    if len(r) != 1 or is_raise(r[0][1]):
        raise Odd("an object cannot be built")
    return r


def gene(fl, s, ind):
    (s2, v), = made(fl.getattr(s, ind, "v", None))
    return polys(fl, s2, v)


def nsga3_mutation(fl, m, fn, seeds):
    left = fl.left or {False, True}
    for seed, boxes, rate, eta, band in mutation_cells(seeds):
        fl.begin(("mutation", seed), band)
        xs = vector(fl.alg, random.Random("m %d" % seed), boxes)
        st, ind = person(fl, fl.start(), xs, [K(1.0), K(2.0)])
        for s, v in fl.run(m, fn, [ind, tup_boxes(st, boxes), K(rate), K(float(eta))], st=st):
            got = v if is_raise(v) else v if v[0] == "o" else ind
            left = verdict(fl, s, v, left, lambda: explain_mutation(fl, xs, gene(fl, s, got), boxes, rate, eta), xs)
            fl.left = left
            yield left


def nsga3_crossover(fl, m, fn, seeds):
    left = fl.left or set(itertools.product((False, True), repeat=3))
    for seed, boxes, rate, eta, band in crossover_cells(seeds):
        fl.begin(("crossover", seed), band)
        xs, ys = parents(fl.alg, seed, boxes)
        st, a = person(fl, fl.start(), xs, [K(1.0), K(2.0)])
        st, b = person(fl, st, ys, [K(2.0), K(1.0)])
        for s, v in fl.run(m, fn, [a, b, tup_boxes(st, boxes), K(rate), K(float(eta))], st=st):
            def both():
                two = fl.exact(s, v) if v[0] in ("o", "tup") else None
                if two is None or len(two) != 2:
                    raise TooComplex("the children are not understood")
                return explain_crossover(fl, xs, ys, [gene(fl, s, c) for c in two], boxes, rate, eta)
            left = verdict(fl, s, v, left, both, xs, ys)
            fl.left = left
            yield left


# ---------------------------------------------------------------- particle swarm
SWARM = "algorithms.OMOPSO.OMOPSO"


def field(fl, s, o, name):
    (s, v), = made(fl.getattr(s, o, name, None))
    return v


def flight_setting(seed):
    n = (3, 4, 6, 3)[seed % 4]
    prob, pert = (0.3, 0.7)[seed // 2 % 2], (0.5, 1.0, 2.0)[seed % 3]
    progress = (0.36, None, 0.75)[seed // 4 % 3]
    return n, prob, pert, progress


def flight(fl, m, cls, seeds):
    for seed in seeds:
        n, prob, pert, progress = flight_setting(seed)
        fl.begin(("flight", seed), BANDS[seed % len(BANDS)])
        g, rnd = fl.alg, random.Random("f %d" % seed)
        boxes = boxes_of(seed)[:2]
        xs = [vector(g, rnd, boxes, "x%d." % i) for i in range(n)]
        best = [vector(g, rnd, boxes, "b%d." % i) for i in range(n)]
        lead = vector(g, rnd, boxes, "l")
        speed = [[g.atom("s%d.%d" % (i, k), rnd.uniform(-1, 1) * (hi - lo)) for k, (lo, hi) in enumerate(boxes)] for i in range(n)]
        st = fl.start()
        kw = {"population": st.new(Obj("list", items=tuple(lst(st, x) for x in xs))), "fitnesses": st.new(Obj("list", items=(T("level", 0), T("level", 1)))), "dims": tup_boxes(st, boxes),
              "mutation_eta": K(20.0), "mutation_rate": K(0.5), "crossover_eta": K(20.0), "crossover_rate": K(0.5), "mutation_probability": K(prob), "mutation_perturbation": K(pert), "trim_function": T("same", 0)}
        (st, d), = made(fl.call(st, ("cls", SWARM + ".OMOPSO"), [], kw, None))
        fl.made = []
        inds = fl.exact(st, field(fl, st, d, "individuals"))
        leaders = fl.exact(st, field(fl, st, field(fl, st, d, "leader_archive"), "archive"))
        if inds is None or len(inds) != n or leaders is None or len(leaders) != 1:
            raise Odd("the swarm is not understood")
        for i, p in enumerate(inds):
            st.heap[p[1]].fields["speed"] = lst(st, speed[i])
            st.heap[field(fl, st, p, "best_val")[1]].fields["value"] = lst(st, best[i])
        st.heap[leaders[0][1]].fields["value"] = lst(st, lead)
        st.heap[d[1]].fields["cost"] = K(36)
        if progress:
            st.heap[d[1]].fields["max_budget"] = K(36 / progress)
        for s, meth in made(fl.getattr(st, d, "step", None)):
            for s2, v in fl.call(s, meth, [], {}, None):
                if is_raise(v):
                    if v[1] in ("AttributeError", "TypeError", "NameError", "KeyError"):
                        raise Odd(show(v)[:80])
                    raise Wrong("a step raises %s" % show(v)[:80])
                after = fl.exact(s2, field(fl, s2, d, "individuals"))
                if after is None or len(after) != n:
                    raise Odd("the swarm is not understood")
                loose = False
                for i, p in enumerate(after):
                    now, fast = polys(fl, s2, field(fl, s2, p, "value")), polys(fl, s2, field(fl, s2, p, "speed"))
                    loose |= particle(fl, xs[i], speed[i], best[i], lead, now, fast, boxes, 0 if i < n // 3 else 1 if i < 2 * (n // 3) and progress else 2, prob, pert, progress, i)
                if loose:
                    raise Odd("the formula has another shape than the published one")
                yield None


def particle(fl, x, speed, best, lead, now, fast, boxes, part, prob, pert, progress, i):
    g, m = fl.alg, Match(fl.alg)
    draws = fl.made
    who = "particle %d" % (i + 1)
    if len(now) != len(x) or len(fast) != len(x):
        raise Odd("the particle is not understood")
    # the speed it moved with: five draws, the same ones for every coordinate
    gap1 = [g.add(b, a, -1) for a, b in zip(x, best)]
    gap2 = [g.add(b, a, -1) for a, b in zip(x, lead)]
    inertia = [lin(g, (0.1, 1), (0.4, d)) for d in draws]
    pull = [lin(g, (1.5, 1), (0.5, d)) for d in draws]
    vw, vc = [g.value(p) for p in inertia], [g.value(p) for p in pull]
    vd = [g.value(d) for d in draws]
    va = [g.value(f) for f in fast]
    vs, v1, v2 = [g.value(s) for s in speed], [g.value(p) for p in gap1], [g.value(p) for p in gap2]
    k = len(draws)
    found = None
    for signs in itertools.product((1, -1), repeat=len(x)):
        need = {}
        for w in range(k):
            for c1 in range(k):
                if c1 == w:
                    continue
                for r1 in range(k):
                    if r1 in (w, c1):
                        continue
                    rest = [s * f - vw[w] * a - vc[c1] * vd[r1] * b for s, f, a, b in zip(signs, va, vs, v1)]
                    if abs(v2[0]) < 1e-9:
                        continue
                    q = rest[0] / v2[0]
                    if all(abs(r - q * b) < 1e-7 for r, b in zip(rest, v2)):
                        for c2 in range(k):
                            for r2 in range(k):
                                if len({w, c1, r1, c2, r2}) == 5 and abs(vc[c2] * vd[r2] - q) < 1e-7:
                                    found = found or (signs, w, c1, r1, c2, r2)
        if found:
            break
    if not found:
        raise Wrong("%s flies with a speed that is not inertia in [0.1, 0.5] and pulls in [1.5, 2] of its best and the leader" % who)
    signs, w, c1, r1, c2, r2 = found
    free = [j for j in range(k) if j not in (w, c1, r1, c2, r2)]
    parts, opposite = [], []
    for j, (lo, hi) in enumerate(boxes):
        v = g.add(g.times(inertia[w], speed[j]), g.add(g.times(g.times(pull[c1], draws[r1]), gap1[j]), g.times(g.times(pull[c2], draws[r2]), gap2[j])))
        new = g.add(x[j], v)
        moved = clip(g, new, lo, hi)
        turned = abs(g.value(moved) - g.value(new)) > 1e-9
        if turned != (signs[j] < 0):
            raise Wrong("%s %s at coordinate %d" % (who, "keeps its speed at the bound" if turned else "turns round inside the bounds", j + 1))
        if not m(fast[j], g.scale(v, signs[j])):
            raise Wrong("%s flies with another speed" % who)
        yes = [q for q in free if vd[q] < prob]
        no = [q for q in free if q not in yes]
        alts = []
        if m(now[j], moved):
            alts.append((no,) if part < 2 else ())
        if part == 0:
            for q in free:
                if m(now[j], clip(g, lin(g, (1, moved), (pert, draws[q]), (-0.5 * pert, 1)), lo, hi)):
                    alts.append((yes, [q]))
        if part == 1:
            for q in free:
                shrink = g.add({(): 1}, g.power(draws[q], (1 - progress) ** pert), -1)
                for side, bound in ((True, hi), (False, lo)):
                    if m(now[j], clip(g, g.add(moved, g.times(g.add(g.const(bound), moved, -1), shrink)), lo, hi)):
                        alts.append((yes, [q], [t for t in free if (vd[t] < 0.5) == side]))
                        alts.append((yes, [q], [t for t in free if (vd[t] > 0.5) == side]))
        parts.append(alts)
        if not alts:
            raise Wrong("%s, of the %s third, lands at %.4g from %.4g, which no draw of its mutation gives" % (who, ("first", "second", "last")[part], g.value(now[j]), g.value(moved)))
    if not assign(parts, None):
        raise Wrong("%s, of the %s third, is mutated with another probability" % (who, ("first", "second", "last")[part]))
    return m.loose


# ---------------------------------------------------------------- local search
LOCAL = "algorithms.NSLS.NSLS"


def local_search(fl, m, cls, seeds):
    for seed in seeds:
        fl.begin(("local", seed), BANDS[4])
        g, rnd = fl.alg, random.Random("l %d" % seed)
        n = (3, 4)[seed % 2]
        boxes = boxes_of(seed // 2)
        xs = [vector(g, rnd, boxes, "x%d." % i) for i in range(n)]
        st = fl.start()
        kw = {"population": st.new(Obj("list", items=tuple(lst(st, x) for x in xs))), "fitnesses": st.new(Obj("list", items=(T("coordinate", 0), T("coordinate", 1)))), "dims": tup_boxes(st, boxes),
              "mutation_eta": K(20.0), "mutation_rate": K(0.5), "crossover_eta": K(20.0), "crossover_rate": K(0.5), "trim_function": T("same", 0), "local_search_mu": K(0.5), "local_search_sigma": K((0.5, 0.2)[seed % 2])}
        (st, d), = made(fl.call(st, ("cls", LOCAL + ".NSLS"), [], kw, None))
        (st, inds), = made(fl.getattr(st, d, "individuals", None))
        (st, calc), = made(fl.getattr(st, d, "calculate_objectives", None))
        (st, _), = made(fl.call(st, calc, [inds], {}, None))
        (st, search), = made(fl.getattr(st, d, "local_search", None))
        for s, v in fl.call(st, search, [], {}, None):
            if is_raise(v):
                if v[1] in ("AttributeError", "TypeError", "NameError", "KeyError"):
                    raise Odd(show(v)[:80])
                raise Wrong("the local search raises %s" % show(v)[:80])
            after = fl.exact(s, field(fl, s, d, "individuals"))
            if after is None:
                raise Odd("the individuals are not understood")
            got = [polys(fl, s, field(fl, s, p, "v")) for p in after]
            want = searched(fl, xs, boxes, (0.5, 0.2)[seed % 2], got)
            mt = Match(g)
            if want is None:
                raise Odd("other draws than the published ones")
            same = lambda a, b: len(a) == len(b) and all(mt(p, q) for p, q in zip(a, b))
            extra = next((b for b in got if not any(same(a, b) for a in want)), None)
            if extra or not all(any(same(a, b) for b in got) for a in want):
                raise Wrong("from %s the local search makes other individuals than the published one%s" % ("; ".join(say(fl, x).split(" with")[0] for x in xs), ", e.g. " + say(fl, extra).split(" with")[0] if extra else ""))
            if mt.loose:
                raise Odd("the formula has another shape than the published one")
            yield None


def searched(fl, xs, boxes, sigma, got):
    """the individuals a published local search leaves with these draws, as the result has it where chance decides; None when the draws are others"""
    g = fl.alg
    n, k = len(xs), len(boxes)
    if len(fl.gauss) != n * k or len(fl.samples) != n * k or any(len(p) != 2 for p in fl.samples):
        return None
    zs = [g.value(z) for z in fl.gauss]
    have = [[g.value(p) for p in x] for x in got]

    def better(a, b):
        return all(p <= q for p, q in zip(a[:2], b[:2])) and any(p < q for p, q in zip(a[:2], b[:2]))

    def walk(picks):
        """numerically, with the given picks where both are good -> (individuals, number of such places)"""
        cur = [[g.value(p) for p in x] for x in xs]
        places = 0
        for i in range(n):
            for j, (lo, hi) in enumerate(boxes):
                t = i * k + j
                u, v = fl.samples[t]
                diff = (0.5 + sigma * zs[t]) * (cur[u][j] - cur[v][j])
                x = cur[i]
                options = [x[:j] + [w if lo <= w <= hi else x[j]] + x[j + 1:] for w in (x[j] + diff, x[j] - diff)]
                good = [o for o in options if better(o, x)] or [o for o in options if not better(x, o)]
                if good:
                    at = 0
                    if len(good) == 2:
                        at = picks[places] if places < len(picks) else 0
                        places += 1
                    cur[i] = good[at]
        return cur, places

    alike = lambda a, b: all(abs(p - q) < 1e-7 * (1 + abs(q)) for p, q in zip(a, b))
    todo, found, forks = [()], None, 0
    while todo and found is None:
        picks = todo.pop()
        cur, places = walk(picks)
        forks = max(forks, places)
        if len(picks) < places:
            todo += [picks + (1,), picks + (0,)]
        elif all(any(alike(c, h) for h in have) for c in cur) and all(any(alike(h, c) for c in cur + [[g.value(p) for p in x] for x in xs]) for h in have):
            found = picks
    if found is None:
        raise Wrong("from %s the local search makes individuals that no choice between the published candidates gives, e.g. %s" % (
            "; ".join(say(fl, x).split(" with")[0] for x in xs), say(fl, got[-1]).split(" with")[0]))
    if forks and not fl.choices and not fl.made:
        raise Wrong("from %s the local search never leaves it to chance which of two equally good candidates stays" % "; ".join(say(fl, x).split(" with")[0] for x in xs))
    cur, left = [list(x) for x in xs], list(found)
    for i in range(n):
        for j, (lo, hi) in enumerate(boxes):
            t = i * k + j
            u, v = fl.samples[t]
            diff = g.times(lin(g, (0.5, 1), (sigma, fl.gauss[t])), g.add(cur[u][j], cur[v][j], -1))
            x = cur[i]
            options = []
            for sign in (1, -1):
                w = list(x)
                w[j] = g.add(x[j], diff, sign)
                if not lo <= g.value(w[j]) <= hi:
                    w[j] = x[j]
                options.append(w)
            beats = lambda a, b: better([g.value(p) for p in a], [g.value(p) for p in b])
            good = [w for w in options if beats(w, x)] or [w for w in options if not beats(x, w)]
            if good:
                cur[i] = good[left.pop(0) if len(good) == 2 else 0]
    fresh = []
    for c in [list(x) for x in xs] + cur:
        if not any(all(near(g, p, q) for p, q in zip(c, f)) for f in fresh):
            fresh.append(c)
    return fresh


# ---------------------------------------------------------------- the rest
def initial(fl, m, fn, seeds):
    for seed in seeds:
        fl.begin(("initial", seed), BANDS[4])
        g = fl.alg
        boxes = boxes_of(seed)
        st = fl.start()
        for s, v in fl.run(m, fn, [K(1 + seed % 3), tup_boxes(st, boxes)], st=st):
            rows = fl.exact(s, v) if not is_raise(v) and v[0] in ("o", "tup") else None
            if rows is None:
                raise Odd("the population is not understood")
            if len(rows) != 1 + seed % 3:
                raise Wrong("%d individuals are made instead of %d" % (len(rows), 1 + seed % 3))
            mt = Match(g)
            cellsl = []
            for r in rows:
                ps = polys(fl, s, r)
                if len(ps) != len(boxes):
                    raise Wrong("an individual has %d coordinates instead of %d" % (len(ps), len(boxes)))
                for p, (lo, hi) in zip(ps, boxes):
                    cellsl.append([([i],) for i, d in enumerate(fl.made) for sign in (0, 1)
                                   if mt(p, lin(g, (lo, 1), (hi - lo, d)) if not sign else lin(g, (hi, 1), (lo - hi, d)))])
            if not assign(cellsl, None):
                raise Wrong("a coordinate is not one draw spread over its bounds")
            if mt.loose:
                raise Odd("the formula has another shape")
            yield None


def sprouts(fl, m, fn, seeds):
    left = fl.left or {False, True}
    for seed in seeds:
        fl.begin(("sprouts", seed), BANDS[seed % len(BANDS)])
        boxes = boxes_of(seed)[:2]
        size, rate, eta = (1, 3, 2)[seed % 3], (0.3, 0.7)[seed % 2], (1, 2)[seed // 2 % 2]
        xs = vector(fl.alg, random.Random("s %d" % seed), boxes)
        st = fl.start()
        for s, v in fl.run(m, fn, [lst(st, xs), K(size), tup_boxes(st, boxes), K(rate), K(float(eta))], st=st):
            if is_raise(v):
                raise Odd(show(v)[:80])
            rows = fl.exact(s, v) if v[0] in ("o", "tup") else None
            if rows is None:
                raise Odd("the population is not understood")
            rows = [polys(fl, s, r) for r in rows]
            if len(rows) != size:
                raise Wrong("%d individuals are sprouted instead of %d" % (len(rows), size))
            mt = Match(fl.alg)
            for i, r in enumerate(rows):
                if all(mt(a, b) for a, b in zip(r, xs)):
                    rows.pop(i)
                    break
            else:
                raise Wrong("the seed is not in the sprouted population")
            flat = [p for r in rows for p in r]
            pol, loose = explain_mutation(fl, xs * len(rows), flat, boxes * len(rows), rate, eta)
            if not pol & left:
                raise Wrong("%s: an individual sprouted is no mutant of the seed" % say(fl, xs))
            fl.left = left = left & pol
            if loose:
                raise Odd("the formula has another shape")
            yield None


WEIGHTS = ((1.0, 2.0, 1.0), (3.0, 1.0), (0.5, 1.0, 1.5, 2.0), (1.0,), (0.0, 2.0, 2.0))


def weighted(fl, m, fn, seeds):
    for weights in [WEIGHTS[i] for i in seeds]:
        total = sum(weights)
        grid = int(total * 10)
        counts = dict.fromkeys(range(len(weights)), 0)
        for k in range(grid):
            fl.begin(("weighted", k), BANDS[4])
            fl.script = [(k + 0.5) / grid]
            st = fl.start()
            arg = st.new(Obj("list", items=tuple(TUP((K("item%d" % i), K(w))) for i, w in enumerate(weights))))
            r = fl.run(m, fn, [arg], st=st)
            if len(r) != 1 or len(fl.made) != 1:
                raise Odd("the draws are others")
            v = r[0][1]
            if is_raise(v):
                raise Wrong("weights %s: raises %s" % (weights, show(v)[:60]))
            if v[0] != "c" or not str(v[2]).startswith("item"):
                raise Odd("the choice is not understood")
            counts[int(v[2][4:])] += 1
        want = [w / total * grid for w in weights]
        if any(abs(counts[i] - w) > 1e-6 for i, w in enumerate(want)):
            raise Wrong("weights %s: items are taken in the proportions %s" % (weights, tuple(counts.values())))
        yield None


OPERATORS = {
    "mutation": ("algorithms.base.drivertools", "mutate", mutation, 42, 84),
    "crossover": ("algorithms.base.drivertools", "crossover", crossover, 70, 168),
    "NSGA-III mutation": (NSGA3, "polynomial_mutation", nsga3_mutation, 42, 84),
    "NSGA-III crossover": (NSGA3, "simulated_binary_crossover", nsga3_crossover, 70, 168),
    "flight": (SWARM, "OMOPSO", flight, 21, 84),
    "local search": (LOCAL, "NSLS", local_search, 24, 96),
    "initial": ("evotools.ea_utils", "gen_population", initial, 6, 12),
    "sprouts": ("algorithms.HGS.classic.ClassicHGS", "population_from_delegate", sprouts, 14, 42),
    "weighted": ("evotools.random_tools", "weighted_choice", weighted, len(WEIGHTS), len(WEIGHTS)),
}


def run(repo, res, tier):
    for n, text in RULES.items():
        res.rule(n, text)
    total = 0
    for rule, (mod, name, judge, few, many) in OPERATORS.items():
        try:
            if mod + "." + name in repo.classes:
                node = repo.classes[mod + "." + name].node
                m = repo.classes[mod + "." + name].module
            else:
                m, node = func(repo, mod, name)
        except core.AnalysisBroken as e:
            res.unknown(rule, name, str(e))
            continue
        fl = Draws(repo)
        fl.left = None
        count, wrong, odd = 0, None, None
        for seed in range(many if tier == "thorough" else few):
            try:
                for _ in judge(fl, m, node, [seed]):
                    count += 1
            except Wrong as e:
                wrong = str(e)
                break
            except Odd as e:
                odd = odd or str(e)
            except FAIL as e:
                odd = odd or "%s: %s" % (type(e).__name__, e)
        res.functions |= fl.functions
        total += count
        if wrong:
            res.bad(rule, "%s.%s" % (mod, name), "%s:%d" % (m.rel, node.lineno), wrong)
            continue
        if count:
            res.ok(rule, "%s.%s: %d cells" % (mod, name, count))
        if odd:
            res.unknown(rule, name, odd)
    res.extra["cells"] = total
    res.floor("cells", total, 200)
