"""C38: the benchmark problems have their published objectives and bounds."""
import ast
import math
import random

from .. import core
from ..flow import K, NONE, Obj, TooComplex, is_raise, show
from ..polyflow import PolyFlow, as_poly, make

TECHNIQUE = "abstract interpretation with values as polynomials in unknown coordinates, sines, cosines, exponentials and roots as further unknowns, compared with the published formulas"
NOTE = ("Unknown coordinates inside the bounds, and the first coordinates at their bounds; where a formula has cases (absolute values, maxima) a selection of the cases. Arithmetic is exact, and published constants rounded to five places are accepted. "
        "Where the code's formula has another shape than the published one and the two agree at the representative of the cell, the cell is left open. EWA1 and EWA2 have no published definition and UF11 and UF12 rest on data files: they are not judged, nor are the wrapper problems.")
EXPLANATION = ("Every objective of a benchmark problem is interpreted on a vector whose coordinates are unknowns; trigonometric functions, exponentials, roots and quotients of unknowns stay symbolic, with equal arguments recognised. "
               "The formula that results must be the published one, for all vectors at once, and the bounds of the variables must be the published ones.")

PI = math.pi


# ---------------------------------------------------------------- published formulas, over an algebra g and coordinates x
class Calc:
    """short-hand over an algebra"""

    def __init__(self, g):
        self.g = g

    def c(self, v):
        return {(): v} if v else {}

    def sum(self, *items):
        return self.g.total([self.lift(i) for i in items])

    def lift(self, v):
        return v if isinstance(v, dict) else self.c(v)

    def sub(self, a, b):
        return self.g.add(self.lift(a), self.lift(b), -1)

    def mul(self, *items):
        out = {(): 1}
        for i in items:
            out = self.g.times(out, self.lift(i))
        return out

    def div(self, a, b):
        return self.g.divide(self.lift(a), self.lift(b))

    def pow(self, a, k):
        return self.g.power(a, k)

    def sin(self, a):
        return self.g.applied("sin", self.lift(a))

    def cos(self, a):
        return self.g.applied("cos", self.lift(a))

    def exp(self, a):
        return self.g.applied("exp", self.lift(a))

    def abs(self, a):
        return self.g.absolute(a)

    def positive(self, a):
        return a if self.g.sign(a) > 0 else {}


def zdt(h, f1=None, spread=None):
    def make_them(k, x):
        n = len(x)
        first = f1(k, x[0]) if f1 else x[0]
        s = k.sum(*x[1:])
        g = spread(k, x) if spread else k.sum(1, k.mul(9 / (n - 1), s))
        return [first, k.mul(g, h(k, first, g))]
    return make_them


def root(k, f, g):
    return k.sub(1, k.pow(k.div(f, g), 0.5))


def square(k, f, g):
    return k.sub(1, k.pow(k.div(f, g), 2))


def waves(k, f, g):
    r = k.div(f, g)
    return k.sub(k.sub(1, k.pow(r, 0.5)), k.mul(r, k.sin(k.mul(10 * PI, f))))


def rastrigin(k, x):
    return k.sum(1 + 10 * (len(x) - 1), *[k.sub(k.mul(y, y), k.mul(10, k.cos(k.mul(4 * PI, y)))) for y in x[1:]])


def steep(k, x):
    return k.sub(1, k.mul(k.exp(k.mul(-4, x)), k.pow(k.sin(k.mul(6 * PI, x)), 6)))


def quarter(k, x):
    return k.sum(1, k.mul(9 * (len(x) - 1) ** -0.25, k.pow(k.sum(*x[1:]), 0.25)))


def two(n):
    return [j for j in range(3, n + 1, 2)], [j for j in range(2, n + 1, 2)]


def three(n):
    return [[j for j in range(3, n + 1) if j % 3 == r] for r in (1, 2, 0)]


def plain(k, x, j):
    return k.sub(x[j - 1], k.sin(k.sum(k.mul(6 * PI, x[0]), j * PI / len(x))))


def mean2(k, J, terms):
    return k.mul(2 / len(J), k.sum(*terms))


def uf1(k, x):
    b = [mean2(k, J, [k.pow(plain(k, x, j), 2) for j in J]) for J in two(len(x))]
    return [k.sum(x[0], b[0]), k.sum(k.sub(1, k.pow(x[0], 0.5)), b[1])]


def uf2(k, x):
    n = len(x)

    def y(j, trig):
        inner = k.sum(k.mul(0.3, x[0], x[0], k.cos(k.sum(k.mul(24 * PI, x[0]), 4 * j * PI / n))), k.mul(0.6, x[0]))
        return k.sub(x[j - 1], k.mul(inner, trig(k.sum(k.mul(6 * PI, x[0]), j * PI / n))))
    J1, J2 = two(n)
    return [k.sum(x[0], mean2(k, J1, [k.pow(y(j, k.cos), 2) for j in J1])), k.sum(k.sub(1, k.pow(x[0], 0.5)), mean2(k, J2, [k.pow(y(j, k.sin), 2) for j in J2]))]


def product_term(k, J, ys):
    prod = k.mul(*[k.cos(k.mul(20 * PI / math.sqrt(j), y)) for j, y in zip(J, ys)])
    return k.mul(2 / len(J), k.sum(k.mul(4, k.sum(*[k.mul(y, y) for y in ys])), k.mul(-2, prod), 2))


def uf3(k, x):
    n = len(x)
    b = [product_term(k, J, [k.sub(x[j - 1], k.pow(x[0], 0.5 * (1 + 3 * (j - 2) / (n - 2)))) for j in J]) for J in two(n)]
    return [k.sum(x[0], b[0]), k.sum(k.sub(1, k.pow(x[0], 0.5)), b[1])]


def uf4(k, x):
    def h(t):
        return k.div(k.abs(t), k.sum(1, k.exp(k.mul(2, k.abs(t)))))
    b = [mean2(k, J, [h(plain(k, x, j)) for j in J]) for J in two(len(x))]
    return [k.sum(x[0], b[0]), k.sum(k.sub(1, k.mul(x[0], x[0])), b[1])]


def uf5(k, x, N=10, eps=0.1):
    def h(t):
        return k.sum(k.mul(2, t, t), k.mul(-1, k.cos(k.mul(4 * PI, t))), 1)
    ridge = k.mul(1 / (2 * N) + eps, k.abs(k.sin(k.mul(2 * N * PI, x[0]))))
    b = [mean2(k, J, [h(plain(k, x, j)) for j in J]) for J in two(len(x))]
    return [k.sum(x[0], ridge, b[0]), k.sum(k.sub(1, x[0]), ridge, b[1])]


def uf6(k, x, N=30, eps=0.1):
    ridge = k.positive(k.mul(2 * (1 / (2 * N) + eps), k.sin(k.mul(2 * N * PI, x[0]))))
    b = [product_term(k, J, [plain(k, x, j) for j in J]) for J in two(len(x))]
    return [k.sum(x[0], ridge, b[0]), k.sum(k.sub(1, x[0]), ridge, b[1])]


def uf7(k, x):
    b = [mean2(k, J, [k.pow(plain(k, x, j), 2) for j in J]) for J in two(len(x))]
    r = k.pow(x[0], 0.2)
    return [k.sum(r, b[0]), k.sum(k.sub(1, r), b[1])]


def plane(k, x, j):
    return k.sub(x[j - 1], k.mul(2, x[1], k.sin(k.sum(k.mul(2 * PI, x[0]), j * PI / len(x)))))


def sphere(k, x):
    a, b = k.mul(0.5 * PI, x[0]), k.mul(0.5 * PI, x[1])
    return [k.mul(k.cos(a), k.cos(b)), k.mul(k.cos(a), k.sin(b)), k.sin(a)]


def uf8(k, x):
    return [k.sum(f, mean2(k, J, [k.pow(plane(k, x, j), 2) for j in J])) for f, J in zip(sphere(k, x), three(len(x)))]


def uf9(k, x, eps=0.1):
    t = k.sub(k.mul(2, x[0]), 1)
    m = k.positive(k.mul(1 + eps, k.sub(1, k.mul(4, t, t))))
    first = [k.mul(0.5, k.sum(m, k.mul(2, x[0])), x[1]), k.mul(0.5, k.sum(m, k.mul(-2, x[0]), 2), x[1]), k.sub(1, x[1])]
    return [k.sum(f, mean2(k, J, [k.pow(plane(k, x, j), 2) for j in J])) for f, J in zip(first, three(len(x)))]


def uf10(k, x):
    def h(t):
        return k.sum(k.mul(4, t, t), k.mul(-1, k.cos(k.mul(8 * PI, t))), 1)
    return [k.sum(f, mean2(k, J, [h(plane(k, x, j)) for j in J])) for f, J in zip(sphere(k, x), three(len(x)))]


def ackley(k, x):
    near = k.exp(k.mul(-0.2, k.pow(k.mul(0.5, k.sum(k.mul(x[0], x[0]), k.mul(x[1], x[1]))), 0.5)))
    wave = k.exp(k.mul(0.5, k.sum(k.cos(k.mul(2 * PI, x[0])), k.cos(k.mul(2 * PI, x[1])))))
    f = k.sum(k.mul(-20, near), k.mul(-1, wave), 20 + math.e)
    return [f, f]


def kursawe(k, x):
    a = k.sum(*[k.mul(-10, k.exp(k.mul(-0.2, k.pow(k.sum(k.mul(p, p), k.mul(q, q)), 0.5)))) for p, q in zip(x, x[1:])])
    b = k.sum(*[k.sum(k.pow(k.abs(p), 0.8), k.mul(5, k.sin(k.pow(p, 3)))) for p in x])
    return [a, b]


def box(first, rest, n):
    return [first] + [rest] * (n - 1)


UNIT = (0, 1)
PROBLEMS = {
    "ZDT1": (zdt(root), box(UNIT, UNIT, 30)),
    "ZDT2": (zdt(square), box(UNIT, UNIT, 30)),
    "ZDT3": (zdt(waves), box(UNIT, UNIT, 30)),
    "ZDT4": (zdt(root, None, rastrigin), box(UNIT, (-5, 5), 10)),
    "ZDT6": (zdt(square, steep, quarter), box(UNIT, UNIT, 10)),
    "UF1": (uf1, box(UNIT, (-1, 1), 30)),
    "UF2": (uf2, box(UNIT, (-1, 1), 30)),
    "UF3": (uf3, box(UNIT, UNIT, 30)),
    "UF4": (uf4, box(UNIT, (-2, 2), 30)),
    "UF5": (uf5, box(UNIT, (-1, 1), 10)),
    "UF6": (uf6, box(UNIT, (-1, 1), 30)),
    "UF7": (uf7, box(UNIT, (-1, 1), 30)),
    "UF8": (uf8, [UNIT] * 2 + [(-2, 2)] * 28),
    "UF9": (uf9, [UNIT] * 2 + [(-2, 2)] * 28),
    "UF10": (uf10, [UNIT] * 2 + [(-2, 2)] * 28),
    "ackley": (ackley, [(-1.5, 1.5)] * 2),
    "kursawe": (kursawe, [(-5, 5)] * 3),
}


class Problems(PolyFlow):
    def built_up(self, module, name):
        """tuple assignments at module level are interpreted too"""
        if super().built_up(module, name):
            return True
        return any(isinstance(s, ast.Assign) and any(isinstance(t, (ast.Tuple, ast.List)) and name in {x.id for x in ast.walk(t) if isinstance(x, ast.Name)} for t in s.targets) for s in module.tree.body)


def run(repo, res, tier):
    for name in PROBLEMS:
        res.rule(name, "its objectives and bounds are the published ones")
    seeds = 24 if tier == "thorough" else 8
    count = 0
    for name, (define, bounds) in PROBLEMS.items():
        m = repo.modules.get("problems.%s.problem" % name)
        if m is None:
            res.unknown(name, name, "the problem's module is not there")
            continue
        bad, unknown, good = None, None, 0
        fl = Problems(repo)
        for seed in range(seeds):
            try:
                for r in one(fl, m, define, bounds, seed):
                    if r is None:
                        good += 1
                    elif r[0] == "bad":
                        bad = bad or r[1:]
                    else:
                        unknown = unknown or r[1]
            except (TooComplex, RecursionError, KeyError, IndexError, ValueError, TypeError, AttributeError, OverflowError, ZeroDivisionError) as e:
                unknown = unknown or "%s: %s" % (type(e).__name__, e)
            if bad:
                break
        res.functions |= fl.functions
        count += good
        if bad:
            res.bad(name, "problems.%s.problem.%s" % (name, bad[0]), "%s:%d" % (m.rel, line(fl, bad[2])), bad[1])
            continue
        if good:
            res.ok(name, "%d formulas" % good)
        if unknown:
            res.unknown(name, name, unknown)
    res.extra["formulas"] = count
    res.floor("formulas compared", count, 150)


def line(fl, fn):
    while fn is not None and fn[0] == "partial":
        fn = fn[1]
    return getattr(fl.fnkeys[fn[1]][1], "lineno", 1) if fn is not None and fn[0] == "fn" and fn[1] in fl.fnkeys else 1


def coordinates(g, bounds, seed):
    rnd = random.Random("%d %s" % (seed, bounds))
    out = []
    for i, (lo, hi) in enumerate(bounds):
        if seed % 4 == 3 and i < 2 and rnd.random() < 0.6:
            out.append({(): c} if (c := rnd.choice([lo, hi, 0])) else {})
        else:
            out.append(g.atom("x%d" % i, rnd.uniform(lo, hi)))
    return out


def one(fl, m, define, bounds, seed):
    fl.cell()
    g = fl.alg
    g.loose = True
    st0 = fl.start()
    found = False
    for st, d in fl.global_name(st0, m, "dims"):
        rows = fl.exact(st, d)
        cells = None if rows is None else [fl.exact(st, r) for r in rows]
        if cells is None or any(c is None or len(c) != 2 or any(x[0] != "c" for x in c) for c in cells):
            raise TooComplex("the bounds are not understood")
        got = [tuple(x[2] for x in c) for c in cells]
        if got != bounds:
            yield "bad", "dims", "the bounds are not the published ones: %s" % difference(got, bounds), None
            return
        for s, fs in fl.global_name(st, m, "fitnesses"):
            fns = fl.exact(s, fs)
            if fns is None:
                raise TooComplex("the objectives are not understood")
            x = coordinates(g, bounds, seed)
            want = define(Calc(g), x)
            if len(fns) != len(want):
                yield "bad", "fitnesses", "there are %d objectives instead of %d" % (len(fns), len(want)), None
                return
            found = True
            for i, (f, w) in enumerate(zip(fns, want)):
                vec = s.new(Obj("list", items=tuple(make(c) for c in x)))
                for s2, v in fl.call(s, f, [vec], {}, None):
                    yield judge(g, i, f, v, w, x)
    if not found:
        raise TooComplex("no objective is reached")


def judge(g, i, f, v, w, x):
    if is_raise(v):
        return "bad", "fitnesses[%d]" % i, "%s raises %s" % (at(g, x), show(v)[:80]), f
    got = as_poly(v)
    if got is None:
        raise TooComplex("the value is not understood: %s" % show(v)[:60])
    if same(g, got, w):
        return None
    a, b = g.value(got), g.value(w)
    if abs(a - b) > 1e-4 * (1 + abs(b)):
        return "bad", "fitnesses[%d]" % i, "objective %d is not the published one: %s gives %.6g instead of %.6g" % (i + 1, at(g, x), a, b), f
    return "open", "objective %d has another shape than the published one, or agrees with it at one point only" % (i + 1)


def same(g, a, b):
    if g.close(a, b):
        return True
    for d in (g.add(a, b, -1), ):
        for e in (d, g.cleared(d)):
            scale = max((abs(c) for c in list(a.values()) + list(b.values())), default=1)
            if max((abs(c) for c in e.values()), default=0) <= 1e-5 * max(1, min(1, scale)):
                return True
    return False


def at(g, x):
    return "(%s%s)" % (", ".join("%.3g" % g.value(c) for c in x[:4]), ", ..." if len(x) > 4 else "")


def difference(got, want):
    if len(got) != len(want):
        return "%d variables instead of %d" % (len(got), len(want))
    i = next(i for i, (a, b) in enumerate(zip(got, want)) if a != b)
    return "variable %d in %s instead of %s" % (i + 1, got[i], want[i])
