"""the leaders of OMOPSO: which are kept when there are too many, and which of two leads a particle"""
import itertools
import math
import random

from ..flow import K, Obj, T, TooComplex, is_raise, is_t, show
from ..polyflow import as_poly, make
from . import c39
from .c39 import Draws, Odd, Wrong, boxes_of, field, lst, made, polys, tup_boxes, vector

INF = math.inf


class Swarm(Draws):
    """objective functions are unknown, one value per vector and objective"""

    def prepare(self, seed, nobj):
        self.begin(("leaders", seed), (0.02, 0.98))
        self.points = random.Random("points %d" % seed)
        self.table, self.nobj, self.drawn = {}, nobj, []

    def values(self, vec):
        key = tuple("%.9f" % x for x in vec)
        if key not in self.table:
            r, i = self.points, len(self.table)
            t = r.random()
            base = (t, 1 - t) if self.nobj == 2 else (t, r.random(), 2 - t - r.random())
            self.table[key] = [self.alg.atom("o%02d.%d" % (i, k), 1 + b + r.uniform(0, 0.08)) for k, b in enumerate(base)]
        return self.table[key]

    def call_hook(self, st, fv, args, kw, n):
        if is_t(fv, "known"):
            c = self.content(st, args[0])
            if c is None:
                raise TooComplex("the vector given to an objective function")
            return [(st, make(self.values(c)[fv[2]]))]
        return super().call_hook(st, fv, args, kw, n)

    def ext_call(self, st, name, args, kw, n):
        if name == "random.sample" and len(args) == 2 and args[1][0] == "c":
            items = self.exact(st, args[0])
            before = len(self.samples)
            r = super().ext_call(st, name, args, kw, n)
            if items is not None and len(self.samples) > before:
                self.drawn.append([self.content(st, items[i]) for i in self.samples[-1]])
            return r
        return super().ext_call(st, name, args, kw, n)


def crowding(points):
    """the crowding distance: the sum over the objectives of the gap between the neighbours, relative to the range"""
    out = [0.0] * len(points)
    for k in range(len(points[0])):
        order = sorted(range(len(points)), key=lambda i: points[i][k])
        lo, hi = points[order[0]][k], points[order[-1]][k]
        out[order[0]] = out[order[-1]] = INF
        for a, b, c in zip(order, order[1:], order[2:]):
            out[b] += (points[c][k] - points[a][k]) / (hi - lo) if hi > lo else INF
    return out


def dominates(a, b):
    return a != b and all(x <= y for x, y in zip(a, b))


def kept(archive, new, size):
    """every archive that may result; several when two members are as crowded as each other"""
    found = [list(archive)]
    for p in new:
        nxt = []
        for arch in found:
            if any(dominates(q, p) or q == p for q in arch):
                nxt.append(arch)
                continue
            arch = [q for q in arch if not dominates(p, q)] + [p]
            if len(arch) <= size:
                nxt.append(arch)
                continue
            c = crowding(arch)
            nxt += [arch[:i] + arch[i + 1:] for i, x in enumerate(c) if x <= min(c) + 1e-9 or x == min(c)]
        found = nxt
        if len(found) > 40:
            raise Odd("too many members are level")
    return found


def archive(fl, s, d):
    items = fl.exact(s, field(fl, s, field(fl, s, d, "leader_archive"), "archive"))
    if items is None:
        raise Odd("the leaders are not understood")
    return [fl.content(s, p) for p in items]


def follow(fl, seed):
    """one swarm, two steps; a tally per step"""
    n, nobj = (3, 4, 5, 4)[seed % 4], (2, 2, 3)[seed % 3]
    fl.prepare(seed, nobj)
    g, rnd = fl.alg, random.Random("leaders %d" % seed)
    boxes = boxes_of(seed)[:2]
    xs = [vector(g, rnd, boxes, "x%d." % i) for i in range(n)]
    st = fl.start()
    kw = {"population": st.new(Obj("list", items=tuple(lst(st, x) for x in xs))), "fitnesses": st.new(Obj("list", items=tuple(T("known", k) for k in range(nobj)))), "dims": tup_boxes(st, boxes),
          "mutation_eta": K(20.0), "mutation_rate": K(0.5), "crossover_eta": K(20.0), "crossover_rate": K(0.5), "mutation_probability": K(0.5), "mutation_perturbation": K(0.5), "trim_function": T("same", 0)}
    (st, d), = made(fl.call(st, ("cls", c39.SWARM + ".OMOPSO"), [], kw, None))
    point = lambda c: tuple(g.value(p) for p in fl.values(c))
    tally = {"full": 0, "led": 0, "level": 0}
    for step in range(3):
        before = archive(fl, st, d)
        fl.drawn = []
        old = [(polys(fl, st, field(fl, st, p, "value")), polys(fl, st, field(fl, st, p, "speed")), polys(fl, st, field(fl, st, field(fl, st, p, "best_val"), "value"))) for p in fl.exact(st, field(fl, st, d, "individuals"))]
        mark = len(fl.made)
        outcomes = [(s2, v) for s, meth in made(fl.getattr(st, d, "step", None)) for s2, v in fl.call(s, meth, [], {}, None)]
        if len(outcomes) != 1 or is_raise(outcomes[0][1]):
            raise Odd("a step is not followed: %s" % (show(outcomes[0][1])[:60] if outcomes else ""))
        st = outcomes[0][0]
        inds = fl.exact(st, field(fl, st, d, "individuals"))
        new = [point(fl.content(st, p)) for p in inds]
        have = [point(c) for c in before]
        after = sorted(point(c) for c in archive(fl, st, d))
        fresh = [p for p in new if not any(dominates(q, p) or q == p for q in have)]
        if len(have) + len(fresh) > n:
            tally["full"] += 1
            orders = [new] + list(itertools.permutations(new))
            if not any(sorted(a) == after for o in orders for a in kept(have, o, n)):
                want = sorted(kept(have, new, n)[0])
                say = lambda ps: "; ".join("(%s)" % ", ".join("%.4g" % x for x in p) for p in ps)
                raise Wrong("of %d leaders and the candidates %s the ones kept are %s, where removing the most crowded one keeps %s" % (len(have), say(fresh), say(after), say(want)))
        if len(before) > 1:
            led(fl, st, old, inds, before, have, fl.made[mark:], tally)
    return tally


def led(fl, st, old, inds, before, have, draws, tally):
    """the leader each particle follows is the less crowded one of the two drawn"""
    g = fl.alg
    crowd = dict(zip(map(tuple, before), crowding(have)))
    if len(fl.drawn) != len(inds) or any(c is None or len(c) != 2 or any(tuple(x) not in crowd for x in c) for c in fl.drawn) or len(draws) < 5 * len(inds):
        raise Odd("the tournaments are not understood")
    for i, p in enumerate(inds):
        two = fl.drawn[i]
        c = [crowd[tuple(x)] for x in two]
        if abs(c[0] - c[1]) < 1e-9 or c[0] == c[1]:
            tally["level"] += 1
            continue
        own = [g.value(u) for u in draws[5 * i:5 * i + 5]]
        x, speed, best = old[i]
        now = polys(fl, st, field(fl, st, p, "speed"))
        def fits(lead):
            for r1, r2, c1, c2, w in itertools.permutations(own):
                ok = True
                for k in range(len(x)):
                    v = (0.1 + 0.4 * w) * g.value(speed[k]) + (1.5 + 0.5 * c1) * r1 * (g.value(best[k]) - g.value(x[k])) + (1.5 + 0.5 * c2) * r2 * (lead[k] - g.value(x[k]))
                    if abs(abs(v) - abs(g.value(now[k]))) > 1e-7:
                        ok = False
                        break
                if ok:
                    return True
            return False
        which = [fits(y) for y in two]
        if which == [True, True]:
            continue
        if not any(which):
            raise Odd("the leader a particle follows is not understood")
        tally["led"] += 1
        if not which[c.index(max(c))]:
            raise Wrong("of two leaders with the crowding distances %.4g and %.4g the more crowded one leads a particle" % tuple(c))


def judge(repo, res, tier):
    from .c39 import FAIL
    fl = Swarm(repo)
    total, wrong, odd = {"full": 0, "led": 0, "level": 0}, None, None
    where = repo.classes.get(c39.SWARM + ".OMOPSO")
    if where is None:
        res.unknown("leaders", "OMOPSO", "not found")
        return
    for seed in range(24 if tier == "quick" else 120):
        try:
            for k, v in follow(fl, seed).items():
                total[k] += v
        except Wrong as e:
            wrong = str(e)
            break
        except Odd as e:
            odd = odd or str(e)
        except FAIL as e:
            odd = odd or "%s: %s" % (type(e).__name__, e)
    res.functions |= fl.functions
    if wrong:
        res.bad("leaders", "OMOPSO", "%s:%d" % (where.module.rel, where.node.lineno), wrong)
        return
    if total["full"] and total["led"]:
        res.ok("leaders", "OMOPSO: %d full archives, %d tournaments" % (total["full"], total["led"]))
    if odd:
        res.unknown("leaders", "OMOPSO", odd)
    res.extra["leaders of OMOPSO"] = dict(total)
    return total
