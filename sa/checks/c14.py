"""C14: computing an indicator never changes the data it reads."""
import math

from .. import effects
from ..flow import K, T, TUP, Obj, TooComplex, is_raise, is_t, show
from ..orderflow import OrderFlow

TECHNIQUE = "path-sensitive abstract interpretation of every indicator and filter, repeated with another computation in between; side-effect analysis of the readers"
NOTE = ("Sets of two (hypervolume: up to three) members with two or three objectives, every order type of their values. The cache of compared solutions that the dominance "
        "indicator fills, and the attribute that holds the non-dominated part, are results and not data.")
EXPLANATION = ("Every indicator and filter is interpreted on symbolic sets, then another one on a different set, then the first again, from the state the others left. "
               "The sets must hold the same objects with the same contents after every step, and the third computation must give the value of the first on every path. "
               "For the functions around them a side-effect analysis lists every modification of an argument.")

METRICS = ("generational_distance", "inverse_generational_distance", "average_hausdorff_distance", "epsilon", "extent", "spacing", "non_domination_ratio", "hypervolume",
           "pareto_dominance_indicator")
OTHER = [[3, 7], [5, 2]], [[1, 6], [4, 1]]
OTHER3 = [[3, 7, 2], [5, 2, 4]], [[1, 6, 1], [4, 1, 3]]


class Mx(OrderFlow):
    """numbers of the sets are numbers"""
    def is_number(self, st, v):
        return is_t(v, "num") or super().is_number(st, v)

    def finite(self, st, v):
        return is_t(v, "num") or super().finite(st, v)

    def numcast(self, st, name, args, n):
        if name == "float" and args and is_t(args[0], "num"):
            return [(st, args[0])]
        return super().numcast(st, name, args, n)

    def ext_call(self, st, name, args, kw, n):
        if name.startswith("math.") and args and not kw and all(a[0] == "c" and isinstance(a[2], (int, float)) for a in args):
            try:
                v = getattr(math, name[5:])(*[a[2] for a in args])
                if isinstance(v, (int, float, bool)):
                    return [(st, K(v))]
            except (AttributeError, ValueError, TypeError, OverflowError):
                pass
        if name.startswith("numpy.") and not name.startswith("numpy.random"):
            return [(st, T("x", name, tuple(self.snap(st, a) for a in args), tuple((k, self.snap(st, v)) for k, v in kw.items())))]
        return super().ext_call(st, name, args, kw, n)


def const(x):
    return K(float(x))


class Data:
    """the sets one computation reads, and what they looked like"""
    def __init__(self, fl, st, n, dims, tag=None, rows=None, front=None):
        vec = lambda v: st.new(Obj("list", items=tuple(v)))
        if rows is not None:
            self.sol = [vec(const(x) for x in r) for r in rows]
            self.par = [vec(const(x) for x in r) for r in front]
        else:
            self.sol = [vec(T("num", tag, i, k) for k in range(dims)) for i in range(n)]
            self.par = [vec(T("num", tag + "f", i, k) for k in range(dims)) for i in range(2)]
        self.dims = dims
        self.S = vec(self.sol)
        self.N = vec(self.sol)
        self.P = vec(self.par)
        self.A = vec([TUP(st.heap[x[1]].items) for x in self.sol[:1]] + [TUP(st.heap[x[1]].items) for x in self.par])
        self.R0 = vec([K(0.0)] * dims)
        self.R1 = vec([K(50.0)] * dims)
        self.L = vec([K(0.0)])
        self.ids = [x[1] for x in self.sol + self.par + [self.S, self.N, self.P, self.A, self.R0, self.R1]]
        self.was = {i: st.heap[i].items for i in self.ids}
        self.name = {}
        for i in self.ids:
            self.name[i] = "a member" if i in [x[1] for x in self.sol] else "a point of the front" if i in [x[1] for x in self.par] else "the set" if i in (self.S[1], self.N[1]) \
                else "the front" if i == self.P[1] else "the compared solutions" if i == self.A[1] else "the reference point"

    def changed(self, st):
        for i in self.ids:
            if st.heap[i].items != self.was[i]:
                return self.name[i]
        return None


def fn_of(repo, mod, name):
    m = repo.modules.get(mod)
    r = repo.resolve_global(m, name) if m else None
    return (r[1], r[2]) if r is not None and r[0] == "func" else None


def subjects(repo):
    """(label, where, call(fl, st, data) -> results)"""
    out = []

    def plain(mod, name, args):
        f = fn_of(repo, mod, name)
        if f is not None:
            out.append(("%s.%s" % (mod, name), "%s:%d" % (f[0].rel, f[1].lineno), lambda fl, st, d: fl.run(f[0], f[1], args(fl, st, d), st=st)))

    for n in METRICS:
        plain("metrics.metrics", n, (lambda fl, st, d: [d.S, d.N, d.A]) if n == "pareto_dominance_indicator" else (lambda fl, st, d: [d.S, d.N, d.P]))
    for n in ("filter_not_dominated", "filter_not_dominated2"):
        plain("metrics.metrics_utils", n, lambda fl, st, d: [d.S])
    plain("metrics.metrics", "filter_not_dominated", lambda fl, st, d: [d.S])
    for n in ("distance_from_pareto", "generational_distance", "inverse_generational_distance", "distance"):
        plain("metrics.metrics_utils", n, lambda fl, st, d: [d.S, d.P])
    for n in ("spacing", "extent"):
        plain("metrics.metrics_utils", n, lambda fl, st, d: [d.S])
    for n in ("dominates", "domination_cmp"):
        plain("evotools.ea_utils", n, lambda fl, st, d: [d.sol[0], d.sol[1]])
    plain("evotools.ea_utils", "paretofront_layers", lambda fl, st, d: [d.S, ("bi", "list")])
    for q, rel, ref, label in (("algorithms.base.hv.HyperVolume", "compute", "R0", "reference point 0"), ("algorithms.base.hv.HyperVolume", "compute", "R1", "reference point 50")):
        if q in repo.classes:
            ci = repo.classes[q]
            out.append(("%s.%s (%s)" % (q, rel, label), "%s:%d" % (ci.module.rel, ci.node.lineno), hv(q, rel, ref)))
    q = "metrics.epsilon.Epsilon"
    if q in repo.classes:
        ci = repo.classes[q]
        out.append((q + ".epsilon", "%s:%d" % (ci.module.rel, ci.node.lineno), lambda fl, st, d: method(fl, st, shared(fl, st, q, []), "epsilon", [d.S, d.P])))
    return out


def hv(q, name, ref):
    def f(fl, st, d):
        s, o = instance(fl, st, q, [getattr(d, ref)])
        return method(fl, s, o, name, [d.N])
    return f


def instance(fl, st, q, args):
    """the instance made for this data, used again by every later computation"""
    key = (q, args[0][1] if args else None)
    oid = getattr(fl, "insts", {}).get(key)
    if oid is not None and oid in st.heap:
        return st, ("o", oid)
    rs = fl.instantiate(st, q, args, {}, fl.repo.classes[q].node)
    if len(rs) != 1 or is_raise(rs[0][1]):
        raise TooComplex("constructor of %s" % q)
    fl.insts[key] = rs[0][1][1]
    return rs[0]


def shared(fl, st, q, args):
    s, o = instance(fl, st, q, args)
    if s is not st:
        raise TooComplex("constructor")
    return o


def method(fl, st, o, name, args):
    return fl.bind(fl.getattr(st, o, name, None), lambda s, f: fl.call(s, f, args, {}, None))


def value(fl, st, v):
    """a value by content"""
    x = fl.exact(st, v) if v[0] in ("o", "tup") else None
    if x is not None:
        return ("seq",) + tuple(value(fl, st, y) for y in x)
    return v


def run(repo, res, tier):
    res.rule("unchanged", "the sets, fronts and reference points passed to an indicator hold the same objects with the same contents afterwards")
    res.rule("repeatable", "the same indicator on the same data gives the same value, whatever was computed before")
    res.rule("arguments", "functions that compute, store or read indicators change none of the stored populations, objective values and fronts")
    subs = subjects(repo)
    n = paths = 0
    for i, (label, where, call) in enumerate(subs):
        others = range(len(subs)) if tier == "thorough" else sorted({i, (i + 1) % len(subs), (i + 7) % len(subs)} | {j for j, s in enumerate(subs) if "epsilon" in s[0] and j % 2 == i % 2})
        for j in others:
            n += 1
            try:
                paths += pair(repo, res, subs[i], subs[j], 3 if "hypervolume" in label.lower() and tier == "thorough" else 2, 2, 3)
                paths += pair(repo, res, subs[i], subs[j], 0, 3, 2)
                if j == i or tier == "thorough":
                    paths += pair(repo, res, subs[i], subs[j], 2, 2, 2)
            except (TooComplex, RecursionError, KeyError, IndexError, ValueError, TypeError, AttributeError) as e:
                res.unknown("repeatable", "%s after %s" % (label, subs[j][0]), "%s: %s" % (type(e).__name__, e))
        res.functions.add(label.split(" ")[0])
    res.extra["paths"] = paths
    res.floor("pairs of computations", n, 30)
    res.floor("paths followed", paths, 300)
    readers(repo, res)


def pair(repo, res, a, b, size, dims, odims):
    label, where, call = a
    c = "%s after %s" % (label, b[0])
    fl = Mx(repo)
    fl.insts = {}
    st = fl.start()
    rows = ([[2, 9, 4], [6, 3, 60]], [[1, 2, 2], [2, 1, 3]]) if not size else (None, None)
    d = Data(fl, st, size, dims, tag="a", rows=rows[0], front=rows[1])
    rows = OTHER3 if odims == 3 else OTHER
    e = Data(fl, st, 2, odims, rows=rows[0], front=rows[1])
    # instances are made before anything is computed, as the module-level ones are
    for q, args in (("algorithms.base.hv.HyperVolume", [d.R0]), ("algorithms.base.hv.HyperVolume", [d.R1]), ("algorithms.base.hv.HyperVolume", [e.R0]),
                    ("algorithms.base.hv.HyperVolume", [e.R1]), ("metrics.epsilon.Epsilon", [])):
        if q in repo.classes:
            st, _ = instance(fl, st, q, args)
    n = 0
    bad = set()
    fresh = {}
    for s0, r0 in b[2](fl, st.copy(), e):
        fresh[frozenset(s0.facts.items())] = value(fl, s0, r0)
    fresh = set(fresh.values())
    for s1, r1 in call(fl, st, d):
        if is_raise(r1):
            continue
        w = d.changed(s1)
        if w:
            bad.add(("unchanged", label, where, "%s is changed by the computation" % w))
            continue
        v1 = value(fl, s1, r1)
        for s2, r2 in b[2](fl, s1, e):
            w = e.changed(s2) or d.changed(s2)
            if w:
                bad.add(("unchanged", b[0], b[1], "%s is changed by the computation" % w))
                continue
            if value(fl, s2, r2) not in fresh and fresh:
                bad.add(("repeatable", b[0], b[1], "computed after %s it is %s, by itself %s" % (label, show(value(fl, s2, r2))[:80], show(sorted(fresh, key=repr)[0])[:80])))
            for s3, r3 in call(fl, s2, d):
                n += 1
                w = d.changed(s3) or e.changed(s3)
                if w:
                    bad.add(("unchanged", label, where, "%s is changed by the second computation" % w))
                elif is_raise(r3):
                    bad.add(("repeatable", label, where, "computed again after %s it raises %s" % (b[0], show(r3)[:80])))
                elif value(fl, s3, r3) != v1:
                    bad.add(("repeatable", label, where, "computed again after %s it is %s instead of %s" % (b[0], show(value(fl, s3, r3))[:90], show(v1)[:90])))
    if bad:
        for x in sorted(bad):
            res.bad(*x)
    elif n:
        res.ok("repeatable", c)
        res.ok("unchanged", c)
    else:
        res.unknown("repeatable", c, "no path completes")
    return n


DATA = ("fitnesses", "population", "additional_data", "pareto_front")


def readers(repo, res):
    ef = effects.Effects(repo)
    n = 0
    for m, ci, fn, qual in ef.fns:
        if m.name not in ("simulation.metrics_processor", "metrics.metrics", "metrics.metrics_utils", "statistic.ranking", "statistic.stats", "statistic.summary", "statistic.stats_bootstrap"):
            continue
        n += 1
        res.functions.add(qual)
        own = set()
        bad = None
        for e in ef.of(fn):
            k, name, path = e.origin
            hit = [p for p in path if p in DATA]
            if k in ("param", "global", "free") and (hit or (k == "param" and name in ("pareto", "all_solutions", "not_dominated_solution", "solution") and "cache" not in name)):
                if path and path[-1] in ("~", "^"):
                    continue
                bad = ("%s:%d" % (e.where, e.line), "%s changes %s" % (e.how, ".".join([name] + [p for p in path if p not in ("[]", "~", "^")])))
        if bad:
            res.bad("arguments", qual, bad[0], bad[1])
        else:
            res.ok("arguments", qual)
    res.floor("readers analysed", n, 20)
