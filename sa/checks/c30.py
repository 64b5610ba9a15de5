"""C30: hypervolume values are the measure of the dominated region."""
import itertools
import multiprocessing
import os
from concurrent.futures import ProcessPoolExecutor

from .. import core
from ..flow import K, T, Obj, TooComplex, is_raise, is_t, show
from ..orderflow import OrderFlow, weak_orders

TECHNIQUE = "abstract interpretation over order types with values as polynomials in the unknown gaps between coordinates"
NOTE = ("One to three points in two to five dimensions, dominated, tied and equal points included; three points in four and five dimensions are a fixed sample of the order types (all of them in "
        "four dimensions, and four points, in the thorough tier). Points beyond the reference point are included up to two dimensions (three for two points). Arithmetic is exact: rounding is not judged.")
EXPLANATION = ("For each way in which the coordinates of a few points and the reference point can be ordered, the hypervolume code is interpreted with every coordinate written as the "
               "reference minus a sum of positive unknown gaps. All comparisons are decided by that order or by the signs of polynomial coefficients; the resulting polynomial must equal the "
               "measure of the union of the dominated boxes, for all values of the gaps at once.")
Q = "algorithms.base.hv.HyperVolume"
BIG = 1e300


def poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return K(0.0)
    if set(d) == {()}:
        return K(float(d[()]))
    return T("poly", tuple(sorted(d.items())))


def as_poly(v):
    if is_t(v, "poly"):
        return dict(v[2])
    if v[0] == "c" and isinstance(v[2], (int, float)) and not isinstance(v[2], bool) and v[2] == v[2] and abs(v[2]) != float("inf"):
        if v[2] == int(v[2]):
            return {(): int(v[2])} if v[2] else {}
        return {(): v[2]}
    return None


def add(a, b, sign=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + sign * c
    return out


def times(a, b):
    out = {}
    for m, c in a.items():
        for n, k in b.items():
            key = tuple(sorted(m + n))
            out[key] = out.get(key, 0) + c * k
    return out


def sign(d):
    """sign of a polynomial in positive unknowns, or None"""
    d = {m: c for m, c in d.items() if c}
    if not d:
        return 0
    if abs(d.get((), 0)) >= BIG:
        return 1 if d[()] > 0 else -1
    if all(c > 0 for c in d.values()):
        return 1
    if all(c < 0 for c in d.values()):
        return -1
    return None


class HvFlow(OrderFlow):
    def binop(self, st, op, a, b, n):
        if is_t(a, "poly") or is_t(b, "poly"):
            x, y = as_poly(a), as_poly(b)
            if x is not None and y is not None:
                if op in ("+", "-"):
                    return [(st, poly(add(x, y, 1 if op == "+" else -1)))]
                if op == "*":
                    return [(st, poly(times(x, y)))]
                if op == "/" and set(y) <= {()} and y:
                    return [(st, poly({m: c / y[()] for m, c in x.items()}))]
                if op == "**" and b[0] == "c" and b[2] in (2, 3):
                    r = x
                    for _ in range(int(b[2]) - 1):
                        r = times(r, x)
                    return [(st, poly(r))]
            raise TooComplex("arithmetic on coordinates")
        return super().binop(st, op, a, b, n)

    def compare_hook(self, st, op, a, b, n):
        if (is_t(a, "poly") or is_t(b, "poly")) and op in ("Lt", "LtE", "Gt", "GtE", "Eq"):
            x, y = as_poly(a), as_poly(b)
            if x is None or y is None:
                if op == "Eq":
                    return [(st, False)]
                for u, v, k in ((a, b, 1), (b, a, -1)):
                    if u[0] == "c" and isinstance(u[2], float) and abs(u[2]) == float("inf"):
                        s = (1 if u[2] > 0 else -1) * k
                        return [(st, {"Lt": s < 0, "LtE": s < 0, "Gt": s > 0, "GtE": s > 0}[op])]
                raise TooComplex("comparison of a coordinate")
            s = sign(add(x, y, -1))
            if s is None:
                raise TooComplex("comparison not decided by the order of coordinates")
            return [(st, {"Lt": s < 0, "LtE": s <= 0, "Gt": s > 0, "GtE": s >= 0, "Eq": s == 0}[op])]
        return super().compare_hook(st, op, a, b, n)

    def e_UnaryOp(self, st, e):
        import ast
        if isinstance(e.op, ast.USub):
            return self.bind(self.ev(st, e.operand), lambda s, v: [(s, poly({m: -c for m, c in v[2]}))] if is_t(v, "poly") else self.minus(s, v))
        return super().e_UnaryOp(st, e)

    def minus(self, s, v):
        if v[0] == "c" and isinstance(v[2], (int, float)):
            return [(s, K(-v[2]))]
        return self.neg(s, v)

    def truth(self, st, v, n=None):
        if is_t(v, "poly"):
            s = sign(dict(v[2]))
            if s is None:
                raise TooComplex("truth of a coordinate")
            return [(st, s != 0)]
        return super().truth(st, v, n)

    def numcast(self, st, name, args, n):
        if args and is_t(args[0], "poly"):
            if name == "float":
                return [(st, args[0])]
            if name == "abs":
                s = sign(dict(args[0][2]))
                if s is not None:
                    return [(st, args[0] if s >= 0 else poly({m: -c for m, c in args[0][2]}))]
        return super().numcast(st, name, args, n)

    def is_number(self, st, v):
        return is_t(v, "poly") or super().is_number(st, v)

    def finite(self, st, v):
        return is_t(v, "poly") or super().finite(st, v)

    def while_limit(self, st, n):
        return 40


def coordinate(c, rank, top, ref):
    d = {((c, j),): -1 for j in range(rank, top)} if rank < top else {((c, j),): 1 for j in range(top, rank)}
    d[()] = ref
    return poly(d)


def measure(ranks, tops, m):
    """measure of the union of the boxes between each point and the reference, by cells"""
    out = {}
    for cell in itertools.product(*[range(t) for t in tops]):
        if any(all(r[p] <= j for r, j in zip(ranks, cell)) for p in range(m)):
            key = tuple(sorted((c, j) for c, j in enumerate(cell)))
            out[key] = 1
    return out


def cases(tier):
    """(points, dimensions, order types of points and reference per dimension, reference value)"""
    deep = tier == "thorough"
    for m, d, withref, step in ((1, 2, True, 1), (1, 3, True, 1), (2, 2, True, 1), (2, 3, True, 1), (3, 2, True, 1), (2, 4, False, 1), (3, 3, False, 1), (1, 5, False, 1), (2, 5, False, 1),
                                (3, 4, False, 1 if deep else 5), (3, 5, False, 7 if deep else 101)) + (((4, 3, False, 1), (4, 4, False, 97)) if deep else ()):
        if withref:
            per = [(o[:-1], o[-1]) for o in weak_orders(m + 1)]
        else:
            per = [(o, max(o) + 1) for o in weak_orders(m)]
        # arriving in the order of the first coordinate only, for the larger sets
        first = per if m <= 3 and d <= 3 else [p for p in per if list(p[0]) == sorted(p[0])]
        for i, combo in enumerate(itertools.product(first, *[per] * (d - 1))):
            if i % step == 0:
                yield m, d, combo, (0 if (i + m) % 2 else 50)


_STATE = {}


def prepare(root):
    if "fl" not in _STATE:
        repo = core.shared(root)
        _STATE["fl"] = HvFlow(repo)
    return _STATE["fl"]


def batch(args):
    root, cs = args
    fl = prepare(root)
    n, bad, unknown = 0, None, None
    for m, d, combo, ref in cs:
        n += 1
        try:
            e = one(fl, m, d, combo, ref)
        except (TooComplex, RecursionError, KeyError, IndexError, ValueError, TypeError, AttributeError) as x:
            unknown = unknown or "%d points in %d dimensions: %s: %s" % (m, d, type(x).__name__, x)
            continue
        if e and bad is None:
            bad = ("%d points in %d dimensions, ranks %s, reference at %s: %s" % (m, d, [list(c[0]) for c in combo], [c[1] for c in combo], e), m, d)
    return n, bad, unknown


def one(fl, m, d, combo, ref):
    fl.steps = 0
    st = fl.start()
    vec = lambda v: st.new(Obj("list", items=tuple(v)))
    pts = [vec(coordinate(c, combo[c][0][p], combo[c][1], ref) for c in range(d)) for p in range(m)]
    R = vec(K(float(ref)) for _ in range(d))
    F = vec(pts)
    rs = fl.instantiate(st, Q, [R], {}, fl.repo.classes[Q].node)
    want = measure([[r if r <= c[1] else 10 ** 6 for r in c[0]] for c in combo], [c[1] for c in combo], m)
    for s, o in rs:
        if is_raise(o):
            return "the constructor raises %s" % show(o)
        for s2, v in fl.bind(fl.getattr(s, o, "compute", None), lambda s3, f: fl.call(s3, f, [F], {}, None)):
            if is_raise(v):
                return "it raises %s" % show(v)[:80]
            got = as_poly(v)
            if got is None:
                raise TooComplex("the value is not understood: %s" % show(v)[:60])
            diff = {k: c for k, c in add(got, want, -1).items() if c}
            if diff:
                return "the value differs from the measure of the dominated region by %s" % text(diff)
    return None


def text(d):
    out = []
    for mon, c in sorted(d.items())[:4]:
        out.append("%+g%s" % (c, "".join(" gap%d%d" % (x, y) for x, y in mon)))
    return " ".join(out) + (" ..." if len(d) > 4 else "")


def run(repo, res, tier):
    res.rule("measure", "the value computed equals the measure of the region dominated up to the reference point")
    if Q not in repo.classes:
        res.unknown("measure", Q, "the class does not exist")
        return
    ci = repo.classes[Q]
    cs = list(cases(tier))
    jobs = [(repo.root, cs[i::64]) for i in range(64)]
    n, bads, unknown = 0, [], []
    with ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context("fork")) as ex:
        for k, bad, u in ex.map(batch, jobs):
            n += k
            if bad:
                bads.append(bad)
            if u:
                unknown.append(u)
    res.extra["order_types"] = n
    m = repo.find_method(ci, "compute")
    where = "%s:%d" % (ci.module.rel, (m[1] if m else ci.node).lineno)
    res.functions |= {q for mod, c, f, q in repo.functions(ci.module.name)}
    if bads:
        b = min(bads, key=lambda x: (x[1], x[2], x[0]))
        res.bad("measure", Q, where, b[0])
    elif unknown:
        res.ok("measure", "%s on the order types understood" % Q)
        res.unknown("measure", Q, sorted(unknown)[0])
    else:
        for k in sorted({(c[0], c[1]) for c in cs}):
            res.ok("measure", "%d points in %d dimensions" % k)
    res.floor("order types", n, 4000)
