"""Values as polynomials in the unknown coordinates, comparisons decided cell by cell.

Every unknown number is an atom; sums, differences, products and quotients by constants are kept as polynomials, square
roots and other quotients as further atoms.  A comparison whose outcome is not fixed by the polynomials themselves is
answered by a representative point of the cell under study, so that one interpretation stands for all inputs whose
comparisons come out in the same way; the result is a formula, which is compared with the formula of the definition.
"""
import ast
import math
from fractions import Fraction

from .flow import INF, K, NONE, Obj, RAISE, T, TUP, TooComplex, is_raise, is_t
from .orderflow import OrderFlow

TINY = 1e-12


def clean(d):
    big = max((abs(c) for c in d.values()), default=0)
    return {m: c for m, c in d.items() if c and abs(c) > TINY * min(big, 1.0) * 1e-3}


class Algebra:
    """polynomials over atoms with a representative value each"""

    def __init__(self):
        self.rep, self.roots, self.inverses, self.names, self.calls = {}, {}, {}, {}, {}
        self.loose = False

    def atom(self, name, value):
        self.rep[name] = value
        return {(name,): 1}

    def const(self, c):
        return {(): c} if c else {}

    def add(self, a, b, sign=1):
        out = dict(a)
        for m, c in b.items():
            out[m] = out.get(m, 0) + sign * c
        return clean(out)

    def times(self, a, b):
        out = {}
        for m, c in a.items():
            for n, k in b.items():
                for mono, q in self.reduce(m + n).items():
                    out[mono] = out.get(mono, 0) + c * k * q
        return clean(out)

    def reduce(self, m):
        m = tuple(sorted(m))
        for i in range(len(m) - 1):
            if m[i] == m[i + 1] and m[i] in self.roots:
                return self.times(self.roots[m[i]], self.reduce(m[:i] + m[i + 2:]))
        for x in m:
            if x in self.inverses:
                y = self.inverses[x]
                if len(y) == 1 and list(y)[0] and list(y)[0][0] in m:
                    rest, mono = list(m), list(list(y)[0])
                    rest.remove(x)
                    if all(rest.count(t) >= mono.count(t) for t in mono):
                        for t in mono:
                            rest.remove(t)
                        return self.times({(): 1 / list(y.values())[0]}, self.reduce(tuple(rest)))
        return {m: 1}

    def scale(self, a, c):
        return clean({m: k * c for m, k in a.items()})

    def value(self, a):
        return float(sum(c * math.prod(self.rep[x] for x in m) for m, c in a.items()))

    def key(self, a):
        return tuple(sorted((m, round(float(c), 10)) for m, c in a.items()))

    def sqrt(self, a):
        if set(a) <= {()}:
            c = float(a.get((), 0))
            return None if c < 0 else self.const(math.sqrt(c))
        lead = abs(a[min(a, key=lambda m: (-len(m), m))])
        inner = self.scale(a, 1 / lead if lead != 1 else 1)
        v = self.value(inner)
        if v < -1e-9:
            return None
        root = self.square_root(inner)
        if root is not None:
            return self.scale(root, math.sqrt(lead) if lead != 1 else 1)
        name = self.names.setdefault(("sqrt", self.key(inner)), "sqrt%d" % len(self.names))
        self.roots[name] = inner
        self.rep[name] = math.sqrt(max(v, 0.0))
        return self.scale({(name,): 1}, math.sqrt(lead) if lead != 1 else 1)

    def square_root(self, a):
        """the polynomial whose square this is, when it is linear"""
        lin = {}
        squares = [(m, c) for m, c in a.items() if len(m) == 2 and m[0] == m[1]]
        if not squares or any(len(m) != 2 for m in a):
            return None
        first = squares[0][0][0]
        base = math.sqrt(squares[0][1]) if squares[0][1] > 0 else None
        if not base:
            return None
        lin[(first,)] = base
        for m, c in a.items():
            if first in m and m[0] != m[1]:
                other = m[0] if m[1] == first else m[1]
                lin[(other,)] = c / (2 * base)
        if self.add(self.times(lin, lin), a, -1):
            return None
        return lin if self.value(lin) >= 0 else self.scale(lin, -1)

    def divide(self, a, b):
        if set(b) <= {()}:
            c = b.get((), 0)
            if not c:
                return None
            return {m: (Fraction(k, c) if isinstance(k, int) and isinstance(c, int) else k / c) for m, k in a.items()}
        if not self.add(a, b, -1):
            return {(): 1}
        lead = b[min(b, key=lambda m: (-len(m), m))]
        inner = self.scale(b, 1 / lead if lead != 1 else 1)
        v = self.value(inner)
        if abs(v) < 1e-9:
            raise TooComplex("a quotient by a number close to zero")
        (mono, _), = self.function("inv", lambda x: 1.0 / x, inner).items()
        name = mono[0]
        self.inverses.setdefault(name, inner)
        return self.scale(self.times(a, {(name,): 1}), 1 / lead if lead != 1 else 1)

    def sign(self, a):
        a = clean(a)
        if not a:
            return 0
        if set(a) == {()}:
            return 1 if a[()] > 0 else -1
        v = self.value(a)
        if abs(v) < 1e-9:
            raise TooComplex("two values of one cell are too close to be ordered")
        return 1 if v > 0 else -1

    def close(self, a, b, tol=1e-5):
        """the same monomials with coefficients that differ only by rounded constants"""
        return set(a) == set(b) and all(abs(a[m] - b[m]) <= tol * abs(b[m]) for m in b)

    def function(self, kind, fn, a, how=None):
        """an atom for fn(a); one for all arguments written the same way"""
        for other, name in self.calls.setdefault((kind, how), []):
            if self.close(a, other, 1e-5 if kind == "pow" or self.loose else 1e-9):
                return {(name,): 1}
        name = "%s%d" % (kind, len(self.rep))
        self.rep[name] = fn(self.value(a))
        self.calls[(kind, how)].append((a, name))
        return {(name,): 1}

    def applied(self, kind, a):
        """sin, cos, exp, log of a"""
        fn = getattr(math, kind)
        if set(a) <= {()}:
            return self.const(fn(float(a.get((), 0))))
        sign = 1
        if kind in ("sin", "cos") and a[min(a, key=lambda m: (-len(m), m))] < 0:
            a, sign = self.scale(a, -1), -1 if kind == "sin" else 1
        return self.scale(self.function(kind, fn, a), sign)

    def power(self, a, k):
        """a to a constant power"""
        if abs(k - round(k)) < 1e-12:
            k = int(round(k))
            if k < 0:
                return self.divide({(): 1}, self.power(a, -k))
            if k > 8:
                raise TooComplex("a high power of an unknown number")
            out = {(): 1}
            for _ in range(k):
                out = self.times(out, a)
            return out
        if set(a) <= {()}:
            c = float(a.get((), 0))
            if c < 0:
                raise TooComplex("a root of a negative number")
            return self.const(c ** k)
        if abs(2 * k - round(2 * k)) < 1e-12 and k > 0:
            r = self.sqrt(a)
            return None if r is None else self.times(r, self.power(a, k - 0.5))
        lead = abs(a[min(a, key=lambda m: (-len(m), m))])
        inner = self.scale(a, 1 / lead) if lead != 1 else a
        if self.value(inner) < 0:
            raise TooComplex("a root of a negative number")
        return self.scale(self.function("pow", lambda v: v ** k, inner, round(k, 9)), lead ** k)

    def cleared(self, a):
        """a, multiplied by the numbers it is divided by"""
        for inv, inner in self.inverses.items():
            k = max((m.count(inv) for m in a), default=0)
            if not k or len(inner) * len(a) > 20000:
                continue
            powers = [{(): 1}]
            for _ in range(k):
                powers.append(self.times(powers[-1], inner))
            out = {}
            for m, c in a.items():
                rest = tuple(x for x in m if x != inv)
                out = self.add(out, self.times({rest: c}, powers[k - m.count(inv)]))
            a = out
        return a

    def smallest(self, items):
        out = items[0]
        for x in items[1:]:
            if self.sign(self.add(x, out, -1)) < 0:
                out = x
        return out

    def largest(self, items):
        out = items[0]
        for x in items[1:]:
            if self.sign(self.add(x, out, -1)) > 0:
                out = x
        return out

    def absolute(self, a):
        return a if self.sign(a) >= 0 else self.scale(a, -1)

    def total(self, items):
        out = {}
        for x in items:
            out = self.add(out, x)
        return out


def make(d):
    d = clean(d)
    if not d:
        return K(0.0)
    if set(d) == {()}:
        c = d[()]
        return K(float(c))
    return T("poly", tuple(sorted(d.items())))


def as_poly(v):
    if is_t(v, "poly"):
        return dict(v[2])
    if v[0] == "c" and isinstance(v[2], (int, float)) and v[2] == v[2] and abs(v[2]) != INF:
        c = v[2]
        return {(): int(c) if c == int(c) else c} if c else {}
    return None


class PolyFlow(OrderFlow):
    """the flow over such values; self.alg holds the atoms of the cell"""

    def cell(self):
        self.alg = Algebra()
        self.steps, self.frames = 0, []

    def while_limit(self, st, n):
        return 60

    def poly(self, a, b):
        return (is_t(a, "poly") or is_t(b, "poly")) and as_poly(a) is not None and as_poly(b) is not None

    # ------------------------------------------------------------ arrays
    def isarr(self, st, v):
        return v[0] == "o" and st.heap[v[1]].kind == "list" and st.heap[v[1]].cls == "ndarray"

    def arr(self, st, items):
        return st.new(Obj("list", "ndarray", items=tuple(items)))

    def to_array(self, st, v):
        items = self.exact(st, v) if v[0] in ("o", "tup") else None
        if items is None:
            return v
        return self.arr(st, [self.to_array(st, x) for x in items])

    def each(self, st, f, xs):
        acc = [(st, [])]
        for x in xs:
            nxt = []
            for s, l in acc:
                if isinstance(l, tuple):
                    nxt.append((s, l))
                    continue
                for s2, v in f(s, x):
                    nxt.append((s2, v if is_raise(v) else l + [v]))
            acc = nxt
        return [(s, l if isinstance(l, tuple) else self.arr(s, l)) for s, l in acc]

    def map1(self, st, f, v):
        if self.isarr(st, v):
            return self.each(st, lambda s, x: self.map1(s, f, x), self.exact(st, v))
        return f(st, v)

    def binop(self, st, op, a, b, n):
        if self.isarr(st, a) or self.isarr(st, b):
            xs = self.exact(st, a) if self.isarr(st, a) or a[0] == "o" else None
            ys = self.exact(st, b) if self.isarr(st, b) or b[0] == "o" else None
            # an array against a row of the other
            if xs is not None and ys is not None and xs and ys and (self.isarr(st, xs[0]) != self.isarr(st, ys[0])):
                if self.isarr(st, xs[0]):
                    ys = [b] * len(xs)
                else:
                    xs = [a] * len(ys)
            k = len(xs if xs is not None else ys)
            xs, ys = xs if xs is not None else [a] * k, ys if ys is not None else [b] * k
            if len(xs) != len(ys):
                if len(xs) == 1:
                    xs = list(xs) * len(ys)
                elif len(ys) == 1:
                    ys = list(ys) * len(xs)
                else:
                    return [(st, RAISE("ValueError", "shapes"))]
            return self.each(st, lambda s, p: self.binop(s, op, p[0], p[1], n), list(zip(xs, ys)))
        if self.poly(a, b):
            x, y, g = as_poly(a), as_poly(b), self.alg
            if op in ("+", "-"):
                return [(st, make(g.add(x, y, 1 if op == "+" else -1)))]
            if op == "*":
                return [(st, make(g.times(x, y)))]
            if op == "/":
                r = g.divide(x, y)
                return [(st, make(r) if r is not None else RAISE("ZeroDivisionError"))]
            if op == "**" and b[0] == "c":
                return self.power(st, a, b[2])
            raise TooComplex("arithmetic on unknown numbers")
        for u, v, k in ((a, b, 1), (b, a, -1)):
            # beside an infinite number a finite one does not count
            if op in ("+", "-") and u[0] == "c" and isinstance(u[2], float) and abs(u[2]) == INF and is_t(v, "poly"):
                return [(st, u if k == 1 or op == "+" else K(-u[2]))]
        return super().binop(st, op, a, b, n)

    def power(self, st, a, k):
        r = self.alg.power(as_poly(a), k)
        return [(st, make(r) if r is not None else RAISE("ValueError"))]

    def compare_hook(self, st, op, a, b, n):
        if op in ("Lt", "LtE", "Gt", "GtE", "Eq") and (is_t(a, "poly") or is_t(b, "poly")):
            x, y = as_poly(a), as_poly(b)
            if x is None or y is None:
                for u, v, k in ((a, b, 1), (b, a, -1)):
                    if u[0] == "c" and isinstance(u[2], float) and abs(u[2]) == INF:
                        s = (1 if u[2] > 0 else -1) * k
                        return [(st, {"Lt": s < 0, "LtE": s < 0, "Gt": s > 0, "GtE": s > 0, "Eq": False}[op])]
                if op == "Eq":
                    return [(st, False)]
                raise TooComplex("comparison of an unknown number")
            s = self.alg.sign(self.alg.add(x, y, -1))
            return [(st, {"Lt": s < 0, "LtE": s <= 0, "Gt": s > 0, "GtE": s >= 0, "Eq": s == 0}[op])]
        return super().compare_hook(st, op, a, b, n)

    def among(self, v, items):
        return any(self.same(v, x) for x in items)

    def same(self, a, b):
        if a == b:
            return True
        if a[0] == b[0] == "tup":
            return len(a[1]) == len(b[1]) and all(self.same(x, y) for x, y in zip(a[1], b[1]))
        x, y = as_poly(a), as_poly(b)
        return x is not None and y is not None and not self.alg.add(x, y, -1)

    def getattr(self, st, v, name, n):
        if is_t(v, "x") and v[2] == "numpy.finfo" and name in ("eps", "tiny", "max"):
            return [(st, K({"eps": 2.0 ** -52, "tiny": 2.0 ** -1022, "max": 1.7976931348623157e308}[name]))]
        return super().getattr(st, v, name, n)

    def e_UnaryOp(self, st, e):
        if isinstance(e.op, ast.USub):
            def minus(s, v):
                if is_t(v, "poly"):
                    return [(s, make(self.alg.scale(as_poly(v), -1)))]
                if v[0] == "c" and isinstance(v[2], (int, float)):
                    return [(s, K(-v[2]))]
                if self.isarr(s, v):
                    return self.binop(s, "*", K(-1), v, e)
                return self.neg(s, v)
            return self.bind(self.ev(st, e.operand), minus)
        return super().e_UnaryOp(st, e)

    def truth(self, st, v, n=None):
        if is_t(v, "poly"):
            return [(st, self.alg.sign(as_poly(v)) != 0)]
        return super().truth(st, v, n)

    def numcast(self, st, name, args, n):
        if args and is_t(args[0], "poly"):
            if name == "float":
                return [(st, args[0])]
            if name == "abs":
                return [(st, make(self.alg.absolute(as_poly(args[0]))))]
        if args and name == "abs" and self.isarr(st, args[0]):
            return self.map1(st, lambda s, v: self.builtin(s, "abs", [v], {}, n), args[0])
        return super().numcast(st, name, args, n)

    def builtin(self, st, name, args, kw, n):
        if name == "pow" and len(args) == 2 and not kw and self.poly(*args):
            return self.binop(st, "**", args[0], args[1], n)
        return super().builtin(st, name, args, kw, n)

    def is_number(self, st, v):
        return is_t(v, "poly") or super().is_number(st, v)

    def finite(self, st, v):
        return is_t(v, "poly") or super().finite(st, v)

    # ------------------------------------------------------------ library functions
    def ext_call(self, st, name, args, kw, n):
        if name.startswith("math."):
            r = self.maths(st, name[5:], args, n)
            if r is not None:
                return r
        if name.startswith("numpy."):
            r = self.numerics(st, name[6:], args, kw, n)
            if r is not None:
                return r
        if name.startswith("statistics.") and args:
            r = self.numerics(st, {"mean": "mean", "fmean": "mean", "pstdev": "std", "pvariance": "var"}.get(name[11:], "?"), args[:1], {}, n)
            if r is not None:
                return r
        return super().ext_call(st, name, args, kw, n)

    def numbers(self, st, v):
        items = self.exact(st, v) if v[0] in ("o", "tup") else None
        if items is None:
            return None
        out = [as_poly(x) for x in items]
        return out if all(x is not None for x in out) else None

    def maths(self, st, name, args, n):
        if name in ("fabs",) and args:
            return self.builtin(st, "abs", args, {}, n)
        if name == "pow":
            return self.binop(st, "**", args[0], args[1], n)
        if name == "fsum":
            return self.builtin(st, "sum", args, {}, n)
        if name in ("sin", "cos", "exp", "tan") and len(args) == 1 and as_poly(args[0]) is not None:
            if name == "tan":
                return self.binop(st, "/", make(self.alg.applied("sin", as_poly(args[0]))), make(self.alg.applied("cos", as_poly(args[0]))), n)
            return [(st, make(self.alg.applied(name, as_poly(args[0]))))]
        if name == "prod" and args:
            xs = self.numbers(st, args[0])
            if xs is None:
                return None
            out = {(): 1}
            for x in xs:
                out = self.alg.times(out, x)
            return [(st, make(out))]
        if name == "sqrt" and args and as_poly(args[0]) is not None:
            r = self.alg.sqrt(as_poly(args[0]))
            return [(st, make(r) if r is not None else RAISE("ValueError"))]
        if name in ("hypot", "dist"):
            if name == "dist":
                p, q = self.numbers(st, args[0]), self.numbers(st, args[1])
                if p is None or q is None or len(p) != len(q):
                    return None
                ds = [self.alg.add(x, y, -1) for x, y in zip(p, q)]
            else:
                ds = [as_poly(a) for a in args]
                if any(d is None for d in ds):
                    return None
            return [(st, make(self.alg.sqrt(self.alg.total([self.alg.times(d, d) for d in ds]))))]
        return None

    def numerics(self, st, name, args, kw, n):
        g = self.alg
        if name in ("array", "asarray", "asfarray") and args:
            return [(st, self.to_array(st, args[0]))]
        if name in ("abs", "fabs", "absolute"):
            return self.map1(st, lambda s, v: self.builtin(s, "abs", [v], {}, n), self.to_array(st, args[0]))
        if name == "sqrt":
            return self.map1(st, lambda s, v: self.maths(s, "sqrt", [v], n), self.to_array(st, args[0]))
        if name in ("sin", "cos", "exp"):
            return self.map1(st, lambda s, v: self.maths(s, name, [v], n), self.to_array(st, args[0]))
        if name == "prod" and args and not kw:
            return self.maths(st, "prod", [self.to_array(st, args[0])], n)
        if name in ("square", "power"):
            return self.binop(st, "**", self.to_array(st, args[0]), args[1] if name == "power" else K(2), n)
        if name in ("subtract", "add", "multiply", "divide"):
            return self.binop(st, {"subtract": "-", "add": "+", "multiply": "*", "divide": "/"}[name], self.to_array(st, args[0]), self.to_array(st, args[1]), n)
        if name in ("sum", "mean", "average", "max", "min", "amax", "amin", "std", "var", "ptp", "median") and args:
            axis = kw.get("axis") or (args[1] if len(args) > 1 else NONE)
            v = self.to_array(st, args[0])
            rows = self.exact(st, v)
            if rows is None or set(kw) - {"axis", "initial"}:
                return None
            if rows and self.isarr(st, rows[0]):
                cells = [self.exact(st, r) for r in rows]
                if axis == K(0):
                    return self.each(st, lambda s, c: self.numerics(s, name, [self.arr(s, c)], {}, n), list(zip(*cells)))
                if axis in (K(1), K(-1)):
                    return self.each(st, lambda s, c: self.numerics(s, name, [self.arr(s, c)], {}, n), cells)
                if axis != NONE:
                    return None
                v = self.arr(st, [x for r in cells for x in r])
            xs = self.numbers(st, v)
            if xs is None:
                return None
            if name == "sum":
                return [(st, make(g.total(xs)))]
            if not xs:
                return [(st, K(float("nan")))] if name not in ("max", "min", "amax", "amin", "ptp") else [(st, RAISE("ValueError"))]
            if name in ("max", "amax"):
                return [(st, make(g.largest(xs)))]
            if name in ("min", "amin"):
                return [(st, make(g.smallest(xs)))]
            if name == "ptp":
                return [(st, make(g.add(g.largest(xs), g.smallest(xs), -1)))]
            if name == "median":
                return [(st, make(self.quantile(xs, 0.5)))]
            mean = g.divide(g.total(xs), {(): len(xs)})
            if name in ("mean", "average"):
                return [(st, make(mean))]
            dev = [g.add(x, mean, -1) for x in xs]
            var = g.divide(g.total([g.times(d, d) for d in dev]), {(): len(xs)})
            return [(st, make(var if name == "var" else g.sqrt(var)))]
        if name in ("percentile", "quantile") and len(args) == 2 and not kw:
            xs = self.numbers(st, self.to_array(st, args[0]))
            qs = self.numbers(st, args[1]) if args[1][0] in ("o", "tup") else [as_poly(args[1])]
            if xs and qs and all(q is not None and set(q) <= {()} for q in qs):
                out = [make(self.quantile(xs, q.get((), 0) / (100.0 if name == "percentile" else 1.0))) for q in qs]
                return [(st, out[0] if args[1][0] == "c" else self.arr(st, out))]
            return None
        if name == "linalg.norm" and args and not kw and len(args) == 1:
            xs = self.numbers(st, self.to_array(st, args[0]))
            if xs is not None:
                return [(st, make(g.sqrt(g.total([g.times(x, x) for x in xs]))))]
            return None
        return None

    def quantile(self, xs, q):
        g = self.alg
        xs = self.ordered(xs)
        pos = q * (len(xs) - 1)
        i = min(int(math.floor(pos)), len(xs) - 1)
        j = min(i + 1, len(xs) - 1)
        return g.add(g.scale(xs[i], 1 - (pos - i)), g.scale(xs[j], pos - i))

    def ordered(self, xs):
        import functools
        return sorted(xs, key=functools.cmp_to_key(lambda a, b: self.alg.sign(self.alg.add(a, b, -1))))

    def method(self, st, b, name, args, kw, n):
        if self.isarr(st, b):
            if name in ("sum", "mean", "max", "min", "std", "var"):
                r = self.numerics(st, name, [b] + list(args), kw, n)
                if r is not None:
                    return r
            if name == "tolist":
                return [(st, st.new(Obj("list", items=tuple(self.exact(st, b)))))]
        return super().method(st, b, name, args, kw, n)
