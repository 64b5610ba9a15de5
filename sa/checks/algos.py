"""The algorithms themselves, interpreted over intervals with a representative draw.

Every real number the code handles is an abstract value: an interval that encloses it (exact bounds for the
box of the problem, refined by the comparisons on the path), the expression it was computed by (value
numbering, so that equal computations are the same value), and a representative that fixes the outcome of
comparisons the intervals leave open - one path per schedule of random draws.  Objective functions are opaque:
their values are terms over the coordinates, ordered by the schedule.
"""
import ast
import collections
import itertools
import math
import random as _random

from ..flow import K, NONE, INF, Obj, T, TUP, RAISE, FALSE, TRUE, TooComplex, is_c, is_raise, is_t, show
from ..rxmodel import RxFlow

BOXES = [(-3.0, 5.0), (-2.8, 0.6), (-20.0, -12.0), (0.25, 0.75)]     # -2.8 + (0.6 - -2.8) is rounded to more than 0.6
EPS = 2.0 ** -52


def h01(*key):
    """a pseudo-random number in [0,1) fixed by the key"""
    return _random.Random(repr(key)).random()


class Plan:
    def __init__(self, algo, n=5, dims=3, nobj=2, order="hash", draws="mixed", trim=False, archive=None, steps=2, seed=1, twins=False, given=None, finals="last"):
        self.algo, self.n, self.dims, self.nobj, self.order, self.draws, self.trim, self.archive = algo, n, dims, nobj, order, draws, trim, archive
        self.steps, self.seed, self.twins, self.given, self.finals = steps, seed, twins, given or {}, finals

    def __str__(self):
        return "%s: %d individuals, %d coordinates, %d objectives, values %s, draws %s%s%s%s (schedule %d)" % (
            self.algo, self.n, self.dims, self.nobj, self.order, self.draws, ", trimmed" if self.trim else "", ", shared cache" if self.archive else "",
            ", equal members" if self.twins else "", self.seed)


class AlgoFlow(RxFlow):
    max_steps = 3000000
    max_paths = 8
    max_depth = 200
    sort_compare = True
    plan = None

    def __init__(self, repo):
        super().__init__(repo)
        self.reset()

    def reset(self):
        self.key, self.val, self.iv, self.ids, self.canon = {}, {}, {}, {}, {}
        self.ndraw = 0
        self.steps = 0
        self.writes = []
        self.stale = []
        self.hang = None
        self.archive = None
        self.inner = ALGOS[self.plan.algo.split("+")[1]][0] if self.plan is not None and "+" in self.plan.algo else None
        self.stepped = None

    def recursion_limit(self, qual):
        return 40

    def call_fn(self, st, fv, args, kw, node):
        out = super().call_fn(st, fv, args, kw, node)
        if self.inner and args and args[0][0] == "o" and self.fnkeys[fv[1]][1].__class__ is ast.FunctionDef and self.fnkeys[fv[1]][1].name == "step":
            o = st.heap.get(args[0][1])
            if o is not None and o.kind == "inst" and o.cls == self.inner and len(out) == 1:
                self.stepped = out[0][0].copy()        # the last moment an island's algorithm advanced
        return out

    max_turns = 1000

    def endless(self, n):
        self.hang = (self.where(), n.lineno)

    # ------------------------------------------------ numbers
    def real(self, key, val, lo=-INF, hi=INF):
        r = self.ids.get(key)
        if r is None:
            r = T("r", len(self.ids))
            self.ids[key] = r
            self.key[r], self.val[r], self.iv[r] = key, val, (lo, hi)
        return r

    def isnum(self, v):
        return v[0] == "c" and isinstance(v[2], (int, float)) and not isinstance(v[2], bool) or is_t(v, "r")

    def number(self, v):
        """(representative, lo, hi) or None"""
        if v[0] == "c" and isinstance(v[2], (int, float)):
            return float(v[2]) if not isinstance(v[2], int) else v[2], v[2], v[2]
        if is_t(v, "r"):
            return (self.val[v],) + self.iv[v]
        if is_t(v, "lin"):
            val = lo = hi = v[3]
            for t, c in v[2]:
                x = self.number(t)
                if x is None:
                    return None
                val = val + float(c) * x[0]
                a, b = float(c) * x[1], float(c) * x[2]
                lo, hi = lo + min(a, b), hi + max(a, b)
            return float(val), float(lo), float(hi)
        return None

    def arith(self, op, a, b):
        x, y = self.number(a), self.number(b)
        try:
            v = {"+": lambda: x[0] + y[0], "-": lambda: x[0] - y[0], "*": lambda: x[0] * y[0], "/": lambda: x[0] / y[0], "//": lambda: x[0] // y[0],
                 "%": lambda: x[0] % y[0], "**": lambda: x[0] ** y[0]}[op]()
        except ZeroDivisionError:
            return RAISE("ZeroDivisionError")
        except OverflowError:
            return RAISE("OverflowError")
        if isinstance(v, complex) or v != v:
            v = h01("nan", op, a, b)
        lo, hi = -INF, INF
        (al, ah), (bl, bh) = x[1:], y[1:]
        if op == "+":
            lo, hi = al + bl, ah + bh
        elif op == "-":
            lo, hi = al - bh, ah - bl
        elif op == "*" and all(abs(t) != INF for t in (al, ah, bl, bh)):
            ps = [al * bl, al * bh, ah * bl, ah * bh]
            lo, hi = min(ps), max(ps)
        elif op == "/" and (bl > 0 or bh < 0) and all(abs(t) != INF for t in (al, ah)):
            ps = [al / bl, al / bh, ah / bl, ah / bh] if abs(bl) != INF and abs(bh) != INF else None
            if ps:
                lo, hi = min(ps), max(ps)
        elif op == "%" and bl > 0 and bh != INF:
            lo, hi = 0.0, bh
        elif op == "**" and al >= 0 and bl > 0 and bh != INF:
            if ah <= 1:
                lo, hi = al ** bh, ah ** bl
            else:
                lo, hi = 0.0, INF
        # the computed value is rounded: the enclosure is widened to the next representable numbers
        lo, hi = math.nextafter(lo, -INF) if abs(lo) != INF else lo, math.nextafter(hi, INF) if abs(hi) != INF else hi
        if op in ("+", "*") and repr(a) > repr(b):
            a, b = b, a
        if lo != lo or hi != hi:
            lo, hi = -INF, INF
        return self.real((op, a, b), v, lo, hi)

    def fn1(self, name, v, f, lo=-INF, hi=INF):
        x = self.number(v)
        try:
            r = f(x[0])
        except (ValueError, ZeroDivisionError):
            return RAISE("ValueError")
        except OverflowError:
            return RAISE("OverflowError")
        return self.real((name, v), r, lo, hi)

    def isarr(self, st, v):
        return v[0] == "o" and st.heap[v[1]].kind == "list" and st.heap[v[1]].cls == "ndarray"

    def arr(self, st, items):
        return st.new(Obj("list", "ndarray", items=tuple(items)))

    def binop(self, st, op, a, b, n):
        if self.isarr(st, a) or self.isarr(st, b):
            xs, ys = (self.exact(st, v) if v[0] != "t" and self.exact(st, v) is not None else None for v in (a, b))
            k = len(xs if xs is not None else ys)
            xs, ys = xs if xs is not None else [a] * k, ys if ys is not None else [b] * k
            if len(xs) != len(ys):
                return [(st, RAISE("ValueError", "shapes"))]
            acc = [(st, [])]
            for x, y in zip(xs, ys):
                nxt = []
                for s, l in acc:
                    if isinstance(l, tuple):
                        nxt.append((s, l))
                        continue
                    for s2, v in self.binop(s, op, x, y, n):
                        nxt.append((s2, v if is_raise(v) else l + [v]))
                acc = nxt
            return [(s, l if isinstance(l, tuple) else self.arr(s, l)) for s, l in acc]
        if (is_t(a, "r") or is_t(b, "r") or is_t(a, "lin") or is_t(b, "lin")) and self.number(a) and self.number(b) and op in ("+", "-", "*", "/", "//", "%", "**"):
            return [(st, self.arith(op, a, b))]
        if a[0] == "c" and b[0] == "c" and op == "**" and self.isnum(a) and self.isnum(b):
            return [(st, self.fn2(op, a, b))]
        return super().binop(st, op, a, b, n)

    def fn2(self, op, a, b):
        try:
            v = a[2] ** b[2]
        except (OverflowError, ZeroDivisionError) as e:
            return RAISE(type(e).__name__)
        return K(v) if not isinstance(v, complex) else self.real(("cpow", a, b), abs(v))

    def neg(self, st, v):
        return [(st, self.arith("*", K(-1), v))] if is_t(v, "r") else super().neg(st, v)

    def e_UnaryOp(self, st, e):
        if isinstance(e.op, ast.USub):
            return self.bind(self.ev(st, e.operand), lambda s, v: [(s, self.arith("-", K(0), v))] if is_t(v, "r") else [(s, K(-v[2]))] if self.isnum(v) else self.binop(s, "*", K(-1), v, e) if self.isarr(s, v) else [(s, T("neg", v))])
        return super().e_UnaryOp(st, e)

    def truth(self, st, v, n=None):
        if is_t(v, "r"):
            return [(st, self.val[v] != 0)]
        if v[0] == "t" and v[1] in ("objf", "x", "mcall", "call"):
            return [(st, True)]
        return super().truth(st, v, n)

    def refine(self, op, a, b):
        """narrow the intervals of two values known to satisfy a op b"""
        for x, y, o in ((a, b, op), (b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op))):
            if not is_t(x, "r"):
                continue
            lo, hi = self.iv[x]
            _, yl, yh = self.number(y)
            if o in ("<", "<="):
                hi = min(hi, yh)
            elif o in (">", ">="):
                lo = max(lo, yl)
            elif o == "==":
                lo, hi = max(lo, yl), min(hi, yh)
            self.iv[x] = (lo, hi)

    def compare_hook(self, st, op, a, b, n):
        if op == "Is" and (is_t(a, "r") or is_t(b, "r")):
            return [(st, a == b)]
        x, y = self.number(a), self.number(b)
        if (is_t(a, "r") or is_t(b, "r")) and x and y and op in ("Lt", "LtE", "Gt", "GtE", "Eq"):
            r = {"Lt": x[0] < y[0], "LtE": x[0] <= y[0], "Gt": x[0] > y[0], "GtE": x[0] >= y[0], "Eq": x[0] == y[0]}[op]
            self.refine({("Lt", True): "<", ("Lt", False): ">=", ("LtE", True): "<=", ("LtE", False): ">", ("Gt", True): ">", ("Gt", False): "<=",
                         ("GtE", True): ">=", ("GtE", False): "<", ("Eq", True): "==", ("Eq", False): "!="}[(op, r)], a, b)
            return [(st, r)]
        if (is_t(a, "r") or is_t(b, "r")) and op == "Eq":
            return [(st, False)]
        if op in ("Eq", "Is"):
            for p, q in ((a, b), (b, a)):
                if p[0] == "t" and p[1] in ("objf", "x", "mcall") :
                    return [(st, p == q)]
        return None

    def finite(self, st, v):
        return is_t(v, "r")

    def copy_term(self, u):
        return u

    def is_number(self, st, v):
        return is_t(v, "r")

    def numcast(self, st, name, args, n):
        v = args[0]
        if is_t(v, "r"):
            if name == "float":
                return [(st, v)]
            if name == "abs":
                lo, hi = self.iv[v]
                return [(st, self.fn1("abs", v, abs, 0 if lo <= 0 <= hi else min(abs(lo), abs(hi)), max(abs(lo), abs(hi))))]
            if name == "int":
                return [(st, K(int(self.val[v])))]
            if name == "round":
                nd = args[1][2] if len(args) > 1 else None
                x = round(self.val[v], nd) if nd is not None else round(self.val[v])
                return [(st, K(x) if nd is None else self.real(("round", v, nd), x))]
        return None

    def builtin(self, st, name, args, kw, n):
        if name == "pow" and len(args) == 2:
            return self.binop(st, "**", args[0], args[1], n)
        if name == "float" and args and args[0][0] == "c" and isinstance(args[0][2], str):
            return super().builtin(st, name, args, kw, n)
        if name == "divmod":
            return self.bind(self.binop(st, "//", *args, n), lambda s, q: self.bind(self.binop(s, "%", *args, n), lambda s2, r: [(s2, TUP((q, r)))]))
        if name in ("hash", "id") and args:
            return [(st, K(("id", repr(args[0]))))] if name == "id" else [(st, T("hash", args[0]))]
        return super().builtin(st, name, args, kw, n)

    # ------------------------------------------------ keys made of numbers: equal numbers are the same key
    def keyed(self, st, k):
        def vals(v):
            if is_t(v, "r"):
                return self.val[v]
            if v[0] == "tup":
                return tuple(vals(x) for x in v[1])
            if v[0] == "c":
                return v[2]
            return v
        if k[0] == "c" and isinstance(k[2], tuple) and k[2] and all(isinstance(x, float) for x in k[2]):
            return self.canon.setdefault(("k", k[2]), k)
        if is_t(k, "r") or k[0] == "tup" and k[1] and all(self.isnum(x) for x in k[1]) and any(is_t(x, "r") or isinstance(x[2], float) for x in k[1]):
            return self.canon.setdefault(("k", vals(k)), k)
        return k

    def getitem(self, st, b, i, n):
        if b[0] == "o":
            o = st.heap[b[1]]
            if o.kind == "dict":
                i = self.keyed(st, i)
                for k, v in reversed(o.items):
                    if k == i or (k[0] == "c" and i[0] == "c" and k[2] == i[2]):
                        self.read(st, b, v, n)
                        return [(st, v)]
                return self.dict_miss(st, b, i, n)
            if o.kind == "inst" and i[0] == "o" and not self.repo.find_method(self.repo.classes[o.cls], "__getitem__"):
                return [(st, RAISE("TypeError"))]
        return super().getitem(st, b, i, n)

    def setitem(self, st, b, i, v, n):
        if b[0] == "o":
            if st.heap[b[1]].kind == "dict":
                i = self.keyed(st, i)
            elif st.heap[b[1]].kind == "list":
                self.wrote(st, b, n)
        return super().setitem(st, b, i, v, n)

    def delitem(self, st, b, i, n):
        if b[0] == "o" and st.heap[b[1]].kind == "dict":
            i = self.keyed(st, i)
        elif b[0] == "o" and st.heap[b[1]].kind == "list":
            self.wrote(st, b, n)
        return super().delitem(st, b, i, n)

    def dict_method(self, st, b, o, name, args, kw, n):
        if name in ("get", "pop", "setdefault", "__contains__") and args:
            args = [self.keyed(st, args[0])] + list(args[1:])
        return super().dict_method(st, b, o, name, args, kw, n)

    def list_method(self, st, b, o, name, args, kw, n):
        if name in ("append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse"):
            self.wrote(st, b, n)
        return super().list_method(st, b, o, name, args, kw, n)

    def wrote(self, st, b, n):
        st.event("write", b[1], self.where(), getattr(n, "lineno", 0))

    def contains(self, st, c, x, n):
        if c[0] == "o":
            o = st.heap[c[1]]
            if o.kind == "dict" or o.kind == "set":
                keys = [k for k, _ in o.items] if o.kind == "dict" else o.items
                if x[0] == "o" and st.heap[x[1]].kind in ("list", "dict", "set"):
                    return [(st, RAISE("TypeError", "unhashable"))]
                return [(st, self.keyed(st, x) in keys)]
            if o.kind == "inst" and o.cls in self.repo.classes:
                ci = self.repo.classes[o.cls]
                m = self.repo.find_method(ci, "__contains__")
                if m:
                    out = []
                    for s, v in self.call_fn(st, self.fnval(m[0].module, m[1], m[0]), [c, x], {}, n):
                        out.extend(self.truth(s, v, n) if not is_raise(v) else [(s, v)])
                    return out
                if self.repo.find_method(ci, "__getitem__"):
                    return [(s, v[1] != "KeyError" if v[1] == "KeyError" else v) if is_raise(v) else (s, True) for s, v in self.getitem(st, c, x, n)]
        return super().contains(st, c, x, n)

    def getattr_hook(self, st, b, name, n):
        if b == T("x", "finfo"):
            return [(st, K(EPS))]
        if b[0] == "o":
            o = st.heap[b[1]]
            if o.kind == "inst" and o.cls in self.repo.classes and name in o.fields:
                self.read(st, b, o.fields[name], n)
            if self.isarr(st, b):
                if name in ("size",):
                    return [(st, K(len(o.items)))]
            if o.kind == "inst" and name in ("get", "update", "setdefault", "keys", "items", "values", "pop") and o.cls in self.repo.classes and not self.repo.find_method(self.repo.classes[o.cls], name) \
                    and self.repo.find_method(self.repo.classes[o.cls], "__getitem__"):
                return [(st, ("meth", b, name))]
        return super().getattr_hook(st, b, name, n)

    def method(self, st, b, name, args, kw, n):
        if b[0] == "o" and st.heap[b[1]].kind == "inst" and st.heap[b[1]].cls in self.repo.classes:
            # the mapping interface of collections.abc
            if name == "get":
                dflt = args[1] if len(args) > 1 else kw.get("default", NONE)
                return [(s, dflt if is_raise(v) and v[1] == "KeyError" else v) for s, v in self.getitem(st, b, args[0], n)]
            if name == "update":
                cur = [(st, NONE)]
                for a in args:
                    for k, v in list(st.heap[a[1]].items) if a[0] == "o" and st.heap[a[1]].kind == "dict" else []:
                        cur = self.bind(cur, lambda s, _: self.setitem(s, b, k, v, n))
                return cur
            if name == "setdefault":
                out = []
                for s, v in self.getitem(st, b, args[0], n):
                    if is_raise(v) and v[1] == "KeyError":
                        x = args[1] if len(args) > 1 else NONE
                        out.extend((s2, u if is_raise(u) else x) for s2, u in self.setitem(s, b, args[0], x, n))
                    else:
                        out.append((s, v))
                return out
        return super().method(st, b, name, args, kw, n)

    # ------------------------------------------------ objectives
    def evkey(self, v):
        """(objective, coordinates) of a value that is an objective's value"""
        if is_t(v, "r") and self.key[v][0] == "ev":
            return self.key[v][1], self.key[v][2]
        return None

    def opaque_call(self, st, fv, args, kw, n):
        if is_t(fv, "objf") and args:
            items = self.exact(st, args[0])
            if items is None or not all(self.isnum(x) for x in items):
                raise TooComplex("an objective gets something that is not a vector: %s" % show(args[0]))
            st.event("eval", fv[2], args[0][1] if args[0][0] == "o" else None, tuple(items), self.where(), getattr(n, "lineno", 0))
            return [(st, self.objective(fv[2], tuple(items)))]
        if fv == T("x", "trim"):
            return [(st, self.trimmed(st, args[0]))]
        return super().opaque_call(st, fv, args, kw, n)

    def objective(self, c, items):
        vals = tuple(self.number(x)[0] for x in items)
        p = self.plan
        h = h01("ev", p.seed, c, vals)
        first = h01("ev", p.seed, 0, vals)

        def own(xs):
            keys = [self.key[x] if is_t(x, "r") else None for x in xs]
            return all(k is not None and k[0] == "x0" for k in keys) and len({k[1] for k in keys}) == 1

        v = {"hash": lambda: h, "ties": lambda: int(h * 3) / 3.0, "front": lambda: first if c == 0 else 1 - first if c == 1 else h, "chain": lambda: first,
             "near": lambda: int(h01("ev", p.seed, "level", vals) * 3) / 3.0 + 1e-11 * (first if c == 0 else 1 - first), "equal": lambda: 0.5, "peak": lambda: (first if c == 0 else 1 - first) / 3 + (0 if own(items) else 0.6), "smooth": lambda: sum(((x - (BOXES[i % 4][0] + (0.2 + 0.6 * c / max(1, p.nobj - 1)) * (BOXES[i % 4][1] - BOXES[i % 4][0]))) / (BOXES[i % 4][1] - BOXES[i % 4][0])) ** 2 for i, x in enumerate(vals)) / len(vals)}[p.order]()
        return self.real(("ev", c, tuple(self.keyed(None, x) if False else x for x in items)), 1.0 + 8.0 * v, 0.0, 100.0)

    def trimmed(self, st, v):
        out = []
        for i, x in enumerate(self.exact(st, v)):
            if is_t(x, "r") and self.key[x][0] == "trim":
                out.append(x)
                continue
            val, lo, hi = self.number(x)
            a, b = BOXES[i % 4]
            g = a + math.floor((val - a) / (b - a) * 64) / 64 * (b - a)
            g = max(a, min(b, g)) if a <= val <= b else g
            inside = lo >= a and hi <= b
            out.append(self.real(("trim", i, g), g, a if inside else -INF, b if inside else INF))
        return st.new(Obj("list", items=tuple(out)))

    # ------------------------------------------------ reads of stored objectives
    def holds(self, st, v):
        """the vectors (as representative numbers) the objective values in a container belong to"""
        if v[0] != "o":
            return None
        o = st.heap[v[1]]
        xs = [x for _, x in o.items] if o.kind == "dict" else o.items if o.kind == "list" else ()
        if not xs or not all(self.evkey(x) for x in xs):
            return None
        return {tuple(self.number(t)[0] for t in self.evkey(x)[1]) for x in xs}

    def record_vectors(self, st, b):
        o = st.heap[b[1]]
        parts = [x for _, x in o.items] if o.kind == "dict" else list(o.fields.values())
        out = set()
        for p in parts:
            if p[0] == "o" and st.heap[p[1]].kind == "list" and st.heap[p[1]].items and all(self.isnum(x) for x in st.heap[p[1]].items):
                its = st.heap[p[1]].items
                if len(its) == self.plan.dims and not any(self.evkey(x) for x in its):
                    out.add(tuple(self.number(x)[0] for x in its))
        return out

    def isdriver(self, cls):
        """the class of an algorithm: what it holds beside its individuals belongs to no single one of them"""
        ci = self.repo.classes.get(cls)
        return ci is not None and self.repo.find_method(ci, "step") is not None

    def read(self, st, b, v, n):
        if self.isdriver(st.heap[b[1]].cls):
            return
        have = self.holds(st, v)
        if have is None or st.heap[b[1]].cls in self.repo.classes and self.repo.find_method(self.repo.classes[st.heap[b[1]].cls], "__getitem__"):
            return
        vecs = self.record_vectors(st, b)
        if vecs and not have <= vecs and isinstance(getattr(n, "ctx", ast.Load()), ast.Load):
            self.stale.append((self.where(), getattr(n, "lineno", 0)))

    # ------------------------------------------------ draws
    def draw(self, *key):
        self.ndraw += 1
        return h01("draw", self.plan.seed, self.ndraw, *key)

    def unit(self):
        u = self.draw()
        style = self.plan.draws
        if style == "mixed":
            style = "edge" if self.draw("style") < 0.3 else "plain"
        if style == "edge":
            u = (0.0, 1e-12, 0.001, 0.4999, 0.5, 0.5001, 0.999, 1.0 - 1e-12, 1.0 - 2.0 ** -53, 2.0 ** -53)[int(u * 10)]
        elif style == "low":
            u *= 0.3
        elif style == "high":
            u = 0.6 + 0.39 * u
        return u

    def index(self, k):
        return min(k - 1, int(self.draw("i") * k))

    def fresh_real(self, v, lo=-INF, hi=INF):
        return self.real(("draw", self.ndraw), v, lo, hi)

    def ext(self, st, name, args, kw, n):
        if name.startswith("random.") and name.count(".") == 1:
            return self.rnd(st, name[7:], list(args), kw, n)
        if name.startswith("numpy.random."):
            return self.rnd(st, {"rand": "random", "random_sample": "random", "normal": "gauss"}.get(name[13:], name[13:]), list(args), kw, n)
        if name.startswith("math."):
            return self.maths(st, name[5:], args, n)
        if name.startswith(("numpy.", "scipy.")):
            r = self.numeric(st, name, args, kw, n)
            if r is not None:
                return r
        return super().ext(st, name, args, kw, n)

    def rnd(self, st, name, args, kw, n):
        if name == "random":
            u = self.unit()
            return [(st, self.fresh_real(u, 0.0, 1.0))]
        if name in ("uniform", "triangular"):
            a, b = ([kw.get("low", kw.get("a")), kw.get("high", kw.get("b"))] if len(args) < 2 else args[:2])
            x, y = self.number(a), self.number(b)
            u = self.unit()
            return [(st, self.fresh_real(x[0] + u * (y[0] - x[0]), min(x[1], y[1]), max(x[2], y[2])))]
        if name in ("gauss", "normalvariate"):
            m, s = (self.number(a)[0] for a in args[:2])
            u = self.unit()
            return [(st, self.fresh_real(m + s * (u - 0.5) * 6))]
        if name == "betavariate":
            return [(st, self.fresh_real(self.unit(), 0.0, 1.0))]
        if name in ("choice", "sample", "shuffle", "choices"):
            out = []
            for s, items in self.items_of(st, args[0], n):
                if isinstance(items, tuple):
                    out.append((s, items))
                    continue
                items = list(items)
                if name == "choice":
                    out.append((s, items[self.index(len(items))] if items else RAISE("IndexError")))
                elif name == "choices":
                    k = kw.get("k", K(1))[2]
                    out.append((s, s.new(Obj("list", items=tuple(items[self.index(len(items))] for _ in range(k))))))
                else:
                    k = (args[1] if len(args) > 1 else kw.get("k", K(len(items))))
                    if k[0] != "c":
                        raise TooComplex("sample of unknown size")
                    if k[2] > len(items) or k[2] < 0:
                        out.append((s, RAISE("ValueError", "sample larger than population")))
                        continue
                    got = []
                    for _ in range(k[2]):
                        got.append(items.pop(self.index(len(items))))
                    if name == "shuffle":
                        s.w(args[0][1]).items = tuple(got)
                        out.append((s, NONE))
                    else:
                        out.append((s, s.new(Obj("list", items=tuple(got)))))
            return out
        if name in ("randint", "randrange"):
            a = [x[2] for x in args if x[0] == "c"]
            if len(a) != len(args):
                raise TooComplex("randint of unknown bounds")
            r = range(*a) if name == "randrange" else range(a[0], a[1] + 1)
            return [(st, K(r[self.index(len(r))]) if len(r) else RAISE("ValueError"))]
        if name in ("seed", "setstate"):
            return [(st, NONE)]
        raise TooComplex("random.%s is not modelled" % name)

    def maths(self, st, name, args, n):
        if name in ("pow",):
            return self.binop(st, "**", args[0], args[1], n)
        if name == "fabs":
            return self.builtin(st, "abs", args, {}, n)
        if name in ("fsum",):
            return self.builtin(st, "sum", args, {}, n)
        if all(self.isnum(a) for a in args) and args:
            f = getattr(math, name, None)
            if f is not None:
                if all(a[0] == "c" for a in args):
                    try:
                        return [(st, K(f(*[a[2] for a in args])))]
                    except (ValueError, OverflowError) as e:
                        return [(st, RAISE(type(e).__name__))]
                if len(args) == 1:
                    v = self.fn1("math." + name, args[0], f, *((0.0, INF) if name in ("sqrt", "exp") else (-INF, INF)))
                    if name in ("floor", "ceil", "trunc"):
                        v = K(f(self.val[args[0]]))
                    elif name in ("isnan", "isinf", "isfinite"):
                        v = K(f(self.val[args[0]]))
                    return [(st, v)]
                try:
                    return [(st, self.real(("math." + name,) + tuple(args), f(*[self.number(a)[0] for a in args])))]
                except (ValueError, OverflowError) as e:
                    return [(st, RAISE(type(e).__name__))]
        return super().ext(st, "math." + name, args, {}, n)

    def total(self, st, items, n):
        acc = [(st, items[0] if items else K(0.0))]
        for x in items[1:]:
            acc = self.bind(acc, lambda s, a: self.binop(s, "+", a, x, n))
        return acc

    def euclid(self, st, xs, n):
        sq = [self.arith("*", x, x) if is_t(x, "r") else K(x[2] * x[2]) for x in xs]
        return self.bind(self.total(st, sq, n), lambda s, v: self.maths(s, "sqrt", [v], n))

    def numeric(self, st, name, args, kw, n):
        last = name.rsplit(".", 1)[1]
        ex = [self.exact(st, a) if a[0] in ("o", "tup", "c") else None for a in args]
        if last == "finfo":
            return [(st, T("x", "finfo"))]
        if last in ("array", "asarray") and ex and ex[0] is not None:
            if all(self.isnum(x) for x in ex[0]):
                return [(st, self.arr(st, ex[0]))]
            return [(st, st.new(Obj("list", items=tuple(ex[0]))))]
        if last == "dot" and ex[0] is not None and ex[1] is not None:
            ps = []
            for s, p in self.binop(st, "*", self.arr(st, ex[0]), self.arr(st, ex[1]), n):
                return self.total(s, self.exact(s, p), n)
        if last == "norm" and ex[0] is not None:
            return self.euclid(st, ex[0], n)
        if last == "euclidean" and ex[0] is not None and ex[1] is not None:
            for s, d in self.binop(st, "-", self.arr(st, ex[0]), self.arr(st, ex[1]), n):
                return self.euclid(s, self.exact(s, d), n)
        if last in ("sum", "min", "max", "amin", "amax") and ex and ex[0] is not None and all(self.isnum(x) for x in ex[0]) and "axis" not in kw:
            return self.builtin(st, {"amin": "min", "amax": "max"}.get(last, last), [args[0]], {}, n)
        if last in ("abs", "fabs", "absolute") and self.isnum(args[0]):
            return self.builtin(st, "abs", [args[0]], {}, n)
        if last in ("sqrt", "exp", "log", "floor", "ceil") and self.isnum(args[0]):
            return self.maths(st, last, args, n)
        if last == "clip" and len(args) == 3 and self.isnum(args[0]):
            return self.bind(self.builtin(st, "max", [args[1], args[0]], {}, n), lambda s, v: self.builtin(s, "min", [args[2], v], {}, n))
        if last in ("minimum", "maximum") and all(self.isnum(a) for a in args):
            return self.builtin(st, last[:3], args, {}, n)
        if last == "zeros" and args and args[0][0] == "c":
            return [(st, self.arr(st, [K(0.0)] * args[0][2]))]
        return None


# ------------------------------------------------ building and running
ALGOS = {
    "SPEA2": ("algorithms.SPEA2.SPEA2.SPEA2", {}),
    "NSGAII": ("algorithms.NSGAII.NSGAII.NSGAII", {"mating_population_size": K(1.0)}),
    "JGBL": ("algorithms.JGBL.JGBL.JGBL", {"mating_population_size": K(1.0), "jumping_rate": K(0.7), "jumping_percentage": K(0.5)}),
    "IBEA": ("algorithms.IBEA.IBEA.IBEA", {"mating_population_size": K(1.0), "kappa": K(1.0)}),
    "SMSEMOA": ("algorithms.SMSEMOA.SMSEMOA.SMSEMOA", {}),
    "OMOPSO": ("algorithms.OMOPSO.OMOPSO.OMOPSO", {"mutation_probability": K(0.4), "mutation_perturbation": K(0.5)}),
    "NSGAIII": ("algorithms.NSGAIII.NSGAIII.NSGAIII", {}),
    "NSLS": ("algorithms.NSLS.NSLS.NSLS", {}),
}


def lst(st, items):
    return st.new(Obj("list", items=tuple(items)))


def start(fl, plan):
    """a state with the caller's population, box, objectives; fl.given maps parameter names to values"""
    fl.plan = plan
    fl.reset()
    st = fl.start()
    vecs = []
    for j in range(plan.n):
        src = j - 1 if plan.twins and j in (1, 3) else j
        items = []
        for i in range(plan.dims):
            lo, hi = BOXES[i % 4]
            u = h01("pop", plan.seed, src, i)
            if h01("popedge", plan.seed, src, i) < 0.15:
                u = 0.0 if u < 0.5 else 1.0
            if plan.trim:
                u = math.floor(u * 64) / 64
            items.append(fl.real(("x0", src, i), min(hi, max(lo, lo + u * (hi - lo))), lo, hi))
        vecs.append(lst(st, items))
    ref = lst(st, [K(30.0)] * plan.nobj) if plan.seed % 2 else K(tuple([30.0] * plan.nobj))
    fl.given = {
        "population": lst(st, vecs), "dims": lst(st, [K(BOXES[i % 4]) for i in range(plan.dims)]), "fitnesses": lst(st, [T("objf", c) for c in range(plan.nobj)]),
        "mutation_eta": K(20.0 if plan.seed % 3 else 2.0), "crossover_eta": K(30.0 if plan.seed % 3 else 1.0), "mutation_rate": K(0.9 if plan.seed % 2 else 0.4), "crossover_rate": K(0.8),
        "reference_point": ref, "epoch_length_multiplier": K(1.0 / plan.n),
    }
    if plan.trim:
        fl.given["trim_function"] = T("x", "trim")
    fl.given.update(ALGOS.get(plan.algo, ("", {}))[1])
    fl.given.update({k: v for k, v in plan.given.items() if isinstance(v, tuple)})
    fl.vecs = vecs
    return st


def ctor_kwargs(fl, qual, given):
    """the arguments a constructor takes, along its chain of classes"""
    ci = fl.repo.classes.get(qual)
    m = fl.repo.find_method(ci, "__init__") if ci else None
    if m is None:
        raise TooComplex("no constructor of %s" % qual)
    names = [a.arg for a in m[1].args.args[1:] + m[1].args.kwonlyargs]
    return {k: v for k, v in given.items() if k in names}


def single(results, what, fl):
    good = []
    for s, v in results:
        if is_raise(v):
            raise Raised(what, v, s)
        good.append((s, v))
    if len(good) != 1:
        raise TooComplex("%s: %d outcomes" % (what, len(good)))
    return good[0]


class Raised(Exception):
    def __init__(self, what, v, st=None):
        super().__init__("%s raises %s%s" % (what, v[1], "" if len(v) < 3 or v[2] is None else ": %s" % (v[2],)))
        self.v, self.st, self.what = v, st, what


def cache(fl, st, plan):
    """a shared result cache that already knows some of the caller's vectors"""
    q = "algorithms.HGS.tools.ResultArchive"
    if q not in fl.repo.classes:
        raise TooComplex("no ResultArchive")
    st, a = single(fl.instantiate(st, q, [], {}, fl.repo.classes[q].node), "ResultArchive()", fl)
    if plan.archive == "warm":
        for j in (0, 2):
            if j < plan.n:
                items = tuple(st.heap[fl.vecs[j][1]].items)
                val = lst(st, [fl.objective(c, items) for c in range(plan.nobj)])
                st, _ = single(fl.setitem(st, a, fl.vecs[j], val, fl.repo.classes[q].node), "ResultArchive[...] =", fl)
    return st, a


def construct(fl, st, plan):
    qual, _ = ALGOS[plan.algo]
    fl.archive = None
    if plan.archive:
        st, fl.archive = cache(fl, st, plan)
        fl.given["fitness_archive"] = fl.archive
    return single(fl.instantiate(st, qual, [], ctor_kwargs(fl, qual, fl.given), fl.repo.classes[qual].node), "the constructor", fl)


def attr(fl, st, obj, name, what=None):
    return single(fl.getattr(st, obj, name, None), what or name, fl)


def invoke(fl, st, obj, name, args=()):
    st, f = attr(fl, st, obj, name)
    return single(fl.call(st, f, list(args), {}, None), name + "()", fl)


def elements(fl, st, v):
    r = fl.items_of(st, v, None)
    if len(r) != 1 or isinstance(r[0][1], tuple):
        raise TooComplex("cannot be iterated: %s" % show(v))
    return r[0][0], list(r[0][1])


def vectors(fl, st, v):
    """[(oid, values)] of a population"""
    st, xs = elements(fl, st, v)
    out = []
    for x in xs:
        its = fl.exact(st, x)
        if its is None or not all(fl.isnum(t) for t in its):
            raise TooComplex("not a vector: %s" % show(x))
        out.append((x[1] if x[0] == "o" else x, tuple(its)))
    return st, out


def values(fl, items):
    return tuple(fl.number(x)[0] for x in items)


def reachable(fl, st, root):
    seen, todo = set(), [root]
    while todo:
        v = todo.pop()
        if v[0] == "tup":
            todo.extend(v[1])
        if v[0] in ("bm", "partial"):
            todo.extend(x for x in v[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))
        if v[0] != "o" or v[1] in seen or v[1] not in st.heap:
            continue
        seen.add(v[1])
        o = st.heap[v[1]]
        if o.kind == "env":
            continue
        if o.kind == "dict":
            for k, x in o.items:
                todo += [k, x]
        else:
            todo += list(o.items)
        todo += [x for x in o.fields.values() if isinstance(x, tuple)]
    return seen


ALGOS["BOGO"] = ("algorithms.BOGO.BOGO.BOGO", {"mutation_variance": K(0.1), "crossover_variance": K(0.1)})
MOVING = ("OMOPSO",)                       # positions of particles are what moves; their archives are not
ADAPTERS = {a: "algorithms.%s.message.%sIMGAMessageAdapter" % (a, a) for a in ALGOS if a != "BOGO"}


class Mark:
    def __init__(self, label, st, pop, final, cost, islands=()):
        self.label, self.st, self.pop, self.final, self.cost, self.at, self.islands = label, st, pop, final, cost, len(st.trace), islands


class History:
    def __init__(self, plan):
        self.plan, self.marks, self.error, self.hang, self.driver, self.archive = plan, [], None, None, None, None

    def period(self, i):
        """events between mark i-1 and mark i"""
        tr = self.marks[i].st.trace
        return tr[(self.marks[i - 1].at if i else 0):self.marks[i].at]


def island_driver(fl, plan):
    """the constructor an island is made with, parameters bound as the factory binds them"""
    base = plan.algo.split("+")[1]
    qual, extra = ALGOS[base]
    kw = dict(extra)
    for k in ("reference_point", "epoch_length_multiplier"):
        if k in ctor_kwargs(fl, qual, fl.given):
            kw[k] = fl.given[k]
    return ("partial", ("cls", qual), (), tuple(kw.items())) if kw else ("cls", qual)


def construct_imga(fl, st, plan):
    base = plan.algo.split("+")[1]
    q = "algorithms.IMGA.IMGA.IMGA"
    adapter = ADAPTERS[base]
    mod, name = adapter.rsplit(".", 1)
    m = fl.repo.modules.get(mod)
    r = fl.repo.resolve_global(m, name) if m else None
    if r is None:
        raise TooComplex("no adapter %s" % adapter)
    st, av = next(iter(fl.global_name(st, m, name)))
    given = dict(fl.given)
    given.update({"islands_number": K(plan.given.get("islands", 3)), "migrants_number": K(plan.given.get("migrants", 2)), "epoch_length": K(plan.given.get("epoch", 1)),
                  "driver": island_driver(fl, plan), "driver_message_adapter_factory": av})
    return single(fl.instantiate(st, q, [], ctor_kwargs(fl, q, given) | {k: given[k] for k in ("driver_message_adapter_factory",)}, fl.repo.classes[q].node), "the constructor", fl)


def snapshot(fl, st, d, label, final=None):
    s = st.copy()
    pop = None
    r = fl.getattr(s, d, "population", None)
    if len(r) == 1 and not is_raise(r[0][1]) and r[0][1][0] == "o":
        s, pop = vectors(fl, s, r[0][1])
    cost = attr(fl, s, d, "cost")[1]
    islands = []
    if "+" in fl.plan.algo:
        for o in inner_drivers(fl, s, d):
            s, p = attr(fl, s, ("o", o), "population")
            s, vs = vectors(fl, s, p)
            islands.append((o, vs, attr(fl, s, ("o", o), "cost")[1]))
    m = Mark(label, st.copy(), pop, final, cost, islands)
    m.before, m.driver = None, d
    if fl.stepped is not None:
        s, m.before = fl.stepped, []
        for o in inner_drivers(fl, s, d):
            s, p = attr(fl, s, ("o", o), "population")
            s, vs = vectors(fl, s, p)
            m.before.append((o, vs))
    fl.stepped = None
    return m


def inner_drivers(fl, st, d):
    """the algorithms a composite one drives, in the order they were made"""
    qual = ALGOS[fl.plan.algo.split("+")[1]][0]
    return sorted(o for o in reachable(fl, st, d) if st.heap[o].kind == "inst" and st.heap[o].cls == qual)


def history(fl, plan):
    h = History(plan)
    st = None
    try:
        st = start(fl, plan)
        h.given = st.copy()
        h.caller = {"vector": [v[1] for v in fl.vecs], "population": [fl.given["population"][1]], "dims": [fl.given["dims"][1]], "fitnesses": [fl.given["fitnesses"][1]]}
        imga = plan.algo.startswith("IMGA+")
        st, d = construct_imga(fl, st, plan) if imga else construct(fl, st, plan)
        h.driver, h.archive = d, fl.archive
        if plan.seed % 2 and plan.algo == "OMOPSO":
            st, _ = single(fl.setattr(st, d, "max_budget", K(40), None), "max_budget", fl)
        h.marks.append(snapshot(fl, st, d, "construction"))
        for i in range(plan.steps):
            st, _ = invoke(fl, st, d, "step")
            h.marks.append(snapshot(fl, st, d, "step %d" % (i + 1)))
            if plan.finals == "every" or i == plan.steps - 1:
                st, f = invoke(fl, st, d, "finalized_population")
                st, vs = vectors(fl, st, f)
                h.marks.append(snapshot(fl, st, d, "finalized population %d" % (i + 1), vs))
    except Raised as e:
        h.error, h.last = e, e.st
    except TooComplex as e:
        if fl.hang is None:
            raise
        h.hang = fl.hang
    return h


# ------------------------------------------------ judges: [(rule, what, message)]
def fmt(vals):
    return "(%s)" % ", ".join("%.4g" % x for x in vals)


def inside(fl, items, dims, tally):
    if len(items) != dims:
        return "has %d coordinates in a box of %d" % (len(items), dims)
    for i, x in enumerate(items):
        v, lo, hi = fl.number(x)
        a, b = BOXES[i % 4]
        if not (a <= v <= b):
            return "has coordinate %d = %r outside [%g, %g]" % (i, v, a, b)
        tally["proved" if lo >= a and hi <= b else "represented"] = tally.get("proved" if lo >= a and hi <= b else "represented", 0) + 1
    return None


def judge_box(fl, h, tally):
    if h.error or h.hang:
        last = h.marks[-1].st if h.marks else h.given
    tr = h.marks[-1].st.trace if h.marks else ()
    if h.error is not None and h.error.st is not None:
        tr = h.error.st.trace
    seen = set()
    for e in tr:
        if e[0] == "eval" and e[3] not in seen:
            seen.add(e[3])
            err = inside(fl, e[3], h.plan.dims, tally)
            if err:
                return "box", e[4], "a vector handed to the objectives in %s (line %s) %s" % (e[4], e[5], err)
    for m in h.marks:
        for what, vs in (("the population after", m.pop), ("the", m.final)):
            for oid, items in vs or ():
                if items in seen:
                    continue
                seen.add(items)
                err = inside(fl, items, h.plan.dims, tally)
                if err:
                    return "box", "%s" % h.plan.algo, "a vector in %s %s %s" % (what, m.label, err)
    return None


def judge_copies(fl, h, tally):
    plan = h.plan
    moving = plan.algo.split("+")[-1] in MOVING
    last = h.error.st if h.error is not None and h.error.st is not None else h.marks[-1].st if h.marks else None
    if last is None:
        return None
    for what, oids in h.caller.items():
        for o in oids:
            tally["caller's"] = tally.get("caller's", 0) + 1
            if last.heap[o].items != h.given.heap[o].items:
                w = next((e for e in last.trace if e[0] == "write" and e[1] == o), None)
                return "caller", plan.algo, "the caller's %s is changed in place%s" % (what, " in %s (line %s)" % (w[2], w[3]) if w else "")
    # lists that were evaluated, and lists kept in the driver's state
    evaluated = {}
    for k, e in enumerate(last.trace):
        if e[0] == "eval" and e[2] is not None:
            evaluated.setdefault(e[2], k)
        elif e[0] == "write" and e[1] in evaluated and not moving:
            return "evaluated", plan.algo, "a vector is changed in place in %s (line %s) after its objectives were computed" % (e[2], e[3])
    tally["evaluated"] = tally.get("evaluated", 0) + len(evaluated)
    for a, b in zip(h.marks, h.marks[1:]):
        kept = set()
        mine = {o for o, _ in list(a.pop or ()) + [x for _, vs, _ in a.islands for x in vs]} if moving else set()
        for o in reachable(fl, a.st, h.driver):
            ob = a.st.heap[o]
            if ob.kind == "list" and len(ob.items) == plan.dims and o not in mine and ob.items and all(fl.isnum(x) for x in ob.items) and not statistics(fl, ob) and not statistics(fl, b.st.heap[o]):
                kept.add(o)
        for o in kept:
            if moving and speed_like(a.st, o):
                continue
            tally["kept"] = tally.get("kept", 0) + 1
            if b.st.heap[o].items != a.st.heap[o].items:
                w = [e for e in b.st.trace[a.at:] if e[0] == "write" and e[1] == o]
                return "kept", plan.algo, "a vector kept by the algorithm is changed in place%s" % (" in %s (line %s)" % (w[0][2], w[0][3]) if w else "")
    # what remembers a position must not be the particle that moves on
    if moving:
        for m in h.marks:
            if m.label.startswith("final"):
                continue
            err = remembered(fl, h, m, tally)
            if err:
                return "shared", plan.algo, err
    # no vector is shared by two individuals of the population
    for m in h.marks:
        for what, vs in (("population", m.pop), ("returned population", m.final)):
            oids = [o for o, _ in vs or ()] or [o for _, p, _ in m.islands for o, _ in p]
            if moving and len(set(oids)) != len(oids):
                return "shared", plan.algo, "two individuals of the %s share one vector that moves" % what
    return None


def remembered(fl, h, m, tally):
    """a particle that moves, or its position, that is reached by another way than through the population"""
    st = m.st
    mine = {o for o, _ in list(m.pop or ()) + [x for _, vs, _ in m.islands for x in vs]}
    reach = reachable(fl, st, h.driver)
    owners = {}
    for o in reach:
        ob = st.heap[o]
        if ob.kind == "inst":
            for k, v in ob.fields.items():
                if v[0] == "o" and v[1] in mine:
                    owners.setdefault(v[1], []).append((o, k))
    particles = {o for ws in owners.values() for o, _ in ws}
    for o in mine:
        tally["positions"] = tally.get("positions", 0) + 1
        if len(owners.get(o, ())) > 1:
            return "the position of a particle is shared by %s and moves under both (after %s)" % (
                " and ".join(sorted("%s.%s" % (st.heap[w].cls.split(".")[-1], k) for w, k in owners[o])), m.label)
    for o in reach:
        ob = st.heap[o]
        if ob.kind == "inst":
            for k, v in ob.fields.items():
                if v[0] == "o" and v[1] in particles:
                    return "%s.%s remembers a particle that moves on, not a copy of it (after %s)" % (ob.cls.split(".")[-1], k, m.label)
        elif ob.kind == "list":
            held = {v[1] for v in ob.items if v[0] == "o" and v[1] in particles}
            if held and held != particles and not any(held == {w for o2, _ in vs for w, _ in owners.get(o2, ())} for _, vs, _ in m.islands):
                return "a collection other than the population remembers a particle that moves on, not a copy of it (after %s)" % m.label
    return None


def statistics(fl, ob):
    """numbers about the objectives rather than coordinates"""
    return any(fl.evkey(x) or x[0] == "c" and isinstance(x[2], float) and abs(x[2]) == INF for x in ob.items)


def speed_like(st, o):
    """the list is a field of a particle next to its position: something that moves too"""
    for ob in st.heap.values():
        if ob.kind == "inst" and any(v == ("o", o) and k != "value" for k, v in ob.fields.items()):
            return True
    return False


def judge_objectives(fl, h, tally):
    plan = h.plan
    if fl.stale:
        w, line = fl.stale[0]
        return "read", w, "%s (line %s) reads objective values that belong to another vector than the individual's" % (w, line)
    for m in h.marks:
        for o in reachable(fl, m.st, h.driver):
            ob = m.st.heap[o]
            if ob.kind not in ("inst", "dict"):
                continue
            ci = fl.repo.classes.get(ob.cls) if ob.kind == "inst" else None
            if ci is not None and (fl.repo.find_method(ci, "__getitem__") or fl.isdriver(ob.cls)):
                continue
            parts = [(k, v) for k, v in (ob.fields.items() if ob.kind == "inst" else ob.items)]
            if ob.kind == "dict" and any(k[0] == "tup" for k, _ in parts):
                # a cache: the key is the vector
                for k, v in parts:
                    have = fl.holds(m.st, v)
                    if have is None or k[0] != "tup":
                        continue
                    tally["cached"] = tally.get("cached", 0) + 1
                    if have != {values(fl, k[1])}:
                        return "cache", plan.algo, "after %s the result cache holds for the vector %s the objective values of %s" % (m.label, fmt(values(fl, k[1])), fmt(next(iter(have))))
                continue
            for k, v in parts:
                have = fl.holds(m.st, v)
                if have is None:
                    continue
                vecs = fl.record_vectors(m.st, ("o", o))
                if not vecs:
                    continue
                tally["records"] = tally.get("records", 0) + 1
                n = len(m.st.heap[v[1]].items)
                if n != plan.nobj:
                    return "record", plan.algo, "after %s an individual stores %d objective values of %d" % (m.label, n, plan.nobj)
                if not have <= vecs:
                    return "record", plan.algo, "after %s an individual at %s stores the objective values of %s" % (m.label, fmt(sorted(vecs)[0]), fmt(next(iter(have - vecs))))
                order = objective_order(fl, m.st, v)
                if order is not None and order != list(range(plan.nobj)):
                    return "record", plan.algo, "after %s the objective values of an individual are stored in the order %s" % (m.label, order)
    return None


def objective_order(fl, st, v):
    o = st.heap[v[1]]
    if o.kind == "list":
        return [fl.evkey(x)[0] for x in o.items]
    return [fl.evkey(x)[0] if is_t(k, "objf") and k[2] == fl.evkey(x)[0] else -1 for k, x in o.items]


def judge_cost(fl, h, tally):
    plan = h.plan
    base = plan.algo.split("+")[-1]
    if h.error or h.hang:
        return None
    seen, cached, total = set(), set(), 0
    if h.archive is not None and plan.archive == "warm":
        cached = {values(fl, k[1]) for o in reachable(fl, h.marks[0].st, h.archive) for k, _ in (h.marks[0].st.heap[o].items if h.marks[0].st.heap[o].kind == "dict" else ()) if k[0] == "tup"}
        cached &= {values(fl, h.given.heap[o].items) for o in h.caller["vector"]}
    prev = 0
    for i, m in enumerate(h.marks):
        news, per = 0, {}
        for e in h.period(i):
            if e[0] != "eval" or e[4].startswith("algorithms.IMGA."):
                continue
            per[e[1]] = per.get(e[1], 0) + 1
            if e[1] == 0:
                if base in MOVING:
                    news += 1
                elif e[2] not in seen:
                    seen.add(e[2])
                    if not (base == "IBEA" and plan.archive and values(fl, e[3]) in cached):
                        news += 1
        if len(set(per.values())) > 1 or per and len(per) != plan.nobj:
            return "cost", plan.algo, "during %s the objectives are computed %s times" % (m.label, sorted(per.items()))
        total += news
        if m.cost[0] != "c":
            raise TooComplex("the cost is not a number: %s" % show(m.cost))
        if plan.algo.startswith("IMGA+") and i == 0:
            if m.cost[2] > total or m.cost[2] < 0:
                return "cost", plan.algo, "after construction %s is reported for %d evaluations" % (m.cost[2], total)
        elif m.cost[2] != total and not (plan.algo.startswith("IMGA+") and m.label.startswith("finalized") and news):
            return "cost", plan.algo, "after %s the reported cost is %s; %d individuals have had their objectives computed" % (m.label, m.cost[2], total)
        if m.cost[2] < prev:
            return "cost", plan.algo, "the cost falls from %s to %s in %s" % (prev, m.cost[2], m.label)
        prev = m.cost[2]
        tally["charged"] = tally.get("charged", 0) + news
    return None


def allowed_sizes(fl, plan):
    n, base = plan.n, plan.algo.split("+")[-1]
    m = int(plan.given.get("mating", 1.0) * n)
    return {"NSGAII": {n + m}, "IBEA": {n + m}, "JGBL": {n, n + m}}.get(base, {n})


def judge_sizes(fl, h, tally):
    plan = h.plan
    if h.error is not None:
        return "error", plan.algo, "%s" % h.error
    if h.hang is not None:
        return None
    evaluated = set()
    before = None
    for i, m in enumerate(h.marks):
        for e in h.period(i):
            if e[0] == "eval":
                evaluated.add(values(fl, e[3]))
        if h.archive is not None:
            for o in reachable(fl, m.st, h.archive):
                if m.st.heap[o].kind == "dict":
                    evaluated |= {values(fl, k[1]) for k, _ in m.st.heap[o].items if k[0] == "tup"}
        if m.pop is not None and m.label.startswith("step"):
            tally["steps"] = tally.get("steps", 0) + 1
            if len(m.pop) not in allowed_sizes(fl, plan):
                return "size", plan.algo, "%s ends with %d individuals to work on; it was given %d" % (m.label, len(m.pop), plan.n)
        if m.pop is not None:
            oids = [o for o, _ in m.pop]
            if len(set(oids)) != len(oids):
                return "twice", plan.algo, "after %s an individual is in the population twice" % m.label
        if m.final is not None:
            tally["finals"] = tally.get("finals", 0) + 1
            if plan.algo.split("+")[-1] not in ("OMOPSO", "BOGO") and len(m.final) != plan.n:
                return "size", plan.algo, "the %s has %d individuals; the algorithm was given %d" % (m.label, len(m.final), plan.n)
            if not m.final:
                return "size", plan.algo, "the %s is empty" % m.label
            oids = [o for o, _ in m.final]
            if len(set(oids)) != len(oids):
                return "twice", plan.algo, "an individual is in the %s twice" % m.label
            for o, items in m.final:
                if values(fl, items) not in evaluated:
                    return "invented", plan.algo, "the %s holds a vector whose objectives were never computed" % m.label
            # the returned ones were there before
            if before is not None and plan.algo in ("NSGAII", "JGBL", "IBEA"):
                pool = [values(fl, x) for _, x in before]
                for _, x in m.final:
                    if values(fl, x) not in pool:
                        return "invented", plan.algo, "the %s holds an individual that was not among parents and offspring" % m.label
                    pool.remove(values(fl, x))
        before = m.pop
    return None


def objvec(fl, vals_items, nobj):
    return tuple(fl.val[fl.objective(c, vals_items)] for c in range(nobj))


def dominates(a, b):
    return all(x <= y for x, y in zip(a, b)) and any(x < y for x, y in zip(a, b))


def judge_elite(fl, h, tally):
    """of two individuals that competed, the dominated one did not survive alone"""
    plan = h.plan
    if h.error is not None or h.hang is not None:
        return None
    prev, archive = None, []

    def better(x, y):
        tally["pairs"] = tally.get("pairs", 0) + 1
        a, b = (objvec(fl, z, plan.nobj) for z in (x, y))
        if not dominates(a, b):
            return False
        tally["dominated pairs"] = tally.get("dominated pairs", 0) + 1
        return True

    def judge(m, pool, after, how):
        """the survivors among those that competed, by identity or as a multiset of vectors"""
        if how == "identity":
            now = {o for o, _ in after}
            kept, lost = [x for o, x in pool if o in now], [x for o, x in pool if o not in now]
        else:
            left = collections.Counter(values(fl, x) for _, x in after)
            kept, lost = [], []
            for _, x in pool:
                v = values(fl, x)
                (kept if left[v] > 0 else lost).append(x)
                left[v] -= 1
        # a tally of the comparisons that mattered: a dominated pair of which at least one was dropped
        if any(better(d, k) for d in lost for k in kept):
            return "elite", plan.algo, "%s drops an individual and keeps one that it dominates" % m.label
        tally["judged"] = tally.get("judged", 0) + (1 if lost and kept else 0)
        return None

    for i, m in enumerate(h.marks):
        bad = None
        if prev is not None:
            if plan.algo == "SPEA2":
                if m.final is not None:
                    if archive is not None and h.marks[i - 1].label.startswith("step") and i >= 2:
                        bad = judge(m, archive + before, m.final, "values")
                    archive = m.final
                else:
                    archive, before = (archive if h.marks[i - 1].final is not None or i == 1 else None), prev
            elif plan.algo in ("NSGAII", "JGBL", "IBEA") and m.final is not None:
                bad = judge(m, prev, m.final, "values")
            elif plan.algo == "SMSEMOA" and m.final is None:
                new = [(e[2], e[3]) for e in h.period(i) if e[0] == "eval" and e[1] == 0]
                bad = judge(m, prev + new, m.pop, "values") if len(new) == 1 else judge(m, prev, m.pop, "identity")
            elif plan.algo == "NSGAIII" and m.final is None:
                bad = theta(fl, m, prev + [(e[2], e[3]) for e in h.period(i) if e[0] == "eval"], tally)
            elif plan.algo in ("NSGAII", "JGBL", "IBEA", "NSLS") and m.final is None:
                bad = judge(m, prev, m.pop, "identity")
        if bad:
            return bad
        prev = m.pop
    return None


def theta(fl, m, pool, tally):
    """the ranking of one cluster: a smaller scalarised value, where the individuals carry one"""
    mine, now = {o for o, _ in pool}, {o for o, _ in m.pop}
    got = []
    for o in m.st.heap.values():
        if o.kind == "inst" and "theta_fitness" in o.fields and "cluster" in o.fields:
            v = next((x[1] for x in o.fields.values() if x[0] == "o" and x[1] in mine), None)
            f = fl.number(o.fields["theta_fitness"])
            if v is not None and f is not None:
                got.append((v in now, o.fields["cluster"], f[0]))
    for dk, dc, df in got:
        for kk, kc, kf in got:
            if not dk and kk and dc == kc:
                tally["theta pairs"] = tally.get("theta pairs", 0) + 1
                if df < kf:
                    return "elite", "NSGAIII", "%s drops an individual and keeps a worse one of the same direction" % m.label
    return None


def judge_migration(fl, h, tally):
    plan = h.plan
    if h.error is not None:
        return "error", plan.algo, str(h.error)
    if h.hang is not None or not h.marks:
        return None
    bag = lambda groups: collections.Counter(values(fl, x) for g in groups for _, x in g)
    first = [vs for _, vs, _ in h.marks[0].islands]
    if len(first) != plan.given.get("islands", 3):
        return "dealt", plan.algo, "%d islands are made; %d were asked for" % (len(first), plan.given.get("islands", 3))
    given = collections.Counter(values(fl, h.given.heap[o].items) for o in h.caller["vector"])
    if bag(first) != given:
        return "dealt", plan.algo, "of %d individuals %d are dealt to the islands" % (sum(given.values()), sum((bag(first) & given).values()))
    if max(map(len, first)) - min(map(len, first)) > 1:
        return "dealt", plan.algo, "the islands start with %s individuals" % [len(x) for x in first]
    for m in h.marks:
        if m.before is None:
            continue
        pre, post = {o: vs for o, vs in m.before}, {o: vs for o, vs, _ in m.islands}
        tally["exchanges"] = tally.get("exchanges", 0) + 1
        a, b = bag(pre.values()), bag(post.values())
        if a != b:
            lost, extra = sum((a - b).values()), sum((b - a).values())
            return "conserved", plan.algo, "in the exchange of %s %s" % (m.label, "%d individuals are lost" % lost if lost and not extra else "%d individuals arrive more often than they left" % extra if extra and not lost else "%d individuals are lost and %d added" % (lost, extra))
        for o in pre:
            if len(post.get(o, ())) != len(pre[o]):
                return "conserved", plan.algo, "in the exchange of %s an island of %d individuals is left with %d" % (m.label, len(pre[o]), len(post.get(o, ())))
        oids = [v for vs in post.values() for v, _ in vs]
        if len(set(oids)) != len(oids):
            return "twice", plan.algo, "after the exchange of %s an individual is on two islands" % m.label
        for o in pre:
            was = {v for v, _ in pre[o]}
            tally["migrants"] = tally.get("migrants", 0) + sum(1 for v, _ in post[o] if v not in was)
    return None


def judge_ends(fl, h, tally):
    if h.hang is not None:
        where, line = h.hang
        return "ends", where, "a loop in %s (line %s) does not end after %s" % (where, line, h.marks[-1].label if h.marks else "the constructor was called")
    tally["loops"] = tally.get("loops", 0) + 1
    return None
