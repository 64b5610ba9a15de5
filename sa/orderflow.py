"""Order-type abstraction: objective values are known only by how they compare.

Members of a set get objective vectors whose components are symbols; the only thing known about two
symbols is which of <, =, > holds between them.  All finitely many ways in which m members can be
ordered component-wise are enumerated, and the comparison outcome of every path through the real
code (helpers inlined) is the one the abstraction dictates.  No numbers are involved: the result
stands for all real-valued objective vectors with that order type.
"""
import itertools

from . import flow
from .flow import K, T, TUP, Obj, Flow, is_raise, TooComplex, is_t
from fractions import Fraction


def weak_orders(m):
    """all ways to rank m things with ties"""
    out = []
    for r in itertools.product(range(m), repeat=m):
        k = set(r)
        if k == set(range(len(k))):
            out.append(r)
    return out


def val(c, r):
    return T("val", c, r)


class OrderFlow(Flow):
    sort_compare = True
    ncomp = 2
    nrank = 3

    def while_limit(self, st, n):
        return 12

    def recursion_limit(self, qual):
        return 8

    def rank_state(self, ncomp, nrank):
        st = self.start()
        for c in range(ncomp):
            for a, b in itertools.combinations(range(nrank), 2):
                sign, key = flow.canon_lin({val(c, a): Fraction(1), val(c, b): Fraction(-1)}, Fraction(0))
                st.facts[("sgn", key)] = frozenset("<" if sign > 0 else ">")
        return st

    def numcast(self, st, name, args, n):
        if name == "float" and args and is_t(args[0], "val"):
            return [(st, args[0])]

    def finite(self, st, v):
        return is_t(v, "val") or is_t(v, "lin")

    def copy_term(self, u):
        return u

    # objective functions: opaque callables known by their index; vectors known by their member
    def opaque_call(self, st, fv, args, kw, n):
        if is_t(fv, "objf") and args:
            m = self.member_of(st, args[0])
            if m is not None:
                return [(st, val(fv[2], self.ranks[fv[2]][m]))]
        return super().opaque_call(st, fv, args, kw, n)

    ranks = ()

    def member_of(self, st, v):
        for x in (self.exact(st, v) or ()):
            if is_t(x, "coord"):
                return x[2]
        return None

    def vector(self, st, m, length=2):
        return st.new(Obj("list", items=tuple(T("coord", m, i) for i in range(length))))

    def lst(self, st, items):
        return st.new(Obj("list", items=tuple(items)))


def dom(ranks, x, y):
    """does member x dominate member y"""
    return all(r[x] <= r[y] for r in ranks) and any(r[x] < r[y] for r in ranks)


def layers(ranks, members):
    left, out = list(members), []
    while left:
        f = [x for x in left if not any(dom(ranks, y, x) for y in left)]
        out.append(f)
        left = [x for x in left if x not in f]
    return out


def describe(ranks, members):
    return "; ".join("m%d=(%s)" % (m, ",".join("r%d" % r[m] for r in ranks)) for m in members)


def make_driver(fl, st, qual, vectors, ncomp, given=None, dims=2):
    """instantiate a driver class on the given vectors; other required parameters are opaque"""
    ci = fl.repo.cls(qual)
    m = fl.repo.find_method(ci, "__init__")
    if m is None:
        raise TooComplex("no constructor in %s" % qual)
    a = m[1].args
    names = [x.arg for x in a.args[1:]] + [x.arg for x in a.kwonlyargs]
    ndef = len(a.defaults)
    required = [x.arg for x in a.args[1:]][: len(a.args) - 1 - ndef] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    pool = {
        "population": lambda: fl.lst(st, vectors),
        "dims": lambda: fl.lst(st, [TUP((T("lo", i), T("hi", i))) for i in range(dims)]),
        "fitnesses": lambda: fl.lst(st, [T("objf", c) for c in range(ncomp)]),
        "objectives": lambda: fl.lst(st, [T("objf", c) for c in range(ncomp)]),
    }
    kw = {}
    for n in names:
        if given and n in given:
            kw[n] = given[n]
        elif n in required:
            kw[n] = pool[n]() if n in pool else T("param", n)
    return fl.instantiate(st, qual, [], kw, m[1])


def call_method(fl, st, obj, name, args, node=None):
    """-> [(st, value)]; AttributeError shows as a raise value"""
    return fl.bind(fl.getattr(st, obj, name, node), lambda s, f: fl.call(s, f, args, {}, node))


def single(results):
    """the only non-raising outcome, or None"""
    good = [r for r in results if not is_raise(r[1])]
    return good[0] if len(good) == 1 and len(results) == 1 else None
