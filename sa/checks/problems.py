"""The problem definitions: every problem module evaluated over intervals."""
import ast
import math

from ..ranges import D, Dead, Ext, Fn, Frame, Iv, L, Mod, Part, Ranges, Undecided, hi, is_num, lo

PKG = "problems"


class Problem:
    def __init__(self, name, module):
        self.name, self.module = name, module
        self.where = module.rel
        self.r = None
        self.env = None
        self.problem = None      # why it could not be evaluated
        self.failed = None       # the operation that certainly fails when it is imported
        self.dims = None
        self.fits = []

    def construct(self, i):
        f = self.fits[i]
        while isinstance(f, Part):
            f = f.f
        return "%s objective %d (%s)" % (self.name, i + 1, getattr(f, "name", "?"))


def load(repo):
    out = []
    for mname in sorted(repo.modules):
        parts = mname.split(".")
        if len(parts) != 3 or parts[0] != PKG or parts[2] != "problem":
            continue
        p = Problem(parts[1], repo.modules[mname])
        p.r = Ranges(repo, budget=40000000)
        try:
            p.env = p.r.module(p.module)
        except Dead:
            p.failed = p.r.errors[-1]
            out.append(p)
            continue
        except (Undecided, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, OverflowError) as e:
            p.problem = "%s: %s" % (type(e).__name__, e)
            out.append(p)
            continue
        p.load_errors = list(p.r.errors)
        d = p.env.get("dims")
        if isinstance(d, L) and all(isinstance(x, L) and len(x.items) == 2 and all(is_num(y) and not isinstance(y, Iv) for y in x.items) for x in d.items):
            p.dims = [(float(x.items[0]), float(x.items[1])) for x in d.items]
        f = p.env.get("fitnesses")
        if isinstance(f, L):
            p.fits = f.items
        out.append(p)
    return out


class Outcome:
    __slots__ = ("value", "errors", "dead", "undecided", "shared", "impure")


def evaluate(p, i, box, kind="list"):
    """objective i on a box: [(lo, hi)], equal bounds being one point"""
    r = p.r
    r.errors, r.shared, r.impure, r.steps, r.certain, r.depth = [], [], [], 0, True, 0
    o = Outcome()
    o.value, o.dead, o.undecided = None, False, None
    arg = L([Iv(a, b) if a != b else a for a, b in box], kind)
    before = list(arg.items)
    fr = Frame(r, p.module, p.env, None, "<call>")
    r.freeze(arg, "the vector")
    for v in list(p.env.values()):
        r.freeze(v, "state of the module")
    for k, v in p.env.items():
        if isinstance(v, (L, D)):
            v.frozen = "%s of %s" % (k, p.module.name)
    for g in list(r.globals.values()):
        for k, v in list(g.items()):
            r.freeze(v, k)
    for f in p.fits:
        r.freeze(f, "state of the objective")
    try:
        o.value = r.call(p.fits[i], [arg], {}, p.module.tree, fr)
    except Dead:
        o.dead = True
    except (Undecided, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, OverflowError, ZeroDivisionError) as e:
        o.undecided = "%s: %s" % (type(e).__name__, e)
    o.errors, o.shared, o.impure = list(r.errors), list(r.shared), list(r.impure)
    if not o.shared and (len(arg.items) != len(before) or any(x is not y for x, y in zip(arg.items, before))):
        o.shared.append((p.where, 0, getattr(p.fits[i], "name", "objective"), "the vector is changed"))
    return o


def verdict(o):
    """'ok', 'must' (fails for every vector of the box), 'may'"""
    if o.dead and any(e[4] for e in o.errors):
        return "must"
    if o.dead or o.undecided or o.errors:
        return "may"
    v = o.value
    if isinstance(v, bool) or not is_num(v):
        return "must" if v is None or isinstance(v, (L, str, complex, D, Fn)) else "may"
    if isinstance(v, Iv):
        return "ok" if abs(v.lo) != math.inf and abs(v.hi) != math.inf else "may"
    return "ok" if math.isfinite(v) else "must"


def describe(o):
    for e in o.errors:
        if e[4] or not any(x[4] for x in o.errors):
            return e[0], e[1], e[2], e[3]
    return None, 0, "", "the result is %s, no real number" % (o.value,)


def box_text(box, full):
    """coordinates that differ from the full box"""
    out = []
    for j, (b, f) in enumerate(zip(box, full)):
        if b != f:
            out.append("x[%d] = %r" % (j, b[0]) if b[0] == b[1] else "x[%d] in [%r, %r]" % (j, b[0], b[1]))
    if not out:
        return "any vector of the box"
    return ", ".join(out[:6]) + (" and %d further coordinates" % (len(out) - 6) if len(out) > 6 else "")


def literals(p):
    """numbers written in the module: values a comparison or a difference singles out"""
    out = set()
    for x in ast.walk(p.module.tree):
        if isinstance(x, ast.Constant) and type(x.value) in (int, float):
            out.update((float(x.value), -float(x.value)))
    return sorted(out)[:60]


def candidates(full, extra, lits=()):
    """sub-boxes (faces, corners, points) tried for a certain failure"""
    n = len(full)
    special = []
    for a, b in full:
        xs = [a, b, (a + b) / 2]
        if a < 0 < b:
            xs.append(0.0)
        if a < 1 < b:
            xs.append(1.0)
        xs.extend(v for v in lits if a < v < b and v not in xs)
        special.append(xs)
    for j in range(n):
        for x in special[j]:
            yield full[:j] + [(x, x)] + full[j + 1:]
    for k in (0, 1, 2, 3):
        yield [(xs[min(k, len(xs) - 1)],) * 2 for xs in special]
    for x0 in special[0] + [full[0][0] + (full[0][1] - full[0][0]) * t / 12 for t in range(13)]:
        for k in (0, 1, 2, 3):
            for par in (None, 0, 1):
                b = [(xs[min(k, len(xs) - 1)],) * 2 for xs in special]
                if par is not None:
                    b = [full[j] if j % 2 == par else b[j] for j in range(n)]
                    b2 = [(special[j][0],) * 2 if j % 2 == par else b[j] for j in range(n)]
                    b2[0] = (x0, x0)
                    yield b2
                b[0] = (x0, x0)
                yield b
    # a fixed low-discrepancy set of points
    for t in range(1, extra):
        yield [((a + (b - a) * ((t * 0.6180339887 * (j + 1) + j * 0.37) % 1.0)),) * 2 for j, (a, b) in enumerate(full)]


def refine(p, i, extra, limit):
    """-> (verdict, box, outcome, evaluations)"""
    full = list(p.dims)
    o = evaluate(p, i, full)
    n = 1
    v = verdict(o)
    if v != "may":
        return v, full, o, n
    for b in candidates(full, extra, literals(p)):
        c = evaluate(p, i, b)
        n += 1
        if verdict(c) == "must":
            return "must", b, c, n
    # try to prove it piecewise: split the coordinate that matters most
    work, last = [full], o
    while work and n < limit:
        b = work.pop()
        c = evaluate(p, i, b)
        n += 1
        w = verdict(c)
        if w == "ok":
            continue
        if w == "must":
            return "must", b, c, n
        j = pick(p, i, b, full)
        n += 4
        mid = (b[j][0] + b[j][1]) / 2
        if j is None or not b[j][0] < mid < b[j][1]:
            return "may", full, c, n
        work.append(b[:j] + [(mid, b[j][1])] + b[j + 1:])
        work.append(b[:j] + [(b[j][0], mid)] + b[j + 1:])
        last = c
    return ("may", full, last, n) if work else ("ok", full, o, n)


def pick(p, i, b, full):
    """the coordinate whose collapse to its middle settles the box, or else the widest"""
    rel = [(h - l) / (fh - fl) if fh > fl else 0.0 for (l, h), (fl, fh) in zip(b, full)]
    best = sorted(range(len(b)), key=lambda j: (-rel[j], j))
    for j in best[:3]:
        m = (b[j][0] + b[j][1]) / 2
        if verdict(evaluate(p, i, b[:j] + [(m, m)] + b[j + 1:])) == "ok":
            return j
    return best[0]


def offered_names(repo):
    """run_config.problems, or None"""
    m = repo.modules.get("simulation.run_config")
    if m is None:
        return None
    for s in m.tree.body:
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if any(isinstance(t, ast.Name) and t.id == "problems" for t in ts):
                try:
                    return list(ast.literal_eval(s.value))
                except ValueError:
                    break
    r = Ranges(repo)
    env = {}
    r.globals[m.name] = env
    try:
        r.exec_block(m.tree.body, Frame(r, m, env, None, "<module>"), env)
    except (Dead, Undecided, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError):
        pass
    v = env.get("problems")
    return list(v.items) if isinstance(v, L) and all(isinstance(x, str) for x in v.items) else None
