"""C16: problem definitions are consistent and their objectives pure."""
import ast

from . import problems
from ..ranges import D, Ext, Fn, Iv, L, Part, is_num

TECHNIQUE = "abstract interpretation of every problem module with ownership marks on everything that outlives a call"
NOTE = ("Objectives are interpreted over the declared box, so both sides of every undecided branch are seen. A cache filled by functools.lru_cache is not counted as shared state.")
EXPLANATION = ("Every problem module is interpreted abstractly from its source; the declared box, objectives, name and reference front are compared with each other. Objects that exist before "
               "an objective is called are marked, and every operation that changes a marked object or reads a source that differs between calls is reported.")


def run(repo, res, tier):
    res.rule("box", "a lower bound below the upper bound for every coordinate")
    res.rule("front", "as many objectives as the reference front has columns, and no point of the front dominated by another")
    res.rule("name", "a problem calls itself by the name under which it is found")
    res.rule("coordinates", "objectives use only declared coordinates")
    res.rule("pure", "an objective changes neither its argument nor anything shared, and reads nothing that differs between calls")
    res.rule("offered", "every problem offered has a definition")
    ps = problems.load(repo)
    n = 0
    for p in ps:
        if p.failed:
            e = p.failed
            res.bad("offered", p.name, "%s:%s" % (e[0], e[1]), "importing the problem fails: %s" % e[3])
            continue
        if p.problem:
            res.unknown("offered", p.name, p.problem)
            continue
        res.functions |= p.r.functions
        consistent(p, res)
        if p.dims is None:
            continue
        for i in range(len(p.fits)):
            n += 1
            pure(p, i, res)
        res.functions |= p.r.functions
    offered(repo, ps, res)
    res.floor("problems", len(ps), 15)
    res.floor("objectives evaluated", n, 30)


def line(p, name):
    for s in p.module.tree.body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store):
                return "%s:%s" % (p.where, x.lineno)
    return p.where


def consistent(p, res):
    env = p.env
    d, f, front, name = (env.get(k) for k in ("dims", "fitnesses", "pareto_front", "name"))
    for k, v in (("dims", d), ("fitnesses", f), ("pareto_front", front)):
        if k not in env:
            res.bad("offered", p.name, p.where, "the module does not define %s" % k)
    if isinstance(d, L):
        if not d.items:
            res.bad("box", p.name, line(p, "dims"), "no coordinate is declared")
        elif d.once:
            res.bad("box", p.name, line(p, "dims"), "dims can be read only once")
        elif p.dims is None:
            bad = [j for j, x in enumerate(d.items) if not isinstance(x, L) or len(x.items) != 2]
            if bad:
                res.bad("box", p.name, line(p, "dims"), "coordinate %d has no pair of bounds" % bad[0])
            else:
                res.unknown("box", p.name, "bounds are not understood")
        else:
            bad = [j for j, (a, b) in enumerate(p.dims) if not a < b or abs(a) == float("inf") or abs(b) == float("inf")]
            res.check(not bad, "box", p.name, line(p, "dims"), "coordinate %d has bounds %r" % (bad[0], p.dims[bad[0]]) if bad else "")
    elif "dims" in env:
        res.unknown("box", p.name, "dims")
    if isinstance(f, L):
        if f.once:
            res.bad("front", p.name + " objectives", line(p, "fitnesses"), "fitnesses can be read only once")
        bad = [x for x in f.items if not isinstance(x, (Fn, Part, Ext))]
        if bad or not f.items:
            res.bad("front", p.name + " objectives", line(p, "fitnesses"), "fitnesses is no list of functions")
    if isinstance(front, L) and isinstance(f, L):
        rows = front.items
        k = len(f.items)
        if not rows:
            res.bad("front", p.name, line(p, "pareto_front"), "the reference front is empty")
        elif front.once:
            res.bad("front", p.name, line(p, "pareto_front"), "the reference front can be read only once")
        elif not all(isinstance(x, L) for x in rows):
            res.unknown("front", p.name, "rows of the front")
        else:
            bad = [j for j, x in enumerate(rows) if len(x.items) != k]
            if bad:
                res.bad("front", p.name, line(p, "pareto_front"), "point %d of the reference front has %d values, the problem has %d objectives" % (bad[0], len(rows[bad[0]].items), k))
            else:
                bad = [j for j, x in enumerate(rows) if x.once or not all(is_num(y) for y in x.items)]
                inexact = any(isinstance(y, Iv) for x in rows for y in x.items)
                if bad:
                    res.bad("front", p.name, line(p, "pareto_front"), "point %d of the reference front is no list of numbers" % bad[0])
                elif inexact:
                    res.unknown("front", p.name, "values of the front")
                else:
                    w = dominated([tuple(x.items) for x in rows])
                    res.check(w is None, "front", p.name, line(p, "pareto_front"), "" if w is None else "the point %r of the reference front is dominated by its point %r" % w)
    elif "pareto_front" in env:
        res.unknown("front", p.name, "front or objectives are not understood")
    if name is None or isinstance(name, str):
        res.check(name == p.name, "name", p.name, line(p, "name"), "the problem %s calls itself %r" % (p.name, name))
    else:
        res.unknown("name", p.name, "name")


def dominated(rows):
    """a dominated point and one that dominates it; sorted, only an earlier point can dominate a later one"""
    rows = sorted(set(rows))
    if rows and len(rows[0]) == 2:
        best = None
        for x in rows:
            if best is not None and best[1] <= x[1]:
                return x, best
            if best is None or x[1] < best[1]:
                best = x
        return None
    # the sum of a dominating point is smaller: compare with those of smaller sum only, lexicographically earlier
    for i, x in enumerate(rows):
        for y in rows[:i]:
            for a, b in zip(y, x):
                if a > b:
                    break
            else:
                return x, y
    return None


def pure(p, i, res):
    c = p.construct(i)
    o = problems.evaluate(p, i, p.dims)
    events = o.shared + o.impure
    k = 1
    if o.undecided and not events:
        # a branch the box leaves open may hide an operation: look at single points as well
        for b in list(problems.candidates(p.dims, 8))[-8:]:
            q = problems.evaluate(p, i, b)
            events = q.shared + q.impure
            k += 1
            if events or not q.undecided:
                break
    if events:
        f, ln, fn, what = events[0]
        res.bad("pure", c, "%s:%s" % (f, ln), "%s in %s" % (what, fn))
    elif o.undecided:
        res.unknown("pure", c, o.undecided)
    else:
        res.ok("pure", c)
    idx = [e for e in o.errors if e[3].startswith("index ") and e[4]]
    if idx:
        res.bad("coordinates", c, "%s:%s" % (idx[0][0], idx[0][1]), "%s in %s: %d coordinates are declared" % (idx[0][3], idx[0][2], len(p.dims)))
    elif not o.undecided:
        res.ok("coordinates", c)


def offered(repo, ps, res):
    names = problems.offered_names(repo)
    m = repo.modules.get("simulation.run_config")
    if names is None:
        res.unknown("offered", "run_config.problems", "the list of problems")
        return
    have = {p.name for p in ps}
    for x in names:
        res.check(x in have, "offered", x, m.rel, "the problem %s is offered, but problems/%s/problem.py does not exist" % (x, x))
