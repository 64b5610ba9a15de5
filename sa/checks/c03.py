"""C03: every dominance test decides strict Pareto dominance for minimisation."""
from ..core import AnalysisBroken
from ..flow import K, T, TUP, is_raise, TooComplex, show
from ..orderflow import OrderFlow, weak_orders, dom, describe, make_driver, call_method, val
import itertools

TECHNIQUE = 'order-type abstract interpretation of each comparison function'
NOTE = 'Exhaustive over the order types of two (three, for the layers) objective vectors with two or three components: the code is interpreted on symbolic objective values about which only their order is known. Assumes comparisons treat further components alike. Nothing is executed.'
EXPLANATION = ("Each dominance test of the repository is interpreted over the order-type abstraction: two solutions whose "
               "objective values are known only by <, = or > per component; every combination for 1..N objectives is "
               "enumerated and the verdict of the code (helpers inlined) compared with strict Pareto dominance.")

D = "evotools.ea_utils"


class Skip(Exception):
    pass


def find_func(repo, mod, name):
    m = repo.modules.get(mod)
    r = repo.resolve_global(m, name) if m else None
    if r is None or r[0] != "func":
        raise Skip("%s.%s is not defined as a function" % (mod, name))
    repo.consulted.add(mod)
    return r[1], r[2]


def on_pairs(make):
    """a subject that compares two plain objective vectors"""
    def f(fl, st, n):
        a = tuple(val(c, fl.ranks[c][0]) for c in range(n))
        b = tuple(val(c, fl.ranks[c][1]) for c in range(n))
        return make(fl, st, a, b)
    return f


def helper(name, tuples):
    def go(fl, st, a, b):
        m, fn = find_func(fl.repo, D, name)
        if tuples:
            return fl.run(m, fn, [TUP(a), TUP(b)], st=st)
        return fl.run(m, fn, [fl.lst(st, a), fl.lst(st, b)], st=st)
    return on_pairs(go)


def evaluated_pair(fl, st, qual, calc, n, attr):
    """a driver on two vectors whose individuals have been evaluated -> [(st, driver, [ind0, ind1])]"""
    if qual not in fl.repo.classes:
        raise Skip("class %s not found" % qual)
    out = []
    for s, d in make_driver(fl, st, qual, [fl.vector(st, 0), fl.vector(st, 1)], n):
        if is_raise(d):
            raise Skip("constructor: %s" % (d,))
        for s1, inds in fl.getattr(s, d, attr, None):
            res = [(s1, None)]
            if calc:
                f = fl.getattr(s1, d, calc, None)
                if any(is_raise(x[1]) for x in f):
                    raise Skip("no %s" % calc)
                m, fn, ci = fl.fnkeys[f[0][1][1][1]] if f[0][1][0] == "bm" else (None, None, None)
                nargs = len(fn.args.args) - 1 if fn is not None else 0
                res = fl.call(f[0][0], f[0][1], [inds] if nargs else [], {}, fn)
            for s2, r in res:
                if r is not None and is_raise(r):
                    raise Skip("%s: %s" % (calc, r))
                items = fl.exact(s2, inds)
                if items is None or len(items) != 2:
                    raise Skip("individuals unknown")
                out.append((s2, d, items))
    return out


def nsga_function(fl, st, n):
    m, fn = find_func(fl.repo, "algorithms.NSGAII.NSGAII", "dominates")
    out = []
    for s, d, (x, y) in evaluated_pair(fl, st, "algorithms.NSGAII.NSGAII.NSGAII", "_calculate_objectives", n, "individuals"):
        out.extend(fl.run(m, fn, [x, y], st=s))
    return out


def spea_method(fl, st, n):
    out = []
    for s, d, (x, y) in evaluated_pair(fl, st, "algorithms.SPEA2.SPEA2.SPEA2", "calculate_objectives", n, "individuals"):
        out.extend(call_method(fl, s, d, "dominates", [x, y]))
    return out


def omopso_method(fl, st, n):
    out = []
    for s, d, (x, y) in evaluated_pair(fl, st, "algorithms.OMOPSO.OMOPSO.OMOPSO", None, n, "individuals"):
        out.extend(call_method(fl, s, x, "dominates", [y]))
    return out


def truth(fl, res):
    out = []
    for s, v in res:
        if is_raise(v):
            out.append((s, v))
        else:
            out.extend(fl.truth(s, v))
    return out


def sign(fl, res):
    out = []
    for s, v in res:
        if is_raise(v) or v[0] != "c":
            out.append((s, v))
        else:
            out.append((s, v[2]))
    return out


SUBJECTS = [
    ("evotools.ea_utils.dominates", "bool", helper("dominates", False)),
    ("evotools.ea_utils.dominates (tuples)", "bool", helper("dominates", True)),
    ("evotools.ea_utils.domination_cmp", "sign", helper("domination_cmp", False)),
    ("algorithms.NSGAII.NSGAII.dominates", "bool", nsga_function),
    ("algorithms.SPEA2.SPEA2.SPEA2.dominates", "bool", spea_method),
    ("algorithms.OMOPSO.OMOPSO.Individual.dominates", "bool", omopso_method),
]


def run(repo, res, tier):
    nmax = 5 if tier == "thorough" else 3
    res.rule("pareto", "for every order type of two objective vectors the test answers strict Pareto dominance (minimisation)")
    res.rule("theta", "theta-dominance: same reference cluster and strictly smaller scalarised fitness")
    res.assumptions += ["objective values are real numbers (no NaN)", "vectors compared have the same length"]
    seen = 0
    for name, kind, subj in SUBJECTS:
        fl = OrderFlow(repo)
        wrong, why, combos = None, None, 0
        try:
            for n in range(1, nmax + 1):
                for rel in itertools.product("<=>", repeat=n):
                    ranks = [{"<": (0, 1), "=": (0, 0), ">": (1, 0)}[r] for r in rel]
                    fl.ranks = ranks
                    fl.steps = 0
                    st = fl.rank_state(n, 2)
                    r = subj(fl, st, n)
                    r = truth(fl, r) if kind == "bool" else sign(fl, r)
                    xy, yx = dom(ranks, 0, 1), dom(ranks, 1, 0)
                    want = xy if kind == "bool" else (1 if xy else -1 if yx else 0)
                    combos += 1
                    vals = [v for _, v in r]
                    if not vals or any(isinstance(v, tuple) for v in vals):
                        why = "%s gives %s" % (rel, [show(v) if isinstance(v, tuple) and v and v[0] != "raise" else v for v in vals])
                        continue
                    bad = [v for v in vals if v != want]
                    if bad and len(set(vals)) == 1:
                        wrong = wrong or "objectives related %s: answers %r, strict Pareto dominance is %r" % (" ".join(rel), bad[0], want)
                    elif bad:
                        why = "ambiguous for %s" % (rel,)
        except Skip as e:
            res.unknown("pareto", name, str(e))
            continue
        except TooComplex as e:
            res.unknown("pareto", name, str(e))
            continue
        res.functions |= fl.functions
        res.extra.setdefault("order_types", {})[name] = combos
        seen += 1
        if wrong:
            base = name.split(" ")[0]
            mod = next((m for q, m in ((q, repo.modules.get(q)) for q in (base.rsplit(".", 1)[0], base.rsplit(".", 2)[0], base.rsplit(".", 3)[0])) if m), None)
            res.bad("pareto", name, mod.rel if mod else "?", wrong)
        elif why:
            res.unknown("pareto", name, why)
        else:
            res.ok("pareto", name)
    theta(repo, res)
    if not seen:
        raise AnalysisBroken("none of the dominance tests was found")


def theta(repo, res):
    name = "algorithms.NSGAIII.NSGAIII.dominates"
    fl = OrderFlow(repo)
    try:
        m, fn = find_func(repo, "algorithms.NSGAIII.NSGAIII", "dominates")
        q = "algorithms.NSGAIII.NSGAIII.Individual"
        if q not in repo.classes:
            raise Skip("no Individual")
        bad = why = None
        for same in (True, False):
            for rel in ((0, 1), (0, 0), (1, 0)):
                st = fl.rank_state(1, 2)
                fl.ranks = [rel]
                (s, x), = fl.instantiate(st, q, [fl.vector(st, 0)], {}, fn)
                (s, y), = fl.instantiate(s, q, [fl.vector(s, 1)], {}, fn)
                for k, o in ((0, x), (1, y)):
                    w = s.w(o[1])
                    w.fields["cluster"] = K(0 if same else k)
                    w.fields["theta_fitness"] = val(0, rel[k])
                want = same and rel == (0, 1)
                for s2, v in truth(fl, fl.run(m, fn, [x, y], st=s)):
                    if isinstance(v, tuple):
                        why = str(v)
                    elif v != want:
                        bad = "cluster %s, fitness %s: answers %r" % ("equal" if same else "different", rel, v)
        res.functions |= fl.functions
        if bad:
            res.bad("theta", name, m.rel + ":%d" % fn.lineno, bad)
        elif why:
            res.unknown("theta", name, why)
        else:
            res.ok("theta", name)
    except (Skip, TooComplex, ValueError) as e:
        res.unknown("theta", name, str(e))
