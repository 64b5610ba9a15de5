"""C28: reported statistics have the values their definitions give."""
import random

from .. import core
from ..flow import K, NONE, Obj, T, TUP, TooComplex, is_raise, is_t, show
from ..polyflow import PolyFlow, as_poly, make
from .store import func

TECHNIQUE = "abstract interpretation with values as polynomials in unknown samples, compared with the defining formulas cell by cell"
NOTE = ("Samples of one to thirteen values, with repeated and outlying ones, and up to seven resamples per cell. Samples of mean zero are left out, and so is rounding. "
        "Where the code's formula has another shape than the definition's and the two agree at the representative of the cell, the cell is left open.")
EXPLANATION = ("The analysis of a sample is interpreted on values that are unknowns; comparisons are decided by the cell of the sample space under study and every random draw by a chosen index, whose range must be the whole sample. "
               "Each reported figure must be the formula of its definition in that cell. The choice of the last affordable budget is interpreted over series of results with chosen costs.")
MOD = "statistic.stats_bootstrap"
FENCES = (("low_inn_fence", 0, -1.5), ("upp_inn_fence", 1, 1.5), ("low_out_fence", 0, -3), ("upp_out_fence", 1, 3))
RULES = {
    "mean": "the mean and its three-sigma bounds, of all values; the flag for too few values between the bounds",
    "fences": "the quartiles, moved outwards by one and a half and by three times their distance",
    "outliers": "the shares of the values beyond the inner fences only, and beyond the outer ones",
    "without outliers": "mean and deviation of the values between the inner fences, and their relative differences to those of all values",
    "bootstrap": "the interval between the order statistics at two and a half per cent from either end of the means of resamples, which are drawn with replacement from all values; its relative width",
    "affordable": "the largest budget whose mean cost exceeds the largest budget of the series by at most 500",
}


class StatFlow(PolyFlow):
    """random draws are chosen and kept; thunks stand for the functions that compute a value"""
    draws = None

    def cell(self):
        super().cell()
        self.rnd, self.draws = random.Random(5), []

    def draw(self, lo, hi):
        i = self.rnd.randint(lo, hi)
        self.draws.append((lo, hi, i))
        return i

    def ext_call(self, st, name, args, kw, n):
        ints = [a[2] for a in args if a[0] == "c" and isinstance(a[2], int)]
        if name in ("random.randint", "random.randrange") and len(ints) == len(args) and not kw and ints:
            lo, hi = (0, ints[0]) if len(ints) == 1 else ints[:2]
            hi -= name == "random.randrange"
            return [(st, K(self.draw(lo, hi)) if hi >= lo else ("raise", "ValueError"))]
        if name in ("random.choice", "random.choices", "numpy.random.choice") and args:
            items = self.exact(st, args[0])
            k = kw.get("k") or kw.get("size") or (args[1] if len(args) > 1 else K(1))
            if items and k[0] == "c" and isinstance(k[2], int) and not set(kw) - {"k", "size"}:
                got = tuple(items[self.draw(0, len(items) - 1)] for _ in range(k[2]))
                if name == "random.choice" or name.startswith("numpy") and k == K(1) and len(args) < 2 and not kw:
                    return [(st, got[0])]
                return [(st, self.arr(st, got) if name.startswith("numpy") else st.new(Obj("list", items=got)))]
        if name == "random.sample" and args:
            items = self.exact(st, args[0])
            k = kw.get("k") or (args[1] if len(args) > 1 else NONE)
            if items and k[0] == "c" and isinstance(k[2], int) and k[2] <= len(items):
                self.draws += [(0, -1, i) for i in range(k[2])]
                return [(st, st.new(Obj("list", items=tuple(items[:k[2]]))))]
        if name == "numpy.random.randint" and ints and len(ints) == len(args) and not set(kw) - {"size"}:
            lo, hi = (0, ints[0]) if len(ints) == 1 else ints[:2]
            k = kw.get("size") or (args[2] if len(args) > 2 else NONE)
            if hi > lo and (k == NONE or k[0] == "c" and isinstance(k[2], int)):
                got = tuple(K(self.draw(lo, hi - 1)) for _ in range(1 if k == NONE else k[2]))
                return [(st, got[0] if k == NONE else self.arr(st, got))]
        if name.startswith(("random.", "numpy.random.")):
            raise TooComplex("draws by %s" % name)
        return super().ext_call(st, name, args, kw, n)

    def call_hook(self, st, fv, args, kw, n):
        if is_t(fv, "thunk"):
            return [(st, fv[2])]
        return super().call_hook(st, fv, args, kw, n)


def sample(g, size, seed):
    """unknown values; some repeat, some lie far away"""
    rnd = random.Random("sample %d %d" % (size, seed))
    mode = seed % 4
    out = []
    for i in range(size):
        if out and (mode == 1 and rnd.random() < 0.4 or mode == 2 and seed % 8 == 2):
            out.append(rnd.choice(out))
        else:
            out.append(g.atom("x%d" % i, rnd.uniform(2.0, 9.0)))
    if mode == 3 and size > 3:
        out[rnd.randrange(size)] = g.atom("far", rnd.choice([-1, 1]) * rnd.uniform(60, 300))
        if size > 4 and rnd.random() < 0.5:
            out[rnd.randrange(size)] = g.atom("near", rnd.uniform(18, 26))
    return out


def percentage(count, total):
    return "{0:6.2f}%".format(count * 100.0 / total) if count else "--"


def expected(g, xs, draws, boot, quantile):
    n = len(xs)
    mean = lambda v: g.divide(g.total(v), {(): len(v)})
    less = lambda a, b: g.sign(g.add(a, b, -1)) < 0
    dev = lambda v, m: g.sqrt(mean([g.times(d, d) for d in (g.add(x, m, -1) for x in v)]))
    part = lambda num, den: g.divide(g.scale(num, 100), den)
    q = [quantile(xs, 0.25), quantile(xs, 0.75)]
    iq = g.add(q[1], q[0], -1)
    out = {"fences": {}, "mean": {}, "outliers": {}, "without outliers": {}, "bootstrap": {}}
    f = {name: g.add(q[i], g.scale(iq, c)) for name, i, c in FENCES}
    out["fences"].update(f)
    beyond = lambda lo, hi: [x for x in xs if less(x, f[lo]) or less(f[hi], x)]
    extreme = len(beyond("low_out_fence", "upp_out_fence"))
    mild = len(beyond("low_inn_fence", "upp_inn_fence")) - extreme
    out["outliers"].update(mild_outliers=percentage(mild, n), extr_outliers=percentage(extreme, n))
    m = mean(xs)
    s = dev(xs, m)
    lo, hi = g.add(m, g.scale(s, 3), -1), g.add(m, g.scale(s, 3))
    inside = sum(1 for x in xs if not less(x, lo) and not less(hi, x))
    out["mean"].update(mean=m, stdev=s, lower=lo, upper=hi, goodbench="✓" if inside >= 0.95 * n else "╳╳╳╳╳")
    kept = [x for x in xs if not less(x, f["low_inn_fence"]) and not less(f["upp_inn_fence"], x)]
    mk = mean(kept)
    sk = dev(kept, mk)
    out["without outliers"].update(metrics_nooutliers=mk, stdev_nooutliers=sk, mean_nooutliers_diff=part(g.add(mk, m, -1), m),
                                   stdev_nooutliers_diff=part(g.add(sk, s, -1), s) if s else float("inf"))
    k = max(1, int(n * 0.66))
    drawn = [xs[i] for i in draws]
    means = [mean(drawn[i * k:(i + 1) * k]) for i in range(boot)]
    for i in range(1, len(means)):                  # insertion keeps the order of equals out of play
        j = i
        while j and less(means[j], means[j - 1]):
            means[j], means[j - 1] = means[j - 1], means[j]
            j -= 1
    low, high = means[int(boot * 0.025)], means[int(boot * 0.975)]
    wide = part(g.add(high, low, -1), m)
    out["bootstrap"].update({"from": low, "to": high, "metrics": m, "confidence": {(): 95.0}, "pr_dispersion": wide,
                             "dispersion_warn": " HIGH" if abs(g.value(wide)) > 30 else ""})
    return out


def cells(deep):
    sizes = range(1, 14) if deep else (1, 2, 3, 4, 5, 6, 7, 9, 12)
    for size in sizes:
        for seed in range(24 if deep else 8):
            yield size, seed, (1, 4, 7)[(size + seed) % 3] if not deep else (1, 4, 7, 41)[seed % 4]


def run(repo, res, tier):
    for k, text in RULES.items():
        res.rule(k, text)
    m, fn = func(repo, MOD, "yield_analysis")
    where = "%s:%d" % (m.rel, fn.lineno)
    fl = StatFlow(repo)
    good, bad, unknown = {}, {}, {}
    for size, seed, boot in cells(tier == "thorough"):
        try:
            rs = one(fl, m, fn, size, seed, boot)
        except (TooComplex, RecursionError, KeyError, IndexError, ValueError, TypeError, AttributeError, ZeroDivisionError) as e:
            for k in RULES:
                if k != "affordable":
                    unknown.setdefault(k, "%s: %s" % (type(e).__name__, e))
            continue
        for k, (verdict, text) in rs.items():
            if verdict == "bad":
                bad.setdefault(k, text)
            elif verdict == "open":
                unknown.setdefault(k, text)
            else:
                good[k] = good.get(k, 0) + 1
    affordable(repo, res, good, bad, unknown, tier == "thorough")
    res.functions |= fl.functions
    for k in RULES:
        w, name = (where, "yield_analysis") if k != "affordable" else budget_site(repo)
        if k in bad:
            res.bad(k, "%s.%s" % (MOD, name), w, "%s: not %s" % (bad[k], RULES[k]))
            continue
        if good.get(k):
            res.ok(k, "%d cells" % good[k])
        if k in unknown:
            res.unknown(k, name, unknown[k])
    res.extra["cells"] = sum(good.values())
    res.floor("cells compared", sum(good.values()), 300)


def one(fl, m, fn, size, seed, boot):
    fl.cell()
    fl.rnd = random.Random("%d %d" % (size, seed))
    g = fl.alg
    xs = sample(g, size, seed)
    st = fl.start()
    data = st.new(Obj("list", items=tuple(make(x) for x in xs)))
    outs = fl.run(m, fn, [data, K(boot)], st=st)
    verdicts = [outcome(fl, s, v, xs, boot) for s, v in outs]
    out = {}
    for k in verdicts[0]:
        vs = [o[k] for o in verdicts]
        bad = [x for x in vs if x[0] == "bad"]
        if bad and len(bad) < len(vs):
            out[k] = ("open", "%s on one of %d outcomes" % (bad[0][1], len(vs)))
        else:
            out[k] = next((x for x in vs if x[0] != "ok"), vs[0])
    return out


def outcome(fl, s, v, xs, boot):
    g, size = fl.alg, len(xs)
    what = "for the values %s" % ", ".join("%.4g" % g.value(x) for x in xs)
    names = [k for k in RULES if k != "affordable"]
    if is_raise(v):
        return {k: ("bad", "%s it raises %s" % (what, show(v)[:80])) for k in names}
    table = entries(s, v)
    boots = entries(s, table.get("btstrpd", NONE))
    if not table or not boots:
        raise TooComplex("the analysis is not a dictionary: %s" % show(v)[:80])
    table = dict(table, **boots)
    k = max(1, int(size * 0.66))
    wrong, draws = None, [i for lo, hi, i in fl.draws]
    for lo, hi, i in fl.draws:
        if hi < 0:
            wrong = "%s a resample is drawn without replacement" % what
        elif (lo, hi) != (0, size - 1):
            wrong = "%s a resample draws among the positions %d to %d" % (what, lo, hi)
    if len(draws) != boot * k:
        wrong = wrong or "%s %d values are drawn for %d resamples of %d" % (what, len(draws), boot, k)
        draws = (draws + [0] * (boot * k))[:boot * k]
    out = {}
    for rule, figures in expected(g, xs, draws, boot, fl.quantile).items():
        verdict = ("ok", "")
        if rule == "bootstrap" and wrong:
            out[rule] = ("bad", wrong)
            continue
        for name, want in figures.items():
            r = agrees(g, table.get(name), want)
            if r == "bad":
                verdict = ("bad", "%s %s is %s instead of %s" % (what, name, text(g, table.get(name)), text(g, want)))
                break
            if r == "open":
                verdict = ("open", "%s: another shape in a cell" % name)
        out[rule] = verdict
    return out


def entries(st, v):
    if v[0] != "o" or st.heap[v[1]].kind != "dict":
        return {}
    return {k[2]: x for k, x in st.heap[v[1]].items if k[0] == "c"}


def text(g, v):
    if v is None:
        return "missing"
    if isinstance(v, dict):
        return "%.6g" % g.value(v)
    if isinstance(v, tuple):
        p = as_poly(v)
        return "%.6g" % g.value(p) if p is not None else show(v)[:60]
    return repr(v)


def agrees(g, v, want):
    if v is None:
        return "bad"
    if not isinstance(want, dict):
        if v[0] != "c":
            raise TooComplex("not understood: %s" % show(v)[:60])
        return "ok" if v[2] == want else "bad"
    got = as_poly(v)
    if got is None:
        if v[0] == "c":
            return "bad"
        raise TooComplex("not understood: %s" % show(v)[:60])
    diff = g.add(got, want, -1)
    if max((abs(c) for c in diff.values()), default=0) < 1e-9:
        return "ok"
    x, y = g.value(got), g.value(want)
    if abs(x - y) > 1e-6 * (1 + abs(y)):
        return "bad"
    return "open"


# ---------------------------------------------------------------- budgets
def budget_site(repo):
    m, fn = func(repo, MOD, "find_acceptable_result_for_budget")
    return "%s:%d" % (m.rel, fn.lineno), fn.name


def affordable(repo, res, good, bad, unknown, deep):
    try:
        m, fn = func(repo, MOD, "find_acceptable_result_for_budget")
    except core.AnalysisBroken as e:
        unknown["affordable"] = str(e)
        return
    fl = StatFlow(repo)
    for seed in range(160 if deep else 40):
        rnd = random.Random("budget %d" % seed)
        fl.cell()
        count = seed % 5
        budgets = [400 * (i + 1) + rnd.choice((0, 100, 250)) for i in range(count)]
        costs = [b + rnd.choice((-30, 0, 120, 500, 501, 640, 900, 1300, 2200, 9000)) for b in budgets]
        if rnd.random() < 0.3:
            costs = [max(budgets, default=0) + 500 + rnd.choice((0, 1, 40)) for b in budgets]
        st = fl.start()
        rows = []
        for b, c in zip(budgets, costs):
            ms = [TUP((K(x), K(x), st.new(Obj("list", items=(T("thunk", K(float(y))),))))) for x, y in (("igd", 3), ("cost", c), ("gd", 99999))]
            rows.append(st.new(Obj("dict", items=((K("budget"), K(b)), (K("analysis"), st.new(Obj("list", items=tuple(ms))))))))
        series = st.new(Obj("list", items=tuple(rows)))
        want = next((r for r, c in reversed(list(zip(rows, costs))) if c <= budgets[-1] + 500), NONE)
        try:
            outs = fl.run(m, fn, [series, K(3)], st=st)
        except (TooComplex, RecursionError, KeyError, IndexError, ValueError, TypeError, AttributeError) as e:
            unknown.setdefault("affordable", "%s: %s" % (type(e).__name__, e))
            continue
        name = lambda v: "none" if v == NONE else "budget %s" % budgets[rows.index(v)] if v in rows else show(v)[:60]
        for s, v in outs:
            if v != want:
                if v != NONE and v not in rows and not is_raise(v):
                    unknown.setdefault("affordable", "the result is not understood: %s" % show(v)[:60])
                else:
                    bad.setdefault("affordable", "budgets %s with costs %s give %s instead of %s" % (budgets, costs, name(v), name(want)))
                break
        else:
            good["affordable"] = good.get("affordable", 0) + 1
    res.functions |= fl.functions
