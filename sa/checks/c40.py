"""C40: every figure shows each algorithm's own results under its own name."""
import itertools
import math
import random
import re

from ..flow import K, NONE, Obj, RAISE, T, TUP, TooComplex, is_raise, is_t, show
from ..polyflow import PolyFlow, as_poly, make
from ..runmodel import RunFlow
from .c17 import func

TECHNIQUE = "abstract interpretation of the plotting commands over stored results with unknown values; the drawing calls they make compared with the results"
NOTE = ("matplotlib is a recorder: what its calls draw is taken from its documentation (plot, scatter, violinplot, xticks, xlim, savefig). Selected sets of up to six algorithms on up to four problems; the analysis of a sample "
        "and the choice of the accepted budget stand for themselves (see C28). Colours, markers, sizes, axis titles and the legend are not judged, nor are commands that the command line does not offer.")
EXPLANATION = ("pictures, pictures_summary, best_fronts and violin are interpreted over results whose values are unknown numbers, each named after its run, problem, algorithm, budget and indicator. What is drawn between the opening of a figure and "
               "its saving must be, for the problem and indicator in the file's name and for every algorithm that has a place in the figures, that algorithm's own values at their own abscissae, labelled with its name.")
RULES = {
    "places": "an algorithm drawn on its own is drawn under every meta-algorithm, too, and once",
    "pictures": "per problem and indicator, a line per algorithm through its results at each time, within the axis' limits, saved under the problem's and indicator's name",
    "pictures_summary": "per indicator, each algorithm's score at the problem it belongs to, relative to the problem's best",
    "best_fronts": "per problem, the known front and each algorithm's objective values, in the order of the objectives",
    "violin": "per problem and indicator, the values of all runs of each algorithm over its own name",
}
COMMANDS = {"pictures": "plots.pictures.pictures_time", "pictures_summary": "plots.pictures.pictures_summary", "best_fronts": "plots.best_fronts.best_fronts", "violin": "plots.violin.violin"}
INDICATORS = ("hypervolume", "igd", "ahd", "spacing", "gd", "pdi")
POOL = ("SPEA2", "NSGAII", "HGS+IBEA", "IMGA+NSGAII", "SMSEMOA", "DHGS+JGBL", "OMOPSO", "IMGA+SPEA2", "HGS+NSLS", "NSGAIII")
DIMS = {"ZDT1": 2, "UF1": 2, "UF8": 3, "ZDT3": 2}
FIGURES = ("mean", "stdev", "lower", "upper", "low_inn_fence", "upp_inn_fence", "low_out_fence", "upp_out_fence", "mild_outliers", "extr_outliers", "metrics_nooutliers", "mean_nooutliers_diff",
           "stdev_nooutliers", "stdev_nooutliers_diff", "pr_dispersion")
DRAW = ("plot", "scatter", "violinplot", "errorbar", "semilogy", "step", "bar", "stem", "fill", "fill_between", "hist", "boxplot", "loglog", "semilogx")


class Odd(Exception):
    """the code is not of a kind this check understands"""


class Wrong(Exception):
    pass


class PlotFlow(PolyFlow, RunFlow):
    max_steps = 3000000
    max_paths = 40

    # ---------------------------------------------------------------- what is stored
    def prepare(self, plan):
        self.cell()
        self.plan = plan
        self.rnd = random.Random("plot %s" % (plan.seed,))
        self.atoms = {}
        self.means = {}

    def known(self, *key):
        if key not in self.atoms:
            self.atoms[key] = self.alg.atom("v%03d" % len(self.atoms), self.rnd.uniform(0.5, 3.0))
        return self.atoms[key]

    def mean_of(self, vals):
        key = tuple(vals)
        if key not in self.means:
            self.means[key] = self.alg.atom("m%03d" % len(self.means), self.rnd.uniform(0.5, 3.0))
        return self.means[key]

    def sample(self, p, a, b, m):
        return tuple(K(0.0) if (p, a, r) in self.plan.zero else make(self.known("score", p, a, b, m, r)) for r in range(self.plan.runs))

    def score(self, p, a, b, m):
        return self.mean_of(self.sample(p, a, b, m))

    def front(self, p):
        if p == "ZDT3":
            # in pieces, from left to right
            for i, x in enumerate((0.01, 0.03, 0.2, 0.23, 0.6, 0.61)):
                for k, v in enumerate((x, 1 - x)):
                    self.atoms.setdefault(("front", p, i, k), self.alg.atom("f%d.%d" % (i, k), v) if ("front", p, i, k) not in self.atoms else None)
        return [[self.known("front", p, i, k) for k in range(DIMS[p])] for i in range(6)]

    def objectives(self, p, a, b, r):
        return [[self.known("obj", p, a, b, r, i, k) for k in range(DIMS[p])] for i in range(3)]

    def listing(self, st, rows):
        return st.new(Obj("list", items=tuple(st.new(Obj("list", items=tuple(make(x) for x in row))) for row in rows)))

    def row(self, st, p, a, b, prop):
        ms = []
        for m in ("cost",) + self.plan.metrics:
            ms.append(TUP((K(m), K(m + " in full"), st.new(Obj("list", "oneshot", items=tuple(T("thunk", v) for v in self.sample(p, a, b, m)))))))
        d = {"problem": K(p), "algo": K(a), "results": st.new(Obj("list", items=tuple(T("result", p, a, b, r) for r in range(self.plan.runs)))),
             "analysis": st.new(Obj("list", "oneshot", items=tuple(ms))), prop: K(b)}
        return st.new(Obj("dict", items=tuple((K(k), v) for k, v in d.items())))

    def rows(self, st, prop):
        out = []
        for p in self.plan.problems:
            algos = []
            for a in self.plan.order[p]:
                algos.append(TUP((K(a), st.new(Obj("list", "oneshot", items=tuple(self.row(st, p, a, b, prop) for b in self.plan.numbers[(p, a)]))))))
            out.append(TUP((K(p), T("problem", p), st.new(Obj("list", "oneshot", items=tuple(algos))))))
        return st.new(Obj("list", "oneshot", items=tuple(out)))

    # ---------------------------------------------------------------- calls
    def call_hook(self, st, fv, args, kw, n):
        if fv[0] == "fn":
            m, fn, ci = self.fnkeys[fv[1]]
            q = "%s.%s" % (m.name, getattr(fn, "name", ""))
            if ci is None and q == "simulation.serialization.each_result":
                ext = args[0] if args else kw.get("result_extractor", NONE)
                if ext[0] != "o" or st.heap[ext[1]].kind != "inst":
                    raise TooComplex("results read by %s" % show(ext)[:40])
                return [(st, self.rows(st, "time" if "Time" in st.heap[ext[1]].cls.split(".")[-1] else "budget"))]
            if ci is None and q == "statistic.stats_bootstrap.yield_analysis" and args:
                its = self.exact(st, args[0])
                if its is None:
                    raise TooComplex("the sample analysed")
                other = lambda names: tuple((K(x), make(self.known(x, tuple(its)))) for x in names)
                b = st.new(Obj("dict", items=((K("metrics"), make(self.mean_of(its))),) + other(("from", "to"))))
                return [(st, st.new(Obj("dict", items=((K("btstrpd"), b),) + other(FIGURES))))]
            if ci is None and q == "statistic.stats_bootstrap.find_acceptable_result_for_budget" and args:
                items = self.exact(st, args[0])
                if items is None:
                    raise TooComplex("the series of results")
                if not items:
                    return [(st, NONE)]
                d = dict((k[2], v[2]) for k, v in st.heap[items[0][1]].items if k[0] == v[0] == "c")
                at = self.plan.accepted.get((d["problem"], d["algo"]))
                return [(st, NONE if at is None else items[at])]
        if is_t(fv, "thunk"):
            return [(st, fv[2])]
        if fv == ("bi", "print"):
            return [(st, NONE)]
        if fv == ("bi", "globals"):
            return [(st, T("namespace", self.frames[-1].module.name))]
        if is_t(fv, "attr") and is_t(fv[2], "drawn"):
            return self.draw(st, fv[2], fv[3], args, kw)
        return super().call_hook(st, fv, args, kw, n)

    def ext_call(self, st, name, args, kw, n):
        if name.startswith("matplotlib.pyplot."):
            return self.draw(st, None, name.split(".")[-1], args, kw)
        if name.startswith(("matplotlib.", "mpl_toolkits.")):
            return self.draw(st, None, name.split(".")[-1], args, kw)
        if name == "math.log" and len(args) == 1 and as_poly(args[0]) is not None:
            x = as_poly(args[0])
            if self.alg.value(x) <= 0:
                return [(st, RAISE("ValueError"))]
            return [(st, make(self.alg.function("log", math.log, x)))]
        if name.startswith(("time.", "logging.")):
            return [(st, T("x", name))]
        return super().ext_call(st, name, args, kw, n)

    def draw(self, st, base, name, args, kw):
        k = st.data.get("drawn", 0)
        st.data["drawn"] = k + 1
        h = T("drawn", k)
        flat = lambda v: self.flat(st, v)
        st.event("draw", h, base, name, tuple(flat(a) for a in args), tuple((a, flat(v)) for a, v in kw.items()))
        if name == "get_legend_handles_labels":
            return [(st, TUP((st.new(Obj("list")), st.new(Obj("list")))))]
        return [(st, TUP((h, h)) if name == "subplots" else h)]

    def flat(self, st, v):
        if v[0] in ("o", "tup"):
            items = self.exact(st, v)
            return T("?", show(v)[:40]) if items is None else ("items", tuple(self.flat(st, x) for x in items))
        if v[0] == "range":
            r = self.items_of(st, v, None)
            return ("items", tuple(r[0][1])) if len(r) == 1 and not is_raise(r[0][1]) else v
        if is_t(v, "path"):
            parts = self.path_parts(v)
            if all(p[0] == "c" for p in parts):
                return K("/".join(str(p[2]) for p in parts))
        if is_t(v, "str"):
            parts = [x if isinstance(x, str) else self.flat(st, x) for x in v[2]]
            if all(isinstance(x, str) or x[0] == "c" for x in parts):
                return K("".join(x if isinstance(x, str) else str(x[2]) for x in parts))
        return v

    def getattr_hook(self, st, b, name, n):
        if is_t(b, "problem"):
            if name == "pareto_front":
                return [(st, self.listing(st, self.front(b[2])))]
            if name == "name":
                return [(st, K(b[2]))]
        if is_t(b, "result"):
            if name == "fitnesses":
                return [(st, self.listing(st, self.objectives(*b[2:])))]
            if name == "population":
                return [(st, T("population", *b[2:]))]
        return super().getattr_hook(st, b, name, n)

    def getitem_hook(self, st, b, i, n):
        if is_t(b, "namespace") and i[0] == "c":
            r = self.global_name(st, self.repo.modules[b[2]], i[2])
            return [(s, RAISE("KeyError", i[2]) if is_raise(v) or v[0] == "bi" else v) for s, v in r]
        if is_t(b, "drawn") and i[0] == "c" and isinstance(i[2], (int, str)):
            return [(st, b)]
        return super().getitem_hook(st, b, i, n)

    def items_of(self, st, v, n):
        if is_t(v, "drawn"):
            return [(st, [v])]
        return super().items_of(st, v, n)


# -------------------------------------------------------------------- settings
class Plan:
    def __init__(self, seed, full=False):
        r = random.Random("figures %d" % seed)
        self.seed, self.runs = seed, r.choice((1, 2, 2, 3))
        self.problems = tuple(r.sample(sorted(DIMS), r.choice((1, 2, 3))))
        algos = r.sample(POOL, r.choice((1, 3, 5)))
        if seed % 2 and not any(a in ("SPEA2", "SMSEMOA", "IMGA+SPEA2") for a in algos):
            algos.append("SMSEMOA" if seed % 4 == 1 else "SPEA2")
        if all("SPEA2" in a or "SMSEMOA" in a for a in algos):
            algos.append("NSGAII")
        self.metrics = tuple(r.sample(INDICATORS, 2)) + ("epsilon",)
        self.order, self.numbers, self.accepted = {}, {}, {}
        for p in self.problems:
            here = [a for a in algos if r.random() < 0.85] or algos[:1]
            self.order[p] = tuple(r.sample(here, len(here)))
            for a in here:
                bs = sorted(r.sample((500, 1500, 2500, 3500), r.choice((1, 2, 3))))
                self.numbers[(p, a)] = bs
                if r.random() < 0.8:
                    self.accepted[(p, a)] = r.randrange(len(bs))
        if seed % 3 == 2 and len(self.problems) > 1:
            # on one problem no algorithm kept to its budget
            for a in self.order[self.problems[-1]]:
                self.accepted.pop((self.problems[-1], a), None)
        self.selected = ",".join(algos[:2])
        # values of zero: of one run, or of all runs of one algorithm
        self.zero = set()
        if seed % 5 > 2:
            p = self.problems[0]
            a = r.choice(self.order[p])
            self.zero = {(p, a, i) for i in range(self.runs) if seed % 5 == 4 or i == 0}


# -------------------------------------------------------------------- judging
class Figure:
    def __init__(self):
        self.calls, self.files = [], []


def figures(s):
    """the figures opened and what is drawn in each until the next one is opened"""
    out, cur = [], None
    for e in s.trace:
        if e[0] != "draw":
            continue
        h, base, name, args, kw = e[1:]
        if name in ("figure", "subplots") and base is None:
            cur = Figure()
            cur.handle = h
            out.append(cur)
        elif name == "savefig":
            if cur is None or not args:
                raise Odd("a figure saved that was not opened")
            f = args[0]
            if f[0] != "c":
                raise Odd("a figure saved as %s" % show(f)[:60])
            # drawn on the figure object itself or on the current one
            fig = next((x for x in out if x.handle == base), cur)
            fig.files.append(f[2])
        elif cur is not None:
            cur.calls.append((name, args, dict(kw)))
    return out


def nums(fl, v):
    """the numbers of a list"""
    if v[0] != "items":
        raise Odd("drawn: %s" % show(v)[:60])
    out = [as_poly(x) for x in v[1]]
    if any(x is None for x in out):
        raise Odd("drawn: a list with %s" % show([x for x in v[1] if as_poly(x) is None][0])[:60])
    return out


def series(fl, call):
    """(label, [coordinates per axis])"""
    name, args, kw = call
    axes = [a for a in args if not (a[0] == "c" and isinstance(a[2], str))]
    label = kw.get("label")
    if label is not None and not (label[0] == "c" and isinstance(label[2], str)):
        raise Odd("a label %s" % show(label)[:40])
    return (label[2] if label else None), [nums(fl, a) for a in axes]


def same(fl, xs, ys):
    return len(xs) == len(ys) and all(fl.alg.close(x, y, 1e-9) for x, y in zip(xs, ys))


def points(fl, cols):
    if len({len(c) for c in cols}) > 1:
        raise Wrong("the coordinates drawn differ in number: %s" % ", ".join(str(len(c)) for c in cols))
    return [tuple(round(fl.alg.value(c[i]), 9) for c in cols) for i in range(len(cols[0]))] if cols else []


def saved(figs):
    """{file stem: figure}; both formats of a figure"""
    out = {}
    for f in figs:
        for path in f.files:
            name = path.split("/")[-1]
            stem, _, ext = name.rpartition(".")
            if stem in out and out[stem] is not f:
                raise Wrong("two figures are saved as %s" % name)
            out[stem] = f
    return out


def marks(fl, fig):
    """the marks on the abscissa and their names"""
    at, labels = [], []
    for name, args, kw in fig.calls:
        if name in ("xticks", "set_xticks"):
            at += [a for a in args[:1]] + [v for k, v in kw.items() if k == "ticks"]
            labels += [a for a in args[1:2]] + [v for k, v in kw.items() if k == "labels"]
        if name == "set_xticklabels":
            labels += [a for a in args[:1]] + [v for k, v in kw.items() if k == "labels"]
    if len(at) != 1 or len(labels) != 1 or labels[0][0] != "items" or any(x[0] != "c" for x in labels[0][1]):
        raise Odd("the abscissae are not labelled in a known way")
    return [fl.alg.value(x) for x in nums(fl, at[0])], [x[2] for x in labels[0][1]]


def find(files, p, m=None):
    """the figure of a problem (and indicator) by its name"""
    want = [x for x in (p, m) if x]
    hits = [k for k in files if all(re.search(r"(^|_)%s(_|$)" % re.escape(w), k) for w in want)]
    return files[hits[0]] if len(hits) == 1 else None


def show_points(ps):
    return "; ".join("(%s)" % ", ".join("%.4g" % x for x in p) for p in ps[:4]) + (" ..." if len(ps) > 4 else "")


def judge_series(fl, fig, expected, title, ignore=()):
    """expected: {label: points}; a label may have several series which together make up its points"""
    got = {}
    for c in fig.calls:
        if c[0] not in DRAW:
            continue
        label, cols = series(fl, c)
        if label in ignore:
            continue
        got.setdefault(label, []).extend(points(fl, cols))
    for a in sorted(set(got) | set(expected), key=str):
        if a not in expected:
            if got[a]:
                raise Wrong("%s: %s drawn as %s, which has nothing there" % (title, show_points(got[a]), a))
            continue
        if a not in got:
            if expected[a]:
                raise Wrong("%s: nothing is drawn for %s" % (title, a))
            continue
        w, g = sorted(set(expected[a])), sorted(set(got[a]))
        if w != g:
            raise Wrong("%s: drawn for %s: %s instead of %s" % (title, a, show_points(got[a]), show_points(expected[a])))
        yield a


def judge_pictures(fl, s, plan, drawn):
    files = saved(figures(s))
    n = 0
    limits = []
    for p in plan.problems:
        for m in plan.metrics:
            if m not in INDICATORS:
                if find(files, p, m):
                    raise Wrong("a figure of %s, which has no better and worse" % m)
                continue
            expected = {a: [(float(b), round(fl.alg.value(fl.score(p, a, b, m)), 9)) for b in plan.numbers[(p, a)]] for a in plan.order[p] if a in drawn}
            fig = find(files, p, m)
            if fig is None:
                if any(expected.values()):
                    raise Wrong("no figure is saved for %s of %s" % (m, p))
                continue
            title = "%s of %s" % (m, p)
            for a in judge_series(fl, fig, expected, title):
                n += 1
            for c in fig.calls:
                if c[0] == "plot":
                    _, cols = series(fl, c)
                    xs = [fl.alg.value(x) for x in cols[0]]
                    if xs != sorted(xs):
                        raise Wrong("%s: the points of a line are not joined in the order of time: %s" % (title, xs))
            for c in fig.calls:
                if c[0] in ("xlim", "set_xlim") and len(c[1]) == 2:
                    lo, hi = [fl.alg.value(x) for x in nums(fl, ("items", c[1]))]
                    for a, pts in expected.items():
                        for x, _ in pts:
                            if not lo <= x <= hi:
                                raise Wrong("%s: the axis ends at %g and hides the result of %s at %g" % (title, hi, a, x))
    return n


def judge_summary(fl, s, plan, drawn):
    files = saved(figures(s))
    n = 0
    g = fl.alg
    for m in plan.metrics:
        if m not in INDICATORS:
            continue
        score, best = {}, {}
        for p in plan.problems:
            for a in plan.order[p]:
                at = plan.accepted.get((p, a))
                if at is not None:
                    score[(p, a)] = math.log(abs(g.value(fl.score(p, a, plan.numbers[(p, a)][at], m))) + 1)
        for p in plan.problems:
            best[p] = max([v for (q, a), v in score.items() if q == p], default=0) + 0.0001
        fig = find(files, m)
        if fig is None:
            if any(a in drawn for _, a in score):
                raise Wrong("no figure is saved for %s" % m)
            continue
        at, labels = marks(fl, fig)
        if len(labels) != len(at):
            raise Wrong("summary of %s: %d marks on the axis and the labels %s" % (m, len(at), labels))
        if sorted(labels) != sorted(plan.problems):
            raise Wrong("summary of %s: the problems on the axis are %s, those with results %s" % (m, labels, sorted(plan.problems)))
        where = dict(zip(labels, at))
        expected = {a: [(where[p], round(v / (best[p] if m != "pdi" else 1), 9)) for (p, b), v in score.items() if b == a] for a in drawn}
        for a in judge_series(fl, fig, expected, "summary of %s" % m):
            n += 1
    return n


def judge_fronts(fl, s, plan, drawn):
    files = saved(figures(s))
    n = 0
    for p in plan.problems:
        fig = find(files, p)
        if fig is None:
            raise Wrong("no figure is saved for %s" % p)
        val = lambda rows: [tuple(round(fl.alg.value(x), 9) for x in r) for r in rows]
        expected = {}
        for a in plan.order[p]:
            at = plan.accepted.get((p, a))
            if a in drawn and at is not None:
                expected[a] = val(fl.objectives(p, a, plan.numbers[(p, a)][at], 0))
        for a in judge_series(fl, fig, expected, "fronts of %s" % p, ignore=(None,)):
            n += 1
        ref = []
        for c in fig.calls:
            if c[0] in DRAW and "label" not in c[2]:
                ref += points(fl, series(fl, c)[1])
        want = set(val(fl.front(p)))
        if not any(len(x) == DIMS[p] for x in ref) and DIMS[p] == 2 or {x[:2] for x in ref} != {x[:2] for x in want} or any(x not in want for x in ref if len(x) == DIMS[p]):
            raise Wrong("fronts of %s: the known front is drawn as %s instead of %s" % (p, show_points(ref), show_points(sorted(want))))
        n += 1
    return n


def judge_violin(fl, s, plan, drawn):
    files = saved(figures(s))
    n = 0
    for p in plan.problems:
        for m in plan.metrics:
            if m not in INDICATORS:
                continue
            expected = {}
            for a in plan.order[p]:
                at = plan.accepted.get((p, a))
                if a in drawn and at is not None:
                    expected[a] = sorted(round(fl.alg.value(as_poly(v)), 9) for v in fl.sample(p, a, plan.numbers[(p, a)][at], m))
            blank = {a for a, vs in expected.items() if not any(vs)}
            fig = find(files, p, m)
            if fig is None:
                if set(expected) - blank:
                    raise Wrong("no figure is saved for %s of %s" % (m, p))
                continue
            bodies = [c for c in fig.calls if c[0] == "violinplot"]
            if len(bodies) != 1 or bodies[0][1][0][0] != "items":
                raise Odd("the violins are not understood")
            at, labels = marks(fl, fig)
            data = [sorted(round(fl.alg.value(x), 9) for x in nums(fl, d)) for d in bodies[0][1][0][1]]
            pos = bodies[0][1][1] if len(bodies[0][1]) > 1 else bodies[0][2].get("positions")
            pos = [fl.alg.value(x) for x in nums(fl, pos)] if pos else [float(i + 1) for i in range(len(data))]
            title = "%s of %s" % (m, p)
            if len(at) != len(labels) or len(labels) != len(data):
                raise Wrong("%s: %d violins over %d marks with %d names" % (title, len(data), len(at), len(labels)))
            under = dict(zip(at, labels))
            got = {under.get(x): d for x, d in zip(pos, data)}
            for a in sorted(set(got) | set(expected), key=str):
                if got.get(a) != expected.get(a) and not (a in blank and a not in got):
                    raise Wrong("%s: over the name %s the values %s are drawn instead of %s" % (title, a, got.get(a), expected.get(a)))
                n += 1
    return n


JUDGES = {"pictures": judge_pictures, "pictures_summary": judge_summary, "best_fronts": judge_fronts, "violin": judge_violin}


def tables(repo):
    """the algorithms that have a place in the figures, as the module's own tables say"""
    fl = PlotFlow(repo)
    fl.prepare(Plan(0))
    st = fl.start()
    m = repo.modules.get("plots.pictures")
    if m is None:
        raise Odd("plots.pictures is gone")
    out = []
    for name, m in (("algos_order", m), ("algos", m), ("metaalgorithms", repo.modules.get("simulation.run_config") or m)):
        r = fl.global_name(st, m, name)
        items = fl.items_of(r[0][0], r[0][1], None)[0][1] if len(r) == 1 and r[0][1][0] == "o" else None
        if not items or any(x[0] != "c" for x in items):
            raise Odd("the table %s is not understood" % name)
        out.append([x[2] for x in items])
        st = r[0][0]
    return out


def run(repo, res, tier):
    for k, v in RULES.items():
        res.rule(k, v)
    try:
        order, styled, metas = tables(repo)
    except (Odd, TooComplex, RecursionError) as e:
        for cmd in COMMANDS:
            res.unknown(cmd, "tables", str(e))
        return
    total = 0
    bare = [a for a in order if "+" not in a]
    lost = [a for a in bare + ["%s+%s" % (m, a) for m in metas for a in bare] if a not in order or a not in styled]
    where = "%s:1" % repo.modules["plots.pictures"].rel
    if lost or not bare:
        res.bad("places", "plots.pictures", where, "%s never drawn: no place in the tables of the figures" % ", ".join(lost or ["everything"]))
    elif len(order) != len(set(order)):
        res.bad("places", "plots.pictures", where, "an algorithm drawn twice")
    else:
        res.ok("places", "%d algorithms" % len(order))
    for cmd, qual in COMMANDS.items():
        f = func(repo, qual)
        if f is None:
            res.unknown(cmd, cmd, "%s is gone" % qual)
            continue
        where = "%s:%d" % (f[1].rel, f[2].lineno)
        drawn = set(styled) if cmd == "best_fronts" else set(order) & set(styled)
        wrong, odd, n = None, None, 0
        for seed in range(12 if tier == "quick" else 60):
            plan = Plan(seed)
            fl = PlotFlow(repo)
            fl.prepare(plan)
            st = fl.start()
            args = st.new(Obj("dict", items=tuple((K(k), K(v)) for k, v in {"--bootstrap": "100", "--dir": "D", "-o": "P", "--selected": plan.selected}.items())))
            try:
                out = fl.run(f[1], f[2], [args], st=st)
                res.functions |= fl.functions
                for s, v in out:
                    if is_raise(v):
                        raise Wrong("no figures: the command ends with %s when %s" % (show(v)[:80], told(plan)))
                    n += JUDGES[cmd](fl, s, plan, drawn)
            except Wrong as e:
                wrong = "%s (%s)" % (e, told(plan))
                break
            except Odd as e:
                odd = odd or str(e)
            except (TooComplex, RecursionError, KeyError, IndexError, TypeError) as e:
                odd = odd or "%s: %s" % (type(e).__name__, str(e)[:200])
        total += n
        if wrong:
            res.bad(cmd, qual, where, wrong)
            continue
        if n:
            res.ok(cmd, "%s: %d series" % (qual, n))
        if odd:
            res.unknown(cmd, qual, odd)
    res.extra["series judged"] = total
    if not any(o[2] != "discharged" for o in res.obligations):
        res.floor("series judged", total, 100)


def told(plan):
    return "results of %s" % "; ".join("%s: %s" % (p, ", ".join("%s at %s%s" % (a, "/".join(map(str, plan.numbers[(p, a)])), "" if (p, a) in plan.accepted else " (none accepted)") for a in plan.order[p])) for p in plan.problems)[:400]
