"""A results directory filled by the workers' own code and read back by the readers' own code (shared by C12, C13, C21, C22)."""
from ..core import AnalysisBroken
from ..flow import K, NONE, Obj, T, TooComplex, is_c, is_raise, is_t, show
from ..fsmodel import FsFlow
from ..runmodel import DRIVER, LOGGER, PROBLEM
from . import runs

ROOT = "RESULTS"


class StoreFlow(FsFlow):
    """metric computations are opaque and recorded; filtering drops the last member of every population"""
    metrics_module = "metrics.metrics"

    def metric_names(self):
        m = self.repo.mod(self.metrics_module)
        return m

    def call_fn(self, st, fv, args, kw, node):
        module, fn, ci = self.fnkeys[fv[1]]
        name = getattr(fn, "name", None)
        if ci is None and name and module.name.startswith("metrics.") and not self.where().startswith("metrics."):
            if name.startswith("filter_not_dominated"):
                items = self.exact(st, args[0]) if args else None
                if items is not None:
                    kept = [x for x in items if not self.dominated(st, x)] or items
                    return [(st, st.new(Obj("list", items=tuple(kept))))]
            st.event("metric", name, tuple(self.frozen(st, a) for a in args), tuple(sorted((k, self.frozen(st, v)) for k, v in kw.items())))
            return [(st, T("metric", name, st.data.get("who")))]
        return super().call_fn(st, fv, args, kw, node)

    def dominated(self, st, x):
        """objective values of the last member of a population count as dominated by the others"""
        vals = self.exact(st, x)
        return bool(vals) and is_t(vals[0], "ev") and vals[0][3][-1] == 2

    def compare_hook(self, st, op, a, b, n):
        if op == "Eq" and a[0] == b[0] == "t" and (any(is_t(x, "pareto") for x in (a, b)) or is_t(a, "ev") and is_t(b, "ev")):
            # different fronts, and objective values of different solutions, are different
            return [(st, a == b)]
        return super().compare_hook(st, op, a, b, n)

    def is_number(self, st, v):
        return is_t(v, "ev")

    def global_var(self, st, module, value, name, stmt):
        if module.name.startswith("problems.") and name == "pareto_front":
            return [(st, T("pareto", module.name))]
        return super().global_var(st, module, value, name, stmt)


def func(repo, mod, name):
    r = repo.resolve_global(repo.mod(mod), name)
    if not r or r[0] != "func":
        raise AnalysisBroken("%s.%s is gone" % (mod, name))
    return r[1], r[2]


def cls(repo, mod, name):
    r = repo.resolve_global(repo.mod(mod), name)
    if not r or r[0] != "class":
        raise AnalysisBroken("%s.%s is gone" % (mod, name))
    return repo.mod(mod), r[1]


def arguments(fl, st, mode, runs_no, algos, problems, root=ROOT):
    a = dict(runs_args(mode))
    a["--dir"] = root
    a.update({"--algo": algos, "--problem": problems, "-N": str(runs_no)})
    return st.new(Obj("dict", items=tuple((K(k), K(v)) for k, v in a.items())))


def runs_args(mode):
    return {
        "budget": mode == "budget", "time": mode == "time", "run": True,
        "<budget>": "1000,500" if mode == "budget" else None,
        "<timeout>": "20" if mode == "time" else None, "<step>": "3" if mode == "time" else None,
        "--timeout": mode == "time", "-t": False, "--step": mode == "time", "-s": False,
        "-j": "1", "--renice": None, "--dir": ROOT, "-o": "PLOTS", "--bootstrap": "100",
    }


def fill(repo, mode, fl=None, runs_no=2, algos="SPEA2,IMGA+NSGAII", problems="ZDT1,UF1", root=ROOT, st=None):
    """-> (flow, state, cases): every case of the configuration run over the opaque driver, one path only"""
    fl = fl or StoreFlow(repo)
    if st is None:
        st = fl.start()
        for i in range(len(fl.pkey(K(root)))):
            fl.wfs(st)[fl.pkey(K(root))[:i + 1]] = None
    m, f = func(repo, "simulation.factory", "resolve_configuration")
    base = st.data.get("case", -1) + 1
    out = [(s, v) for s, v in fl.run(m, f, [arguments(fl, st, mode, runs_no, algos, problems, root)], st=st) if not is_raise(v)]
    if len(out) != 1:
        raise TooComplex("the configuration of a run is not understood (%d outcomes)" % len(out))
    st, v = out[0]
    items = fl.exact(st, v)
    cases = fl.exact(st, items[1]) if items and len(items) == 2 else None
    if not cases:
        raise TooComplex("the simulation cases are not understood")
    done = []
    for i, c in enumerate(cases):
        fl.steps, fl.frames = 0, []
        st.data["case"], st.data["k"] = base + i, 0
        before = set(st.data["fs"])
        st.trace = ()
        res = fl.bind(fl.call(st, items[0], [c, K(i)], {}, None), lambda s, w: fl.bind(
            fl.getattr(s, w, "run_driver", None), lambda s2, g: fl.call(s2, g, [DRIVER, PROBLEM, LOGGER], {}, None)))
        good = [(s, x) for s, x in res if not is_raise(x)]
        if len(good) != 1:
            raise TooComplex("a run has %d outcomes: %s" % (len(res), [show(x[1:2]) if is_raise(x) else "ok" for _, x in res][:3]))
        st = good[0][0]
        f = {k: fl.getattr(st, c, k, None)[0][1] for k in ("problem_name", "algorithm_name", "id", "run_id")}
        done.append({"case": base + i, "value": c, **{k: (x[2] if is_c(x) else x) for k, x in f.items()},
                     "files": [e[1] for e in st.trace if e[0] == "fs-write"], "before": before,
                     "removed": [(e[1], e[2]) for e in st.trace if e[0] == "fs-remove"], "opened": [(e[1], e[2]) for e in st.trace if e[0] == "fs-open"]})
    st.trace = ()
    return fl, st, done


def read(repo, fl, st, mode, root=ROOT):
    """each_result over the tree -> [(state, [{problem, algo, measure, results, analysis}])]"""
    m, f = func(repo, "simulation.serialization", "each_result")
    r = repo.resolve_global(m, "BudgetResultsExtractor" if mode == "budget" else "TimeResultsExtractor")
    if not r or r[0] != "class":
        raise AnalysisBroken("the results extractors are gone")
    fl.steps, fl.frames = 0, []
    out = []
    for s, ex in fl.instantiate(st, r[1].qual, [], {}, None):
        for s2, v in fl.run(m, f, [ex, K(root)], st=s):
            if is_raise(v):
                out.append((s2, v))
                continue
            rows = []
            for s3, triples in fl.items_of(s2, v, None):
                cur = [(s3, rows)]
                for t in triples:
                    nxt = []
                    for s4, acc in cur:
                        pn, pm, algos = fl.exact(s4, t)
                        for s5, pairs in fl.items_of(s4, algos, None):
                            for p in pairs:
                                an, inner = fl.exact(s5, p)
                                got, = fl.items_of(s5, inner, None)
                                s5, dicts = got
                                for d in dicts:
                                    dd = {k[2]: x for k, x in s5.heap[d[1]].items}
                                    acc = acc + [{"outer": (pn, an), "module": pm, **dd}]
                            nxt.append((s5, acc))
                    cur = nxt
                out.extend(cur)
    return out


def whole(fl, s, rows):
    """rows -> [{problem, algo, budget, measure, results: [{run_no, id, name, path, problem, algo, pop, fit, cost, value}], analysis}]"""
    out = []
    for r in rows:
        d = {k: (v[2] if v[0] == "c" else v) for k, v in r.items() if k in ("problem", "algo", "budget", "time")}
        d["outer"] = tuple(v[2] if v[0] == "c" else v for v in r["outer"])
        d["measure"] = d.get("budget", d.get("time"))
        d["kind"] = "budget" if "budget" in d else "time" if "time" in d else None
        d["analysis"] = r.get("analysis")
        d["module"] = r.get("module")
        d["results"] = []
        items = fl.exact(s, r["results"]) if "results" in r else None
        if items is None:
            raise TooComplex("the results of a row are not a list")
        for x in items:
            f = {}
            for k in ("population", "fitnesses", "additional_data", "path", "name", "run_no", "simulation_case"):
                got = fl.getattr(s, x, k, None)
                if len(got) != 1 or is_raise(got[0][1]):
                    raise TooComplex("a result has no %s" % k)
                f[k] = got[0][1]
            c = {}
            for k in ("problem_name", "algorithm_name", "id"):
                got = fl.getattr(s, f["simulation_case"], k, None)[0][1]
                c[k] = got[2] if got[0] == "c" else got
            pop = fl.exact(s, f["population"]) or ()
            add = s.heap[f["additional_data"][1]].items if f["additional_data"][0] == "o" else ()
            d["results"].append({
                "value": x, "id": c["id"], "problem": c["problem_name"], "algo": c["algorithm_name"],
                "run_no": f["run_no"][2] if f["run_no"][0] == "c" else f["run_no"],
                "name": f["name"][2] if f["name"][0] == "c" else f["name"], "path": fl.pkey(f["path"]),
                "pop": tuple(fl.who(s, m) for m in pop), "fit": fl.frozen(s, f["fitnesses"]),
                "cost": next((v[2] for k, v in add if k == K("cost") and v[0] == "c"), None)})
        out.append(d)
    return out


def reading(repo, fl, st, mode, root=ROOT):
    """one path: (state, rows) or (state, raise value)"""
    out = read(repo, fl, st, mode, root)
    if len(out) != 1:
        raise TooComplex("reading the results has %d outcomes" % len(out))
    s, rows = out[0]
    return (s, rows) if isinstance(rows, tuple) else (s, whole(fl, s, rows))


def analyse(fl, s, row):
    """the row's indicators computed -> (state, [{short, long, i, value, events}]), values per result"""
    out = []
    if row["analysis"] is None:
        raise TooComplex("a row has no analysis")
    (s, entries), = fl.items_of(s, row["analysis"], None)
    for e in entries:
        parts = fl.exact(s, e)
        if parts is None or len(parts) != 3 or parts[0][0] != "c":
            raise TooComplex("an analysis entry is not (name, long name, computations)")
        comps = fl.exact(s, parts[2])
        if comps is None:
            raise TooComplex("the computations of %s are not a list" % show(parts[0]))
        for i, p in enumerate(comps):
            fl.steps = 0
            mark = len(s.trace)
            s.data["who"] = (row["problem"], row["algo"], row["measure"], row["results"][i]["id"]) if i < len(row["results"]) else None
            res = fl.call(s, p, [], {}, None)
            if res and all(is_raise(v) for _, v in res):
                res = res[:1]
            if len(res) != 1:
                raise TooComplex("computing %s has %d outcomes" % (show(parts[0]), len(res)))
            s, v = res[0]
            out.append({"short": parts[0][2], "long": parts[1][2] if parts[1][0] == "c" else None, "i": i, "n": len(comps), "value": v, "partial": p, "events": s.trace[mark:]})
    return s, out
