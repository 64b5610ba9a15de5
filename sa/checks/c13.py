"""C13: metric tables agree: every name has one computation, direction and cache."""
import ast

from ..flow import K, T, TooComplex, is_raise, is_t, show
from . import store

TECHNIQUE = "abstract interpretation of the indicator table, its computations and caches over a symbolic results tree; table comparison"
NOTE = ("Whether an indicator's formula is right is the subject of C27. Better-is-smaller or larger is stated in the check for the nine indicators of the original.")
EXPLANATION = ("Every entry the indicator table yields is computed in the abstract for every stored result: which metric function is called with whose data, "
               "which cache file it writes, what a second computation returns, and what happens when the parameters have changed.  The tables of directions, "
               "tolerances and orders used by rankings and plots are evaluated and compared with the names and directions.")
BETTER = {"gd": "min", "igd": "min", "ahd": "min", "spacing": "min", "epsilon": "max", "extent": "max", "ndr": "max", "hypervolume": "max", "pdi": "max"}
MP = "simulation.metrics_processor."
WHERE = "simulation/metrics_processor.py"


def run(repo, res, tier):
    res.rule("computed", "each indicator is computed by the metric function of its name, for each result with that result's objective values and non-dominated part")
    res.rule("data", "the reference data an indicator gets is the problem's own front, or the solutions of the compared runs")
    res.rule("cache", "every indicator of every result has a cache file of its own, next to the result")
    res.rule("reuse", "a value computed again from the cache is the value computed before, and is not reused when the parameters differ")
    res.rule("cost", "the table starts with the cost stored with each result, which readers consume separately")
    res.rule("direction", "the tables of directions, tolerances and orders name the same offered indicators, each with its direction of better")
    n, names = 0, set()
    for mode in ("budget", "time"):
        try:
            k, names2 = table(repo, res, mode)
            n, names = n + k, names | names2
        except (TooComplex, RecursionError, KeyError, IndexError, ValueError, TypeError) as e:
            res.unknown("computed", mode, "%s: %s" % (type(e).__name__, e))
    directions(repo, res, names)
    res.floor("indicator computations followed", n, 40)


def nondominated(fit):
    """the frozen objective values without those the model calls dominated"""
    return T("list", tuple(x for x in fit[2] if not (is_t(x, "list") and x[2] and is_t(x[2][0], "ev") and x[2][0][3][-1] == 2)))


def fronts(fl, row):
    m = row["module"]
    return m[1] if m is not None and m[0] == "mod" else None


def table(repo, res, mode):
    fl, st, cases = store.fill(repo, mode)
    s, rows = store.reading(repo, fl, st, mode)
    if isinstance(rows, tuple):
        raise TooComplex("reading raises %s" % rows[1])
    bad, n = set(), 0
    files, first, names = {}, {}, set()
    for r in rows:
        s, vals = store.analyse(fl, s, r)
        shorts = [v["short"] for v in vals]
        names |= set(shorts)
        if not vals or shorts[0] != "cost":
            bad.add(("cost", "yield_metrics", "the first entry of the table is %s, not the cost" % (shorts[0] if shorts else "missing")))
        for sh in sorted(set(shorts)):
            k = [v for v in vals if v["short"] == sh]
            if len(k) != len(r["results"]):
                bad.add(("computed", "yield_metrics", "%s has %d computations for %d results" % (sh, len(k), len(r["results"]))))
        for v in vals:
            if v["i"] >= len(r["results"]):
                continue
            n += 1
            x = r["results"][v["i"]]
            sh, fn = v["short"], (v["long"] or "").replace(" ", "_")
            if is_raise(v["value"]):
                bad.add(("computed", sh, "computing %s raises %s" % (sh, v["value"][1])))
                continue
            if sh == "cost":
                if v["value"][0] == "c" and v["value"][2] != x["cost"]:
                    bad.add(("cost", "yield_metrics", "the cost entry is %s for a result stored with cost %s" % (show(v["value"]), x["cost"])))
                continue
            calls = [e for e in v["events"] if e[0] == "metric"]
            first[(r["problem"], r["algo"], r["measure"], x["id"], sh)] = v["value"]
            got = {e[1] for e in calls}
            if not calls:
                bad.add(("cache", sh, "%s of %s is not computed but taken from a cache nothing wrote for it" % (sh, x["name"])))
            elif got != {fn} and got != {sh}:
                bad.add(("computed", sh, "%s (%s) is computed by %s" % (sh, v["long"], ", ".join(sorted(got)))))
            for e in calls[:1]:
                own = x["fit"]
                if len(e[2]) >= 1 and is_t(e[2][0], "list") and e[2][0] != own:
                    bad.add(("computed", sh, "%s is computed from other objective values than the result's" % sh))
                if len(e[2]) >= 2 and is_t(e[2][1], "list") and e[2][1] != nondominated(own):
                    bad.add(("computed", sh, "%s gets another set as the result's non-dominated part" % sh))
                kw = dict(e[3])
                rest = list(e[2][2:]) + list(kw.values())
                for p in rest:
                    if is_t(p, "pareto") and p[2] != fronts(fl, r):
                        bad.add(("data", sh, "%s of %s is measured against the front of %s" % (sh, r["problem"], p[2])))
                if "pareto" in kw and not is_t(kw["pareto"], "pareto"):
                    bad.add(("data", sh, "%s is measured against something else than the problem's front" % sh))
            for e in v["events"]:
                if e[0] == "fs-open":
                    files.setdefault(e[1], set()).add((r["problem"], r["algo"], r["measure"], x["id"], sh))
    for f, who in files.items():
        kinds = {w[4] for w in who}
        if len(who) > 1 and kinds != {"pdi"}:
            a, b = sorted(who, key=repr)[:2]
            bad.add(("cache", b[4], "%s of run %s and %s of run %s share the cache file %s" % (a[4], a[3], b[4], b[3], f[-1])))
    # the same again, now from the caches
    s, rows2 = store.reading(repo, fl, s, mode)
    again = []
    for r in (rows2 if not isinstance(rows2, tuple) else ()):
        s, vals = store.analyse(fl, s, r)
        for v in vals:
            if v["short"] != "cost" and v["i"] < len(r["results"]):
                x = r["results"][v["i"]]
                old = first.get((r["problem"], r["algo"], r["measure"], x["id"], v["short"]))
                again.append((r, v))
                if is_raise(v["value"]):
                    bad.add(("reuse", v["short"], "computing %s a second time raises %s" % (v["short"], v["value"][1])))
                elif is_t(v["value"], "metric") and is_t(old, "metric") and v["value"] != old:
                    bad.add(("reuse", v["short"], "%s computed again is %s of %s" % (v["short"], v["value"][2], "/".join(map(str, v["value"][3] or ())))))
    # and with another reference front
    done = set()
    for r, v in again:
        p = v["partial"]
        if v["short"] in done or p[0] != "partial" or "pareto" not in dict(p[3]):
            continue
        done.add(v["short"])
        fl.steps = 0
        s.data["who"] = "other front"
        s3 = s.copy()
        mark = len(s3.trace)
        for s4, val in fl.call(s3, p, [], {"pareto": ("t", "pareto", "another")}, None):
            if not is_raise(val) and not any(e[0] == "metric" for e in s4.trace[mark:]):
                bad.add(("reuse", v["short"], "the cached %s is reused although the reference front has changed" % v["short"]))
    for rule, sh, why in sorted(bad)[:6]:
        res.bad(rule, MP + sh if "." not in sh else sh, WHERE, "%s (%s results)" % (why, mode))
    for rule in ("computed", "data", "cache", "reuse", "cost"):
        if rule not in {b[0] for b in bad}:
            res.ok(rule, mode)
    res.functions |= fl.functions
    return n, names


def constant(repo, mod, name):
    r = repo.resolve_global(repo.mod(mod), name)
    if not r or r[0] != "assign" or r[2] is None:
        return None
    return r[1], r[2]


def directions(repo, res, names):
    fl = store.StoreFlow(repo)
    st = fl.start()
    m = repo.mod("statistic.ranking")
    got = {}
    for name in ("best_func", "winner_tolerance", "metrics_order"):
        v = fl.global_name(st, m, name)[0][1] if constant(repo, "statistic.ranking", name) else None
        if v is None or is_raise(v):
            res.unknown("direction", name, "the table is gone")
            continue
        st2 = fl.global_name(st, m, name)[0][0]
        st = st2
        if v[0] == "o" and st.heap[v[1]].kind == "dict":
            got[name] = {k[2]: x for k, x in st.heap[v[1]].items}
        else:
            items = fl.exact(st, v)
            got[name] = {x[2]: None for x in items} if items is not None else None
    bf = got.get("best_func")
    where = "statistic/ranking.py"
    bad = False
    if bf:
        for k, x in sorted(bf.items()):
            if names and k not in names:
                res.bad("direction", "statistic.ranking.best_func", where, "ranks by %s, which no entry of the indicator table is called" % k)
                bad = True
            want = BETTER.get(k)
            have = x[1] if x[0] == "bi" else None
            if want and have in ("min", "max") and have != want:
                res.bad("direction", "statistic.ranking.best_func", where, "%s is ranked by %s although %s values are better" % (k, have, "smaller" if want == "min" else "larger"))
                bad = True
        for other in ("winner_tolerance", "metrics_order"):
            o = got.get(other)
            if o is None:
                continue
            miss = sorted(set(bf) - set(o))
            if miss:
                res.bad("direction", "statistic.ranking." + other, where, "has no entry for %s, which is ranked" % miss[0])
                bad = True
        t = got.get("winner_tolerance") or {}
        for k, x in sorted(t.items()):
            if x[0] == "c" and isinstance(x[2], (int, float)) and not 0 <= x[2] < 1:
                res.bad("direction", "statistic.ranking.winner_tolerance", where, "the tolerance of %s is %s, no relative share" % (k, x[2]))
                bad = True
    if bf and not bad:
        res.ok("direction", "best_func, winner_tolerance, metrics_order: %s" % ", ".join(sorted(bf)))
    # plotting and ranking look directions up in one table
    users = 0
    for mod in repo.modules.values():
        if not mod.name.startswith(("plots.", "statistic.", "simulation.")):
            continue
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Dict) and len(x.keys) >= 2 and all(isinstance(k, ast.Constant) and k.value in BETTER for k in x.keys):
                if all(isinstance(v, ast.Name) and v.id in ("min", "max") for v in x.values):
                    users += 1
                    for k, v in zip(x.keys, x.values):
                        if v.id != BETTER[k.value]:
                            res.bad("direction", mod.name, "%s:%d" % (mod.rel, x.lineno), "a table takes %s for the better %s" % (v.id, k.value))
    res.floor("direction tables", users, 1)
