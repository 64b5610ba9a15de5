"""C21: all readers number the runs of a problem in the same order."""
from ..flow import TooComplex, is_raise, is_t
from ..fsmodel import LISTINGS
from . import store

TECHNIQUE = "abstract interpretation of all readers of a results tree under different directory listing orders"
NOTE = ("Three runs of two algorithms on one or two problems stand for all; one of the runs lacks one of its results. Stray directories that no command of the "
        "system creates are outside the model.")
EXPLANATION = ("The readers of stored results and the indicator that compares runs with each other are interpreted over a symbolic results tree while the "
               "order in which the operating system lists a directory is varied, also between two readings.  Each reader's run number is mapped back to the run it stands for.")
READER = "simulation.serialization.each_result"
WHERE = "simulation/serialization.py"


def run(repo, res, tier):
    res.rule("stable", "the run called by a number is the same one for every budget or time, and whatever order directories are listed in")
    res.rule("matched", "solutions compared with a run's result are those of the runs with the same number, its own among them")
    res.rule("cached", "values cached while directories were listed in one order are valid when they are listed in another")
    n = 0
    for mode in ("budget", "time"):
        numbers = {}
        for listing in LISTINGS:
            tag = "%s results, listing %s" % (mode, listing)
            try:
                n += one(repo, res, mode, listing, tag, numbers, tier)
            except (TooComplex, RecursionError, KeyError, IndexError, ValueError, TypeError) as e:
                res.unknown("matched", tag, "%s: %s" % (type(e).__name__, e))
        for k, v in sorted(numbers.items(), key=repr):
            ids = {i for i, _ in v}
            if len(ids) > 1:
                a, b = sorted(v)[0], [x for x in sorted(v) if x[0] != sorted(v)[0][0]][0]
                res.bad("stable", READER, WHERE, "run %s of %s on %s is %s in one reading (%s) and %s in another (%s)" % (k[2], k[1], k[0], a[0], a[1], b[0], b[1]))
                break
        else:
            if numbers:
                res.ok("stable", mode)
    res.floor("comparisons between runs followed", n, 4)


def one(repo, res, mode, listing, tag, numbers, tier):
    problems = "ZDT1,UF1" if tier == "thorough" else "ZDT1"
    fl, st, cases = store.fill(repo, mode, runs_no=3, problems=problems)
    # the first run of one algorithm lacks one of its results
    lost = cases[0]["files"][-1]
    w = fl.wfs(st)
    w.pop(lost)
    fl.listing = listing
    s, rows = store.reading(repo, fl, st, mode)
    if isinstance(rows, tuple):
        res.unknown("stable", tag, "reading raises %s" % rows[1])
        return 0
    for r in rows:
        for x in r["results"]:
            numbers.setdefault((r["problem"], r["algo"], x["run_no"]), set()).add((x["id"], "%s, %s %s" % (listing, mode, r["measure"])))
    case_of = {(c["problem_name"], c["algorithm_name"], c["id"]): c["case"] for c in cases}
    by_no = {}
    for r in rows:
        for x in r["results"]:
            by_no.setdefault((r["problem"], r["measure"], x["run_no"]), {})[r["algo"]] = case_of.get((r["problem"], r["algo"], x["id"]))
    n, bad = 0, None
    values = {}
    for r in rows:
        s, vals = store.analyse(fl, s, r)
        for v in vals:
            if v["i"] < len(r["results"]):
                x = r["results"][v["i"]]
                values[(r["problem"], r["algo"], r["measure"], x["id"], v["short"])] = v["value"]
                if is_raise(v["value"]) and bad is None:
                    bad = "computing %s for run %s (number %s) of %s raises %s" % (v["short"], x["id"], x["run_no"], r["algo"], v["value"][1])
                for e in v["events"]:
                    if e[0] != "metric":
                        continue
                    alls = dict(e[3]).get("all_solutions")
                    if alls is None:
                        continue
                    n += 1
                    got = cases_in(alls)
                    want = set(by_no[(r["problem"], r["measure"], x["run_no"])].values())
                    own = case_of[(r["problem"], r["algo"], x["id"])]
                    if got is None:
                        continue
                    if got != want and bad is None:
                        names = {c["case"]: "%s of %s" % (c["id"], c["algorithm_name"]) for c in cases}
                        bad = "run %s (number %s) of %s is compared with solutions of %s%s" % (
                            x["id"], x["run_no"], r["algo"], ", ".join(names[c] for c in sorted(got)) or "no run",
                            "" if own in got else ", not its own")
    if bad:
        res.bad("matched", "simulation.metrics_processor.preload_results_for_problem", "simulation/metrics_processor.py", "%s (%s)" % (bad, tag))
    else:
        res.ok("matched", tag)
    # read again while directories are listed the other way round
    fl.listing = "reversed" if listing == "sorted" else "sorted"
    s, rows = store.reading(repo, fl, s, mode)
    if isinstance(rows, tuple):
        res.unknown("cached", tag, "reading raises %s" % rows[1])
        return n
    why = None
    for r in rows:
        s, vals = store.analyse(fl, s, r)
        for v in vals:
            if v["i"] >= len(r["results"]) or why:
                continue
            x = r["results"][v["i"]]
            old = values.get((r["problem"], r["algo"], r["measure"], x["id"], v["short"]))
            if is_raise(v["value"]) and not (old is not None and is_raise(old)):
                why = "computing %s of run %s of %s again raises %s" % (v["short"], x["id"], r["algo"], v["value"][1])
            elif old is not None and old != v["value"] and is_t(v["value"], "metric") and is_t(old, "metric"):
                why = "%s of run %s of %s is %s in the second reading" % (v["short"], x["id"], r["algo"], "another run's value")
    if why:
        res.bad("cached", "simulation.metrics_processor.get_metric", "simulation/metrics_processor.py", "%s (first listed %s)" % (why, tag))
    else:
        res.ok("cached", tag)
    res.functions |= fl.functions
    return n


def cases_in(v):
    """the cases whose solutions occur in a frozen value"""
    out = set()

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 4 and x[0] == "t" and x[1] == "ev":
                out.add(x[3][0])
                return
            for y in x:
                walk(y)
    walk(v)
    return out
