"""C12: what a run stores is found again under the same identity."""
import datetime

from ..flow import K, NONE, Obj, TooComplex, is_raise, show
from ..fsmodel import LISTINGS
from . import store

TECHNIQUE = "abstract interpretation of the storing and reading code over a symbolic results tree"
NOTE = ("Two algorithms, two problems and two runs stand for all; names of directories and files are computed from the code's own format strings "
        "over sample dates, run numbers and budgets; directory listings are explored in three orders. Crashes and concurrent writers are outside the model.")
EXPLANATION = ("The workers are interpreted from the parsed command line over an opaque driver; what they write forms a tree of names and abstract "
               "contents.  each_result is interpreted over that tree, once as written and once more after every indicator has been computed and cached.")
READER = "simulation.serialization.each_result"


def run(repo, res, tier):
    res.rule("found", "every stored result file is read exactly once")
    res.rule("identity", "a stored result is read back under the algorithm, problem, run and cost or time it was stored for, with the contents stored")
    res.rule("caches", "files the statistics write are not taken for results, and the stored results read the same after them")
    res.rule("names", "runs of every date, run number, and budgets and times of every number of digits are recognised by the reader")
    n = 0
    for mode in ("budget", "time"):
        for listing in LISTINGS if tier == "thorough" else LISTINGS[:2]:
            tag = "%s results, listing %s" % (mode, listing)
            try:
                n += one(repo, res, mode, listing, tag)
            except (TooComplex, RecursionError, KeyError, IndexError, ValueError, TypeError) as e:
                res.unknown("found", tag, "%s: %s" % (type(e).__name__, e))
    try:
        n += shapes(repo, res, tier)
    except (TooComplex, RecursionError, KeyError, IndexError, ValueError, TypeError) as e:
        res.unknown("names", "shapes of names", "%s: %s" % (type(e).__name__, e))
    res.floor("stored files read back", n, 8)


def one(repo, res, mode, listing, tag):
    fl, st, cases = store.fill(repo, mode)
    fl.listing = listing
    where = "simulation/serialization.py"
    s, rows = store.reading(repo, fl, st, mode)
    if isinstance(rows, tuple):
        res.bad("found", READER, where, "reading what the runs stored fails with %s (%s)" % (rows[1], tag))
        return 0
    before = compare(res, fl, s, mode, cases, rows, where, tag)
    # compute everything once, then read again
    for r in rows:
        s, vals = store.analyse(fl, s, r)
        failed = [v for v in vals if is_raise(v["value"])]
        if failed:
            res.unknown("caches", tag, "computing %s raises %s" % (failed[0]["short"], failed[0]["value"][1]))
            return before
    s2, again = store.reading(repo, fl, s, mode)
    if isinstance(again, tuple):
        res.bad("caches", READER, where, "after the indicators were cached, reading the results fails with %s (%s)" % (again[1], tag))
        return before
    a, b = key(rows), key(again)
    if a != b:
        extra, lost = sorted(set(b) - set(a), key=repr), sorted(set(a) - set(b), key=repr)
        res.bad("caches", READER, where, "after the indicators were cached %s (%s)" % (
            "%s is read as a result" % "/".join(extra[0][5]) if extra else "%s is no longer read" % "/".join(lost[0][5]) if lost else "results are read more than once", tag))
    else:
        res.ok("caches", tag)
    res.functions |= fl.functions
    return before


# every digit occurs at every place of a date, a run number and a budget where it can
DATES = [datetime.datetime(2000 + 11 * i % 100, 1 + i % 12, 1 + (3 * i) % 31 if i % 12 not in (1, 3, 5, 8, 10) else 1 + (3 * i) % 28,
                           (7 * i) % 24, (11 * i) % 60, (13 * i) % 60, (111111 * i) % 1000000) for i in range(60)]
DATES += [datetime.datetime(2024, 2, 29, 23, 59, 59, 999999), datetime.datetime(2030, 12, 31, 0, 0, 0, 0), datetime.datetime(2029, 10, 30, 20, 0, 9, 7)]
NUMBERS = sorted({int(str(d) + str((d + j) % 10) * j) for d in range(1, 10) for j in range(0, 9)})


def shapes(repo, res, tier):
    """runs at many dates store results for many budgets; all are looked for"""
    n = 0
    m, case_cls = store.cls(repo, "simulation.model", "SimulationCase")
    m2, ser_cls = store.cls(repo, "simulation.serializer", "Serializer")
    m3, rm_cls = store.cls(repo, "simulation.serializer", "Result")
    for mode, ext in (("budget", "BudgetResultsExtractor"), ("time", "TimeResultsExtractor")):
        for what in ("dates", "numbers"):
            fl = store.StoreFlow(repo)
            fl.dates = DATES
            st = fl.start()
            st.data["k"] = 0
            want = set()
            ids = range(len(DATES)) if what == "dates" else [1]
            for i in ids:
                run_id = [i, 1234567 + 11111 * i, 9999999 - i, 111 * i][i % 4]
                st = one_path(fl.instantiate(st, case_cls.qual, [K("ZDT1"), K("SPEA2"), K(run_id), NONE, K(store.ROOT)], {}, None))
                st, case = st
                st, cid = one_path(fl.getattr(st, case, "id", None))
                st, ser = one_path(fl.instantiate(st, ser_cls.qual, [case], {}, None))
                for k in [500] if what == "dates" else NUMBERS:
                    pop = st.new(Obj("list", items=()))
                    st, r = one_path(fl.instantiate(st, rm_cls.qual, [pop, pop], {"cost": K(k)}, None))
                    st, g = one_path(fl.getattr(st, ser, "store", None))
                    st, _ = one_path(fl.call(st, g, [r, K(k)], {}, None))
                    want.add((cid[2] if cid[0] == "c" else cid, k))
            mx, ex_cls = store.cls(repo, "simulation.serialization", ext)
            st, ex = one_path(fl.instantiate(st, ex_cls.qual, [], {}, None))
            st, g = one_path(fl.getattr(st, ex, "load", None))
            st, rows = one_path(fl.call(st, g, [K("SPEA2"), K("ZDT1"), K(store.ROOT)], {}, None))
            got = set()
            for s2, its in fl.items_of(st, rows, None):
                for row in its:
                    results, conf = fl.exact(s2, row)
                    measure = {a[2]: b for a, b in s2.heap[conf[1]].items}[mode]
                    for x in fl.exact(s2, results):
                        _, c = one_path(fl.getattr(s2, x, "simulation_case", None))
                        _, i = one_path(fl.getattr(s2, c, "id", None))
                        got.add((i[2] if i[0] == "c" else i, measure[2] if measure[0] == "c" else measure))
            n += len(want)
            if got != want:
                lost, extra = sorted(want - got, key=repr), sorted(got - want, key=repr)
                res.bad("names", READER, "simulation/serialization.py", "the result of run %s for %s %s is %s" % (
                    (lost + extra)[0][0], mode, (lost + extra)[0][1], "stored but not found again" if lost else "found but was not stored"))
            else:
                res.ok("names", "%s results, %d %s" % (mode, len(want), what))
            res.functions |= fl.functions
    return n


def one_path(out):
    if len(out) == 1 and not is_raise(out[0][1]):
        return out[0]
    raise TooComplex("%d outcomes: %s" % (len(out), [show(v)[:80] for _, v in out][:2]))


def key(rows):
    return sorted(((r["problem"], r["algo"], r["measure"], x["run_no"], x["id"], x["path"], x["pop"]) for r in rows for x in r["results"]), key=repr)


def compare(res, fl, s, mode, cases, rows, where, tag):
    stored = {}
    for c in cases:
        for f in c["files"]:
            stored[f] = c
    seen = {}
    bad = set()
    for r in rows:
        if r["outer"] != (r["problem"], r["algo"]):
            bad.add(("identity", "results of %s on %s are handed out as those of %s on %s" % (r["algo"], r["problem"], r["outer"][1], r["outer"][0])))
        for x in r["results"]:
            seen.setdefault(x["path"], []).append((r, x))
    for f, c in stored.items():
        name = "/".join(f)
        got = seen.pop(f, [])
        if len(got) != 1:
            bad.add(("found", "the stored file %s is %s" % (name, "never read" if not got else "read %d times" % len(got))))
            continue
        r, x = got[0]
        for what, want, have in (("problem", c["problem_name"], r["problem"]), ("algorithm", c["algorithm_name"], r["algo"]),
                                 ("problem of its run", c["problem_name"], x["problem"]), ("algorithm of its run", c["algorithm_name"], x["algo"]), ("run", c["id"], x["id"])):
            if want != have:
                bad.add(("identity", "%s is read with %s %s instead of %s" % (name, what, have, want)))
        if r["kind"] != mode:
            bad.add(("identity", "%s is read as a result of kind %s" % (name, r["kind"])))
        members = {m[0] for m in x["pop"] if m}
        if members and members != {c["case"]}:
            bad.add(("identity", "%s is read with another run's solutions" % name))
        steps = {m[1] for m in x["pop"] if m}
        if mode == "budget" and len(steps) == 1 and r["measure"] != 100 * min(steps):
            bad.add(("identity", "the result stored for budget %s is read as budget %s" % (100 * min(steps), r["measure"])))
        if mode == "budget" and x["cost"] is not None and len(steps) == 1 and x["cost"] != 100 * min(steps):
            bad.add(("identity", "%s is read with cost %s instead of %s" % (name, x["cost"], 100 * min(steps))))
    for f in seen:
        bad.add(("found", "%s is read although no run stored it" % "/".join(f)))
    if mode == "time":
        got = {}
        for r in rows:
            for x in r["results"]:
                got.setdefault((x["path"][:-1]), set()).add(r["measure"])
        for d, m in got.items():
            if m != {3, 6, 9, 12, 15, 18}:
                bad.add(("identity", "results stored every 3 of 20 seconds are read for the times %s" % sorted(m, key=repr)))
    runs = {}
    for r in rows:
        for x in r["results"]:
            runs.setdefault((r["problem"], r["algo"], x["run_no"]), set()).add(x["id"])
    for k, v in runs.items():
        if len(v) > 1:
            bad.add(("identity", "run %s of %s on %s names %d different runs" % (k[2], k[1], k[0], len(v))))
    for rule, why in sorted(bad)[:4]:
        res.bad(rule, READER, where, "%s (%s)" % (why, tag))
    for rule in ("found", "identity"):
        if rule not in {b[0] for b in bad}:
            res.ok(rule, tag)
    return len(stored)
