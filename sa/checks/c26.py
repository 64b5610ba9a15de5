"""C26: a stored result pairs every solution with its own objective values."""
from ..flow import K, NONE, Obj, T, TooComplex, TUP, is_raise, is_t, show
from ..runmodel import RunFlow
from . import runs

TECHNIQUE = "path-sensitive abstract interpretation of the storing and loading code"
NOTE = "The reactive pipeline is modelled as synchronous; objective functions and the driver's population are opaque terms, the population has three members."
EXPLANATION = ("The workers are interpreted from the parsed command line to the pickling call over an opaque driver and problem; the "
               "object handed to pickle on every path is compared, member by member, with the population of that moment, its "
               "objective terms and the cost term.  The driver hands its population out as a list and as a one-shot iterator.")


def run(repo, res, tier):
    res.rule("stored", "the stored population is the whole population of that moment, materialised, and the stored objective values are the problem's, member by member in the same order")
    res.rule("cost", "the stored cost is the driver's cost at the moment of storing")
    res.rule("returned", "the result handed back holds the cost and population that were stored")
    res.rule("loaded", "a loaded result exposes the stored population, objective values and additional data unchanged")
    n = 0
    for oneshot in (False, True):
        for mode, fl, st, factory, case in runs.workers(repo):
            tag = "%s worker, population as %s" % (mode, "iterator" if oneshot else "list")
            if st is None or factory is None:
                res.unknown("stored", tag, "the configuration of a run is not understood")
                continue
            q, where = runs.qual(repo, factory)
            fl.oneshot = oneshot
            try:
                out = runs.run_worker(fl, st, factory, case)
            except (TooComplex, RecursionError) as e:
                bad = {w for w in (stored(fl, d[1], d[3]) for d in fl.dumped) if w}
                for rule, why in sorted(bad):
                    res.bad(rule, q, where, "%s (%s)" % (why, tag))
                n += len(fl.dumped)
                if not bad:
                    res.unknown("stored", tag, str(e))
                continue
            res.functions |= fl.functions
            n += check(res, fl, out, q, where, tag)
    res.floor("paths with a stored result", n, 1)
    loading(repo, res)


def check(res, fl, out, q, where, tag):
    n = 0
    bad = set()
    crashed = [v for _, v in out if is_raise(v)]
    for s, v in out:
        dumps = [e for e in s.trace if e[0] == "dump"]
        for _, obj, fh, k in dumps:
            n += 1
            why = stored(fl, obj, k)
            if why:
                bad.add(why)
        if is_raise(v):
            continue
        for why in returned(fl, s, v, [e[3] for e in dumps]):
            bad.add(("returned", why))
    for rule, why in sorted(bad):
        res.bad(rule, q, where, "%s (%s)" % (why, tag))
    rules = {r for r, _ in bad}
    for r in ("stored", "cost", "returned"):
        if r not in rules:
            if n and not (r == "stored" and crashed and len(crashed) == len(out)):
                res.ok(r, tag)
            elif crashed and all(c[1] in ("TypeError", "AttributeError") for c in crashed) and r == "stored":
                res.bad(r, q, where, "no result is stored: %s %s (%s)" % (crashed[0][1], crashed[0][2] or "", tag))
            else:
                res.unknown(r, tag, "no stored result on any path")
    return n


def stored(fl, obj, k):
    f = runs.inst_fields(obj)
    if not f:
        return None
    pops = [x for x in f.values() if is_t(x, "list") or is_t(x, "tuple") or is_t(x, "iterator")]
    pop = f.get("population")
    fit = f.get("fitnesses")
    if pop is None or fit is None:
        return ("stored", "the stored object has no population or no objective values")
    if is_t(pop, "iterator"):
        return ("stored", "the stored population is an iterator, empty when it is read")
    if is_t(fit, "iterator"):
        return ("stored", "the stored objective values are an iterator")
    members = pop[2] if is_t(pop, "list") or is_t(pop, "tuple") else None
    fits = fit[2] if is_t(fit, "list") or is_t(fit, "tuple") else None
    if members is None or fits is None:
        return None
    who = [m[2] for m in members if is_t(m, "member")]
    if len(who) == len(members):
        want = [(k, m) for m in range(fl.members)]
        if sorted(who) != want:
            old = sorted({w[0] for w in who})
            if len(who) != len(want):
                return ("stored", "%d of %d members of the population are stored" % (len(who), len(want)))
            return ("stored", "the population stored is not the one of that moment" if old != [k] else "a member is stored twice, another one not at all")
        if len(fits) != len(members):
            return ("stored", "%d solutions are stored with %d objective vectors" % (len(members), len(fits)))
        for i, (w, x) in enumerate(zip(who, fits)):
            vals = x[2] if is_t(x, "list") or is_t(x, "tuple") else None
            if vals is None or not all(is_t(y, "ev") for y in vals):
                continue
            if list(vals) != [T("ev", c, w) for c in range(fl.objectives)]:
                return ("stored", "solution %d is stored with the objective values %s" % (i, ", ".join("f%d(solution of position %s)" % (y[2], y[3][1]) for y in vals)))
    add = f.get("additional_data")
    cost = dict((a, b) for a, b in add[2]).get(K("cost")) if is_t(add, "dict") else None
    if cost is None:
        return ("cost", "no cost is stored with the result")
    if is_t(cost, "cost") and cost != T("cost", k):
        return ("cost", "the stored cost is the one before the last step" if cost[2] < k else "the stored cost is not the current one")
    if cost[0] == "c":
        return ("cost", "the stored cost is the constant %s" % show(cost))
    return None


def returned(fl, s, v, ks):
    items = fl.exact(s, v)
    if items is None:
        return
    if len(items) != len(ks):
        yield "%d results are handed back, %d were stored" % (len(items), len(ks))
        return
    for x, k in zip(items, ks):
        pair = fl.exact(s, x)
        if pair is None or len(pair) != 2:
            continue
        if is_t(pair[0], "cost") and pair[0] != T("cost", k):
            yield "the cost handed back is not the one stored"
        pop = pair[1]
        if pop[0] == "o":
            o = s.heap[pop[1]]
            if o.cls in ("oneshot", "generator"):
                yield "the population handed back is an exhausted iterator"
                continue
            who = [fl.who(s, m) for m in o.items]
            if None not in who and sorted(who) != [(k, m) for m in range(fl.members)]:
                yield "the population handed back is not the one stored"


def loading(repo, res):
    """ResultWithMetadata(result, path, run, case) exposes the stored parts"""
    cls = [c for c in repo.classes.values() if c.name == "ResultWithMetadata"]
    if not cls:
        res.unknown("loaded", "ResultWithMetadata", "class is gone")
        return
    ci = cls[0]
    where = "%s:%d" % (ci.module.rel, ci.node.lineno)
    base = [c for c in repo.mro(ci) if c is not ci]
    try:
        fl = RunFlow(repo)
        st = fl.start()
        pop, fit = st.new(Obj("list", items=(T("p", 0), T("p", 1)))), st.new(Obj("list", items=(T("f", 0), T("f", 1))))
        cost = T("storedcost")
        made = fl.instantiate(st, base[-1].qual if base else ci.qual, [pop, fit], {"cost": cost}, None)
        ok = True
        for s, r in made:
            if is_raise(r):
                res.unknown("loaded", ci.name, show(r[1:2]))
                return
            for s2, v in fl.instantiate(s, ci.qual, [r, T("path", (K("RESULTS"), K("100.pickle"))), K(0), T("case")], {}, None):
                if is_raise(v):
                    res.bad("loaded", ci.qual, where, "a stored result cannot be loaded: %s %s" % (v[1], v[2] or ""))
                    return
                f = s2.heap[v[1]].fields
                for name, want in (("population", (T("p", 0), T("p", 1))), ("fitnesses", (T("f", 0), T("f", 1)))):
                    got = fl.exact(s2, f[name]) if name in f else None
                    if name not in f or got is not None and tuple(got) != want:
                        res.bad("loaded", ci.qual, where, "the %s of a loaded result %s" % (name, "is missing" if name not in f else "is not the stored one"))
                        ok = False
                add = f.get("additional_data")
                d = dict(s2.heap[add[1]].items) if add and add[0] == "o" and s2.heap[add[1]].kind == "dict" else None
                if d is not None and d.get(K("cost")) != cost:
                    res.bad("loaded", ci.qual, where, "the cost of a loaded result is not the stored one")
                    ok = False
        if ok:
            res.ok("loaded", ci.name)
        res.functions |= fl.functions
    except (TooComplex, RecursionError) as e:
        res.unknown("loaded", ci.name, str(e))
