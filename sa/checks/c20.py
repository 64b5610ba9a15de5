"""C20: a run stops when, and only when, its budget, step count or time is used up."""
import ast
from fractions import Fraction

from .. import core
from ..flow import INF, K, NONE, Obj, T, TooComplex, canon_lin, is_c, is_raise, is_t, lin, lin_sub, show
from ..runmodel import DRIVER, RunFlow
from . import runs

TECHNIQUE = "path-sensitive abstract interpretation of the run loops (event order against branch facts)"
NOTE = "Costs and clock readings are opaque ordered terms; at most three steps per budget are explored, reactive pipelines are synchronous, termination of a single step is not decided."
EXPLANATION = ("The run classes, the workers and the step counter are interpreted over an opaque driver.  On every path each step must be "
               "preceded by the decision that the budget (time) is not used up, each result by the decision that it is, and the observer's "
               "notifications are counted.")


class LoopFlow(RunFlow):
    def less(self, st, a, b, n):
        out = super().less(st, a, b, n)
        for s, r in out:
            if isinstance(r, bool) and (a[0] == "t" or b[0] == "t"):
                s.event("less", a, b, r)
        return out

    def opaque_call(self, st, fv, args, kw, n):
        if is_t(fv, "cb"):
            st.event("cb", fv[2], args[0] if args else NONE, self.k(st))
            return [(st, NONE)]
        return super().opaque_call(st, fv, args, kw, n)

    def ext_call(self, st, name, args, kw, n):
        if name.startswith("time.") and not args:
            v = st.fresh("clock", name)
            st.event("clock", v, self.k(st))
            return [(st, v)]
        return super().ext_call(st, name, args, kw, n)


def run(repo, res, tier):
    res.rule("budget", "a budget run steps exactly while the reported cost is below the budget, and completes once")
    res.rule("steps", "a step run performs exactly the given number of steps and emits each step's result")
    res.rule("time", "a time run steps only while the measured time is below the limit, emits slots in order up to the limit, and completes once")
    res.rule("worker", "every requested budget gets exactly one result, in increasing order, under its own name, when its budget is used up")
    res.rule("counter", "every step performs the driver's step once, advances the step number by one and hands on its result")
    for name, check in (("budget", budget_run), ("steps", steps_run), ("time", time_run), ("worker", budget_worker), ("counter", counter)):
        try:
            check(repo, res, 4 if tier == "thorough" else 2)
        except (TooComplex, RecursionError, core.AnalysisBroken) as e:
            res.unknown(name, name, str(e))


def find(repo, name):
    c = [c for c in repo.classes.values() if c.name == name and c.module.name.startswith(("algorithms.base", "simulation"))]
    if not c:
        raise core.AnalysisBroken("class %s is gone" % name)
    return c[0]


def job(repo, name, args, limit):
    """subscribe to the job of a run class -> flow, class, [(state, value)]"""
    ci = find(repo, name)
    fl = LoopFlow(repo)
    fl.limit = limit
    st = fl.start()
    cb = {"on_next": T("cb", "next"), "on_completed": T("cb", "done")}
    out = fl.bind(fl.instantiate(st, ci.qual, args, {}, None), lambda s, r: fl.bind(
        fl.getattr(s, r, "create_job", None), lambda s2, f: fl.bind(
            fl.call(s2, f, [DRIVER], {}, None), lambda s3, ob: fl.opaque_method(s3, ob, "subscribe", [], cb, None))))
    return fl, ci, out


def where(ci):
    return "%s:%d" % (ci.module.rel, ci.node.lineno)


def below(fl, s, a, b):
    """what the path decided about a < b: True, False or None"""
    r = fl.less(s.copy(), a, b, None)
    return r[0][1] if len(r) == 1 else None


def budget_run(repo, res, limit):
    b = T("sym", "budget")
    fl, ci, out = job(repo, "BudgetRun", [b], limit)
    res.functions |= fl.functions
    bad = set()
    seen = 0
    for s, v in out:
        if is_raise(v):
            bad.add("the run fails: %s" % v[1])
            continue
        seen += 1
        steps = [e[1] for e in s.trace if e[0] == "step"]
        for k in steps:
            if below(fl, s, fl.cost(k), b) is not True:
                bad.add("a step is taken although the cost has not been found below the budget")
        if below(fl, s, fl.cost(len(steps)), b) is not False:
            bad.add("the run ends although the cost has not been found to reach the budget")
        notifications(s, bad, [T("progress", k + 1) for k in steps])
    verdict(res, "budget", ci, bad, seen)


def notifications(s, bad, want):
    nxt = [e[2] for e in s.trace if e[0] == "cb" and e[1] == "next"]
    done = [i for i, e in enumerate(s.trace) if e[0] == "cb" and e[1] == "done"]
    if want is not None and nxt != want:
        bad.add("%d steps but %d notifications" % (len(want), len(nxt)) if len(nxt) != len(want) else "a notification does not carry the step's result")
    if len(done) != 1:
        bad.add("the observer is told of completion %d times" % len(done))
    elif any(e[0] in ("step", "cb") for e in s.trace[done[0] + 1:]):
        bad.add("the run goes on after telling the observer of completion")


def verdict(res, rule, ci, bad, seen):
    for b in sorted(bad):
        res.bad(rule, ci.qual, where(ci), b)
    if not bad:
        if seen:
            res.ok(rule, ci.qual)
        else:
            res.unknown(rule, ci.qual, "no path ends")


def steps_run(repo, res, limit):
    for n in (0, 1, 3, 5):
        fl, ci, out = job(repo, "StepsRun", [K(n)], limit)
        res.functions |= fl.functions
        bad, seen = set(), 0
        for s, v in out:
            if is_raise(v):
                bad.add("a run of %d steps fails: %s" % (n, v[1]))
                continue
            seen += 1
            steps = [e[1] for e in s.trace if e[0] == "step"]
            if len(steps) != n:
                bad.add("a run of %d steps performs %d" % (n, len(steps)))
                continue
            notifications(s, bad, [T("progress", k + 1) for k in steps])
        verdict(res, "steps", ci, bad, seen)


def time_run(repo, res, limit):
    timeout = K(7)
    fl, ci, out = job(repo, "TimeRun", [K(3), timeout], limit)
    res.functions |= fl.functions
    bad, seen = set(), 0
    for s, v in out:
        if is_raise(v):
            bad.add("the run fails: %s" % v[1])
            continue
        seen += 1
        last_step, allowed, clocks, ended = None, True, [], None
        for i, e in enumerate(s.trace):
            if e[0] == "clock":
                clocks.append((e[1], e[2]))
            elif e[0] == "less":
                r = against_limit(e, timeout, clocks, last_step)
                if r is not None:
                    allowed, ended = r, not r
            elif e[0] == "step":
                if not allowed:
                    bad.add("a step is taken without having found the time spent so far, the last step included, below the limit")
                last_step, allowed, ended = e[1], False, False
        if last_step is not None and not ended:
            bad.add("the run ends although the time spent has not been found to reach the limit")
        notifications(s, bad, None)
        prev = 0
        for e in s.trace:
            if e[0] == "cb" and e[1] == "next" and e[2][0] == "o":
                f = s.heap[e[2][1]].fields
                t = f.get("elapsed_time")
                if t is None or t[0] != "c":
                    continue
                if t[2] != prev + 3:
                    bad.add("time slots are emitted out of order or with gaps (%s after %s)" % (t[2], prev))
                if t[2] > 7:
                    bad.add("a slot beyond the time limit is emitted")
                prev = t[2]
                if is_t(f.get("cost", NONE), "cost") and f["cost"][2] > e[3]:
                    bad.add("a slot reports a step that was not taken")
    verdict(res, "time", ci, bad, seen)


def against_limit(e, timeout, clocks, last_step):
    """a comparison of the time spent with the limit -> True (below) / False (not below) / None (something else)"""
    _, a, b, r = e
    la, lb = lin(a), lin(b)
    if la is None or lb is None:
        return None
    d, c = lin_sub(la, lb)                       # a < b  <=>  d + c < 0
    terms = {t for t in d if is_t(t, "clock") and d[t] != 0}
    if not terms or any(not is_t(t, "clock") for t in d if d[t] != 0):
        return None
    if last_step is None:
        return None
    newest = [t for t, k in clocks if k == last_step + 1 and t in terms]
    if not newest:
        return None
    scale = d[newest[0]]
    if any(x / scale not in (1, -1) for x in (d[t] for t in terms)) or sum(d[t] for t in terms) != 0:
        return None
    if any(sum(d[t] for t, k in clocks if t in terms and k > j) != scale for j in range(last_step + 1)):
        return None                               # the time of some step is left out
    t = newest[0]
    if d[t] > 0 and c == -timeout[2] * d[t]:      # spent - limit < 0
        return r
    if d[t] < 0 and c == timeout[2] * -d[t]:      # limit - spent < 0: above; equality counts as used up
        return None if not r else False
    return None


def budget_worker(repo, res, limit):
    for mode, fl, st, factory, case in workers_with(repo, LoopFlow):
        if mode != "budget":
            continue
        if st is None:
            res.unknown("worker", "budget worker", "configuration not understood")
            return
        q, at = runs.qual(repo, factory)
        out = runs.run_worker(fl, st, factory, case)
        res.functions |= fl.functions
        bad, seen, unclear = set(), 0, False
        budgets = sorted(runs.BUDGETS)
        for s, v in out:
            if is_raise(v):
                bad.add("the run fails: %s" % v[1])
                continue
            seen += 1
            i, unnamed = 0, False
            for e in s.trace:
                if e[0] == "set" and e[1] == "max_budget" and e[2][0] == "c" and e[2][2] is not None and e[2][2] < max(budgets):
                    bad.add("the driver is told of a budget of %s although %s are requested" % (e[2][2], max(budgets)))
                elif e[0] == "step":
                    if i >= len(budgets):
                        bad.add("steps go on after the last result")
                    elif below(fl, s, fl.cost(e[1]), K(budgets[i])) is not True:
                        bad.add("a step is taken although the cost has not been found below the budget")
                elif e[0] == "dump":
                    name = runs.file_name(e[2])
                    if name is None:
                        unnamed = True
                        continue
                    b = name.split(".")[0]
                    if i >= len(budgets) or b != str(budgets[i]):
                        bad.add("the result stored as %s is number %d of the budgets %s" % (name, i + 1, budgets))
                    elif below(fl, s, fl.cost(e[3]), K(budgets[i])) is not False:
                        bad.add("the result of a budget is stored before the cost has been found to reach it")
                    i += 1
            if i != len(budgets) and not unnamed:
                bad.add("%d results are stored for %d budgets" % (i, len(budgets)))
            unclear = unclear or unnamed
        for b in sorted(bad):
            res.bad("worker", q, at, b)
        if not bad:
            if seen and not unclear:
                res.ok("worker", q)
            else:
                res.unknown("worker", q, "the name of a stored result is not understood" if seen else "no path ends")


def workers_with(repo, cls):
    saved = runs.RunFlow
    runs.RunFlow = cls
    try:
        return runs.workers(repo)
    finally:
        runs.RunFlow = saved


class CountFlow(LoopFlow):
    """the metaclass applied to a driver class"""
    def opaque_call(self, st, fv, args, kw, n):
        if fv == T("sym", "original"):
            st.event("original", args[0] if args else NONE)
            return [(st, T("sym", "proxy"))]
        return super().opaque_call(st, fv, args, kw, n)


def counter(repo, res, limit):
    """every class that defines the step method gets exactly one counter around it"""
    drv = find(repo, "Driver")
    metas = [k.value for k in drv.node.keywords if k.arg == "metaclass"]
    steppers = [(c, c.methods["next_step"]) for c in repo.subclasses(drv) if "next_step" in c.methods]
    for c, m in steppers:
        ups = [x for x in ast.walk(m) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "next_step"
               and (isinstance(x.func.value, ast.Call) and getattr(x.func.value.func, "id", "") == "super")]
        if ups and metas:
            res.bad("counter", c.qual, "%s:%d" % (c.module.rel, m.lineno), "calls the inherited next_step, which counts the step as well: one step is counted twice")
    if metas:
        r = repo.resolve_expr(drv.module, metas[0])
        if r is None or r[0] != "class":
            res.unknown("counter", "metaclass", "not understood")
            return
        meta = r[1]
        hook = repo.find_method(meta, "__init__") or repo.find_method(meta, "__new__")
        fl = CountFlow(repo)
        st = fl.start()
        ns = st.new(Obj("dict", items=((K("next_step"), T("sym", "original")), (K("other"), T("sym", "other")))))
        target = T("sym", "class")
        out = fl.run(hook[0].module, hook[1], [target, K("Sub"), K(()), ns], ci=None, st=st)
        res.functions |= fl.functions
        for s, v in out:
            if is_raise(v):
                res.bad("counter", meta.qual, where(meta), "creating a driver class fails: %s" % v[1])
                return
            f = s.facts.get(("f", target, "next_step"))
            if f is None:
                res.bad("counter", meta.qual, where(meta), "the step method of a driver class is not counted")
                return
            step_number(res, fl, s, f, meta, lambda st2: K(0))
    # the base class' own next_step: one step, then the message of the adapter
    m = repo.find_method(drv, "next_step")
    fl = CountFlow(repo)
    st = fl.start()
    me = st.new(Obj("inst", drv.qual, fields={"step_no": K(5), "cost": T("cost", 0), "message_adapter": T("sym", "adapter"), "step": T("sym", "original"), "finished": K(False), "max_budget": NONE}))
    bad, seen = set(), 0
    for s, v in fl.run(m[0].module, m[1], [me], ci=m[0], st=st):
        if is_raise(v):
            bad.add("a step fails: %s %s" % (v[1], v[2] or ""))
            continue
        seen += 1
        n = sum(1 for e in s.trace if e[0] == "original")
        if n != 1:
            bad.add("one step of the run performs %d steps of the driver" % n)
        no = s.heap[me[1]].fields["step_no"]
        if no != K(5 if metas else 6):
            bad.add("the step number is advanced twice" if metas else "a step does not advance the step number by one")
    res.functions |= fl.functions
    for b in sorted(bad):
        res.bad("counter", drv.qual + ".next_step", "%s:%d" % (m[0].module.rel, m[1].lineno), b)
    if not bad:
        res.ok("counter", drv.qual + ".next_step") if seen else res.unknown("counter", drv.qual, "no path")


def step_number(res, fl, s, f, meta, _):
    me = s.new(Obj("inst", "driver", fields={"step_no": K(5)}))
    bad, seen = set(), 0
    for s2, v in fl.call(s, f, [me], {}, None):
        if is_raise(v):
            bad.add("a counted step fails: %s" % v[1])
            continue
        seen += 1
        calls = [e for e in s2.trace if e[0] == "original"]
        if len(calls) != 1 or calls[0][1] != me:
            bad.add("a counted step performs %d steps" % len(calls))
        if s2.heap[me[1]].fields.get("step_no") != K(6):
            bad.add("a step does not advance the step number by one")
        if v != T("sym", "proxy"):
            bad.add("a counted step does not hand on the step's result")
    for b in sorted(bad):
        res.bad("counter", meta.qual, where(meta), b)
    if not bad:
        res.ok("counter", meta.qual) if seen else res.unknown("counter", meta.qual, "no path")
