"""C18: a failing simulation stops nobody else and releases its resources."""
from .. import core
from ..flow import K, NONE, Obj, T, TUP, RAISE, TooComplex, is_raise, is_t, show
from ..runmodel import DRIVER, PROBLEM, RunFlow
from . import c08, runs

TECHNIQUE = "fault-injecting abstract interpretation of the job loop and the workers (exception paths)"
NOTE = ("Each of three simulations fails at each point where building, running or storing it can raise, alone and together; the exception is an unknown subclass of Exception (or the "
        "configuration-disabled one). A failure inside the release itself, and exits that are not exceptions (signals, os._exit), are not judged. Pipelines are synchronous.")
EXPLANATION = ("The job loop is interpreted from the parsed arguments over opaque drivers; at a chosen point of chosen simulations the interpreted operation raises an exception about which nothing is "
               "known. On every path the loop must finish, the other simulations must store all they store without the failure, the failed one must be named in an error report and no other one, and "
               "a driver that was created must be shut down after its last use. Composite drivers are constructed and shut down: every actor they create must be told to exit.")
POINTS = ("prepare", "disabled", "construct", "budget", "step", "population", "objective", "store")
LEVELS = ("error", "exception", "critical", "warning", "warn", "fatal")


class FaultFlow(RunFlow):
    max_driver_steps = 12
    limit = 14
    names = ()
    plan = {}

    # deterministic costs and clocks
    def cost(self, k):
        return K(100 * k)

    def case(self, st):
        return st.data.get("case")

    def fails(self, st, point, at=1):
        c = self.case(st)
        if self.plan.get(c) != point:
            return False
        key = ("hits", c, point)
        st.data[key] = st.data.get(key, 0) + 1
        return st.data[key] == at

    def fault(self, st):
        st.event("fault", self.case(st))
        return [(st, RAISE("simulation.run_config.NotViableConfiguration" if self.plan[self.case(st)] == "disabled" else "*"))]

    def ext_call(self, st, name, args, kw, n):
        if name.startswith("time.") or name.startswith("datetime."):
            st.data["clock"] = st.data.get("clock", 0) + 1
            return [(st, K(float(st.data["clock"])) if name.startswith("time.") else st.fresh("x", name))]
        if name == "random.shuffle":
            return [(st, NONE)]
        if name == "pickle.dump":
            if self.fails(st, "store"):
                return self.fault(st)
            st.event("stored", self.case(st))
        return super().ext_call(st, name, args, kw, n)

    def ext(self, st, name, args, kw, n):
        if name.startswith("logging.") and name[8:] in LEVELS:
            st.event("log", tuple(self.mentioned(st, args)))
        return super().ext(st, name, args, kw, n)

    def call_hook(self, st, fv, args, kw, n):
        f = fv
        if f[0] == "fn" and self.fnkeys[f[1]][0].name == "simulation.factory":
            vals = list(args) + list(kw.values())
            got = [i for i, (p, a) in enumerate(self.names) if K(a) in vals and K(p) in vals]
            if got and len(vals) == 2:
                st.data["case"] = got[0]
                st.data["k"] = 0
                if self.plan.get(got[0]) in ("prepare", "disabled"):
                    return self.fault(st)
                return [(st, TUP((T("mk", got[0]), PROBLEM)))]
        if is_t(fv, "attr") and fv[3] in LEVELS and (is_t(fv[2], "ext") and fv[2][2].startswith("logging") or fv[2] == T("sym", "logger")):
            st.event("log", tuple(self.mentioned(st, args)))
            return [(st, NONE)]
        if fv == ("bi", "print"):
            st.event("print", tuple(self.mentioned(st, args)))
        return None

    def mentioned(self, st, args):
        """the simulations a message names"""
        text, cases = [], set()

        def walk(v, d=0):
            if v[0] == "c":
                text.append(str(v[2]))
            elif v[0] == "tup":
                for x in v[1]:
                    walk(x, d)
            elif v[0] == "o" and d < 4:
                o = st.heap[v[1]]
                for x in list(o.fields.values()) + [y for y in o.items if isinstance(y, tuple)]:
                    if isinstance(x, tuple) and x and isinstance(x[0], str):
                        walk(x, d + 1)
                    elif isinstance(x, tuple):
                        for y in x:
                            if isinstance(y, tuple) and y and isinstance(y[0], str):
                                walk(y, d + 1)
            elif v[0] == "t":
                for x in v[2:]:
                    if isinstance(x, str):
                        text.append(x)
                    elif isinstance(x, tuple) and x and isinstance(x[0], str):
                        walk(x, d)
                    elif isinstance(x, tuple):
                        for y in x:
                            if isinstance(y, tuple) and y and isinstance(y[0], str):
                                walk(y, d)
        for a in args:
            walk(a)
        joined = "\n".join(text)
        for i, (p, a) in enumerate(self.names):
            if p in joined and a in joined:
                cases.add(i)
        return sorted(cases)

    def truth(self, st, v, n=None):
        if v == DRIVER or is_t(v, "progress"):
            return [(st, True)]
        return super().truth(st, v, n)

    def compare_hook(self, st, op, a, b, n):
        if op in ("Is", "Eq") and NONE in (a, b) and (DRIVER in (a, b) or is_t(a, "progress") or is_t(b, "progress")):
            return [(st, False)]
        return super().compare_hook(st, op, a, b, n)

    def opaque_call(self, st, fv, args, kw, n):
        if is_t(fv, "mk"):
            if self.fails(st, "construct"):
                return self.fault(st)
            st.event("made", fv[2])
            return [(st, DRIVER)]
        if is_t(fv, "objf") and self.fails(st, "objective"):
            return self.fault(st)
        return super().opaque_call(st, fv, args, kw, n)

    def opaque_method(self, st, base, name, args, kw, n):
        if base == DRIVER:
            st.event("use", self.case(st), name)
            if name in ("next_step", "step") and self.fails(st, "step", 2):
                return self.fault(st)
            if name in ("finalized_population", "population") and self.fails(st, "population"):
                return self.fault(st)
        return super().opaque_method(st, base, name, args, kw, n)

    def setattr_hook(self, st, b, name, v, n):
        if b == DRIVER and self.fails(st, "budget"):
            return self.fault(st)
        return super().setattr_hook(st, b, name, v, n)

    # an observer given its own error callback receives what the source raises
    def rx_start(self, st, ob, cb, n):
        err = dict(cb).get("on_error")
        out = []
        for s, v in super().rx_start(st, ob, cb, n):
            if is_raise(v) and err is not None and err != NONE:
                out.extend(self.bind(self.call(s, err, [("excv", v)], {}, n), lambda s2, _: [(s2, NONE)]))
            else:
                out.append((s, v))
        return out


def entry(repo):
    m = repo.mod("simulation.run_parallel")
    r = repo.resolve_global(m, "run_parallel")
    if not r or r[0] != "func":
        raise core.AnalysisBroken("run_parallel.run_parallel is gone")
    return r[1], r[2]


def chosen(repo):
    """three advertised pairs"""
    fl = RunFlow(repo)
    return [(p, a) for p, a in zip(c08.names(fl, fl.start(), "problems")[:1] * 3, ["SPEA2", "IBEA", "NSGAII"] if set(["SPEA2", "IBEA", "NSGAII"]) <= set(c08.names(fl, fl.start(), "algorithms")) else c08.names(fl, fl.start(), "algorithms")[-3:])]


def simulate(repo, mode, plan, names):
    fl = FaultFlow(repo)
    fl.names, fl.plan = names, plan
    st = fl.start()
    a = runs.arguments(fl, st, mode)
    o = st.heap[a[1]]
    o.items = tuple((k, K(",".join(x for _, x in names)) if k == K("--algo") else K(names[0][0]) if k == K("--problem") else v) for k, v in o.items)
    m, fn = entry(repo)
    return fl, fl.run(m, fn, [a], st=st)


def plans(tier):
    n = 3
    for p in POINTS:
        for c in range(n):
            yield {c: p}
    for p, q in (("prepare", "store"), ("step", "construct"), ("disabled", "population"), ("objective", "objective")) + ((tuple((p, q) for p in POINTS for q in POINTS)) if tier == "thorough" else ()):
        for c, d in ((0, 1), (1, 2), (2, 0)):
            yield {c: p, d: q}
    for p in ("construct", "store"):
        yield {c: p for c in range(n)}


def text(plan, names):
    return ", ".join("%s while %s" % (names[c][1], {"prepare": "its configuration is prepared", "disabled": "its configuration is disabled", "construct": "its driver is constructed",
                                                     "budget": "its budget is handed over", "step": "a step runs", "population": "its population is read", "objective": "an objective is evaluated",
                                                     "store": "a result is stored"}[p]) for c, p in sorted(plan.items()))


def judge(fl, s, v, plan, names, full):
    if is_raise(v):
        return "failing: %s stops every simulation that follows (%s escapes)" % (text(plan, names), "the exception" if v[1] == "*" else v[1].rsplit(".", 1)[-1])
    stored = {i: sum(1 for e in s.trace if e[0] == "stored" and e[1] == i) for i in range(len(names))}
    hit = {e[1] for e in s.trace if e[0] == "fault"}
    for i in range(len(names)):
        if i not in hit and stored[i] != full[i]:
            return "failing: %s keeps %s from storing its results (%d of %d)" % (text(plan, names), names[i][1], stored[i], full[i])
    reported = {i for e in s.trace if e[0] == "log" for i in e[1]}
    for i in sorted(hit):
        if i not in reported:
            return "failing: %s is not reported as failed" % text({i: plan[i]}, names)
    for i in range(len(names)):
        if i not in hit and i in reported:
            return "failing: %s is reported as a failure of %s" % (text(plan, names), names[i][1])
    return None


def released(s, names):
    cur = None
    for e in s.trace:
        if e[0] == "made":
            if cur is not None:
                return "the driver of %s is not shut down" % names[cur][1]
            cur, down = e[1], 0
        elif e[0] == "use":
            if e[2] == "shutdown":
                cur = None
            elif cur is None:
                return "the driver of %s is used after it was shut down" % names[e[1]][1]
    return "the driver of %s is not shut down" % names[cur][1] if cur is not None else None


def run(repo, res, tier):
    res.rule("isolated", "a failing simulation is reported, and the others run and store as if it did not fail")
    res.rule("released", "a driver that was created is shut down after its last use, on every exit")
    res.rule("actors", "shutting down a driver releases every actor it created, through every composite")
    names = chosen(repo)
    m, fn = entry(repo)
    where = "%s:%d" % (m.rel, fn.lineno)
    n = 0
    for mode in ("budget", "time"):
        full = None
        try:
            fl, out = simulate(repo, mode, {}, names)
            res.functions |= fl.functions
            good = [(s, v) for s, v in out if not is_raise(v)]
            fulls = {tuple(sum(1 for e in s.trace if e[0] == "stored" and e[1] == i) for i in range(3)) for s, v in good}
            if len(fulls) == 1:
                full = fulls.pop()
                for s, v in good:
                    e = released(s, names)
                    if e:
                        res.bad("released", "%s run without a failure" % mode, where, e)
        except (TooComplex, RecursionError) as e:
            res.unknown("isolated", mode, "the job loop is not understood: %s" % e)
            continue
        if not full or not all(full):
            res.unknown("isolated", mode, "no results without a failure: %s" % (full,))
            continue
        for plan in plans(tier):
            if mode == "time" and "budget" in plan.values():
                continue
            tag = "%s run, failing: %s" % (mode, text(plan, names))
            try:
                fl, out = simulate(repo, mode, plan, names)
            except (TooComplex, RecursionError) as e:
                res.unknown("isolated", tag, str(e))
                continue
            res.functions |= fl.functions
            n += 1
            errs = [e for e in (judge(fl, s, v, plan, names, full) for s, v in out) if e]
            leaks = [e for e in (released(s, names) for s, v in out) if e]
            if not any(e[0] == "fault" for s, v in out for e in s.trace):
                if set(plan.values()) != {"budget"}:
                    res.unknown("isolated", tag, "the point is not reached")
                continue
            for rule, l in (("isolated", errs), ("released", leaks)):
                if l:
                    res.bad(rule, tag, where if rule == "isolated" else "simulation/worker.py", l[0])
                else:
                    res.ok(rule, tag)
    res.floor("failure plans", n, 40)
    actors(repo, res)


class ActorFlow(c08.BuildFlow):
    def opaque_method(self, st, base, name, args, kw, n):
        if name == "createActor":
            v = st.fresh("actor")
            st.event("created", v)
            return [(st, v)]
        if name in ("tell", "ask") and args:
            st.event("told", args[0], self.snap(st, args[1]) if len(args) > 1 else NONE)
        return super().opaque_method(st, base, name, args, kw, n)


def actors(repo, res):
    fl = c08.BuildFlow(repo)
    algos, problems = c08.names(fl, fl.start(), "algorithms"), c08.names(fl, fl.start(), "problems")
    n = 0
    for a in algos:
        try:
            f = ActorFlow(repo)
            m, fn = c08.prepare_fn(repo)
            r = [(s, v) for s, v in f.run(m, fn, [K(a), K(problems[0])]) if not is_raise(v)]
            items = f.exact(*r[0]) if r else None
            if not items or items[0][0] != "partial":
                res.unknown("actors", a, "the configuration is not understood")
                continue
            r = [(s, v) for s, v in c08.construct(f, r[0][0], items[0]) if not is_raise(v)]
            if not r:
                res.unknown("actors", a, "the constructor is not understood")
                continue
            s, v = r[0]
            made = [e[1] for e in s.trace if e[0] == "created"]
            f.steps, f.frames, f.wiring = 0, [], False
            out = f.bind(f.getattr(s, v, "shutdown", None), lambda s2, g: f.call(s2, g, [], {}, None))
            res.functions |= f.functions
            bad = None
            for s2, x in out:
                if is_raise(x):
                    bad = "shutting it down fails: %s" % c08.describe(x)
                for t in made:
                    if not any(e[0] == "told" and e[1] == t and "ActorExitRequest" in repr(e[2]) for e in s2.trace):
                        bad = bad or "shutting it down leaves the actor it created running"
            n += bool(made)
            if bad:
                ci = repo.classes.get(s.heap[v[1]].cls) if v[0] == "o" else None
                d = repo.find_method(ci, "shutdown") if ci else None
                res.bad("actors", a, "%s:%d" % (d[0].module.rel, d[1].lineno) if d else "algorithms", bad)
            else:
                res.ok("actors", a)
        except (TooComplex, RecursionError, core.AnalysisBroken) as e:
            res.unknown("actors", a, str(e))
    res.floor("algorithms that create actors", n, 1)
