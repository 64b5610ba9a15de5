"""C17: command line selections and options reach the run unchanged."""
import ast
import itertools
import re

from ..core import AnalysisBroken, qual_of
from ..flow import K, NONE, Obj, RAISE, T, TUP, TooComplex, is_raise, is_t, show
from ..runmodel import RunFlow
from . import runs

TECHNIQUE = "abstract interpretation of the command line from every documented usage to the command and its simulations"
NOTE = ("docopt itself is trusted to map an argument vector to the dictionary its documentation describes. Unknown names given to --algo or --problem, and budgets or numbers that are not integers, "
        "are not judged. Options that a command accepts through [options] and does not use are not judged.")
EXPLANATION = ("The usage text is parsed into its alternatives. For each, the dictionary docopt returns is built and the entry point is interpreted with it; the command it calls is compared with the documented one. "
               "The simulations made for every advertised algorithm and problem name, pairs of names, letter cases, repetitions, budgets and time limits are enumerated from the interpreted factory, "
               "and the processes, priority and directories used by the commands are read off their interpreted calls.")
COMMANDS = {
    "run": "simulation.run_parallel.run_parallel", "stats": "statistic.stats.statistics", "statistics": "statistic.stats.statistics",
    "rank": "statistic.ranking.rank", "rank_details": "statistic.ranking.detailed_rank", "table": "statistic.ranking.table_rank",
    "summary": "statistic.summary.analyse_results", "pictures": "plots.pictures.pictures_time", "pictures_summary": "plots.pictures.pictures_summary",
    "best_fronts": "plots.best_fronts.best_fronts", "violin": "plots.violin.violin", "list": "evogil.all_algos_problems",
}
WHERE = "evogil.py"


# ------------------------------------------------------------------ the usage text
def usage_alternatives(doc):
    """[[word…]] of every documented way to call the program (options only as [options] marks)"""
    m = re.search(r"usage:\s*\n(.*?)\n\s*\n", doc, re.I | re.S)
    if not m:
        raise AnalysisBroken("no usage section in the documentation of evogil")
    out = []
    for line in m.group(1).splitlines():
        words = line.split()[1:]
        out.extend(expand(re.findall(r"[()\[\]|]|<[^>]*>|[^\s()\[\]|]+", " ".join(words))))
    return out


def expand(toks):
    pos = [0]

    def alts(closing):
        res, cur = [], [[]]
        while pos[0] < len(toks):
            t = toks[pos[0]]
            pos[0] += 1
            if t == closing:
                break
            if t == "|":
                res.extend(cur)
                cur = [[]]
                continue
            if t == "(":
                inner = alts(")")
            elif t == "[":
                inner = [[]] + alts("]")
            else:
                inner = [[t]]
            cur = [a + b for a in cur for b in inner]
        return res + cur
    return alts(None)


def options(doc):
    """{key: default or None/False} of the options sections"""
    out = {}
    cut = [m.end() for m in re.finditer(r"^[^\n]*options:", doc, re.I | re.M)]
    for i, start in enumerate(cut):
        part = doc[start:cut[i + 1] if i + 1 < len(cut) else len(doc)]
        for m in re.finditer(r"^[ \t]*(-.*?)(?=^[ \t]*-|\Z)", part, re.M | re.S):
            head, _, body = m.group(1).partition("\n")
            spec = re.split(r"\s{2,}", head.strip())[0]
            body = head[len(spec):] + "\n" + body
            names = re.findall(r"(?<![\w-])--?[A-Za-z][\w-]*", spec)
            arg = "<" in spec or re.search(r"\b[A-Z]{2,}\b", spec)
            d = re.search(r"\[default:\s*(.*?)\]", body, re.I)
            key = max(names, key=len)
            out[key] = (d.group(1) if d else None) if arg else False
    return out


def argument_dicts(doc):
    """[(command line, {key: value})]"""
    alts = usage_alternatives(doc)
    opts = options(doc)
    base = dict(opts)
    for a in alts:
        for w in a:
            if w.startswith("<"):
                base[w] = None
            elif w != "options":
                base.setdefault(w, False)
    out, seen = [], set()
    for a in alts:
        d = dict(base)
        for w in a:
            if w.startswith("<"):
                d[w] = VALUES.get(w, "1")
            elif w != "options":
                d[w] = True
        line = " ".join(a).replace("options", "").strip()
        if line not in seen and not ("-h" in a or "--help" in a):
            seen.add(line)
            out.append((line, d))
    return out, base


VALUES = {"<budget>": "300,1000,200", "<timeout>": "70", "<step>": "3"}
BUDGETS = (200, 300, 1000)
GIVEN = {"--dir": "MY_RESULTS", "-o": "MY_PLOTS", "--renice": "7", "-j": "5", "-N": "3", "--bootstrap": "41"}


class CmdFlow(RunFlow):
    argv = None
    commands = {}

    def ext_call(self, st, name, args, kw, n):
        if name == "docopt.docopt":
            return [(st, self.dict_of(st, self.argv))]
        if name == "os.nice":
            st.event("nice", args[0] if args else NONE)
            return [(st, T("sym", "niceness"))]
        if name.endswith("ProcessPoolExecutor") or name.startswith("multiprocessing") and name.endswith("Pool"):
            st.event("pool", args[0] if args else next(iter(kw.values()), NONE))
            return [(st, T("sym", "pool"))]
        if name.startswith("time.") or name.startswith("datetime."):
            return [(st, K(1.0) if name.startswith("time.") else T("sym", name))]
        return super().ext_call(st, name, args, kw, n)

    def dict_of(self, st, d):
        return st.new(Obj("dict", items=tuple((K(k), K(v)) for k, v in d.items())))

    def qualname(self, fv):
        if fv[0] == "fn":
            m, fn, ci = self.fnkeys[fv[1]]
            if not isinstance(fn, ast.Lambda):
                return "%s.%s" % (m.name, fn.name) if ci is None else "%s.%s" % (ci.qual, fn.name)
        return None

    def call_hook(self, st, fv, args, kw, n):
        q = self.qualname(fv)
        if q in self.commands:
            st.event("command", q, tuple(self.frozen(st, a) for a in list(args) + list(kw.values())))
            return [(st, NONE)]
        if q == "simulation.serialization.each_result":
            st.event("read", args[1] if len(args) > 1 else kw.get("results_path", next(iter(kw.values()), NONE)))
            return [(st, st.new(Obj("list")))]
        if q == "simulation.factory.prepare":
            return [(st, RAISE("simulation.run_config.NotViableConfiguration"))]
        if fv == ("bi", "print"):
            st.event("print", tuple(args))
        return super().call_hook(st, fv, args, kw, n)


def func(repo, qual):
    mod, _, name = qual.rpartition(".")
    if mod not in repo.modules:
        return None
    r = repo.resolve_global(repo.mod(mod), name)
    return r if r and r[0] == "func" else None


def plain(v):
    """{key: constant} of a frozen dictionary"""
    if is_t(v, "dict"):
        return {k[2]: (x[2] if x[0] == "c" else show(x)) for k, x in v[2] if k[0] == "c"}
    return None


def run(repo, res, tier):
    res.rule("dispatch", "every documented usage calls the command of that name, and no other, with the arguments given")
    res.rule("listed", "list names every algorithm and problem that can be selected")
    res.rule("selected", "exactly the selected algorithms and problems are run, each the requested number of times; all when none is selected")
    res.rule("limits", "budgets reach the run as integers in increasing order, the time limit and the sampling interval as given")
    res.rule("options", "processes, priority and directories are used as given")
    res.rule("keys", "commands read their arguments under documented names only")
    m = repo.mod("evogil")
    doc = ast.get_docstring(m.tree, clean=False) or ""
    dicts, base = argument_dicts(doc)
    res.floor("documented usages", len(dicts), 14)
    dispatch(repo, res, dicts, base)
    listed(repo, res)
    selection(repo, res, dicts, base, tier)
    used(repo, res, dicts, base)
    keys(repo, res, base)


# ------------------------------------------------------------------ dispatch
def dispatch(repo, res, dicts, base):
    entry = func(repo, "evogil.main_worker")
    if entry is None:
        raise AnalysisBroken("evogil.main_worker is gone")
    where = "%s:%d" % (entry[1].rel, entry[2].lineno)
    for line, d in dicts:
        words = [w for w in line.split() if w in COMMANDS]
        if len(words) != 1:
            res.unknown("dispatch", line, "the documentation does not say what this command does")
            continue
        want = COMMANDS[words[0]]
        for given in (True, False):
            fl = CmdFlow(repo)
            fl.commands = {q: c for c, q in COMMANDS.items()}
            fl.argv = dict(d)
            if given:
                fl.argv.update({k: v for k, v in GIVEN.items() if k in base})
            tag = line + (" (directories given)" if given else "")
            try:
                out = fl.run(entry[1], entry[2], [])
            except (TooComplex, RecursionError) as e:
                res.unknown("dispatch", tag, str(e))
                continue
            res.functions |= fl.functions
            err = None
            for s, v in out:
                err = err or dispatched(fl, s, v, want, given)
            if not out:
                res.unknown("dispatch", tag, "no path")
            elif err and func(repo, want) is None:
                res.unknown("dispatch", tag, "%s is gone" % want)
            elif err:
                res.bad("dispatch", tag, where, err)
            else:
                res.ok("dispatch", tag)


def dispatched(fl, s, v, want, given):
    if is_raise(v):
        return "calling it raises %s %s" % (v[1], v[2:] and v[2] or "")
    calls = [e for e in s.trace if e[0] == "command"]
    if not calls:
        return "no command is called"
    if calls[0][1] != want or len(calls) > 1:
        return "it calls %s instead of %s" % (" and ".join(e[1] for e in calls), want)
    if want == COMMANDS["list"]:
        return None
    d = plain(calls[0][2][0]) if calls[0][2] else None
    if d is None:
        return "it does not hand the arguments to %s" % want
    for k, x in fl.argv.items():
        if d.get(k, "missing") != x and not (k in ("--dir", "-o") and not given):
            return "the argument %s arrives as %r instead of %r" % (k, d.get(k, "missing"), x)
    return None


def listed(repo, res):
    f = func(repo, COMMANDS["list"])
    fl = CmdFlow(repo)
    if f is None:
        res.unknown("listed", "list", "the command is gone")
        return
    st = fl.start()
    names = set(advertised(repo, fl, st))
    try:
        out = fl.run(f[1], f[2], [fl.dict_of(st, {})], st=st)
    except (TooComplex, RecursionError) as e:
        res.unknown("listed", "list", str(e))
        return
    res.functions |= fl.functions
    for s, v in out:
        got = set()
        for e in s.trace:
            if e[0] == "print":
                for a in e[1]:
                    if a[0] == "c" and isinstance(a[2], str):
                        got |= set(re.findall(r"[\w+]+", a[2]))
        miss = names - got
        if is_raise(v) or miss:
            res.bad("listed", "list", "%s:%d" % (f[1].rel, f[2].lineno), "raises %s" % v[1] if is_raise(v) else "it does not name %s" % sorted(miss)[0])
            return
    res.ok("listed", "list")


def advertised(repo, fl, st, what=("algorithms", "problems")):
    out = []
    for w in what:
        m = repo.mod("simulation.run_config")
        items = None
        for s, v in fl.module_global(st, m, w) if hasattr(fl, "module_global") else []:
            items = fl.exact(s, v)
        if items is None:
            from . import c08
            items = [K(x) for x in c08.names(c08.BuildFlow(repo), c08.BuildFlow(repo).start(), w)]
        out.extend(x[2] for x in items if x[0] == "c")
    return out


# ------------------------------------------------------------------ selection
def simulations(repo, argv):
    """-> (flow, [(state, [case inst]) or (state, raise)])"""
    fl = CmdFlow(repo)
    st = fl.start()
    f = func(repo, "simulation.factory.resolve_configuration")
    if f is None:
        raise AnalysisBroken("factory.resolve_configuration is gone")
    out = []
    for s, v in fl.run(f[1], f[2], [fl.dict_of(st, argv)], st=st):
        if is_raise(v):
            out.append((s, v))
            continue
        items = fl.exact(s, v)
        cases = fl.exact(s, items[1]) if items and len(items) == 2 else None
        out.append((s, cases if cases is None else [fl.frozen(s, c) for c in cases]))
    return fl, out


def leaves(v, out):
    if v[0] == "c":
        out.append(v[2])
    elif v[0] == "tup":
        for x in v[1]:
            leaves(x, out)
    elif is_t(v, "inst"):
        for _, x in v[3]:
            leaves(x, out)
    elif is_t(v, "dict"):
        for _, x in v[2]:
            leaves(x, out)
    elif v[0] == "t" and v[1] in ("list", "tuple", "set"):
        for x in v[2]:
            leaves(x, out)
    return out


def selection(repo, res, dicts, base, tier):
    fl = CmdFlow(repo)
    algos, problems = advertised(repo, fl, fl.start(), ("algorithms",)), advertised(repo, fl, fl.start(), ("problems",))
    budget = next((d for line, d in dicts if line.startswith("run budget")), None)
    if not algos or not problems or budget is None:
        raise AnalysisBroken("no advertised algorithms, problems or budget runs")
    where = "simulation/factory.py"
    plans = [(None, None, 1), (None, None, 2)]
    plans += [(a, None, 1) for a in algos] + [(None, p, 1) for p in problems]
    plans += [(a.lower(), p.lower(), 3) for a, p in zip(algos, itertools.cycle(problems))]
    plans += [("%s,%s" % (a, b), "%s,%s" % (p, q), 1) for (a, b), (p, q) in zip(list(zip(algos, algos[1:] + algos[:1])), itertools.cycle(list(zip(problems, problems[2:] + problems[:2]))))]
    plans += [("%s,%s" % (b, a), None, 1) for a, b in zip(algos[:3], algos[5:8])]
    if tier == "thorough":
        plans += [(a, p, 1) for a in algos for p in problems]
    n, broken = 0, False
    for a, p, times in plans:
        argv = dict(budget)
        argv.update({"--algo": a, "--problem": p, "-N": str(times), "--dir": GIVEN["--dir"]})
        tag = "--algo %s --problem %s -N %d" % (a, p, times)
        sel_a = [x for x in algos if a is None or x.lower() in a.lower().split(",")]
        sel_p = [x for x in problems if p is None or x.lower() in p.lower().split(",")]
        want = sorted((x, y) for x in sel_a for y in sel_p for _ in range(times))
        try:
            f, out = simulations(repo, argv)
        except (TooComplex, RecursionError) as e:
            res.unknown("selected", tag, str(e))
            continue
        res.functions |= f.functions
        err = None
        for s, cases in out:
            if isinstance(cases, tuple):
                err = err or "selecting raises %s %s" % (cases[1], cases[2] if len(cases) > 2 else "")
                continue
            if cases is None:
                res.unknown("selected", tag, "the simulations are not a known list")
                continue
            n += len(cases)
            err = err or wrong_cases(cases, want, algos, problems, times)
        if err:
            if not broken:
                res.bad("selected", tag, where, err)
            broken = True
        else:
            res.ok("selected", tag)
    res.floor("simulations enumerated", n, 500)
    limits(repo, res, dicts, algos[0], problems[0])


def wrong_cases(cases, want, algos, problems, times):
    got = []
    for c in cases:
        l = [x for x in leaves(c, []) if isinstance(x, str)]
        a, p = sorted({x for x in l if x in algos}), sorted({x for x in l if x in problems})
        if len(a) != 1 or len(p) != 1:
            return "a simulation names the algorithms %s and the problems %s" % (a, p)
        got.append((a[0], p[0]))
    if sorted(got) != want:
        extra, miss = sorted(set(got) - set(want)), sorted(set(want) - set(got))
        if extra:
            return "%s on %s is run although it was not selected" % extra[0]
        if miss:
            return "%s on %s is not run" % miss[0]
        x = next(x for x in want if got.count(x) != want.count(x))
        return "%s on %s is run %d times instead of %d" % (x + (got.count(x), want.count(x)))
    if times > 1:
        by = {}
        for c, k in zip(cases, got):
            by.setdefault(k, []).append(repr(c))
        for k, l in by.items():
            if len(set(l)) != len(l):
                return "two repetitions of %s on %s are not told apart" % k
    return None


def limits(repo, res, dicts, algo, problem):
    for line, d in dicts:
        if not line.startswith("run "):
            continue
        argv = dict(d)
        argv.update({"--algo": algo, "--problem": problem, "--dir": "D", "-N": "1"})
        given = [k for k in VALUES if argv.get(k)]
        tag = re.sub(r"\((\S+) \| (\S+)\)", r"\1", line).replace(" -t ", " --timeout ").replace(" -s ", " --step ")
        try:
            fl, out = simulations(repo, argv)
        except (TooComplex, RecursionError) as e:
            res.unknown("limits", tag, str(e))
            continue
        err = None
        for s, cases in out:
            if isinstance(cases, tuple):
                err = err or "the documented usage fails with %s: %s" % (cases[1], cases[2] if len(cases) > 2 else "")
                continue
            if not cases:
                res.unknown("limits", tag, "the simulations are not a known list")
                continue
            l = leaves(cases[0], [])
            for k in given:
                if k == "<budget>":
                    nums = tuple(x for x in l if isinstance(x, int) and not isinstance(x, bool) and x in BUDGETS)
                    if nums != BUDGETS:
                        err = err or "the budgets %s reach the run as %s" % (VALUES[k], [x for x in l if str(x) in VALUES[k].split(",")])
                else:
                    who = holder(fl, s, cases[0], k)
                    if who is not None and who != float(VALUES[k]):
                        err = err or "%s %s reaches the run as %s" % (k, VALUES[k], who)
                    elif who is None and not any(isinstance(x, (int, float)) and not isinstance(x, bool) and x == float(VALUES[k]) for x in l):
                        err = err or "%s does not reach the run as a number" % k
        if err:
            res.bad("limits", tag, "simulation/factory.py", err)
        else:
            res.ok("limits", tag)


def holder(fl, s, case, key):
    """the number the run holds under the name of a time limit or sampling interval, None when it has other names"""
    want = {"<timeout>": ("timeout",), "<step>": ("sampling_interval", "step")}[key]

    def walk(v):
        if is_t(v, "inst"):
            for n, x in v[3]:
                if n in want and x[0] == "c" and isinstance(x[2], (int, float)):
                    return x[2]
                r = walk(x)
                if r is not None:
                    return r
        elif is_t(v, "dict"):
            for k, x in v[2]:
                if k[0] == "c" and k[2] in want and x[0] == "c" and isinstance(x[2], (int, float)):
                    return x[2]
                r = walk(x)
                if r is not None:
                    return r
        return None
    return walk(case)


# ------------------------------------------------------------------ options
def used(repo, res, dicts, base):
    by = dict(dicts)
    # directories read by the commands that offer the choice
    for cmd, qual in sorted(COMMANDS.items()):
        line = next((l for l, _ in dicts if l.split()[0] == cmd), None)
        f = func(repo, qual)
        if line is None or f is None or cmd in ("run", "list", "summary", "rank", "rank_details", "table"):
            continue
        argv = dict(by[line])
        argv.update({k: v for k, v in GIVEN.items() if k in base})
        fl = CmdFlow(repo)
        st = fl.start()
        try:
            out = fl.run(f[1], f[2], [fl.dict_of(st, argv)], st=st)
        except (TooComplex, RecursionError) as e:
            res.unknown("options", "%s --dir" % cmd, str(e))
            continue
        res.functions |= fl.functions
        reads = {e[1] for s, v in out for e in s.trace if e[0] == "read"}
        got = {x for x in reads if x != K(GIVEN["--dir"]) and not mentions(x, GIVEN["--dir"])}
        where = "%s:%d" % (f[1].rel, f[2].lineno)
        for s, v in out:
            if is_raise(v) and v[1] == "KeyError":
                res.bad("keys", "%s (%s)" % (cmd, show(v[2]) if len(v) > 2 and isinstance(v[2], tuple) else v[2:] or ""), where, "the command reads an argument that does not exist: %s" % (show(v[2]) if len(v) > 2 and isinstance(v[2], tuple) else "".join(map(str, v[2:]))))
                break
        else:
            if got:
                res.bad("options", "%s --dir" % cmd, where, "it reads the results of %s instead of the directory given" % show(sorted(got, key=repr)[0]))
            elif reads:
                res.ok("options", "%s --dir" % cmd)
            else:
                res.unknown("options", "%s --dir" % cmd, "it reads no results")
    processes(repo, res, by, base)
    renice(repo, res, by, base)
    results_dir(repo, res, by, base)


def mentions(v, text):
    return any(text in x for x in strings(v))


def strings(v):
    if isinstance(v, str):
        yield v
    elif isinstance(v, tuple):
        for x in v:
            yield from strings(x)


def processes(repo, res, by, base):
    f = func(repo, COMMANDS["run"])
    r = func(repo, "simulation.factory.resolve_configuration")
    argv = dict(next(d for l, d in by.items() if l.startswith("run budget")))
    argv.update(GIVEN)

    class F(CmdFlow):
        def call_hook(self, st, fv, args, kw, n):
            if self.qualname(fv) == "simulation.factory.resolve_configuration":
                return [(st, TUP((T("sym", "workers"), st.new(Obj("list")))))]
            return super().call_hook(st, fv, args, kw, n)
    fl = F(repo)
    st = fl.start()
    try:
        out = fl.run(f[1], f[2], [fl.dict_of(st, argv)], st=st)
    except (TooComplex, RecursionError) as e:
        res.unknown("options", "-j", str(e))
        return
    pools = {e[1] for s, v in out for e in s.trace if e[0] == "pool"}
    consts = {x for x in pools if x[0] == "c" and x != NONE}
    if consts - {K(int(GIVEN["-j"]))}:
        res.bad("options", "run -j", "%s:%d" % (f[1].rel, f[2].lineno), "%s processes are used instead of the %s asked for" % (show(sorted(consts, key=repr)[0]), GIVEN["-j"]))
    elif K(int(GIVEN["-j"])) in pools:
        res.ok("options", "run -j")
    else:
        res.unknown("options", "run -j", "no pool of workers is made")


def renice(repo, res, by, base):
    for given in (GIVEN["--renice"], None):
        argv = dict(next(d for l, d in by.items() if l.startswith("run budget")))
        argv.update({"--renice": given, "--algo": "SPEA2", "--problem": "ZDT1", "--dir": "D"})
        tag = "run --renice %s" % given
        fl = CmdFlow(repo)
        st = fl.start()
        f = func(repo, "simulation.factory.resolve_configuration")
        try:
            (s, v), = [(s, v) for s, v in fl.run(f[1], f[2], [fl.dict_of(st, argv)], st=st) if not is_raise(v)]
            items = fl.exact(s, v)
            case = runs.first(fl, s, items[1])
            fl.steps, fl.frames = 0, []
            out = fl.bind(fl.call(s, items[0], [case, K(0)], {}, None), lambda s1, w: fl.bind(
                fl.getattr(s1, w, "run", None), lambda s2, g: fl.call(s2, g, [], {}, None)))
        except (TooComplex, RecursionError, ValueError) as e:
            res.unknown("options", tag, str(e))
            continue
        res.functions |= fl.functions
        nice = [[e[1] for e in s.trace if e[0] == "nice"] for s, v in out]
        where = "simulation/worker.py"
        if given is None:
            if any(nice):
                res.bad("options", tag, where, "the priority is changed although no increment was given")
            else:
                res.ok("options", tag)
        elif not any(nice):
            res.bad("options", tag, where, "the priority of the worker is not changed")
        elif any(x != [K(int(given))] for x in nice if x):
            x = next(x for x in nice if x and x != [K(int(given))])
            res.bad("options", tag, where, "the priority is changed by %s instead of %s" % (" and ".join(show(y) for y in x), given))
        else:
            res.ok("options", tag)


def results_dir(repo, res, by, base):
    argv = dict(next(d for l, d in by.items() if l.startswith("run budget")))
    argv.update({"--algo": "SPEA2", "--problem": "ZDT1", "--dir": GIVEN["--dir"]})
    try:
        fl, out = simulations(repo, argv)
    except (TooComplex, RecursionError) as e:
        res.unknown("options", "run --dir", str(e))
        return
    for s, cases in out:
        if not isinstance(cases, list) or not cases:
            res.unknown("options", "run --dir", "the simulations are not a known list")
        elif any(mentions(c, GIVEN["--dir"]) for c in cases):
            res.ok("options", "run --dir")
        else:
            res.bad("options", "run --dir", "simulation/factory.py", "the directory given for the results does not reach the run")


# ------------------------------------------------------------------ keys
def keys(repo, res, base):
    """constant keys read from the command line dictionary"""
    n = 0
    seen = set()
    work = [(q, 0) for q in sorted(set(COMMANDS.values()) | {"evogil.set_default_options", "simulation.factory.resolve_configuration"})]
    while work:
        q, pos = work.pop()
        if (q, pos) in seen:
            continue
        seen.add((q, pos))
        f = func(repo, q)
        if f is None or len(f[2].args.args) <= pos:
            continue
        _, m, fn = f[:3]
        name = fn.args.args[pos].arg
        for x in ast.walk(fn):
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets):
                break
        else:
            for x in ast.walk(fn):
                k = None
                if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == name:
                    k = x.slice
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("get", "pop") and isinstance(x.func.value, ast.Name) and x.func.value.id == name and x.args:
                    k = x.args[0]
                if isinstance(k, ast.Constant) and isinstance(k.value, str):
                    n += 1
                    tag = "%s reads %s" % (q, k.value)
                    if k.value in base:
                        res.ok("keys", tag)
                    else:
                        res.bad("keys", tag, "%s:%d" % (m.rel, x.lineno), "%s is not documented" % k.value)
                if isinstance(x, ast.Call):
                    for i, a in enumerate(x.args):
                        if isinstance(a, ast.Name) and a.id == name:
                            r = repo.resolve_expr(m, x.func)
                            if r and r[0] == "func":
                                work.append(("%s.%s" % (r[1].name, r[2].name), i))
    res.floor("argument reads", n, 15)
