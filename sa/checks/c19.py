"""C19: each run draws from its own freshly seeded random generator."""
import ast
import math

from .. import core
from ..effects import Effects
from ..flow import K, NONE, T, TUP, RAISE, TooComplex, is_raise, is_t, show
from ..runmodel import DRIVER, PROBLEM, RunFlow
from . import c08, runs

TECHNIQUE = "event-order abstract interpretation of the worker + whole-program scan for uses of generator state"
NOTE = ("Decided: the seeding precedes everything the worker prepares, its argument derives from operating-system entropy of at least 32 bits wherever that is available, and no code a run can reach seeds, "
        "restores, pins or shares a generator or caches a draw. Assumes the interpreter reseeds the generator of forked processes (Python >= 3.7). Generators reached through computed names are not seen.")
EXPLANATION = ("SimulationWorker.run is interpreted for both kinds of worker; every path must seed the global generator exactly once, before the configuration is prepared, the driver is made or anything is drawn, "
               "from a value computed from entropy. Every module a run can reach (import closure of the worker, the advertised algorithms and the problems) is then searched for calls that change or pin generator "
               "state, for generators shared between runs, for draws made when a module is imported and for cached functions that draw.")

SET = {"random.seed", "random.setstate", "numpy.random.seed", "numpy.random.set_state"}
LOCAL = {"random.Random", "numpy.random.RandomState", "numpy.random.default_rng", "numpy.random.Generator", "numpy.random.PCG64", "numpy.random.MT19937"}
ENTROPY = ("random.SystemRandom", "secrets.", "os.urandom", "os.getrandom", "uuid.uuid4")
CACHES = {"functools.lru_cache", "functools.cache", "functools.cached_property"}
NOT_DRAWS = {"random.seed", "random.setstate", "random.getstate", "random.Random", "random.SystemRandom", "numpy.random.seed", "numpy.random.set_state", "numpy.random.get_state"} | LOCAL
BITS = 32


class SeedFlow(RunFlow):
    names = ("", "")
    limit = 4

    def cost(self, k):
        return K(100 * k)

    def draw(self, st, name):
        st.event("draw", name)

    def ext_call(self, st, name, args, kw, n):
        if name in SET and name.endswith("seed"):
            st.event("seed", name, tuple(self.snap(st, a) for a in list(args) + list(kw.values())), self.site(n))
            return [(st, NONE)]
        if name in SET:
            st.event("restore", name)
            return [(st, NONE)]
        if name in ("os.urandom", "os.getrandom"):
            s2 = st.copy()
            v = st.fresh("entropy", args[0] if args else K(0))
            s2.event("no entropy")
            return [(st, v), (s2, RAISE("NotImplementedError"))]
        if name.startswith("secrets.") or name in ("uuid.uuid4", "random.SystemRandom"):
            size = args[0][2] * 8 if args and args[0][0] == "c" and isinstance(args[0][2], int) and "token" in name else 128
            if name == "secrets.randbits" and args and args[0][0] == "c":
                size = args[0][2]
            return [(st, st.fresh("entropy", K(size // 8)))]
        if name.startswith(("random.", "numpy.random.")) and name not in NOT_DRAWS:
            self.draw(st, name)
        return super().ext_call(st, name, args, kw, n)

    def site(self, n):
        return (self.frames[-1].module.name, n.lineno) if n is not None and self.frames else None

    def call_hook(self, st, fv, args, kw, n):
        if fv[0] == "fn" and self.fnkeys[fv[1]][0].name == "simulation.factory":
            vals = list(args) + list(kw.values())
            if len(vals) == 2 and K(self.names[0]) in vals and K(self.names[1]) in vals:
                st.event("prepare")
                return [(st, TUP((T("mk", 0), PROBLEM)))]
        return None

    def opaque_call(self, st, fv, args, kw, n):
        if is_t(fv, "mk"):
            st.event("construct")
            return [(st, DRIVER)]
        return super().opaque_call(st, fv, args, kw, n)

    def truth(self, st, v, n=None):
        if v == DRIVER or is_t(v, "progress"):
            return [(st, True)]
        return super().truth(st, v, n)


def bits(v):
    """how many bits of operating-system entropy a value carries (inf: of unknown, large size), 0 if none"""
    if not isinstance(v, tuple) or not v:
        return 0
    if is_t(v, "entropy"):
        n = v[2]
        return n[2] * 8 if n[0] == "c" and isinstance(n[2], int) else math.inf
    if v[0] == "t" and len(v) == 4 and v[1] in ("%", "&"):
        x, y = bits(v[2]), bits(v[3])
        if v[1] == "%" and v[3][0] == "c" and isinstance(v[3][2], int) and v[3][2] > 0:
            return min(x, math.log2(v[3][2]))
        if v[1] == "&":
            for a, o in ((v[2], y), (v[3], x)):
                if a[0] == "c" and isinstance(a[2], int):
                    return min(o, bin(a[2]).count("1"))
        return max(x, y)
    if v[0] == "c":
        return 0
    return max([bits(x) for x in v if isinstance(x, tuple)] + [0])


def clock(v):
    return isinstance(v, tuple) and (v[:3] == ("t", "x", "time.time") or v[:2] == ("t", "x") and len(v) > 2 and isinstance(v[2], str) and v[2].startswith(("time.", "datetime.")) or any(clock(x) for x in v if isinstance(x, tuple)))


def order(repo, res):
    """the worker's own order of events; -> sites that seed"""
    sites = set()
    for mode, fl0, s0, factory, case in runs.workers(repo):
        if factory is None:
            res.unknown("order", mode, "the worker is not understood")
            continue
        qual, where = runs.qual(repo, factory)
        if factory[0] == "cls" and repo.find_method(repo.classes[factory[1]], "run"):
            mo, fn = repo.find_method(repo.classes[factory[1]], "run")
            where = "%s:%d" % (mo.module.rel, fn.lineno)
        fl = SeedFlow(repo)
        fl.fnkeys = fl0.fnkeys
        o = s0.heap[case[1]].fields if case[0] == "o" else {}
        names = [x[2] for x in o.values() if x[0] == "c" and isinstance(x[2], str)]
        algo = [x for x in names if x in ("SPEA2",)]
        prob = [x for x in names if x in ("ZDT1",)]
        if not algo or not prob:
            res.unknown("order", mode, "the simulation case is not understood")
            continue
        fl.names = (algo[0], prob[0])
        s0 = s0.copy()
        s0.trace = [] if isinstance(s0.trace, list) else ()
        try:
            out = fl.bind(fl.call(s0, factory, [case, K(0)], {}, None), lambda s, w: fl.bind(fl.getattr(s, w, "run", None), lambda s2, f: fl.call(s2, f, [], {}, None)))
        except (TooComplex, RecursionError) as e:
            res.unknown("order", qual, str(e))
            continue
        res.functions |= fl.functions
        bad, seen, unknown = [], 0, None
        for s, v in out:
            ev = [e for e in s.trace if e[0] in ("seed", "restore", "prepare", "construct", "draw", "no entropy", "step")]
            if not any(e[0] == "prepare" for e in ev):
                continue
            seen += 1
            first = next(i for i, e in enumerate(ev) if e[0] in ("prepare", "construct", "draw", "step"))
            seeds = [i for i, e in enumerate(ev) if e[0] == "seed" and e[1] == "random.seed"]
            what = {"prepare": "the configuration and the starting population are prepared", "construct": "the algorithm is constructed", "draw": "a random number is drawn", "step": "a step runs"}
            if not [i for i in seeds if i < first]:
                bad.append("%s %s" % (what[ev[first][0]], "before the generator is seeded" if seeds else "and the generator is never seeded"))
                continue
            if [i for i in seeds if i > first]:
                bad.append("the generator is seeded again after %s" % what[ev[first][0]])
            if any(e[0] == "restore" for e in ev):
                bad.append("the generator's state is replaced")
            e = ev[[i for i in seeds if i < first][-1]]
            sites.add(e[3])
            if not e[2] or e[2][0] == NONE:
                continue
            b = bits(e[2][0])
            if any(x[0] == "no entropy" for x in ev):
                if not b and not clock(e[2][0]):
                    bad.append("without operating-system entropy the seed %s is the same in every run" % show(e[2][0])[:60])
            elif b < BITS:
                bad.append("the seed %s" % ("is taken from the clock, which two runs can share, although operating-system entropy is available" if clock(e[2][0]) else
                                              "carries only %d bits of entropy" % b if b else "%s does not derive from fresh entropy" % show(e[2][0])[:60]))
        for b in sorted(set(bad)):
            res.bad("order", qual, where, b)
        if not bad:
            if seen:
                res.ok("order", qual)
            else:
                res.unknown("order", qual, "no path prepares a configuration")
    return sites


# ---------------------------------------------------------------------- the modules a run reaches
def closure(repo, algos, problems):
    m = repo.mod("simulation.factory")
    start = {"simulation.worker"}
    start |= {x for x in repo.modules if x.startswith("algorithms.")} & reached_algorithms(repo, algos)
    start |= {"problems.%s.problem" % p for p in problems}
    seen, todo = set(), [x for x in start if x in repo.modules]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        mod = repo.modules[x]
        for n in ast.walk(mod.tree):
            names = []
            if isinstance(n, ast.Import):
                names = [a.name for a in n.names]
            elif isinstance(n, ast.ImportFrom):
                b = mod._abs(n)
                names = [b] + ["%s.%s" % (b, a.name) for a in n.names]
            for y in names:
                if y in repo.modules and y not in seen:
                    todo.append(y)
    return seen


def reached_algorithms(repo, algos):
    out = set()
    for a in {d for x in algos for d in x.split("+")}:
        out |= {"algorithms.%s.%s" % (a, a), "algorithms.%s.message" % a}
    r = repo.resolve_global(repo.mod(c08.CONFIG), "custom_paths")
    if r and r[0] == "assign" and r[2] is not None:
        out |= {n.value for n in ast.walk(r[2]) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    return out


def local_imports(mod, node):
    out = {}
    for p in core.parents(node):
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for n in ast.walk(p):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        out.setdefault(a.asname or a.name.split(".")[0], a.name if a.asname else a.name.split(".")[0])
                elif isinstance(n, ast.ImportFrom) and not n.level:
                    for a in n.names:
                        out.setdefault(a.asname or a.name, "%s.%s" % (n.module, a.name))
    return out


def dotted(repo, mod, e, loc, depth=0):
    """the external name an expression denotes"""
    if isinstance(e, ast.Name) and e.id in loc:
        return loc[e.id]
    if isinstance(e, ast.Attribute):
        b = dotted(repo, mod, e.value, loc, depth)
        if b:
            return b + "." + e.attr
    r = repo.resolve_expr(mod, e)
    if r and r[0] == "ext":
        return r[1]
    if r and r[0] == "assign" and r[2] is not None and depth < 4 and isinstance(r[2], (ast.Name, ast.Attribute)):
        return dotted(repo, r[1], r[2], {}, depth + 1)
    return None


def guarded(n):
    """under if __name__ == '__main__'"""
    for p in core.parents(n):
        if isinstance(p, ast.If) and isinstance(p.test, ast.Compare) and any(isinstance(x, ast.Name) and x.id == "__name__" for x in ast.walk(p.test)):
            return True
    return False


def at_import(n):
    """evaluated when the module is imported: not inside a function's body"""
    child = n
    for p in core.parents(n):
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            if isinstance(p, ast.Lambda):
                if child is p.body:
                    return False
            elif child in p.body:
                return False
        elif isinstance(p, ast.GeneratorExp):
            pass
        child = p
    return True


def func_of(repo, mod, e):
    r = repo.resolve_expr(mod, e)
    if r and r[0] == "func":
        return r[2]
    if r and r[0] == "class":
        m = repo.find_method(r[1], "__init__")
        return m[1] if m else None
    if r and r[0] == "method":
        return r[2]
    return None


def draws(repo, mods):
    """functions that draw from the global generator, directly or through functions they call by name"""
    direct, calls = {}, {}
    for m, ci, fn, qual in repo.functions():
        if m.name not in mods:
            continue
        calls[fn] = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Call):
                loc = local_imports(m, n)
                d = dotted(repo, m, n.func, loc)
                if d and d.startswith(("random.", "numpy.random.")) and d not in NOT_DRAWS and not d.startswith(ENTROPY):
                    direct[fn] = d
                t = func_of(repo, m, n.func)
                if t is not None:
                    calls[fn].add(t)
                elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("self", "cls") and ci is not None:
                    r = repo.find_method(ci, n.func.attr)
                    if r:
                        calls[fn].add(r[1])
    out = dict(direct)
    change = True
    while change:
        change = False
        for f, ts in calls.items():
            if f not in out:
                for t in ts:
                    if t in out:
                        out[f] = out[t]
                        change = True
                        break
    return out


def fresh_arg(repo, m, call, loc):
    """the seed of a generator made during the run comes from entropy or from the seeded generator"""
    args = list(call.args) + [k.value for k in call.keywords]
    if not args or all(isinstance(a, ast.Constant) and a.value is None for a in args):
        return True
    fn = core.enclosing_function(call)
    todo, seen = list(args), set()
    while todo:
        e = todo.pop()
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                d = dotted(repo, m, n.func, loc)
                if d and (d.startswith(ENTROPY) or d.startswith(("random.", "numpy.random.")) and d not in SET):
                    return True
            if isinstance(n, ast.Name) and fn is not None and n.id not in seen:
                seen.add(n.id)
                for a in ast.walk(fn):
                    if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in a.targets):
                        todo.append(a.value)
    return False


def scan(repo, res, sites, mods):
    drawing = draws(repo, mods)
    n = 0
    kept = {}
    ef = Effects(repo)
    for m, ci, fn, qual in ef.fns:
        if fn in drawing and m.name in mods:
            g = [e for e in ef.of(fn) if e.origin[0] in ("global", "free")]
            if g:
                kept.setdefault(m.name, []).append((fn, "kept", "%s draws random numbers and writes %s, which outlives the run" % (qual, g[0].origin[1])))
    for name in sorted(mods):
        m = repo.mod(name)
        bad = kept.get(name, [])
        for c in ast.walk(m.tree):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)) and c in drawing:
                for d in c.decorator_list:
                    x = dotted(repo, m, d.func if isinstance(d, ast.Call) else d, {})
                    if x in CACHES:
                        bad.append((c, "cached", "%s draws random numbers and its result is kept from one run to the next" % core.qual_of(c, m)))
            if not isinstance(c, (ast.Name, ast.Attribute)) or guarded(c):
                continue
            par = getattr(c, "_parent", None)
            if isinstance(par, ast.Attribute) or not isinstance(getattr(c, "ctx", None), ast.Load):
                continue
            loc = local_imports(m, c)
            d = dotted(repo, m, c, loc)
            call = par if isinstance(par, ast.Call) and par.func is c else None
            if d is None:
                t = func_of(repo, m, c)
                if call is not None and t is not None and t in drawing and at_import(call):
                    bad.append((c, "import", "%s draws random numbers when the module is imported" % core.src(call, 60)))
                continue
            if not d.startswith(("random.", "numpy.random.", "secrets.")) and d not in ("random", "numpy.random"):
                continue
            n += 1
            if d in SET:
                if (m.name, c.lineno) in sites and call is not None and d == "random.seed":
                    continue
                bad.append((c, "reseed", "%s during a run" % {"random.seed": "the generator is seeded", "random.setstate": "the generator's state is replaced"}.get(d, "the library's generator is seeded or replaced")))
            elif d in LOCAL:
                if call is None:
                    if isinstance(par, ast.ClassDef):
                        continue
                    res.unknown("generators", core.qual_of(c, m), "%s is passed on" % d)
                elif at_import(call):
                    bad.append((c, "shared", "a generator is made when the module is imported: every run of the process shares it"))
                elif not fresh_arg(repo, m, call, loc):
                    bad.append((c, "pinned", "a generator is made from the seed %s, which is not fresh" % core.src(call, 60)))
            elif call is not None and d not in NOT_DRAWS and not d.startswith(ENTROPY):
                if at_import(call):
                    bad.append((c, "import", "%s draws random numbers when the module is imported" % core.src(call, 60)))
                elif d.startswith("numpy.random."):
                    bad.append((c, "unseeded", "%s draws from a generator the run does not seed" % core.src(call, 60)))
        for c, rule, why in bad:
            res.bad("generators", core.qual_of(c, m), core.loc(m, c), why)
        if not bad:
            res.ok("generators", name)
    res.extra["random references"] = n
    res.floor("references to random generators", n, 20)


def run(repo, res, tier):
    res.rule("order", "the worker seeds the generator exactly once, from fresh entropy, before anything can draw from it")
    res.rule("generators", "no code a run reaches seeds, restores, pins or shares a generator, draws while being imported or caches a draw")
    fl = c08.BuildFlow(repo)
    algos, problems = c08.names(fl, fl.start(), "algorithms"), c08.names(fl, fl.start(), "problems")
    sites = order(repo, res)
    mods = closure(repo, algos, problems)
    res.floor("modules", len(mods), 30)
    scan(repo, res, sites, mods)
