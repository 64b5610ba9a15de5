"""C08: every advertised algorithm can be built for every advertised problem."""
import ast
import multiprocessing
import os
import sys
from concurrent.futures import ProcessPoolExecutor

from .. import core
from ..report import Result
from ..core import AnalysisBroken
from ..flow import Flow, Frame, K, T, TUP, Obj, is_raise, TooComplex, show, is_t

TECHNIQUE = 'partial evaluation of configuration assembly + call-signature binding'
NOTE = 'Every advertised pair is decided exactly for name resolution and parameter binding; third-party imports are assumed to succeed and constructors are followed through their inner drivers, not through numeric code.'
EXPLANATION = ("The configuration code is partially evaluated for every pair of an advertised algorithm and an advertised "
               "problem (names, tables, per-algorithm hooks, class, message adapter and problem module lookups are folded to "
               "constants); the resulting parameter set is then bound to the constructor and, through super() calls and the "
               "inner driver factories, to every constructor it reaches.")

FACTORY = "simulation.factory"
CONFIG = "simulation.run_config"
ARITY = ("missing argument", "unexpected keyword", "too many arguments", "multiple values")


class BuildFlow(Flow):
    """constructors on two symbolic individuals; numbers, random draws and libraries are opaque"""
    unroll = 1
    max_steps = 600000
    max_paths = 3000
    wiring = False     # True: constructors are interpreted, computations they start are only bound

    def call_hook(self, st, fv, args, kw, n):
        if not self.wiring:
            return None
        if fv[0] == "bm" and fv[1][0] == "fn":
            fv, args = fv[1], [fv[2]] + list(args)
        if fv[0] != "fn":
            return None
        module, fn, ci = self.fnkeys[fv[1]]
        if isinstance(fn, ast.Lambda) or fn.name in self.entered or self.builds(fn):
            return None
        if not any(isinstance(x, (ast.For, ast.While, ast.comprehension)) for x in ast.walk(fn)):
            return None
        qual = core.qual_of(fn, module)
        self.functions.add(qual)
        fr = Frame(st.new(Obj("env"))[1], module, fn, qual, ci, args[0] if args else None)
        return [(s, err if err is not None else s.fresh("opq", qual)) for s, err in self.bind_args(st, fr, fn, args, kw)]

    entered = ("__init__", "reset")

    def builds(self, fn):
        """the function instantiates an inner driver, itself or through a class that does"""
        if not hasattr(self, "_builders"):
            self._builders = {"driver"}
            for ci in self.repo.classes.values():
                m = ci.methods.get("__init__")
                if m is not None and self._calls(m) & {"driver"}:
                    self._builders.add(ci.name)
        return bool(self._calls(fn) & self._builders)

    def _calls(self, fn):
        return {x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id for x in ast.walk(fn)
                if isinstance(x, ast.Call) and isinstance(x.func, (ast.Attribute, ast.Name))}

    def while_limit(self, st, n):
        return 1

    def ext_call(self, st, name, args, kw, n):
        if name == "random.sample" and args:
            its = self.exact(st, args[0])
            if its is not None:
                return [(st, st.new(Obj("list", items=tuple(its[:2]))))]
        return super().ext_call(st, name, args, kw, n)

    def getattr_hook(self, st, b, name, n):
        # attributes of a module that is evaluated lazily
        return None


def names(fl, st, name):
    """a list of constant strings in run_config"""
    for s, v in fl.global_name(st, fl.repo.mod(CONFIG), name):
        items = fl.exact(s, v)
        if items is not None and all(x[0] == "c" and isinstance(x[2], str) for x in items):
            return [x[2] for x in items]
    raise AnalysisBroken("run_config.%s is not a list of names" % name)


def prepare_fn(repo):
    m = repo.mod(FACTORY)
    r = repo.resolve_global(m, "prepare")
    if not r or r[0] != "func":
        raise AnalysisBroken("factory.prepare is gone")
    return r[1], r[2]


def prepared(repo, algo, problem):
    """-> (flow, [(state, value|raise)])"""
    fl = BuildFlow(repo)
    m, fn = prepare_fn(repo)
    return fl, fl.run(m, fn, [K(algo), K(problem)])


def describe(r):
    return "%s%s" % (r[1], ": %s" % (r[2] if isinstance(r[2], str) else show(r[2]) if isinstance(r[2], tuple) else r[2]) if r[2] is not None else "")


def vectors(st, size):
    return st.new(Obj("list", items=tuple(st.new(Obj("list", items=(T("x", m, 0), T("x", m, 1)))) for m in range(size))))


def ident(v, keep):
    """the tiny stand-in keeps the identity of the shared object it replaces"""
    return v[1] if keep and v[0] == "o" and isinstance(v[1], tuple) else None


def construct(fl, st, part, keep=False):
    """call the prepared factory on a tiny population, or a small one if that cannot be divided as the algorithm needs
    -> [(st, value|raise)]"""
    r = construct_with(fl, st.copy(), part, keep, 2)
    if r and all(is_raise(v) for _, v in r):
        return construct_with(fl, st, part, keep, 12)
    return r


def construct_with(fl, st, part, keep, size):
    kw = dict(part[3])
    for k, v in list(kw.items()):
        if k == "population":
            kw[k] = vectors(st, size)
        elif k == "dims":
            kw[k] = st.new(Obj("list", items=tuple(TUP((T("lo", i), T("hi", i))) for i in range(2))), ident(v, keep))
        elif k == "fitnesses":
            kw[k] = st.new(Obj("list", items=(T("objf", 0), T("objf", 1))), ident(v, keep))
    fl.steps = 0
    fl.max_steps = 60000
    fl.frames = []
    fl.wiring = True
    return fl.call(st, part[1], list(part[2]), kw, None)


def run(repo, res, tier):
    res.rule("prepare", "assembling the configuration for (algorithm, problem) succeeds: class, adapter, problem and hooks resolve")
    res.rule("binds", "the assembled parameters bind to the constructor, and to every constructor it calls, with none missing and none refused")
    res.rule("advertised", "advertised names are distinct and non-empty lists of constants")
    res.assumptions += ["imports of third-party packages succeed", "no assembly step fails for numeric reasons"]
    fl = BuildFlow(repo)
    algos, problems = names(fl, fl.start(), "algorithms"), names(fl, fl.start(), "problems")
    res.floor("advertised algorithms", len(algos), 8)
    res.floor("advertised problems", len(problems), 5)
    for what, l in (("algorithms", algos), ("problems", problems)):
        dup = sorted({x for x in l if l.count(x) > 1})
        res.check(not dup, "advertised", "run_config." + what, repo.mod(CONFIG).rel, "listed more than once: %s" % ", ".join(dup))
    with ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context("fork")) as ex:
        for part in ex.map(algorithm, [(repo.root, a, problems) for a in algos]):
            res.merge(part)
    res.floor("assembled pairs", sum(1 for o in res.obligations if o[0] == "prepare"), len(algos) * len(problems))


def algorithm(job):
    """all problems for one algorithm"""
    sys.setrecursionlimit(20000)
    root, a, problems = job
    repo = core.shared(root)
    res = Result("C08")
    fl = BuildFlow(repo)
    keysets = {}
    for p in problems:
        tag = "%s on %s" % (a, p)
        try:
            f, r = prepared(repo, a, p)
        except (TooComplex, RecursionError) as e:
            res.unknown("prepare", tag, str(e))
            continue
        res.functions |= f.functions
        errs = [v for _, v in r if is_raise(v)]
        good = [(s, v) for s, v in r if not is_raise(v)]
        hard = [v for v in errs if v[1] not in ("ZeroDivisionError", "IndexError")]
        if r and not good and errs or hard:
            v = (hard or errs)[0]
            res.bad("prepare", "%s on %s" % (a, p) if len(errs) else tag, repo.mod(FACTORY).rel,
                    "assembling %s for problem %s fails: %s" % (a, p, describe(v)))
            continue
        s, v = good[0]
        items = fl.exact(s, v)
        part = items[0] if items else None
        if part is None or part[0] != "partial" or part[1][0] not in ("cls", "fn"):
            res.unknown("prepare", tag, "result is %s" % show(v))
            continue
        mods = [x for x in items[1:] if x[0] == "mod"]
        if mods and mods[0][1] != "problems.%s.problem" % p and mods[0][1].split(".")[1] != p:
            res.bad("prepare", tag, repo.mod(FACTORY).rel, "the problem module loaded for %s is %s" % (p, mods[0][1]))
            continue
        res.ok("prepare", tag)
        key = (a, part[1], tuple(sorted(k for k, _ in part[3])))
        keysets.setdefault(key, (f, s, part, tag))
    for key, (f, s, part, tag) in keysets.items():
        bind_check(repo, res, f, s, part, key[0], tag)
    return res.pack()


def bind_check(repo, res, f, s, part, algo, tag):
    rel = repo.classes[part[1][1]].module.rel if part[1][0] == "cls" else "?"
    # the outer call binds exactly; inner calls are followed by interpreting the constructors
    try:
        r = construct(f, s, part)
    except (TooComplex, RecursionError) as e:
        res.unknown("binds", algo, "constructor: %s" % e)
        return
    res.functions |= f.functions
    bad = [v for _, v in r if is_raise(v) and v[1] == "TypeError" and isinstance(v[2], str) and v[2].startswith(ARITY)]
    if bad:
        res.bad("binds", algo, rel, "%s: %s" % (tag, bad[0][2]))
        return
    good = [(s2, v) for s2, v in r if not is_raise(v)]
    if not good:
        res.unknown("binds", algo, "constructor: %s" % (describe(r[0][1]) if r else "no path"))
        return
    # actors build their driver when they are reset
    s2, v = good[0]
    err, _, _ = distributed(repo, f, s2, v)
    res.functions |= f.functions
    if err and err[0] == "bad":
        res.bad("binds", algo, rel, "%s: %s" % (tag, err[1]))
    elif err:
        res.unknown("binds", algo, err[1])
    else:
        res.ok("binds", algo)


def distributed(repo, f, s, v):
    """build a node of the actor system's driver -> (None | ("bad"|"unknown", text), state, node)"""
    q = "algorithms.HGS.distributed.actors."
    if v[0] != "o" or q + "Node" not in repo.classes or q + "NodeConfig" not in repo.classes:
        return None, s, None
    cfg = find_inst(s, v, q + "HgsConfig")
    if cfg is None:
        return None, s, None
    try:
        f.steps, f.frames = 0, []
        (s, node), = f.instantiate(s, q + "Node", [], {}, None)
        (s, nc), = f.instantiate(s, q + "NodeConfig", [cfg, K(0), vectors(s, 2)], {}, None)
        r = f.bind(f.getattr(s, node, "reset", None), lambda s2, m: f.call(s2, m, [nc], {}, None))
    except (TooComplex, ValueError, RecursionError) as e:
        return ("unknown", "node reset: %s" % e), s, None
    bad = [x for _, x in r if is_raise(x) and x[1] == "TypeError" and isinstance(x[2], str) and x[2].startswith(ARITY)]
    if bad:
        return ("bad", "building a node's driver: %s" % bad[0][2]), s, None
    good = [s2 for s2, x in r if not is_raise(x)]
    if not good:
        return ("unknown", "node reset: %s" % (r and describe(r[0][1]))), s, None
    return None, good[0], node


def find_inst(s, v, qual, depth=0, seen=None):
    seen = seen if seen is not None else set()
    if v[0] != "o" or v[1] in seen or depth > 4:
        return None
    seen.add(v[1])
    o = s.heap[v[1]]
    if o.kind == "inst" and o.cls == qual:
        return v
    for x in o.fields.values():
        if isinstance(x, tuple) and x and x[0] == "o":
            r = find_inst(s, x, qual, depth + 1, seen)
            if r:
                return r
    return None
