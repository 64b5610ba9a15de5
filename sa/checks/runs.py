"""The workers of the command line, interpreted end to end from the parsed arguments (shared by C20 and C26)."""
import ast

from ..core import AnalysisBroken
from ..flow import K, NONE, Obj, T, TooComplex, is_raise, is_t, show
from ..runmodel import DRIVER, LOGGER, PROBLEM, RunFlow

BUDGETS = (100, 300, 200)
TIMEOUT, INTERVAL = 7, 3


def arguments(fl, st, mode):
    args = {
        "budget": mode == "budget", "time": mode == "time", "run": True,
        "<budget>": ",".join(map(str, BUDGETS)) if mode == "budget" else None,
        "<timeout>": str(TIMEOUT) if mode == "time" else None, "<step>": str(INTERVAL) if mode == "time" else None,
        "--timeout": mode == "time", "-t": False, "--step": mode == "time", "-s": False,
        "--algo": "SPEA2", "--problem": "ZDT1", "-N": "1", "-j": "1", "--renice": None, "--dir": "RESULTS", "-o": "PLOTS",
        "--bootstrap": "100",
    }
    return st.new(Obj("dict", items=tuple((K(k), K(v)) for k, v in args.items())))


def first(fl, st, v):
    items = fl.exact(st, v)
    return items[0] if items else None


def workers(repo):
    """[(mode, flow, state, worker factory, case)] from the factory the command line uses"""
    m = repo.mod("simulation.factory")
    r = repo.resolve_global(m, "resolve_configuration")
    if not r or r[0] != "func":
        raise AnalysisBroken("factory.resolve_configuration is gone")
    out = []
    for mode in ("budget", "time"):
        fl = RunFlow(repo)
        st = fl.start()
        res = [(s, v) for s, v in fl.run(r[1], r[2], [arguments(fl, st, mode)], st=st) if not is_raise(v)]
        if len(res) != 1:
            out.append((mode, fl, None, None, None))
            continue
        s, v = res[0]
        items = fl.exact(s, v)
        case = first(fl, s, items[1]) if items and len(items) == 2 else None
        out.append((mode, fl, s, items[0] if case else None, case))
    return out


def run_worker(fl, st, factory, case):
    """-> [(state, value)] of run_driver on the opaque driver"""
    fl.steps, fl.frames = 0, []
    return fl.bind(fl.call(st, factory, [case, K(0)], {}, None), lambda s, w: fl.bind(
        fl.getattr(s, w, "run_driver", None), lambda s2, f: fl.call(s2, f, [DRIVER, PROBLEM, LOGGER], {}, None)))


def qual(repo, factory):
    if factory and factory[0] == "cls":
        ci = repo.classes[factory[1]]
        m = repo.find_method(ci, "run_driver")
        if m:
            return ci.qual, "%s:%d" % (m[0].module.rel, m[1].lineno)
    return show(factory) if factory else "?", "simulation/worker.py"


def inst_fields(v):
    return dict(v[3]) if is_t(v, "inst") else {}


def file_name(v):
    """the constant name of the file a dump goes to"""
    while is_t(v, "file") or is_t(v, "enter"):
        v = v[2]
    if is_t(v, "strof") or is_t(v, "fspath"):
        v = v[2]
    if is_t(v, "str") and len(v[2]) == 1 and not isinstance(v[2][0], str):
        v = v[2][0]
    if is_t(v, "path"):
        p = v[2][-1]
        return p[2] if p[0] == "c" else None
    return None
