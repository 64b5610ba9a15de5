"""C09: one simulation never changes the configuration another one sees."""
import ast
import multiprocessing
import os
import sys
from concurrent.futures import ProcessPoolExecutor

from .. import core, effects
from ..core import AnalysisBroken
from ..flow import K, TooComplex, is_raise
from ..report import Result
from . import c08

TECHNIQUE = 'identity tracking under partial evaluation + interprocedural side-effect analysis'
NOTE = 'No function in scope writes a shared table, module-level object, mutable default or class-level container; calls through unresolvable callbacks are assumed not to.'
EXPLANATION = ("Two analyses.  Configuration assembly is partially evaluated for the advertised pairs with every module-level "
               "object, default argument and class attribute tracked by identity: none may be modified, and the fields of the "
               "drivers that end up holding such a shared object are recorded.  A side-effect analysis of every function "
               "(aliases, summaries through calls) then shows that no function modifies a shared field, a module-level "
               "object, a mutable default argument or a class-level container.")

SCOPE = ("algorithms", "problems", "simulation.factory", "simulation.worker", "simulation.run_config", "simulation.model",
         "evotools.ea_utils", "evotools.random_tools")
ONESHOT = {"map", "filter", "zip", "iter", "enumerate", "reversed"}


def shared(oid):
    return isinstance(oid, tuple) and oid and oid[0] in ("g", "default")


def in_scope(name):
    return any(name == s or name.startswith(s + ".") for s in SCOPE)


def shared_fields(s, v, depth=0, seen=None, out=None, path=()):
    """{(class, path of fields)} under which an instance reachable from v holds a shared object"""
    seen = set() if seen is None else seen
    out = set() if out is None else out
    if v[0] == "tup":
        for x in v[1]:
            shared_fields(s, x, depth + 1, seen, out)
        return out
    if v[0] == "partial":
        return out
    if v[0] != "o" or v[1] in seen or depth > 8 or shared(v[1]):
        return out
    seen.add(v[1])
    o = s.heap[v[1]]
    if o.kind == "inst":
        for f, x in o.fields.items():
            holders(s, x, (f,), o.cls, out, 0)
    kids = list(o.fields.values()) + [x for x in o.items if isinstance(x, tuple) and x and isinstance(x[0], str)]
    if o.kind == "dict":
        kids += [b for a, b in o.items]
    for x in kids:
        if isinstance(x, tuple) and x and x[0] in ("o", "tup"):
            shared_fields(s, x, depth + 1, seen, out)
    return out


def holders(s, x, path, cls, out, depth):
    if not isinstance(x, tuple) or not x or depth > 2:
        return
    if x[0] == "o":
        if shared(x[1]):
            out.add((cls, path))
            return
        o = s.heap[x[1]]
        if o.kind in ("list", "deque", "set"):
            for y in o.items:
                holders(s, y, path + ("[]",), cls, out, depth + 1)
    elif x[0] == "tup":
        for y in x[1]:
            holders(s, y, path + ("[]",), cls, out, depth + 1)


def algorithm(job):
    sys.setrecursionlimit(20000)
    root, a, problems = job
    repo = core.shared(root)
    res = Result("C09")
    fields = set()
    for i, p in enumerate(problems):
        tag = "%s on %s" % (a, p)
        try:
            f, r = c08.prepared(repo, a, p)
        except (TooComplex, RecursionError) as e:
            res.unknown("assembly", tag, str(e))
            continue
        res.functions |= f.functions
        clean = True
        for s, v in r:
            clean &= events(res, s, "assembly", tag)
        if clean:
            res.ok("assembly", tag)
        good = [(s, v) for s, v in r if not is_raise(v)]
        if i or not good:
            continue
        s, v = good[0]
        items = f.exact(s, v)
        part = items[0] if items else None
        if part is None or part[0] != "partial":
            res.unknown("construction", a, "no factory")
            continue
        try:
            r = c08.construct(f, s, part, True)
        except (TooComplex, RecursionError) as e:
            res.unknown("construction", a, str(e))
            continue
        clean = True
        for s2, v2 in r:
            clean &= events(res, s2, "construction", a)
            if not is_raise(v2):
                fields |= shared_fields(s2, v2)
        good = [(s2, v2) for s2, v2 in r if not is_raise(v2)]
        if good:
            _, s3, node = c08.distributed(repo, f, *good[0])
            if node is not None:
                fields |= shared_fields(s3, node)
                clean &= events(res, s3, "construction", a)
        if clean:
            res.ok("construction", a)
        res.functions |= f.functions
    return res.pack(), fields


def events(res, s, rule, tag):
    clean = True
    for e in s.trace:
        if e[0] == "mutate" and e[1][0] == "o" and shared(e[1][1]):
            oid = e[1][1]
            name = "%s.%s" % (oid[1], oid[2])
            res.bad(rule, name, "%s:%s" % (e[3], e[4]), "%s of %s modifies the shared object %s (%s, seen for %s)" % (rule, tag, name, e[2], tag))
            clean = False
        elif e[0] == "mutate" and e[1][0] in ("mod", "cls"):
            res.bad(rule, "%s%s" % (e[1][1], e[2]), "%s:%s" % (e[3], e[4]), "assembling %s assigns %s%s" % (tag, e[1][1], e[2]))
            clean = False
        elif e[0] == "global-write":
            res.bad(rule, "%s.%s" % (e[1], e[2]), e[3], "assembling %s rebinds the module variable %s.%s" % (tag, e[1], e[2]))
            clean = False
    return clean


def mutable(v):
    return isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or (
        isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)))


def run(repo, res, tier):
    res.rule("assembly", "assembling a configuration modifies no module-level object, default argument or class attribute")
    res.rule("construction", "constructing the drivers from it does not either")
    res.rule("field", "no function modifies in place an object a driver shares with the configuration tables or the problem")
    res.rule("global", "no function of the simulation modifies a module-level object")
    res.rule("default", "no function modifies a mutable default argument")
    res.rule("class-state", "no method modifies a container held by a class")
    res.rule("reusable", "shared tables are not one-shot iterators")
    res.assumptions += ["functions passed as callbacks modify their arguments only as far as they are resolved statically"]
    fl = c08.BuildFlow(repo)
    algos, problems = c08.names(fl, fl.start(), "algorithms"), c08.names(fl, fl.start(), "problems")
    jobs = [(repo.root, a, problems if tier == "thorough" or "+" not in a else problems[i % len(problems):][:2]) for i, a in enumerate(algos)]
    fields = set()
    with ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context("fork")) as ex:
        for packed, fs in ex.map(algorithm, jobs):
            res.merge(packed)
            fields |= fs
    res.extra["shared_driver_fields"] = sorted("%s.%s" % (c, ".".join(p)) for c, p in fields)
    res.floor("driver fields holding shared objects", len(fields), 10)
    ef = effects.Effects(repo)
    bycls = {}
    for c, p in fields:
        if c in repo.classes:
            bycls.setdefault(c, set()).add(p)
    seen = set()
    n = 0
    types = field_types(repo)
    for m, ci, fn, qual in ef.fns:
        if not in_scope(m.name):
            continue
        res.functions.add(qual)
        n += 1
        for e in ef.of(fn):
            k, name, path = e.origin
            if k == "global" and in_scope(name) and (e.where, e.line, "g") not in seen and in_scope(e.where):
                seen.add((e.where, e.line, "g"))
                res.bad("global", "%s in %s" % (name, e.where), "%s:%d" % (e.where, e.line), "%s of the module-level object %s" % (e.how, name))
            if k == "param":
                self_ = fn.args.args[0].arg if ci is not None and fn.args.args and fn.name not in ci.static else None
                if name == self_ and path:
                    for c in [ci] + [x for x in repo.subclasses(ci) if x is not ci]:
                        for p in bycls.get(c.qual, ()):
                            if path[:len(p)] == p and (e.where, e.line, p) not in seen:
                                seen.add((e.where, e.line, p))
                                res.bad("field", "%s.%s in %s" % (c.qual, ".".join(p), e.where), "%s:%d" % (e.where, e.line),
                                        "%s modifies %s.%s, which holds an object shared with other simulations" % (e.how, c.name, ".".join(p)))
                    attr = path[0]
                    for c in repo.mro(ci):
                        if attr in c.attrs and mutable(c.attrs[attr]) and not rebound(repo, ci, attr):
                            key = (e.where, e.line, "c")
                            if key not in seen:
                                seen.add(key)
                                res.bad("class-state", "%s.%s in %s" % (c.qual, attr, e.where), "%s:%d" % (e.where, e.line),
                                        "%s modifies %s.%s, which all instances share" % (e.how, c.name, attr))
                elif name == self_ or name != self_:
                    d = default_of(fn, name)
                    if d is not None and mutable(d) and (e.where, e.line, "d", name) not in seen:
                        seen.add((e.where, e.line, "d", name))
                        res.bad("default", "%s(%s)" % (qual, name), "%s:%d" % (e.where, e.line), "%s modifies the default argument %s of %s" % (e.how, name, qual))
        # objects reached through another object (self.node.x, config.y): only when every class with that field shares it
        for e in ef.of(fn):
            k, name, path = e.origin
            if k == "param" and e.where == qual:
                self_ = fn.args.args[0].arg if ci is not None and fn.args.args and fn.name not in ci.static else None
                for i in range(1 if name == self_ else 0, len(path)):
                    f = path[i]
                    if f in ("[]", "~", "^"):
                        continue
                    have = {c for c, p in fields if p[0] == f}
                    defs = {c.qual for c in repo.classes.values() if assigns(c, f)}
                    holder = next((x for x in reversed(path[:i]) if x not in ("[]", "~", "^")), name if name != self_ else None)
                    if types.get(holder):
                        defs &= types[holder]
                    if have and all(any(d == h or repo.classes[d] in repo.mro(repo.classes[h]) for h in have if h in repo.classes) for d in defs) and defs:
                        if all(path[i:i + len(p)] == p for c, p in fields if p[0] == f) and (e.where, e.line, f) not in seen:
                            seen.add((e.where, e.line, f))
                            res.bad("field", "%s in %s" % (f, e.where), "%s:%d" % (e.where, e.line),
                                    "%s modifies .%s, which holds an object shared with other simulations" % (e.how, f))
    for rule in ("field", "global", "default", "class-state"):
        if not any(o[0] == rule and o[2] == "violated" for o in res.obligations):
            res.ok(rule, "all %d functions of %d modules" % (n, len([m for m in repo.modules if in_scope(m)])))
    res.floor("functions in scope", n, 200)
    for m in repo.modules.values():
        if m.name != "simulation.run_config" and not m.name.startswith("problems."):
            continue
        used = {x.id for fn in ast.walk(m.tree) if isinstance(fn, ast.FunctionDef) for x in ast.walk(fn) if isinstance(x, ast.Name)}
        for name, bs in m.bindings.items():
            b = bs[-1]
            if b[0] == "assign" and b[1] is not None:
                one = isinstance(b[1], ast.GeneratorExp) or isinstance(b[1], ast.Call) and (
                    isinstance(b[1].func, ast.Name) and (b[1].func.id in ONESHOT or (repo.resolve_expr(m, b[1].func) or ("",))[0] == "ext" and repo.resolve_expr(m, b[1].func)[1].startswith("itertools.")))
                shared_name = name in ("dims", "fitnesses", "pareto_front", "pareto_set", "problems", "algorithms", "drivers", "metaalgorithms", "algo_base", "cust_base", "custom_paths") or name in used
                res.check(not (one and shared_name), "reusable", "%s.%s" % (m.name, name), core.loc(m, b[2]), "a one-shot iterator: its second reader finds it exhausted")


def rebound(repo, ci, attr):
    for c in repo.mro(ci) + repo.subclasses(ci):
        for fn in c.methods.values():
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    return True
    return False


def assigns(c, f):
    if f in c.attrs:
        return True
    for fn in list(c.methods.values()) + list(c.setters.values()):
        for n in ast.walk(fn):
            if isinstance(n, ast.Attribute) and n.attr == f and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                return True
    return False


def default_of(fn, name):
    a = fn.args
    names = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return d.get(name)


def field_types(repo):
    """field or parameter name -> classes it is annotated with, or assigned an instance of, everywhere"""
    out = {}
    for m, ci, fn, qual in repo.functions():
        ann = {}
        for a in fn.args.args:
            if a.annotation is not None:
                r = repo.resolve_expr(m, a.annotation)
                if r and r[0] == "class":
                    ann[a.arg] = r[1].qual
                    out.setdefault(a.arg, set()).add(r[1].qual)
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
                v = n.value
                if isinstance(v, ast.Name) and v.id in ann:
                    out.setdefault(n.targets[0].attr, set()).add(ann[v.id])
                elif isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)):
                    r = repo.resolve_expr(m, v.func)
                    if r and r[0] == "class":
                        out.setdefault(n.targets[0].attr, set()).add(r[1].qual)
    return out
