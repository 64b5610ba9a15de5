"""Interval abstract interpretation of numeric code (problem definitions): which operations can leave their domain.

Values are exact Python constants, intervals of floats, lists, functions and TOP.  Floating-point +, -, *, /
and sqrt are correctly rounded and therefore monotone: bounds computed with the same operation are exact
bounds of the computed floats.  Other functions get a relative slack and are clipped to their natural range.

Every failing operation is recorded with "must" (it fails for every value of the abstract state on a path
certainly taken) or "may".  Code outside the subset raises Undecided.
"""
import ast
import math
import os

from . import core

INF = float("inf")
SLACK = 1e-12


class Undecided(Exception):
    pass


class Dead(Exception):
    """the path ends here with an error on every value"""


class Iv:
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __repr__(self):
        return "[%s, %s]" % (self.lo, self.hi)


class _S:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


TOP, BOOL = _S("TOP"), _S("BOOL")


class L:
    __slots__ = ("items", "kind", "once", "frozen")

    def __init__(self, items, kind="list", once=False, frozen=None):
        self.items, self.kind, self.once, self.frozen = list(items), kind, once, frozen


class D:
    __slots__ = ("items", "frozen")

    def __init__(self, items, frozen=None):
        self.items, self.frozen = dict(items), frozen


class Fn:
    __slots__ = ("node", "module", "env", "defaults", "kwdefaults", "name", "cached", "frozen")

    def __init__(self, node, module, env, defaults, kwdefaults):
        self.cached, self.frozen = False, None
        self.node, self.module, self.env, self.defaults, self.kwdefaults = node, module, env, defaults, kwdefaults
        self.name = getattr(node, "name", "<lambda>")


class Part:
    __slots__ = ("f", "args", "kw")

    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class Ext:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Meth:
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Mod:
    __slots__ = ("module",)

    def __init__(self, module):
        self.module = module


class FileV:
    __slots__ = ("lines",)

    def __init__(self, lines):
        self.lines = lines


class PathV:
    __slots__ = ("parts",)

    def __init__(self, *parts):
        self.parts = parts


class Ret(Exception):
    pass


CONSTS = {"math.pi": math.pi, "math.e": math.e, "math.inf": INF, "math.tau": math.tau, "numpy.pi": math.pi, "numpy.e": math.e, "numpy.inf": INF,
          "numpy.float64": Ext("builtins.float"), "numpy.newaxis": None}


def is_num(v):
    return isinstance(v, (int, float, Iv)) and not isinstance(v, bool) or isinstance(v, bool)


def lo(v):
    return v.lo if isinstance(v, Iv) else v


def hi(v):
    return v.hi if isinstance(v, Iv) else v


def mk(a, b):
    if a != a or b != b:
        return Iv(-INF, INF)
    return Iv(a, b)


def join(a, b):
    if a is b:
        return a
    if is_num(a) and is_num(b) and not isinstance(a, bool) and not isinstance(b, bool):
        if not isinstance(a, Iv) and not isinstance(b, Iv) and a == b:
            return a
        return mk(min(lo(a), lo(b)), max(hi(a), hi(b)))
    if isinstance(a, (bool,)) or isinstance(b, bool) or a is BOOL or b is BOOL:
        if a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b):
            return a
        if (isinstance(a, bool) or a is BOOL) and (isinstance(b, bool) or b is BOOL):
            return BOOL
        return TOP
    if isinstance(a, L) and isinstance(b, L) and len(a.items) == len(b.items) and a.kind == b.kind:
        return L([join(x, y) for x, y in zip(a.items, b.items)], a.kind, a.once)
    if isinstance(a, str) and isinstance(b, str) and a == b or a is None and b is None:
        return a
    return TOP


class Ranges:
    def __init__(self, repo, budget=3000000):
        self.repo = repo
        self.globals = {}
        self.errors = []
        self.certain = True
        self.steps, self.budget = 0, budget
        self.depth = 0
        self.functions = set()
        self.loading = []
        self.shared = []
        self.impure = []

    def touch(self, v, e, fr, how):
        """an object that outlives the call is changed"""
        if getattr(v, "frozen", None):
            self.shared.append((fr.module.rel, getattr(e, "lineno", 0), fr.name, "%s %s" % (v.frozen, how)))

    def freeze(self, v, what, seen=None):
        """mark everything reachable from v as existing before the call"""
        seen = set() if seen is None else seen
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, (L, D)):
            v.frozen = v.frozen or what
            for x in (v.items if isinstance(v, L) else v.items.values()):
                if isinstance(x, (L, D, Fn, Part)):
                    self.freeze(x, what, seen)
        elif isinstance(v, Part):
            for x in [v.f] + list(v.args) + list(v.kw.values()):
                self.freeze(x, what, seen)
        elif isinstance(v, Fn):
            v.frozen = v.frozen or "function " + v.name
            for x in list(v.defaults) + list(v.kwdefaults):
                self.freeze(x, "a default value of %s" % v.name, seen)
            p = v.env
            while p is not None:
                fr, env = p
                for k, x in list(env.items()):
                    self.freeze(x, k, seen)
                p = fr.outer
        elif isinstance(v, Mod):
            g = self.globals.get(v.module.name, {})
            for k, x in list(g.items()):
                self.freeze(x, "%s of %s" % (k, v.module.name), seen)

    # ------------------------------------------------------------- modules
    def module(self, m):
        if m.name in self.globals:
            return self.globals[m.name]
        env = {"__name__": m.name, "__file__": m.rel, "__doc__": None}
        self.globals[m.name] = env
        self.loading.append(m)
        try:
            self.exec_block(m.tree.body, Frame(self, m, env, None, "<module>"), env)
        finally:
            self.loading.pop()
        return env

    def fail(self, node, frame, what, must):
        must = must and self.certain
        self.errors.append((frame.module.rel, getattr(node, "lineno", 0), frame.name, what, must))
        if must:
            raise Dead()

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Undecided("too many steps")

    # ------------------------------------------------------------- statements
    def exec_block(self, body, fr, env):
        """-> env that falls through, or None"""
        for s in body:
            env = self.exec(s, fr, env)
            if env is None:
                return None
        return env

    def exec(self, s, fr, env):
        self.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Undecided("%s at %s:%s" % (type(s).__name__, fr.module.rel, s.lineno))
        return m(s, fr, env)

    def s_Pass(self, s, fr, env):
        return env

    s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, s, fr, env):
        self.ev(s.value, fr, env)
        return env

    def s_Assert(self, s, fr, env):
        v = self.truth(self.ev(s.test, fr, env))
        if v is not True:
            self.fail(s, fr, "assertion", v is False)
        return env

    def s_Raise(self, s, fr, env):
        self.fail(s, fr, "raise", True)
        return None

    def s_Import(self, s, fr, env):
        for a in s.names:
            name = a.name if a.asname else a.name.split(".")[0]
            env[a.asname or name] = self.modval(a.name if a.asname else name)
        return env

    def modval(self, name):
        if name in self.repo.modules:
            return Mod(self.repo.modules[name])
        return Ext(name)

    def s_ImportFrom(self, s, fr, env):
        base = fr.module._abs(s) if s.level else s.module
        for a in s.names:
            full = "%s.%s" % (base, a.name)
            if full in self.repo.modules:
                v = Mod(self.repo.modules[full])
            elif base in self.repo.modules:
                g = self.module(self.repo.modules[base])
                if a.name not in g:
                    raise Undecided("import of %s" % full)
                v = g[a.name]
            else:
                v = self.extconst(full)
            env[a.asname or a.name] = v
        return env

    def extconst(self, full):
        return CONSTS.get(full, Ext(full))

    def s_FunctionDef(self, s, fr, env):
        f = Fn(s, fr.module, (fr, env), [self.ev(d, fr, env) for d in s.args.defaults], [None if d is None else self.ev(d, fr, env) for d in s.args.kw_defaults])
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr, env)
            name = dv.name if isinstance(dv, Ext) else None
            if name in ("functools.lru_cache", "functools.cache"):
                f.cached = True
            elif name == "functools.wraps" or isinstance(dv, Ext) and dv.name == "@cache":
                f.cached = f.cached or dv.name == "@cache"
            else:
                f = self.call(dv, [f], {}, s, fr)
        env[s.name] = f
        return env

    def s_ClassDef(self, s, fr, env):
        env[s.name] = TOP
        return env

    def s_Return(self, s, fr, env):
        v = None if s.value is None else self.ev(s.value, fr, env)
        fr.returns.append(v)
        return None

    def s_Assign(self, s, fr, env):
        v = self.ev(s.value, fr, env)
        for t in s.targets:
            self.assign(t, v, fr, env)
        return env

    def s_AnnAssign(self, s, fr, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr, env), fr, env)
        return env

    def s_AugAssign(self, s, fr, env):
        old = self.ev(_load(s.target), fr, env)
        new = self.ev(s.value, fr, env)
        if isinstance(old, L) and old.kind == "list" and isinstance(s.op, ast.Add):
            self.touch(old, s, fr, "is extended in place")
            old.items.extend(self.items(new, s, fr))
            return env
        self.assign(s.target, self.binop(s.op, old, new, s, fr), fr, env)
        return env

    def assign(self, t, v, fr, env):
        if isinstance(t, ast.Name):
            tgt = env
            if t.id in fr.globals_decl:
                tgt = self.globals[fr.module.name]
                if env is not tgt:
                    self.shared.append((fr.module.rel, t.lineno, fr.name, "global %s is set" % t.id))
            tgt[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            its = self.items(v, t, fr)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                i = [isinstance(x, ast.Starred) for x in t.elts].index(True)
                n = len(t.elts) - i - 1
                if len(its) < len(t.elts) - 1:
                    return self.fail(t, fr, "unpacking", True)
                for x, y in zip(t.elts[:i], its):
                    self.assign(x, y, fr, env)
                self.assign(t.elts[i].value, L(its[i:len(its) - n]), fr, env)
                for x, y in zip(t.elts[i + 1:], its[len(its) - n:]):
                    self.assign(x, y, fr, env)
                return
            if len(its) != len(t.elts):
                return self.fail(t, fr, "unpacking of %d values into %d names" % (len(its), len(t.elts)), True)
            for x, y in zip(t.elts, its):
                self.assign(x, y, fr, env)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, fr, env)
            i = self.ev(t.slice, fr, env)
            self.touch(b, t, fr, "gets a new element")
            if isinstance(b, L) and isinstance(i, int):
                if not -len(b.items) <= i < len(b.items):
                    return self.fail(t, fr, "index %d of %d" % (i, len(b.items)), True)
                b.items[i] = v
            elif isinstance(b, D) and not isinstance(i, (L, Iv, D)):
                b.items[i] = v
            else:
                raise Undecided("assignment to an element at %s:%s" % (fr.module.rel, t.lineno))
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, fr, env)
            if isinstance(b, Mod):
                self.shared.append((fr.module.rel, t.lineno, fr.name, "%s of module %s is set" % (t.attr, b.module.name)))
            else:
                self.touch(b, t, fr, "gets attribute %s" % t.attr)
            raise Undecided("assignment to an attribute")
        else:
            raise Undecided("assignment")

    def s_Delete(self, s, fr, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)
            else:
                if isinstance(t, ast.Subscript):
                    self.touch(self.ev(t.value, fr, env), t, fr, "loses an element")
                raise Undecided("del")
        return env

    def s_If(self, s, fr, env):
        v = self.truth(self.ev(s.test, fr, env))
        if v is True:
            return self.exec_block(s.body, fr, env)
        if v is False:
            return self.exec_block(s.orelse, fr, env)
        was = self.certain
        self.certain = False
        fr.split = True
        e1, e2 = copy_env(env), copy_env(env)
        self.narrow(s.test, True, fr, e1)
        self.narrow(s.test, False, fr, e2)
        r1 = self.branch(s.body, fr, e1)
        r2 = self.branch(s.orelse, fr, e2)
        if r1 is not None and r2 is not None:
            self.certain = was
            return join_env(r1, r2)
        # one side has left: what follows is no longer certain (restored when the function returns)
        return r1 if r1 is not None else r2

    def branch(self, body, fr, env):
        try:
            return self.exec_block(body, fr, env)
        except Dead:
            return None

    def narrow(self, test, sense, fr, env):
        """on the branch where a comparison of a name or element with a constant holds, its interval shrinks"""
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And if sense else ast.Or):
            for v in test.values:
                self.narrow(v, sense, fr, env)
            return
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, not sense, fr, env)
        if not isinstance(test, ast.Compare) or len(test.ops) != 1:
            return
        for a, b, flip in ((test.left, test.comparators[0], False), (test.comparators[0], test.left, True)):
            op = type(test.ops[0]).__name__
            if flip:
                op = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
            if not sense:
                op = {"Lt": "GtE", "Gt": "LtE", "LtE": "Gt", "GtE": "Lt", "Eq": "NotEq", "NotEq": "Eq"}.get(op, op)
            if not isinstance(a, (ast.Name, ast.Subscript)):
                continue
            try:
                n = len(self.errors)
                va, vb = self.ev(a, fr, env), self.ev(b, fr, env)
                if len(self.errors) != n:
                    del self.errors[n:]
                    continue
            except (Undecided, Dead):
                continue
            if not isinstance(va, Iv) or not is_num(vb):
                continue
            l, h = va.lo, va.hi
            if op == "Lt":
                h = min(h, math.nextafter(hi(vb), -INF))
            elif op == "LtE":
                h = min(h, hi(vb))
            elif op == "Gt":
                l = max(l, math.nextafter(lo(vb), INF))
            elif op == "GtE":
                l = max(l, lo(vb))
            elif op == "Eq":
                l, h = max(l, lo(vb)), min(h, hi(vb))
            elif op == "NotEq" and lo(vb) == hi(vb):
                if l == lo(vb):
                    l = math.nextafter(l, INF)
                if h == hi(vb):
                    h = math.nextafter(h, -INF)
            if l > h:
                continue
            new = Iv(l, h)
            if isinstance(a, ast.Name):
                if a.id in env:
                    env[a.id] = new
            else:
                base, i = self.ev(a.value, fr, env), self.ev(a.slice, fr, env)
                if isinstance(base, L) and isinstance(i, int) and isinstance(a.value, ast.Name) and a.value.id in env and -len(base.items) <= i < len(base.items):
                    c = L(base.items, base.kind)
                    c.items[i] = new
                    env[a.value.id] = c

    def s_For(self, s, fr, env):
        return self.loop(s, self.items(self.ev(s.iter, fr, env), s, fr), fr, env)

    def loop(self, s, its, fr, env):
        was = self.certain
        breaks = []
        fr.loops.append((breaks, []))
        try:
            for x in its:
                if env is None:
                    break
                fr.loops[-1] = (breaks, [])
                self.assign(s.target, x, fr, env)
                env = self.exec_block(s.body, fr, env)
                for c in fr.loops[-1][1]:
                    env = c if env is None else join_env(env, c)
        finally:
            fr.loops.pop()
        if env is not None:
            env = self.exec_block(s.orelse, fr, env)
        for b in breaks:
            env = b if env is None else join_env(env, b)
        return env

    def s_While(self, s, fr, env):
        breaks = []
        fr.loops.append((breaks, []))
        try:
            for _ in range(100000):
                v = self.truth(self.ev(s.test, fr, env))
                if v is False:
                    break
                if v is not True:
                    raise Undecided("while loop at %s:%s" % (fr.module.rel, s.lineno))
                fr.loops[-1] = (breaks, [])
                env = self.exec_block(s.body, fr, env)
                for c in fr.loops[-1][1]:
                    env = c if env is None else join_env(env, c)
                if env is None:
                    break
            else:
                raise Undecided("while loop at %s:%s" % (fr.module.rel, s.lineno))
        finally:
            fr.loops.pop()
        if env is not None:
            env = self.exec_block(s.orelse, fr, env)
        for b in breaks:
            env = b if env is None else join_env(env, b)
        return env

    def s_Break(self, s, fr, env):
        fr.loops[-1][0].append(env)
        return None

    def s_Continue(self, s, fr, env):
        fr.loops[-1][1].append(env)
        return None

    def s_With(self, s, fr, env):
        for i in s.items:
            v = self.ev(i.context_expr, fr, env)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, fr, env)
        return self.exec_block(s.body, fr, env)

    def s_Try(self, s, fr, env):
        n = len(self.errors)
        keep = copy_env(env)
        was = self.certain
        try:
            e = self.exec_block(s.body, fr, env)
            if len(self.errors) == n:
                if e is not None and s.orelse:
                    e = self.exec_block(s.orelse, fr, e)
                return self.exec_block(s.finalbody, fr, e) if e is not None and s.finalbody else e
        except Dead:
            pass
        # an operation in the body may fail: its handlers are not told apart
        raise Undecided("an operation inside try may fail")

    # ------------------------------------------------------------- expressions
    def ev(self, e, fr, env):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided("%s at %s:%s" % (type(e).__name__, fr.module.rel, getattr(e, "lineno", 0)))
        return m(e, fr, env)

    def e_Yield(self, e, fr, env):
        if fr.yields is None:
            raise Undecided("yield")
        if fr.split:
            raise Undecided("yield on some paths only")
        fr.yields.append(None if e.value is None else self.ev(e.value, fr, env))
        return None

    def e_YieldFrom(self, e, fr, env):
        if fr.yields is None or fr.split:
            raise Undecided("yield from")
        fr.yields.extend(self.items(self.ev(e.value, fr, env), e, fr))
        return None

    def e_Constant(self, e, fr, env):
        return e.value

    def e_Name(self, e, fr, env):
        if e.id in env:
            return env[e.id]
        p = fr.outer
        while p is not None:
            ofr, oenv = p
            if e.id in oenv:
                return oenv[e.id]
            p = ofr.outer
        g = self.globals.get(fr.module.name, {})
        if e.id in g:
            return g[e.id]
        if e.id in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[e.id]
        import builtins
        if hasattr(builtins, e.id):
            return Ext("builtins." + e.id)
        self.fail(e, fr, "undefined name %s" % e.id, True)
        return TOP

    def e_Attribute(self, e, fr, env):
        b = self.ev(e.value, fr, env)
        if isinstance(b, Mod):
            full = b.module.name + "." + e.attr
            if full in self.repo.modules:
                return Mod(self.repo.modules[full])
            g = self.module(b.module)
            if e.attr in g:
                return g[e.attr]
            self.fail(e, fr, "no %s in %s" % (e.attr, b.module.name), True)
        if isinstance(b, Ext):
            full = "%s.%s" % (b.name, e.attr)
            if full in self.repo.modules:
                return Mod(self.repo.modules[full])
            return self.extconst(full)
        if isinstance(b, PathV) and e.attr == "parent":
            return PathV(*b.parts[:-1])
        if isinstance(b, L) and e.attr == "shape":
            out, x = [], b
            while isinstance(x, L):
                out.append(len(x.items))
                x = x.items[0] if x.items else None
            return L(out, "tuple")
        if isinstance(b, L) and e.attr == "T":
            return L([L(c) for c in zip(*[r.items for r in b.items])])
        return Meth(b, e.attr)

    def e_Subscript(self, e, fr, env):
        b = self.ev(e.value, fr, env)
        if isinstance(e.slice, ast.Slice):
            xs = [None if p is None else self.ev(p, fr, env) for p in (e.slice.lower, e.slice.upper, e.slice.step)]
            if any(isinstance(x, Iv) or x is TOP for x in xs):
                raise Undecided("slice")
            if isinstance(b, L):
                return L(b.items[slice(*xs)], b.kind)
            if isinstance(b, str):
                return b[slice(*xs)]
            raise Undecided("slice")
        i = self.ev(e.slice, fr, env)
        if isinstance(b, L) and isinstance(i, L) and i.kind == "tuple":
            for j in i.items:
                b = self.index(b, j, e, fr)
            return b
        return self.index(b, i, e, fr)

    def index(self, b, i, e, fr):
        if isinstance(b, (L, str)) and isinstance(i, (int, bool)):
            its = b.items if isinstance(b, L) else b
            if not -len(its) <= i < len(its):
                self.fail(e, fr, "index %d of a sequence of length %d" % (i, len(its)), True)
                return TOP
            return its[i]
        if isinstance(b, L) and isinstance(i, (float, Iv)):
            if isinstance(i, float):
                self.fail(e, fr, "a sequence indexed with a float", True)
            raise Undecided("index at %s:%s" % (fr.module.rel, e.lineno))
        if isinstance(b, D) and not isinstance(i, (L, D, Iv)):
            if i not in b.items:
                self.fail(e, fr, "key %r" % (i,), True)
                return TOP
            return b.items[i]
        if b is TOP:
            return TOP
        raise Undecided("index at %s:%s" % (fr.module.rel, e.lineno))

    def e_List(self, e, fr, env):
        return L(self.elts(e.elts, fr, env))

    def e_Tuple(self, e, fr, env):
        return L(self.elts(e.elts, fr, env), "tuple")

    def e_Set(self, e, fr, env):
        return L(self.elts(e.elts, fr, env), "set")

    def elts(self, es, fr, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.items(self.ev(x.value, fr, env), x, fr))
            else:
                out.append(self.ev(x, fr, env))
        return out

    def e_Dict(self, e, fr, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, fr, env).items)
            else:
                kk = self.ev(k, fr, env)
                if isinstance(kk, (L, Iv, D)):
                    raise Undecided("dict key")
                d[kk] = self.ev(v, fr, env)
        return D(d)

    def e_Lambda(self, e, fr, env):
        return Fn(e, fr.module, (fr, env), [self.ev(d, fr, env) for d in e.args.defaults], [None if d is None else self.ev(d, fr, env) for d in e.args.kw_defaults])

    def e_IfExp(self, e, fr, env):
        v = self.truth(self.ev(e.test, fr, env))
        if v is True:
            return self.ev(e.body, fr, env)
        if v is False:
            return self.ev(e.orelse, fr, env)
        was = self.certain
        self.certain = False
        try:
            out = []
            for x, sense in ((e.body, True), (e.orelse, False)):
                e2 = dict(env)
                self.narrow(e.test, sense, fr, e2)
                try:
                    out.append(self.ev(x, fr, e2))
                except Dead:
                    pass
        finally:
            self.certain = was
        if not out:
            raise Dead()
        return out[0] if len(out) == 1 else join(*out)

    def e_BoolOp(self, e, fr, env):
        is_and = isinstance(e.op, ast.And)
        acc, was = None, self.certain
        try:
            for i, x in enumerate(e.values):
                v = self.ev(x, fr, env)
                t = self.truth(v)
                acc = v if i == 0 else acc
                if t is True and not is_and or t is False and is_and:
                    return v if self.certain == was else BOOL
                if t is True or t is False:
                    last = v
                    continue
                self.certain = False
                last = BOOL
            return last if self.certain == was else BOOL
        finally:
            self.certain = was

    def e_UnaryOp(self, e, fr, env):
        v = self.ev(e.operand, fr, env)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return BOOL if t is BOOL else (not t)
        if isinstance(v, Iv):
            return Iv(-v.hi, -v.lo) if isinstance(e.op, ast.USub) else v
        if is_num(v):
            return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v
        if v is TOP:
            return TOP
        if isinstance(v, L) and v.kind == "array":
            return L([self.e_neg(x) for x in v.items], "array")
        raise Undecided("unary operator")

    def e_BinOp(self, e, fr, env):
        a, b = self.ev(e.left, fr, env), self.ev(e.right, fr, env)
        if isinstance(e.op, ast.Mult) and isinstance(a, Iv) and isinstance(b, Iv) and ast.dump(e.left) == ast.dump(e.right) and pure(e.left):
            return self.power(a, 2, e, fr)
        return self.binop(e.op, a, b, e, fr)

    def binop(self, op, a, b, e, fr):
        if a is BOOL:
            a = Iv(0, 1)
        if b is BOOL:
            b = Iv(0, 1)
        if is_num(a) and is_num(b):
            return self.arith(type(op).__name__, a, b, e, fr)
        o = type(op).__name__
        if o == "Add" and isinstance(a, L) and isinstance(b, L) and a.kind == b.kind and a.kind in ("list", "tuple"):
            return L(a.items + b.items, a.kind)
        if o == "Mult" and isinstance(a, L) and isinstance(b, int) and a.kind in ("list", "tuple"):
            return L(a.items * b, a.kind)
        if o == "Mult" and isinstance(b, L) and isinstance(a, int) and b.kind in ("list", "tuple"):
            return L(b.items * a, b.kind)
        if o == "Div" and isinstance(a, PathV) and isinstance(b, str):
            return PathV(*a.parts, b)
        if o == "Add" and isinstance(a, str) and isinstance(b, str):
            return a + b
        if o == "Mod" and isinstance(a, str):
            return TOP
        if isinstance(a, L) and a.kind == "array" or isinstance(b, L) and b.kind == "array":
            return self.elementwise(lambda x, y: self.binop(op, x, y, e, fr), a, b)
        if a is TOP or b is TOP:
            return TOP
        raise Undecided("operator %s at %s:%s" % (o, fr.module.rel, e.lineno))

    def elementwise(self, f, a, b):
        if isinstance(a, L) and isinstance(b, L):
            if len(a.items) != len(b.items):
                raise Undecided("array shapes")
            return L([f(x, y) for x, y in zip(a.items, b.items)], "array")
        if isinstance(a, L):
            return L([f(x, b) for x in a.items], "array")
        return L([f(a, y) for y in b.items], "array")

    def arith(self, o, a, b, e, fr):
        if not isinstance(a, Iv) and not isinstance(b, Iv):
            try:
                return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b, "FloorDiv": lambda: a // b,
                        "Mod": lambda: a % b, "Pow": lambda: self.cpow(a, b, e, fr), "BitAnd": lambda: a & b, "BitOr": lambda: a | b,
                        "BitXor": lambda: a ^ b, "LShift": lambda: a << b, "RShift": lambda: a >> b}[o]()
            except ZeroDivisionError:
                self.fail(e, fr, "division by zero", True)
                return Iv(-INF, INF)
            except OverflowError:
                self.fail(e, fr, "overflow", True)
                return Iv(-INF, INF)
        al, ah, bl, bh = lo(a), hi(a), lo(b), hi(b)
        if o == "Add":
            return mk(al + bl, ah + bh)
        if o == "Sub":
            return mk(al - bh, ah - bl)
        if o == "Mult":
            c = [mul(x, y) for x in (al, ah) for y in (bl, bh)]
            return mk(min(c), max(c))
        if o in ("Div", "FloorDiv", "Mod"):
            if bl == 0 == bh:
                self.fail(e, fr, "division by zero", True)
                return Iv(-INF, INF)
            if bl <= 0 <= bh:
                self.fail(e, fr, "division by %s" % b, False)
                return Iv(-INF, INF)
            if o == "Mod":
                return Iv(0, bh) if bl > 0 else Iv(bl, 0)
            c = [div(x, y) for x in (al, ah) for y in (bl, bh)]
            if o == "FloorDiv":
                c = [math.floor(x) if abs(x) != INF else x for x in c]
            return mk(min(c), max(c))
        if o == "Pow":
            return self.power(a, b, e, fr)
        raise Undecided("operator %s" % o)

    def cpow(self, a, b, e, fr):
        if a < 0 and isinstance(b, float) and b != int(b):
            self.fail(e, fr, "%s ** %s is not real" % (a, b), True)
            return TOP
        return a ** b

    def power(self, a, b, e, fr, what="**"):
        if not isinstance(b, Iv) and b == int(b):
            n = int(b)
            if n == 0:
                return 1.0
            if n < 0:
                return self.arith("Div", 1.0, self.power(a, -n, e, fr), e, fr)
            try:
                c = [float(lo(a)) ** n, float(hi(a)) ** n]
            except OverflowError:
                self.fail(e, fr, "overflow", False)
                return Iv(-INF, INF)
            r = mk(min(c), max(c))
            if n % 2 == 0 and lo(a) <= 0 <= hi(a):
                r = Iv(0.0, r.hi)
            return widen(r, nonneg=(n % 2 == 0 or lo(a) >= 0))
        if lo(a) < 0:
            self.fail(e, fr, "a negative number to the power %s" % (b,), hi(a) < 0 and not isinstance(b, Iv))
            if hi(a) < 0:
                return TOP
            a = Iv(0.0, hi(a))
        if lo(b) < 0 and lo(a) <= 0:
            self.fail(e, fr, "zero to the power %s" % (b,), hi(a) == 0 and hi(b) < 0)
            return Iv(0.0, INF)
        try:
            c = [pw(x, y) for x in (lo(a), hi(a)) for y in (lo(b), hi(b))]
            if lo(a) <= 1 <= hi(a):
                c.append(1.0)
        except OverflowError:
            self.fail(e, fr, "overflow", False)
            return Iv(0.0, INF)
        return widen(mk(min(c), max(c)), nonneg=True)

    def e_Compare(self, e, fr, env):
        left = self.ev(e.left, fr, env)
        acc = True
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, fr, env)
            r = self.cmp(type(op).__name__, left, right, e, fr)
            if r is False:
                return False
            if r is BOOL:
                acc = BOOL
            left = right
        return acc

    def cmp(self, o, a, b, e, fr):
        if o in ("Is", "IsNot"):
            if a is TOP or b is TOP:
                return BOOL
            r = a is b or (a is None and b is None)
            return r if o == "Is" else not r
        if o in ("In", "NotIn"):
            if isinstance(b, L):
                rs = [self.cmp("Eq", a, x, e, fr) for x in b.items]
                r = True if True in rs else BOOL if BOOL in rs else False
            elif isinstance(b, (D, str)) and isinstance(a, (str, int, float)):
                r = a in (b.items if isinstance(b, D) else b)
            else:
                return BOOL
            return r if o == "In" else BOOL if r is BOOL else not r
        if is_num(a) and is_num(b):
            al, ah, bl, bh = lo(a), hi(a), lo(b), hi(b)
            t = {"Lt": ah < bl, "LtE": ah <= bl, "Gt": al > bh, "GtE": al >= bh, "Eq": al == ah == bl == bh, "NotEq": ah < bl or al > bh}[o]
            f = {"Lt": al >= bh, "LtE": al > bh, "Gt": ah <= bl, "GtE": ah < bl, "Eq": ah < bl or al > bh, "NotEq": al == ah == bl == bh}[o]
            return True if t else False if f else BOOL
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b, "Eq": a == b, "NotEq": a != b}[o]
        if isinstance(a, L) and isinstance(b, L) and o in ("Eq", "NotEq"):
            r = True
            if len(a.items) != len(b.items) or a.kind != b.kind:
                r = False
            else:
                for x, y in zip(a.items, b.items):
                    v = self.cmp("Eq", x, y, e, fr)
                    if v is False:
                        r = False
                        break
                    if v is BOOL:
                        r = BOOL
            return r if o == "Eq" else BOOL if r is BOOL else not r
        if isinstance(a, L) and isinstance(b, L) and o in ("Lt", "LtE", "Gt", "GtE"):
            for x, y in zip(a.items, b.items):
                q = self.cmp("Eq", x, y, e, fr)
                if q is BOOL:
                    return BOOL
                if q is False:
                    return self.cmp({"LtE": "Lt", "GtE": "Gt"}.get(o, o), x, y, e, fr)
            return {"Lt": len(a.items) < len(b.items), "LtE": len(a.items) <= len(b.items), "Gt": len(a.items) > len(b.items), "GtE": len(a.items) >= len(b.items)}[o]
        if a is TOP or b is TOP or a is BOOL or b is BOOL:
            return BOOL
        if o in ("Eq", "NotEq"):
            return (o == "NotEq") if type(a) is not type(b) else BOOL
        raise Undecided("comparison")

    def truth(self, v):
        if v is BOOL or v is TOP:
            return BOOL
        if isinstance(v, Iv):
            return BOOL if v.lo <= 0 <= v.hi and not v.lo == 0 == v.hi else not v.lo == 0 == v.hi
        if isinstance(v, L):
            return bool(v.items)
        if isinstance(v, D):
            return bool(v.items)
        if isinstance(v, (int, float, str, bool, type(None))):
            return bool(v)
        return True

    def e_JoinedStr(self, e, fr, env):
        out = ""
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += v.value
            else:
                x = self.ev(v.value, fr, env)
                if not isinstance(x, (str, int)) or v.format_spec is not None:
                    return TOP
                out += str(x)
        return out

    def e_NamedExpr(self, e, fr, env):
        v = self.ev(e.value, fr, env)
        env[e.target.id] = v
        return v

    def e_Starred(self, e, fr, env):
        raise Undecided("starred")

    def comp(self, e, fr, env, emit, gens=None):
        gens = e.generators if gens is None else gens
        if not gens:
            emit(env)
            return
        g = gens[0]
        for x in self.items(self.ev(g.iter, fr, env), e, fr):
            e2 = dict(env)
            self.assign(g.target, x, fr, e2)
            ok = True
            for c in g.ifs:
                t = self.truth(self.ev(c, fr, e2))
                if t is BOOL:
                    raise Undecided("a filter that depends on the input at %s:%s" % (fr.module.rel, e.lineno))
                if not t:
                    ok = False
                    break
            if ok:
                self.comp(e, fr, e2, emit, gens[1:])

    def e_ListComp(self, e, fr, env):
        out = []
        self.comp(e, fr, env, lambda e2: out.append(self.ev(e.elt, fr, e2)))
        return L(out)

    def e_SetComp(self, e, fr, env):
        r = self.e_ListComp(e, fr, env)
        out = []
        for x in r.items:
            q = [self.cmp("Eq", x, y, e, fr) for y in out]
            if BOOL in q:
                raise Undecided("set of inputs")
            if True not in q:
                out.append(x)
        return L(out, "set")

    def e_GeneratorExp(self, e, fr, env):
        r = self.e_ListComp(e, fr, env)
        r.once = True
        return r

    def e_DictComp(self, e, fr, env):
        d = {}

        def emit(e2):
            k = self.ev(e.key, fr, e2)
            if isinstance(k, (L, Iv, D)):
                raise Undecided("dict key")
            d[k] = self.ev(e.value, fr, e2)
        self.comp(e, fr, env, emit)
        return D(d)

    def items(self, v, e, fr):
        if isinstance(v, L):
            its = list(v.items)
            if v.once:
                self.touch(v, e, fr, "is consumed")
                v.items = []
            return its
        if isinstance(v, D):
            return list(v.items)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, FileV):
            its, v.lines = v.lines, []
            return its
        if is_num(v) or v is None or v is BOOL:
            self.fail(e, fr, "iteration over a number", True)
        raise Undecided("iteration at %s:%s" % (fr.module.rel, getattr(e, "lineno", 0)))

    # ------------------------------------------------------------- calls
    def e_Call(self, e, fr, env):
        f = self.ev(e.func, fr, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.items(self.ev(a.value, fr, env), a, fr))
            else:
                args.append(self.ev(a, fr, env))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr, env)
            if k.arg is None:
                kw.update(v.items)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, e, fr)

    def call(self, f, args, kw, e, fr):
        self.tick()
        if isinstance(f, Part):
            return self.call(f.f, list(f.args) + args, {**f.kw, **kw}, e, fr)
        if isinstance(f, Fn):
            return self.callfn(f, args, kw, e, fr)
        if isinstance(f, Meth):
            return self.method(f.obj, f.name, args, kw, e, fr)
        if isinstance(f, Ext):
            name = f.name
            if name.startswith("builtins."):
                m = getattr(self, "b_" + name[9:], None)
            else:
                name = name.replace("numpy.", "np.")
                m = getattr(self, "x_" + name.replace(".", "_"), None)
            if m is None:
                if f.name.startswith(("random.", "numpy.random", "time.", "secrets.", "uuid.", "os.urandom", "os.environ", "os.getenv", "datetime.", "builtins.id", "builtins.input")):
                    self.impure.append((fr.module.rel, getattr(e, "lineno", 0), fr.name, "depends on %s" % f.name))
                if name.startswith(("logging", "builtins.print")):
                    return None
                raise Undecided("call of %s at %s:%s" % (f.name, fr.module.rel, getattr(e, "lineno", 0)))
            try:
                return m(args, kw, e, fr)
            except (TypeError, IndexError, AttributeError) as x:
                raise Undecided("call of %s: %s" % (f.name, x))
        if f is TOP:
            return TOP
        self.fail(e, fr, "call of something that is no function", not isinstance(f, _S))
        return TOP

    def callfn(self, f, args, kw, e, fr):
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(pos) and a.vararg is None:
            self.fail(e, fr, "too many arguments for %s" % f.name, True)
        for n, v in zip(pos, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = L(args[len(pos):], "tuple")
        extra = {}
        for k, v in kw.items():
            if k in env:
                self.fail(e, fr, "argument %s of %s twice" % (k, f.name), True)
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            env[a.kwarg.arg] = D(extra)
        elif extra:
            self.fail(e, fr, "argument %s of %s" % (sorted(extra)[0], f.name), True)
        for n, v in zip(pos[len(pos) - len(f.defaults):], f.defaults):
            env.setdefault(n, v)
        for x, v in zip(a.kwonlyargs, f.kwdefaults):
            env.setdefault(x.arg, v)
        miss = [n for n in pos + [x.arg for x in a.kwonlyargs] if n not in env]
        if miss:
            self.fail(e, fr, "missing argument %s of %s" % (miss[0], f.name), True)
        if f.cached and any(unhashable(v) for v in args + list(kw.values())):
            self.fail(e, fr, "a cached function called with an unhashable value", True)
        self.depth += 1
        if self.depth > 60:
            raise Undecided("recursion")
        fr2 = Frame(self, f.module, env, f.env, f.name)
        self.functions.add("%s.%s" % (f.module.name, f.name))
        was = self.certain
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr2, env)
            gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(f.node))
            if gen:
                fr2.yields = []
            fr2.globals_decl = {n for x in walk_own(f.node) if isinstance(x, ast.Global) for n in x.names}
            if self.exec_block(f.node.body, fr2, env) is not None:
                fr2.returns.append(None)
            if gen:
                return L(fr2.yields, "iter", True)
            if not fr2.returns:
                raise Dead()
            r = fr2.returns[0]
            for v in fr2.returns[1:]:
                r = join(r, v)
            return r
        finally:
            self.certain = was
            self.depth -= 1

    MUTATORS = {"append", "add", "extend", "insert", "pop", "reverse", "sort", "remove", "clear", "update", "setdefault", "popitem", "discard", "fill", "itemset"}

    def method(self, o, name, args, kw, e, fr):
        if name in self.MUTATORS:
            self.touch(o, e, fr, ".%s()" % name)
        if isinstance(o, L):
            if o.kind == "list" or name in ("index", "count") or o.kind == "set":
                if name in ("append", "add"):
                    o.items.append(args[0])
                    return None
                if name == "extend":
                    o.items.extend(self.items(args[0], e, fr))
                    return None
                if name == "insert" and isinstance(args[0], int):
                    o.items.insert(args[0], args[1])
                    return None
                if name == "pop":
                    i = args[0] if args else -1
                    if isinstance(i, int):
                        if not -len(o.items) <= i < len(o.items):
                            self.fail(e, fr, "pop from a list of length %d" % len(o.items), True)
                            return TOP
                        return o.items.pop(i)
                if name == "reverse":
                    o.items.reverse()
                    return None
                if name == "copy":
                    return L(o.items, o.kind)
                if name == "sort":
                    o.items = self.b_sorted([o], kw, e, fr).items
                    return None
            if name == "tolist":
                return L([self.method(x, name, [], {}, e, fr) if isinstance(x, L) else x for x in o.items])
            if name == "dot":
                return self.x_np_dot([o] + args, kw, e, fr)
            if name in ("sum", "prod", "max", "min", "mean"):
                return getattr(self, {"sum": "b_sum", "prod": "x_np_prod", "max": "b_max", "min": "b_min", "mean": "x_np_mean"}[name])([o], {}, e, fr)
        if isinstance(o, str) and all(isinstance(a, (str, int)) for a in args):
            if name == "format":
                return o.format(*args, **{k: v for k, v in kw.items()}) if all(isinstance(v, (str, int)) for v in kw.values()) else TOP
            if name == "join" or name not in ("split", "strip", "lower", "upper", "startswith", "endswith", "replace", "rstrip", "lstrip", "splitlines", "isdigit"):
                raise Undecided("str.%s" % name)
            r = getattr(o, name)(*args)
            return L(r) if isinstance(r, list) else r
        if isinstance(o, str) and name == "join":
            its = self.items(args[0], e, fr)
            return o.join(its) if all(isinstance(x, str) for x in its) else TOP
        if isinstance(o, PathV):
            if name == "open":
                return self.openfile(o, e, fr)
            if name == "joinpath":
                return PathV(*o.parts, *args)
            if name == "read_text":
                return "".join(self.openfile(o, e, fr).lines)
        if isinstance(o, FileV):
            if name in ("readlines",):
                its, o.lines = o.lines, []
                return L(its)
            if name == "read":
                its, o.lines = o.lines, []
                return "".join(its)
            if name == "close":
                return None
        if isinstance(o, D):
            if name == "items":
                return L([L([k, v], "tuple") for k, v in o.items.items()])
            if name == "keys":
                return L(list(o.items))
            if name == "values":
                return L(list(o.items.values()))
            if name == "get":
                return o.items.get(args[0], args[1] if len(args) > 1 else None)
        if o is TOP:
            return TOP
        raise Undecided("method %s at %s:%s" % (name, fr.module.rel, getattr(e, "lineno", 0)))

    def openfile(self, p, e, fr):
        """data files of the repository are part of its source"""
        full = os.path.normpath(os.path.join(self.repo.root, *[str(x) for x in p.parts]))
        if not full.startswith(os.path.normpath(self.repo.root) + os.sep):
            raise Undecided("a file outside the repository")
        if not os.path.exists(full):
            self.fail(e, fr, "the file %s does not exist" % os.path.relpath(full, self.repo.root), True)
        with open(full, encoding="utf-8") as fh:
            return FileV(fh.readlines())

    # ---- builtins
    def b_len(self, a, kw, e, fr):
        if isinstance(a[0], (L, D)):
            return len(a[0].items)
        if isinstance(a[0], str):
            return len(a[0])
        if is_num(a[0]):
            self.fail(e, fr, "len of a number", True)
        raise Undecided("len")

    def b_range(self, a, kw, e, fr):
        if not all(isinstance(x, int) for x in a):
            if any(isinstance(x, float) for x in a):
                self.fail(e, fr, "range of a float", True)
            raise Undecided("range")
        r = range(*a)
        if len(r) > 200000:
            raise Undecided("long range")
        return L(list(r))

    def b_zip(self, a, kw, e, fr):
        return L([L(t, "tuple") for t in zip(*[self.items(x, e, fr) for x in a])], once=True)

    def b_enumerate(self, a, kw, e, fr):
        s = a[1] if len(a) > 1 else kw.get("start", 0)
        return L([L([i + s, x], "tuple") for i, x in enumerate(self.items(a[0], e, fr))], once=True)

    def b_map(self, a, kw, e, fr):
        return L([self.call(a[0], list(t), {}, e, fr) for t in zip(*[self.items(x, e, fr) for x in a[1:]])], once=True)

    def b_filter(self, a, kw, e, fr):
        out = []
        for x in self.items(a[1], e, fr):
            t = self.truth(x if a[0] is None else self.call(a[0], [x], {}, e, fr))
            if t is BOOL:
                raise Undecided("filter")
            if t:
                out.append(x)
        return L(out, once=True)

    def b_sum(self, a, kw, e, fr):
        its = self.items(a[0], e, fr)
        start = a[1] if len(a) > 1 else kw.get("start", 0)
        acc = start
        for x in its:
            acc = self.binop(ast.Add(), acc, x, e, fr)
        if isinstance(acc, Iv):
            acc = widen(acc, nonneg=all(is_num(x) and lo(x) >= 0 for x in its) and lo(start) >= 0)
        return acc

    def extreme(self, a, kw, e, fr, pick):
        its = self.items(a[0], e, fr) if len(a) == 1 else list(a)
        if not its:
            if "default" in kw:
                return kw["default"]
            self.fail(e, fr, "%s of nothing" % pick.__name__, True)
            return TOP
        if "key" in kw or not all(is_num(x) for x in its):
            if all(isinstance(x, L) for x in its) or "key" in kw:
                raise Undecided("min or max of non-numbers")
            return TOP
        if any(isinstance(x, Iv) for x in its):
            return mk(pick(lo(x) for x in its), pick(hi(x) for x in its))
        return pick(its)

    def b_min(self, a, kw, e, fr):
        return self.extreme(a, kw, e, fr, min)

    def b_max(self, a, kw, e, fr):
        return self.extreme(a, kw, e, fr, max)

    def b_abs(self, a, kw, e, fr):
        v = a[0]
        if isinstance(v, Iv):
            if v.lo >= 0:
                return v
            if v.hi <= 0:
                return Iv(-v.hi, -v.lo)
            return Iv(0.0, max(-v.lo, v.hi))
        if is_num(v):
            return abs(v)
        if v is TOP:
            return TOP
        raise Undecided("abs")

    def b_float(self, a, kw, e, fr):
        v = a[0] if a else 0.0
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                self.fail(e, fr, "float(%r)" % v, True)
        return v if isinstance(v, Iv) or v is TOP else float(v)

    def b_int(self, a, kw, e, fr):
        v = a[0]
        if isinstance(v, Iv):
            return Iv(math.trunc(v.lo) if abs(v.lo) != INF else v.lo, math.trunc(v.hi) if abs(v.hi) != INF else v.hi)
        return v if v is TOP else int(v)

    def b_round(self, a, kw, e, fr):
        if isinstance(a[0], Iv):
            n = a[1] if len(a) > 1 else 0
            return Iv(round(a[0].lo, n), round(a[0].hi, n))
        return round(*a)

    def b_bool(self, a, kw, e, fr):
        return self.truth(a[0])

    def b_list(self, a, kw, e, fr):
        return L(self.items(a[0], e, fr) if a else [])

    def b_tuple(self, a, kw, e, fr):
        return L(self.items(a[0], e, fr) if a else [], "tuple")

    def b_set(self, a, kw, e, fr):
        out = []
        for x in self.items(a[0], e, fr) if a else []:
            q = [self.cmp("Eq", x, y, e, fr) for y in out]
            if BOOL in q:
                raise Undecided("set of inputs")
            if True not in q:
                out.append(x)
        return L(out, "set")

    def b_dict(self, a, kw, e, fr):
        d = {}
        if a:
            if isinstance(a[0], D):
                d.update(a[0].items)
            else:
                for p in self.items(a[0], e, fr):
                    k, v = self.items(p, e, fr)
                    d[k] = v
        d.update(kw)
        return D(d)

    def b_reversed(self, a, kw, e, fr):
        return L(self.items(a[0], e, fr)[::-1], once=True)

    def b_iter(self, a, kw, e, fr):
        return L(self.items(a[0], e, fr), once=True)

    def b_next(self, a, kw, e, fr):
        if isinstance(a[0], L) and a[0].once:
            if a[0].items:
                return a[0].items.pop(0)
            if len(a) > 1:
                return a[1]
            self.fail(e, fr, "next of nothing", True)
        raise Undecided("next")

    def b_sorted(self, a, kw, e, fr):
        its = self.items(a[0], e, fr)
        keys = [self.call(kw["key"], [x], {}, e, fr) for x in its] if kw.get("key") is not None else its
        if all(is_num(k) and not isinstance(k, Iv) for k in keys) or all(isinstance(k, str) for k in keys):
            order = sorted(range(len(its)), key=lambda i: keys[i], reverse=bool(kw.get("reverse")))
            return L([its[i] for i in order])
        if all(isinstance(k, L) and all(is_num(x) and not isinstance(x, Iv) for x in k.items) for k in keys):
            order = sorted(range(len(its)), key=lambda i: keys[i].items, reverse=bool(kw.get("reverse")))
            return L([its[i] for i in order])
        if not kw and all(is_num(x) for x in its):
            # the k-th smallest lies between the k-th smallest bounds
            return L([mk(l, h) for l, h in zip(sorted(lo(x) for x in its), sorted(hi(x) for x in its))])
        raise Undecided("sorting inputs")

    def quant(self, a, e, fr, stop):
        acc = not stop
        for x in self.items(a[0], e, fr):
            t = self.truth(x)
            if t is stop:
                return stop
            if t is BOOL:
                acc = BOOL
        return acc

    def b_any(self, a, kw, e, fr):
        return self.quant(a, e, fr, True)

    def b_all(self, a, kw, e, fr):
        return self.quant(a, e, fr, False)

    def b_pow(self, a, kw, e, fr):
        return self.arith("Pow", a[0], a[1], e, fr)

    def b_str(self, a, kw, e, fr):
        return str(a[0]) if isinstance(a[0], (int, str)) else TOP

    def b_isinstance(self, a, kw, e, fr):
        return BOOL

    def b_print(self, a, kw, e, fr):
        return None

    def b_open(self, a, kw, e, fr):
        p = a[0] if isinstance(a[0], PathV) else PathV(a[0])
        return self.openfile(p, e, fr)

    def b_divmod(self, a, kw, e, fr):
        return L([self.arith("FloorDiv", a[0], a[1], e, fr), self.arith("Mod", a[0], a[1], e, fr)], "tuple")

    # ---- library
    def unary(self, a, e, fr, f, clip=(-INF, INF)):
        v = a[0]
        if isinstance(v, L):
            return L([self.unary([x], e, fr, f, clip) for x in v.items], "array")
        if v is TOP:
            return TOP
        if v is BOOL:
            v = Iv(0, 1)
        if not is_num(v):
            self.fail(e, fr, "a function of numbers called with something else", v is None)
            return TOP
        if isinstance(v, Iv):
            r = widen(mk(f(v.lo), f(v.hi)))
            return Iv(max(r.lo, clip[0]), min(r.hi, clip[1]))
        return f(v)

    def x_math_sqrt(self, a, kw, e, fr):
        v = a[0]
        if isinstance(v, L):
            return L([self.x_math_sqrt([x], kw, e, fr) for x in v.items], "array")
        if is_num(v):
            if lo(v) < 0:
                self.fail(e, fr, "square root of %s" % (v,), hi(v) < 0)
                return Iv(0.0, math.sqrt(max(hi(v), 0.0)))
            return math.sqrt(v) if not isinstance(v, Iv) else Iv(math.sqrt(v.lo), math.sqrt(v.hi))
        return self.unary(a, e, fr, math.sqrt)

    def x_math_exp(self, a, kw, e, fr):
        v = a[0]
        if is_num(v) and hi(v) > 709.78:
            self.fail(e, fr, "exp of %s overflows" % (v,), lo(v) > 709.79)
            return Iv(0.0, INF)
        return self.unary(a, e, fr, lambda x: 0.0 if x == -INF else math.exp(x), (0.0, INF))

    def x_math_log(self, a, kw, e, fr):
        v = a[0]
        if is_num(v) and lo(v) <= 0:
            self.fail(e, fr, "logarithm of %s" % (v,), hi(v) <= 0)
            return Iv(-INF, INF)
        r = self.unary([v], e, fr, math.log)
        if len(a) > 1:
            r = self.arith("Div", r, self.x_math_log([a[1]], {}, e, fr), e, fr)
        return r

    def x_math_log2(self, a, kw, e, fr):
        return self.x_math_log(a[:1], kw, e, fr)

    x_math_log10 = x_math_log1p_ = x_math_log2

    def x_math_sin(self, a, kw, e, fr):
        return self.trig(a, e, fr, math.sin, math.pi / 2)

    def x_math_cos(self, a, kw, e, fr):
        return self.trig(a, e, fr, math.cos, 0.0)

    def trig(self, a, e, fr, f, top):
        v = a[0]
        if isinstance(v, L):
            return L([self.trig([x], e, fr, f, top) for x in v.items], "array")
        if isinstance(v, Iv):
            if abs(v.lo) == INF or abs(v.hi) == INF:
                self.fail(e, fr, "sine or cosine of an infinite number", False)
                return Iv(-1.0, 1.0)
            c = [f(v.lo), f(v.hi)]
            l, h = min(c) - SLACK, max(c) + SLACK
            k = math.ceil((v.lo - top) / (2 * math.pi) - 1e-9)
            if top + 2 * math.pi * k <= v.hi + 1e-9:
                h = 1.0
            k = math.ceil((v.lo - top - math.pi) / (2 * math.pi) - 1e-9)
            if top + math.pi + 2 * math.pi * k <= v.hi + 1e-9:
                l = -1.0
            return Iv(max(l, -1.0), min(h, 1.0))
        return self.unary(a, e, fr, f)

    def x_math_tan(self, a, kw, e, fr):
        if isinstance(a[0], Iv):
            return Iv(-INF, INF)
        return self.unary(a, e, fr, math.tan)

    def x_math_atan(self, a, kw, e, fr):
        return self.unary(a, e, fr, math.atan)

    def x_math_tanh(self, a, kw, e, fr):
        return self.unary(a, e, fr, math.tanh, (-1.0, 1.0))

    def arc(self, a, e, fr, f):
        v = a[0]
        if is_num(v) and (lo(v) < -1 or hi(v) > 1):
            self.fail(e, fr, "arc function of %s" % (v,), hi(v) < -1 or lo(v) > 1)
            return Iv(-4.0, 4.0)
        if isinstance(v, Iv):
            c = sorted((f(v.lo), f(v.hi)))
            return widen(Iv(*c))
        return self.unary(a, e, fr, f)

    def x_math_acos(self, a, kw, e, fr):
        return self.arc(a, e, fr, math.acos)

    def x_math_asin(self, a, kw, e, fr):
        return self.arc(a, e, fr, math.asin)

    def x_math_fabs(self, a, kw, e, fr):
        return self.b_abs([float(a[0]) if is_num(a[0]) and not isinstance(a[0], Iv) else a[0]], kw, e, fr)

    def x_math_pow(self, a, kw, e, fr):
        x, y = a
        if is_num(x) and is_num(y) and not isinstance(x, Iv) and not isinstance(y, Iv):
            try:
                return math.pow(x, y)
            except (ValueError, OverflowError):
                self.fail(e, fr, "pow(%s, %s)" % (x, y), True)
                return TOP
        return self.power(x, y, e, fr)

    def x_math_floor(self, a, kw, e, fr):
        return self.unary(a, e, fr, lambda x: x if abs(x) == INF else math.floor(x))

    def x_math_ceil(self, a, kw, e, fr):
        return self.unary(a, e, fr, lambda x: x if abs(x) == INF else math.ceil(x))

    def x_math_fsum(self, a, kw, e, fr):
        return self.b_sum(a, kw, e, fr)

    def x_math_prod(self, a, kw, e, fr):
        acc = kw.get("start", 1)
        for x in self.items(a[0], e, fr):
            acc = self.binop(ast.Mult(), acc, x, e, fr)
        return acc

    def x_math_hypot(self, a, kw, e, fr):
        return self.x_math_sqrt([self.b_sum([L([self.power(x, 2, e, fr) if isinstance(x, Iv) else x * x for x in a])], {}, e, fr)], {}, e, fr)

    def x_functools_partial(self, a, kw, e, fr):
        return Part(a[0], a[1:], kw)

    def x_functools_reduce(self, a, kw, e, fr):
        its = self.items(a[1], e, fr)
        if len(a) > 2:
            its = [a[2]] + its
        if not its:
            self.fail(e, fr, "reduce of nothing", True)
            return TOP
        acc = its[0]
        for x in its[1:]:
            acc = self.call(a[0], [acc, x], {}, e, fr)
        return acc

    def x_operator_mul(self, a, kw, e, fr):
        return self.binop(ast.Mult(), a[0], a[1], e, fr)

    def x_operator_add(self, a, kw, e, fr):
        return self.binop(ast.Add(), a[0], a[1], e, fr)

    def x_operator_sub(self, a, kw, e, fr):
        return self.binop(ast.Sub(), a[0], a[1], e, fr)

    def x_operator_truediv(self, a, kw, e, fr):
        return self.binop(ast.Div(), a[0], a[1], e, fr)

    def x_itertools_product(self, a, kw, e, fr):
        import itertools
        r = kw.get("repeat", 1)
        return L([L(t, "tuple") for t in itertools.product(*[self.items(x, e, fr) for x in a], repeat=r)], once=True)

    def x_itertools_permutations(self, a, kw, e, fr):
        import itertools
        return L([L(t, "tuple") for t in itertools.permutations(self.items(a[0], e, fr), *a[1:])], once=True)

    def x_itertools_combinations(self, a, kw, e, fr):
        import itertools
        return L([L(t, "tuple") for t in itertools.combinations(self.items(a[0], e, fr), *a[1:])], once=True)

    def x_itertools_chain(self, a, kw, e, fr):
        return L([x for y in a for x in self.items(y, e, fr)], once=True)

    def x_pathlib_Path(self, a, kw, e, fr):
        return PathV(*[p for x in a for p in (x.parts if isinstance(x, PathV) else [x])])

    def x_os_path_join(self, a, kw, e, fr):
        return PathV(*[p for x in a for p in (x.parts if isinstance(x, PathV) else [x])])

    def x_os_path_dirname(self, a, kw, e, fr):
        return PathV(os.path.dirname(a[0])) if isinstance(a[0], str) else PathV(*a[0].parts[:-1])

    def x_np_array(self, a, kw, e, fr):
        def conv(v):
            return L([conv(x) for x in v.items], "array") if isinstance(v, L) else v
        return conv(L(self.items(a[0], e, fr)))

    x_np_asarray = x_np_array

    def x_np_dot(self, a, kw, e, fr):
        m, v = a

        def row(r):
            xs, ys = r.items, v.items
            if len(xs) != len(ys):
                self.fail(e, fr, "product of %d and %d numbers" % (len(xs), len(ys)), True)
            acc = 0.0
            for x, y in zip(xs, ys):
                acc = self.arith("Add", acc, self.arith("Mult", x, y, e, fr), e, fr)
            return widen(acc) if isinstance(acc, Iv) else acc
        if m.items and isinstance(m.items[0], L):
            return L([row(r) for r in m.items], "array")
        return row(m)

    def x_np_sqrt(self, a, kw, e, fr):
        # numpy warns and returns nan where math raises: no real number either
        return self.x_math_sqrt(a, kw, e, fr)

    def x_np_sum(self, a, kw, e, fr):
        return self.b_sum(a[:1], {}, e, fr)

    def x_np_prod(self, a, kw, e, fr):
        return self.x_math_prod(a[:1], {}, e, fr)

    def x_np_mean(self, a, kw, e, fr):
        n = len(a[0].items)
        return self.arith("Div", self.b_sum(a[:1], {}, e, fr), n, e, fr)

    def x_np_abs(self, a, kw, e, fr):
        return L([self.b_abs([x], kw, e, fr) for x in a[0].items], "array") if isinstance(a[0], L) else self.b_abs(a, kw, e, fr)

    x_np_fabs = x_np_absolute = x_np_abs

    def x_functools_lru_cache(self, a, kw, e, fr):
        if a and isinstance(a[0], Fn):
            return self.x_functools_cache(a, kw, e, fr)
        return Ext("functools.cache")

    def x_functools_cache(self, a, kw, e, fr):
        f = a[0]
        if isinstance(f, Fn):
            g = Fn(f.node, f.module, f.env, f.defaults, f.kwdefaults)
            g.cached = True
            return g
        return f

    def x_functools_wraps(self, a, kw, e, fr):
        return Ext("identity")

    def x_identity(self, a, kw, e, fr):
        return a[0]

    def x_np_arange(self, a, kw, e, fr):
        if kw or any(not isinstance(x, (int, float)) for x in a):
            raise Undecided("arange")
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        n = max(0, math.ceil((stop - start) / step))
        if n > 100000:
            raise Undecided("arange")
        d = (start + step) - start
        return L([start + i * d for i in range(n)], "array")

    def x_np_linspace(self, a, kw, e, fr):
        l, h, n = a[0], a[1], a[2] if len(a) > 2 else kw.get("num", 50)
        return L([l + (h - l) * i / (n - 1) for i in range(n)], "array")

    def x_np_power(self, a, kw, e, fr):
        return self.binop(ast.Pow(), a[0], a[1], e, fr)


for _n in ("sin", "cos", "exp", "log", "tan", "floor", "ceil"):
    setattr(Ranges, "x_np_" + _n, getattr(Ranges, "x_math_" + _n))


class Frame:
    __slots__ = ("r", "module", "env", "outer", "name", "returns", "loops", "globals_decl", "yields", "split")

    def __init__(self, r, module, env, outer, name):
        self.r, self.module, self.env, self.outer, self.name = r, module, env, outer, name
        self.returns, self.loops, self.globals_decl, self.yields, self.split = [], [], set(), None, False


def unhashable(v):
    return isinstance(v, D) or isinstance(v, L) and (v.kind not in ("tuple", "iter") or v.kind == "tuple" and any(unhashable(x) for x in v.items))


def walk_own(fn):
    stack = list(fn.body)
    while stack:
        x = stack.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            stack.extend(ast.iter_child_nodes(x))


def pure(e):
    return not any(isinstance(x, ast.Call) for x in ast.walk(e))


def mul(x, y):
    return 0.0 if x == 0 or y == 0 else x * y


def div(x, y):
    try:
        return x / y
    except ZeroDivisionError:
        return INF


def pw(x, y):
    if x == INF or y == INF:
        return INF if x > 1 else 0.0
    return float(x) ** y


def widen(v, nonneg=False):
    l = v.lo - abs(v.lo) * SLACK if abs(v.lo) != INF else v.lo
    h = v.hi + abs(v.hi) * SLACK if abs(v.hi) != INF else v.hi
    if nonneg:
        l = max(l, 0.0)
    return Iv(l, h)


def copy_env(env):
    memo = {}

    def cp(v):
        if isinstance(v, L):
            if id(v) not in memo:
                memo[id(v)] = n = L((), v.kind, v.once, v.frozen)
                n.items = [cp(x) for x in v.items]
            return memo[id(v)]
        if isinstance(v, D):
            if id(v) not in memo:
                memo[id(v)] = n = D({}, v.frozen)
                n.items = {k: cp(x) for k, x in v.items.items()}
            return memo[id(v)]
        return v
    return {k: cp(v) for k, v in env.items()}


def join_env(a, b):
    out = {}
    for k in a:
        if k in b:
            out[k] = join(a[k], b[k])
    a.clear()
    a.update(out)
    return a


def _load(t):
    import copy
    t = copy.deepcopy(t)
    for x in ast.walk(t):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return t
