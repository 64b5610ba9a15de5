"""Which objects a function modifies: a flow-sensitive alias and side-effect analysis with summaries.

An *origin* is (kind, name, path): kind "param" | "global" | "free"; path elements are field names,
"[]" (an element), "~" (a shallow copy of the thing), "^" (a fresh container holding the thing).
A value with no origin is fresh.  Modifying an origin whose path ends in "~" or "^" changes only the
fresh container.
"""
import ast

from . import core

MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add",
       "discard", "appendleft", "popleft", "extendleft", "rotate", "intersection_update", "difference_update",
       "symmetric_difference_update", "fill", "resize", "__setitem__", "__delitem__", "__setattr__"}
SHALLOW = {"list", "tuple", "set", "frozenset", "sorted", "reversed", "iter", "filter", "deque", "dict", "OrderedDict", "defaultdict"}
MAXP = 6


def ext(o, *path):
    k, n, p = o
    for x in path:
        if x == "[]" and p and p[-1] == "^":
            p = p[:-1]
        elif x == "[]" and p and p[-1] == "~":
            p = p[:-1] + ("[]",)
        elif x == "~" and p and p[-1] in ("~", "^"):
            pass
        elif x not in ("[]", "~", "^") and p and p[-1] in ("~", "^"):
            return None
        else:
            p = p + (x,)
    return (k, n, p) if len(p) <= MAXP else None


def exts(os, *path):
    return frozenset(x for x in (ext(o, *path) for o in os) if x is not None)


class Eff:
    __slots__ = ("origin", "how", "where", "line", "via")

    def __init__(self, origin, how, where, line, via=()):
        self.origin, self.how, self.where, self.line, self.via = origin, how, where, line, via

    def key(self):
        return (self.origin, self.how, self.where, self.line)


class Summary:
    def __init__(self):
        self.effects, self.ret, self.elem = {}, frozenset(), frozenset()


class Effects:
    def __init__(self, repo, rounds=4):
        self.repo = repo
        self.fns = []          # (module, ci, node, qual)
        self.sum = {}
        self.by_method = {}
        self.nested = {}
        for m, ci, fn, qual in repo.functions():
            self.fns.append((m, ci, fn, qual))
            self.sum[id(fn)] = Summary()
            if ci is not None:
                self.by_method.setdefault(fn.name, []).append((ci, fn))
        for _ in range(rounds):
            before = [(len(s.effects), s.ret) for s in self.sum.values()]
            for m, ci, fn, qual in self.fns:
                if isinstance(core.enclosing_function(fn), (ast.FunctionDef, ast.AsyncFunctionDef)):
                    continue
                Walk(self, m, ci, fn, qual).go()
            if before == [(len(s.effects), s.ret) for s in self.sum.values()]:
                break

    def of(self, fn):
        return sorted(self.sum[id(fn)].effects.values(), key=lambda e: (e.where, e.line))


class Walk:
    def __init__(self, eff, m, ci, fn, qual, outer=None):
        self.eff, self.repo, self.m, self.ci, self.fn, self.qual = eff, eff.repo, m, ci, fn, qual
        self.s = eff.sum[id(fn)]
        self.outer = outer or {}
        self.locals = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        self.globals_ = {x for n in ast.walk(fn) if isinstance(n, ast.Global) for x in n.names}
        a = fn.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.star = [x.arg for x in (a.vararg, a.kwarg) if x]
        ip = core.enclosing_function(fn)
        self.free = ip is not None

    def go(self):
        env = {p: frozenset([("param", p, ())]) for p in self.params}
        for p in self.star:
            env[p] = frozenset([("param", p, ("^",))])
        self.local_fns = {}
        self.block(self.fn.body, env)

    # ------------------------------------------------------------ effects
    def mutate(self, origins, how, node):
        for o in origins:
            if o[2] and o[2][-1] in ("~", "^"):
                continue
            e = Eff(o, how, self.qual, getattr(node, "lineno", 0))
            self.s.effects.setdefault(e.key(), e)

    def apply(self, fn, binding, node):
        """effects and result of calling a known function; binding: param -> origins"""
        sm = self.eff.sum.get(id(fn))
        if sm is None:
            return frozenset()
        for e in list(sm.effects.values()):
            k, n, p = e.origin
            if k == "param":
                for b in binding.get(n, ()):
                    o = ext(b, *p)
                    if o is not None and not (o[2] and o[2][-1] in ("~", "^")):
                        ne = Eff(o, e.how, e.where, e.line)
                        self.s.effects.setdefault(ne.key(), ne)
            else:
                self.s.effects.setdefault(e.key(), e)
        out = set()
        for k, n, p in sm.ret:
            if k == "param":
                for b in binding.get(n, ()):
                    o = ext(b, *p)
                    if o is not None:
                        out.add(o)
            else:
                out.add((k, n, p))
        return frozenset(out)

    def bindcall(self, fn, args, kws, first=None):
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        b = {}
        if first is not None and names:
            b[names[0]] = first
            names = names[1:]
        for n, v in zip(names, args):
            b[n] = v
        for k, v in kws.items():
            b[k] = v
        if a.vararg and len(args) > len(names):
            b[a.vararg.arg] = exts(frozenset().union(*args[len(names):]), "^")
        return b

    # ------------------------------------------------------------ expressions
    def name(self, env, n):
        if n in env:
            return env[n]
        if n in self.outer and n not in self.locals:
            return self.outer[n]
        if n in self.locals and n not in self.globals_:
            return frozenset()
        b = self.m.bindings.get(n)
        if b and b[-1][0] == "assign" or n in self.globals_:
            return frozenset([("global", self.m.name + "." + n, ())])
        if b and b[-1][0] == "from":
            r = self.repo.resolve_global(self.m, n)
            if r and r[0] == "assign":
                return frozenset([("global", r[1].name + "." + b[-1][2], ())])
            if r and r[0] == "module":
                return frozenset([("global", r[1].name, ())])
        if b and b[-1][0] == "class":
            return frozenset([("global", self.m.name + "." + n, ())])
        return frozenset()

    def ev(self, e, env):
        if e is None:
            return frozenset()
        k = type(e).__name__
        f = getattr(self, "x_" + k, None)
        if f:
            return f(e, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return frozenset()

    def x_Constant(self, e, env):
        return frozenset()

    def x_Name(self, e, env):
        return self.name(env, e.id)

    def x_Attribute(self, e, env):
        base = self.ev(e.value, env)
        r = self.repo.resolve_expr(self.m, e) if not (isinstance(e.value, ast.Name) and (e.value.id in env or e.value.id in self.locals)) else None
        if r and r[0] == "assign":
            return frozenset([("global", r[1].name + "." + e.attr, ())])
        if self.ci is not None and isinstance(e.value, ast.Name) and e.value.id == "self":
            p = self.repo.find_prop(self.ci, e.attr)
            if p:
                return self.apply(p[1], {p[1].args.args[0].arg: base}, e)
        return exts(base, e.attr)

    def x_Subscript(self, e, env):
        base = self.ev(e.value, env)
        self.ev(e.slice, env)
        return exts(base, "~" if isinstance(e.slice, ast.Slice) else "[]")

    def x_Starred(self, e, env):
        return self.ev(e.value, env)

    def x_IfExp(self, e, env):
        self.ev(e.test, env)
        return self.ev(e.body, env) | self.ev(e.orelse, env)

    def x_BoolOp(self, e, env):
        return frozenset().union(*[self.ev(v, env) for v in e.values])

    def x_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env[e.target.id] = v
        return v

    def seqdisp(self, elts, env):
        out = frozenset()
        for x in elts:
            v = self.ev(x, env)
            out |= exts(v, "~") if isinstance(x, ast.Starred) else exts(v, "^")
        return out

    def x_List(self, e, env):
        return self.seqdisp(e.elts, env)
    x_Tuple = x_Set = x_List

    def x_Dict(self, e, env):
        for x in e.keys:
            self.ev(x, env)
        out = frozenset()
        for kk, v in zip(e.keys, e.values):
            o = self.ev(v, env)
            out |= exts(o, "^") if kk is not None else exts(o, "~")
        return out

    def x_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        if isinstance(e.op, (ast.Add, ast.Mult, ast.BitOr)):
            return exts(a | b, "~")
        return frozenset()

    def x_Lambda(self, e, env):
        sub = dict(env)
        for a in e.args.args:
            sub[a.arg] = frozenset()
        self.ev(e.body, sub)
        return frozenset()

    def gens(self, e, env):
        env = dict(env)
        for g in e.generators:
            it = self.ev(g.iter, env)
            self.assign(g.target, exts(it, "[]"), env)
            for c in g.ifs:
                self.ev(c, env)
        return env

    def x_ListComp(self, e, env):
        return exts(self.ev(e.elt, self.gens(e, env)), "^")
    x_SetComp = x_GeneratorExp = x_ListComp

    def x_DictComp(self, e, env):
        env = self.gens(e, env)
        self.ev(e.key, env)
        return exts(self.ev(e.value, env), "^")

    def x_Yield(self, e, env):
        v = self.ev(e.value, env)
        self.s.ret |= exts(v, "^")
        return frozenset()

    def x_YieldFrom(self, e, env):
        self.s.ret |= exts(self.ev(e.value, env), "~")
        return frozenset()

    def x_Call(self, e, env):
        f = e.func
        recv = None
        if isinstance(f, ast.Attribute):
            recv = self.ev(f.value, env)
        elif not isinstance(f, ast.Name):
            self.ev(f, env)
        args = [self.ev(a, env) for a in e.args]
        kws = {k.arg: self.ev(k.value, env) for k in e.keywords if k.arg}
        for k in e.keywords:
            if not k.arg:
                self.ev(k.value, env)
        if any(isinstance(a, ast.Starred) for a in e.args):
            i = next(i for i, a in enumerate(e.args) if isinstance(a, ast.Starred))
            args = args[:i] + [exts(args[i], "[]")] * 6
        # locally defined functions
        if isinstance(f, ast.Name) and f.id in self.local_fns:
            return self.apply(self.local_fns[f.id], self.bindcall(self.local_fns[f.id], args, kws), e)
        r = None
        if isinstance(f, ast.Name) and f.id not in env and f.id not in self.locals:
            r = self.repo.resolve_global(self.m, f.id)
            if r is None:
                return self.bi(f.id, e, args, kws)
        elif isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and self.ci:
                for c in self.repo.mro(self.ci)[1:]:
                    if f.attr in c.methods:
                        return self.apply(c.methods[f.attr], self.bindcall(c.methods[f.attr], args, kws, self.name(env, "self")), e)
                return frozenset()
            base = f.value
            while isinstance(base, ast.Attribute):
                base = base.value
            if isinstance(base, ast.Name) and base.id not in env and base.id not in self.locals:
                r = self.repo.resolve_expr(self.m, f)
        if r is not None:
            if r[0] == "func":
                return self.apply(r[2], self.bindcall(r[2], args, kws), e)
            if r[0] == "class":
                m = self.repo.find_method(r[1], "__init__")
                if m:
                    self.apply(m[1], self.bindcall(m[1], args, kws, frozenset()), e)
                return frozenset()
            if r[0] == "method":
                ci, fn = r[1], r[2]
                return self.apply(fn, self.bindcall(fn, args, kws, frozenset() if fn.name in ci.clsm else None), e)
            if r[0] == "ext":
                return self.extcall(r[1], e, args, kws)
        if isinstance(f, ast.Attribute):
            cands = []
            if self.ci is not None and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls"):
                m = self.repo.find_method(self.ci, f.attr)
                if m:
                    cands = [m]
            elif f.attr not in MUT:
                cs = self.eff.by_method.get(f.attr, [])
                if len(cs) == 1:
                    cands = cs
            if cands:
                ci, fn = cands[0]
                return self.apply(fn, self.bindcall(fn, args, kws, None if fn.name in ci.static else recv), e)
            if f.attr in MUT:
                # numbers and strings have none of these methods
                self.mutate(recv, "." + f.attr + "()", e)
                return exts(recv, "[]") if f.attr in ("pop", "popleft", "setdefault") else frozenset()
            if f.attr in ("get", "__getitem__"):
                return exts(recv, "[]")
            if f.attr in ("values", "copy", "keys", "union", "difference", "intersection"):
                return exts(recv, "~")
            if f.attr == "items":
                return exts(recv, "[]", "^", "^")
        return frozenset()

    def bi(self, name, e, args, kws):
        a0 = args[0] if args else frozenset()
        if name in SHALLOW:
            return exts(args[1] if name == "filter" and len(args) > 1 else a0, "~")
        if name in ("min", "max", "next"):
            return exts(a0, "[]") if len(args) == 1 or name == "next" else frozenset().union(*args)
        if name == "enumerate":
            return exts(a0, "[]", "^", "^")
        if name == "zip":
            return frozenset().union(*[exts(a, "[]", "^", "^") for a in args]) if args else frozenset()
        if name == "setattr":
            self.mutate(a0, "setattr", e)
        if name == "delattr":
            self.mutate(a0, "delattr", e)
        if name == "getattr" and len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
            return exts(a0, e.args[1].value)
        if name == "vars":
            return a0
        return frozenset()

    def extcall(self, dotted, e, args, kws):
        a0 = args[0] if args else frozenset()
        last = dotted.split(".")[-1]
        if dotted in ("random.shuffle", "numpy.random.shuffle"):
            self.mutate(a0, "random.shuffle", e)
        elif dotted.startswith("heapq.heap") or dotted.startswith("bisect.insort"):
            self.mutate(a0, dotted, e)
        elif dotted == "random.choice":
            return exts(a0, "[]")
        elif dotted in ("random.sample", "copy.copy") or last in SHALLOW:
            return exts(a0, "~")
        elif dotted == "itertools.chain":
            return frozenset().union(*[exts(a, "~") for a in args]) if args else frozenset()
        elif last in ("asarray", "ravel"):
            return a0
        if "out" in kws:
            self.mutate(kws["out"], "out=", e)
        return frozenset()

    # ------------------------------------------------------------ statements
    def assign(self, t, v, env, node=None):
        if isinstance(t, ast.Name):
            if t.id in self.globals_:
                self.mutate([("global", self.m.name + "." + t.id, ())], "= (global)", t)
            else:
                env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.assign(x.value if isinstance(x, ast.Starred) else x, exts(v, "[]"), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.mutate(o, "." + t.attr + " =", t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.mutate(o, "[...] =", t)

    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def join(self, env, *envs):
        keys = set()
        for x in envs:
            keys |= set(x)
        for k in keys:
            env[k] = frozenset().union(*[x.get(k, frozenset()) for x in envs])

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
                    vs = [self.ev(x, env) for x in s.value.elts]
                    for x, y in zip(t.elts, vs):
                        self.assign(x, y, env)
                else:
                    self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value, env)
            t = s.target
            listy = isinstance(s.value, (ast.List, ast.ListComp, ast.Set, ast.SetComp, ast.Dict)) or (
                isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in SHALLOW)
            if isinstance(t, ast.Name):
                if listy:
                    self.mutate(self.name(env, t.id), "+=", s)
                if t.id in self.globals_:
                    self.mutate([("global", self.m.name + "." + t.id, ())], "+= (global)", s)
                else:
                    env[t.id] = env.get(t.id, frozenset()) if listy else frozenset()
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                self.mutate(o, "." + t.attr + " op=", s)
                if listy:
                    self.mutate(exts(o, t.attr), "+=", s)
            elif isinstance(t, ast.Subscript):
                self.ev(t.slice, env)
                self.mutate(self.ev(t.value, env), "[...] op=", s)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.Return):
            self.s.ret |= self.ev(s.value, env)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.ev(t.value, env), "del [...]", s)
                elif isinstance(t, ast.Attribute):
                    self.mutate(self.ev(t.value, env), "del ." + t.attr, s)
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
        elif isinstance(s, ast.If):
            self.ev(s.test, env)
            a, b = dict(env), dict(env)
            self.block(s.body, a)
            self.block(s.orelse, b)
            ta, tb = self.ends(s.body), self.ends(s.orelse)
            env.clear()
            self.join(env, *([a] if not ta or tb else []) + ([b] if not tb else []))
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter, env)
            for _ in range(2):
                b = dict(env)
                self.assign(s.target, exts(it, "[]"), b)
                self.block(s.body, b)
                self.join(env, dict(env), b)
            self.block(s.orelse, env)
        elif isinstance(s, ast.While):
            for _ in range(2):
                self.ev(s.test, env)
                b = dict(env)
                self.block(s.body, b)
                self.join(env, dict(env), b)
            self.block(s.orelse, env)
        elif isinstance(s, ast.Try):
            b = dict(env)
            self.block(s.body, b)
            self.join(env, dict(env), b)
            for h in s.handlers:
                hb = dict(env)
                self.block(h.body, hb)
                self.join(env, dict(env), hb)
            self.block(s.orelse, env)
            self.block(s.finalbody, env)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env)
            self.block(s.body, env)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            # effects of a local function are those of its definer (it may be called at any time)
            w = Walk(self.eff, self.m, None, s, self.qual + "." + s.name, {**self.outer, **env})
            w.ci = self.ci
            w.go()
            self.local_fns[s.name] = s
            for e in self.eff.sum[id(s)].effects.values():
                if not (e.origin[0] == "param" and e.origin[1] in w.params + w.star and e.origin[1] not in self.params):
                    self.s.effects.setdefault(e.key(), e)
        elif isinstance(s, (ast.Raise, ast.Assert)):
            for c in ast.iter_child_nodes(s):
                self.ev(c, env)

    def ends(self, body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
