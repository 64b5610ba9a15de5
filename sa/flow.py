"""Path-sensitive abstract interpreter (value numbering + finite facts).

Walks the syntax tree of a function with every callee of the repository inlined.  Values are
constants, structural terms (value numbers of what is unknown), references to abstract heap
objects, functions, classes and modules.  Branches on unknown conditions split the state and
record the decision as a fact about the (normalised) term; loops over unknown iterables are
explored for 0..unroll iterations and the chosen length is a fact as well.  Clients subclass
Flow and intercept calls, comparisons and iterations.  No code of the repository is executed and
no solver is involved.
"""
import ast
import builtins
import itertools
import operator
from fractions import Fraction

from . import core


class TooComplex(Exception):
    pass


# ------------------------------------------------------------------ values
def K(v):
    return ("c", type(v).__name__, v)


INF = float("inf")
NONE, TRUE, FALSE = K(None), K(True), K(False)


def is_c(v):
    return v[0] == "c"


def T(op, *args):
    return ("t", op) + args


def is_t(v, op=None):
    return v[0] == "t" and (op is None or v[1] == op)


def TUP(vs):
    vs = tuple(vs)
    if all(v[0] == "c" for v in vs):
        return K(tuple(v[2] for v in vs))
    return ("tup", vs)


def RAISE(name, payload=None):
    return ("raise", name, payload)


def is_raise(v):
    return v[0] == "raise"


def pyc(v):
    """the python constant, if v is one"""
    return v[2]


def lift(x):
    """constant -> value (tuples of constants stay constants)"""
    return K(x)


class Obj:
    __slots__ = ("kind", "cls", "items", "fields", "base", "frozen")

    def __init__(self, kind, cls=None, items=(), fields=None, base=None):
        self.kind, self.cls, self.items, self.fields, self.base = kind, cls, items, fields if fields is not None else {}, base

    def copy(self):
        return Obj(self.kind, self.cls, self.items, dict(self.fields), self.base)

    def key(self):
        return (self.kind, self.cls, self.items, tuple(self.fields.items()), self.base)


class St:
    __slots__ = ("heap", "facts", "trace", "n", "data", "pend")

    def __init__(self):
        self.heap, self.facts, self.trace, self.n, self.data, self.pend = {}, {}, (), 0, {}, None

    def copy(self):
        s = St()
        s.heap, s.facts, s.trace, s.n, s.data, s.pend = dict(self.heap), dict(self.facts), self.trace, self.n, dict(self.data), self.pend
        return s

    def new(self, obj, oid=None):
        if oid is None:
            self.n += 1
            oid = self.n
        self.heap[oid] = obj
        return ("o", oid)

    def w(self, oid):
        o = self.heap[oid].copy()
        self.heap[oid] = o
        return o

    def fresh(self, op, *args):
        self.n += 1
        return T(op, *args, self.n)

    def event(self, *e):
        self.trace = self.trace + (e,)


class Frame:
    __slots__ = ("env", "module", "fn", "qual", "ci", "selfv", "gen", "on_yield", "exc")

    def __init__(self, env, module, fn, qual, ci=None, selfv=None):
        self.env, self.module, self.fn, self.qual, self.ci, self.selfv = env, module, fn, qual, ci, selfv
        self.gen = self.on_yield = self.exc = None


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
PYOPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
         "%": operator.mod, "**": operator.pow, "&": operator.and_, "|": operator.or_, "^": operator.xor,
         "<<": operator.lshift, ">>": operator.rshift}
PURE_STR = {"lower", "upper", "strip", "lstrip", "rstrip", "split", "rsplit", "startswith", "endswith", "replace", "join",
            "format", "title", "capitalize", "isdigit", "find", "index", "count", "splitlines", "zfill", "partition", "rpartition",
            "ljust", "rjust", "casefold", "isnumeric", "isdecimal"}
PURE_CALLS = {"len", "int", "float", "str", "bool", "abs", "round", "min", "max", "sum", "sorted", "ord", "chr", "repr",
              "divmod", "pow", "hash", "range", "tuple", "hex", "format"}
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "popitem",
            "add", "discard", "popleft", "appendleft", "rotate", "difference_update", "intersection_update",
            "symmetric_difference_update", "__setitem__", "__delitem__", "fill", "resize"}
IGNORED_EXT = ("logging", "warnings")


def lin(v):
    """linear form {term: coef}, const of a numeric value or None"""
    if v[0] == "c" and isinstance(v[2], (int, float)) and not isinstance(v[2], bool):
        try:
            return {}, Fraction(v[2])
        except (ValueError, OverflowError):
            return {v: Fraction(1)}, Fraction(0)
    if is_t(v, "lin"):
        return dict(v[2]), v[3]
    if v[0] == "t":
        return {v: Fraction(1)}, Fraction(0)
    return None


def mklin(d, c):
    d = {k: x for k, x in d.items() if x != 0}
    if not d:
        return K(int(c)) if c.denominator == 1 else K(float(c))
    if c == 0 and len(d) == 1:
        k, x = next(iter(d.items()))
        if x == 1:
            return k
    return T("lin", tuple(sorted(d.items(), key=repr)), c)


def lin_sub(a, b):
    d = dict(a[0])
    for k, x in b[0].items():
        d[k] = d.get(k, 0) - x
    return d, a[1] - b[1]


def canon_lin(d, c):
    """scale so that the first coefficient is +-1; returns (sign, key)"""
    d = {k: x for k, x in d.items() if x != 0}
    if not d:
        return None
    items = sorted(d.items(), key=repr)
    s = abs(items[0][1])
    sign = 1 if items[0][1] > 0 else -1
    key = T("lin", tuple((k, x / s * sign) for k, x in items), c / s * sign)
    return sign, key


LAZY = (("bi", "any"), ("bi", "all"), ("bi", "next"))
EXT_CONSTS = {"sys.float_info.epsilon": 2.0 ** -52, "sys.maxsize": 2 ** 63 - 1, "math.inf": INF, "math.pi": 3.141592653589793, "math.e": 2.718281828459045,
              "numpy.inf": INF, "numpy.pi": 3.141592653589793, "sys.float_info.max": 1.7976931348623157e308}


class Flow:
    unroll = 2
    max_depth = 40
    max_steps = 400000
    max_paths = 4000

    def __init__(self, repo):
        self.repo = repo
        self.frames = []
        self.steps = 0
        self.functions = set()
        self.consts = {}
        self.truncated = set()
        self.fnkeys = {}
        self.notes = []

    # ---------------------------------------------------------------- results plumbing
    def bind(self, results, f):
        out = []
        for st, v in results:
            if v[0] == "raise":
                out.append((st, v))
            else:
                out.extend(f(st, v))
        if len(out) > self.max_paths:
            raise TooComplex("more than %d paths in %s" % (self.max_paths, self.where()))
        return out

    def where(self):
        return self.frames[-1].qual if self.frames else "?"

    def evs(self, st, exprs):
        """evaluate several expressions left to right -> [(st, [values])]; raise as (st, raise)"""
        acc = [(st, [])]
        for e in exprs:
            nxt = []
            for s, vs in acc:
                if isinstance(vs, tuple):
                    nxt.append((s, vs))
                    continue
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(s, e.value):
                        if is_raise(v):
                            nxt.append((s2, v))
                            continue
                        for s3, items in self.items_of(s2, v, e):
                            nxt.append((s3, items if isinstance(items, tuple) and items and items[0] == "raise" else vs + list(items)))
                else:
                    for s2, v in self.ev(s, e):
                        nxt.append((s2, v if is_raise(v) else vs + [v]))
            acc = nxt
        return acc

    # ---------------------------------------------------------------- functions
    def fkey(self, module, node, ci=None):
        k = (module.name, id(node))
        if k not in self.fnkeys:
            self.fnkeys[k] = (module, node, ci)
        elif ci is not None and self.fnkeys[k][2] is None:
            self.fnkeys[k] = (module, node, ci)
        return k

    def fnval(self, module, node, ci=None, env=None):
        return ("fn", self.fkey(module, node, ci), env)

    def start(self):
        return St()

    def run(self, module, node, args, kw=None, ci=None, selfv=None, st=None):
        """interpret a function -> [(st, value|raise)]"""
        st = st or self.start()
        if selfv is not None:
            args = [selfv] + list(args)
        return self.call_fn(st, self.fnval(module, node, ci), list(args), dict(kw or {}), node)

    def call_fn(self, st, fv, args, kw, node):
        module, fn, ci = self.fnkeys[fv[1]]
        qual = core.qual_of(fn, module) if not isinstance(fn, ast.Lambda) else self.where() + ".<lambda>"
        depth = sum(1 for f in self.frames if f.fn is fn)
        if len(self.frames) >= self.max_depth or depth >= self.recursion_limit(qual):
            self.truncated.add(qual)
            return [(st, st.fresh("rec", qual))]
        if not isinstance(fn, ast.Lambda):
            self.functions.add(qual)
            self.repo.consulted.add(module.name)
        env = st.new(Obj("env", base=fv[2]))[1]
        selfv = args[0] if args and ci is not None and fn.args.args[:1] and fn.args.args[0].arg in ("self", "cls") else None
        fr = Frame(env, module, fn, qual, ci, selfv)
        out = []
        for s, err in self.bind_args(st, fr, fn, args, kw):
            if err is not None:
                out.append((s, err))
                continue
            out.extend(self.body(s, fr, fn))
        return out

    def recursion_limit(self, qual):
        return 3

    def body(self, st, fr, fn):
        self.frames.append(fr)
        try:
            if isinstance(fn, ast.Lambda):
                return self.ev(st, fn.body)
            gen = None
            if fr.on_yield is None and is_generator(fn):
                gen = st.new(Obj("list", "generator"))
                fr.gen = gen
            res = []
            for s, k, v in self.block(st, fn.body):
                if k == "raise":
                    res.append((s, v))
                elif gen is not None:
                    res.append((s, gen))
                else:
                    res.append((s, v if k == "ret" else NONE))
            return res
        finally:
            self.frames.pop()

    def bind_args(self, st, fr, fn, args, kw):
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = dict(zip(names, args))
        extra = list(args[len(names):])
        rest = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k == "**":
                continue
            if k in names or k in kwonly:
                if k in vals:
                    return [(st, RAISE("TypeError", "multiple values for %s" % k))]
                vals[k] = v
            else:
                rest[k] = v
        if a.vararg:
            vals[a.vararg.arg] = TUP(extra)
        elif extra:
            return [(st, RAISE("TypeError", "too many arguments for %s" % fr.qual))]
        if a.kwarg:
            o = Obj("dict", items=tuple((K(k), v) for k, v in rest.items()))
            if "**" in kw:
                o.base = kw["**"]
            vals[a.kwarg.arg] = st.new(o)
        elif rest:
            return [(st, RAISE("TypeError", "unexpected keyword %s for %s" % (sorted(rest)[0], fr.qual)))]
        defaults = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(n, d) for n, d in zip(kwonly, a.kw_defaults) if d is not None]
        for n, d in defaults:
            if n not in vals:
                vals[n] = self.default(st, fr, n, d)
        for n in names + kwonly:
            if n not in vals:
                if "**" in kw:
                    vals[n] = T("kw", kw["**"], n)
                else:
                    return [(st, RAISE("TypeError", "missing argument %s of %s" % (n, fr.qual)))]
        st.w(fr.env).fields.update(vals)
        return [(st, None)]

    def default(self, st, fr, name, d):
        """default values are evaluated once: one object for all calls"""
        env = st.heap[fr.env].base if fr.env is not None else None
        if env is not None and ("<default>", id(fr.fn), name) in st.heap[env].fields:
            return st.heap[env].fields[("<default>", id(fr.fn), name)]
        key = ("default", fr.qual, name)
        if key in st.heap:
            return ("o", key)
        self.frames.append(Frame(None, fr.module, None, fr.qual))
        try:
            r = self.ev(st.copy(), d)
        finally:
            self.frames.pop()
        if len(r) != 1 or is_raise(r[0][1]):
            return T("default", fr.qual, name)
        s, v = r[0]
        if v[0] == "o":
            st.n = max(st.n, s.n)
            for k, o in s.heap.items():
                st.heap.setdefault(k, o)
            st.heap[key] = s.heap[v[1]]
            return ("o", key)
        return v

    # ---------------------------------------------------------------- names
    def lookup(self, st, name):
        f = self.frames[-1]
        eid = f.env
        while eid is not None:
            o = st.heap[eid]
            if name in o.fields:
                v = o.fields[name]
                if v is None:
                    return [(st, RAISE("UnboundLocalError", name))]
                return [(st, v)]
            eid = o.base
        return self.global_name(st, f.module, name)

    def global_name(self, st, module, name):
        r = self.repo.resolve_global(module, name)
        if r is None and ("gv", module.name, name) in st.data:
            return [(st, st.data[("gv", module.name, name)])]
        if r is None:
            if hasattr(builtins, name) or name in ("__name__", "__file__", "__doc__"):
                if name == "__doc__":
                    return [(st, K(ast.get_docstring(module.tree, clean=False)))]
                return [(st, ("bi", name))]
            return [(st, RAISE("NameError", name))]
        return self.entity(st, r, name)

    def entity(self, st, r, name):
        k = r[0]
        if k == "func":
            return [(st, self.fnval(r[1], r[2]))]
        if k == "method":
            return [(st, self.fnval(r[1].module, r[2], r[1]))]
        if k == "class":
            return [(st, ("cls", r[1].qual))]
        if k == "module":
            return [(st, ("mod", r[1].name))]
        if k == "ext":
            if r[1] in EXT_CONSTS:
                return [(st, K(EXT_CONSTS[r[1]]))]
            return [(st, ("ext", r[1]))]
        if k == "assign":
            return self.global_var(st, r[1], r[2], name, r[3])
        return [(st, T("?", name))]

    def global_var(self, st, module, value, name, stmt):
        oid = ("g", module.name, name)
        if oid in st.heap:
            return [(st, ("o", oid))]
        key = ("gv", module.name, name)
        if key in st.data:
            return [(st, st.data[key])]
        if value is None and not self.built_up(module, name):
            return [(st, T("global", module.name, name))]
        self.repo.consulted.add(module.name)
        self.frames.append(Frame(None, module, None, module.name))
        try:
            if self.built_up(module, name):
                r = self.run_module(st, module, name)
            else:
                r = self.ev(st.copy(), value)
        except (RecursionError, TooComplex):
            r = []
        finally:
            self.frames.pop()
        r = [x for x in r if not is_raise(x[1])]
        if len(r) != 1:
            v = T("global", module.name, name)
            st.data[key] = v
            return [(st, v)]
        s, v = r[0]
        st.n = max(st.n, s.n)
        for k, o in s.heap.items():
            st.heap.setdefault(k, o)
        for k, o in s.data.items():
            if isinstance(k, tuple) and k and k[0] == "gv":
                st.data.setdefault(k, o)
        if v[0] == "o" and not (isinstance(v[1], tuple) and v[1][0] == "g"):
            # the object is known under its global name, its parts are global too
            seen = {}

            def glob(u, path):
                if u[0] == "o" and isinstance(u[1], int):
                    if u[1] in seen:
                        return seen[u[1]]
                    gid = ("g", module.name, path)
                    seen[u[1]] = ("o", gid)
                    o = s.heap[u[1]].copy()
                    if o.kind in ("list", "set", "deque"):
                        o.items = tuple(glob(x, "%s[%d]" % (path, i)) for i, x in enumerate(o.items))
                    elif o.kind == "dict":
                        o.items = tuple((kk, glob(x, "%s[%s]" % (path, show(kk)))) for kk, x in o.items)
                    elif o.kind == "inst":
                        o.fields = {kk: glob(x, path + "." + kk) for kk, x in o.fields.items()}
                    st.heap[gid] = o
                    return ("o", gid)
                if u[0] == "tup":
                    return ("tup", tuple(glob(x, path) for x in u[1]))
                return u
            v = glob(v, name)
        else:
            st.data[key] = v
        if v[0] == "o":
            return [(st, v)]
        st.data[key] = v
        return [(st, v)]

    def built_up(self, module, name):
        """the module variable is not just one assignment: loops or statements at module level change it"""
        cache = self.__dict__.setdefault("_built", {})
        key = (module.name, name)
        if key not in cache:
            stores, other = 0, False
            for s in module.tree.body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.AsyncFunctionDef)):
                    continue
                names = [x for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == name]
                if not names:
                    continue
                if any(isinstance(x.ctx, ast.Store) for x in names):
                    stores += 1
                    other |= not isinstance(s, (ast.Assign, ast.AnnAssign))
                elif isinstance(s, (ast.Expr, ast.AugAssign, ast.For, ast.While, ast.If, ast.With, ast.Try, ast.Delete)):
                    other |= "__main__" not in ast.dump(s)
                elif isinstance(s, ast.Assign) and any(isinstance(t, (ast.Subscript, ast.Attribute)) and name in {x.id for x in ast.walk(t) if isinstance(x, ast.Name)} for t in s.targets):
                    other = True
            cache[key] = other or stores > 1
        return cache[key]

    def run_module(self, st, module, name):
        """interpret the module's own statements up to the last one that concerns the variable"""
        if getattr(self, "_running", None) is None:
            self._running = set()
        if module.name in self._running:
            return []
        self._running.add(module.name)
        try:
            body = [s for s in module.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.AsyncFunctionDef))
                    and not (isinstance(s, ast.If) and "__main__" in ast.dump(s.test))]
            last = max(i for i, s in enumerate(body) if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(s)))
            out = []
            for s, k, v in self.block(st.copy(), body[:last + 1]):
                if k == "n" and ("gv", module.name, name) in s.data:
                    out.append((s, s.data[("gv", module.name, name)]))
            return out
        finally:
            self._running.discard(module.name)

    def set_var(self, st, name, v):
        f = self.frames[-1]
        eid = f.env
        if eid is None:
            st.data[("gv", f.module.name, name)] = v
            return
        fn = f.fn
        if fn is not None and not isinstance(fn, ast.Lambda):
            g, nl = scope_decls(fn)
            if name in g:
                st.event("global-write", f.module.name, name, f.qual)
                st.data[("gv", f.module.name, name)] = v
                return
            if name in nl:
                e = st.heap[eid].base
                while e is not None and name not in st.heap[e].fields:
                    e = st.heap[e].base
                eid = e if e is not None else eid
        st.w(eid).fields[name] = v

    # ---------------------------------------------------------------- statements
    def block(self, st, body):
        cur = [(st, "n", None)]
        for stmt in body:
            nxt = []
            for s, k, v in cur:
                if k != "n":
                    nxt.append((s, k, v))
                else:
                    nxt.extend(self.stmt(s, stmt))
            cur = nxt
            if len(cur) > self.max_paths:
                raise TooComplex("more than %d paths in %s" % (self.max_paths, self.where()))
        return cur

    def stmt(self, st, n):
        self.steps += 1
        if self.steps > self.max_steps:
            raise TooComplex("step budget")
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            return [(st, "n", None)]
        return m(st, n)

    def from_ev(self, results, f):
        out = []
        for s, v in results:
            if is_raise(v):
                out.append((s, "raise", v))
            else:
                r = f(s, v)
                out.extend(r if isinstance(r, list) else [(s, "n", None)])
        return out

    def s_Expr(self, st, n):
        if isinstance(n.value, ast.Constant):
            return [(st, "n", None)]
        return self.from_ev(self.ev(st, n.value), lambda s, v: None)

    def s_Pass(self, st, n):
        return [(st, "n", None)]

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_Import(self, st, n):
        for a in n.names:
            m = a.name
            top = m if a.asname else m.split(".")[0]
            self.set_var(st, a.asname or top, ("mod", top) if top in self.repo.modules else ("ext", top))
        return [(st, "n", None)]

    def s_ImportFrom(self, st, n):
        m = self.frames[-1].module._abs(n)
        for a in n.names:
            r = self.repo.resolve_member(m, a.name)
            if r is not None:
                for s, v in self.entity(st, r, a.name):
                    self.set_var(st, a.asname or a.name, v)
        return [(st, "n", None)]

    def s_FunctionDef(self, st, n):
        f = self.frames[-1]
        v = self.fnval(f.module, n, None, self.closure(st, n, f))
        for d in reversed(n.decorator_list):
            pass
        self.set_var(st, n.name, v)
        return [(st, "n", None)]

    def closure(self, st, n, f):
        """the environment of a nested function; its defaults are evaluated where it is defined"""
        a = n.args
        names = [x.arg for x in a.posonlyargs + a.args]
        defaults = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(k.arg, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        if f.env is None or not defaults:
            return f.env
        fields = {}
        for name, d in defaults:
            r = self.ev(st, d)
            if len(r) == 1 and r[0][0] is st and not is_raise(r[0][1]):
                fields[("<default>", id(n), name)] = r[0][1]
        return st.new(Obj("env", fields=fields, base=f.env))[1] if fields else f.env

    def s_ClassDef(self, st, n):
        ci = getattr(n, "_ci", None)
        self.set_var(st, n.name, ("cls", ci.qual) if ci else T("localclass", n.name))
        return [(st, "n", None)]

    def s_Assign(self, st, n):
        def f(s, v):
            out = [(s, "n", None)]
            for t in n.targets:
                nxt = []
                for s2, k, x in out:
                    nxt.extend([(s2, k, x)] if k != "n" else self.assign(s2, t, v, n))
                out = nxt
            return out
        return self.from_ev(self.ev(st, n.value), f)

    def s_AnnAssign(self, st, n):
        if n.value is None:
            return [(st, "n", None)]
        return self.from_ev(self.ev(st, n.value), lambda s, v: self.assign(s, n.target, v, n))

    def s_AugAssign(self, st, n):
        op = OPS[type(n.op)]
        t = n.target
        if isinstance(t, ast.Name):
            load = ast.copy_location(ast.Name(t.id, ast.Load()), t)
            return self.from_ev(self.ev(st, load), lambda s, old: self.from_ev(self.ev(s, n.value), lambda s2, v: self.from_ev(
                self.aug(s2, op, old, v, n), lambda s3, r: self.assign(s3, t, r, n))))
        if isinstance(t, ast.Attribute):
            return self.from_ev(self.ev(st, t.value), lambda s, b: self.from_ev(self.getattr(s, b, t.attr, n), lambda s1, old: self.from_ev(
                self.ev(s1, n.value), lambda s2, v: self.from_ev(self.aug(s2, op, old, v, n), lambda s3, r: self.from_ev(
                    self.setattr(s3, b, t.attr, r, n), lambda s4, _: None)))))
        if isinstance(t, ast.Subscript):
            return self.from_ev(self.ev(st, t.value), lambda s, b: self.from_ev(self.ev(s, t.slice), lambda sx, i: self.from_ev(
                self.getitem(sx, b, i, n), lambda s1, old: self.from_ev(
                    self.ev(s1, n.value), lambda s2, v: self.from_ev(self.aug(s2, op, old, v, n), lambda s3, r: self.from_ev(
                        self.setitem(s3, b, i, r, n), lambda s4, _: None))))))
        return [(st, "n", None)]

    def aug(self, st, op, old, v, n):
        if old[0] == "o" and st.heap[old[1]].kind in ("list", "set") and op in ("+", "|", "-"):
            # in-place on mutable containers
            meth = {"+": "extend", "|": "update", "-": "difference_update"}[op]
            return self.bind(self.method(st, old, meth, [v], {}, n), lambda s, _: [(s, old)])
        if old[0] == "t" and op in ("+", "|") and self.may_be_container(st, old) and self.may_be_container(st, v):
            self.mutated(st, old, "+=", n)
        return self.binop(st, op, old, v, n)

    def may_be_container(self, st, v):
        return v[0] == "o" and st.heap[v[1]].kind in ("list", "set", "dict")

    def assign(self, st, t, v, n):
        if isinstance(t, ast.Name):
            self.set_var(st, t.id, v)
            return [(st, "n", None)]
        if isinstance(t, ast.Attribute):
            return self.from_ev(self.ev(st, t.value), lambda s, b: self.from_ev(self.setattr(s, b, t.attr, v, n), lambda s2, _: None))
        if isinstance(t, ast.Subscript):
            return self.from_ev(self.ev(st, t.value), lambda s, b: self.from_ev(self.ev(s, t.slice), lambda s2, i: self.from_ev(
                self.setitem(s2, b, i, v, n), lambda s3, _: None)))
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for s, items in self.unpack(st, v, len(t.elts), star, n):
                if isinstance(items, tuple):
                    out.append((s, "raise", items))
                    continue
                cur = [(s, "n", None)]
                for e, x in zip(t.elts, items):
                    nxt = []
                    for s2, k, y in cur:
                        nxt.extend([(s2, k, y)] if k != "n" else self.assign(s2, e.value if isinstance(e, ast.Starred) else e, x, n))
                    cur = nxt
                out.extend(cur)
            return out
        return [(st, "n", None)]

    def unpack(self, st, v, k, star, n):
        """-> [(st, [values] | raise)]"""
        items = self.exact(st, v)
        if items is not None:
            if star:
                i = star[0]
                m = len(items) - (k - 1)
                if m < 0:
                    return [(st, RAISE("ValueError", "unpack"))]
                return [(st, list(items[:i]) + [st.new(Obj("list", items=tuple(items[i:i + m])))] + list(items[i + m:]))]
            if len(items) != k:
                return [(st, RAISE("ValueError", "unpack"))]
            return [(st, list(items))]
        r = self.unpack_opaque(st, v, k, n)
        if r is not None:
            return r
        return [(st, [T("item", v, i) for i in range(k)])]

    def unpack_opaque(self, st, v, k, n):
        return None

    def s_Return(self, st, n):
        if n.value is None:
            return [(st, "ret", NONE)]
        return [(s, "raise", v) if is_raise(v) else (s, "ret", v) for s, v in self.ev(st, n.value)]

    def s_If(self, st, n):
        out = []
        for s, b in self.cond(st, n.test):
            if isinstance(b, tuple):
                out.append((s, "raise", b))
            else:
                out.extend(self.block(s, n.body if b else n.orelse))
        return out

    def s_While(self, st, n):
        """turns whose condition is decided are not counted against the unrolling limit"""
        out, cur, turns = [], [(st, 0)], 0
        while cur:
            turns += 1
            if turns > self.max_turns:
                self.endless(n)
                raise TooComplex("loop in %s" % self.where())
            nxt = []
            for s, it in cur:
                branches = self.cond(s, n.test)
                for s2, b in branches:
                    if isinstance(b, tuple):
                        out.append((s2, "raise", b))
                    elif not b:
                        out.extend(self.block(s2, n.orelse))
                    elif len(branches) > 1 and it >= self.while_limit(st, n):
                        self.truncated.add(self.where() + " while")
                    else:
                        it2 = it + (1 if len(branches) > 1 else 0)
                        for s3, k, v in self.block(s2, n.body):
                            if k in ("n", "cont"):
                                nxt.append((s3, it2))
                            elif k == "brk":
                                out.append((s3, "n", None))
                            else:
                                out.append((s3, k, v))
            if len(nxt) > 1:
                byit = {}
                for s3, i3 in nxt:
                    byit.setdefault(i3, []).append(s3)
                nxt = [(s3, i3) for i3, l in byit.items() for s3 in self.dedupe(l)]
            if len(nxt) + len(out) > self.max_paths:
                raise TooComplex("more than %d paths in a loop of %s" % (self.max_paths, self.where()))
            cur = nxt
        return out

    max_turns = 3000

    def endless(self, n):
        """a loop whose condition was decided every time and that did not end"""

    def while_limit(self, st, n):
        return self.unroll + 1

    def s_For(self, st, n):
        out = []
        for s, v in self.ev(st, n.iter):
            if is_raise(v):
                out.append((s, "raise", v))
                continue
            out.extend(self.loop(s, v, n, lambda s2, x: self._for_body(s2, n, x), lambda s2: self.block(s2, n.orelse)))
        return out

    s_AsyncFor = s_For

    def _for_body(self, st, n, x):
        out = []
        for s, k, v in self.assign(st, n.target, x, n):
            out.extend([(s, k, v)] if k != "n" else self.block(s, n.body))
        return out

    def loop(self, st, itv, n, body, orelse):
        """generic iteration: body(st, elem) -> [(st,k,v)]"""
        out = []
        if itv[0] == "o" and st.heap[itv[1]].kind in ("list", "deque") and st.heap[itv[1]].base is None:
            # iterates over the list as it is at each turn (it may be changed by the body)
            cur, i = [st], 0
            while cur:
                nxt = []
                for s2 in cur:
                    items = s2.heap[itv[1]].items
                    if i >= len(items):
                        out.extend(orelse(s2))
                        continue
                    for s3, k, v in body(s2, items[i]):
                        if k in ("n", "cont"):
                            nxt.append(s3)
                        elif k == "brk":
                            out.append((s3, "n", None))
                        else:
                            out.append((s3, k, v))
                cur, i = self.dedupe(nxt), i + 1
                if len(cur) + len(out) > self.max_paths or i > 2000:
                    raise TooComplex("more than %d paths in a loop of %s" % (self.max_paths, self.where()))
            return out
        for s, items in self.items_of(st, itv, n):
            if isinstance(items, tuple) and items[:1] == ("raise",):
                out.append((s, "raise", items))
                continue
            cur = [s]
            for x in items:
                nxt = []
                for s2 in cur:
                    for s3, k, v in body(s2, x):
                        if k in ("n", "cont"):
                            nxt.append(s3)
                        elif k == "brk":
                            out.append((s3, "n", None))
                        else:
                            out.append((s3, k, v))
                cur = self.dedupe(nxt)
                if len(cur) + len(out) > self.max_paths:
                    raise TooComplex("more than %d paths in a loop of %s" % (self.max_paths, self.where()))
            for s2 in cur:
                out.extend(orelse(s2))
        return out

    def dedupe(self, sts):
        return sts

    def s_Break(self, st, n):
        return [(st, "brk", None)]

    def s_Continue(self, st, n):
        return [(st, "cont", None)]

    def s_Delete(self, st, n):
        out = [(st, "n", None)]
        for t in n.targets:
            nxt = []
            for s, k, v in out:
                if k != "n":
                    nxt.append((s, k, v))
                elif isinstance(t, ast.Subscript):
                    nxt.extend(self.from_ev(self.ev(s, t.value), lambda s1, b: self.from_ev(self.ev(s1, t.slice), lambda s2, i: self.from_ev(
                        self.delitem(s2, b, i, n), lambda s3, _: None))))
                else:
                    nxt.append((s, k, v))
            out = nxt
        return out

    def s_Raise(self, st, n):
        if n.exc is None:
            e = self.current_exc()
            return [(st, "raise", e if e else RAISE("Exception"))]
        out = []
        for s, v in self.ev(st, n.exc):
            if is_raise(v):
                out.append((s, "raise", v))
            else:
                out.append((s, "raise", self.as_exc(s, v)))
        return out

    def current_exc(self):
        for f in reversed(self.frames):
            if f.exc:
                return f.exc[-1]
        return None

    def as_exc(self, st, v):
        if v[0] == "bi":
            return RAISE(v[1])
        if v[0] == "cls":
            return RAISE(v[1])
        if v[0] == "o" and st.heap[v[1]].kind == "inst":
            return RAISE(st.heap[v[1]].cls, v)
        if v[0] == "excv":
            return v[1]
        if is_t(v, "exc"):
            return RAISE(v[2], v)
        return RAISE("*", v)

    def s_Assert(self, st, n):
        out = []
        for s, b in self.cond(st, n.test):
            if isinstance(b, tuple):
                out.append((s, "raise", b))
            elif b:
                out.append((s, "n", None))
            else:
                out.append((s, "raise", RAISE("AssertionError")))
        return out

    def exc_matches(self, st, exc, typev):
        """True / False / None(unknown)"""
        name = exc[1]
        if typev[0] in ("tup",) or (typev[0] == "c" and isinstance(typev[2], tuple)):
            ts = typev[1] if typev[0] == "tup" else ()
            rs = [self.exc_matches(st, exc, t) for t in ts]
            if any(r is True for r in rs):
                return True
            return None if any(r is None for r in rs) else False
        if typev[0] == "bi":
            h = getattr(builtins, typev[1], None)
            if name == "*":
                if typev[1] in ("Exception", "BaseException"):
                    return True
                return None
            e = getattr(builtins, str(name), None)
            if e is None and name in self.repo.classes:
                e = Exception
                for c in self.repo.mro(self.repo.classes[name]):
                    for b in c.node.bases:
                        if isinstance(b, ast.Name) and hasattr(builtins, b.id):
                            e = getattr(builtins, b.id)
            if e is None:
                e = Exception
            try:
                return issubclass(e, h)
            except TypeError:
                return None
        if typev[0] == "cls":
            if name in self.repo.classes:
                return self.repo.classes[typev[1]] in self.repo.mro(self.repo.classes[name])
            return None if name == "*" else False
        if typev[0] == "ext":
            return True if typev[1] == name else (None if name == "*" else False)
        return None

    def s_Try(self, st, n):
        res = []
        for s, k, v in self.block(st, n.body):
            if k == "n":
                res.extend(self.block(s, n.orelse))
            elif k != "raise":
                res.append((s, k, v))
            else:
                res.extend(self.handle(s, v, n))
        if not n.finalbody:
            return res
        out = []
        for s, k, v in res:
            for s2, k2, v2 in self.block(s, n.finalbody):
                out.append((s2, k, v) if k2 == "n" else (s2, k2, v2))
        return out

    s_TryStar = s_Try

    def handle(self, st, exc, n):
        out = []
        cur = [st]
        for h in n.handlers:
            nxt = []
            for s in cur:
                if h.type is None:
                    m = [(s, True)]
                else:
                    m = []
                    for s2, tv in self.ev(s, h.type):
                        m.append((s2, self.exc_matches(s2, exc, tv) if not is_raise(tv) else True))
                for s2, r in m:
                    if r is None:
                        s3 = s2.copy()
                        nxt.append(s3)
                        r = True
                    if r:
                        if h.name:
                            self.set_var(s2, h.name, ("excv", exc))
                        f = self.frames[-1]
                        f.exc = (f.exc or []) + [exc]
                        try:
                            out.extend(self.block(s2, h.body))
                        finally:
                            f.exc = f.exc[:-1]
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            out.append((s, "raise", exc))
        return out

    def s_With(self, st, n, i=0):
        if i >= len(n.items):
            return self.block(st, n.body)
        item = n.items[i]
        out = []
        for s, v in self.ev(st, item.context_expr):
            if is_raise(v):
                out.append((s, "raise", v))
                continue
            out.extend(self.with_value(s, v, item, n, i))
        return out

    s_AsyncWith = s_With

    def with_value(self, st, v, item, n, i):
        def inner(s, entered):
            if item.optional_vars is not None:
                o = []
                for s2, k, x in self.assign(s, item.optional_vars, entered, n):
                    o.extend([(s2, k, x)] if k != "n" else self.s_With(s2, n, i + 1))
                return o
            return self.s_With(s, n, i + 1)
        if v[0] == "suppress":
            out = []
            for s, k, x in inner(st, NONE):
                if k == "raise":
                    m = self.exc_matches(s, x, ("tup", v[1]))
                    if m is not False:
                        if m is None:
                            s2 = s.copy()
                            out.append((s2, k, x))
                        out.append((s, "n", None))
                        continue
                out.append((s, k, x))
            return out
        if v[0] == "ctxgen":
            module, fn, ci = self.fnkeys[v[1][1]]
            env = st.new(Obj("env", base=v[1][2]))[1]
            fr = Frame(env, module, fn, core.qual_of(fn, module), ci)
            self.functions.add(fr.qual)
            out = []
            for s, err in self.bind_args(st, fr, fn, list(v[2]), dict(v[3])):
                if err is not None:
                    out.append((s, "raise", err))
                    continue
                outer = list(self.frames)

                def on_yield(s2, yv):
                    saved = self.frames
                    self.frames = list(outer)
                    try:
                        res = []
                        for s3, k, x in inner(s2, yv):
                            if k == "raise":
                                res.append((s3, x))
                            else:
                                if k != "n":
                                    s3.pend = (k, x)
                                res.append((s3, NONE))
                        return res
                    finally:
                        self.frames = saved
                fr.on_yield = on_yield
                s.pend = None
                for s2, r in self.body(s, fr, fn):
                    if is_raise(r):
                        out.append((s2, "raise", r))
                    elif s2.pend:
                        k, x = s2.pend
                        s2.pend = None
                        out.append((s2, k, x))
                    else:
                        out.append((s2, "n", None))
            return out
        if v[0] == "o" and st.heap[v[1]].kind == "inst" and st.heap[v[1]].cls in self.repo.classes:
            ci = self.repo.classes[st.heap[v[1]].cls]
            if self.repo.find_method(ci, "__enter__"):
                out = []
                for s, ev in self.bind(self.getattr(st, v, "__enter__", n), lambda s, m: self.call(s, m, [], {}, n)):
                    for s2, k, x in ([(s, "raise", ev)] if is_raise(ev) else inner(s, ev)):
                        for s3, r in self.bind(self.getattr(s2, v, "__exit__", n), lambda s4, m: self.call(s4, m, [NONE, NONE, NONE], {}, n)):
                            out.append((s3, k, x))
                return out
        return inner(st, self.enter_value(st, v))

    def enter_value(self, st, v):
        return T("enter", v)

    def s_Match(self, st, n):
        raise TooComplex("match statement in %s" % self.where())

    # ---------------------------------------------------------------- conditions
    def cond(self, st, e):
        """-> [(st, True|False|raise-tuple)]"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, b if isinstance(b, tuple) else not b) for s, b in self.cond(st, e.operand)]
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            cur, out = [st], []
            for i, x in enumerate(e.values):
                nxt = []
                for s in cur:
                    for s2, b in self.cond(s, x):
                        if isinstance(b, tuple) or (b != is_and) or i == len(e.values) - 1:
                            out.append((s2, b))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out
        if isinstance(e, ast.Compare):
            return self.compare_chain(st, e)
        out = []
        for s, v in self.ev(st, e):
            if is_raise(v):
                out.append((s, v))
            else:
                out.extend(self.truth(s, v, e))
        return out

    def compare_chain(self, st, e):
        out = []

        def rec(s, left, i):
            for s2, r in self.ev(s, e.comparators[i]):
                if is_raise(r):
                    out.append((s2, r))
                    continue
                for s3, b in self.compare(s2, type(e.ops[i]).__name__, left, r, e):
                    if isinstance(b, tuple) or not b or i == len(e.ops) - 1:
                        out.append((s3, b))
                    else:
                        rec(s3, r, i + 1)
        for s, l in self.ev(st, e.left):
            if is_raise(l):
                out.append((s, l))
            else:
                rec(s, l, 0)
        return out

    def truth(self, st, v, n=None):
        k = v[0]
        if k == "c":
            return [(st, bool(v[2]))]
        if k in ("fn", "cls", "mod", "ext", "bi", "bm", "excv", "partial"):
            return [(st, True)]
        if k == "tup":
            return [(st, len(v[1]) > 0)]
        if k == "o":
            o = st.heap[v[1]]
            if o.kind in ("list", "set", "dict", "deque"):
                if o.base is None:
                    return [(st, len(o.items) > 0)]
                if o.items:
                    return [(st, True)]
                return self.decide(st, T("true", v))
            if o.kind == "inst" and o.cls in self.repo.classes:
                for nm in ("__bool__", "__len__"):
                    m = self.repo.find_method(self.repo.classes[o.cls], nm)
                    if m:
                        out = []
                        for s, x in self.call_fn(st, self.fnval(m[0].module, m[1], m[0]), [v], {}, n):
                            out.extend(self.truth(s, x, n) if not is_raise(x) else [(s, x)])
                        return out
            return [(st, True)]
        if is_t(v, "bool"):
            return self.decide(st, v[2])
        if is_t(v, "notb"):
            return [(s, not b) for s, b in self.decide(st, v[2])]
        ln = self.length(st, v)
        if ln is not None:
            return [(st, ln > 0)]
        if is_t(v, "lin") or is_t(v, "len"):
            return [(s, not b) for s, b in self.compare(st, "Eq", v, K(0), n)]
        return self.decide(st, T("true", v))

    def length(self, st, v):
        if v[0] == "t" and ("len", v) in st.facts:
            return st.facts[("len", v)]
        return None

    def decide(self, st, term):
        """split on an unknown boolean term"""
        f = st.facts.get(term)
        if f is not None:
            return [(st, f)]
        r = self.decide_hook(st, term)
        if r is not None:
            return [(st, r)] if isinstance(r, bool) else r
        out = []
        for b in (True, False):
            s = st.copy() if b else st
            s.facts[term] = b
            out.append((s, b))
        return out

    def decide_hook(self, st, term):
        return None

    def compare(self, st, op, a, b, n):
        """-> [(st, bool)]"""
        neg = {"NotEq": "Eq", "IsNot": "Is", "NotIn": "In"}.get(op)
        if neg:
            return [(s, x if isinstance(x, tuple) else not x) for s, x in self.compare(st, neg, a, b, n)]
        r = self.compare_hook(st, op, a, b, n)
        if r is not None:
            return r
        if op == "In":
            return self.contains(st, b, a, n)
        if op in ("Eq", "Is"):
            return self.equal(st, op, a, b, n)
        if a[0] == "c" and b[0] == "c":
            try:
                return [(st, {"Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}[op](a[2], b[2]))]
            except TypeError:
                return [(st, RAISE("TypeError", "comparison"))]
        if op == "Gt":
            return self.less(st, b, a, n)
        if op == "GtE":
            return [(s, not x) for s, x in self.less(st, a, b, n)]
        if op == "LtE":
            return [(s, not x) for s, x in self.less(st, b, a, n)]
        return self.less(st, a, b, n)

    def compare_hook(self, st, op, a, b, n):
        return None

    def less(self, st, a, b, n):
        for x, y, flip in ((a, b, False), (b, a, True)):
            if x[0] == "c" and isinstance(x[2], float) and x[2] in (INF, -INF) and not (y[0] == "c"):
                if self.finite(st, y):
                    return [(st, (x[2] < 0) != flip)]
        ia, ib = self.seq(st, a), self.seq(st, b)
        if ia is not None and ib is not None:
            return self.lex_less(st, list(ia), list(ib), n)
        la, lb = self.num(st, a), self.num(st, b)
        if la is not None and lb is not None:
            d, c = lin_sub(lb, la)            # b - a > 0
            ck = canon_lin(d, c)
            if ck is None:
                return [(st, c > 0)]
            sign, key = ck
            # facts about a canonical linear form: one of '<', '=', '>' (possibly excluded)
            poss = st.facts.get(("sgn", key), frozenset("<=>"))
            want = ">" if sign > 0 else "<"
            t, f = poss & {want}, poss - {want}
            out = []
            if t and f:
                s = st.copy()
                s.facts[("sgn", key)] = t
                st.facts[("sgn", key)] = f
                return [(s, True), (st, False)]
            return [(st, bool(t))]
        if a == b:
            return [(st, False)]
        key = T("lt", a, b)
        if st.facts.get(T("lt", b, a)) is True:
            return [(st, False)]
        return self.decide(st, key)

    def finite(self, st, v):
        return False

    def lex_less(self, st, xs, ys, n):
        cur, out = [st], []
        for x, y in zip(xs, ys):
            nxt = []
            for s in cur:
                for s2, e in self.compare(s, "Eq", x, y, n):
                    if isinstance(e, tuple):
                        out.append((s2, e))
                    elif e:
                        nxt.append(s2)
                    else:
                        out.extend(self.compare(s2, "Lt", x, y, n))
            cur = nxt
        return out + [(s, len(xs) < len(ys)) for s in cur]

    def num(self, st, v):
        if v[0] == "t" and ("len", v) not in st.facts:
            if is_t(v, "len") and ("len", v[2]) in st.facts:
                return {}, Fraction(st.facts[("len", v[2])])
        return lin(v)

    def equal(self, st, op, a, b, n):
        if a == b and a[0] != "c":
            return [(st, True)]
        if a[0] == "c" and b[0] == "c":
            if op == "Is":
                return [(st, a[2] is b[2] or (a[1] == b[1] and a[2] == b[2]))]
            return [(st, a[2] == b[2])]
        simple = ("fn", "cls", "mod", "ext", "bi", "bm", "excv", "partial")
        for x, y in ((a, b), (b, a)):
            if x[0] == "c" and x[2] is not None and y[0] == "ext" and "." in str(y[1]):
                # a value of a library's module, os.name say
                return self.decide(st, T("eq", y, x))
            if x[0] == "c" and y[0] in simple + ("o",):
                if y[0] == "o" and x[2] is not None and not isinstance(x[2], (int, str, float, bool)):
                    continue
                return [(st, False)]
            if x[0] == "c" and x[2] is None and y[0] == "tup":
                return [(st, False)]
        if op == "Is" and a[0] != "t" and b[0] != "t":
            return [(st, a == b)]
        if a[0] == "o" and b[0] == "o":
            oa, ob = st.heap[a[1]], st.heap[b[1]]
            if oa.kind == ob.kind == "set" and oa.base is None and ob.base is None and (
                    set(oa.items) == set(ob.items) or len(oa.items) == len(ob.items)):
                if set(oa.items) == set(ob.items):
                    return [(st, True)]
                # equal when they match up in some order: tried in the order both were filled, then by name
                k = lambda v: repr(v)
                return self.eq_items(st, tuple(sorted(oa.items, key=k)), tuple(sorted(ob.items, key=k)), n)
            if oa.kind != ob.kind and oa.kind in ("list", "set", "deque", "dict") and ob.kind in ("list", "set", "deque", "dict"):
                return [(st, False)]
            if oa.kind == ob.kind and oa.kind in ("list", "set", "deque") and oa.base is None and ob.base is None:
                return self.eq_items(st, oa.items, ob.items, n)
            if oa.kind == "inst":
                ci = self.repo.classes.get(oa.cls)
                m = self.repo.find_method(ci, "__eq__") if ci else None
                if m:
                    out = []
                    for s, v in self.call_fn(st, self.fnval(m[0].module, m[1], m[0]), [a, b], {}, n):
                        out.extend(self.truth(s, v, n) if not is_raise(v) else [(s, v)])
                    return out
                return [(st, False)]
            if oa.kind == "dict" and ob.kind == "dict":
                if oa.items == ob.items and oa.base == ob.base:
                    return [(st, True)]
                if oa.base is None and ob.base is None:
                    da, db = dict(oa.items), dict(ob.items)
                    if all(k[0] == "c" for k in list(da) + list(db)):
                        if set(da) != set(db):
                            return [(st, False)]
                        return self.eq_items(st, tuple(da.values()), tuple(db[k] for k in da), n)
        ia, ib = self.tup_items(a), self.tup_items(b)
        if ia is not None and ib is not None:
            return self.eq_items(st, ia, ib, n)
        la, lb = self.num(st, a), self.num(st, b)
        if la is not None and lb is not None:
            d, c = lin_sub(la, lb)
            ck = canon_lin(d, c)
            if ck is None:
                return [(st, c == 0)]
            key = ck[1]
            poss = st.facts.get(("sgn", key), frozenset("<=>"))
            t, f = poss & {"="}, poss - {"="}
            if t and f:
                s = st.copy()
                s.facts[("sgn", key)] = t
                st.facts[("sgn", key)] = f
                return [(s, True), (st, False)]
            return [(st, bool(t))]
        x, y = sorted((a, b), key=repr)
        return self.decide(st, T("eq", x, y))

    def tup_items(self, v):
        if v[0] == "tup":
            return v[1]
        if v[0] == "c" and isinstance(v[2], tuple):
            return tuple(K(x) for x in v[2])
        return None

    def eq_items(self, st, xs, ys, n):
        if len(xs) != len(ys):
            return [(st, False)]
        cur, out = [st], []
        for x, y in zip(xs, ys):
            nxt = []
            for s in cur:
                for s2, b in self.compare(s, "Eq", x, y, n):
                    if b is True:
                        nxt.append(s2)
                    else:
                        out.append((s2, b))
            cur = nxt
        return out + [(s, True) for s in cur]

    def contains(self, st, c, x, n):
        items = self.exact(st, c)
        if c[0] == "c" and isinstance(c[2], str):
            if x[0] == "c":
                return [(st, x[2] in c[2])]
            return self.decide(st, T("in", x, c))
        if c[0] == "o" and st.heap[c[1]].kind == "dict":
            o = st.heap[c[1]]
            items = [k for k, _ in o.items]
            if o.base is not None:
                if x in items:
                    return [(st, True)]
                return self.decide(st, T("in", x, o.base))
        if items is not None:
            cur, out = [st], []
            for y in items:
                nxt = []
                for s in cur:
                    for s2, b in self.equal(s, "Eq", x, y, n):
                        if b is True:
                            out.append((s2, True))
                        elif b is False:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                cur = nxt
            return out + [(s, False) for s in cur]
        return self.decide(st, T("in", x, c))

    # ---------------------------------------------------------------- expressions
    def ev(self, st, e):
        self.steps += 1
        if self.steps > self.max_steps:
            raise TooComplex("step budget")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(st, T("expr", type(e).__name__, id(e)))]
        return m(st, e)

    def e_Constant(self, st, e):
        return [(st, K(e.value))]

    def e_Name(self, st, e):
        return self.lookup(st, e.id)

    def e_Tuple(self, st, e):
        return [(s, vs if isinstance(vs, tuple) else TUP(vs)) for s, vs in self.evs(st, e.elts)]

    def e_List(self, st, e):
        return [(s, vs if isinstance(vs, tuple) else s.new(Obj("list", items=tuple(vs)))) for s, vs in self.evs(st, e.elts)]

    def e_Set(self, st, e):
        return [(s, vs if isinstance(vs, tuple) else s.new(Obj("set", items=self.unique(vs)))) for s, vs in self.evs(st, e.elts)]

    def e_Dict(self, st, e):
        cur = [(st, Obj("dict"))]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for s, o in cur:
                if isinstance(o, tuple):
                    nxt.append((s, o))
                    continue
                if k is None:
                    for s2, x in self.ev(s, v):
                        if is_raise(x):
                            nxt.append((s2, x))
                            continue
                        o2 = o.copy()
                        if x[0] == "o" and s2.heap[x[1]].kind == "dict":
                            for kk, vv in s2.heap[x[1]].items:
                                o2.items = dict_set(o2.items, kk, vv)
                            o2.base = o2.base or s2.heap[x[1]].base
                        else:
                            o2.base = x
                        nxt.append((s2, o2))
                else:
                    for s2, kv in self.evs(s, [k, v]):
                        if isinstance(kv, tuple):
                            nxt.append((s2, kv))
                            continue
                        o2 = o.copy()
                        o2.items = dict_set(o2.items, kv[0], kv[1])
                        nxt.append((s2, o2))
            cur = nxt
        return [(s, o if isinstance(o, tuple) else s.new(o)) for s, o in cur]

    def e_NamedExpr(self, st, e):
        out = []
        for s, v in self.ev(st, e.value):
            if not is_raise(v):
                self.set_var(s, e.target.id, v)
            out.append((s, v))
        return out

    def e_BoolOp(self, st, e):
        is_and = isinstance(e.op, ast.And)
        cur, out = [st], []
        for i, x in enumerate(e.values):
            nxt = []
            for s in cur:
                if i == len(e.values) - 1:
                    out.extend(self.ev(s, x))
                    continue
                for s2, v in self.ev(s, x):
                    if is_raise(v):
                        out.append((s2, v))
                        continue
                    for s3, b in self.truth(s2, v, x):
                        if isinstance(b, tuple):
                            out.append((s3, b))
                        elif b != is_and:
                            out.append((s3, v))
                        else:
                            nxt.append(s3)
            cur = nxt
        return out

    def e_Compare(self, st, e):
        return [(s, b if isinstance(b, tuple) else K(b)) for s, b in self.compare_chain(st, e)]

    def e_UnaryOp(self, st, e):
        if isinstance(e.op, ast.Not):
            return [(s, b if isinstance(b, tuple) else K(b)) for s, b in self.cond(st, e)]

        def f(s, v):
            if isinstance(e.op, ast.USub):
                if v[0] == "c" and isinstance(v[2], (int, float)):
                    return [(s, K(-v[2]))]
                l = lin(v)
                if l is not None:
                    return [(s, mklin({k: -x for k, x in l[0].items()}, -l[1]))]
                return self.neg(s, v)
            if isinstance(e.op, ast.UAdd):
                return [(s, v)]
            if v[0] == "c":
                return [(s, K(~v[2]))]
            return [(s, T("~", v))]
        return self.bind(self.ev(st, e.operand), f)

    def neg(self, st, v):
        return [(st, T("neg", v))]

    def e_BinOp(self, st, e):
        op = OPS[type(e.op)]
        out = []
        for s, vs in self.evs(st, [e.left, e.right]):
            out.extend([(s, vs)] if isinstance(vs, tuple) else self.binop(s, op, vs[0], vs[1], e))
        return out

    def binop(self, st, op, a, b, n):
        if a[0] == "c" and b[0] == "c":
            try:
                if op == "**" and (abs(b[2]) > 64):
                    return [(st, T(op, a, b))]
                return [(st, K(PYOPS[op](a[2], b[2])))]
            except ZeroDivisionError:
                return [(st, RAISE("ZeroDivisionError"))]
            except Exception:
                return [(st, RAISE("TypeError", "binop %s" % op))]
        if op == "%" and a[0] == "c" and isinstance(a[2], str):
            return [(st, T("strfmt", a, b))]
        if op == "/" and self.is_path(st, a):
            return [(st, self.path_join(a, b))]
        if op == "+":
            sa, sb = str_parts(a), str_parts(b)
            if sa is not None and sb is not None:
                return [(st, mkstr(sa + sb))]
            if (sa is not None and b[0] == "t") or (sb is not None and a[0] == "t"):
                return [(st, mkstr((sa if sa is not None else (T("str", (a,)),)) + (sb if sb is not None else (b,))))]
            ia, ib = self.seq(st, a), self.seq(st, b)
            if ia is not None and ib is not None:
                if a[0] == "o":
                    return [(st, st.new(Obj("list", items=tuple(ia) + tuple(ib))))]
                return [(st, TUP(tuple(ia) + tuple(ib)))]
            if a[0] == "t" and (ib is not None) or b[0] == "t" and (ia is not None):
                return [(st, T("concat", self.snap(st, a), self.snap(st, b)))]
        if op == "*":
            for x, y in ((a, b), (b, a)):
                iy = self.seq(st, y)
                if iy is not None and x[0] == "c" and isinstance(x[2], int):
                    if y[0] == "o":
                        return [(st, st.new(Obj("list", items=tuple(iy) * x[2])))]
                    return [(st, TUP(tuple(iy) * x[2]))]
        if op in ("-", "|", "&") and a[0] == "o" and b[0] == "o" and st.heap[a[1]].kind == "set":
            ia, ib = st.heap[a[1]].items, self.exact(st, b)
            if ib is not None:
                if op == "-":
                    r = tuple(x for x in ia if not self.among(x, ib))
                elif op == "&":
                    r = tuple(x for x in ia if self.among(x, ib))
                else:
                    r = self.unique(ia + tuple(ib))
                return [(st, st.new(Obj("set", items=r)))]
        r = self.binop_hook(st, op, a, b, n)
        if r is not None:
            return r
        la, lb = lin(a), lin(b)
        if la is not None and lb is not None:
            if op in ("+", "-"):
                d = dict(la[0])
                sg = 1 if op == "+" else -1
                for k, x in lb[0].items():
                    d[k] = d.get(k, 0) + sg * x
                return [(st, mklin(d, la[1] + sg * lb[1]))]
            if op == "*":
                for (d1, c1), (d2, c2) in (((la), (lb)), ((lb), (la))):
                    if not d1:
                        return [(st, mklin({k: x * c1 for k, x in d2.items()}, c2 * c1))]
                x, y = sorted((a, b), key=repr)
                return [(st, T("*", x, y))]
            if op == "/" and not lb[0] and lb[1] != 0:
                return [(st, mklin({k: x / lb[1] for k, x in la[0].items()}, la[1] / lb[1]))]
        return [(st, T(op, self.snap(st, a), self.snap(st, b)))]

    def binop_hook(self, st, op, a, b, n):
        return None

    def seq(self, st, v):
        if v[0] == "o" and st.heap[v[1]].kind == "list" and st.heap[v[1]].base is None:
            return st.heap[v[1]].items
        return self.tup_items(v)

    def e_IfExp(self, st, e):
        out = []
        for s, b in self.cond(st, e.test):
            out.extend([(s, b)] if isinstance(b, tuple) else self.ev(s, e.body if b else e.orelse))
        return out

    def e_Lambda(self, st, e):
        f = self.frames[-1]
        return [(st, self.fnval(f.module, e, None, self.closure(st, e, f)))]

    def e_JoinedStr(self, st, e):
        cur = [(st, ())]
        for p in e.values:
            nxt = []
            for s, parts in cur:
                if parts and parts[0] == "raise":
                    nxt.append((s, parts))
                    continue
                if isinstance(p, ast.Constant):
                    nxt.append((s, parts + (p.value,)))
                    continue
                spec = "".join(x.value for x in p.format_spec.values if isinstance(x, ast.Constant)) if p.format_spec else ""
                for s2, v in self.ev(s, p.value):
                    nxt.append((s2, v if is_raise(v) else parts + self.fmt(s2, v, spec, p.conversion)))
            cur = nxt
        return [(s, p if p and p[0] == "raise" else mkstr(p)) for s, p in cur]

    def fmt(self, st, v, spec="", conv=-1):
        if v[0] == "c":
            x = v[2]
            try:
                if conv == 114:
                    x = repr(x)
                elif conv == 115:
                    x = str(x)
                return (format(x, spec),)
            except Exception:
                pass
        sp = str_parts(v)
        if not spec and sp is not None:
            return sp
        if not spec and self.is_path(st, v):
            return (v,)
        return (T("fmt", self.snap(st, v), spec) if spec else self.snap(st, v),)

    def e_FormattedValue(self, st, e):
        return self.ev(st, e.value)

    def e_Attribute(self, st, e):
        return self.bind(self.ev(st, e.value), lambda s, v: self.getattr(s, v, e.attr, e))

    def e_Subscript(self, st, e):
        return self.bind(self.ev(st, e.value), lambda s, b: self.bind(self.ev(s, e.slice), lambda s2, i: self.getitem(s2, b, i, e)))

    def e_Slice(self, st, e):
        cur = []
        xs = [x if x is not None else ast.Constant(None) for x in (e.lower, e.upper, e.step)]
        for s, vs in self.evs(st, xs):
            cur.append((s, vs if isinstance(vs, tuple) else ("slice", tuple(vs))))
        return cur

    def e_Starred(self, st, e):
        return self.ev(st, e.value)

    def e_Yield(self, st, e):
        f = self.frames[-1]
        rs = self.ev(st, e.value) if e.value is not None else [(st, NONE)]

        def g(s, v):
            if f.on_yield is not None:
                return f.on_yield(s, v)
            if f.gen is not None:
                o = s.w(f.gen[1])
                o.items = o.items + (v,)
            return [(s, NONE)]
        return self.bind(rs, g)

    def e_YieldFrom(self, st, e):
        f = self.frames[-1]
        out = []
        for s, v in self.ev(st, e.value):
            if is_raise(v):
                out.append((s, v))
                continue
            for s2, items in self.items_of(s, v, e):
                if isinstance(items, tuple) and items[:1] == ("raise",):
                    out.append((s2, items))
                    continue
                if f.gen is not None:
                    o = s2.w(f.gen[1])
                    o.items = o.items + tuple(items)
                out.append((s2, NONE))
        return out

    def e_Await(self, st, e):
        return self.ev(st, e.value)

    def comp(self, st, e, gens, emit, i=0):
        """run the generators of a comprehension; emit(st) -> [(st, None|raise)]"""
        if i >= len(gens):
            return emit(st)
        g = gens[i]
        out = []
        for s, itv in self.ev(st, g.iter):
            if is_raise(itv):
                out.append((s, itv))
                continue

            def body(s2, x):
                r = []
                for s3, k, v in self.assign(s2, g.target, x, e):
                    if k != "n":
                        r.append((s3, k, v))
                        continue
                    cur = [s3]
                    for c in g.ifs:
                        nxt = []
                        for s4 in cur:
                            for s5, b in self.cond(s4, c):
                                if isinstance(b, tuple):
                                    r.append((s5, "raise", b))
                                elif b:
                                    nxt.append(s5)
                                else:
                                    r.append((s5, "n", None))
                        cur = nxt
                    for s4 in cur:
                        for s5, v5 in self.comp(s4, e, gens, emit, i + 1):
                            r.append((s5, "raise", v5) if v5 is not None and is_raise(v5) else (s5, "n", None))
                return r
            for s2, k, v in self.loop(s, itv, e, body, lambda s3: [(s3, "n", None)]):
                out.append((s2, v if k == "raise" else None))
        return out

    def with_env(self, st):
        f = self.frames[-1]
        env = st.new(Obj("env", base=f.env))[1]
        fr = Frame(env, f.module, None, f.qual, f.ci, f.selfv)
        fr.on_yield, fr.gen = f.on_yield, f.gen
        self.frames.append(fr)

    def e_ListComp(self, st, e, kind="list"):
        res = st.new(Obj(kind))
        self.with_env(st)

        def emit(s):
            out = []
            for s2, v in self.ev(s, e.elt):
                if is_raise(v):
                    out.append((s2, v))
                    continue
                o = s2.w(res[1])
                if kind != "set" or not self.among(v, o.items):
                    o.items = o.items + (v,)
                out.append((s2, None))
            return out
        try:
            r = self.comp(st, e, e.generators, emit)
        finally:
            self.frames.pop()
        return [(s, v if v is not None else res) for s, v in r]

    e_GeneratorExp = e_ListComp

    def lazy(self, st, name, e):
        """any, all and next read a generator expression only as far as they need"""
        self.with_env(st)
        ge = e.args[0]

        def emit(s):
            out = []
            for s2, v in self.ev(s, ge.elt):
                if is_raise(v):
                    out.append((s2, v))
                elif name == "next":
                    out.append((s2, RAISE("<stop>", v)))
                else:
                    for s3, b in self.truth(s2, v, e):
                        if isinstance(b, tuple):
                            out.append((s3, b))
                        else:
                            out.append((s3, RAISE("<stop>", K(b)) if b == (name == "any") else None))
            return out
        try:
            r = self.comp(st, ge, ge.generators, emit)
        finally:
            self.frames.pop()
        out = []
        for s, v in r:
            if v is not None:
                out.append((s, v[2] if v[1] == "<stop>" else v))
            elif name != "next":
                out.append((s, K(name == "all")))
            elif len(e.args) > 1:
                out.extend(self.ev(s, e.args[1]))
            else:
                out.append((s, RAISE("StopIteration")))
        return out

    def e_SetComp(self, st, e):
        return self.e_ListComp(st, e, "set")

    def e_DictComp(self, st, e):
        res = st.new(Obj("dict"))
        self.with_env(st)

        def emit(s):
            out = []
            for s2, kv in self.evs(s, [e.key, e.value]):
                if isinstance(kv, tuple):
                    out.append((s2, kv))
                    continue
                o = s2.w(res[1])
                o.items = dict_set(o.items, kv[0], kv[1])
                out.append((s2, None))
            return out
        try:
            r = self.comp(st, e, e.generators, emit)
        finally:
            self.frames.pop()
        return [(s, v if v is not None else res) for s, v in r]

    # ---------------------------------------------------------------- iteration
    def exact(self, st, v):
        """the list of elements when known exactly"""
        if v[0] == "tup":
            return list(v[1])
        if v[0] == "c":
            if isinstance(v[2], (tuple, list)):
                return [K(x) for x in v[2]]
            if isinstance(v[2], str):
                return [K(x) for x in v[2]]
            return None
        if v[0] == "o":
            o = st.heap[v[1]]
            if o.kind in ("list", "set", "deque") and o.base is None:
                return list(o.items)
            if o.kind == "dict" and o.base is None:
                return [k for k, _ in o.items]
        if v[0] == "range":
            return [K(i) for i in v[1]]
        return None

    def is_number(self, st, v):
        """known to be a number (not iterable)"""
        return False

    def items_of(self, st, v, n):
        """-> [(st, [elements])] (or raise tuples); unknown iterables are explored for 0..unroll elements"""
        x = self.exact(st, v)
        if x is not None:
            if len(x) > 100000:
                raise TooComplex("long loop")
            return [(st, x)]
        if v[0] == "c" or self.is_number(st, v):
            return [(st, RAISE("TypeError", "not iterable"))]
        if v[0] == "o":
            o = st.heap[v[1]]
            if o.kind == "inst" and o.cls in self.repo.classes:
                m = self.repo.find_method(self.repo.classes[o.cls], "__iter__")
                if m:
                    out = []
                    for s, r in self.call_fn(st, self.fnval(m[0].module, m[1], m[0]), [v], {}, n):
                        out.extend([(s, r)] if is_raise(r) else self.items_of(s, r, n))
                    return out
            if o.base is not None and o.kind in ("list", "set", "deque"):
                return [(s, its if isinstance(its, tuple) else its + list(o.items)) for s, its in self.items_of(st, o.base, n)]
            if o.base is not None and o.kind == "dict":
                return [(s, its if isinstance(its, tuple) else its + [k for k, _ in o.items]) for s, its in self.items_of(st, o.base, n)]
            return [(st, [])]
        if v[0] in ("zipv", "enumv", "mapv"):
            return self.lazy_items(st, v, n)
        r = self.iter_hook(st, v, n)
        if r is not None:
            return r
        if is_t(v):
            base, wrap = self.iter_base(st, v)
            if base is not v:
                out = []
                for s, items in self.items_of(st, base, n):
                    out.append((s, items if isinstance(items, tuple) else wrap(items)))
                return out
            ln = st.facts.get(("len", v))
            if ln is None:
                tv = st.facts.get(T("true", v))
                lo = 1 if tv is True else 0
                hi = 0 if tv is False else self.unroll
                poss = [k for k in range(lo, hi + 1)]
                poss = [k for k in poss if self.len_ok(st, v, k)]
                out = []
                for k in poss:
                    s = st.copy()
                    s.facts[("len", v)] = k
                    if k:
                        s.facts[T("true", v)] = True
                    else:
                        s.facts[T("true", v)] = False
                    out.append((s, [self.elem(s, v, i) for i in range(k)]))
                return out
            return [(st, [self.elem(st, v, i) for i in range(ln)])]
        return [(st, [])]

    def len_ok(self, st, v, k):
        key = T("lin", ((T("len", v), Fraction(1)),), Fraction(0))
        for (f, poss) in list(st.facts.items()):
            if isinstance(f, tuple) and f and f[0] == "sgn" and is_t(f[1], "lin") and len(f[1][2]) == 1 and f[1][2][0][0] == T("len", v):
                val = f[1][2][0][1] * k + f[1][3]
                sg = "<" if val < 0 else (">" if val > 0 else "=")
                if sg not in poss:
                    return False
        return True

    def iter_hook(self, st, v, n):
        return None

    def iter_base(self, st, v):
        """views that have the same elements/length as an underlying iterable"""
        if v[1] in ("items", "keys", "values") and len(v) == 3:
            base = v[2]
            return v, None
        if v[1] == "sorted":
            return v, None
        return v, None

    def elem(self, st, v, i):
        return T("elem", v, i)

    def lazy_items(self, st, v, n):
        if v[0] == "enumv":
            return [(s, its if isinstance(its, tuple) else [TUP((K(i + v[2]), x)) for i, x in enumerate(its)]) for s, its in self.items_of(st, v[1], n)]
        if v[0] == "zipv":
            cur = [(st, [])]
            for part in v[1]:
                nxt = []
                for s, acc in cur:
                    if isinstance(acc, tuple):
                        nxt.append((s, acc))
                        continue
                    for s2, its in self.items_of(s, part, n):
                        nxt.append((s2, its if isinstance(its, tuple) else acc + [its]))
                cur = nxt
            return [(s, acc if isinstance(acc, tuple) else [TUP(x) for x in zip(*acc)]) for s, acc in cur]
        return [(st, [])]

    # ---------------------------------------------------------------- attributes and items
    def getattr(self, st, b, name, n):
        r = self.getattr_hook(st, b, name, n)
        if r is not None:
            return r
        k = b[0]
        if k == "mod":
            m = self.repo.modules[b[1]]
            if ("gv", b[1], name) in st.data:
                return [(st, st.data[("gv", b[1], name)])]
            r = self.repo.resolve_member(b[1], name)
            if r is None:
                if name == "__doc__":
                    return [(st, K(ast.get_docstring(m.tree, clean=False)))]
                if name == "__name__":
                    return [(st, K(b[1]))]
                return [(st, RAISE("AttributeError", "%s.%s" % (b[1], name)))]
            return self.entity(st, r, name)
        if k == "ext":
            d = b[1] + "." + name
            if d in self.repo.modules:
                return [(st, ("mod", d))]
            if d in EXT_CONSTS:
                return [(st, K(EXT_CONSTS[d]))]
            return [(st, ("ext", d))]
        if k == "cls":
            return self.class_attr(st, self.repo.classes[b[1]], name, None, n)
        if k == "o":
            o = st.heap[b[1]]
            if o.kind == "inst":
                if name in o.fields:
                    return [(st, o.fields[name])]
                if name == "__class__":
                    return [(st, ("cls", o.cls) if o.cls in self.repo.classes else T("class", o.cls))]
                if name == "__dict__":
                    return [(st, st.new(Obj("dict", items=tuple((K(a), x) for a, x in o.fields.items()))))]
                if o.cls in self.repo.classes:
                    ci = self.repo.classes[o.cls]
                    p = self.repo.find_prop(ci, name)
                    if p:
                        return self.call_fn(st, self.fnval(p[0].module, p[1], p[0]), [b], {}, n)
                    return self.class_attr(st, ci, name, b, n)
                return [(st, T("attr", b, name))]
            if o.kind == "namespace":
                return [(st, o.fields.get(name, T("attr", b, name)))]
            return [(st, ("meth", b, name))]
        if k == "fn":
            return [(st, T("fnattr", b, name))]
        if k == "partial":
            if name == "func":
                return [(st, b[1])]
            if name == "keywords":
                return [(st, st.new(Obj("dict", items=tuple((K(a), x) for a, x in b[3]))))]
            return [(st, T("attr", T("partialobj"), name))]
        if k == "super":
            return self.super_attr(st, b, name, n)
        if k == "c":
            if isinstance(b[2], str):
                return [(st, ("meth", b, name))]
            if b[2] is None:
                return [(st, RAISE("AttributeError", "None.%s" % name))]
            return [(st, ("meth", b, name))]
        if k == "tup":
            return [(st, ("meth", b, name))]
        if k == "excv":
            return [(st, T("excattr", name))]
        if self.is_path(st, b):
            r = self.path_attr(st, b, name, n)
            if r is not None:
                return r
        if ("f", b, name) in st.facts:
            return [(st, st.facts[("f", b, name)])]
        return [(st, T("attr", b, name))]

    def getattr_hook(self, st, b, name, n):
        return None

    def class_attr(self, st, ci, name, inst, n):
        if name == "__name__":
            return [(st, K(ci.name))]
        for c in self.repo.mro(ci):
            key = ("g", c.qual, name)
            if ("gv", c.qual, name) in st.data:
                return [(st, st.data[("gv", c.qual, name)])]
            if name in c.methods:
                f = self.fnval(c.module, c.methods[name], c)
                if name in c.static:
                    return [(st, f)]
                if name in c.clsm:
                    return [(st, ("bm", f, ("cls", ci.qual)))]
                return [(st, ("bm", f, inst) if inst is not None else f)]
            if name in c.props and inst is None:
                return [(st, T("property", c.qual, name))]
            if name in c.inner:
                return [(st, ("cls", c.qual + "." + name))]
            if name in c.attrs:
                if key in st.heap:
                    return [(st, ("o", key))]
                self.frames.append(Frame(None, c.module, None, c.qual))
                try:
                    r = self.ev(st, c.attrs[name])
                finally:
                    self.frames.pop()
                out = []
                for s, v in r:
                    if v[0] == "o" and isinstance(v[1], int):
                        s.heap[key] = s.heap[v[1]]
                        v = ("o", key)
                    if v[0] == "fn" and inst is not None:
                        v = ("bm", v, inst)
                    out.append((s, v))
                return out
        # bases outside the repository
        if any(self.repo.resolve_expr(c.module, b) is None or self.repo.resolve_expr(c.module, b)[0] == "ext"
               for c in self.repo.mro(ci) for b in c.node.bases):
            return [(st, T("attr", inst if inst is not None else ("cls", ci.qual), name))]
        if inst is not None and name.startswith("__"):
            return [(st, T("attr", inst, name))]
        if inst is not None:
            r = self.missing_attr(st, ci, name, inst, n)
            if r is not None:
                return r
            return [(st, RAISE("AttributeError", "%s.%s" % (ci.qual, name)))]
        return [(st, RAISE("AttributeError", "%s.%s" % (ci.qual, name)))]

    def missing_attr(self, st, ci, name, inst, n):
        return None

    def super_attr(self, st, b, name, n):
        ci = self.repo.classes[b[1]]
        inst = b[2]
        start = self.repo.classes.get(st.heap[inst[1]].cls) if inst is not None and inst[0] == "o" else ci
        mro = self.repo.mro(start) if start is not None and ci in self.repo.mro(start) else self.repo.mro(ci)
        rest = mro[mro.index(ci) + 1:]
        for c in rest:
            if name in c.methods:
                f = self.fnval(c.module, c.methods[name], c)
                return [(st, f if name in c.static else ("bm", f, inst))]
            if name in c.props:
                return self.call_fn(st, self.fnval(c.module, c.props[name], c), [inst], {}, n)
            if name in c.attrs:
                return self.class_attr(st, c, name, inst, n)
        return [(st, ("superext", name))]

    def setattr(self, st, b, name, v, n):
        r = self.setattr_hook(st, b, name, v, n)
        if r is not None:
            return r
        if b[0] == "o" and st.heap[b[1]].kind == "inst":
            o = st.heap[b[1]]
            if o.cls in self.repo.classes:
                p = self.repo.find_prop(self.repo.classes[o.cls], name, setter=True)
                if p:
                    return self.bind(self.call_fn(st, self.fnval(p[0].module, p[1], p[0]), [b, v], {}, n), lambda s, _: [(s, NONE)])
            if isinstance(b[1], tuple):
                self.mutated(st, b, "." + name, n)
            st.w(b[1]).fields[name] = v
            return [(st, NONE)]
        if b[0] == "mod":
            self.mutated(st, b, "." + name, n)
            st.data[("gv", b[1], name)] = v
            return [(st, NONE)]
        if b[0] == "cls":
            self.mutated(st, b, "." + name, n)
            st.data[("gv", b[1], name)] = v
            return [(st, NONE)]
        if b[0] == "t":
            self.mutated(st, b, "." + name, n)
            st.facts[("f", b, name)] = v
        return [(st, NONE)]

    def setattr_hook(self, st, b, name, v, n):
        return None

    def mutated(self, st, b, how, n):
        """an object the analysed code did not create (global, default, unknown) is modified"""
        st.event("mutate", b, how, self.where(), getattr(n, "lineno", 0))

    def norm_slice(self, st, items, sl):
        lo, hi, step = sl[1]
        if all(x[0] == "c" for x in (lo, hi, step)):
            return list(items)[slice(lo[2], hi[2], step[2])]
        return None

    def getitem(self, st, b, i, n):
        r = self.getitem_hook(st, b, i, n)
        if r is not None:
            return r
        if b[0] == "c" and (b[2] is None or isinstance(b[2], (int, float, bool))):
            return [(st, RAISE("TypeError", "%s is not subscriptable" % (b[2],)))]
        if b[0] == "c" and isinstance(b[2], (str, tuple)):
            if i[0] == "c":
                try:
                    return [(st, K(b[2][i[2]]))]
                except (IndexError, TypeError) as e:
                    return [(st, RAISE(type(e).__name__))]
            if i[0] == "slice":
                x = self.norm_slice(st, b[2], i)
                if x is not None:
                    return [(st, K("".join(x)) if isinstance(b[2], str) else K(tuple(x)))]
            if isinstance(b[2], tuple) and i[0] == "t":
                return self.pick(st, [K(x) for x in b[2]], i, n)
            return [(st, T("getitem", b, i))]
        items = None
        if b[0] == "tup":
            items = list(b[1])
        elif b[0] == "o" and st.heap[b[1]].kind in ("list", "deque") and st.heap[b[1]].base is None:
            items = list(st.heap[b[1]].items)
        elif b[0] == "range":
            items = [K(x) for x in b[1]]
        if items is not None:
            if i[0] == "c" and isinstance(i[2], int):
                try:
                    return [(st, items[i[2]])]
                except IndexError:
                    return [(st, RAISE("IndexError"))]
            if i[0] == "slice":
                x = self.norm_slice(st, items, i)
                if x is not None:
                    return [(st, TUP(x) if b[0] == "tup" else st.new(Obj("list", items=tuple(x))))]
                return [(st, T("getitem", self.snap(st, b), i))]
            return self.pick(st, items, i, n)
        if b[0] == "o" and st.heap[b[1]].kind == "dict":
            o = st.heap[b[1]]
            for k, v in reversed(o.items):
                if k == i or (k[0] == "c" and i[0] == "c" and k[2] == i[2]):
                    return [(st, v)]
            if i[0] != "c" or any(k[0] != "c" for k, _ in o.items):
                # split on equality with the stored keys
                cur, out = [st], []
                for k, v in reversed(o.items):
                    nxt = []
                    for s in cur:
                        for s2, x in self.equal(s, "Eq", k, i, n):
                            if x is True:
                                out.append((s2, v))
                            elif x is False:
                                nxt.append(s2)
                    cur = nxt
                for s in cur:
                    out.extend(self.dict_miss(s, b, i, n))
                return out
            return self.dict_miss(st, b, i, n)
        if b[0] == "o" and st.heap[b[1]].kind == "inst" and st.heap[b[1]].cls in self.repo.classes:
            m = self.repo.find_method(self.repo.classes[st.heap[b[1]].cls], "__getitem__")
            if m:
                return self.call_fn(st, self.fnval(m[0].module, m[1], m[0]), [b, i], {}, n)
        if b[0] == "t":
            if ("i", b, i) in st.facts:
                return [(st, st.facts[("i", b, i)])]
            if i[0] == "c" and isinstance(i[2], int) and ("len", b) in st.facts:
                ln = st.facts[("len", b)]
                j = i[2] if i[2] >= 0 else ln + i[2]
                if 0 <= j < ln:
                    return [(st, self.elem(st, b, j))]
                return [(st, RAISE("IndexError"))]
            if i[0] == "c" and isinstance(i[2], int) and i[2] >= 0 and self.elem_terms(b):
                return [(st, self.elem(st, b, i[2]))]
        return [(st, T("getitem", self.snap(st, b), self.snap(st, i)))]

    def elem_terms(self, b):
        return False

    def pick(self, st, items, i, n):
        """indexing a known sequence with an unknown index"""
        if not items:
            return [(st, RAISE("IndexError"))]
        if len(set(items)) == 1:
            return [(st, items[0])]
        return [(st, T("getitem", TUP(items), i))]

    def getitem_hook(self, st, b, i, n):
        return None

    def dict_miss(self, st, b, i, n):
        o = st.heap[b[1]]
        if o.cls == "defaultdict" and "<factory>" in o.fields:
            f = o.fields["<factory>"]

            def put(s, v):
                oo = s.w(b[1])
                oo.items = dict_set(oo.items, i, v)
                return [(s, v)]
            return self.bind(self.call(st, f, [], {}, n), put)
        if o.cls == "counter" and o.base is None:
            return [(st, K(0))]
        if o.base is not None:
            return [(st, T("getitem", o.base, i))]
        return [(st, RAISE("KeyError", i))]

    def count(self, st, b, v, sign, n):
        """Counter.update / Counter.subtract"""
        pairs = []
        if v[0] == "o" and st.heap[v[1]].kind == "dict" and st.heap[v[1]].base is None:
            pairs = [(st, [(k, x) for k, x in st.heap[v[1]].items])]
        else:
            pairs = [(s, its if isinstance(its, tuple) else [(x, K(1)) for x in its]) for s, its in self.items_of(st, v, n)]
        out = []
        for s, its in pairs:
            if isinstance(its, tuple):
                out.append((s, its))
                continue
            cur = [s]
            for k, x in its:
                nxt = []
                for s2 in cur:
                    old = next((y for a, y in s2.heap[b[1]].items if a == k), K(0))
                    for s3, y in self.binop(s2, "+" if sign > 0 else "-", old, x, n):
                        o = s3.w(b[1])
                        o.items = dict_set(o.items, k, y)
                        nxt.append(s3)
                cur = nxt
            out.extend((s2, NONE) for s2 in cur)
        return out

    def setitem(self, st, b, i, v, n):
        r = self.setitem_hook(st, b, i, v, n)
        if r is not None:
            return r
        if b[0] == "o":
            o = st.heap[b[1]]
            if isinstance(b[1], tuple):
                self.mutated(st, b, "[...] =", n)
            if o.kind == "dict":
                o = st.w(b[1])
                o.items = dict_set(o.items, i, v)
                return [(st, NONE)]
            if o.kind in ("list", "deque"):
                if i[0] == "c" and isinstance(i[2], int) and o.base is None:
                    items = list(o.items)
                    try:
                        items[i[2]] = v
                    except IndexError:
                        return [(st, RAISE("IndexError"))]
                    st.w(b[1]).items = tuple(items)
                    return [(st, NONE)]
                if i[0] == "slice":
                    x = self.exact(st, v)
                    if all(y[0] == "c" for y in i[1]) and x is not None and o.base is None:
                        items = list(o.items)
                        items[slice(*(y[2] for y in i[1]))] = x
                        st.w(b[1]).items = tuple(items)
                        return [(st, NONE)]
                oo = st.w(b[1])
                oo.items = tuple(T("maybe", x, v) for x in oo.items)
                return [(st, NONE)]
            if o.kind == "inst" and o.cls in self.repo.classes:
                m = self.repo.find_method(self.repo.classes[o.cls], "__setitem__")
                if m:
                    return self.call_fn(st, self.fnval(m[0].module, m[1], m[0]), [b, i, v], {}, n)
        if b[0] == "t":
            self.mutated(st, b, "[...] =", n)
            st.facts[("i", b, i)] = v
        return [(st, NONE)]

    def setitem_hook(self, st, b, i, v, n):
        return None

    def delitem(self, st, b, i, n):
        if b[0] == "o":
            o = st.heap[b[1]]
            if isinstance(b[1], tuple):
                self.mutated(st, b, "del [...]", n)
            if o.kind == "dict":
                if any(k == i for k, _ in o.items):
                    st.w(b[1]).items = tuple((k, v) for k, v in o.items if k != i)
                    return [(st, NONE)]
                if o.base is None:
                    return [(st, RAISE("KeyError", i))]
            elif o.kind == "list" and o.base is None:
                if i[0] == "c":
                    items = list(o.items)
                    try:
                        del items[i[2]]
                    except IndexError:
                        return [(st, RAISE("IndexError"))]
                    st.w(b[1]).items = tuple(items)
                elif i[0] == "slice" and all(y[0] == "c" for y in i[1]):
                    items = list(o.items)
                    del items[slice(*(y[2] for y in i[1]))]
                    st.w(b[1]).items = tuple(items)
        elif b[0] == "t":
            self.mutated(st, b, "del [...]", n)
        return [(st, NONE)]

    def snap(self, st, v):
        """freeze a heap value into a term (its current content)"""
        if v[0] == "o":
            o = st.heap[v[1]]
            if o.kind in ("list", "set", "deque"):
                return T("snap", o.kind, tuple(self.snap(st, x) for x in o.items), o.base)
            if o.kind == "dict":
                return T("snap", "dict", tuple((self.snap(st, k), self.snap(st, x)) for k, x in o.items), o.base)
            return v
        if v[0] == "tup":
            return ("tup", tuple(self.snap(st, x) for x in v[1]))
        return v

    # ---------------------------------------------------------------- paths
    def is_path(self, st, v):
        return is_t(v, "path") or (v[0] == "t" and st is not None and (v in st.data.get("paths", ())))

    def path_parts(self, v):
        if is_t(v, "path"):
            return v[2]
        return (v,)

    def path_join(self, a, b):
        return T("path", self.path_parts(a) + self.path_parts(b))

    def path_attr(self, st, b, name, n):
        parts = self.path_parts(b)
        if name == "parent":
            if len(parts) > 1:
                return [(st, T("path", parts[:-1]))]
            return [(st, T("path", (T("parent", parts[0]),)))]
        if name == "name":
            return [(st, parts[-1] if len(parts) > 1 or str_parts(parts[-1]) is not None else T("pname", parts[-1]))]
        return None

    # ---------------------------------------------------------------- calls
    def e_Call(self, st, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = next((x for x in reversed(self.frames) if x.ci is not None), None)
            if f is not None:
                return [(st, ("super", f.ci.qual, f.selfv))]
        out = []
        for s, fv in self.ev(st, e.func):
            if is_raise(fv):
                out.append((s, fv))
                continue
            if fv in LAZY and e.args and isinstance(e.args[0], ast.GeneratorExp) and not e.keywords:
                out.extend(self.lazy(s, fv[1], e))
                continue
            for s2, args in self.evs(s, e.args):
                if isinstance(args, tuple):
                    out.append((s2, args))
                    continue
                cur = [(s2, {})]
                for k in e.keywords:
                    nxt = []
                    for s3, kw in cur:
                        if isinstance(kw, tuple):
                            nxt.append((s3, kw))
                            continue
                        for s4, v in self.ev(s3, k.value):
                            if is_raise(v):
                                nxt.append((s4, v))
                                continue
                            kw2 = dict(kw)
                            if k.arg is not None:
                                kw2[k.arg] = v
                            elif v[0] == "o" and s4.heap[v[1]].kind == "dict":
                                for kk, vv in s4.heap[v[1]].items:
                                    if kk[0] == "c":
                                        kw2[kk[2]] = vv
                                if s4.heap[v[1]].base is not None:
                                    kw2["**"] = s4.heap[v[1]].base
                            else:
                                kw2["**"] = v
                            nxt.append((s4, kw2))
                    cur = nxt
                for s3, kw in cur:
                    if isinstance(kw, tuple):
                        out.append((s3, kw))
                    else:
                        out.extend(self.call(s3, fv, args, kw, e))
        return out

    def call_hook(self, st, fv, args, kw, n):
        """client interception -> [(st, v)] or None"""
        return None

    def call(self, st, fv, args, kw, n):
        r = self.call_hook(st, fv, args, kw, n)
        if r is not None:
            return r
        k = fv[0]
        if k == "fn":
            module, fn, ci = self.fnkeys[fv[1]]
            if not isinstance(fn, ast.Lambda) and any(is_ctxmgr(d) for d in fn.decorator_list):
                return [(st, ("ctxgen", fv, tuple(args), tuple(kw.items())))]
            return self.call_fn(st, fv, args, kw, n)
        if k == "bm":
            return self.call(st, fv[1], [fv[2]] + list(args), kw, n)
        if k == "partial":
            return self.call(st, fv[1], list(fv[2]) + list(args), {**dict(fv[3]), **kw}, n)
        if k == "cls":
            return self.instantiate(st, fv[1], args, kw, n)
        if k == "meth":
            return self.method(st, fv[1], fv[2], args, kw, n)
        if k == "bi":
            return self.builtin(st, fv[1], args, kw, n)
        if k == "ext":
            return self.ext(st, fv[1], args, kw, n)
        if k == "superext":
            return [(st, NONE)]
        if k == "o" and st.heap[fv[1]].kind == "inst" and st.heap[fv[1]].cls in self.repo.classes:
            m = self.repo.find_method(self.repo.classes[st.heap[fv[1]].cls], "__call__")
            if m:
                return self.call_fn(st, self.fnval(m[0].module, m[1], m[0]), [fv] + list(args), kw, n)
        if k == "c":
            return [(st, RAISE("TypeError", "not callable"))]
        if is_t(fv, "attr"):
            return self.opaque_method(st, fv[2], fv[3], args, kw, n)
        return self.opaque_call(st, fv, args, kw, n)

    def opaque_call(self, st, fv, args, kw, n):
        return [(st, st.fresh("call", fv, tuple(self.snap(st, a) for a in args)))]

    def opaque_method(self, st, base, name, args, kw, n):
        """method of an unknown object"""
        if is_t(base, "path") and name in ("joinpath", "__truediv__") and not kw:
            for a in args:
                base = self.path_join(base, a)
            return [(st, base)]
        if is_t(base, "path") and name == "with_name" and len(args) == 1 and len(self.path_parts(base)) > 1:
            return [(st, T("path", self.path_parts(base)[:-1] + (args[0],)))]
        if is_t(base, "path") and name in ("resolve", "absolute", "expanduser", "__fspath__", "as_posix") and not args:
            return [(st, base)]
        if name in MUTATORS:
            self.mutated(st, base, "." + name + "()", n)
        if name in ("items", "keys", "values") and not args:
            return [(st, T(name, base))]
        if name == "copy" and not args:
            return [(st, T("copyof", base))]
        if name in PURE_STR or name in ("get", "groupdict", "group", "is_dir", "is_file", "exists", "count", "index", "with_suffix"):
            return [(st, T("m", name, base, tuple(self.snap(st, a) for a in args)))]
        return [(st, st.fresh("mcall", name, base, tuple(self.snap(st, a) for a in args)))]

    def instantiate(self, st, qual, args, kw, n):
        ci = self.repo.classes[qual]
        o = st.new(Obj("inst", qual))
        m = self.repo.find_method(ci, "__init__")
        if m is None:
            return [(st, o)]
        return self.bind(self.call_fn(st, self.fnval(m[0].module, m[1], m[0]), [o] + list(args), kw, n), lambda s, _: [(s, o)])

    # ---------------------------------------------------------------- library models
    def among(self, v, items):
        """is the value in a set of these values"""
        return v in items

    def unique(self, items):
        out = []
        for v in items:
            if not self.among(v, out):
                out.append(v)
        return tuple(out)

    def method(self, st, b, name, args, kw, n):
        if b[0] == "c" and isinstance(b[2], str):
            return self.str_method(st, b, name, args, kw, n)
        if b[0] in ("c", "tup"):
            items = self.exact(st, b)
            if items is not None and name == "index" and args:
                return self.index_of(st, items, args[0], n)
            if items is not None and name == "count" and args:
                return [(st, K(sum(1 for x in items if x == args[0])))]
            return [(st, T("m", name, b, tuple(args)))]
        if b[0] != "o":
            return self.opaque_method(st, b, name, args, kw, n)
        o = st.heap[b[1]]
        if o.kind in ("list", "deque", "set", "dict") and len(args) < 3:
            if name == "__getitem__" and o.kind != "set" and len(args) == 1:
                return self.getitem(st, b, args[0], n)
            if name == "__contains__" and len(args) == 1:
                return [(s, r if isinstance(r, tuple) else K(r)) for s, r in self.contains(st, b, args[0], n)]
            if name == "__len__" and o.base is None:
                return [(st, K(len(o.items)))]
        if isinstance(b[1], tuple) and name in MUTATORS:
            self.mutated(st, b, "." + name + "()", n)
        if o.kind == "list" or o.kind == "deque":
            return self.list_method(st, b, o, name, args, kw, n)
        if o.kind == "set":
            return self.set_method(st, b, o, name, args, kw, n)
        if o.kind == "dict":
            return self.dict_method(st, b, o, name, args, kw, n)
        return [(st, st.fresh("mcall", name, b, tuple(args)))]

    def list_method(self, st, b, o, name, args, kw, n):
        if name == "append":
            st.w(b[1]).items = o.items + (args[0],)
            return [(st, NONE)]
        if name == "appendleft":
            st.w(b[1]).items = (args[0],) + o.items
            return [(st, NONE)]
        if name == "extend":
            out = []
            for s, its in self.items_of(st, args[0], n):
                if isinstance(its, tuple):
                    out.append((s, its))
                    continue
                oo = s.w(b[1])
                oo.items = oo.items + tuple(its)
                out.append((s, NONE))
            return out
        if name == "insert":
            items = list(o.items)
            if args[0][0] == "c":
                items.insert(args[0][2], args[1])
            else:
                items.append(args[1])
            st.w(b[1]).items = tuple(items)
            return [(st, NONE)]
        if name in ("pop", "popleft"):
            i = K(0) if name == "popleft" else (args[0] if args else K(-1))
            if o.base is None and not o.items:
                return [(st, RAISE("IndexError"))]
            if i[0] == "c" and o.base is None:
                items = list(o.items)
                try:
                    v = items.pop(i[2])
                except IndexError:
                    return [(st, RAISE("IndexError"))]
                st.w(b[1]).items = tuple(items)
                return [(st, v)]
            return [(st, st.fresh("pop", b))]
        if name == "remove":
            out, cur = [], [st]
            for j, x in enumerate(o.items):
                nxt = []
                for s in cur:
                    for s2, r in self.equal(s, "Eq", x, args[0], n):
                        if r is True:
                            s2.w(b[1]).items = o.items[:j] + o.items[j + 1:]
                            out.append((s2, NONE))
                        elif r is False:
                            nxt.append(s2)
                        else:
                            out.append((s2, r))
                cur = nxt
            return out + [(s, RAISE("ValueError", "remove")) for s in cur]
        if name == "clear":
            oo = st.w(b[1])
            oo.items, oo.base = (), None
            return [(st, NONE)]
        if name == "copy":
            return [(st, st.new(o.copy()))]
        if name == "__iter__":
            return [(st, b)]
        if name == "reverse":
            st.w(b[1]).items = tuple(reversed(o.items))
            return [(st, NONE)]
        if name == "sort":
            return self.bind(self.sort_items(st, list(o.items), kw, n), lambda s, v: self._set_items(s, b, v))
        if name == "index":
            return self.index_of(st, list(o.items), args[0], n)
        if name == "count":
            return [(st, K(sum(1 for x in o.items if x == args[0])))]
        return [(st, st.fresh("mcall", name, b, tuple(args)))]

    def _set_items(self, st, b, v):
        st.w(b[1]).items = st.heap[v[1]].items
        return [(st, NONE)]

    def index_of(self, st, items, x, n):
        cur, out = [st], []
        for j, y in enumerate(items):
            nxt = []
            for s in cur:
                for s2, r in self.equal(s, "Eq", y, x, n):
                    if r is True:
                        out.append((s2, K(j)))
                    elif r is False:
                        nxt.append(s2)
                    else:
                        out.append((s2, r))
            cur = nxt
        return out + [(s, RAISE("ValueError")) for s in cur]

    def set_method(self, st, b, o, name, args, kw, n):
        if name == "add":
            out = []
            for s, r in self.contains(st, b, args[0], n):
                if r is False:
                    oo = s.w(b[1])
                    oo.items = oo.items + (args[0],)
                out.append((s, NONE if not isinstance(r, tuple) else r))
            return out
        if name in ("discard", "remove"):
            if self.among(args[0], o.items):
                st.w(b[1]).items = tuple(x for x in o.items if not self.among(x, (args[0],)))
            elif name == "remove":
                return [(st, RAISE("KeyError"))]
            return [(st, NONE)]
        if name == "clear":
            st.w(b[1]).items = ()
            return [(st, NONE)]
        if name == "copy":
            return [(st, st.new(o.copy()))]
        if name in ("union", "update", "difference", "intersection", "difference_update", "intersection_update"):
            x = self.exact(st, args[0]) if args else []
            if x is not None:
                if name in ("union", "update"):
                    r = self.unique(o.items + tuple(x))
                elif name in ("difference", "difference_update"):
                    r = tuple(y for y in o.items if not self.among(y, x))
                else:
                    r = tuple(y for y in o.items if self.among(y, x))
                if name.endswith("update"):
                    st.w(b[1]).items = r
                    return [(st, NONE)]
                return [(st, st.new(Obj("set", items=r)))]
        return [(st, st.fresh("mcall", name, b, tuple(args)))]

    def dict_method(self, st, b, o, name, args, kw, n):
        if o.cls == "counter" and o.base is None:
            if name in ("update", "subtract") and len(args) == 1:
                return self.count(st, b, args[0], 1 if name == "update" else -1, n)
            if name == "most_common" and all(v[0] == "c" for _, v in o.items) and all(a[0] == "c" for a in args):
                its = sorted(o.items, key=lambda kv: -kv[1][2])
                if args and args[0][2] is not None:
                    its = its[:args[0][2]]
                return [(st, st.new(Obj("list", items=tuple(TUP(kv) for kv in its))))]
            if name == "elements" and all(v[0] == "c" for _, v in o.items):
                return [(st, st.new(Obj("list", items=tuple(k for k, v in o.items for _ in range(v[2])))))]
        if name == "get":
            d = args[1] if len(args) > 1 else NONE
            for k, v in reversed(o.items):
                if k == args[0]:
                    return [(st, v)]
            if o.base is not None:
                return [(st, T("m", "get", o.base, (args[0], self.snap(st, d))))]
            if args[0][0] != "c" and o.items:
                cur, out = [st], []
                for k, v in reversed(o.items):
                    nxt = []
                    for s in cur:
                        for s2, x in self.equal(s, "Eq", k, args[0], n):
                            (out if x is True else nxt).append((s2, v) if x is True else s2)
                    cur = nxt
                return out + [(s, d) for s in cur]
            return [(st, d)]
        if name == "setdefault":
            for k, v in o.items:
                if k == args[0]:
                    return [(st, v)]
            d = args[1] if len(args) > 1 else NONE
            oo = st.w(b[1])
            oo.items = dict_set(oo.items, args[0], d)
            return [(st, d)]
        if name == "update":
            if len(args) == 1 and args[0][0] in ("zipv", "enumv", "mapv"):
                out = []
                for s, its in self.items_of(st, args[0], n):
                    if isinstance(its, tuple):
                        out.append((s, its))
                        continue
                    out.extend(self.dict_method(s, b, s.heap[b[1]], "update", [TUP(its)], kw, n))
                return out
            oo = st.w(b[1])
            for a in args:
                if a[0] == "o" and st.heap[a[1]].kind == "dict":
                    for k, v in st.heap[a[1]].items:
                        oo.items = dict_set(oo.items, k, v)
                    if st.heap[a[1]].base is not None:
                        oo.base = st.heap[a[1]].base
                else:
                    its = self.exact(st, a)
                    if its is not None:
                        its = [TUP(self.exact(st, x)) if x[0] == "o" and self.exact(st, x) is not None else x for x in its]
                    if its is not None and all(self.tup_items(x) is not None and len(self.tup_items(x)) == 2 for x in its):
                        for x in its:
                            k, v = self.tup_items(x)
                            oo.items = dict_set(oo.items, k, v)
                    else:
                        oo.base = T("updated", oo.base if oo.base else NONE, a)
            for k, v in kw.items():
                if k != "**":
                    oo.items = dict_set(oo.items, K(k), v)
            return [(st, NONE)]
        if name in ("items", "keys", "values") and o.base is None:
            if name == "items":
                return [(st, st.new(Obj("list", items=tuple(TUP((k, v)) for k, v in o.items))))]
            return [(st, st.new(Obj("list", items=tuple(k if name == "keys" else v for k, v in o.items))))]
        if name in ("items", "keys", "values"):
            return [(st, T(name, T("dictof", o.base, tuple(o.items))))]
        if name == "pop":
            for k, v in o.items:
                if k == args[0]:
                    st.w(b[1]).items = tuple((a, x) for a, x in o.items if a != k)
                    return [(st, v)]
            if o.base is not None:
                return [(st, T("m", "get", o.base, tuple(args)))]
            if len(args) > 1:
                return [(st, args[1])]
            return [(st, RAISE("KeyError", args[0]))]
        if name == "copy":
            return [(st, st.new(o.copy()))]
        if name == "clear":
            oo = st.w(b[1])
            oo.items, oo.base = (), None
            return [(st, NONE)]
        return [(st, st.fresh("mcall", name, b, tuple(args)))]

    def str_method(self, st, b, name, args, kw, n):
        s0 = b[2]
        if name == "format":
            return self.str_format(st, s0, args, kw, n)
        if name == "join" and args:
            out = []
            for s, its in self.items_of(st, args[0], n):
                if isinstance(its, tuple):
                    out.append((s, its))
                    continue
                parts = ()
                for i, x in enumerate(its):
                    if i:
                        parts += (s0,)
                    sp = str_parts(x)
                    parts += sp if sp is not None else (x,)
                out.append((s, mkstr(parts)))
            return out
        if name in PURE_STR and all(a[0] == "c" for a in args):
            try:
                r = getattr(s0, name)(*[a[2] for a in args])
            except Exception as ex:
                return [(st, RAISE(type(ex).__name__))]
            if isinstance(r, list):
                return [(st, st.new(Obj("list", items=tuple(K(x) for x in r))))]
            return [(st, K(r))]
        return [(st, T("m", name, b, tuple(self.snap(st, a) for a in args)))]

    def str_format(self, st, fmt, args, kw, n):
        import string
        parts = ()
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(fmt):
                if lit:
                    parts += (lit,)
                if field is None:
                    continue
                head = field.split(".")[0].split("[")[0]
                if head == "":
                    v = args[auto]
                    auto += 1
                elif head.isdigit():
                    v = args[int(head)]
                else:
                    v = kw[head] if head in kw else T("kw", kw.get("**", NONE), head)
                for a in field.split(".")[1:]:
                    v = T("attr", v, a)
                if "[" in field:
                    v = T("getitem", v, K(field))
                parts += self.fmt(st, v, spec or "")
        except (IndexError, KeyError, ValueError):
            return [(st, RAISE("IndexError", "format"))]
        return [(st, mkstr(parts))]

    def sort_items(self, st, items, kw, n):
        """sorted list (new object)"""
        rev = kw.get("reverse")
        key = kw.get("key")
        if key is None or key == NONE:
            if all(x[0] == "c" for x in items):
                try:
                    r = sorted((x[2] for x in items), reverse=bool(rev and rev[0] == "c" and rev[2]))
                    return [(st, st.new(Obj("list", items=tuple(K(x) for x in r))))]
                except TypeError:
                    pass
            if len(items) <= 1:
                return [(st, st.new(Obj("list", items=tuple(items))))]
            return self.sort_opaque(st, items, None, rev, n)
        out = []
        cur = [(st, [])]
        for x in items:
            nxt = []
            for s, ks in cur:
                for s2, k in self.call(s, key, [x], {}, n):
                    if is_raise(k):
                        out.append((s2, k))
                    else:
                        nxt.append((s2, ks + [k]))
            cur = nxt
        for s, ks in cur:
            if all(k[0] == "c" for k in ks):
                order = sorted(range(len(items)), key=lambda i: ks[i][2], reverse=bool(rev and rev[0] == "c" and rev[2]))
                out.append((s, s.new(Obj("list", items=tuple(items[i] for i in order)))))
            elif len(items) <= 1:
                out.append((s, s.new(Obj("list", items=tuple(items)))))
            else:
                out.extend(self.sort_opaque(s, items, ks, rev, n))
        return out

    sort_compare = False      # sort by comparing keys (splits on unknown comparisons)

    def sort_opaque(self, st, items, keys, rev, n):
        if not self.sort_compare:
            return [(st, st.new(Obj("list", items=tuple(items))))]
        keys = list(items) if keys is None else keys
        down = bool(rev is not None and rev[0] == "c" and rev[2])
        cur, out = [(st, [])], []
        for i in range(len(items)):
            nxt = []
            for s, order in cur:
                # insert i behind every element that is not greater (stable)
                front = [(s, len(order))]
                while front:
                    s1, pos = front.pop()
                    if pos == 0:
                        nxt.append((s1, [i] + order))
                        continue
                    j = order[pos - 1]
                    x, y = (keys[j], keys[i]) if down else (keys[i], keys[j])
                    for s2, b in self.compare(s1, "Lt", x, y, n):
                        if isinstance(b, tuple):
                            out.append((s2, b))
                        elif b:
                            front.append((s2, pos - 1))
                        else:
                            nxt.append((s2, order[:pos] + [i] + order[pos:]))
            cur = nxt
        return out + [(s, s.new(Obj("list", items=tuple(items[k] for k in order)))) for s, order in cur]

    def builtin(self, st, name, args, kw, n):
        if name == "print":
            return [(st, NONE)]
        if name in ("range",):
            if all(a[0] == "c" for a in args):
                try:
                    r = range(*[a[2] for a in args])
                except (TypeError, ValueError) as e:
                    return [(st, RAISE(type(e).__name__))]
                return [(st, ("range", r))]
            args2 = []
            for a in args:
                if is_t(a, "len") and ("len", a[2]) in st.facts:
                    a = K(st.facts[("len", a[2])])
                args2.append(a)
            if all(a[0] == "c" for a in args2):
                try:
                    return [(st, ("range", range(*[a[2] for a in args2])))]
                except (TypeError, ValueError) as e:
                    return [(st, RAISE(type(e).__name__))]
            return [(st, T("range", *args2))]
        if name == "len" and args:
            v = args[0]
            x = self.exact(st, v)
            if x is not None:
                return [(st, K(len(x)))]
            if v[0] == "o" and st.heap[v[1]].kind == "inst" and st.heap[v[1]].cls in self.repo.classes:
                m = self.repo.find_method(self.repo.classes[st.heap[v[1]].cls], "__len__")
                if m:
                    return self.call_fn(st, self.fnval(m[0].module, m[1], m[0]), [v], {}, n)
            ln = self.length(st, v)
            if ln is not None:
                return [(st, K(ln))]
            return [(st, T("len", v))]
        if name == "super":
            return [(st, T("super"))]
        if name in ("list", "tuple", "set", "frozenset"):
            kind = {"list": "list", "tuple": "tuple", "set": "set", "frozenset": "set"}[name]
            if not args:
                return [(st, K(()) if kind == "tuple" else st.new(Obj(kind)))]
            v = args[0]
            if kind == "tuple" and v[0] in ("c", "tup") and self.tup_items(v) is not None:
                return [(st, v)]
            if self.is_number(st, v):
                return [(st, RAISE("TypeError", "not iterable"))]
            if is_t(v) and self.lazy_copy(st, v):
                return [(st, T("tupleof", v))] if kind == "tuple" else [(st, st.new(Obj(kind, base=v)))]
            out = []
            for s, its in self.items_of(st, v, n):
                if isinstance(its, tuple):
                    out.append((s, its))
                elif kind == "tuple":
                    out.append((s, TUP(its)))
                elif kind == "set":
                    out.append((s, s.new(Obj("set", items=self.unique(its)))))
                else:
                    out.append((s, s.new(Obj("list", items=tuple(its)))))
            return out
        if name == "dict":
            o = Obj("dict")
            r = st.new(o)
            if args or kw:
                return self.bind(self.dict_method(st, r, o, "update", args, kw, n), lambda s, _: [(s, r)])
            return [(st, r)]
        if name == "sorted":
            out = []
            for s, its in self.items_of(st, args[0], n):
                if isinstance(its, tuple):
                    out.append((s, its))
                else:
                    out.extend(self.sort_items(s, list(its), kw, n))
            return out
        if name == "reversed":
            return [(s, its if isinstance(its, tuple) else s.new(Obj("list", items=tuple(reversed(its))))) for s, its in self.items_of(st, args[0], n)]
        if name == "enumerate":
            start = args[1] if len(args) > 1 else kw.get("start", K(0))
            return [(st, ("enumv", args[0], start[2] if start[0] == "c" else 0))]
        if name == "zip":
            return [(st, ("zipv", tuple(args)))]
        if name in ("map", "filter"):
            if name == "map" and len(args) > 2:
                src = ("zipv", tuple(args[1:]))
            else:
                src = args[1]
            out = []
            for s, its in self.items_of(st, src, n):
                if isinstance(its, tuple):
                    out.append((s, its))
                    continue
                cur = [(s, ())]
                for x in its:
                    nxt = []
                    for s2, acc in cur:
                        if acc and acc[0] == "raise":
                            nxt.append((s2, acc))
                            continue
                        a = list(self.tup_items(x)) if name == "map" and len(args) > 2 else [x]
                        if name == "filter" and args[0] == NONE:
                            for s3, b in self.truth(s2, x, n):
                                nxt.append((s3, acc + (x,) if b else acc))
                            continue
                        for s3, v in self.call(s2, args[0], a, {}, n):
                            if is_raise(v):
                                nxt.append((s3, v))
                            elif name == "map":
                                nxt.append((s3, acc + (v,)))
                            else:
                                for s4, b in self.truth(s3, v, n):
                                    nxt.append((s4, acc + (x,) if b is True else acc))
                    cur = nxt
                for s2, acc in cur:
                    out.append((s2, acc) if acc and acc[0] == "raise" else (s2, s2.new(Obj("list", items=acc))))
            return out
        if name in ("any", "all"):
            out = []
            for s, its in self.items_of(st, args[0], n):
                if isinstance(its, tuple):
                    out.append((s, its))
                    continue
                cur = [s]
                for x in its:
                    nxt = []
                    for s2 in cur:
                        for s3, b in self.truth(s2, x, n):
                            if isinstance(b, tuple):
                                out.append((s3, b))
                            elif b == (name == "any"):
                                out.append((s3, K(name == "any")))
                            else:
                                nxt.append(s3)
                    cur = nxt
                out.extend((s2, K(name == "all")) for s2 in cur)
            return out
        if name == "sum":
            out = []
            for s, its in self.items_of(st, args[0], n):
                if isinstance(its, tuple):
                    out.append((s, its))
                    continue
                cur = [(s, args[1] if len(args) > 1 else kw.get("start", K(0)))]
                for x in its:
                    nxt = []
                    for s2, acc in cur:
                        if x[0] == "c" and isinstance(x[2], bool):
                            x = K(int(x[2]))
                        nxt.extend([(s2, acc)] if is_raise(acc) else self.binop(s2, "+", acc, x, n))
                    cur = nxt
                out.extend(cur)
            return out
        if name in ("min", "max"):
            return self.minmax(st, name, args, kw, n)
        if name == "isinstance":
            return self.isinst(st, args[0], args[1], n)
        if name == "issubclass":
            return [(s, K(b)) for s, b in self.decide(st, T("issubclass", args[0], args[1]))]
        if name == "hasattr" and args[1][0] == "c":
            r = self.getattr(st.copy(), args[0], args[1][2], n)
            if all(is_raise(v) for _, v in r):
                return [(st, FALSE)]
            if args[0][0] == "t":
                return [(s, K(b)) for s, b in self.decide(st, T("hasattr", args[0], args[1]))]
            return [(st, TRUE)]
        if name == "getattr":
            if args[1][0] == "c" and isinstance(args[1][2], str):
                r = self.getattr(st, args[0], args[1][2], n)
                if len(args) > 2:
                    r = [(s, args[2] if is_raise(v) and v[1] == "AttributeError" else v) for s, v in r]
                return r
            return self.dyn_getattr(st, args, n)
        if name == "setattr" and args[1][0] == "c":
            return self.setattr(st, args[0], args[1][2], args[2], n)
        if name == "callable":
            return [(st, K(args[0][0] in ("fn", "bm", "cls", "partial", "bi")))] if args[0][0] != "t" else [(s, K(b)) for s, b in self.decide(st, T("callable", args[0]))]
        if name == "iter":
            x = self.exact(st, args[0]) if args and args[0][0] in ("o", "tup", "c") else None
            if x is not None and not (args[0][0] == "o" and st.heap[args[0][1]].cls in ("generator", "oneshot")):
                return [(st, st.new(Obj("list", "generator", items=tuple(x))))]
            return [(st, args[0])]
        if name == "next":
            x = self.exact(st, args[0])
            if x is not None:
                if not x:
                    return [(st, args[1])] if len(args) > 1 else [(st, RAISE("StopIteration"))]
                v = x[0]
                if args[0][0] == "o":
                    st.w(args[0][1]).items = tuple(x[1:])
                return [(st, v)]
            return [(st, st.fresh("next", args[0]))]
        if name in ("str", "repr"):
            if not args:
                return [(st, K(""))]
            if args[0][0] == "c":
                return [(st, K(str(args[0][2]) if name == "str" else repr(args[0][2])))]
            if name == "str":
                sp = str_parts(args[0])
                return [(st, mkstr(sp) if sp is not None else T("str", (self.snap(st, args[0]),)))]
            return [(st, T("repr", self.snap(st, args[0])))]
        if name in ("int", "float", "abs", "round", "bool"):
            if name == "bool":
                return [(s, b if isinstance(b, tuple) else K(b)) for s, b in self.truth(st, args[0], n)] if args else [(st, FALSE)]
            if not args and not kw and name in ("int", "float"):
                return [(st, K(0) if name == "int" else K(0.0))]
            if args and all(a[0] == "c" for a in args):
                try:
                    return [(st, K(getattr(builtins, name)(*[a[2] for a in args])))]
                except Exception as ex:
                    return [(st, RAISE(type(ex).__name__))]
            r = self.numcast(st, name, args, n)
            if r is not None:
                return r
            if name == "float" and args and (is_t(args[0], "lin") or is_t(args[0], "len")):
                return [(st, args[0])]
            return [(st, T(name, *[self.snap(st, a) for a in args]))]
        if name == "type":
            if args[0][0] == "o" and st.heap[args[0][1]].kind == "inst" and st.heap[args[0][1]].cls in self.repo.classes:
                return [(st, ("cls", st.heap[args[0][1]].cls))]
            return [(st, T("typeof", self.snap(st, args[0])))]
        if name == "id" and args and args[0][0] == "o":
            return [(st, K(("id", args[0][1])))]
        if name in ("vars", "locals", "globals", "dir", "id", "hash"):
            return [(st, T(name, *args))]
        if name == "open":
            return self.open_call(st, args, kw, n)
        if hasattr(builtins, name) and isinstance(getattr(builtins, name), type) and issubclass(getattr(builtins, name), BaseException):
            return [(st, ("excv", RAISE(name, TUP(args))))]
        if args and all(a[0] == "c" for a in args) and name in PURE_CALLS and not kw:
            try:
                return [(st, K(getattr(builtins, name)(*[a[2] for a in args])))]
            except Exception as ex:
                return [(st, RAISE(type(ex).__name__))]
        return [(st, st.fresh("bi", name, tuple(self.snap(st, a) for a in args)))]

    def lazy_copy(self, st, v):
        return False

    def dyn_getattr(self, st, args, n):
        return [(st, T("getattr", *args))]

    def numcast(self, st, name, args, n):
        return None

    def open_call(self, st, args, kw, n):
        return [(st, st.fresh("open", *args))]

    def isinst(self, st, v, t, n):
        if v[0] == "c":
            ts = t[1] if t[0] == "tup" else (t,)
            for x in ts:
                if x[0] == "bi" and isinstance(getattr(builtins, x[1], None), type):
                    if isinstance(v[2], getattr(builtins, x[1])):
                        return [(st, TRUE)]
            return [(st, FALSE)]
        if v[0] == "o" and st.heap[v[1]].kind == "inst" and st.heap[v[1]].cls in self.repo.classes:
            mro = [c.qual for c in self.repo.mro(self.repo.classes[st.heap[v[1]].cls])]
            ts = t[1] if t[0] == "tup" else (t,)
            return [(st, K(any(x[0] == "cls" and x[1] in mro for x in ts)))]
        if v[0] == "o":
            kd = st.heap[v[1]].kind
            ts = t[1] if t[0] == "tup" else (t,)
            return [(st, K(any(x[0] == "bi" and x[1] == kd for x in ts)))]
        if v[0] == "tup":
            ts = t[1] if t[0] == "tup" else (t,)
            return [(st, K(any(x == ("bi", "tuple") for x in ts)))]
        return [(s, K(b)) for s, b in self.decide(st, T("isinstance", v, self.snap(st, t)))]

    def minmax(self, st, name, args, kw, n):
        srcs = [(st, list(args))]
        if len(args) == 1:
            srcs = []
            for s, its in self.items_of(st, args[0], n):
                srcs.append((s, its))
        out = []
        for s, its in srcs:
            if isinstance(its, tuple):
                out.append((s, its))
                continue
            if not its:
                out.append((s, kw["default"]) if "default" in kw else (s, RAISE("ValueError", name)))
                continue
            key = kw.get("key")
            cur = [(s, [])]
            if key is not None and key != NONE:
                for x in its:
                    nxt = []
                    for s2, ks in cur:
                        for s3, kx in self.call(s2, key, [x], {}, n):
                            if is_raise(kx):
                                out.append((s3, kx))
                            else:
                                nxt.append((s3, ks + [kx]))
                    cur = nxt
            else:
                cur = [(s, list(its))]
            for s2, ks in cur:
                best = [(s2, 0)]
                for i in range(1, len(its)):
                    nxt = []
                    for s3, j in best:
                        op = ("Lt", ks[i], ks[j]) if name == "min" else ("Gt", ks[i], ks[j])
                        for s4, b in self.compare(s3, op[0], op[1], op[2], n):
                            if isinstance(b, tuple):
                                out.append((s4, b))
                            else:
                                nxt.append((s4, i if b else j))
                    best = nxt
                out.extend((s3, its[j]) for s3, j in best)
        return out

    def ext(self, st, name, args, kw, n):
        if name.startswith(IGNORED_EXT):
            return [(st, T("ext", name))]
        last = name.rsplit(".", 1)[-1]
        if name == "functools.partial" and args:
            f = args[0]
            if f[0] == "partial":
                return [(st, ("partial", f[1], f[2] + tuple(args[1:]), tuple({**dict(f[3]), **kw}.items())))]
            return [(st, ("partial", f, tuple(args[1:]), tuple(kw.items())))]
        if name == "contextlib.suppress":
            return [(st, ("suppress", tuple(args)))]
        if name == "collections.defaultdict":
            o = Obj("dict", "defaultdict")
            if args:
                o.fields["<factory>"] = args[0]
            return [(st, st.new(o))]
        if name == "collections.Counter":
            c = st.new(Obj("dict", "counter"))
            if args:
                return [(s, v if is_raise(v) else c) for s, v in self.count(st, c, args[0], 1, n)]
            return [(st, c)]
        if name == "collections.deque":
            return [(s, v if isinstance(v, tuple) else s.new(Obj("deque", items=tuple(v)))) for s, v in (self.items_of(st, args[0], n) if args else [(st, [])])]
        if name == "collections.OrderedDict":
            return self.builtin(st, "dict", args, kw, n)
        if name in ("copy.deepcopy", "copy.copy") and args:
            return self.copy_value(st, args[0], name.endswith("deepcopy"), n)
        if name in ("itertools.product", "itertools.permutations", "itertools.combinations", "itertools.chain", "itertools.chain.from_iterable",
                    "itertools.accumulate", "itertools.count", "itertools.groupby", "itertools.takewhile", "itertools.dropwhile", "itertools.filterfalse",
                    "itertools.starmap", "itertools.zip_longest", "itertools.islice", "itertools.repeat", "itertools.combinations_with_replacement"):
            return self.itertools_call(st, last, args, kw, n)
        if name == "importlib.import_module" and args:
            a = args[0]
            if a[0] == "c":
                if a[2] in self.repo.modules:
                    return [(st, ("mod", a[2]))]
                return [(st, RAISE("ModuleNotFoundError", a[2]))]
            return [(st, T("module", self.snap(st, a)))]
        if name.startswith("operator."):
            return self.operator_call(st, last, args, kw, n)
        if name in ("pathlib.Path", "pathlib.PurePath"):
            parts = ()
            for a in args:
                parts += self.path_parts(a)
            return [(st, T("path", parts))]
        if name == "os.path.join":
            parts = ()
            for a in args:
                parts += self.path_parts(a)
            return [(st, T("path", parts))]
        if name == "functools.reduce":
            out = []
            for s, its in self.items_of(st, args[1], n):
                if isinstance(its, tuple):
                    out.append((s, its))
                    continue
                its = list(its)
                if len(args) > 2:
                    its = [args[2]] + its
                if not its:
                    out.append((s, RAISE("TypeError")))
                    continue
                cur = [(s, its[0])]
                for x in its[1:]:
                    cur = self.bind(cur, lambda s2, acc: self.call(s2, args[0], [acc, x], {}, n))
                out.extend(cur)
            return out
        return self.ext_call(st, name, args, kw, n)

    def ext_call(self, st, name, args, kw, n):
        """any other call leaving the repository"""
        if name.split(".")[0] in ("random", "time", "datetime", "os", "rx", "thespian", "numpy", "socket", "uuid"):
            return [(st, st.fresh("x", name, tuple(self.snap(st, a) for a in args)))]
        return [(st, T("x", name, tuple(self.snap(st, a) for a in args), tuple((k, self.snap(st, v)) for k, v in kw.items())))]

    def copy_value(self, st, v, deep, n):
        if v[0] == "o":
            o = st.heap[v[1]]
            if o.kind == "inst" and o.cls in self.repo.classes:
                m = self.repo.find_method(self.repo.classes[o.cls], "__deepcopy__" if deep else "__copy__")
                if m:
                    return self.call_fn(st, self.fnval(m[0].module, m[1], m[0]), [v] + ([NONE] if deep else []), {}, n)
            if not deep:
                return [(st, st.new(o.copy()))]
            memo = {}

            def cp(u):
                if u[0] == "o":
                    if u[1] in memo:
                        return memo[u[1]]
                    x = st.heap[u[1]].copy()
                    r = st.new(x)
                    memo[u[1]] = r
                    if x.kind == "dict":
                        x.items = tuple((cp(k), cp(y)) for k, y in x.items)
                    else:
                        x.items = tuple(cp(y) for y in x.items)
                    x.fields = {k: cp(y) for k, y in x.fields.items()}
                    return r
                if u[0] == "tup":
                    return ("tup", tuple(cp(y) for y in u[1]))
                if u[0] == "t":
                    return self.copy_term(u)
                return u
            return [(st, cp(v))]
        if v[0] == "t":
            return [(st, self.copy_term(v))]
        return [(st, v)]

    def copy_term(self, u):
        return T("copyof", u) if not is_t(u, "copyof") else u

    def itertools_call(self, st, name, args, kw, n):
        if name in ("groupby", "takewhile", "dropwhile", "filterfalse", "starmap", "zip_longest"):
            return self.itertools_keyed(st, name, args, kw, n)
        if name in ("count", "repeat"):
            return [(st, st.fresh("x", "itertools." + name))]
        if name == "from_iterable":
            out = []
            for s, its in self.items_of(st, args[0], n):
                if isinstance(its, tuple):
                    out.append((s, its))
                else:
                    out.extend(self.itertools_call(s, "chain", its, {}, n))
            return out
        its_args = args if name in ("product", "chain") else args[:1]
        cur = [(st, [])]
        for a in its_args:
            nxt = []
            for s, acc in cur:
                if isinstance(acc, tuple):
                    nxt.append((s, acc))
                    continue
                for s2, its in self.items_of(s, a, n):
                    nxt.append((s2, its if isinstance(its, tuple) else acc + [its]))
            cur = nxt
        out = []
        for s, acc in cur:
            if isinstance(acc, tuple):
                out.append((s, acc))
                continue
            if name == "chain":
                r = [x for its in acc for x in its]
            elif name == "product":
                rep = kw.get("repeat")
                r = [TUP(x) for x in itertools.product(*(acc * (rep[2] if rep else 1)))]
            elif name in ("permutations", "combinations", "combinations_with_replacement"):
                k = args[1][2] if len(args) > 1 and args[1][0] == "c" else len(acc[0])
                r = [TUP(x) for x in getattr(itertools, name)(acc[0], k)]
            elif name == "islice":
                if all(a[0] == "c" for a in args[1:]):
                    r = list(itertools.islice(acc[0], *[a[2] for a in args[1:]]))
                else:
                    r = acc[0]
            else:
                out.append((s, s.fresh("x", "itertools." + name)))
                continue
            out.append((s, s.new(Obj("list", items=tuple(r)))))
        return out

    def itertools_keyed(self, st, name, args, kw, n):
        def listed(s, items):
            return s.new(Obj("list", items=tuple(items)))
        if name == "zip_longest":
            acc = [(st, [])]
            for a in args:
                acc = [(s2, its if isinstance(its, tuple) else l + [list(its)]) for s, l in acc if not isinstance(l, tuple) for s2, its in self.items_of(s, a, n)] + [x for x in acc if isinstance(x[1], tuple)]
            fill = kw.get("fillvalue", NONE)
            return [(s, l if isinstance(l, tuple) else listed(s, [TUP(r) for r in itertools.zip_longest(*l, fillvalue=fill)])) for s, l in acc]
        f, src = (args[1] if len(args) > 1 else kw.get("key", NONE), args[0]) if name == "groupby" else (args[0], args[1])
        out = []
        for s, its in self.items_of(st, src, n):
            if isinstance(its, tuple):
                out.append((s, its))
                continue
            cur = [(s, [], None)]          # state, result, key of the open group / still dropping
            for x in its:
                nxt = []
                for s2, acc, k in cur:
                    if isinstance(acc, tuple) or name == "takewhile" and k is False:
                        nxt.append((s2, acc, k))
                        continue
                    if name == "starmap":
                        for s3, xs in self.items_of(s2, x, n):
                            if isinstance(xs, tuple):
                                nxt.append((s3, xs, k))
                                continue
                            nxt.extend((s4, v if is_raise(v) else acc + [v], k) for s4, v in self.call(s3, f, list(xs), {}, n))
                        continue
                    if name == "dropwhile" and k is False:
                        nxt.append((s2, acc + [x], k))
                        continue
                    for s3, v in (self.call(s2, f, [x], {}, n) if f != NONE else [(s2, x)]):
                        if is_raise(v):
                            nxt.append((s3, v, k))
                        elif name == "groupby":
                            for s4, same in (self.compare(s3, "Eq", k, v, n) if acc else [(s3, False)]):
                                if isinstance(same, tuple):
                                    nxt.append((s4, same, k))
                                else:
                                    nxt.append((s4, acc[:-1] + [(acc[-1][0], acc[-1][1] + [x])] if same else acc + [(v, [x])], k if same else v))
                        else:
                            for s4, b in self.truth(s3, v, n):
                                if isinstance(b, tuple):
                                    nxt.append((s4, b, k))
                                elif name == "filterfalse":
                                    nxt.append((s4, acc if b else acc + [x], k))
                                elif name == "takewhile":
                                    nxt.append((s4, acc + [x] if b else acc, None if b else False))
                                else:
                                    nxt.append((s4, acc if b else acc + [x], None if b else False))
                cur = nxt
            for s2, acc, k in cur:
                if isinstance(acc, tuple):
                    out.append((s2, acc))
                elif name == "groupby":
                    out.append((s2, listed(s2, [TUP((g, s2.new(Obj("list", "generator", items=tuple(xs))))) for g, xs in acc])))
                else:
                    out.append((s2, listed(s2, acc)))
        return out

    def operator_call(self, st, name, args, kw, n):
        m = {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq"}.get(name)
        if m:
            return [(s, b if isinstance(b, tuple) else K(b)) for s, b in self.compare(st, m, args[0], args[1], n)]
        m = {"add": "+", "sub": "-", "mul": "*", "truediv": "/"}.get(name)
        if m:
            return self.binop(st, m, args[0], args[1], n)
        if name in ("itemgetter", "attrgetter") and len(args) == 1:
            return [(st, ("getter", name, args[0]))]
        return [(st, T("x", "operator." + name, tuple(args)))]


# ------------------------------------------------------------------ helpers
def str_parts(v):
    if v[0] == "c" and isinstance(v[2], str):
        return (v[2],) if v[2] else ()
    if is_t(v, "str"):
        return v[2]
    return None


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        else:
            sp = str_parts(p)
            if sp is not None:
                for q in sp:
                    if isinstance(q, str) and out and isinstance(out[-1], str):
                        out[-1] += q
                    else:
                        out.append(q)
            else:
                out.append(p)
    if not out:
        return K("")
    if len(out) == 1 and isinstance(out[0], str):
        return K(out[0])
    return T("str", tuple(out))


def dict_set(items, k, v):
    for i, (kk, _) in enumerate(items):
        if kk == k:
            return items[:i] + ((kk, v),) + items[i + 1:]
    return items + ((k, v),)


_gen, _ctx, _decl = {}, {}, {}


def own_nodes(fn):
    """nodes of a function body without nested functions/classes"""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def is_generator(fn):
    k = id(fn)
    if k not in _gen:
        _gen[k] = (any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(fn)), fn)
    return _gen[k][0]


def is_ctxmgr(d):
    return (isinstance(d, ast.Name) and d.id == "contextmanager") or (isinstance(d, ast.Attribute) and d.attr == "contextmanager")


def scope_decls(fn):
    k = id(fn)
    if k not in _decl:
        g, nl = set(), set()
        for n in own_nodes(fn):
            if isinstance(n, ast.Global):
                g.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                nl.update(n.names)
        _decl[k] = (g, nl, fn)
    return _decl[k][0], _decl[k][1]


def show(v):
    if v[0] == "c":
        return repr(v[2])
    if v[0] == "tup":
        return "(%s)" % ", ".join(show(x) for x in v[1])
    if v[0] == "t":
        if v[1] == "str":
            return "f'%s'" % "".join(p if isinstance(p, str) else "{%s}" % show(p) for p in v[2])
        if v[1] == "path":
            return "Path(%s)" % " / ".join(show(p) for p in v[2])
        if v[1] == "attr":
            return "%s.%s" % (show(v[2]), v[3])
        if v[1] == "sym":
            return str(v[2])
        if v[1] == "lin":
            return "(%s)" % " + ".join(["%s*%s" % (c, show(t)) for t, c in v[2]] + ([str(v[3])] if v[3] else []))
        return "%s(%s)" % (v[1], ", ".join(show(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x) for x in v[2:]))
    return "<%s>" % ":".join(str(x) for x in v[:3])
