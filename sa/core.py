"""Loading and resolving the repository's source: modules, imports, classes, call targets.

Nothing of the repository is imported or executed; everything is read from the syntax trees of the
working tree in $VERIF_REPO (default /repo).
"""
import ast
import functools
import os
import warnings

warnings.simplefilter("ignore", SyntaxWarning)

REPO = os.environ.get("VERIF_REPO", "/repo")
EXCLUDE_DIRS = {"test", "tests", "example", ".git", "__pycache__", "results", "plots_output"}


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone: the check can give no verdict."""


class Module:
    def __init__(self, repo, name, path):
        self.repo, self.name, self.path = repo, name, path
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, path)
        self.rel = os.path.relpath(path, repo.root)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.bindings = {}      # name -> list of ('func',node)|('class',node)|('mod',dotted)|('from',mod,name)|('assign',value,stmt)
        self.star = []
        self._collect(self.tree.body)
        annotate_parents(self.tree)

    def _abs(self, node):
        if node.level:
            base = self.name.split(".")
            if not self.is_pkg:
                base = base[:-1]
            base = base[: len(base) - (node.level - 1)] if node.level > 1 else base
            return ".".join(base + ([node.module] if node.module else []))
        return node.module or ""

    def _bind(self, name, b):
        self.bindings.setdefault(name, []).append(b)

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._bind(st.name, ("func", st))
            elif isinstance(st, ast.ClassDef):
                self._bind(st.name, ("class", st))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self._bind(a.asname, ("mod", a.name))
                    else:
                        self._bind(a.name.split(".")[0], ("mod", a.name.split(".")[0]))
            elif isinstance(st, ast.ImportFrom):
                m = self._abs(st)
                for a in st.names:
                    if a.name == "*":
                        self.star.append(m)
                    else:
                        self._bind(a.asname or a.name, ("from", m, a.name))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self._bind(t.id, ("assign", st.value, st))
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                v = st.value
                                if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                                    self._bind(e.id, ("assign", v.elts[i], st))
                                else:
                                    self._bind(e.id, ("assign", None, st))
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self._bind(st.target.id, ("assign", st.value, st))
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                self._bind(st.target.id, ("assign", None, st))
            elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for sub in ("body", "orelse", "finalbody"):
                    self._collect(getattr(st, sub, []) or [])
                for h in getattr(st, "handlers", []):
                    self._collect(h.body)


def annotate_parents(tree):
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c._parent = n


def parents(node):
    n = getattr(node, "_parent", None)
    while n is not None:
        yield n
        n = getattr(n, "_parent", None)


class ClassInfo:
    def __init__(self, module, node, qual):
        self.module, self.node, self.qual = module, node, qual   # qual: 'pkg.mod.Outer.Inner'
        self.name = node.name
        self.methods, self.attrs, self.inner = {}, {}, {}
        self.props, self.setters, self.static, self.clsm = {}, {}, set(), set()
        self.aliases = {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                kind = None
                for d in st.decorator_list:
                    if isinstance(d, ast.Name) and d.id == "property":
                        kind = "prop"
                    elif isinstance(d, ast.Attribute) and d.attr == "setter":
                        kind = "setter"
                    elif isinstance(d, ast.Name) and d.id == "staticmethod":
                        self.static.add(st.name)
                    elif isinstance(d, ast.Name) and d.id == "classmethod":
                        self.clsm.add(st.name)
                if kind == "prop":
                    self.props[st.name] = st
                elif kind == "setter":
                    self.setters[st.name] = st
                else:
                    self.methods[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.attrs[st.target.id] = st.value
            elif isinstance(st, ast.ClassDef):
                self.inner[st.name] = st

    def __repr__(self):
        return "<class %s>" % self.qual


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.consulted = set()
        for d, dirs, files in os.walk(self.root):
            dirs[:] = sorted(x for x in dirs if x not in EXCLUDE_DIRS and not x.startswith("."))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                if name == "__init__":
                    continue
                try:
                    self.modules[name] = Module(self, name, path)
                except SyntaxError as e:
                    raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
        self.classes = {}
        for m in self.modules.values():
            self._classes(m, m.tree.body, m.name)
        self._mro = {}

    def _classes(self, m, body, prefix):
        for st in body:
            if isinstance(st, ast.ClassDef):
                q = prefix + "." + st.name
                ci = ClassInfo(m, st, q)
                self.classes[q] = ci
                st._ci = ci
                self._classes(m, st.body, q)
            elif isinstance(st, (ast.If, ast.Try)):
                self._classes(m, st.body, prefix)

    # -------------------------------------------------------------- names
    def mod(self, name):
        if name not in self.modules:
            raise AnalysisBroken("module %s is gone" % name)
        self.consulted.add(name)
        return self.modules[name]

    def resolve_global(self, m, name, depth=0):
        """-> ('func',Module,node) | ('class',ClassInfo) | ('module',Module) | ('ext',dotted) | ('assign',Module,value,stmt) | None"""
        if depth > 8:
            return None
        bs = m.bindings.get(name)
        if not bs:
            for s in m.star:
                if s in self.modules:
                    r = self.resolve_global(self.modules[s], name, depth + 1)
                    if r:
                        return r
            return None
        b = bs[-1]
        if b[0] == "func":
            return ("func", m, b[1])
        if b[0] == "class":
            return ("class", self.classes[m.name + "." + b[1].name])
        if b[0] == "mod":
            return ("module", self.modules[b[1]]) if b[1] in self.modules else ("ext", b[1])
        if b[0] == "from":
            return self.resolve_member(b[1], b[2], depth + 1)
        if b[0] == "assign":
            return ("assign", m, b[1], b[2])

    def resolve_member(self, modname, attr, depth=0):
        if modname in self.modules:
            sub = modname + "." + attr
            r = self.resolve_global(self.modules[modname], attr, depth + 1)
            if r:
                return r
            if sub in self.modules:
                return ("module", self.modules[sub])
            return None
        if any(k.startswith(modname + ".") for k in self.modules) and modname + "." + attr in self.modules:
            return ("module", self.modules[modname + "." + attr])
        return ("ext", (modname + "." if modname else "") + attr)

    def resolve_expr(self, m, expr):
        """Resolve a Name/Attribute chain to a global entity."""
        if isinstance(expr, ast.Name):
            return self.resolve_global(m, expr.id)
        if isinstance(expr, ast.Attribute):
            b = self.resolve_expr(m, expr.value)
            if b is None:
                return None
            return self.member_of(b, expr.attr)
        return None

    def member_of(self, b, attr):
        if b[0] == "module":
            return self.resolve_member(b[1].name, attr)
        if b[0] == "ext":
            dotted = b[1] + "." + attr
            return ("module", self.modules[dotted]) if dotted in self.modules else ("ext", dotted)
        if b[0] == "class":
            f = self.find_method(b[1], attr)
            if f:
                return ("method",) + f
            for c in self.mro(b[1]):
                if attr in c.inner:
                    return ("class", self.classes[c.qual + "." + attr])
                if attr in c.attrs:
                    return ("assign", c.module, c.attrs[attr], c.node)
        return None

    # -------------------------------------------------------------- classes
    def cls(self, qual):
        if qual not in self.classes:
            raise AnalysisBroken("class %s is gone" % qual)
        self.consulted.add(self.classes[qual].module.name)
        return self.classes[qual]

    def mro(self, ci):
        if ci.qual in self._mro:
            return self._mro[ci.qual]
        self._mro[ci.qual] = [ci]
        out = [ci]
        for b in ci.node.bases:
            r = self.resolve_expr(ci.module, b)
            if r is None and isinstance(b, ast.Name):
                # a class nested in the same outer class
                outer = ci.qual.rsplit(".", 1)[0]
                if outer + "." + b.id in self.classes:
                    r = ("class", self.classes[outer + "." + b.id])
            if r and r[0] == "class":
                for c in self.mro(r[1]):
                    if c not in out:
                        out.append(c)
        self._mro[ci.qual] = out
        return out

    def find_method(self, ci, name):
        for c in self.mro(ci):
            if name in c.methods:
                return (c, c.methods[name])
        return None

    def find_prop(self, ci, name, setter=False):
        for c in self.mro(ci):
            d = c.setters if setter else c.props
            if name in d:
                return (c, d[name])
        return None

    def subclasses(self, ci):
        return [c for c in self.classes.values() if ci in self.mro(c)]

    def functions(self, prefix=None):
        """All function definitions (module, class-or-None, node, qualified name)."""
        for m in self.modules.values():
            if prefix and not (m.name == prefix or m.name.startswith(prefix + ".")):
                continue
            yield from self._functions(m, m.tree.body, m.name, None)

    def _functions(self, m, body, prefix, ci):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield (m, ci, st, prefix + "." + st.name)
                yield from self._functions(m, st.body, prefix + "." + st.name, None)
            elif isinstance(st, ast.ClassDef):
                yield from self._functions(m, st.body, prefix + "." + st.name, self.classes.get(prefix + "." + st.name))
            else:
                for sub in ("body", "orelse", "finalbody"):
                    b = getattr(st, sub, None)
                    if isinstance(b, list):
                        yield from self._functions(m, b, prefix, ci)
                for h in getattr(st, "handlers", []) or []:
                    yield from self._functions(m, h.body, prefix, ci)


def qual_of(node, module):
    """Qualified name of the innermost function/class enclosing a node."""
    names = []
    chain = [node] + list(parents(node))
    for p in chain:
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.append(p.name)
    return ".".join([module.name] + names[::-1])


def enclosing_function(node):
    for p in parents(node):
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            return p
    return None


def loc(module, node):
    return "%s:%s" % (module.rel, getattr(node, "lineno", "?"))


def src(node, limit=90):
    try:
        s = ast.unparse(node)
    except Exception:
        s = type(node).__name__
    s = " ".join(s.split())
    return s if len(s) <= limit else s[: limit - 3] + "..."


@functools.lru_cache(maxsize=2)
def shared(root):
    """the repository as it is on disk, read once per process"""
    return Repo(root)
