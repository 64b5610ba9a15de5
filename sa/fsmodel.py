"""A model of the results directory: the storing and reading code is interpreted over a tree of named files.

Names are constants (dates, run numbers and budgets stand for all values of the same shape), contents are
abstract values.  The order in which a directory is listed is a parameter, because the operating system does
not promise one.
"""
import datetime
import fnmatch
import itertools
import re

from .flow import K, NONE, Obj, RAISE, T, TUP, TooComplex, is_c, is_raise, is_t, show, str_parts, mkstr
from .runmodel import DRIVER, RunFlow

DATE = datetime.datetime(2021, 3, 4, 5, 6, 7, 89)
LISTINGS = ("sorted", "reversed", "alternating")


class FsFlow(RunFlow):
    max_steps = 3000000
    max_driver_steps = 40
    listing = "sorted"

    dates = None                   # the dates at which the clock is read, instead of the usual ones

    def date(self, i):
        if self.dates:
            return self.dates[(i - 1) % len(self.dates)]
        return DATE + i * datetime.timedelta(seconds=61, microseconds=7)

    def start(self):
        st = super().start()
        st.data["fs"] = {("RESULTS",): None}
        return st

    # ---------------------------------------------------------------- paths
    def pkey(self, v):
        """normalised parts of a path or string constant, None when not constant"""
        if v[0] == "c" and isinstance(v[2], str):
            return tuple(x for x in v[2].split("/") if x and x != ".")
        if is_t(v, "path"):
            out = ()
            for p in v[2]:
                k = self.pkey(p) if p != v else None
                if k is None:
                    return None
                out += k
            return out
        return None

    def mk(self, key):
        return T("path", tuple(K(x) for x in key))

    def fs(self, st):
        return st.data["fs"]

    def copy_term(self, u):
        return u

    def wfs(self, st):
        st.data["fs"] = dict(st.data["fs"])
        return st.data["fs"]

    def is_dir(self, st, key):
        return key in self.fs(st) and self.fs(st)[key] is None

    def listed(self, st, key):
        if None in self.fs(st):
            raise TooComplex("a file is written under a name that is not understood")
        names = sorted({k[len(key)] for k in self.fs(st) if len(k) == len(key) + 1 and k[:len(key)] == key})
        st.data["listings"] = st.data.get("listings", 0) + 1
        if self.listing == "reversed" or self.listing == "alternating" and st.data["listings"] % 2:
            names = names[::-1]
        elif self.listing == "alternating" and len(names) > 2:
            names = names[1:] + names[:1]
        return names

    def path_attr(self, st, b, name, n):
        key = self.pkey(b)
        if key is not None:
            if name == "name":
                return [(st, K(key[-1] if key else ""))]
            if name == "parent":
                return [(st, self.mk(key[:-1]))]
            if name == "parts":
                return [(st, K(tuple(key)))]
            if name in ("stem", "suffix"):
                nm = key[-1]
                i = nm.rfind(".")
                i = i if 0 < i < len(nm) - 1 else len(nm)
                return [(st, K(nm[:i] if name == "stem" else nm[i:]))]
            return None
        return super().path_attr(st, b, name, n)

    def opaque_method(self, st, base, name, args, kw, n):
        if is_t(base, "path"):
            key = self.pkey(base)
            if key is not None:
                r = self.path_method(st, key, name, args, kw)
                if r is not None:
                    return r
        if is_t(base, "match"):
            return self.match_method(st, base, name, args)
        if is_t(base, "regex") and name in ("fullmatch", "match", "search"):
            return self.ext_call(st, "re." + name, [base[2]] + list(args), kw, n)
        if is_t(base, "now"):
            if name == "strftime" and args and args[0][0] == "c":
                return [(st, K(self.date(base[2]).strftime(args[0][2])))]
            if name == "isoformat":
                return [(st, K((DATE + base[2] * datetime.timedelta(seconds=61, microseconds=7)).isoformat()))]
            return [(st, base)]
        if is_t(base, "file"):
            if name in ("close", "flush", "__exit__"):
                return [(st, NONE)]
            if name == "write":
                return self.write(st, base, args[0] if args else NONE)
            return [(st, T("content", base))]
        return super().opaque_method(st, base, name, args, kw, n)

    def path_method(self, st, key, name, args, kw):
        fs = self.fs(st)
        if name in ("exists", "is_dir", "is_file"):
            return [(st, K(key in fs if name == "exists" else key in fs and (fs[key] is None) == (name == "is_dir")))]
        if name == "iterdir":
            if not self.is_dir(st, key):
                return [(st, RAISE("FileNotFoundError" if key not in fs else "NotADirectoryError"))]
            return [(st, st.new(Obj("list", "oneshot", items=tuple(self.mk(key + (x,)) for x in self.listed(st, key)))))]
        if name in ("glob", "rglob") and args and args[0][0] == "c":
            out = []
            for k in sorted(fs):
                if len(k) > len(key) and k[:len(key)] == key:
                    rest = k[len(key):]
                    pat = args[0][2].split("/")
                    if name == "rglob" and fnmatch.fnmatchcase("/".join(rest[-len(pat):]), args[0][2]) or name == "glob" and (
                            len(rest) == len(pat) and all(fnmatch.fnmatchcase(a, b) for a, b in zip(rest, pat))
                            or pat[0] == "**" and fnmatch.fnmatchcase(rest[-1], pat[-1])):
                        out.append(k)
            if self.listing != "sorted":
                out = out[::-1]
            return [(st, st.new(Obj("list", "oneshot", items=tuple(self.mk(k) for k in out))))]
        if name == "mkdir":
            ok = kw.get("exist_ok", args[2] if len(args) > 2 else K(False))
            if key in fs:
                return [(st, NONE if ok == K(True) and fs[key] is None else RAISE("FileExistsError"))]
            par = kw.get("parents", args[1] if len(args) > 1 else K(False)) == K(True)
            if not par and not self.is_dir(st, key[:-1]):
                return [(st, RAISE("FileNotFoundError"))]
            w = self.wfs(st)
            for i in range(1, len(key) + 1):
                w.setdefault(key[:i], None)
            return [(st, NONE)]
        if name == "open":
            return self.open_file(st, key, args[0] if args else kw.get("mode", K("r")))
        if name in ("unlink", "rmdir"):
            return self.remove(st, key, name)
        if name in ("rename", "replace") and args:
            to = self.pkey(args[0])
            st.event("fs-remove", key, self.where())
            w = self.wfs(st)
            if key in w and to is not None:
                w[to] = w.pop(key)
                st.event("fs-write", to, self.where())
            return [(st, args[0])]
        if name in ("with_suffix", "with_name") and args and args[0][0] == "c":
            nm = key[-1]
            i = nm.rfind(".")
            if name == "with_suffix" and 0 < i < len(nm) - 1:
                nm = nm[:i]
            return [(st, self.mk(key[:-1] + ((nm if name == "with_suffix" else "") + args[0][2],)))]
        if name in ("resolve", "absolute", "expanduser"):
            return [(st, self.mk(key))]
        if name in ("joinpath", "__truediv__"):
            out = key
            for a in args:
                k = self.pkey(a)
                if k is None:
                    return None
                out += k
            return [(st, self.mk(out))]
        if name == "relative_to" and args and self.pkey(args[0]) is not None and key[:len(self.pkey(args[0]))] == self.pkey(args[0]):
            return [(st, self.mk(key[len(self.pkey(args[0])):]))]
        if name == "match" and args and args[0][0] == "c":
            return [(st, K(fnmatch.fnmatchcase(key[-1], args[0][2])))]
        return None

    def open_file(self, st, key, mode):
        m = mode[2] if mode[0] == "c" else "r"
        fs = self.fs(st)
        if key in fs and fs[key] is None:
            return [(st, RAISE("IsADirectoryError"))]
        if "r" in m and key not in fs:
            return [(st, RAISE("FileNotFoundError"))]
        if "x" in m and key in fs:
            return [(st, RAISE("FileExistsError"))]
        if "r" not in m:
            if key[:-1] and not self.is_dir(st, key[:-1]):
                return [(st, RAISE("FileNotFoundError"))]
            if "a" not in m:
                self.wfs(st)[key] = K("")
            st.event("fs-open", key, self.where())
        return [(st, T("file", self.mk(key), mode))]

    def write(self, st, fh, v):
        key = self.pkey(fh[2])
        self.wfs(st)[key] = v
        st.event("fs-write", key, self.where())
        return [(st, NONE)]

    def remove(self, st, key, how):
        fs = self.fs(st)
        if key not in fs:
            return [(st, RAISE("FileNotFoundError"))]
        last = how.rsplit(".", 1)[-1]
        if fs[key] is None and last in ("remove", "unlink"):
            return [(st, RAISE("IsADirectoryError"))]
        if last == "rmdir" and (fs[key] is not None or len([k for k in fs if k[:len(key)] == key]) > 1):
            return [(st, RAISE("OSError"))]
        w = self.wfs(st)
        for k in [k for k in w if k[:len(key)] == key]:
            st.event("fs-remove", k, self.where())
            del w[k]
        return [(st, NONE)]

    def open_call(self, st, args, kw, n):
        key = self.pkey(args[0])
        if key is not None:
            return self.open_file(st, key, args[1] if len(args) > 1 else kw.get("mode", K("r")))
        return super().open_call(st, args, kw, n)

    # ---------------------------------------------------------------- library functions
    def match_method(self, st, m, name, args):
        groups, pos, whole = dict(m[2]), m[3], m[4]
        if name == "groupdict":
            return [(st, st.new(Obj("dict", items=tuple((K(k), K(v)) for k, v in m[2]))))]
        if name == "groups":
            return [(st, K(pos))]
        if name in ("group", "__getitem__"):
            if not args:
                return [(st, K(whole))]
            out = []
            for a in args:
                if a[0] != "c":
                    return [(st, T("m", name, m, tuple(args)))]
                if isinstance(a[2], int):
                    if a[2] > len(pos):
                        return [(st, RAISE("IndexError"))]
                    out.append(K(whole if a[2] == 0 else pos[a[2] - 1]))
                elif a[2] in groups:
                    out.append(K(groups[a[2]]))
                else:
                    return [(st, RAISE("IndexError"))]
            return [(st, out[0] if len(out) == 1 else TUP(out))]
        return [(st, T("m", name, m, tuple(args)))]

    def getitem_hook(self, st, b, i, n):
        if is_t(b, "match"):
            return self.match_method(st, b, "group", [i])
        return super().getitem_hook(st, b, i, n)

    def truth(self, st, v, n=None):
        if is_t(v, "match") or is_t(v, "progress"):
            return [(st, True)]
        return super().truth(st, v, n)

    def ext_call(self, st, name, args, kw, n):
        if name.startswith("re."):
            fn = name[3:]
            if fn == "compile" and args[0][0] == "c":
                return [(st, T("regex", args[0]))]
            if fn in ("fullmatch", "match", "search") and args[0][0] == "c" and args[1][0] == "c":
                if not isinstance(args[1][2], str):
                    return [(st, RAISE("TypeError"))]
                m = getattr(re, fn)(args[0][2], args[1][2])
                return [(st, NONE if m is None else T("match", tuple(m.groupdict().items()), m.groups(), m.group(0)))]
        if name in ("fnmatch.fnmatch", "fnmatch.fnmatchcase") and all(a[0] == "c" for a in args):
            return [(st, K(fnmatch.fnmatchcase(args[0][2], args[1][2])))]
        if name == "fnmatch.filter":
            items = self.exact(st, args[0])
            if items is not None and all(x[0] == "c" for x in items) and args[1][0] == "c":
                return [(st, st.new(Obj("list", items=tuple(x for x in items if fnmatch.fnmatchcase(x[2], args[1][2])))))]
        if name in ("os.remove", "os.unlink", "os.rmdir", "shutil.rmtree") and args:
            key = self.pkey(args[0])
            if key is not None:
                return self.remove(st, key, name)
            st.event("fs-remove", None, self.where())
        if name in ("os.rename", "os.replace", "shutil.move", "shutil.copy") and self.pkey(args[0]) is not None:
            return self.path_method(st, self.pkey(args[0]), "rename", args[1:], kw)
        if name in ("os.listdir", "os.scandir") and args and self.pkey(args[0]) is not None:
            key = self.pkey(args[0])
            if not self.is_dir(st, key):
                return [(st, RAISE("FileNotFoundError"))]
            return [(st, st.new(Obj("list", items=tuple(K(x) if name == "os.listdir" else self.mk(key + (x,)) for x in self.listed(st, key)))))]
        if name in ("os.path.isdir", "os.path.exists", "os.path.isfile", "os.path.basename", "os.path.dirname") and self.pkey(args[0]) is not None:
            key, what = self.pkey(args[0]), name.rsplit(".", 1)[1]
            if what == "basename":
                return [(st, K(key[-1]))]
            if what == "dirname":
                return [(st, K("/".join(key[:-1])))]
            return self.path_method(st, key, {"isdir": "is_dir", "exists": "exists", "isfile": "is_file"}[what], [], {})
        if name in ("os.makedirs", "os.mkdir") and self.pkey(args[0]) is not None:
            return self.path_method(st, self.pkey(args[0]), "mkdir", [], {**kw, "parents": K(True)})
        if name == "os.walk" and self.pkey(args[0]) is not None:
            out = []

            def walk(key):
                names = self.listed(st, key)
                dirs = [x for x in names if self.is_dir(st, key + (x,))]
                out.append(TUP((K("/".join(key)), st.new(Obj("list", items=tuple(map(K, dirs)))), st.new(Obj("list", items=tuple(K(x) for x in names if x not in dirs))))))
                for d in dirs:
                    walk(key + (d,))
            if self.is_dir(st, self.pkey(args[0])):
                walk(self.pkey(args[0]))
            return [(st, st.new(Obj("list", items=tuple(out))))]
        if name in ("glob.glob", "glob.iglob") and self.pkey(args[0]) is not None:
            key = self.pkey(args[0])
            out = [K("/".join(k)) for k in sorted(self.fs(st)) if len(k) == len(key) and all(fnmatch.fnmatchcase(a, b) for a, b in zip(k, key))]
            return [(st, st.new(Obj("list", items=tuple(out))))]
        if name in ("datetime.datetime.today", "datetime.datetime.now", "datetime.datetime.utcnow"):
            st.data["now"] = st.data.get("now", 0) + 1
            return [(st, T("now", st.data["now"]))]
        if name in ("random.randint", "random.randrange") and all(a[0] == "c" for a in args):
            return [(st, args[0])]
        if name in ("pickle.dump", "json.dump") and len(args) > 1 and is_t(args[1], "file"):
            key = self.pkey(args[1][2])
            (s, v), = self.copy_value(st, args[0], True, n)
            self.wfs(s)[key] = v
            s.event("fs-write", key, self.where())
            return [(s, NONE)]
        if name in ("pickle.load", "json.load") and args and is_t(args[0], "file"):
            key = self.pkey(args[0][2])
            v = self.fs(st).get(key)
            st.event("fs-read", key, self.where())
            if v is None:
                return [(st, RAISE("EOFError"))]
            return self.copy_value(st, v, True, n)
        if name.startswith("time.") and not args:
            st.data["clock"] = st.data.get("clock", 0) + 2
            return [(st, K(st.data["clock"]))]
        return super().ext_call(st, name, args, kw, n)

    def compare_hook(self, st, op, a, b, n):
        if is_t(a, "path") and is_t(b, "path"):
            x, y = self.pkey(a), self.pkey(b)
            if x is not None and y is not None:
                r = {"Eq": x == y, "Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}.get(op)
                if r is not None:
                    return [(st, r)]
        if op in ("Eq", "Is") and any(is_t(x, "match") and y == NONE for x, y in ((a, b), (b, a))):
            return [(st, False)]
        return super().compare_hook(st, op, a, b, n)

    def builtin(self, st, name, args, kw, n):
        if name == "str" and args and is_t(args[0], "path") and self.pkey(args[0]) is not None:
            return [(st, K("/".join(self.pkey(args[0]))))]
        return super().builtin(st, name, args, kw, n)

    def fmt(self, st, v, spec="", conv=-1):
        if is_t(v, "path") and self.pkey(v) is not None:
            v = K("/".join(self.pkey(v)))
        return super().fmt(st, v, spec, conv)

    # ---------------------------------------------------------------- the driver of a stored run
    def member(self, st, k, m):
        case = st.data.get("case", 0)
        key = ("pop", case, k, m)
        if key not in st.heap:
            st.new(Obj("list", items=(T("coord", (case, k, m), 0), T("coord", (case, k, m), 1))), key)
        return ("o", key)

    def cost(self, k):
        return K(100 * k)
