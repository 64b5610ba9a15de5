"""Runs of a simulation: the workers' and run classes' code over an opaque driver and problem.

The driver is a symbol with a step counter: its cost after k steps is the term cost(k), the members of
its population after k steps are vectors of symbols of that step.  What the code decides about cost(k),
where it steps, stores and notifies is recorded as events.
"""
from .flow import K, NONE, T, TUP, Obj, TooComplex, is_c, is_raise, is_t, RAISE, show
from .rxmodel import RxFlow

DRIVER, PROBLEM, LOGGER = T("sym", "driver"), T("sym", "problem"), T("sym", "logger")


class RunFlow(RxFlow):
    max_steps = 400000
    max_paths = 3000
    members = 3
    objectives = 2
    oneshot = False          # the driver hands its population out as an iterator
    max_driver_steps = 6
    sort_compare = True      # an order the code imposes on unknown values splits the state
    limit = 2                # unknown loop conditions: steps explored

    def __init__(self, repo):
        super().__init__(repo)
        self.dumped = []     # every dump reached on any path, also when the exploration was cut short

    def while_limit(self, st, n):
        return self.limit

    # ---------------------------------------------------------------- iterators
    def drained(self, st, v):
        return v[0] == "o" and st.heap[v[1]].kind == "list" and st.heap[v[1]].cls in ("oneshot", "generator")

    def items_of(self, st, v, n):
        if self.drained(st, v):
            items = list(st.heap[v[1]].items)
            if st.heap[v[1]].items:
                st.w(v[1]).items = ()
            return [(st, items)]
        return super().items_of(st, v, n)

    def loop(self, st, itv, n, body, orelse):
        if not self.drained(st, itv):
            return super().loop(st, itv, n, body, orelse)
        # a one-shot iterator: what the body leaves behind stays for the next reader
        out, cur = [], [st]
        while cur:
            nxt = []
            for s in cur:
                items = s.heap[itv[1]].items
                if not items:
                    out.extend(orelse(s))
                    continue
                s.w(itv[1]).items = items[1:]
                for s2, k, v in body(s, items[0]):
                    if k in ("n", "cont"):
                        nxt.append(s2)
                    else:
                        out.append((s2, "n", None) if k == "brk" else (s2, k, v))
            cur = self.dedupe(nxt)
            if len(cur) + len(out) > self.max_paths:
                raise TooComplex("more than %d paths in a loop of %s" % (self.max_paths, self.where()))
        return out

    def builtin(self, st, name, args, kw, n):
        if name == "len" and args and self.drained(st, args[0]):
            return [(st, RAISE("TypeError", "an iterator has no len()"))]
        if name in ("map", "filter", "reversed"):
            out = []
            for s, v in super().builtin(st, name, args, kw, n):
                if v[0] == "o" and s.heap[v[1]].kind == "list" and s.heap[v[1]].cls is None:
                    s.w(v[1]).cls = "oneshot"
                out.append((s, v))
            return out
        return super().builtin(st, name, args, kw, n)

    # ---------------------------------------------------------------- driver, problem, files
    def k(self, st):
        return st.data.get("k", 0)

    def cost(self, k):
        return T("cost", k)

    def member(self, st, k, m):
        key = ("pop", k, m)
        if key not in st.heap:
            st.new(Obj("list", items=(T("coord", (k, m), 0), T("coord", (k, m), 1))), key)
        return ("o", key)

    def who(self, st, v):
        """the population member a vector is (a copy of)"""
        items = self.exact(st, v)
        if items and all(is_t(x, "coord") for x in items) and len({x[2] for x in items}) == 1 and [x[3] for x in items] == [0, 1]:
            return items[0][2]
        return None

    def getattr_hook(self, st, b, name, n):
        if b == DRIVER:
            if name == "cost":
                return [(st, self.cost(self.k(st)))]
            if name == "step_no":
                return [(st, K(self.k(st)))]
            if ("f", b, name) in st.facts:
                return [(st, st.facts[("f", b, name)])]
            return [(st, T("attr", b, name))]
        if b == PROBLEM and name in ("fitnesses", "objectives"):
            return [(st, self.objfs(st))]
        if is_t(b, "progress"):
            if name == "cost":
                return [(st, self.cost(b[2]))]
            if name == "step_no":
                return [(st, K(b[2]))]
        return super().getattr_hook(st, b, name, n)

    def objfs(self, st):
        if ("objfs",) not in st.heap:
            st.new(Obj("list", items=tuple(T("objf", c) for c in range(self.objectives))), ("objfs",))
        return ("o", ("objfs",))

    def compare_hook(self, st, op, a, b, n):
        if is_t(a, "coord") and is_t(b, "coord") and a[2] != b[2] and a[3] == b[3] and op in ("Lt", "LtE", "Gt", "GtE", "Eq"):
            # the members come in an order of their own: later ones are smaller
            x, y = b[2], a[2]
            return [(st, False if op == "Eq" else x < y if op in ("Lt", "LtE") else x > y)]
        return super().compare_hook(st, op, a, b, n)

    def setattr_hook(self, st, b, name, v, n):
        if b == DRIVER:
            st.event("set", name, v)
            st.facts[("f", b, name)] = v
            return [(st, NONE)]
        return super().setattr_hook(st, b, name, v, n)

    def opaque_method(self, st, base, name, args, kw, n):
        if base == DRIVER:
            if name in ("next_step", "step"):
                if self.k(st) >= self.max_driver_steps:
                    self.truncated.add("driver steps")
                    return []
                st.event("step", self.k(st))
                st.data["k"] = self.k(st) + 1
                return self.stepped(st, name)
            if name in ("finalized_population", "population"):
                pop = tuple(self.member(st, self.k(st), m) for m in range(self.members))
                return [(st, st.new(Obj("list", "oneshot" if self.oneshot else None, items=pop)))]
            st.event("driver", name)
            return self.driver_method(st, name, args)
        if is_t(base, "path") or is_t(base, "enter") or is_t(base, "mcall"):
            if name == "open":
                return [(st, T("file", base, (args[0] if args else kw.get("mode", K("r")))))]
            if name in ("mkdir", "exists", "touch"):
                return [(st, K(True) if name == "exists" else NONE)]
        if is_t(base, "file"):
            return [(st, NONE)]
        if base == LOGGER:
            return [(st, NONE)]
        return super().opaque_method(st, base, name, args, kw, n)

    def stepped(self, st, name):
        return [(st, T("progress", st.data["k"]))]

    def driver_method(self, st, name, args):
        return [(st, NONE)]

    def enter_value(self, st, v):
        return v

    def open_call(self, st, args, kw, n):
        return [(st, T("file", args[0], args[1] if len(args) > 1 else kw.get("mode", K("r"))))]

    def opaque_call(self, st, fv, args, kw, n):
        if is_t(fv, "objf") and args:
            m = self.who(st, args[0])
            if m is not None:
                return [(st, T("ev", fv[2], m))]
        return super().opaque_call(st, fv, args, kw, n)

    def ext_call(self, st, name, args, kw, n):
        if name == "pickle.dump":
            e = ("dump", self.frozen(st, args[0]), args[1] if len(args) > 1 else NONE, self.k(st))
            st.event(*e)
            self.dumped.append(e)
            return [(st, NONE)]
        return super().ext_call(st, name, args, kw, n)

    def frozen(self, st, v, depth=0):
        """the stored object as a value of its own: what pickling would write now"""
        if v[0] == "o" and depth < 8:
            o = st.heap[v[1]]
            m = self.who(st, v)
            if m is not None:
                return T("member", m)
            if o.kind == "inst":
                return T("inst", o.cls, tuple((f, self.frozen(st, x, depth + 1)) for f, x in o.fields.items()))
            if o.kind == "dict":
                return T("dict", tuple((self.frozen(st, a, depth + 1), self.frozen(st, x, depth + 1)) for a, x in o.items))
            if o.cls in ("oneshot", "generator"):
                return T("iterator", tuple(self.frozen(st, x, depth + 1) for x in o.items))
            return T(o.kind, tuple(self.frozen(st, x, depth + 1) for x in o.items))
        if v[0] == "tup":
            return T("tuple", tuple(self.frozen(st, x, depth + 1) for x in v[1]))
        return v
