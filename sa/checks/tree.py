"""Histories of the tree search (classic and distributed) over opaque inner drivers.

The code of the tree is interpreted from its constructor on; the inner drivers, the objective values, the
dominated volumes and the distances between centres are opaque.  What the tree decides by comparing them
(does a node progress, is a sprout redundant) is answered by a schedule of verdicts; in the distributed
variant the messages the actors send are kept in a bag and delivered one by one, in an order a delivery
policy chooses among the pairs of actors that have one waiting (messages between the same two actors keep
their order).  Everything observable - drivers created and with what, steps, messages, comparisons, the cost
reported - is recorded as events.
"""
import ast
import multiprocessing
import os
import sys
from concurrent.futures import ProcessPoolExecutor
from fractions import Fraction

from .. import core
from ..flow import K, NONE, Obj, T, TUP, RAISE, TooComplex, is_c, is_raise, is_t, lin, show
from ..rxmodel import RxFlow

EXT = T("addr", "external")
TABLES = ("mutation_etas", "crossover_etas", "mutation_rates", "crossover_rates", "cost_modifiers", "fitness_errors", "mantissa_bits", "min_progress_ratio", "comparison_multipliers")
SYSTEM = T("sym", "actorsystem")
IDENT = ("addr", "uuid", "drv", "enum", "objf", "vec")


class Plan:
    """one configuration and one schedule"""
    def __init__(self, kind, max_level=2, max_sprouts=2, sproutiveness=1, progress="hash", redundant="hash", policy="fifo", steps=8, delegates=2, seed=1, depth=None):
        self.kind, self.max_level, self.max_sprouts, self.sproutiveness = kind, max_level, max_sprouts, sproutiveness
        self.progress, self.redundant, self.policy, self.steps, self.delegates, self.seed = progress, redundant, policy, steps, delegates, seed
        self.depth = depth or max(3, max_level + 1)

    def sizes(self):
        return [self.depth + 2 - l for l in range(self.depth)]

    def lens(self):
        return [self.depth - l for l in range(self.depth)]

    def verdict(self, how, n):
        if how == "never":
            return False
        if how == "always":
            return True
        if how == "late":
            return n % 4 == 3
        h = (n * 2654435761 + self.seed * 40503) & 0xffffffff
        h ^= h >> 13
        return (h * 2246822519 & 0xffffffff) >> 16 & 3 != 0 if how == "mostly" else bool((h * 2246822519 & 0xffffffff) >> 17 & 1)

    def __str__(self):
        return "%s, %d levels, %d live sprouts, %d at once, %d delegates, stagnation %s, redundancy %s%s (schedule %d)" % (
            self.kind, self.max_level + 1, self.max_sprouts, self.sproutiveness, self.delegates, self.progress, self.redundant, ", delivery %s" % self.policy if self.kind == "distributed" else "", self.seed)


def subterms(v, out=None):
    """all the terms in a value"""
    out = set() if out is None else out
    if isinstance(v, tuple):
        if v and isinstance(v[0], str) and v[0] == "t":
            if v in out:
                return out
            out.add(v)
        for x in v:
            if isinstance(x, tuple):
                subterms(x, out)
            elif isinstance(x, frozenset):
                for y in x:
                    subterms(y, out)
    return out


def noise(*key):
    h = 0
    for x in key:
        h = (h ^ (hash(x) & 0xffff) + 0x9e3779b9 + (h << 6) + (h >> 2)) & 0xffffffff
    h = (h ^ h >> 15) * 2246822519 & 0xffffffff
    return h >> 9


def amount(v, seed):
    """the number a term over driver costs and cost modifiers stands for; every step of a driver costs something, or now and then nothing"""
    if v[0] == "c":
        return Fraction(v[2]) if isinstance(v[2], (int, float)) and abs(v[2]) != float("inf") else None
    if v[0] != "t":
        return None
    if v[1] == "dcost":
        return Fraction(sum((0, 3, 8, 15, 31, 7, 2, 19)[noise(seed, v[2], i) % 8] for i in range(v[3])))
    if v[1] == "tab":
        return Fraction(noise(seed, v[3], 77) % 23 + 2, 4) if v[2] == "cost_modifiers" else None
    if v[1] == "lin":
        parts = [(amount(t, seed), c) for t, c in v[2]]
        return None if any(x is None for x, _ in parts) else sum((x * c for x, c in parts), Fraction(v[3]))
    if v[1] in ("max", "min"):
        parts = [amount(t, seed) for t in v[2]]
        return None if None in parts else (max if v[1] == "max" else min)(parts)
    if v[1] in ("*", "/"):
        x, y = amount(v[2], seed), amount(v[3], seed)
        return None if x is None or y is None or v[1] == "/" and y == 0 else x * y if v[1] == "*" else x / y
    return None


class TreeFlow(RxFlow):
    max_steps = 3000000
    max_paths = 64
    max_depth = 400
    plan = None

    def recursion_limit(self, qual):
        return 120

    def while_limit(self, st, n):
        return 400

    # ------------------------------------------------ identities
    def equal(self, st, op, a, b, n):
        if a[0] == "t" and b[0] == "t" and a[1] in IDENT and b[1] in IDENT:
            return [(st, a == b)]
        for x, y in ((a, b), (b, a)):
            if x[0] == "t" and x[1] in IDENT and y[0] in ("c", "o", "cls", "fn", "ext"):
                return [(st, False)]
        if any(x[0] == "t" and any(y[1] == "dcost" for y in subterms(x)) for x in (a, b)):
            x, y = amount(a, self.plan.seed), amount(b, self.plan.seed)
            if x is not None and y is not None:
                return [(st, x == y)]
        if NONE in (a, b) and any(x[1] in ("hvc", "vec", "deleg", "norm", "np", "dcost", "tab") for y in (a, b) if y[0] == "t" for x in subterms(y)):
            return [(st, False)]
        return super().equal(st, op, a, b, n)

    def among(self, v, items):
        if v in items:
            return True
        x = amount(v, self.plan.seed) if v[0] == "t" and any(y[1] == "dcost" for y in subterms(v)) else None
        return x is not None and any(amount(w, self.plan.seed) == x for w in items)

    def getattr_hook(self, st, b, name, n):
        if b[0] == "cls":
            ci = self.repo.classes[b[1]]
            if name in ci.attrs and any(self.is_enum(c) for c in self.repo.mro(ci)):
                return [(st, T("enum", ci.qual, name))]
        if b[0] == "o" and name == "myAddress" and b[1] in dict(st.data["actors"]).values():
            return [(st, next(T("addr", a) for a, o in st.data["actors"] if o == b[1]))]
        if is_t(b, "enum"):
            return [(st, T("enumattr", b, name))]
        if is_t(b, "drv"):
            if name == "cost":
                return [(st, self.driver_cost(st, b[2]))]
            if name == "step_no":
                return [(st, K(st.data[("n", b[2])]))]
            if name in ("population", "individuals"):
                return [(st, self.population(st, b[2]))]
            if name == "message_adapter":
                return [(st, T("adapter", b[2]))]
            return [(st, T("attr", b, name))]
        return super().getattr_hook(st, b, name, n)

    def is_enum(self, ci):
        for e in ci.node.bases:
            r = self.repo.resolve_expr(ci.module, e)
            if r and r[0] == "ext" and r[1].startswith("enum."):
                return True
        return False

    def driver_cost(self, st, k):
        m = st.data[("n", k)]
        return T("dcost", k, m) if m else K(0)

    def vec(self, st, k, j):
        """the j-th member of the driver's population now"""
        return T("vec", k, j, st.data[("n", k)])

    def population(self, st, k):
        return st.new(Obj("list", items=tuple(self.vec(st, k, j) for j in range(2))))

    # ------------------------------------------------ verdicts
    def truth(self, st, v, n=None):
        if v[0] == "t" and v[1] in IDENT + ("adapter",):
            return [(st, True)]
        if v[0] == "t" and v[1] in ("lin", "hvc") and any(x[1] == "hvc" for x in subterms(v)):
            return [(st, True)]
        return super().truth(st, v, n)

    def decide_hook(self, st, term):
        if is_t(term, "true") and any(x[1] in ("hvc", "tab") for x in subterms(term[2])):
            return True
        return None

    def compare_hook(self, st, op, a, b, n):
        if op not in ("Lt", "LtE", "Gt", "GtE"):
            return None
        if a[0] == "c" and b[0] == "c":
            return None
        if any(x[0] == "c" and isinstance(x[2], float) and x[2] == float("-inf") for x in (a, b)):
            return [(st, (a[0] == "c") == (op in ("Lt", "LtE")))]
        if any(x[0] == "c" and isinstance(x[2], float) and x[2] == float("inf") for x in (a, b)):
            return [(st, (a[0] == "c") == (op in ("Gt", "GtE")))]
        ta, tb = subterms(a), subterms(b)
        both = ta | tb
        dist = [x for x in both if x[1] == "norm"]
        hv = [x for x in both if x[1] == "hvc"]
        bound = {x for x in both if x[1] == "tab" and x[2] == "min_progress_ratio"}
        less = op in ("Lt", "LtE")
        if any(x[2] == "comparison_multipliers" for x in both if x[1] == "tab") and dist:
            flip = any(x[1] == "norm" and x[2] == "far" for x in ta) and not any(x[1] == "norm" and x[2] == "far" for x in tb)
            far = [x for x in dist if x[2] == "far"]
            key = ("verdict", "redundant")
            st.data[key] = st.data.get(key, 0) + 1
            near = self.plan.verdict(self.plan.redundant, st.data[key])
            st.event("redundancy", tuple(sorted({x[3] for x in both if x[1] == "tab" and x[2] == "comparison_multipliers"})), self.involved(both), near, self.where())
            return [(st, near == (less == flip))]
        if bound and hv:
            key = ("verdict", "progress")
            st.data[key] = st.data.get(key, 0) + 1
            stuck = self.plan.verdict(self.plan.progress, st.data[key])
            st.event("progress", tuple(sorted({x[3] for x in bound})), tuple(sorted({x[2] for x in hv})), stuck, self.where())
            st.trace = st.trace[:-1] + (st.trace[-1] + (self.demand(a, b),),)
            left = any(x[1] == "tab" and x[2] == "min_progress_ratio" for x in ta)   # threshold on the left
            return [(st, stuck == (less != left))]
        if any(x[1] == "dcost" for x in both):
            # costs: the plan gives every one a number
            x, y = amount(a, self.plan.seed), amount(b, self.plan.seed)
            if x is not None and y is not None:
                return [(st, {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op])]
            return [(st, (a == b) == (op in ("LtE", "GtE")) if a == b else (repr(a) < repr(b)) == less)]
        if hv:
            # a dominated volume against a constant: positive
            return [(st, (b[0] == "c") != less)]
        return None

    def demand(self, a, b):
        """the factor on the table entry, when the bound is a multiple of it"""
        for x in (a, b):
            l = lin(x)
            if l and len(l[0]) == 1 and l[1] == 0:
                (t, c), = l[0].items()
                if is_t(t, "tab"):
                    return c
        return None

    def involved(self, terms):
        """the drivers whose vectors are compared, and the delegates"""
        grown = set()          # delegates a compared sprout's first population was drawn around
        for x in terms:
            if x[1] == "np" and any(y[1] == "mut" for y in subterms(x)):
                grown |= {y for y in subterms(x) if y[1] == "deleg"}
        return tuple(sorted({("grown" if x in grown else "delegate", x[2], x[3]) for x in terms if x[1] == "deleg"} | {("driver", x[2]) for x in terms if x[1] == "vec"} | {("config",) for x in terms if x[1] == "cfgvec"}))

    def minmax(self, st, name, args, kw, n):
        if not set(kw) - {"default"}:
            its = [(st, list(args))] if len(args) > 1 else self.items_of(st, args[0], n)
            if len(its) == 1 and isinstance(its[0][1], list) and its[0][1] and any(x[0] == "t" for x in its[0][1]):
                vals = set(its[0][1])
                if len(vals) == 1:
                    return [(its[0][0], vals.pop())]
                return [(its[0][0], T(name, tuple(sorted(vals, key=repr))))]
        return super().minmax(st, name, args, kw, n)

    # ------------------------------------------------ inner drivers
    def call_hook(self, st, fv, args, kw, n):
        if fv[0] == "cls":
            if fv[1] == "algorithms.base.hv.HyperVolume":
                return [(st, T("hvobj"))]
            ci = self.repo.classes[fv[1]]
            if self.is_actor(ci):
                return None
        if fv[0] == "fn":
            module, fn, ci = self.fnkeys[fv[1]]
            if module.name == "algorithms.base.drivertools" and not isinstance(fn, ast.Lambda) and fn.name == "mutate":
                names = [a.arg for a in fn.args.args]
                got = dict(zip(names, args))
                got.update(kw)
                return [(st, st.fresh("mut", tuple((k, self.snap(st, v)) for k, v in got.items())))]
        if fv == ("bi", "print"):
            return [(st, NONE)]
        if fv == ("bi", "str") and args and is_t(args[0], "addr"):
            return [(st, K("address-%s" % (args[0][2],)))]
        if fv == ("bi", "hasattr") and args and args[0][0] == "o":
            return [(st, K(False))]
        return None

    def super_attr(self, st, b, name, n):
        r = super().super_attr(st, b, name, n)
        if len(r) == 1 and r[0][1][0] == "superext" and b[2] is not None and b[2][0] == "o":
            return [(r[0][0], T("attr", b[2], name))]
        return r

    def is_actor(self, ci):
        for c in self.repo.mro(ci):
            for e in c.node.bases:
                r = self.repo.resolve_expr(c.module, e)
                if r and r[0] == "ext" and r[1].startswith("thespian."):
                    return True
        return False

    def opaque_call(self, st, fv, args, kw, n):
        if fv == T("sym", "mkdriver"):
            k = st.data.get("drivers", 0)
            st.data["drivers"] = k + 1
            st.data[("n", k)] = 0
            st.data[("args", k)] = (tuple(args), tuple(kw.items()))
            pop = kw.get("population", args[0] if args else NONE)
            st.event("driver", k, tuple((x, self.snap(st, v)) for x, v in kw.items()), self.snap(st, pop), self.where())
            return [(st, T("drv", k))]
        if is_t(fv, "objf") and args:
            return [(st, T("fv", fv[2], self.snap(st, args[0])))]
        return super().opaque_call(st, fv, args, kw, n)

    def opaque_method(self, st, base, name, args, kw, n):
        if is_t(base, "drv"):
            k = base[2]
            if name in ("next_step", "step"):
                st.data[("n", k)] += 1
                st.event("step", k)
                msg = st.new(Obj("inst", "driver message", fields={"cost": self.driver_cost(st, k), "step_no": K(st.data[("n", k)])}))
                return [(st, msg if name == "next_step" else NONE)]
            if name == "finalized_population":
                return [(st, self.population(st, k))]
            if name == "shutdown":
                st.event("shutdown", k)
                return [(st, NONE)]
        if is_t(base, "adapter"):
            if name == "nominate_delegates":
                k = base[2]
                return [(st, st.new(Obj("list", items=tuple(TUP(tuple(T("deleg", k, (st.data[("n", k)], j), i) for i in range(2))) for j in range(self.plan.delegates)))))]
            if name == "get_population":
                return [(st, self.population(st, base[2]))]
        if is_t(base, "hvobj") and name == "compute":
            ks = sorted({x[2] for x in subterms(self.snap(st, args[0])) if x[1] == "vec"})
            if not ks:
                return [(st, st.fresh("x", "hv"))]
            return [(st, st.fresh("hvc", tuple(ks)))]
        if base == SYSTEM:
            if name == "createActor":
                return self.create_actor(st, args[0])
            if name == "tell":
                return self.post(st, EXT, args[0], args[1])
            if name == "ask":
                return self.ask(st, args[0], args[1], n)
            return [(st, NONE)]
        if base[0] == "o" and st.heap[base[1]].kind == "inst" and base[1] in dict(st.data["actors"]).values():
            me = next(T("addr", a) for a, o in st.data["actors"] if o == base[1])
            if name == "createActor":
                return self.create_actor(st, args[0])
            if name == "send":
                return self.post(st, me, args[0], args[1])
            return [(st, NONE)]
        if is_t(base, "addr"):
            return [(st, T("x", name, base))]
        return super().opaque_method(st, base, name, args, kw, n)

    def ext_call(self, st, name, args, kw, n):
        if name == "thespian.actors.ActorSystem":
            return [(st, SYSTEM)]
        if name == "thespian.actors.ActorExitRequest":
            return [(st, T("exitrequest"))]
        if name.startswith("uuid.uuid"):
            return [(st, st.fresh("uuid"))]
        if name == "random.sample" and len(args) == 2:
            its = self.exact(st, args[0])
            if its is not None and args[1][0] == "c":
                if args[1][2] > len(its):
                    return [(st, RAISE("ValueError", "sample larger than population"))]
                return [(st, st.new(Obj("list", items=tuple(its[:args[1][2]]))))]
        if name == "random.shuffle":
            return [(st, NONE)]
        if name == "numpy.linalg.norm" and args:
            s = self.snap(st, args[0])
            return [(st, T("norm", "far" if any(x[1] in ("vec", "deleg", "cfgvec") for x in subterms(s)) else "box", s))]
        if name == "numpy.mean" and args:
            its = self.exact(st, args[0])
            if args[0] == NONE or its is not None and NONE in its:
                return [(st, RAISE("TypeError", "the mean of None"))]
        if name in ("numpy.mean", "numpy.array", "numpy.asarray"):
            return [(st, T("np", name[6:], tuple(self.snap(st, a) for a in args)))]
        if name in ("numpy.math.fabs", "math.fabs", "random.gauss"):
            return [(st, T("x", name, tuple(self.snap(st, a) for a in args)))]
        return super().ext_call(st, name, args, kw, n)

    def getitem_hook(self, st, b, i, n):
        return super().getitem_hook(st, b, i, n)

    def isinst(self, st, v, t, n):
        if is_t(v, "exitrequest") or v[0] == "c":
            return [(st, K(False))] if t[0] in ("cls", "tup") else super().isinst(st, v, t, n)
        return super().isinst(st, v, t, n)

    # ------------------------------------------------ actors and messages
    def create_actor(self, st, cls):
        a = len(st.data["actors"])
        st.data["actors"] = st.data["actors"] + ((a, None),)
        st.data[("cls", a)] = cls
        return [(st, T("addr", a))]

    def awake(self, st, a):
        """the actor's object, made when its first message arrives"""
        o = dict(st.data["actors"])[a]
        if o is not None:
            return [(st, ("o", o))]
        cls = st.data[("cls", a)]
        obj = st.new(Obj("inst", cls[1]))
        st.data["actors"] = tuple((b, obj[1] if b == a else x) for b, x in st.data["actors"])
        m = self.repo.find_method(self.repo.classes[cls[1]], "__init__")
        if m is None:
            return [(st, obj)]
        return self.bind(self.call_fn(st, self.fnval(m[0].module, m[1], m[0]), [obj], {}, None), lambda s, _: [(s, obj)])

    def post(self, st, src, dst, msg):
        if not is_t(dst, "addr"):
            st.event("nowhere", show(dst), self.where())
            return [(st, NONE)]
        st.event("send", src, dst, self.label(st, msg))
        st.data["bag"] = st.data["bag"] + ((src, dst, msg),)
        return [(st, NONE)]

    def label(self, st, msg):
        if msg[0] == "o" and st.heap[msg[1]].kind == "inst":
            op = st.heap[msg[1]].fields.get("operation")
            return op[3] if op is not None and is_t(op, "enum") else st.heap[msg[1]].cls
        return show(msg)

    def choose(self, st):
        """the index of the next message delivered"""
        bag = st.data["bag"]
        first, seen = [], set()
        for i, (src, dst, m) in enumerate(bag):
            if (src, dst) not in seen:
                seen.add((src, dst))
                first.append(i)
        p = self.plan.policy
        if p == "fifo":
            return first[0]
        if p == "lifo":
            return first[-1]
        st.data["tick"] = st.data.get("tick", 0) + 1
        h = (st.data["tick"] * 2654435761 + self.plan.seed * 97) & 0xffffffff
        return first[(h >> 11) % len(first)]

    def deliver(self, st):
        i = self.choose(st)
        src, dst, msg = st.data["bag"][i]
        st.data["bag"] = st.data["bag"][:i] + st.data["bag"][i + 1:]
        if dst == EXT:
            st.data["mail"] = st.data["mail"] + ((src, msg),)
            return [(st, NONE)]
        st.data["delivered"] = st.data.get("delivered", 0) + 1
        if st.data["delivered"] > 20000:
            raise TooComplex("more than 20000 messages")
        if is_t(msg, "exitrequest"):
            st.data["gone"] = st.data.get("gone", ()) + (dst,)
            return [(st, NONE)]
        if dst in st.data.get("gone", ()):
            return [(st, NONE)]
        out = []
        lab = self.label(st, msg)
        if dst == T("addr", 0) and msg[0] == "o" and src != EXT:
            st.event("handled", src, dst, lab)
        def recv(s, obj):
            return self.bind(self.getattr(s, obj, "receiveMessage", None), lambda s2, f: self.call(s2, f, [msg, src], {}, None))
        for s, v in self.bind(self.awake(st, dst[2]), recv):
            if is_raise(v):
                s.event("crash", lab, v[1], str(v[2]), self.last_where(s, dst))
            out.append((s, NONE))
        return out

    def last_where(self, st, dst):
        return st.data[("cls", dst[2])][1].rsplit(".", 1)[-1]

    def settle(self, st, until):
        """deliver until `until(st)` or nothing is left"""
        out, cur = [], [st]
        while cur:
            nxt = []
            for s in cur:
                if until(s) or not s.data["bag"]:
                    out.append(s)
                else:
                    nxt.extend(s2 for s2, _ in self.deliver(s))
            cur = nxt
            if len(cur) + len(out) > self.max_paths:
                raise TooComplex("more than %d schedules" % self.max_paths)
        return out

    def ask(self, st, addr, msg, n):
        lab = self.label(st, msg)
        if st.data["mail"]:
            # what the next request would be given
            st.event("stale", tuple(self.label(st, m) for _, m in st.data["mail"]), lab)
            st.data["mail"] = ()
        st.event("ask", lab)
        st.data["outstanding"] = lab
        out = []
        for s, _ in self.post(st, EXT, addr, msg):
            for s2 in self.settle(s, lambda x: bool(x.data["mail"])):
                if not s2.data["mail"]:
                    s2.event("noreply", lab)
                    out.append((s2, RAISE("the request is never answered", lab)))
                    continue
                src, m = s2.data["mail"][0]
                s2.data["mail"] = s2.data["mail"][1:]
                s2.event("reply", lab, self.label(s2, m))
                if s2.data["bag"]:
                    # what is still under way must not be an answer the request should have waited for
                    probe = s2.copy()
                    probe.trace = ()
                    for s3 in self.settle(probe, lambda x: False):
                        late = sorted({e[1:3] + (e[3],) for e in s3.trace if e[0] == "handled" and e[3] is not None}, key=repr)
                        if late:
                            s2.event("early", lab, late[0][2])
                        if s3.data["mail"]:
                            s2.event("stale", tuple(self.label(s3, m2) for _, m2 in s3.data["mail"]), lab)
                out.append((s2, m))
        return out


def table(fl, st, name, plan):
    return st.new(Obj("list", items=tuple(T("tab", name, l) for l in range(plan.depth))))


def build(repo, plan, entry="algorithms.HGS.HGS.HGS"):
    fl = TreeFlow(repo)
    fl.plan = plan
    st = fl.start()
    st.data.update({"actors": (), "bag": (), "mail": ()})
    lst = lambda xs: st.new(Obj("list", items=tuple(xs)))
    kw = {name: table(fl, st, name, plan) for name in TABLES}
    kw.update({
        "population": lst(T("cfgvec", j) for j in range(plan.sizes()[0] + 2)),
        "dims": lst(TUP((T("lo", i), T("hi", i))) for i in range(2)),
        "fitnesses": lst(T("objf", c) for c in range(2)),
        "driver": T("sym", "mkdriver"), "reference_point": lst((K(10), K(10))),
        "metaepoch_len": lst(K(x) for x in plan.lens()), "population_sizes": lst(K(x) for x in plan.sizes()),
        "max_level": K(plan.max_level), "max_sprouts_no": K(plan.max_sprouts), "sproutiveness": K(plan.sproutiveness),
        "driver_message_adapter_factory": T("sym", "adapterfactory"),
    })
    if entry.endswith("HGS.HGS.HGS"):
        kw["hgs_type"] = K(plan.kind)
    r = fl.call(st, ("cls", entry), [], kw, None)
    return fl, r


def requests(repo, plan, ops):
    """-> (flow, [(state, value)]): the coordinator is constructed and sent the requests `ops`, one after another's reply"""
    fl, cur = build(repo, plan)
    q = MESSAGES
    def send(op):
        def f(s, o):
            s.event("mark", op)
            r = fl.instantiate(s, q + "HgsMessage", [T("enum", q + "HgsOperation", op)], {}, None)
            return fl.bind(fl.bind(r, lambda s2, m: fl.ask(s2, T("addr", 0), m, None)), lambda s3, _: [(s3, o)])
        return f
    for op in ops:
        cur = fl.bind(cur, send(op))
    out = []
    for s, v in cur:
        for s2 in fl.settle(s, lambda x: False):
            if s2.data["mail"]:
                s2.event("stale", tuple(fl.label(s2, m) for _, m in s2.data["mail"]), ops[-1])
            out.append((s2, v))
    return fl, out


MESSAGES = "algorithms.HGS.distributed.message."


def history(repo, plan, extra=None):
    """-> (flow, [(state, value)], [marks]): constructor, steps, population, shutdown; events are split by ("mark", ...)"""
    fl, cur = build(repo, plan)
    obj = {}

    def do(name, mark):
        def f(s, o):
            s.event("mark", mark)
            obj_ = o
            return fl.bind(fl.bind(fl.getattr(s, o, name, None), lambda s2, g: fl.call(s2, g, [], {}, None)), lambda s3, v: after(s3, o, mark, v))
        return f

    def after(s, o, mark, v):
        s.event("result", mark, fl.snap(s, v))
        out = []
        for s2, c in fl.getattr(s, o, "cost", None):
            s2.event("cost", mark, c)
            out.append((s2, o))
        return out

    cur = fl.bind(cur, lambda s, o: (s.event("mark", "built"), [(s, o)])[1])
    for i in range(plan.steps):
        cur = fl.bind(cur, do("next_step", "step %d" % (i + 1)))
        if extra:
            cur = fl.bind(cur, lambda s, o: fl.bind(extra(fl, s, o), lambda s2, _: [(s2, o)]))
    cur = fl.bind(cur, do("finalized_population", "population"))
    def closing(s, o):
        s.event("mark", "shutdown")
        out = []
        for s2, v in fl.bind(fl.getattr(s, o, "shutdown", None), lambda s3, g: fl.call(s3, g, [], {}, None)):
            for s3 in fl.settle(s2, lambda x: False):
                if s3.data["mail"]:
                    s3.event("stale", tuple(fl.label(s3, m) for _, m in s3.data["mail"]), "shutdown")
                out.append((s3, v if is_raise(v) else o))
        return out
    cur = fl.bind(cur, closing)
    return fl, cur


def pairs(v):
    """the bounds of a box handed over, whatever holds them"""
    items = v[3] if is_t(v, "snap") and v[2] in ("list", "tuple") else v[1] if v[0] == "tup" else None
    if items is None:
        return None
    return tuple(x[1] if x[0] == "tup" else x[3] if is_t(x, "snap") and x[2] in ("list", "tuple") else x for x in items)


BOX = tuple((T("lo", i), T("hi", i)) for i in range(2))


def boxes(s, v, plan):
    """every node works in the box given, and starts from vectors that are a delegate's or drawn around one inside it"""
    for e in s.trace:
        if e[0] != "driver":
            continue
        kw = dict(e[2])
        if "dims" not in kw:
            raise TooComplex("an inner driver is set up without a box that can be followed")
        if pairs(kw["dims"]) != BOX:
            return "box", "an inner driver is set up with another box than the tree was given"
        members = e[3][3] if is_t(e[3], "snap") else e[3][1] if e[3][0] == "tup" else None
        if members is None:
            raise TooComplex("the first population of a node is %s" % show(e[3])[:60])
        for x in members:
            if is_t(x, "cfgvec"):
                continue
            if is_t(x, "mut"):
                got = dict(x[2])
                if pairs(got.get("dims", NONE)) != BOX:
                    return "sprouts", "a sprout's first population is drawn within another box than the tree was given"
                x = got.get("xs", NONE)
            its = x[3] if is_t(x, "snap") and x[2] in ("list", "tuple") else x[1] if x[0] == "tup" else (x,)
            if any(not is_t(y, "deleg") and not is_t(y, "cfgvec") for y in its):
                raise TooComplex("a sprout starts from %s" % show(x)[:60])
            if [y[4] for y in its if is_t(y, "deleg")] != list(range(len(its))) and not is_t(its[0], "cfgvec"):
                return "sprouts", "a sprout starts from a delegate with its coordinates in another order"
    return None


def judged(repo, res, rule, judge, plans, where):
    """one obligation per plan; -> events per kind"""
    jobs = [(repo.root, p, judge) for p in plans]
    drivers = {}
    with ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context("fork")) as ex:
        for plan, bad, unk, fns, n in ex.map(one, jobs):
            res.functions |= fns
            drivers[plan.kind] = drivers.get(plan.kind, 0) + n
            if unk:
                res.unknown(rule, str(plan), unk)
            elif bad:
                res.bad(rule, "%s: %s" % (plan.kind, bad[0]), where[plan.kind], "%s [%s]" % (bad[1], plan))
            else:
                res.ok(rule, str(plan))
    return drivers


def one(job):
    sys.setrecursionlimit(30000)
    root, plan, judge = job
    try:
        fl, out = history(core.shared(root), plan)
        bad, n = None, 0
        for s, v in out:
            bad = bad or judge(s, v, plan)
            n += sum(1 for e in s.trace if e[0] == "driver")
    except (TooComplex, RecursionError) as e:
        return plan, None, str(e) or "too deep", set(), 0
    return plan, bad, None, fl.functions, n
