"""Crossover, mutation and sprouting on their own, over every outcome of every comparison.

An operator is interpreted on vectors whose coordinates are intervals (anywhere in the box) and draws that are
intervals.  Where the intervals leave a comparison open, both answers are followed, one interpretation per
sequence of answers; the answer narrows the intervals.  A coordinate is in the box if its interval is.
"""
import math

from ..flow import K, INF, Obj, T, TooComplex, is_raise, is_t
from . import algos
from .algos import AlgoFlow, BOXES, Plan, lst

BASE, TREE = "algorithms.base.drivertools.", "algorithms.HGS."
LIMIT = {"quick": 3000, "thorough": 60000}


class ScriptFlow(AlgoFlow):
    eta = 20.0

    def begin(self, script):
        self.script, self.taken, self.known = script, [], {}

    def index(self, k):
        lo = 0
        while lo < k - 1:
            i = len(self.taken)
            r = self.script[i] if i < len(self.script) else True
            self.taken.append(r)
            if r:
                break
            lo += 1
        return lo

    def decide(self, op, a, b):
        (_, al, ah), (_, bl, bh) = self.number(a), self.number(b)
        if op in ("Gt", "GtE"):
            return self.decide({"Gt": "Lt", "GtE": "LtE"}[op], b, a)
        if op == "Lt":
            return True if ah < bl else False if al >= bh else None
        if op == "LtE":
            return True if ah <= bl else False if al > bh else None
        return False if ah < bl or bh < al else None

    def compare_hook(self, st, op, a, b, n):
        if (is_t(a, "r") or is_t(b, "r")) and self.number(a) and self.number(b) and op in ("Lt", "LtE", "Gt", "GtE", "Eq"):
            r = self.decide(op, a, b)
            if r is None:
                key = (op, a, b)
                flip = {"Lt": ("GtE", False), "LtE": ("Gt", False), "Gt": ("LtE", False), "GtE": ("Lt", False)}.get(op)
                if key in self.known:
                    r = self.known[key]
                else:
                    i = len(self.taken)
                    r = self.script[i] if i < len(self.script) else True
                    self.taken.append(r)
                    self.known[key] = r
                    if flip:
                        self.known[(flip[0], a, b)] = not r
                    self.known[({"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}.get(op, op), b, a)] = r
            self.refine({("Lt", True): "<", ("Lt", False): ">=", ("LtE", True): "<=", ("LtE", False): ">", ("Gt", True): ">", ("Gt", False): "<=",
                         ("GtE", True): ">=", ("GtE", False): "<", ("Eq", True): "==", ("Eq", False): "!="}[(op, r)], a, b)
            return [(st, r)]
        return super().compare_hook(st, op, a, b, n)


def vector(fl, st, src, dims):
    if getattr(fl, "corners", False):
        xs = []
        for i in range(dims):
            lo, hi = BOXES[i]
            spot = (lo, hi, lo, hi, math.nextafter(lo, hi), math.nextafter(hi, lo)) + tuple(lo + algos.h01("at", fl.plan.seed, src, i) * (hi - lo) for _ in range(3))
            xs.append(fl.real(("x0", src, i), spot[int(algos.h01("spot", fl.plan.seed, src, i) * len(spot))], lo, hi))
        return lst(st, xs)
    return lst(st, [fl.real(("x0", src, i), BOXES[i][0] + (0.3 + 0.2 * src) * (BOXES[i][1] - BOXES[i][0]), *BOXES[i]) for i in range(dims)])


def cases():
    """(name, function, how to call it)"""
    d = lambda st, k: lst(st, [K(BOXES[i]) for i in range(k)])
    out = []

    def plain(fn, build, dims=(1, 2)):
        for k in dims:
            out.append((fn, k, build))
    plain(BASE + "mutate", lambda fl, st, k: ([vector(fl, st, 0, k), d(st, k), K(0.5), K(fl.eta)], [0]))
    plain(BASE + "crossover", lambda fl, st, k: ([vector(fl, st, 0, k), vector(fl, st, 1, k), d(st, k), K(0.5), K(fl.eta)], [0, 1]), (1,))
    plain(BASE + "old_mutate", lambda fl, st, k: ([vector(fl, st, 0, k), d(st, k), K(0.5), lst(st, [K(0.1)] * k)], [0]))
    plain(BASE + "old_crossover", lambda fl, st, k: ([vector(fl, st, 0, k), vector(fl, st, 1, k)], [0, 1]))
    plain(BASE + "crossover_triangular", lambda fl, st, k: ([vector(fl, st, 0, k), vector(fl, st, 1, k)], [0, 1]))
    plain(TREE + "tools.population_from_delegate", lambda fl, st, k: ([vector(fl, st, 0, k), K(2), d(st, k), K(0.5), K(fl.eta)], [0]), (1,))
    plain(TREE + "classic.ClassicHGS.population_from_delegate", lambda fl, st, k: ([vector(fl, st, 0, k), K(2), d(st, k), K(0.5), K(fl.eta)], [0]), (1,))
    plain(TREE + "HGS_optional.population_from_delegate_mutate", lambda fl, st, k: ([vector(fl, st, 0, k), K(2), d(st, k), K(0.5), K(fl.eta)], [0]), (1,))
    third = "algorithms.NSGAIII.NSGAIII."

    def ind(fl, st, src, k):
        st2, o = algos.single(fl.instantiate(st, third + "Individual", [vector(fl, st, src, k)], {}, None), "Individual()", fl)
        objs = lst(st, [fl.real(("ev", c, tuple(st.heap[o[1]].fields["v"] and fl.exact(st, st.heap[o[1]].fields["v"]))), 1.0 + src + c, 0.0, 9.0) for c in range(2)])
        st.w(o[1]).fields["objectives"] = objs
        return o
    plain(third + "simulated_binary_crossover", lambda fl, st, k: ([ind(fl, st, 0, k), ind(fl, st, 1, k), d(st, k), K(0.5), K(fl.eta)], [0, 1]), (1,))
    plain(third + "polynomial_mutation", lambda fl, st, k: ([ind(fl, st, 0, k), d(st, k), K(0.5), K(fl.eta)], None))
    plain("evotools.ea_utils.gen_population", lambda fl, st, k: ([K(2), d(st, k)], []))
    return out


def core_vector(fl, st, v, dims):
    """the list of coordinates: the value itself, or what an individual holds"""
    o = st.heap[v[1]]
    if o.kind == "list":
        return v[1]
    got = [x[1] for x in o.fields.values() if x[0] == "o" and st.heap[x[1]].kind == "list" and len(st.heap[x[1]].items) == dims and not any(fl.evkey(y) for y in st.heap[x[1]].items)]
    if len(got) != 1:
        raise TooComplex("no vector in an individual")
    return got[0]


def explore(repo, name, dims, build, limit):
    """-> (paths, finding or None, proved coordinates, unproved coordinates, functions) or None when there is no such function"""
    mod, fn = name.rsplit(".", 1)
    m = repo.modules.get(mod)
    if m is None or repo.resolve_global(m, fn) is None:
        return None
    script, paths, proved, open_, functions = [], 0, 0, 0, set()
    while True:
        fl = ScriptFlow(repo)
        fl.plan = Plan(name, dims=dims, seed=paths)
        fl.begin(script)
        st = fl.start()
        (st, f), = fl.global_name(st, m, fn)
        args, vecs = build(fl, st, dims)
        vecs_ = [core_vector(fl, st, args[i], dims) for i in vecs or ()]
        before = {o: st.heap[o].items for o in vecs_}
        out = fl.call(st, f, args, {}, None)
        paths += 1
        functions |= fl.functions
        for s, v in out:
            if is_raise(v):
                continue            # an operator that refuses (a division by zero on a flat box, say) makes no vector
            for o, items in before.items():
                if s.heap[o].items != items:
                    return paths, ("operators", name, "%s writes into the vector it is given" % fn), proved, open_, functions
            v = args[0] if vecs is None else v
            rows = [v] if v[0] == "o" and s.heap[v[1]].kind == "inst" else fl.exact(s, v)
            if rows is None:
                raise TooComplex("%s returns something that is not a list" % fn)
            rows = [v] if not rows or fl.isnum(rows[0]) else rows
            rows = [("o", core_vector(fl, s, r, dims)) if r[0] == "o" and s.heap[r[1]].kind == "inst" else r for r in rows]
            mine = set(before)
            for r in rows:
                if r[0] == "o" and r[1] in mine:
                    return paths, ("operators", name, "%s returns a list that is not its own: the one it was given, or the same one twice" % fn), proved, open_, functions
                if r[0] == "o":
                    mine.add(r[1])
                xs = fl.exact(s, r)
                if xs is None or len(xs) != dims:
                    return paths, ("operators", name, "%s returns a vector of %s coordinates for a box of %d" % (fn, "?" if xs is None else len(xs), dims)), proved, open_, functions
                for i, x in enumerate(xs):
                    val, lo, hi = fl.number(x)
                    if lo >= BOXES[i][0] and hi <= BOXES[i][1]:
                        proved += 1
                    elif lo > BOXES[i][1] or hi < BOXES[i][0]:
                        return paths, ("operators", name, "%s returns coordinate %d in [%g, %g], outside [%g, %g]" % (fn, i, lo, hi, *BOXES[i])), proved, open_, functions
                    else:
                        open_ += 1
        taken = list(fl.taken)
        while taken and taken[-1] is False:
            taken.pop()
        if not taken:
            break
        taken[-1] = False
        script = taken
        if paths >= limit:
            raise TooComplex("more than %d paths in %s" % (limit, fn))
    return paths, None, proved, open_, functions


class CornerFlow(AlgoFlow):
    corners = True
    eta = 20.0

    def unit(self):
        u, v = self.draw("corner"), self.draw("corner")
        return 0.0 if u < 0.1 else 1.0 - 2.0 ** -53 if u < 0.35 else 1.0 - 1e-15 if u < 0.4 else 0.5 * v if u < 0.7 else v


def probe(repo, name, dims, build, tries):
    """a schedule under which a coordinate leaves the box, starting from vectors on and next to its edges"""
    mod, fn = name.rsplit(".", 1)
    m = repo.modules[mod]
    for seed in range(tries):
        fl = CornerFlow(repo)
        fl.plan = Plan(name, dims=dims, seed=7000 + seed)
        fl.eta = (20.0, 0.0, 2.0, 30.0)[seed % 4]
        st = fl.start()
        (st, f), = fl.global_name(st, m, fn)
        args, vecs = build(fl, st, dims)
        for s, v in fl.call(st, f, args, {}, None):
            if is_raise(v):
                continue
            v = args[0] if vecs is None else v
            rows = [v] if v[0] == "o" and s.heap[v[1]].kind == "inst" else fl.exact(s, v)
            rows = [v] if not rows or fl.isnum(rows[0]) else rows
            for r in rows:
                r = ("o", core_vector(fl, s, r, dims)) if r[0] == "o" and s.heap[r[1]].kind == "inst" else r
                for i, x in enumerate(fl.exact(s, r)):
                    val = fl.number(x)[0]
                    if not BOXES[i][0] <= val <= BOXES[i][1]:
                        return "%s can return %r for a coordinate between %g and %g" % (fn, val, *BOXES[i])
    return None


def judge(repo, res, tier, about):
    """about "box": outside and unproved coordinates; "copies": writes and shared lists"""
    done = 0
    for name, dims, build in cases():
        what = "%s, %d coordinates" % (name, dims)
        try:
            r = explore(repo, name, dims, build, LIMIT[tier])
        except (TooComplex, RecursionError, KeyError, TypeError, AttributeError, IndexError, ValueError) as e:
            res.unknown("operators", what, str(e))
            continue
        if r is None:
            continue
        paths, bad, proved, open_, fns = r
        res.functions |= fns
        if bad and ("returns coordinate" in bad[2] or "coordinates for a box" in bad[2]) == (about == "box"):
            res.bad(*bad[:2], name.rsplit(".", 1)[0].replace(".", "/") + ".py", bad[2])
        elif about == "box" and open_ and (found := probe(repo, name, max(2, dims), build, 4000 if tier == "quick" else 40000)):
            res.bad("operators", name, name.rsplit(".", 1)[0].replace(".", "/") + ".py", found)
        elif about == "box" and open_:
            res.unknown("operators", what, "%d of %d coordinates are not enclosed in the box" % (open_, open_ + proved))
        else:
            res.ok("operators", what)
            done += 1
        res.extra["operator paths"] = res.extra.get("operator paths", 0) + paths
    if not any(o[2] == "violated" for o in res.obligations):
        res.floor("operators followed", done, 8)
