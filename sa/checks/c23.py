"""C23: rankings credit the right winners."""
import itertools
import re
from fractions import Fraction

from ..core import AnalysisBroken
from ..flow import K, NONE, Obj, T, TUP, TooComplex, is_raise, is_t, lin, mklin, show
from ..runmodel import RunFlow
from .c17 import func

TECHNIQUE = "path-sensitive interpretation of the ranking commands over symbolic scores; decision regions compared with the specified ones"
NOTE = ("Three algorithms on two problems at two budgets stand for all; the scores of one comparison at a time are arbitrary positive numbers, the others fixed. One stored run per algorithm; the bootstrap's reported mean is "
        "checked apart to be the mean of all runs. Directions and tolerances are those of the source when the property was written. The charts of pictures_summary credit no winners (see C40 for them).")
EXPLANATION = ("rank, detailed_rank and table_rank are interpreted over results whose scores are symbols. Every comparison the code makes between scores splits the path; on each path the printed credits are read and the linear "
               "conditions collected on the scores describe the region where the code prints them. In every cell of the arrangement of these conditions and of the specified ones (order and relative tolerance) the two must agree.")
BEST = {"hypervolume": "max", "igd": "min", "ahd": "min", "spacing": "min", "gd": "min", "pdi": "max"}
TOLERANCE = {"hypervolume": Fraction(5, 1000), "pdi": Fraction(5, 1000), "igd": Fraction(5, 100), "ahd": Fraction(5, 100), "spacing": Fraction(5, 100), "gd": Fraction(5, 100)}
ALGOS = ("SPEA2", "IBEA", "NSGAII")
PROBLEMS = ("ZDT1", "UF1")
COMMANDS = {"rank": "statistic.ranking.rank", "rank_details": "statistic.ranking.detailed_rank", "table": "statistic.ranking.table_rank"}
BUDGETS = {"rank": (500, 1500), "rank_details": (500, 1500), "table": (40, 500)}
OVER = "NSGAII"          # exceeds its largest budget
TINY = Fraction(1, 10 ** 9)


class RankFlow(RunFlow):
    plan = None          # (command, result set, problem, metric, budget)
    metrics = ()
    algos = ALGOS
    max_steps = 3000000

    # ---------------------------------------------------------------- scores
    def score(self, rs, p, a, b, m):
        c, prs, pp, pm, pb = self.plan
        if (rs, p, m) == (prs, pp, pm) and b == (pb if pb is not None else accepted(a)):
            return self.symbol(a)
        if m == "cost":
            return K(float(9000 if self.over(p, a, b) else b))
        names = sorted(BEST)
        rot = rs + PROBLEMS.index(p) + (names.index(m) if m in names else 0) + (b > 500)
        return K(3.0 ** ((self.algos.index(a) + rot) % 3))

    def over(self, p, a, b):
        """the run spent far more than its budget"""
        if self.plan[0] == "table":
            return False
        return a == OVER and b == max(BUDGETS[self.plan[0]]) or a == "IBEA" and p == PROBLEMS[1] and self.plan[2] == PROBLEMS[0]

    def symbol(self, a):
        return T("score", a)

    def row(self, st, rs, p, a, b):
        ms = []
        for m in self.metrics:
            thunk = T("thunk", self.score(rs, p, a, b, m))
            ms.append(TUP((K(m), K(m), st.new(Obj("list", items=(thunk,))))))
        an = st.new(Obj("list", "oneshot", items=tuple(ms)))
        d = {"problem": K(p), "algo": K(a), "results": st.new(Obj("list", items=(T("sym", "result"),))), "analysis": an, "budget": K(b)}
        return st.new(Obj("dict", items=tuple((K(k), v) for k, v in d.items())))

    def rows(self, st, rs):
        c = self.plan[0]
        out = []
        for p in PROBLEMS:
            algos = []
            for a in self.algos:
                rs_rows = tuple(self.row(st, rs, p, a, b) for b in BUDGETS[c])
                algos.append(TUP((K(a), st.new(Obj("list", "oneshot", items=rs_rows)))))
            out.append(TUP((K(p), T("sym", "problem " + p), st.new(Obj("list", "oneshot", items=tuple(algos))))))
        return st.new(Obj("list", "oneshot", items=tuple(out)))

    def call_hook(self, st, fv, args, kw, n):
        if fv[0] == "fn":
            m, fn, ci = self.fnkeys[fv[1]]
            q = "%s.%s" % (m.name, getattr(fn, "name", ""))
            if ci is None and q == "simulation.serialization.each_result":
                d = (list(args[1:]) + list(kw.values()) or [NONE])[0]
                rs = st.data.setdefault("sets", ())
                if d not in rs:
                    st.data["sets"] = rs = rs + (d,)
                return [(st, self.rows(st, rs.index(d)))]
            if ci is None and q == "statistic.stats_bootstrap.yield_analysis" and args:
                its = self.exact(st, args[0])
                if its and len(its) == 1:
                    b = st.new(Obj("dict", items=((K("metrics"), its[0]),)))
                    return [(st, st.new(Obj("dict", items=((K("btstrpd"), b),))))]
                raise TooComplex("analysis of %s" % (its,))
        if is_t(fv, "thunk"):
            return [(st, fv[2])]
        if fv == ("bi", "print"):
            st.event("print", tuple(args))
            return [(st, NONE)]
        return super().call_hook(st, fv, args, kw, n)

    # ---------------------------------------------------------------- arithmetic on scores
    def positive(self, v):
        l = lin(v)
        return l is not None and bool(l[0]) and all(is_t(k, "score") and x > 0 for k, x in l[0].items()) and l[1] >= 0

    def frac(self, v):
        """(numerator, denominator) linear forms"""
        if is_t(v, "frac"):
            return v[2], v[3]
        return None

    def binop_hook(self, st, op, a, b, n):
        fa, fb = self.frac(a), self.frac(b)
        if op == "/" and fa is None and fb is None and self.positive(b) and lin(a) is not None:
            return [(st, T("frac", a, b))]
        ca, cb = (x[2] if x[0] == "c" and isinstance(x[2], (int, float)) else None for x in (a, b))
        for f, c, left in ((fa, cb, True), (fb, ca, False)):
            if f and c is not None:
                num, den = lin(f[0]), lin(f[1])
                c = Fraction(c)
                if op in ("+", "-"):
                    sf, sc = (1, 1 if op == "+" else -1) if left else (1 if op == "+" else -1, 1)
                    d = {k: sf * x for k, x in num[0].items()}
                    for k, x in den[0].items():
                        d[k] = d.get(k, 0) + sc * c * x
                    return [(st, T("frac", mklin(d, sf * num[1] + sc * c * den[1]), f[1]))]
                if op == "*" or op == "/" and left and c:
                    c = c if op == "*" else 1 / c
                    return [(st, T("frac", mklin({k: c * x for k, x in num[0].items()}, c * num[1]), f[1]))]
        return super().binop_hook(st, op, a, b, n)

    def compare_hook(self, st, op, a, b, n):
        if op in ("Lt", "LtE", "Gt", "GtE"):
            for x, y, flip in ((a, b, False), (b, a, True)):
                f = self.frac(x)
                if f and y[0] == "c":
                    num, den, c = lin(f[0]), lin(f[1]), Fraction(y[2])
                    d = dict(num[0])
                    for k, v in den[0].items():
                        d[k] = d.get(k, 0) - c * v
                    l = mklin(d, num[1] - c * den[1])
                    return self.compare(st, op, K(0), l, n) if flip else self.compare(st, op, l, K(0), n)
            if self.positive(mklin(*self.diff(a, b))) or self.positive(mklin(*self.diff(b, a))):
                greater = self.positive(mklin(*self.diff(a, b)))
                return [(st, greater if op in ("Gt", "GtE") else not greater)]
        if op == "Eq" and lin(a) is not None and lin(b) is not None and (self.positive(mklin(*self.diff(a, b))) or self.positive(mklin(*self.diff(b, a)))):
            return [(st, False)]
        return super().compare_hook(st, op, a, b, n)

    def diff(self, a, b):
        x, y = lin(a), lin(b)
        if x is None or y is None:
            return {}, Fraction(0)
        d = dict(x[0])
        for k, v in y[0].items():
            d[k] = d.get(k, 0) - v
        return d, x[1] - y[1]

    def builtin(self, st, name, args, kw, n):
        if name == "abs" and args and (self.frac(args[0]) or lin(args[0]) is not None and args[0][0] == "t"):
            out = []
            for s, neg in self.compare(st, "Lt", args[0], K(0), n):
                out.extend(self.binop(s, "*", args[0], K(-1), n) if neg else [(s, args[0])])
            return out
        return super().builtin(st, name, args, kw, n)

    def ext_call(self, st, name, args, kw, n):
        if name == "math.isclose":
            raise TooComplex("math.isclose")
        if name == "math.fabs" and args:
            return self.builtin(st, "abs", args, kw, n)
        if name.startswith("time."):
            return [(st, K(1.0))]
        return super().ext_call(st, name, args, kw, n)


class ZeroFlow(RankFlow):
    def symbol(self, a):
        return K(0.0)


def accepted(a):
    return 500 if a == OVER else 1500


def metric_names(repo):
    """indicator names in the order the results yield them"""
    f = func(repo, "simulation.metrics_processor.yield_metrics")
    if f is None:
        raise AnalysisBroken("metrics_processor.yield_metrics is gone")
    fl = RunFlow(repo)
    st = fl.start()
    out = None
    for s, v in fl.run(f[1], f[2], [st.new(Obj("list")), T("sym", "problem")], st=st):
        items = fl.exact(s, v)
        if items is not None:
            out = tuple(fl.exact(s, x)[0][2] for x in items)
    return out


def run(repo, res, tier):
    res.rule("winner", "the printed credits are those of the best value and its near-winners, everywhere")
    res.rule("ties", "equal values, values of zero and a single algorithm are ranked")
    res.rule("mean", "the value ranked is the mean over all runs")
    names = metric_names(repo)
    if not names or not set(BEST) <= set(names):
        raise AnalysisBroken("the indicators yielded are %s" % (names,))
    n = 0
    for cmd, qual in COMMANDS.items():
        f = func(repo, qual)
        if f is None:
            res.unknown("winner", cmd, "%s is gone" % qual)
            continue
        where = "%s:%d" % (f[1].rel, f[2].lineno)
        for rs, p, m in itertools.product((0,) if cmd == "rank" else (0, 1, 2), PROBLEMS, sorted(BEST)):
            if tier != "thorough" and rs and (rs + sorted(BEST).index(m) + PROBLEMS.index(p)) % 6:
                continue
            for b in {"rank": (None,), "rank_details": BUDGETS[cmd], "table": (40,)}[cmd]:
                plan = (cmd, rs, p, m, b)
                tag = "%s of %s on %s%s%s" % (cmd, m, p, " at %s" % b if b else "", ", result set %d" % rs if cmd != "rank" else "")
                n += judge(repo, res, "winner", plan, names, f, where, tag, RankFlow, ALGOS)
        for cls, algos, what in ((ZeroFlow, ALGOS, "all values zero"), (RankFlow, ALGOS[:1], "one algorithm"), (RankFlow, ALGOS[1:], "two algorithms")):
            for m in ("igd", "hypervolume"):
                plan = (cmd, 0, PROBLEMS[0], m, {"rank": None, "rank_details": 500, "table": 40}[cmd])
                judge(repo, res, "ties", plan, names, f, where, "%s of %s, %s" % (cmd, m, what), cls, algos)
    res.floor("decision regions compared", n, 300)
    mean(repo, res)


def judge(repo, res, rule, plan, names, f, where, tag, cls, algos):
    fl = cls(repo)
    order = sorted(BEST)
    used = {plan[3], order[(order.index(plan[3]) + 1) % len(order)]}
    fl.plan, fl.metrics, fl.algos = plan, tuple(x for x in names if x not in BEST and x in ("cost", "epsilon", "ndr") or x in used), algos
    fl.used = used
    st = fl.start()
    args = st.new(Obj("dict", items=tuple((K(k), K(v)) for k, v in {"--bootstrap": "100", "--dir": "D", "-o": "P"}.items())))
    try:
        out = fl.run(f[1], f[2], [args], st=st)
        res.functions |= fl.functions
        err, n, unknown = compare(fl, out, plan, algos, cls is ZeroFlow)
    except (TooComplex, RecursionError) as e:
        res.unknown(rule, tag, str(e))
        return 0
    if err:
        res.bad(rule, tag, where, err)
    elif unknown:
        res.unknown(rule, tag, unknown)
    else:
        res.ok(rule, tag)
    return n


# ------------------------------------------------------------------ what is printed
def text(v):
    """a printed value with its unknown parts as ?"""
    if v[0] == "c":
        return str(v[2])
    if is_t(v, "str"):
        return "".join(x if isinstance(x, str) else "?" for x in v[2])
    return "?"


def printed(s, cmd):
    """{(result set, budget, metric): {algorithm: credits}} as printed, None when not recognised"""
    out, rs, lines = {}, -1, []
    for e in s.trace:
        if e[0] == "print":
            lines.extend(" ".join(text(a) for a in e[1]).split("\n"))
    if cmd == "rank":
        for l in lines:
            m = re.match(r"^(\w+) : (.*\(.*)$", l)
            if m:
                out[(0, None, m.group(1))] = pairs(m.group(2))
    elif cmd == "rank_details":
        for l in lines:
            if l.startswith("***"):
                rs += 1
            m = re.match(r"^(\d+) (\w+) : (.*\(.*)$", l)
            if m:
                out[(rs, int(m.group(1)), m.group(2))] = pairs(m.group(3))
    else:
        budget = None
        for l in lines:
            m = re.match(r"^(\d*)\s*& (\w+) (&.*)\\\\$", l)
            if m:
                budget = int(m.group(1)) if m.group(1) else budget
                for i, cell in enumerate(m.group(3).split("&")[1:]):
                    out[(i, budget, m.group(2))] = pairs(cell)
    return out


def pairs(t):
    return [(a, int(n)) for a, n in re.findall(r"([\w+]+) \((\d+)\)", t)]


# ------------------------------------------------------------------ what should be printed
def expected(fl, plan, point, rs, budget, m):
    """credits summed over the problems"""
    cmd = plan[0]
    total = {}
    for p in PROBLEMS:
        vals = []
        for a in fl.algos:
            b = budget if budget is not None else accepted(a)
            if fl.over(p, a, b):
                continue
            v = fl.score(rs, p, a, b, m)
            vals.append((a, point[a] if is_t(v, "score") else Fraction(v[2])))
        if not vals:
            continue
        best = (max if BEST[m] == "max" else min)(v for _, v in vals)
        win = [a for a, v in vals if v == best]
        near = [a for a, v in vals if v == best or best and min(v, best) >= (1 - TOLERANCE[m]) * max(v, best)]
        for choice in ([win[0]] if cmd == "rank_details" else [None]):
            if choice:
                total[choice] = total.get(choice, 0) + 1
            elif len(near) == 1:
                total[near[0]] = total.get(near[0], 0) + 2
            else:
                for a in near:
                    total[a] = total.get(a, 0) + 1
    return total


def agrees(cmd, got, want, tie):
    if len({a for a, _ in got}) != len(got):
        return False
    if cmd == "table":
        if any(want.get(a) != n for a, n in got) or len(got) != min(2, len(want)):
            return False
        return [n for _, n in got] == sorted(want.values(), reverse=True)[:len(got)]
    if tie:
        return sum(n for _, n in got) == sum(want.values())
    return dict(got) == want


def thresholds(facts, m):
    """ratios at which the code or the specification changes its mind; None when a condition is not one on the ratio of two scores"""
    c = 1 - TOLERANCE[m]
    out = {Fraction(1), c, 1 / c}
    for key in facts:
        terms = [(k, x) for k, x in key[2] if is_t(k, "score")]
        if len(terms) != len(key[2]) or abs(key[3]) > TINY or len(terms) != 2:
            return None
        r = -terms[0][1] / terms[1][1]
        if r > 0:
            out |= {r, 1 / r}
    return sorted(out)


def compare(fl, out, plan, algos, zero):
    cmd, rs, p, m, b = plan
    forms = set()
    for s, v in out:
        if is_raise(v):
            return "the command fails with %s %s" % (v[1], v[2:] and v[2] or ""), 0, None
        for k, f in s.facts.items():
            if k[0] == "sgn" and any(is_t(t, "score") for t, _ in k[1][2]):
                forms.add(k[1])
            elif k[0] == "t" and "'score'" in repr(k):
                return None, 0, "condition on the scores: %s" % show(k)[:80]
    ths, scales, vague = thresholds(forms, m), (Fraction(1),), None
    if ths is None:
        # conditions of another kind: points of several magnitudes can still refute, not confirm
        ths, scales, vague = thresholds((), m), (Fraction(1, 1000), Fraction(1), Fraction(1000)), "a condition on the scores is not one on the ratio of two of them"
    # merge thresholds that differ by rounding only
    merged = [ths[0]]
    for t in ths[1:]:
        if t - merged[-1] > TINY:
            merged.append(t)
    reps = [merged[0] / 2] + [(x + y) / 2 for x, y in zip(merged, merged[1:])] + [merged[-1] * 2]
    exact = [Fraction(1)]
    vals = sorted(set(reps + exact))
    n, bad = 0, None
    nobody = not any(x in text(a) for s, v in out for e in s.trace if e[0] == "print" for a in e[1] for x in fl.used)
    for scale, combo in itertools.product(scales, itertools.product(vals, repeat=len(algos) - 1)):
        pt = {a: scale * x for a, x in zip(algos, (Fraction(1),) + combo)}
        # every pair of scores away from the thresholds, or equal
        if any(0 < abs(pt[x] / pt[y] / t - 1) < Fraction(1, 10 ** 6) for x in algos for y in algos if x != y for t in merged):
            continue
        if any(pt[x] / pt[y] == t for x in algos for y in algos if x != y for t in merged if t != 1):
            continue
        paths = [s for s, v in out if holds(s, pt)]
        if not paths:
            return None, n, "no path for the scores %s" % show_point(pt)
        for s in paths:
            got = printed(s, cmd)
            for key in wanted_keys(fl, plan):
                want = expected(fl, plan, pt, *key)
                tie = key == (rs, b, m) and (zero or len(set(pt.values())) < len(pt))
                if zero:
                    want = expected(fl, plan, {a: Fraction(0) for a in algos}, *key)
                n += 1
                if not got and want:
                    if nobody:
                        return "it ranks nobody", n, None
                    return None, n, "no ranking is printed"
                if not agrees(cmd, got.get(key, []), want, tie and cmd == "rank_details"):
                    bad = bad or "for the %s%s scores %s it credits %s instead of %s" % (
                        key[2], " (budget %s)" % key[1] if key[1] else "", show_point(pt) if not zero else "0, 0, 0", show_credits(got.get(key, [])), show_credits(sorted(want.items())))
        if bad:
            break
    return bad, n, None if bad else vague


def wanted_keys(fl, plan):
    cmd = plan[0]
    if cmd == "rank":
        return [(0, None, m) for m in fl.used]
    budgets = BUDGETS[cmd] if cmd == "rank_details" else (40,)
    return [(rs, b, m) for rs in range(3) for b in budgets for m in fl.used if plan[:2] + (b, m) == (cmd, rs, plan[4], plan[3]) or rs == 2]


def holds(s, pt):
    for k, f in s.facts.items():
        if k[0] == "sgn" and any(is_t(t, "score") for t, _ in k[1][2]):
            v = k[1][3] + sum(x * pt[t[2]] for t, x in k[1][2])
            sign = "=" if abs(v) <= TINY else ">" if v > 0 else "<"
            if sign == "=" and k[1][3]:
                sign = ">" if k[1][3] > 0 else "<"
            if sign not in f:
                return False
    return True


def show_point(pt):
    return ", ".join("%s %.4f" % (a, float(v)) for a, v in pt.items())


def show_credits(l):
    return ", ".join("%s (%d)" % x for x in l) or "nobody"


# ------------------------------------------------------------------ the mean
def mean(repo, res):
    f = func(repo, "statistic.stats_bootstrap.yield_analysis")
    if f is None:
        res.unknown("mean", "yield_analysis", "it is gone")
        return
    where = "%s:%d" % (f[1].rel, f[2].lineno)

    class F(RunFlow):
        max_paths = 20000

        def ext_call(self, st, name, args, kw, n):
            if name.startswith("random."):
                return [(st, K(0))]
            if name.startswith("numpy."):
                return [(st, K(0.0) if K(25) in args else K(100.0))]
            if name == "math.sqrt":
                return [(st, T("sqrt", args[0]))]
            return super().ext_call(st, name, args, kw, n)

        def compare_hook(self, st, op, a, b, n):
            # all values lie between the fences, whatever they are
            for x, y, flip in ((a, b, False), (b, a, True)):
                if "'run'" in repr(x) and y[0] == "c" and op in ("Lt", "LtE", "Gt", "GtE"):
                    big = y[2] > 50
                    less = big != flip
                    return [(st, less if op in ("Lt", "LtE") else not less)]
            if "'run'" in repr(a) + repr(b) and op in ("Lt", "LtE", "Gt", "GtE"):
                return [(st, True)]
            return super().compare_hook(st, op, a, b, n)

        def sorted_hook(self, *a):
            return None
    fl = F(repo)
    st = fl.start()
    runs = tuple(T("run", i) for i in range(3))
    try:
        out = fl.run(f[1], f[2], [st.new(Obj("list", items=runs)), K(1)], st=st)
    except (TooComplex, RecursionError) as e:
        res.unknown("mean", "yield_analysis", str(e))
        return
    res.functions |= fl.functions
    want = mklin({r: Fraction(1, 3) for r in runs}, Fraction(0))
    got = set()
    for s, v in out:
        if is_raise(v):
            continue
        d = dict(fl.frozen(s, v)[2]) if is_t(fl.frozen(s, v), "dict") else {}
        b = d.get(K("btstrpd"))
        got.add(dict(b[2]).get(K("metrics")) if b is not None and is_t(b, "dict") else None)
    bad = [g for g in got if g is not None and not close(g, want)]
    if bad:
        res.bad("mean", "yield_analysis", where, "the value of three runs is %s and not their mean" % show(bad[0]))
    elif got and None not in got:
        res.ok("mean", "yield_analysis")
    else:
        res.unknown("mean", "yield_analysis", "the value is not understood")


def close(a, b):
    x, y = lin(a), lin(b)
    if x is None or y is None or set(x[0]) != set(y[0]):
        return False
    return abs(x[1] - y[1]) < TINY and all(abs(x[0][k] - y[0][k]) < TINY for k in x[0])
