"""Filters, layer sorts and archives interpreted over all order types of a few members."""
import itertools

from ..flow import K, T, TUP, is_raise, TooComplex, show, is_t, INF
from ..orderflow import OrderFlow, weak_orders, dom, layers, describe, make_driver, call_method, val


class Skip(Exception):
    pass


def func(repo, mod, name):
    m = repo.modules.get(mod)
    r = repo.resolve_global(m, name) if m else None
    if r is None or r[0] != "func":
        raise Skip("%s.%s is not defined as a function" % (mod, name))
    repo.consulted.add(r[1].name)
    return r[1], r[2]


def one(results, what):
    if len(results) != 1:
        raise Skip("%s: %d outcomes" % (what, len(results)))
    s, v = results[0]
    if v is not None and is_raise(v):
        raise Skip("%s: raises %s" % (what, v[1:]))
    return s, v


def objvec(fl, m):
    return TUP(tuple(val(c, r[m]) for c, r in enumerate(fl.ranks)))


def ident(fl, st, v, depth=0):
    """the member a value stands for"""
    if depth > 3:
        return None
    m = fl.member_of(st, v)
    if m is not None:
        return m
    if v[0] == "o":
        o = st.heap[v[1]]
        parts = list(o.fields.values()) + [x for _, x in o.items] if o.kind == "dict" else list(o.fields.values()) if o.kind == "inst" else []
        found = {ident(fl, st, x, depth + 1) for x in parts if x[0] in ("o", "tup")} - {None}
        if len(found) == 1:
            return found.pop()
    return None


def members(fl, st, v):
    items = fl.exact(st, v)
    if items is None:
        raise Skip("collection unknown: %s" % show(v))
    out = [ident(fl, st, x) for x in items]
    if any(x is None for x in out):
        raise Skip("members unknown")
    return out


def vectors_of(fl, st, v):
    items = fl.exact(st, v)
    if items is None:
        raise Skip("collection unknown: %s" % show(v))
    out = []
    for x in items:
        t = fl.exact(st, x)
        if t is None:
            raise Skip("element unknown")
        out.append(tuple(t))
    return out


# --------------------------------------------------------------- subjects
# each: f(fl, st, n members) -> error text or None
def filter_subject(mod, name, exact):
    def f(fl, st, n):
        m, fn = func(fl.repo, mod, name)
        vecs = [objvec(fl, i) for i in range(n)]
        s, r = one(fl.run(m, fn, [fl.lst(st, vecs)], st=st), name)
        got = vectors_of(fl, s, r)
        keep = [i for i in range(n) if not any(dom(fl.ranks, j, i) for j in range(n))]
        want = [tuple(fl.exact(s, vecs[i])) for i in keep]
        a, b = (sorted(got, key=repr), sorted(want, key=repr)) if exact else (sorted(set(got), key=repr), sorted(set(want), key=repr))
        if a == b:
            return None
        lost = [w for w in b if w not in a]
        extra = [w for w in a if w not in b]
        if lost:
            return "drops a member no other member dominates"
        if extra:
            return "keeps a member that another member dominates"
        return "repeats or loses one of several equal members"
    return f


def layer_error(got, fl, n):
    """got: list of lists of members"""
    want = layers(fl.ranks, range(n))
    flat = [x for l in got for x in l]
    if sorted(flat) != list(range(n)):
        miss = [x for x in range(n) if x not in flat]
        return "an individual is lost (%s)" % miss if miss else "an individual appears twice"
    if [sorted(l) for l in got if l] != [sorted(l) for l in want]:
        return "layers are %s, by dominance they are %s" % ([sorted(l) for l in got if l], [sorted(l) for l in want])
    return None


def paretofront(fl, st, n):
    m, fn = func(fl.repo, "evotools.ea_utils", "paretofront_layers")
    inds = [fl.vector(st, i) for i in range(n)]
    fit = ("bi", "__fit__")
    s, r = one(fl.run(m, fn, [fl.lst(st, inds), fit], st=st), "paretofront_layers")
    outer = fl.exact(s, r)
    if outer is None:
        raise Skip("result unknown")
    return layer_error([members(fl, s, x) for x in outer], fl, n)


def front_dict(fl, s, v):
    if v[0] == "o" and s.heap[v[1]].kind == "dict" and s.heap[v[1]].base is None:
        its = [(k[2], x) for k, x in s.heap[v[1]].items if k[0] == "c"]
        return [members(fl, s, x) for k, x in sorted(its, key=lambda p: p[0])]
    if v[0] == "o" and s.heap[v[1]].kind == "list":
        return [members(fl, s, x) for x in fl.exact(s, v)]
    raise Skip("fronts unknown: %s" % show(v))


def driver_sort(qual, calc, sort, attr="front"):
    def f(fl, st, n):
        if qual not in fl.repo.classes:
            raise Skip("no class %s" % qual)
        s, d = one(make_driver(fl, st, qual, [fl.vector(st, i) for i in range(n)], len(fl.ranks)), "constructor")
        s, inds = one(fl.getattr(s, d, "individuals", None), "individuals")
        if calc is not None:
            s, c = one(fl.getattr(s, d, calc, None), calc)
            fn = fl.fnkeys[c[1][1]][1] if c[0] == "bm" and c[1][0] == "fn" else None
            s, _ = one(fl.call(s, c, [inds] if fn is not None and len(fn.args.args) > 1 else [], {}, fn), calc)
        s, _ = one(call_method(fl, s, d, sort, []), sort)
        s, fr = one(fl.getattr(s, d, attr, None), attr)
        return layer_error(front_dict(fl, s, fr), fl, n)
    return f


def sms_sort(fl, st, n):
    m, fn = func(fl.repo, "algorithms.SMSEMOA.SMSEMOA", "nd_sort")
    q = "algorithms.SMSEMOA.SMSEMOA.Individual"
    s, inds = evaluated(fl, st, q, n)
    s, r = one(fl.run(m, fn, [fl.lst(s, inds)], st=s), "nd_sort")
    return layer_error(front_dict(fl, s, r), fl, n)


def evaluated(fl, st, q, n):
    """individuals of a class with their objectives list set"""
    if q not in fl.repo.classes:
        raise Skip("no class %s" % q)
    inds, s = [], st
    for i in range(n):
        s, x = one(fl.instantiate(s, q, [fl.vector(s, i)], {}, fl.repo.classes[q].node), q)
        s.w(x[1]).fields["objectives"] = fl.lst(s, fl.exact(s, objvec(fl, i)))
        inds.append(x)
    return s, inds


def theta_sort(fl, st, n):
    """one reference cluster; scalarised fitness is component 0: layers by strictly smaller fitness"""
    m, fn = func(fl.repo, "algorithms.NSGAIII.NSGAIII", "theta_non_dominated_sort")
    q = "algorithms.NSGAIII.NSGAIII.Individual"
    if q not in fl.repo.classes:
        raise Skip("no class %s" % q)
    inds, s = [], st
    r0, cl = fl.ranks[0], fl.ranks[1]
    for i in range(n):
        s, x = one(fl.instantiate(s, q, [fl.vector(s, i)], {}, fn), q)
        w = s.w(x[1])
        w.fields["cluster"], w.fields["theta_fitness"] = K(cl[i]), val(0, r0[i])
        inds.append(x)
    s, r = one(fl.run(m, fn, [fl.lst(s, inds)], st=s), "theta_non_dominated_sort")
    got = front_dict(fl, s, r)
    left, want = list(range(n)), []
    while left:
        f = [x for x in left if not any(cl[y] == cl[x] and r0[y] < r0[x] for y in left)]
        want.append(f)
        left = [x for x in left if x not in f]
    flat = [x for l in got for x in l]
    if sorted(flat) != list(range(n)):
        return "an individual is lost or repeated: %s" % got
    if [sorted(l) for l in got if l] != want:
        return "layers are %s, by theta-dominance they are %s" % (got, want)


def archive_subject(q, add, arg):
    """members arrive one after another; add(fl, st, archive, x) -> (st, stored?)"""
    def f(fl, st, n):
        s, inds = evaluated(fl, st, "algorithms.OMOPSO.OMOPSO.Individual", n)
        if q not in fl.repo.classes:
            raise Skip("no class %s" % q)
        s, a = one(fl.instantiate(s, q, arg(n), {}, fl.repo.classes[q].node), q)
        have = []
        for i, x in enumerate(inds):
            s, r = one(call_method(fl, s, a, "add", [x]), "add")
            got = [ident(fl, s, y) for y in content(fl, s, a)]
            err = archive_step(fl, have, i, got, True)
            if err:
                return err
            if r[0] == "c" and isinstance(r[2], bool) and r[2] != (i in got):
                return "add answers %r but the candidate is %sin the archive" % (r[2], "" if i in got else "not ")
            have = got
        return None
    return f


def content(fl, s, a):
    r = fl.items_of(s, a, None)
    if len(r) != 1 or isinstance(r[0][1], tuple):
        raise Skip("archive cannot be iterated")
    return list(r[0][1])


def archive_step(fl, have, cand, got, ties_may_drop):
    if any(x is None for x in got):
        raise Skip("archive members unknown")
    if len(set(got)) != len(got):
        return "a member is stored twice"
    doms = [x for x in have if dom(fl.ranks, x, cand)]
    beaten = [x for x in have if dom(fl.ranks, cand, x)]
    equal = [x for x in have if all(r[x] == r[cand] for r in fl.ranks)]
    if cand in got and doms:
        return "a candidate dominated by a member is stored"
    if cand not in got and not doms and not (equal and ties_may_drop):
        return "a candidate that no member dominates is not stored"
    if not doms and [x for x in beaten if x in got]:
        return "a member dominated by the new candidate stays in the archive"
    lost = [x for x in have if x not in got and x not in beaten]
    if lost:
        return "a member that the candidate does not dominate is thrown out"
    return None


def bogo(fl, st, n):
    q = "algorithms.BOGO.BOGO.BOGO"
    if q not in fl.repo.classes:
        raise Skip("no class")
    s, d = one(make_driver(fl, st, q, [fl.vector(st, 0)], len(fl.ranks)), "constructor")
    have = [0]
    iq = "algorithms.BOGO.BOGO.Individual"
    for i in range(1, n):
        s, x = one(fl.instantiate(s, iq, [fl.vector(s, i), fl.lst(s, [T("objf", c) for c in range(len(fl.ranks))])], {}, None), iq)
        s, _ = one(call_method(fl, s, d, "refresh_archive", [x]), "refresh_archive")
        s, a = one(fl.getattr(s, d, "archive", None), "archive")
        got = members(fl, s, a)
        err = archive_step(fl, have, i, got, False)
        if err:
            return err
        have = got


def spea_raw(fl, st, n):
    """SPEA2's raw fitness is zero exactly for the members nobody dominates"""
    q = "algorithms.SPEA2.SPEA2.SPEA2"
    if q not in fl.repo.classes:
        raise Skip("no class")
    s, d = one(make_driver(fl, st, q, [fl.vector(st, i) for i in range(n)], len(fl.ranks)), "constructor")
    s, inds = one(fl.getattr(s, d, "individuals", None), "individuals")
    s, _ = one(call_method(fl, s, d, "calculate_objectives", [inds]), "calculate_objectives")
    s, _ = one(call_method(fl, s, d, "calculate_dominated", [inds]), "calculate_dominated")
    for x in fl.exact(s, inds):
        i = ident(fl, s, x)
        s, v = one(call_method(fl, s, d, "calculate_raw_fitness", [x, inds]), "calculate_raw_fitness")
        if v[0] != "c":
            raise Skip("raw fitness unknown: %s" % show(v))
        want = sum(sum(1 for z in range(n) if dom(fl.ranks, y, z)) for y in range(n) if dom(fl.ranks, y, i))
        if (v[2] == 0) != (want == 0):
            return "raw fitness of a member that is %sdominated is %s" % ("" if want else "not ", v[2])
    return None


def zdt3(fl, st, n):
    return filter_subject("problems.ZDT3.problem", "trim_dominated", True)(fl, st, n)


class FrontFlow(OrderFlow):
    def call_hook(self, st, fv, args, kw, n):
        if fv == ("bi", "__fit__"):
            m = self.member_of(st, args[0])
            if m is None:
                raise Skip("unknown member")
            return [(st, objvec(self, m))]
        return super().call_hook(st, fv, args, kw, n)


OM = "algorithms.OMOPSO.OMOPSO."
SUBJECTS = [
    ("metrics.metrics_utils.filter_not_dominated", "filter", filter_subject("metrics.metrics_utils", "filter_not_dominated", True)),
    ("metrics.metrics.filter_not_dominated", "filter", filter_subject("metrics.metrics", "filter_not_dominated", True)),
    ("metrics.metrics_utils.filter_not_dominated2", "filter", filter_subject("metrics.metrics_utils", "filter_not_dominated2", False)),
    ("problems.ZDT3.problem.trim_dominated", "filter", zdt3),
    ("evotools.ea_utils.paretofront_layers", "layers", paretofront),
    ("algorithms.NSGAII.NSGAII.NSGAII._nd_sort", "layers", driver_sort("algorithms.NSGAII.NSGAII.NSGAII", "_calculate_objectives", "_nd_sort")),
    ("algorithms.NSLS.NSLS.NSLS.nd_sort", "layers", driver_sort("algorithms.NSLS.NSLS.NSLS", "calculate_objectives", "nd_sort")),
    ("algorithms.SMSEMOA.SMSEMOA.nd_sort", "layers", sms_sort),
    ("algorithms.NSGAIII.NSGAIII.theta_non_dominated_sort", "layers", theta_sort),
    (OM + "Archive.add", "archive", archive_subject(OM + "Archive", "add", lambda n: [])),
    (OM + "LeaderArchive.add", "archive", archive_subject(OM + "LeaderArchive", "add", lambda n: [K(n)])),
    ("algorithms.BOGO.BOGO.BOGO.refresh_archive", "archive", bogo),
    ("algorithms.SPEA2.SPEA2.SPEA2.calculate_raw_fitness", "rawfitness", spea_raw),
]

RULES = {
    "filter": "the filter returns exactly the members no other member dominates, for every order type",
    "layers": "the sort puts every individual into exactly one layer, the layer its dominators determine",
    "archive": "after every insertion the archive holds what dominance dictates, for every order type and order of arrival",
    "rawfitness": "strength fitness is zero exactly for individuals nobody dominates",
}


def run(repo, res, tier, rules=None, subjects=SUBJECTS, sizes=None):
    sizes = sizes or ([1, 2, 3] + ([4] if tier == "thorough" else []))
    n_ok = 0
    for name, rule, subj in subjects:
        if rules and rule not in rules:
            continue
        res.rule(rule, RULES[rule])
        fl = FrontFlow(repo)
        wrong = why = None
        count = 0
        for n in sizes:
            for ranks in itertools.product(weak_orders(n), repeat=2):
                fl.ranks = ranks
                fl.nrank = max(n, 1)
                fl.steps = 0
                fl.frames = []
                try:
                    err = subj(fl, fl.rank_state(2, max(n, 1)), n)
                except (Skip, TooComplex) as e:
                    why = why or str(e)
                    break
                count += 1
                if err:
                    wrong = wrong or "%s [members %s]" % (err, describe(ranks, range(n)))
                    break
            if wrong or why:
                break
        res.functions |= fl.functions
        res.extra.setdefault("order_types", {})[name] = count
        if wrong:
            m, fn = locate(repo, name)
            res.bad(rule, name, "%s:%s" % (m.rel, fn.lineno if fn is not None else "?") if m else "?", wrong)
        elif why:
            res.unknown(rule, name, why)
        else:
            res.ok(rule, name)
        n_ok += count > 0
    return n_ok


def locate(repo, dotted):
    parts = dotted.split(" ")[0].split(".")
    for k in range(len(parts) - 1, 0, -1):
        m = repo.modules.get(".".join(parts[:k]))
        if m:
            for mm, ci, fn, q in repo.functions(m.name):
                if q == dotted.split(" ")[0]:
                    return m, fn
            return m, None
    return None, None


def sorts(repo, res, tier, want=None):
    pass
