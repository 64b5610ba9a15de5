"""C36: reference fronts are attainable and unbeaten."""
import heapq
import itertools
import math
import multiprocessing
import os
from concurrent.futures import ProcessPoolExecutor

from . import problems
from .c16 import line
from ..ranges import L, hi, is_num, lo

TECHNIQUE = "branch and bound with interval abstract interpretation of the objectives against the reference front of the module"
NOTE = ("Problems offered by run_config with two or three objectives. Tolerance 0.02 (thorough: 0.005) on values of order one. The position coordinates (as many as objectives less one) are split, "
        "the others keep their whole interval; where that leaves a doubt it is reported as undecided.")
EXPLANATION = ("For each point of a reference front the box of the problem is searched by splitting it: a point that lies outside the interval image of every piece is no attainable vector; "
               "a piece whose lower bounds are better than the point by more than the tolerance is narrowed until a vector is found that is certainly better, or none is left.")


class Tree:
    """pieces of the box, split in the position coordinates; images are computed once"""
    def __init__(self, p, k):
        self.p, self.k = p, k
        self.images = {}
        self.evals = 0

    def box(self, key):
        b = list(self.p.dims)
        for j, (lvl, idx) in enumerate(key):
            l, h = b[j]
            w = (h - l) / 2 ** lvl
            b[j] = (l + w * idx, h if idx + 1 == 2 ** lvl else l + w * (idx + 1))
        return b

    def image(self, key):
        v = self.images.get(key)
        if v is None:
            v = self.images[key] = self.evaluate(self.box(key))
        return v

    def evaluate(self, box):
        out = []
        for i in range(len(self.p.fits)):
            o = problems.evaluate(self.p, i, box)
            self.evals += 1
            if o.dead or o.undecided or not is_num(o.value) or isinstance(o.value, bool):
                return None
            out.append((lo(o.value), hi(o.value)))
        return out

    def root(self):
        return ((0, 0),) * self.k

    def split(self, key):
        j = min(range(self.k), key=lambda i: key[i][0])
        lvl, idx = key[j]
        return [key[:j] + ((lvl + 1, 2 * idx + t),) + key[j + 1:] for t in (0, 1)]


def depth(key):
    return sum(l for l, _ in key)


def attainable(t, pt, limit, tol):
    """False if no piece of depth limit has pt in its image; None if an image is unknown"""
    stack = [t.root()]
    while stack:
        key = stack.pop()
        im = t.image(key)
        if im is None:
            return None
        if not all(a - tol <= x <= b + tol for x, (a, b) in zip(pt, im)):
            continue
        if depth(key) >= limit:
            return True
        stack.extend(t.split(key))
    return False


def better(t, pt, limit, tol, budget):
    """-> ('no', None) no vector is better by tol; ('yes', (box, image)) a vector that certainly is; ('open', None)"""
    def margin(key):
        im = t.image(key)
        return None if im is None else min(x - a for x, (a, b) in zip(pt, im))
    m = margin(t.root())
    if m is None:
        return "open", None
    heap, tries = [(-m, t.root())], 0
    start = t.evals
    while heap:
        m, key = heapq.heappop(heap)
        if -m <= tol:
            return "no", None
        if t.evals - start > budget:
            return "open", None
        if depth(key) >= limit:
            if tries < 2:
                tries += 1
                w = witness(t, key, pt, tol)
                if w:
                    return "yes", w
            return "open", None
        for c in t.split(key):
            m = margin(c)
            if m is None:
                return "open", None
            heapq.heappush(heap, (-m, c))
    return "no", None


def witness(t, key, pt, tol):
    """narrow the piece to a point by halving each coordinate towards the smaller lower bounds"""
    box = t.box(key)
    for j in range(t.k):
        m = (box[j][0] + box[j][1]) / 2
        box[j] = (m, m)
    for j in range(t.k, len(box)):
        for _ in range(14):
            l, h = box[j]
            m = (l + h) / 2
            best = None
            for half in ((l, m), (m, h)):
                im = t.evaluate(box[:j] + [half] + box[j + 1:])
                if im is None:
                    return None
                c = -min(x - a for x, (a, b) in zip(pt, im)), sum(a for a, b in im), sum(b for a, b in im)
                if best is None or c < best[0]:
                    best = (c, half)
            box[j] = best[1]
        m = (box[j][0] + box[j][1]) / 2
        box[j] = (m, m)
    im = t.evaluate(box)
    if im is not None and all(b < x - tol / 2 for x, (a, b) in zip(pt, im)):
        return box, im
    return None


def one(args):
    p, tier = args
    out = []
    k = len(p.fits)
    t = Tree(p, k - 1)
    deep = tier == "thorough"
    tol = 0.005 if deep else 0.02
    near = {2: 14 if deep else 10, 3: 16 if deep else 13}[k]
    limit = {2: 26, 3: 16 if deep else 13}[k]
    rows = [tuple(x.items) for x in p.env["pareto_front"].items]
    where = line(p, "pareto_front")
    off, unsure = [], []
    for r in rows:
        v = attainable(t, r, near, 1e-6)
        if v is False:
            off.append(r)
        elif v is None:
            unsure.append(r)
    if off:
        out.append(("bad", "attained", p.name, where, "no vector of the box attains the point %s of the reference front (%d of its %d points)" % (text(off[0]), len(off), len(rows))))
    elif unsure:
        out.append(("unknown", "attained", p.name, "values of an objective"))
    else:
        out.append(("ok", "attained", p.name))
    n = len(rows)
    some = rows if deep else sorted({rows[int(i * (n - 1) / 19)] for i in range(20)} if n > 20 else set(rows))
    state = "ok"
    for r in some:
        v, w = better(t, r, limit, tol, 60000 if deep else 3000)
        if v == "yes":
            box, im = w
            out.append(("bad", "unbeaten", p.name, where, "the point %s of the reference front is beaten by the objectives %s of the vector %s" % (text(r), text([b for a, b in im]), text([a for a, b in box]))))
            state = None
            break
        if v == "open":
            state = r
            break
    if state == "ok":
        out.append(("ok", "unbeaten", p.name))
    elif state:
        out.append(("unknown", "unbeaten", p.name, "whether some vector is better than %s by %s" % (text(state), tol)))
    return out, t.evals, p.r.functions


def text(r):
    return "(%s)" % ", ".join("%.4g" % x for x in r[:8]) + (" ..." if len(r) > 8 else "")


_PS = []


def _job(i):
    return one((_PS[i][0], _PS[i][1]))


def run(repo, res, tier):
    res.rule("attained", "every point of a reference front lies in the image of the box")
    res.rule("unbeaten", "no vector of the box has objectives all better than a point of the reference front by more than the tolerance")
    offered = problems.offered_names(repo)
    if offered is None:
        res.unknown("attained", "run_config.problems", "the list of problems")
        offered = []
    n = 0
    del _PS[:]
    for p in problems.load(repo):
        if p.name not in offered:
            continue
        front = None if p.env is None else p.env.get("pareto_front")
        if p.failed or p.problem or p.dims is None or not 2 <= len(p.fits) <= 3 or not isinstance(front, L) or len(p.dims) < len(p.fits) or not front.items \
                or not all(isinstance(x, L) and len(x.items) == len(p.fits) and all(is_num(y) and not hasattr(y, "lo") for y in x.items) for x in front.items):
            res.unknown("attained", p.name, p.problem or "the definition is not understood")
            continue
        _PS.append((p, tier))
        n += 1
    evals = 0
    with ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context("fork")) as ex:
        for out, k, fns in ex.map(_job, range(len(_PS))):
            evals += k
            res.functions |= fns
            for x in out:
                getattr(res, x[0])(*x[1:])
    res.extra["abstract_evaluations"] = evals
    res.floor("problems", n, 12)
