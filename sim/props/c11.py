"""C11 Early stopping decisions depend only on the evaluations recorded so far."""
import copy as copy_
import os
import pickle

import numpy as np

from sim import results, seam, spies, world
from sim.core import Violation, rng_for
from sim.results import canon
from sim.world import freeze, plain, random_point

RUNS = dict(quick=5800, thorough=60000)
RULE = ("one case per seeded history judged by shared stopper objects at every prefix, in interleaved runs, through "
        "crash and resume (with and without a checkpoint file) and against an uninterrupted run; distinct event logs "
        "among those with a decision to stop and one to go on")
COVER = "distinct (stopper and parameters class, driver, crash points, decision taken at, sharing)"
REAL = ["DeltaXStopper, DeltaYStopper, HollowIterationsStopper, ThresholdStopper", "dummy/base minimisers",
        "skopt.Optimizer, results, dump/load in resumed runs", "Space.distance"]
STUB = ["objective (scripted values)", "surrogate (recording regressor)", "crash of the run (exception, new objects)"]
SHRINK_LISTS = ["ys", "crashes", "stoppers", "inter"]


def generate(rng, tier, i):
    space = world.gen_space(rng)
    driver = rng.choice(["direct", "direct", "dummy", "base"])
    n = rng.choice([2, 4, 6, 9, 14, 14] + ([40, 80] if driver != "base" and rng.random() < .5 else []))
    mode = rng.choice(["ties", "fine", "down", "mixed", "early", "late"])
    mark = [rng.randrange(n) for _ in range(3)]
    if mode == "early":
        mark = [rng.randrange(min(n, 6)) for _ in range(6)]
    ys = []
    for k in range(n):
        if mode == "ties":
            ys.append(float(rng.randrange(3)))
        elif mode == "down":
            ys.append(8.0 - k * rng.choice([0, 0.25, 0.5]))
        elif mode == "fine":
            ys.append(rng.randrange(-512, 512) / 256.0)
        elif mode in ("early", "late"):
            ys.append(rng.choice([0.0, 0.125, 0.25]) if k in mark else 4.0 * (k + 1))
        else:
            ys.append(rng.choice([0.0, -1.0, 1.5, 1e6, -1e6, 2.0, 2.0 + 2 ** -20]))
    st = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        k = rng.choice(["dx", "dy", "hollow", "threshold"])
        if k == "dx":
            st.append([k, rng.choice([0.0, 1e-9, 0.25, 0.5, 1, 3, 1000]), rng.randrange(8)])
        elif k == "dy":
            st.append([k, rng.choice([0.0, 0.25, 0.5, 1.0, 1e7]), rng.choice([None, 1, 2, 3, 5])])
        elif k == "hollow":
            st.append([k, rng.choice([1, 2, 3, 5]), rng.choice([None, 0, 0.25, 0.5, -0.5, 1e7])])
        else:
            st.append([k, rng.choice([0.0, -1.0, 1.5, -2e6, 0.5, 1, rng.randrange(16)]), rng.randrange(2)])
    return dict(space=space, ys=ys, stoppers=st, edge=rng.choice([0, 0, 1]), driver=driver,
                repeat=rng.choice([0.0, 0.3, 0.7]), crashes=sorted(rng.randrange(1, n + 1) for _ in range(rng.choice([0, 1, 1, 2, 3]))),
                file=int(rng.random() < 0.3), reuse=rng.choice(["same", "new", "pickle", "copy"]),
                inter=[rng.randrange(2) for _ in range(rng.choice([0, 6, 12]))], vt=rng.choice(["float", "np", "int", "float32"]),
                rs=rng.randrange(1000), seed=rng.randrange(10 ** 6), ambient=rng.randrange(1, 10 ** 6))


def simplify(scn):
    from sim.loop import simplify_space
    yield from simplify_space(scn)
    for k, v in (("driver", "direct"), ("repeat", 0.0), ("file", 0), ("reuse", "same"), ("vt", "float"), ("edge", 0)):
        if scn[k] != v:
            s = copy_.deepcopy(scn)
            s[k] = v
            yield s


# ------------------------------------------------------------------ the documented rules
def distance(a, b, space):
    d = 0.0
    for u, v, e in zip(a, b, space):
        if e["t"] == "cat":
            u, v = plain(u), plain(v)
            d += 0 if (isinstance(u, str) == isinstance(v, str) and (u is None) == (v is None) and u == v) else 1
        else:
            d += abs(float(u) - float(v))
    return d


def rule(st, X, Y, space):
    """True: stop; False: go on; None: either kind of no-stop."""
    k, a, b = st
    if k == "dx":
        return distance(X[-1], X[-2], space) < a if len(X) >= 2 else None
    if k == "dy":
        n = 5 if b is None else b
        return sorted(Y)[n - 1] - min(Y) < a if len(Y) >= n else None
    if k == "hollow":
        t = abs(0 if b is None else b)
        return min(Y[:len(Y) - a]) - min(Y) <= t if len(Y) > a else None
    return any(y <= a for y in Y)


def near_tie(st, X, Y, space):
    """Rounding could decide (only distances are not exact)."""
    return st[0] == "dx" and len(X) >= 2 and 0 < abs(distance(X[-1], X[-2], space) - st[1]) < 1e-9 * max(1.0, st[1])


def build(st):
    from skopt.callbacks import DeltaXStopper, DeltaYStopper, HollowIterationsStopper, ThresholdStopper
    k, a, b = st
    if k == "dx":
        return DeltaXStopper(a)
    if k == "dy":
        return DeltaYStopper(a) if b is None else DeltaYStopper(a, n_best=b)
    if k == "hollow":
        return HollowIterationsStopper(a) if b is None else HollowIterationsStopper(a, b)
    return ThresholdStopper(a)


def fingerprint(res):
    f = freeze(res)
    f["keys"] = sorted(res.keys())
    f["vals"] = canon(np.asarray(res.func_vals))
    return f


class Judge:
    def __init__(self, ctx, scn, stoppers):
        self.ctx, self.scn, self.st, self.obj = ctx, scn, stoppers, None
        self.yes = self.no = 0
        self.log = []

    def ask(self, j, res, what):
        """One decision of stopper j about a result; -> truth value."""
        ctx, st = self.ctx, self.st[j]
        X, Y = [list(x) for x in res.x_iters], [float(v) for v in res.func_vals]
        before = fingerprint(res)
        d = ctx.sut("stopper", self.obj[j], res)
        ctx.check(fingerprint(res) == before, "changed-result:" + st[0], "the stopper changed the result it was given")
        want = rule(st, X, Y, self.scn["space"])
        if near_tie(st, X, Y, self.scn["space"]):
            ctx.count("near_ties")
        else:
            ctx.check(bool(d) == bool(want), "decision:" + st[0], lambda: "%s: %r decided %r, the rule says %r on values %r%s" % (
                what, st, d, want, Y, " points %r" % X[-2:] if st[0] == "dx" else ""))
            if want is None:
                ctx.check(d is None or not d, "decision:" + st[0], "decided %r on a history that is too short" % (d,))
        self.yes += bool(d)
        self.no += not d
        self.log.append([j, len(X), bool(d)])
        ctx.ev(what, j, len(X), bool(d))
        return bool(d)


def run(ctx, scn):
    import skopt
    from skopt.optimizer import base_minimize
    spies.reset()
    if not scn["ys"] or not scn["stoppers"]:
        return
    r = rng_for("c11", scn["seed"])
    space, ys = scn["space"], scn["ys"]
    conv = {"float": float, "np": np.float64, "int": lambda v: int(v) if v == int(v) else v, "float32": lambda v: np.float32(v)
            if all(abs(w) < 1e4 and w * 256 == int(w * 256) for w in ys) else v}[scn["vt"]]
    pts = []
    for k in range(len(ys)):
        if pts and r.random() < scn["repeat"]:
            p = list(pts[-1])
            d = r.randrange(len(p))
            if r.random() < .5:
                p[d] = random_point(r, space)[d]
            pts.append(p)
        else:
            pts.append(random_point(r, space))
    st = [list(s) for s in scn["stoppers"]]
    if scn["edge"]:       # exactly at the edge
        for s in st:
            if s[0] == "dx" and len(pts) > 1:
                j = 1 + s[2] % (len(pts) - 1)
                d = distance(pts[j], pts[j - 1], space)
                s[1] = d
            elif s[0] == "dy":
                n = 5 if s[2] is None else s[2]
                if len(ys) >= n:
                    s[1] = sorted(ys)[n - 1] - min(ys)
            elif s[0] == "threshold":
                s[1] = ys[int(abs(s[1])) % len(ys)]
    for s in st:
        if s[0] == "threshold" and float(np.float32(s[1])) != s[1] and scn["vt"] == "float32":
            s[1] = 0.5
    J = Judge(ctx, scn, st)
    J.obj = [build(s) for s in st]
    # a history judged at every prefix by the same objects, several times, and in any order of results
    opt = ctx.sut("Optimizer", skopt.Optimizer, world.build_space(space), "dummy", n_initial_points=3, random_state=scn["rs"],
                  acq_optimizer="sampling")
    res = []
    first = {}
    for k, (x, y) in enumerate(zip(pts, ys)):
        q = ctx.sut("tell", opt.tell, list(x), conv(y))
        res.append(q)
        for j in range(len(st)):
            d = J.ask(j, q, "step")
            if d:
                first.setdefault(j, k + 1)
    for _ in range(4):
        j, k = r.randrange(len(st)), r.randrange(len(res))
        J.ask(j, res[k], "again")
        ctx.fault("repeated_call")
    # another run shares the stopper objects
    opt2 = ctx.sut("Optimizer", skopt.Optimizer, world.build_space(space), "dummy", n_initial_points=3, random_state=1,
                   acq_optimizer="sampling")
    pos = [0, 0]
    for w in scn["inter"]:
        if pos[w] >= len(ys):
            continue
        k = pos[w]
        pos[w] += 1
        if w == 0:
            q = res[k]
        else:
            q = ctx.sut("tell", opt2.tell, list(pts[-1 - k]), conv(ys[-1 - k]))
        for j in range(len(st)):
            J.ask(j, q, "shared-%d" % w)
        ctx.fault("shared_stopper")
    if scn["driver"] != "direct":
        minimise(ctx, scn, J, st, ys, conv, pts, space, r)
    ctx.cover.add("%s|%s|%d|%s|%d|%s" % ("+".join(s[0] for s in st), scn["driver"], len(scn["crashes"]), scn["reuse"], scn["file"],
                                         sorted(first.values())[:1]))
    if J.yes and J.no:
        ctx.count("nontrivial")


class Died(BaseException):
    pass


def minimise(ctx, scn, J, st, ys, conv, pts, space, r):
    """A run with all stoppers, uninterrupted and interrupted, on the same sequence of values."""
    import skopt
    from skopt import dump, load
    from skopt.callbacks import CheckpointSaver
    from skopt.optimizer import base_minimize
    n = len(ys)
    x0 = [list(p) for p in pts[:1]]

    def play(crashes, J):
        """-> number of evaluations at the end.  Values are by evaluation number."""
        done_x, done_y = [], []
        crashes = list(crashes)
        gen = 0
        while True:
            crash = crashes.pop(0) if crashes else None
            got = []
            last = [None]
            path = os.path.join(ctx.scratch, "cp.pkl")

            def f(x):
                k = len(done_x) + len(got)
                if crash is not None and k >= crash:
                    raise Died()
                if k >= n:
                    raise Violation("ran-on", "evaluation %d of %d" % (k + 1, n))
                got.append(list(x))
                return conv(ys[k])

            def check(res):
                last[0] = freeze(res)
                if scn["file"]:
                    c = type(res)(res)
                    c["specs"] = None        # refers to these local functions
                    dump(c, path)
                return any([J.ask(j, res, "run") for j in range(len(st))])
            kw = dict(random_state=scn["rs"] + gen, callback=[check])
            calls = n - len(done_x)
            if done_x:
                kw.update(x0=[list(x) for x in done_x], y0=list(done_y))
            dims = world.build_space(space)
            try:
                if scn["driver"] == "dummy":
                    res = skopt.dummy_minimize(f, dims, n_calls=calls, **kw)
                else:
                    if not done_x:
                        kw["n_initial_points"] = 1
                    else:
                        kw["n_initial_points"] = 0
                    res = base_minimize(f, dims, spies.SpyRegressor(seed=1), acq_func="LCB", acq_optimizer="sampling", n_points=20,
                                        n_calls=calls, **kw)
                return len(res.x_iters), [float(v) for v in res.func_vals]
            except Died:
                ctx.fault("crash_and_resume")
                if last[0] is not None:
                    if scn["file"]:
                        q = load(path)
                        done_x, done_y = [list(x) for x in q.x_iters], list(q.func_vals)
                    else:
                        done_x, done_y = [list(x) for x in last[0]["x_iters"]], [conv(v) for v in last[0]["func_vals"]]
                gen += 1
                if scn["reuse"] == "new":
                    J.obj = [build(s) for s in st]
                elif scn["reuse"] == "pickle":
                    J.obj = [pickle.loads(pickle.dumps(o)) for o in J.obj]
                elif scn["reuse"] == "copy":
                    J.obj = [copy_.deepcopy(o) for o in J.obj]
    whole = play([], J)
    want = None
    for k in range(1, n + 1):
        if any(bool(rule(s, [], ys[:k], space)) for s in st if s[0] != "dx"):
            want = k
            break
    if all(s[0] != "dx" for s in st):
        ctx.check(whole[0] == (want or n), "stopped-at", lambda: "stopped after %d evaluations, the rules say %r of %d" % (
            whole[0], want, n))
        parts = play(scn["crashes"], J)
        ctx.check(parts == whole, "resumed-differs", lambda: "resumed run ended with %d evaluations, the uninterrupted with %d" % (
            parts[0], whole[0]))
    else:
        play(scn["crashes"], J)
    ctx.ev("whole", whole)
