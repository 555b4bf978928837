"""Shared vocabulary: search spaces, optimizers, objectives and ask/tell histories as JSON."""
import math

import numpy as np

from . import spies
from .core import Violation
from .spies import norm, unit

# ------------------------------------------------------------------ search spaces
MIXED = [1, "a", None, 2.5]
CATS = [["a", "b", "c"], ["on", "off"], [1, 2, 5], [0.25, 0.5, 4.0], MIXED, [True, False], ["solo"],
        ["n1", "n2", "n3", "n4", "n5", "n6"], [1, "x"]]


def gen_dim(rng, kinds="rRliLIc", transforms=True, dtypes=True):
    k = rng.choice(kinds)
    d = {}
    if k == "r":
        lo = rng.choice([0.0, -1.0, -5.0, 2.5, 1e-3, -1000.25])
        d = dict(t="real", low=lo, high=lo + rng.choice([1.0, 0.1, 7.5, 1.0 / 3, 2000.7]))
        if rng.random() < 0.25:
            lo = rng.uniform(-3, 3)
            d = dict(t="real", low=lo, high=lo + rng.uniform(0.01, 9))
    elif k in "Rl":
        lo = rng.choice([1e-6, 1e-3, 0.5, 1.0, 2.0]) if rng.random() < 0.6 else 10 ** rng.uniform(-6, 1)
        d = dict(t="real", low=lo, high=lo * rng.choice([8.0, 100.0, 1024.0, 1e6]), prior="log-uniform")
        if rng.random() < 0.5:
            d["base"] = rng.choice([2, 10, 3])
    elif k == "i":
        lo = rng.choice([0, -5, 1, 100])
        d = dict(t="int", low=lo, high=lo + rng.choice([1, 2, 5, 17, 1000]))
    elif k in "LI":
        lo = rng.choice([1, 2, 10])
        d = dict(t="int", low=lo, high=lo * rng.choice([2, 5, 100, 1024]), prior="log-uniform")
        if rng.random() < 0.5:
            d["base"] = rng.choice([2, 10])
    else:
        d = dict(t="cat", cats=rng.choice(CATS))
        if rng.random() < 0.25 and len(d["cats"]) > 1:
            w = [rng.randint(1, 4) for _ in d["cats"]]
            d["prior"] = [v / sum(w) for v in w]
    if transforms and rng.random() < 0.3:
        if d["t"] == "cat":
            d["transform"] = rng.choice(["onehot", "normalize", "label"])
        else:
            d["transform"] = rng.choice(["identity", "normalize"])
    if dtypes and rng.random() < 0.2:
        if d["t"] == "real":
            d["dtype"] = rng.choice(["float32", "float64", "float16"]) if d["low"] in (0.0, -1.0, 1e-3, 2.5, .5, 1., 2.) and d["high"] < 100 \
                else rng.choice(["float32", "float64"])
        elif d["t"] == "int":
            d["dtype"] = rng.choice(["int", "int32", "int64"])
    return d


def gen_space(rng, n=None, **k):
    n = n or rng.choice([1, 1, 2, 2, 3, 4])
    out = [gen_dim(rng, **k) for _ in range(n)]
    for d in out:
        if rng.random() < 0.2 and raw_dim(d) is not None:
            d["short"] = True
    return out


def raw_dim(d):
    """The dimension as a plain tuple or list, where that is possible."""
    if d.get("transform") or d.get("dtype") or d.get("name"):
        return None
    if d["t"] == "cat":
        return list(d["cats"]) if not d.get("prior") and all(isinstance(c, str) for c in d["cats"]) else None
    lo, hi = (float(d["low"]), float(d["high"])) if d["t"] == "real" else (d["low"], d["high"])
    if d.get("base"):
        return (lo, hi, d["prior"], d["base"]) if d.get("prior") == "log-uniform" else None
    return (lo, hi, d["prior"]) if d.get("prior") else (lo, hi)


def space_size(space):
    """Number of points of a finite space (inf otherwise)."""
    s = 1
    for d in space:
        s *= float("inf") if d["t"] == "real" else (
            len(d["cats"]) if d["t"] == "cat" else d["high"] - d["low"] + 1)
    return s


def build_dim(d, plain=False):
    from skopt.space import Categorical, Integer, Real
    kw = {k: d[k] for k in ("transform", "name") if d.get(k) is not None}
    if d["t"] == "cat":
        cats = [tuple(c) if isinstance(c, list) else c for c in d["cats"]]
        return Categorical(cats, prior=d.get("prior"), **kw)
    for k in ("prior", "base", "dtype"):
        if d.get(k) is not None:
            kw[k] = d[k]
    if d["t"] == "real":
        return Real(d["low"], d["high"], **kw)
    return Integer(d["low"], d["high"], **kw)


def build_space(space):
    return [raw_dim(d) if d.get("short") and raw_dim(d) is not None else build_dim(d) for d in space]


def member(x, space):
    """Own membership test.  None if x is a valid point, else the reason."""
    if not isinstance(x, (list, tuple)):
        return "not a list: %r" % (x,)
    if len(x) != len(space):
        return "%d components for %d dimensions" % (len(x), len(space))
    for v, d in zip(x, space):
        if d["t"] == "cat":
            cats = [tuple(c) if isinstance(c, list) else c for c in d["cats"]]
            w = v.item() if isinstance(v, np.generic) else v
            ok = False
            for c in cats:
                if (c is None and w is None) or (c is not None and w is not None and
                                                 isinstance(c, str) == isinstance(w, str) and
                                                 isinstance(c, tuple) == isinstance(w, tuple) and
                                                 c == w):
                    ok = True
            if not ok:
                return "%r is not one of %r" % (v, cats)
        else:
            if isinstance(v, (str, bytes, list, tuple, type(None), bool, np.bool_)):
                return "%r is no number" % (v,)
            f = float(v)
            if math.isnan(f) or not (d["low"] <= f <= d["high"]):
                return "%r is outside [%r, %r]" % (v, d["low"], d["high"])
            if d["t"] == "int" and not isinstance(v, (int, np.integer)):
                return "%r (%s) is not an integer" % (v, type(v).__name__)
            if d["t"] == "real" and not isinstance(v, (float, np.floating)):
                return "%r (%s) is not a float" % (v, type(v).__name__)
    return None


def random_point(rng, space):
    """A member of the space made without the code under test."""
    out = []
    for d in space:
        if d["t"] == "cat":
            c = rng.choice(d["cats"])
            out.append(tuple(c) if isinstance(c, list) else c)
        elif d["t"] == "int":
            out.append(rng.choice([d["low"], d["high"], rng.randint(d["low"], d["high"])]))
        else:
            dt = d.get("dtype")
            v = rng.choice([float(d["low"]), float(d["high"]), d["low"] + rng.random() * (d["high"] - d["low"])])
            v = min(max(v, d["low"]), d["high"])
            if dt in ("float32", "float16") and float(np.dtype(dt).type(v)) != v:
                v = d["low"] + 0.5 * (d["high"] - d["low"])
            out.append(v)
    return out


# ------------------------------------------------------------------ values
def value(seed, x, n, mode="unique"):
    """Objective value of the n-th evaluation at x: different for each evaluation unless the mode says otherwise,
    exact binary fractions for half of the seeds."""
    u = unit(seed, "y", [norm(v) for v in x])
    if mode == "zero":
        return 0.0
    if mode == "int":
        return int(u * 5) - 2
    if mode == "np":
        return np.float64(u * 3 - 1)
    if mode == "nps":       # numbers of several kinds
        return [np.float64, np.float32, np.int64, float, int, np.float16][n % 6](round(u * 4096) / 64 - 32)
    if mode == "ties":
        return float(int(u * 3))
    if mode == "const":
        return 1.5
    base = round(u * 64) / 16.0 - 2.0
    if unit(seed, "fine") < .5:
        base += u / 3e5
    return base + (n + 1) / 1024.0


# ------------------------------------------------------------------ optimizers
CHEAP = ["spy", "spy", "spyf", "dummy"]
REALS = ["GP", "RF", "ET", "GBRT", "RF5", "GP1", "KN"]


def build_estimator(name, tag="spy", seed=0, space=None):
    if name == "spy":
        return spies.SpyRegressor(tag=tag, seed=seed)
    if name == "spyf":
        return spies.SpyRegressor(tag=tag, seed=seed)
    if name == "RF5":
        from skopt.learning import RandomForestRegressor
        return RandomForestRegressor(n_estimators=5, min_samples_leaf=1, random_state=seed)
    if name == "ET5":
        from skopt.learning import ExtraTreesRegressor
        return ExtraTreesRegressor(n_estimators=5, random_state=seed)
    if name == "GB3":
        from sklearn.ensemble import GradientBoostingRegressor
        from skopt.learning import GradientBoostingQuantileRegressor
        return GradientBoostingQuantileRegressor(
            base_estimator=GradientBoostingRegressor(n_estimators=3, loss="quantile"), random_state=seed)
    if name == "GP1":
        from skopt.learning import GaussianProcessRegressor
        from skopt.learning.gaussian_process.kernels import Matern
        return GaussianProcessRegressor(kernel=Matern(length_scale=0.5, nu=2.5), alpha=1e-4,
                                        normalize_y=True, n_restarts_optimizer=0, random_state=seed)
    return name            # "GP", "RF", "ET", "GBRT", "dummy": made by the code under test


def has_gradient(name):
    return name in ("spy", "GP", "GP1")


def gen_opt(rng, space, ests, acqs=None, queue=True, n_init=None):
    est = rng.choice(ests)
    o = dict(est=est, n_init=rng.choice([1, 1, 2, 3, 5]) if n_init is None else n_init,
             rs=rng.randrange(10 ** 6),
             acq=rng.choice(acqs or ["EI", "LCB", "PI", "gp_hedge", "gp_hedge"]),
             n_points=rng.choice([60, 200]))
    if est == "dummy":
        o["acqopt"] = "sampling"
    elif has_gradient(est):
        o["acqopt"] = rng.choice(["sampling", "lbfgs", "auto"])
        if all(d["t"] == "cat" for d in space) and est == "GP":
            o["acqopt"] = "sampling"
    else:
        o["acqopt"] = rng.choice(["sampling", "auto"])
        if est == "spyf":
            o["acqopt"] = "sampling"
    if "ps" in o["acq"] and est == "GP" and o["acqopt"] == "auto":
        o["acqopt"] = "sampling"
    o["gen"] = gen_generator(rng, [None, None, "random"])
    if queue and rng.random() < 0.4:
        o["queue"] = rng.choice([1, 2, 3])
    if rng.random() < 0.2:
        o["akw"] = {k: v for k, v in dict(xi=rng.choice([0.0, 0.1]), kappa=rng.choice([0.5, 4.0]), eta=rng.choice([0.2, 3.0])).items()
                    if rng.random() < .6}
    return o


def gen_generator(rng, others=()):
    """Name of an initial point generator, or [name, options] for an object."""
    name = rng.choice(list(others) + ["lhs", "sobol", "halton", "hammersly", "grid"])
    if name in (None, "random") or rng.random() < 0.5:
        return name
    if name == "lhs":
        kw = dict(lhs_type=rng.choice(["classic", "centered"]), criterion=rng.choice([None, "correlation", "maximin", "ratio"]),
                  iterations=rng.choice([1, 5]))
    elif name == "sobol":
        kw = dict(skip=rng.choice([0, 0, 256]), randomize=rng.random() < .5)
    elif name == "grid":
        kw = dict(border=rng.choice(["include", "exclude", "only"]), use_full_layout=rng.random() < .5,
                  append_border=rng.choice(["include", "exclude", "only"]))
    else:
        lo, hi = rng.choice([(0, 0), (7, 7), (0, 9), (3, 20), (-1, -1), (-1, 5)])
        kw = dict(min_skip=lo, max_skip=hi, primes=rng.choice([None, None, [2, 3, 5, 7, 11], [3, 2], [5, 7]]))
    return [name, kw]


def make_generator(spec):
    if spec is None or isinstance(spec, str):
        return spec
    from skopt import sampler
    kw = dict(spec[1])
    if kw.get("primes"):
        kw["primes"] = tuple(kw["primes"])
    return {"lhs": sampler.Lhs, "sobol": sampler.Sobol, "halton": sampler.Halton, "hammersly": sampler.Hammersly,
            "grid": sampler.Grid}[spec[0]](**kw)


def build_opt(o, space, tag="spy", dims=None, est=None, gen="__own__", rs="__own__", **over):
    from skopt import Optimizer
    kw = dict(n_initial_points=o["n_init"], acq_func=o["acq"],
              acq_optimizer=o.get("acqopt", "auto"),
              random_state=o["rs"] if isinstance(rs, str) else rs,
              model_queue_size=o.get("queue"), acq_func_kwargs=o.get("akw"),
              acq_optimizer_kwargs=dict(n_points=o["n_points"], n_restarts_optimizer=2,
                                        n_jobs=o.get("jobs", 1)))
    if o.get("gen") is not None or not (isinstance(gen, str) and gen == "__own__"):
        kw["initial_point_generator"] = make_generator(o.get("gen")) if isinstance(gen, str) and gen == "__own__" else gen
    if o.get("jobs"):
        kw["n_jobs"] = o["jobs"]
    kw.update(over)
    return Optimizer(dims if dims is not None else build_space(space),
                     est if est is not None else build_estimator(o["est"], tag, o["rs"] % 1000), **kw)


# ------------------------------------------------------------------ schedules
def gen_schedule(rng, n_events, workers=None, p=None, ps=False):
    """An asynchronous history: workers ask, evaluate for a random time, deliver.

    A small event queue in simulated time decides the order; the delivery network may lose,
    duplicate, delay, batch.  Returns (ops, simulated seconds).  Operations refer to pending work
    by index modulo what is pending, so that every sublist is a history as well.
    """
    import heapq
    p = dict(p or {})
    sw = lambda name, hi: p[name] if name in p else (rng.random() * hi if rng.random() < 0.6 else 0.0)
    p_lose, p_dup, p_delay = sw("lose", 0.2), sw("dup", 0.25), sw("delay", 0.4)
    p_batch, p_askn, p_nofit = sw("batch", 0.5), sw("askn", 0.4), sw("nofit", 0.25)
    p_ext, p_res, p_upd = sw("ext", 0.2), sw("res", 0.3), sw("upd", 0.1)
    workers = workers or rng.choice([1, 1, 2, 3, 5])
    q, seq, t = [], 0, 0.0

    def at(dt, what):
        nonlocal seq
        seq += 1
        heapq.heappush(q, (t + dt, seq, what))
    for w in range(workers):
        at(rng.random(), ("free", w))
    ops, pending, done, asked = [], 0, 0, []
    while len(ops) < n_events and q:
        t, _, ev = heapq.heappop(q)
        if rng.random() < p_res:
            ops.append(["result"])
        if rng.random() < p_ext:
            ops.append(["ext", rng.randrange(10 ** 6), int(rng.random() < 0.5 * (p_batch > 0))])
            done += 1
        if rng.random() < p_upd:
            ops.append(["update"])
        if ev[0] == "free":
            w = ev[1]
            if rng.random() < p_askn:
                n = rng.choice([1, 2, 2, 3, 4] if rng.random() < .95 else [7, 11])
                strat = rng.choice(["cl_min", "cl_mean", "cl_max"])
                ops.append(["askn", n, strat])
                asked.append([n, strat])
                if rng.random() < 0.4:
                    ops.append(["askn", n, strat])     # asked again, nothing told
                if rng.random() < 0.15:
                    ops.append(["askn"] + rng.choice(asked[-4:]))   # an earlier request, perhaps still unanswered
                pending += n
                for _ in range(n):
                    at(0.1 + rng.expovariate(1.0), ("done", w if _ == 0 else None))
            else:
                ops.append(["ask"])
                if rng.random() < 0.2:
                    ops.append(["peek"])
                pending += 1
                at(0.1 + rng.expovariate(1.0), ("done", w))
        elif ev[0] == "done":
            if ev[1] is not None:
                at(0.01, ("free", ev[1]))
            r = rng.random()
            if r < p_lose:
                ops.append(["lose", rng.randrange(8)])
            elif r < p_lose + p_delay * 0.5:
                at(rng.expovariate(0.3), ("done", None))
                continue
            elif rng.random() < p_batch and pending > 1:
                m = rng.choice([1, 2, 2, 3, 3, 6])
                ops.append(["tellb", [rng.randrange(8) for _ in range(m)],
                            int(rng.random() >= p_nofit)])
            else:
                ops.append(["tell", rng.choice([0, 0, rng.randrange(8)]),
                            int(rng.random() >= p_nofit)])
                if rng.random() < p_dup:
                    ops.append(["dup", rng.randrange(8)])
            pending = max(0, pending - 1)
    return ops, t


SCHED_FAULTS = {"lose": "delivery_lost", "dup": "delivery_duplicated", "ext": "unasked_delivery",
                "tellb": "batched_delivery"}


def same(a, b, tol=0.0):
    """Deep equality that does not care whether a number is a numpy or a Python one."""
    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(b, np.generic):
        b = b.item()
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    try:
        if a == b:
            return True
        return bool(tol and abs(a - b) <= tol * max(1.0, abs(a), abs(b)))
    except TypeError:
        return False


def plain(v):
    """JSON-able deep copy of points and values."""
    if isinstance(v, np.ndarray):
        return [plain(x) for x in v.tolist()]
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def freeze(res):
    """Deep value snapshot of a result object."""
    out = dict(x=plain(res.x), fun=plain(res.fun), x_iters=plain(res.x_iters), func_vals=plain(res.func_vals),
               n_models=len(res.models) if res.models is not None else None)
    if "log_time" in res:
        out["log_time"] = plain(res.log_time)
    return out


def check_result(ctx, res, X, Y, what, times=None):
    """A result agrees with the record (X, Y)."""
    ctx.check(len(res.x_iters) == len(X), "record-length:" + what,
              lambda: "%d points recorded, %d delivered" % (len(res.x_iters), len(X)))
    ctx.check(same(plain(res.x_iters), plain(X)), "record-points:" + what,
              lambda: "points %r, delivered %r" % (plain(res.x_iters), plain(X)))
    ctx.check(len(res.func_vals) == len(Y) and same(plain(res.func_vals), plain(Y)), "record-values:" + what,
              lambda: "values %r, delivered %r" % (plain(res.func_vals), plain(Y)))
    b = min(range(len(Y)), key=lambda i: (Y[i], i))
    ctx.check(same(res.fun, Y[b]), "optimum-value:" + what, lambda: "fun %r, smallest %r" % (res.fun, Y[b]))
    ctx.check(same(plain(res.x), plain(X[b])), "optimum-point:" + what,
              lambda: "x %r, first smallest is %r" % (plain(res.x), plain(X[b])))
    if times is not None:
        ctx.check("log_time" in res and len(res.log_time) == len(times) and
                  same(plain(res.log_time), [math.log(t) for t in times], 1e-12), "record-times:" + what,
                  lambda: "log_time %r for times %r" % (plain(res.get("log_time")), times))


def add_runs(rng, ops, p=0.12):
    """Stretches of the history driven by Optimizer.run, some with an objective that fails."""
    out = []
    for op in ops:
        out.append(op)
        if rng.random() < p:
            n = rng.choice([1, 1, 2, 3])
            out.append(["run", n, rng.randrange(n) if rng.random() < 0.25 else -1])
    return out


def flags_from(ctx, ops):
    for op in ops:
        f = SCHED_FAULTS.get(op[0])
        if f:
            ctx.fault(f)
