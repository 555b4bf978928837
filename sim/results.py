"""Results of small optimizations, and their canonical content."""
import hashlib
import os

import numpy as np

from . import spies, world
from .core import rng_for
from .world import plain


def objective(x):
    """Module level, hence storable."""
    return world.value(7, x, 0)


class Objective:
    """A storable callable with state."""

    def __init__(self, seed):
        self.seed = seed

    def __call__(self, x):
        return world.value(self.seed, x, 0)

    def __eq__(self, o):
        return isinstance(o, Objective) and o.seed == self.seed

    def __hash__(self):
        return self.seed


class Timed(Objective):
    def __call__(self, x):
        return world.value(self.seed, x, 0), 0.5 + spies.unit(self.seed, "t", x)


def canon(v, depth=0):
    """JSON-able canonical content of arguments, estimators, arrays, containers."""
    if isinstance(v, np.ndarray):
        a = np.ascontiguousarray(v)
        if a.dtype == object:
            return ["oarray", [canon(x, depth + 1) for x in a.tolist()]]
        return ["array", str(a.dtype), list(a.shape), hashlib.sha256(a.tobytes()).hexdigest()[:16]]
    if isinstance(v, np.generic):
        return ["np", str(v.dtype), repr(v.item())]
    if isinstance(v, (str, int, float, bool, type(None), bytes)):
        return [type(v).__name__, repr(v)]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__, [canon(x, depth + 1) for x in v]]
    if isinstance(v, dict):
        return ["dict", [[repr(k), canon(v[k], depth + 1)] for k in sorted(v, key=repr)]]
    if isinstance(v, np.random.RandomState):
        return ["rng", canon(v.get_state(legacy=True))]
    if callable(v) and hasattr(v, "__qualname__"):
        return ["callable", v.__module__, v.__qualname__]
    if depth > 12:
        return ["deep", type(v).__name__]
    d = getattr(v, "__dict__", None)
    if d is not None:
        return ["obj", type(v).__name__, canon({k: x for k, x in d.items() if not hasattr(x, "__self__")}, depth + 1)]
    return ["other", type(v).__name__]


def dims_of(space):
    out = []
    for d in space.dimensions:
        e = [type(d).__name__, d.name, canon(getattr(d, "prior", None)), getattr(d, "transform_", None),
             str(getattr(d, "dtype", None))]
        e += [canon(list(d.categories))] if hasattr(d, "categories") else [canon(d.low), canon(d.high),
                                                                           canon(getattr(d, "base", None))]
        out.append(e)
    return out


def fingerprint(res, predictions=True):
    """Everything a user reads in a result, in canonical form (a dict of JSON-able parts)."""
    f = {}
    for k in ("x", "fun", "x_iters", "func_vals", "log_time"):
        f[k] = canon(res[k]) if k in res else None
    f["keys"] = sorted(res.keys())
    f["space"] = dims_of(res.space) if res.space is not None else None
    rs = res.random_state
    f["random_state"] = canon(rs)
    sp = res.specs
    f["specs_function"] = sp.get("function") if sp else None
    f["specs_keys"] = sorted(sp) if sp else None
    f["specs_args"] = sorted(sp["args"]) if sp else None
    if sp:
        args = {}
        for k, v in sp["args"].items():
            if k in ("dimensions", "callback", "base_estimator") or k == "space":
                args[k] = ["skipped", type(v).__name__]
            else:
                args[k] = canon(v)
        f["args"] = args
        dm = sp["args"].get("dimensions")
        if dm is not None and all(hasattr(d, "transform") for d in dm):
            class S:
                dimensions = list(dm)
            f["args_dimensions"] = dims_of(S)
        else:
            f["args_dimensions"] = canon(dm)
        be = sp["args"].get("base_estimator")
        f["args_estimator"] = canon(be.get_params(deep=False)) if hasattr(be, "get_params") else canon(be)
    f["n_models"] = len(res.models) if res.models is not None else None
    if predictions and res.models:
        X = np.asarray(res.space.transform(res.x_iters), float).reshape(len(res.x_iters), -1)
        preds = []
        for m in res.models:
            if hasattr(m, "estimators_") and type(m).__name__ == "MultiOutputRegressor":
                preds += [canon(np.asarray(e.predict(X))) for e in m.estimators_]
            else:
                preds.append(canon(np.asarray(m.predict(X))))
                try:
                    preds.append(canon(np.asarray(m.predict(X, return_std=True)[1])))
                except TypeError:
                    pass
        f["predictions"] = preds
        f["models"] = [type(m).__name__ for m in res.models]
    if res.space is not None:
        f["transformed"] = canon(np.asarray(res.space.transform(res.x_iters), float))
        f["bounds"] = canon([list(b) for b in res.space.bounds])
        f["transformed_bounds"] = canon([list(map(float, b)) for b in res.space.transformed_bounds])
        f["draws"] = canon(res.space.rvs(3, random_state=5))
        f["best_in_space"] = bool(res.x in res.space)
    f["class"] = type(res).__name__
    return f


def differing(a, b):
    return [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


KINDS = ["dummy", "dummy", "base", "gp", "forest", "gbrt", "optimizer", "timed", "bare"]


def small_forest(seed):
    from skopt.learning import RandomForestRegressor
    return RandomForestRegressor(n_estimators=2, min_samples_leaf=1, random_state=seed)


def make(kind, n, seed, space, callback=None, func=None, x0=None, y0=None, n_init=None):
    """A result of n evaluations."""
    import skopt
    from skopt.optimizer import base_minimize
    dims = world.build_space(space)
    f = func or Objective(seed)
    kw = dict(n_calls=n, random_state=seed, callback=callback)
    if x0 is not None:
        kw.update(x0=x0, y0=y0)
    if kind == "dummy":
        return skopt.dummy_minimize(f, dims, **kw)
    kw["n_initial_points"] = n_init if n_init is not None else max(1, min(n - 1, 2)) if n > 1 else 1
    if kind == "base":
        return base_minimize(f, dims, spies.SpyRegressor(tag="r", seed=seed), acq_func="gp_hedge",
                             acq_optimizer="sampling", n_points=40, **kw)
    if kind == "gp":
        return skopt.gp_minimize(f, dims, base_estimator=world.build_estimator("GP1", seed=seed),
                                 acq_optimizer="sampling", n_points=40, **kw)
    if kind == "forest":
        return skopt.forest_minimize(f, dims, base_estimator=small_forest(seed), n_points=40, **kw)
    if kind == "gbrt":
        return skopt.gbrt_minimize(f, dims, base_estimator=world.build_estimator("GB3", seed=seed), n_points=40, **kw)
    if kind == "timed":
        return base_minimize(f if isinstance(f, Timed) else Timed(seed), dims, small_forest(seed), acq_func="EIps",
                             acq_optimizer="sampling", n_points=40, **kw)
    o = skopt.Optimizer(dims, small_forest(seed), n_initial_points=kw["n_initial_points"],
                        acq_optimizer="sampling", random_state=seed, acq_optimizer_kwargs=dict(n_points=40))
    res = None
    for _ in range(n):
        x = o.ask()
        res = o.tell(x, f(x))
    if kind == "bare":
        res = skopt.utils.create_result(o.Xi, o.yi, o.space, o.rng, models=o.models)
        res.specs = {"args": {"func": f, "note": "own"}, "function": "custom"}
    return res


EXTS = [".pkl", ".pkl", ".gz", ".z", ".bz2", ".xz", ".lzma", "", ".tar.gz"]
COMPRESS = [None, None, True, 0, 3, 9, ["gzip", 3], ["zlib", 2], ["bz2", 1], ["lzma", 1], ["xz", 1]]


def gen_file(rng):
    ext = rng.choice(EXTS)
    c = rng.choice(COMPRESS)
    return dict(ext=ext, compress=c, form=rng.choice(["str", "str", "path", "relative", "symlink", "subdir"]),
                store=rng.random() < 0.7, protocol=rng.choice([None, None, None, 2, 4]))


def dump_kw(f):
    kw = {}
    if f["compress"] is not None:
        kw["compress"] = tuple(f["compress"]) if isinstance(f["compress"], list) else f["compress"]
    if f.get("protocol") is not None:
        kw["protocol"] = f["protocol"]
    if not f["store"]:
        kw["store_objective"] = False
    return kw


def place(f, d):
    """-> (what to pass to the code under test, absolute path of the real file)."""
    import pathlib
    name = "result" + f["ext"]
    real = os.path.join(d, name)
    form = f["form"]
    if form == "path":
        return pathlib.Path(real), real
    if form == "relative":
        os.chdir(d)
        return name, real
    if form == "subdir":
        os.makedirs(os.path.join(d, "sub dir"), exist_ok=True)
        real = os.path.join(d, "sub dir", name)
        return real, real
    if form == "symlink":
        real = os.path.join(d, "real" + f["ext"])
        link = os.path.join(d, name)
        if not os.path.islink(link):
            os.symlink(real, link)
        return link, real
    return real, real
