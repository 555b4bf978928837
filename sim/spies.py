"""Stub surrogates, generators and estimators given to the code under test.

They are defined in an importable module so they survive pickling and cloning; what they see goes
to LOG, keyed by a tag that is an ordinary constructor parameter.
"""
import hashlib

import numpy as np
from sklearn.base import BaseEstimator, RegressorMixin, ClassifierMixin

LOG = {}        # tag -> list of records
FAULTS = {}     # tag -> dict(fit={n: exc name}, predict={n: exc name}), n counts calls
COUNT = {}
HOOK = [None]   # called by scripted estimators while they are fitted


def reset():
    HOOK[0] = None
    LOG.clear()
    FAULTS.clear()
    COUNT.clear()


class InjectedError(RuntimeError):
    pass


EXC = {"injected": InjectedError, "memory": MemoryError, "linalg": np.linalg.LinAlgError,
       "value": ValueError, "interrupt": KeyboardInterrupt}


def tick(tag, what):
    """Count a call and raise if a fault is planned for it."""
    c = COUNT.setdefault(tag, {})
    n = c[what] = c.get(what, -1) + 1
    e = FAULTS.get(tag, {}).get(what, {}).get(str(n))
    if e:
        c["fired"] = c.get("fired", 0) + 1
        raise EXC[e]("injected failure of %s %d" % (what, n))
    return n


def digest(*arrays):
    h = hashlib.sha256()
    for a in arrays:
        a = np.ascontiguousarray(np.asarray(a, dtype=float))
        h.update(repr(a.shape).encode())
        h.update(a.tobytes())
    return int.from_bytes(h.digest()[:6], "big")


class SpyRegressor(RegressorMixin, BaseEstimator):
    """A smooth random function that depends on the training set; knows its gradients.

    The mean interpolates nothing: its only purposes are that different training sets give
    different rankings of candidates, and that everything it is given is recorded.
    """

    def __init__(self, tag="spy", seed=0, order_free=False, random_state=None, n_jobs=None):
        self.tag = tag
        self.seed = seed
        self.order_free = order_free
        # not used, but parameters the code under test may be tempted to set on the object of the caller
        self.random_state = random_state
        self.n_jobs = n_jobs

    def fit(self, X, y):
        X = np.array(X, dtype=float)
        y = np.array(y, dtype=float)
        n = tick(self.tag, "fit")
        d = digest(X, y)
        r = np.random.RandomState((d + 7919 * self.seed) % (2 ** 32))
        k = X.shape[1]
        lo, hi = X.min(axis=0), X.max(axis=0)
        self.scale_ = np.where(hi - lo > 1e-12, hi - lo, 1.0)
        self.w_ = r.uniform(1.0, 4.0, k) * r.choice([-1, 1], k) / self.scale_
        self.p_ = r.uniform(0, 6.28)
        self.u_ = r.uniform(1.0, 4.0, k) * r.choice([-1, 1], k) / self.scale_
        self.q_ = r.uniform(0, 6.28)
        self.m_ = float(np.mean(y))
        self.a_ = float(max(np.std(y), 0.25))
        self.id_ = n
        LOG.setdefault(self.tag, []).append(("fit", n, X, y))
        return self

    def _mean(self, X):
        return self.m_ + self.a_ * np.sin(X @ self.w_ + self.p_)

    def _std(self, X):
        return self.a_ * (0.6 + 0.4 * np.cos(X @ self.u_ + self.q_))

    def predict(self, X, return_std=False, return_cov=False, return_mean_grad=False,
                return_std_grad=False):
        X = np.array(X, dtype=float)
        tick(self.tag, "predict")
        LOG.setdefault(self.tag, []).append(("predict", self.id_, X, return_std))
        out = [self._mean(X)]
        if return_std:
            out.append(self._std(X))
        if return_mean_grad:
            out.append(self.a_ * np.cos(X[0] @ self.w_ + self.p_) * self.w_)
            if return_std_grad:
                out.append(-0.4 * self.a_ * np.sin(X[0] @ self.u_ + self.q_) * self.u_)
        return out[0] if len(out) == 1 else tuple(out)


class SpyForest(SpyRegressor):
    """As SpyRegressor, but without gradients (only candidate sampling is possible)."""
    kernel = None


def acquisition(kind, mean, std, y_opt, xi=0.01, kappa=1.96):
    """What the optimizer should maximise: closed forms, written independently."""
    from math import erf
    if kind == "LCB":
        return -(mean - kappa * std)
    z = (y_opt - xi - mean) / std
    cdf = 0.5 * (1 + np.array([erf(v / np.sqrt(2)) for v in z]))
    if kind.startswith("PI"):
        return cdf
    pdf = np.exp(-z * z / 2) / np.sqrt(2 * np.pi)
    return (y_opt - xi - mean) * cdf + std * pdf


class SpyGenerator:
    """Mixin: records the designs a generator makes."""
    tag = "gen"

    def generate(self, dimensions, n_samples, random_state=None):
        out = super().generate(dimensions, n_samples, random_state=random_state)
        LOG.setdefault(self.tag, []).append(("design", n_samples, [list(p) for p in out]))
        return out


_gens = {}


def spy_generator(kind, tag, **kw):
    from skopt import sampler
    base = {"lhs": sampler.Lhs, "sobol": sampler.Sobol, "halton": sampler.Halton,
            "hammersly": sampler.Hammersly, "grid": sampler.Grid}[kind]
    cls = _gens.get(kind)
    if cls is None:
        cls = _gens[kind] = type("Spy" + base.__name__, (SpyGenerator, base), {"__module__": __name__})
        globals()["Spy" + base.__name__] = cls
    g = cls(**kw)
    g.tag = tag
    return g


def make_spy_classes():
    for k in ("lhs", "sobol", "halton", "hammersly", "grid"):
        spy_generator(k, "warm")


class ScriptedEstimator(ClassifierMixin, BaseEstimator):
    """An estimator for cross-validated search whose score is a function of its parameters."""

    def __init__(self, a=0.0, b=0, c="x", d=1.0, tag="est", seed=0, fail=None, per_fold=False):
        self.a, self.b, self.c, self.d = a, b, c, d
        self.tag, self.seed, self.fail, self.per_fold = tag, seed, fail, per_fold

    def key(self):
        return (self.a, self.b, self.c, self.d)

    def fit(self, X, y, **fit_params):
        LOG.setdefault(self.tag, []).append(("fit", self.key(), int(np.sum(X[:, 0])), len(X),
                                             sorted(fit_params)))
        n = tick(self.tag, "fit")
        if HOOK[0] is not None:
            HOOK[0](self)
        if self.fail and script_fails(self.seed, self.key(), int(np.sum(X[:, 0])) if self.per_fold else None, self.fail):
            raise InjectedError("evaluation failure")
        self.classes_ = np.unique(y)
        self.n_ = n
        return self

    def predict(self, X):
        return np.zeros(len(X), dtype=int)

    def score(self, X, y=None):
        return script_score(self.seed, self.key(), int(np.sum(X[:, 0])))


def unit(*parts):
    h = hashlib.sha256(repr(tuple(norm(p) for p in parts)).encode()).digest()
    return int.from_bytes(h[:6], "big") / 2.0 ** 48


def norm(v):
    """A value without the accident of its numeric type."""
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, (list, tuple, np.ndarray)):
        return tuple(norm(x) for x in v)
    if isinstance(v, float) and v == int(v) and abs(v) < 1e15:
        return int(v)
    return v


def script_fails(seed, key, fold, share):
    return unit(seed, "fail", key, *([] if fold is None else [fold])) < share


def script_score(seed, key, fold):
    return round(unit(seed, "score", key, fold), 3)
