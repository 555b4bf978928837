"""Independent judgement of what the surrogate was trained on and what it must suggest."""
import numpy as np

from . import spies
from .spies import LOG, SpyRegressor, acquisition


def log_of(tag):
    return LOG.setdefault(tag, [])


def fits(tag, start=0):
    return [r for r in LOG.get(tag, [])[start:] if r[0] == "fit"]


def shadow(rec, seed):
    """The surrogate of a recorded fit, rebuilt outside the code under test."""
    m = SpyRegressor(tag="__shadow__", seed=seed)
    m.fit(rec[2], rec[3])
    LOG.pop("__shadow__", None)
    spies.COUNT.pop("__shadow__", None)
    return m


def candidates(tag, ids):
    """All points the surrogate was asked to judge with uncertainty, many at a time."""
    rows = [r[2] for r in LOG.get(tag, []) if r[0] == "predict" and r[1] in ids and r[3] and len(r[2]) > 1]
    return np.vstack(rows) if rows else None


class Ranker:
    """Acquisition values of arbitrary points under one trained surrogate (pair)."""

    def __init__(self, recs, seed, y_opt, akw=None):
        self.m = [shadow(r, seed) for r in recs]
        self.y_opt = y_opt
        akw = akw or {}
        self.xi, self.kappa = akw.get("xi", 0.01), akw.get("kappa", 1.96)

    def __call__(self, kind, X):
        X = np.atleast_2d(np.asarray(X, dtype=float))
        mean, std = self.m[0]._mean(X), self.m[0]._std(X)
        a = acquisition(kind, mean, std, self.y_opt, self.xi, self.kappa)
        if kind.endswith("ps"):
            tm, ts = self.m[1]._mean(X), self.m[1]._std(X)
            a = a * np.exp(-tm + 0.5 * ts ** 2)
        return a

    def best(self, kind, C):
        return float(np.max(self(kind, C)))

    def is_best(self, kind, x, C, tol=1e-9):
        """x is at least as good as every candidate."""
        v, b = float(self(kind, x)[0]), self.best(kind, C)
        scale = max(abs(b), float(np.ptp(self(kind, C))), 1e-300)
        return v >= b - tol * scale - 1e-300, v, b


def rows_equal(A, B, tol=1e-9):
    """Same rows, regardless of their order."""
    A, B = np.asarray(A, float), np.asarray(B, float)
    if A.shape != B.shape:
        return False
    if np.allclose(A, B, rtol=tol, atol=tol):
        return True
    left = list(range(len(B)))
    for a in A:
        for i in left:
            if np.allclose(a, B[i], rtol=tol, atol=tol):
                left.remove(i)
                break
        else:
            return False
    return True


def training_set(space_obj, X, cols):
    """Rows (transformed point, value...) the surrogate should have seen."""
    Xt = np.asarray(space_obj.transform(X), dtype=float)
    return np.hstack([Xt.reshape(len(X), -1)] + [np.asarray(c, float).reshape(-1, 1) for c in cols])


def seen(rec):
    return np.hstack([rec[2], np.asarray(rec[3], float).reshape(len(rec[2]), -1)])
