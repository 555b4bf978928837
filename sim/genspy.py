"""Records the designs made by the initial point generators (outermost calls only)."""
import copy
import threading

_state = threading.local()
DESIGNS = []


def install():
    from skopt import sampler
    for name in ("Sobol", "Halton", "Hammersly", "Lhs", "Grid"):
        cls = getattr(sampler, name)
        if "__spied__" not in cls.__dict__:
            _wrap(cls)


def _wrap(cls):
    orig = cls.__dict__["generate"]

    def generate(self, dimensions, n_samples, random_state=None):
        depth = getattr(_state, "depth", 0)
        _state.depth = depth + 1
        try:
            out = orig(self, dimensions, n_samples, random_state=random_state)
        finally:
            _state.depth = depth
        if depth == 0:
            DESIGNS.append((type(self).__name__, n_samples, copy.deepcopy([list(p) for p in out])))
        return out
    cls.generate = generate
    cls.__spied__ = True
