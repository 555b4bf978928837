"""The ask/tell event loop: executes a history against an optimizer, keeps the ledger, checks it."""
import math

import numpy as np

from . import spies
from .world import (build_opt, check_result, freeze, member, plain, random_point, same, space_size,
                    value)
from .core import rng_for
from .spies import unit


def slope(seed, k, v, d):
    if d["t"] == "cat":
        return unit(seed, "slope", k, v)
    sign = 1 if unit(seed, "dir", k) < 0.6 else -1
    if d.get("prior") == "log-uniform":
        return sign * (math.log(v) - math.log(d["low"])) / (math.log(d["high"]) - math.log(d["low"]))
    return sign * (float(v) - d["low"]) / (d["high"] - d["low"])


class Driver:
    """Executes operations; subclasses add property specific checks in the hooks."""

    def __init__(self, ctx, scn, opt=None, tag="spy", **over):
        self.ctx, self.scn, self.space, self.o = ctx, scn, scn["space"], scn["opt"]
        self.tag = tag
        self.ps = "ps" in self.o["acq"]
        self.mode = scn.get("values", "unique")
        self.seed = scn.get("seed", 0)
        self.over = over
        self.opt = opt if opt is not None else ctx.sut(
            "Optimizer", build_opt, self.o, self.space, tag, **over)
        self.pending, self.delivered = [], []
        self.X, self.Y, self.T = [], [], []
        self.results = []
        self.n = 0
        self.fitted = False          # a surrogate has been trained in this object
        self.has_model = self.o["est"] != "dummy"
        self.log = True

    # ------------------------------------------------------------- hooks
    def on_ask(self, x):
        pass

    def on_askn(self, pts, n, strat):
        pass

    def before_tell(self, items, fit):
        pass

    def after_tell(self, items, fit, res):
        pass

    def on_update(self):
        pass

    def on_suggested(self, x):
        """A suggestion evaluated by run()."""

    # ------------------------------------------------------------- state
    @property
    def left(self):
        """Initial evaluations still to be told."""
        return self.o["n_init"] - len(self.X)

    @property
    def must_fit(self):
        return self.has_model and self.left <= 0

    def model_phase(self):
        return self.fitted and self.left <= 0 and self.has_model

    def value(self, x):
        y = value(self.seed, x, self.n, self.mode)
        if self.mode == "int":
            y = int(unit(self.seed, "yi", x) * 7) - 3
        if self.mode == "slope":      # the best points are at the bounds of the space
            y = sum(slope(self.seed, k, v, d) for k, (v, d) in enumerate(zip(x, self.space))) + self.n / 1e6
        if self.ps:
            t = (1 + int(unit(self.seed, "t", x, self.n) * 64)) / 16.0
            self.n += 1
            return (y, t)
        self.n += 1
        return y

    # ------------------------------------------------------------- primitives
    def ask(self):
        if self.has_model and self.left <= 0 and not self.fitted:
            e = self.ctx.sut_raises("ask-without-model", self.opt.ask)
            self.ctx.ev("ask-refused", type(e).__name__)
            return None
        x = self.ctx.sut("ask", self.opt.ask)
        self.ctx.ev("ask", plain(x))
        self.on_ask(x)
        return x

    def askn(self, n, strat):
        pts = self.ctx.sut("ask-n", self.opt.ask, n_points=n, strategy=strat)
        pts = list(pts)
        self.ctx.ev("askn", n, strat, plain(pts))
        self.on_askn(pts, n, strat)
        return pts

    def tell(self, items, batch, fit):
        """items: [(x, y)...]; batch: call with lists."""
        ctx = self.ctx
        self.before_tell(items, fit)
        kw = {} if fit else dict(fit=False)
        if batch:
            xs = [list(x) for x, _ in items]
            ys = [list(y) if self.ps else y for _, y in items]
            res = ctx.sut("tell-batch", self.opt.tell, xs, ys, **kw)
        else:
            (x, y), = items
            res = ctx.sut("tell", self.opt.tell, list(x), list(y) if self.ps else y, **kw)
        self.record(items)
        if fit and self.must_fit:
            self.fitted = True
        ctx.ev("tell", batch, fit, [(plain(x), plain(y)) for x, y in items])
        self.after_tell(items, fit, res)
        self.results.append((res, None))
        return res

    def record(self, items):
        for x, y in items:
            self.X.append(list(x))
            self.Y.append(y[0] if self.ps else y)
            if self.ps:
                self.T.append(y[1])
            self.delivered.append((x, y))

    def check_record(self, res, what):
        if self.X:
            check_result(self.ctx, res, self.X, self.Y, what, self.T if self.ps else None)

    def take(self, k):
        if not self.pending:
            x = self.ask()
            if x is None:
                return None
            return x
        return self.pending.pop(k % len(self.pending))

    def loop(self, n, fail):
        """n iterations of ask and tell, made by the optimizer; the objective may raise in the one numbered fail."""
        ctx = self.ctx
        if self.has_model and self.left <= 0 and not self.fitted:
            return
        first = plain(ctx.sut("ask", self.opt.ask)) if self.model_phase() else None
        asked, told = [], []

        def func(x):
            asked.append(list(x))
            ctx.ev("run-evaluates", plain(x))
            if len(asked) - 1 == fail:
                raise spies.InjectedError("objective")
            y = self.value(x)
            told.append((list(x), y))
            return list(y) if self.ps else y
        self.before_tell(told, True)
        res = None
        if 0 <= fail < n:
            e = ctx.sut_raises("run-failing", lambda: self.opt.run(func, n_iter=n))
            ctx.check(isinstance(e, spies.InjectedError), "objective-failure-replaced", lambda: repr(e))
            ctx.fault("objective_failed")
        else:
            res = ctx.sut("run", lambda: self.opt.run(func, n_iter=n))
        k = fail + 1 if 0 <= fail < n else n
        ctx.check(len(asked) == k, "run-evaluations", lambda: "%d evaluations, expected %d" % (len(asked), k))
        if first is not None:
            ctx.check(same(plain(asked[0]), first), "unstable-suggestion",
                      lambda: "asked %r, then run evaluates %r" % (first, asked[0]))
        for x in asked:
            self.on_suggested(x)
        self.record(told)
        if told and self.must_fit:
            self.fitted = True
        if self.X:
            self.check_record(ctx.sut("get_result", self.opt.get_result), "run")
        if res is not None:
            self.check_record(res, "run")
            self.results.append((res, None))

    # ------------------------------------------------------------- operations
    def step(self, op):
        ctx = self.ctx
        w = op[0]
        if w == "ask":
            x = self.ask()
            if x is not None:
                self.pending.append(x)
        elif w == "askn":
            self.pending.extend(self.askn(op[1], op[2]))
        elif w == "peek":
            a = self.ask()
            if a is not None and self.model_phase():
                b = self.ask()
                ctx.check(same(plain(a), plain(b)), "unstable-suggestion",
                          lambda: "asked twice with nothing told: %r then %r" % (a, b))
        elif w == "tell":
            x = self.take(op[1])
            if x is None:
                return
            self.tell([(x, self.value(x))], False, bool(op[2]))
        elif w == "tellb":
            items = []
            for k in op[1]:
                if not self.pending:
                    break
                x = self.pending.pop(k % len(self.pending))
                items.append((x, self.value(x)))
            if items:
                self.tell(items, True, bool(op[2]))
        elif w == "dup":
            if self.delivered:
                x, _ = self.delivered[op[1] % len(self.delivered)]
                self.tell([(x, self.value(x))], False, True)
        elif w == "lose":
            if self.pending:
                self.pending.pop(op[1] % len(self.pending))
        elif w == "ext":
            r = rng_for("ext", op[1])
            items = []
            for _ in range(r.randint(2, 3) if op[2] else 1):
                x = random_point(r, self.space)
                items.append((x, self.value(x)))
            self.tell(items, bool(op[2]), True)
        elif w == "update":
            ctx.sut("update_next", self.opt.update_next)
            self.on_update()
        elif w == "run":
            self.loop(op[1], op[2])
        elif w == "param":
            # the documented way to change a parameter between evaluations
            akw = dict(self.o.get("akw") or {}, **op[1])
            self.o = dict(self.o, akw=akw)
            self.opt.acq_func_kwargs = dict(akw)
            ctx.sut("update_next", self.opt.update_next)
            self.on_update()
        elif w == "result":
            if self.X:
                res = ctx.sut("get_result", self.opt.get_result)
                self.results.append((res, None))
                self.check_record(res, "get_result")
        else:
            raise ValueError(op)

    def run(self, ops):
        for op in ops:
            self.step(op)


def tell_back(d, k=0):
    """Deliver one freshly asked point."""
    x = d.ask()
    if x is None:
        x = random_point(rng_for("tell_back", k), d.space)
    d.tell([(x, d.value(x))], False, True)


def simplify_space(scn):
    """Simplification candidates shared by the history based properties."""
    import copy
    sp = scn.get("space")
    if sp and len(sp) > 1:
        for i in range(len(sp)):
            s = copy.deepcopy(scn)
            s["space"] = sp[:i] + sp[i + 1:]
            yield s
    if sp:
        for i, d in enumerate(sp):
            plain_dim = dict(t="real", low=0.0, high=1.0)
            if d != plain_dim:
                s = copy.deepcopy(scn)
                s["space"][i] = plain_dim
                yield s
            for k in ("transform", "dtype", "base", "prior", "short"):
                if k in d:
                    s = copy.deepcopy(scn)
                    del s["space"][i][k]
                    yield s
    o = scn.get("opt")
    if o:
        for k, v in (("gen", None), ("queue", None), ("akw", None), ("acq", "LCB"), ("est", "spy"),
                     ("n_points", 60), ("n_init", 1), ("acqopt", "sampling"), ("jobs", None)):
            if o.get(k) != v:
                s = copy.deepcopy(scn)
                s["opt"][k] = v
                if not ("ps" in o["acq"] and k == "est"):
                    yield s
