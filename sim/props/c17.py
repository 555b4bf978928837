"""C17 A failing surrogate never corrupts the record, and the next delivery recovers."""
import numpy as np

from sim import oracle, spies, world
from sim.core import Violation
from sim.loop import simplify_space
from sim.props import c13
from sim.world import check_result, freeze, member, plain, same

RUNS = dict(quick=2400, thorough=24000)
RULE = ("one case per seeded delivery history with surrogate failures injected at chosen training or prediction "
        "calls: distinct event logs among those in which a failure fired and a later delivery succeeded")
COVER = "distinct (failing call, its position, exception, operation hit, acquisition, its optimiser, phase)"
LEVEL = "exploration"
REAL = ["skopt.Optimizer (tell, ask, copy, update_next, get_result)", "acquisition optimisation", "create_result"]
STUB = ["the surrogate (recording regressor that fails on plan)", "workers and delivery channel", "objective"]
ASSUMPTIONS = ["whether a delivery whose training failed is recorded is left open, as long as it is all or nothing"]
simplify = simplify_space
SHRINK_LISTS = ["ops"]
EXCS = ["injected", "memory", "linalg", "value", "interrupt"]


def generate(rng, tier, i):
    space = world.gen_space(rng, dtypes=False)
    ps = i % 5 == 1
    o = world.gen_opt(rng, space, ["spy"], ["EIps", "PIps"] if ps else None)
    o["n_points"] = 60
    o["n_init"] = rng.choice([1, 1, 2, 3])
    ops, t = world.gen_schedule(rng, rng.choice([8, 12, 16]) if i % 97 else 60, p=dict(askn=rng.choice([0, 0.4]), lose=0.05))
    out = []
    rate = rng.choice([0.15, 0.3, 0.6])
    for op in ops:
        if op[0] in ("tell", "tellb", "dup", "ext", "askn", "update") and rng.random() < rate:
            what = rng.choice(["fit", "predict"])
            out.append(["fault", what, rng.choice([0, 0, 1, 2, 3, 5]), rng.choice(EXCS)])
        out.append(op)
    return dict(space=space, opt=o, ops=out, simtime=t, seed=rng.randrange(10 ** 6), values="unique",
                ambient=rng.randrange(1, 10 ** 6))


class Fired(Exception):
    pass


class D(c13.D):
    failed = None
    recovered = 0
    dirty = False

    # the portfolio's gains and the list of surrogates after a failure are not part of this property
    def judge_gains(self, tr):
        pass

    def judge_models(self, res):
        ids = [i for i in self.ids_of(res.models)]
        self.ctx.check(len({id(m) for m in res.models}) == len(res.models), "models", "a surrogate is listed twice")
        if self.ids and self.ids[-1] is not None and ids:
            self.ctx.check(ids[-1] == self.ids[-1], "models", lambda: "latest surrogate is %r, trained %r" % (
                ids[-1], self.ids[-1]))

    def state(self):
        o = self.opt
        return dict(X=plain(o.Xi), y=plain(o.yi), models=[id(m) for m in o.models])

    def tell(self, items, batch, fit):
        if self.planned is None:
            r = super().tell(items, batch, fit)
            if self.dirty and fit and self.must_fit:
                self.dirty = False
                self.recovered += 1
                self.ctx.count("recovered")
            return r
        ctx, o = self.ctx, self.opt
        mark = len(oracle.log_of(self.tag))
        self.before_tell(items, fit)
        xs = [list(x) for x, _ in items]
        ys = [list(y) if self.ps else y for _, y in items]
        kw = {} if fit else dict(fit=False)
        fired0 = spies.COUNT.get(self.tag, {}).get("fired", 0)
        self.models0 = list(o.models)
        self.arm()
        try:
            if batch:
                res = o.tell(xs, ys, **kw)
            else:
                res = o.tell(xs[0], ys[0], **kw)
        except spies_exc(self.planned[3]) as e:
            self.disarm()
            if spies.COUNT.get(self.tag, {}).get("fired", 0) == fired0:
                raise Violation("exception:tell:%s" % type(e).__name__, str(e))
            self.on_failure("tell")
            self.after_failed_tell(items, mark)
            return None
        except Exception as e:
            self.disarm()
            raise Violation("other-exception:tell", "the injected failure became %s: %s" % (type(e).__name__, e))
        self.disarm()
        ctx.check(spies.COUNT.get(self.tag, {}).get("fired", 0) == fired0, "failure-swallowed",
                  "the surrogate failed during tell, which returned normally")
        self.record(items)
        if fit and self.must_fit:
            self.fitted = True
        ctx.ev("tell", batch, fit, [(plain(x), y) for x, y in items])
        self.after_tell(items, fit, res)
        return res

    def after_failed_tell(self, items, mark):
        ctx, o = self.ctx, self.opt
        n0, n1 = len(self.X), len(o.Xi)
        ctx.check(len(o.Xi) == len(o.yi), "half-recorded", lambda: "%d points and %d values" % (len(o.Xi), len(o.yi)))
        ctx.check(n1 in (n0, n0 + len(items)), "half-recorded",
                  lambda: "%d observations before, %d delivered, %d now" % (n0, len(items), n1))
        if n1 > n0:
            self.record(items)
        ctx.ev("failed-tell", [(plain(x), y) for x, y in items], n1 - n0)
        if self.X:
            r = ctx.sut("get_result", o.get_result)
            self.check_record(r, "after-failure")
            # surrogates trained earlier stay, the one of this delivery may have joined them
            old, new, q = [id(m) for m in self.models0], [id(m) for m in r.models], self.o.get("queue")
            ctx.check(new == old or bool(new) and new == (old + [new[-1]])[-(q or len(new)):], "models-lost",
                      lambda: "%d surrogates before the failure, %d after it, the same ones: %s" % (
                          len(old), len(new), [m in old for m in new]))
        self.ids.append(None)
        if not self.fitted:
            self.unsure = True
        self.dirty = True

    def judge_suggestion(self, tr, what):
        super().judge_suggestion(tr, what)

    def ask(self):
        """Without a working surrogate asking may be refused; otherwise it must work."""
        if not self.dirty:
            if self.has_model and self.left <= 0 and not self.fitted:
                return super().ask()
            return super().ask()
        try:
            x = self.opt.ask()
        except Exception as e:
            self.ctx.check(self.left <= 0, "ask-refused", lambda: "initial point refused: %s" % e)
            self.ctx.ev("ask-refused", type(e).__name__)
            self.ctx.count("asks_refused")
            return None
        why = member(x, self.space)
        self.ctx.check(why is None, "not-a-member", lambda: "%r: %s" % (x, why))
        self.ctx.ev("ask", plain(x))
        return x

    def askn(self, n, strat):
        ctx, o = self.ctx, self.opt
        if self.planned is None:
            try:
                pts = list(o.ask(n_points=n, strategy=strat))
            except Exception as e:
                raise Violation("exception:ask-n:%s" % type(e).__name__, "ask(%d) raised %s" % (n, e))
            ctx.ev("askn", plain(pts))
            ctx.check(len(pts) == n, "batch-size", lambda: "asked for %d, got %d" % (n, len(pts)))
            for x in pts:
                why = member(x, self.space)
                ctx.check(why is None, "not-a-member", lambda: "%r: %s" % (x, why))
            return pts
        before = dict(self.state(), gains=plain(getattr(o, "gains_", None)))
        nx = plain(o.ask()) if self.fitted and self.left <= 0 and not self.dirty else None
        fired0 = spies.COUNT.get(self.tag, {}).get("fired", 0)
        self.arm()
        pts = None
        try:
            pts = list(o.ask(n_points=n, strategy=strat))
        except spies_exc(self.planned[3]) as e:
            if spies.COUNT.get(self.tag, {}).get("fired", 0) == fired0:
                raise Violation("exception:ask-n:%s" % type(e).__name__, str(e))
            self.on_failure("ask-n")
            ctx.ev("failed-askn", n, strat)
        except Exception as e:
            raise Violation("other-exception:ask-n", "the injected failure became %s: %s" % (type(e).__name__, e))
        finally:
            self.disarm()
        after = dict(self.state(), gains=plain(getattr(o, "gains_", None)))
        for k in before:
            ctx.check(same(before[k], after[k]), "left-behind:" + k,
                      lambda: "a batch that failed changed %s from %r to %r" % (k, before[k], after[k]))
        if nx is not None:
            now = plain(ctx.sut("ask", o.ask))
            ctx.check(same(nx, now), "left-behind:suggestion", lambda: "suggestion was %r, is %r" % (nx, now))
        if pts is None:
            return self_again(self, n, strat)
        ctx.check(spies.COUNT.get(self.tag, {}).get("fired", 0) == fired0, "failure-swallowed",
                  "the surrogate failed during ask(%d), which returned normally" % n)
        ctx.check(len(pts) == n, "batch-size", lambda: "asked for %d, got %d" % (n, len(pts)))
        ctx.ev("askn", plain(pts))
        return pts

    planned = None

    def arm(self):
        _, what, off, exc = self.planned
        c = spies.COUNT.get(self.tag, {}).get(what, -1)
        spies.FAULTS[self.tag] = {what: {str(c + 1 + off): exc}}

    def disarm(self):
        spies.FAULTS.pop(self.tag, None)

    def on_failure(self, where):
        ctx = self.ctx
        _, what, off, exc = self.planned
        ctx.fault("surrogate_%s_failure:%s" % (what, exc))
        ctx.count("failures")
        ctx.cover.add("%s|%d|%s|%s|%s|%s|%d" % (what, off, exc, where, self.o["acq"], self.opt.acq_optimizer,
                                                self.fitted))
        self.planned = None

    def step(self, op):
        if op[0] == "fault":
            self.next_fault = op
            return
        self.planned, self.next_fault = self.next_fault, None
        if op[0] == "update" and (self.planned is not None or self.dirty):
            before = self.state()
            if self.planned is not None:
                self.arm()
            try:
                self.opt.update_next()
            except BaseException as e:
                if self.planned is None and not self.dirty:
                    raise
                self.on_failure("update_next") if self.planned is not None else None
            finally:
                self.disarm()
            self.ctx.check(same(before, self.state()) or before == self.state(), "left-behind:update_next",
                           "a failing update_next changed the record")
            self.planned = None
            return
        if op[0] == "peek" and self.dirty:
            op = ["ask"]
        if op[0] == "update":
            world_step = super().step
            world_step(op)
            self.planned = None
            return
        mark = len(oracle.log_of(self.tag))
        super().step(op)
        self.planned = None

    next_fault = None


def self_again(d, n, strat):
    """The same batch asked for again, now with a working surrogate."""
    d.planned = None
    return d.askn(n, strat)


def spies_exc(name):
    return spies.EXC[name]


def run(ctx, scn):
    spies.reset()
    d = D(ctx, scn)
    for op in scn["ops"]:
        d.step(op)
    # faults stop: the next delivery must recover
    from sim.loop import tell_back
    d.planned = d.next_fault = None
    for _ in range(max(1, d.left + 1)):
        tell_back(d)
    ctx.check(not d.dirty or not d.must_fit, "no-recovery", "a delivery with a working surrogate did not recover")
    for op in (["ask"], ["result"], ["askn", 2, "cl_min"], ["tell", 0, 1]):
        d.step(op)
    world.flags_from(ctx, scn["ops"])
    ctx.simtime = scn["simtime"]
    if ctx.stats.get("failures") and d.recovered:
        ctx.count("nontrivial")
