"""C20 The expected minimum belongs to the last surrogate of the result."""
import numpy as np

from sim import spies, world
from sim.core import rng_for
from sim.loop import Driver, simplify_space
from sim.world import freeze, member, plain, random_point, same

RUNS = dict(quick=1200, thorough=15000)
RULE = ("one case per seeded delivery history after which the expected minimum of results is computed with seeded random "
        "states, disturbed global random states and failing surrogates; distinct event logs among those that judged at "
        "least two reported minima")
COVER = "distinct (surrogate, time-aware or not, kinds of dimensions, queue size, form of the random state, function)"
REAL = ["expected_minimum, expected_minimum_random_sampling", "search space and transformations", "scipy's minimiser",
        "skopt.Optimizer making the results", "in a part of the runs Gaussian process and forest surrogates"]
STUB = ["random generators (seeded, disturbed)", "in most runs the surrogate (closed form, fails on command)", "objective",
        "workers and delivery channel"]
ASSUMPTIONS = ["a value within 1e-6 of the surrogate's range counts as equal",
               "the best of 400 samples must not be worse than 15 % of 200 points the checker draws itself"]
simplify = simplify_space


def generate(rng, tier, i):
    space = world.gen_space(rng, transforms=True, dtypes=False)
    est = rng.choice(["spy", "spy", "spy", "GP1", "RF5", "GB3"])
    if all(d["t"] == "cat" for d in space) and est == "GP1":
        est = "spy"
    ps = rng.random() < 0.15
    o = world.gen_opt(rng, space, [est], ["EIps", "PIps"] if ps else None, queue=True)
    o["n_points"] = 60
    o["acqopt"] = "sampling"
    long = est != "GP1" and rng.random() < 0.15
    if long:          # many models are kept
        o["queue"] = rng.choice([None, None, 12])
    ops, t = world.gen_schedule(rng, (24 if long else rng.choice([6, 9])) if est == "spy" or long else 5)
    return dict(space=space, opt=o, ops=ops, simtime=t, seed=rng.randrange(10 ** 6), values=rng.choice(["unique", "ties", "slope"]),
                starts=rng.choice([0, 1, 2, 5]), full=int(i % 40 == 7), rs=rng.choice(["int", "state", "none"]),
                fail=rng.choice([None, None, 0, 1, 7]), ambient=rng.randrange(1, 10 ** 6))


def draw(r, space):
    """A point drawn from the prior, without the code under test."""
    out = []
    for e in space:
        if e["t"] == "cat":
            out.append(r.choices(e["cats"], e.get("prior"))[0])
        elif e.get("prior") == "log-uniform":
            v = e["low"] * (e["high"] / e["low"]) ** r.random()
            out.append(min(max(int(round(v)), e["low"]), e["high"]) if e["t"] == "int" else min(max(v, e["low"]), e["high"]))
        else:
            out.append(r.randint(e["low"], e["high"]) if e["t"] == "int" else r.uniform(e["low"], e["high"]))
    return out


class Rig:
    """Judges what is reported for one result."""

    def __init__(self, ctx, scn, d, res):
        self.ctx, self.scn, self.d, self.res = ctx, scn, d, res
        self.space = res.space
        r = rng_for("c20", scn["seed"], len(res.x_iters))
        self.pts = [draw(r, scn["space"]) for _ in range(200)]
        self.model = res.models[-1]
        self.grid = self.predict(self.pts)
        self.scale = max(float(np.ptp(self.grid)), float(np.max(np.abs(self.grid))) * 1e-6, 1e-12)

    def predict(self, pts):
        y = np.asarray(self.model.predict(self.space.transform([list(p) for p in pts])), float)
        return y[:, 0] if y.ndim == 2 else y

    def rs(self, k=0):
        s = (self.scn["seed"] + k) % 100000
        return {"int": s, "state": np.random.RandomState(s), "none": None}[self.scn["rs"]]

    def judge(self, out, what, rounded):
        ctx = self.ctx
        x, v = out
        ctx.check(isinstance(x, (list, tuple)) and len(x) == len(self.scn["space"]), "form:" + what, lambda: repr(x))
        if rounded:
            why = member(x, self.scn["space"])
        else:      # components of integer dimensions need not be rounded
            why = next(("%r outside %r" % (c, e) for c, e in zip(x, self.scn["space"]) if not e["low"] <= c <= e["high"]), None)
        ctx.check(why is None, "not-a-member:" + what, lambda: "%r: %s" % (x, why))
        own = float(self.predict([x])[0])
        ctx.check(abs(own - float(v)) <= 1e-6 * self.scale, "value:" + what,
                  lambda: "reported %r at %r, the last surrogate predicts %r" % (v, x, own))
        ctx.count("minima_judged")
        return float(v)


def run(ctx, scn):
    from skopt.utils import expected_minimum, expected_minimum_random_sampling
    spies.reset()
    d = Driver(ctx, scn)
    for op in scn["ops"]:
        d.step(op)
    k = 0
    while not d.fitted and k < 8:
        x = d.ask()
        if x is None:
            x = random_point(rng_for("c20t", k), d.space)
        d.tell([(x, d.value(x))], False, True)
        k += 1
    cat = any(e["t"] == "cat" for e in scn["space"])
    results = [r for r, _ in d.results if r.models]
    results = [results[-1], results[len(results) // 2]] if len(results) > 2 else results
    for res in results:
        rig = Rig(ctx, scn, d, res)
        before = freeze(res)
        ids = ([id(m) for m in res.models], id(res.space), list(res.keys()))
        np.random.seed(scn["seed"] % 1000)
        state = np.random.get_state()[1].copy()
        calls = [("sampling", lambda k=0: expected_minimum_random_sampling(res, n_random_starts=400, random_state=rig.rs(k)))]
        if not cat:
            calls.append(("search", lambda k=0: expected_minimum(res, n_random_starts=scn["starts"], random_state=rig.rs(k))))
        elif scn["full"]:
            calls.append(("categories", lambda k=0: expected_minimum(res, random_state=rig.rs(k))))
        for what, fn in calls:
            out = ctx.sut(what, fn)
            v = rig.judge(out, what, what != "search")
            if what == "search":
                at = float(rig.predict([res.x])[0])
                ctx.check(v <= at + 1e-6 * rig.scale, "worse-than-observed",
                          lambda: "reported %r, the prediction at the best observed point %r is %r" % (v, res.x, at))
            else:
                better = int(np.sum(rig.grid < v - 1e-6 * rig.scale))
                ctx.check(better <= 30, "poor-minimum", lambda: "%d of 200 points are predicted to be smaller than %r" % (better, v))
            if scn["rs"] != "none":
                np.random.random_sample(5)
                again = ctx.sut(what, fn)
                ctx.check(same(plain(again[0]), plain(out[0])) and float(again[1]) == float(out[1]), "not-repeatable:" + what,
                          lambda: "%r then %r" % (out, again))
                np.random.seed(scn["seed"] % 1000)
                ctx.sut(what, fn)
                ctx.check((np.random.get_state()[1] == state).all(), "global-random-state", what)
            other = ctx.sut(what, fn, 1)
            rig.judge(other, what, what != "search")
            ctx.ev(what, plain(out[0]), round(float(out[1]), 6))
            ctx.cover.add("%s|%s|%s|%s|%s|%s" % (scn["opt"]["est"], "ps" in scn["opt"]["acq"], "".join(sorted({e["t"][0] for e in scn["space"]})),
                                              scn["opt"].get("queue"), scn["rs"], what))
        ctx.check(freeze(res) == before and ids == ([id(m) for m in res.models], id(res.space), list(res.keys())),
                  "result-changed", "computing the expected minimum changed the result")
        # a surrogate that fails: the caller learns of it, nothing else happens
        if scn["fail"] is not None and scn["opt"]["est"] == "spy":
            n = spies.COUNT.get(d.tag, {}).get("predict", -1) + 1
            spies.FAULTS[d.tag] = dict(predict={str(n + scn["fail"]): "injected"})
            fired = spies.COUNT.get(d.tag, {}).get("fired", 0)
            what, fn = calls[-1]
            err = out = None
            try:
                out = fn()
            except Exception as e:
                err = e
            spies.FAULTS.clear()
            if spies.COUNT[d.tag].get("fired", 0) > fired:
                ctx.fault("failing_surrogate")
                ctx.check(err is not None, "failure-swallowed:" + what, lambda: "reported %r" % (out,))
            else:
                ctx.check(err is None, "raised:" + what, lambda: repr(err))
            ctx.check(freeze(res) == before, "result-changed", "a failing surrogate changed the result")
            rig.judge(ctx.sut(what, fn), what, what != "search")
    world.flags_from(ctx, scn["ops"])
    ctx.simtime = scn["simtime"]
    if ctx.stats.get("minima_judged", 0) >= 2:
        ctx.count("nontrivial")
