"""C08 The random seed and the history decide everything."""
import copy as copy_
import gc
import random

import numpy as np

from sim import jobsim, results, seam, sibling, spies, world
from sim.core import Ctx, Violation, rng_for
from sim.props.c15 import D, observe, predictions, same_deep
from sim.world import freeze, plain, random_point

RUNS = dict(quick=900, thorough=16000)
LEVEL = "exploration"
RULE = ("one case per seeded configuration and history executed two or three times under different ambient nondeterminism "
        "(number of jobs, execution order of parallel tasks, global random state, entropy, clock, memory pressure, hash seed "
        "of a fresh interpreter) and compared bit by bit; distinct event logs among those where the ambient source that "
        "differs was really used or set")
COVER = "distinct (kind of workload, surrogate, acquisition, its optimiser, generator, what differed)"
REAL = ["skopt.Optimizer, minimisers, BayesSearchCV", "initial point generators", "GP, forest and gradient boosting surrogates",
        "scipy and scikit-learn below them", "joblib.Parallel"]
STUB = ["joblib's pools (seeded execution order, pickle round trip for process pools)", "clock, entropy (LD_PRELOAD seam)",
        "global random generators (seeded differently)", "objective", "estimator of searches (scripted scores)"]
SHRINK_LISTS = ["ops", "twins"]
TIMEOUT = 300


def generate(rng, tier, i):
    kind = rng.choice(["loop", "loop", "loop", "min", "min", "search"])
    space = world.gen_space(rng)
    allcat = all(d["t"] == "cat" for d in space)
    est = rng.choice(["spy", "spy", "GP1", "GP1", "GP", "RF", "ET", "GBRT", "RF5", "ET5", "GB3", "dummy"])
    if allcat and est == "GP1":
        est = "GP"
    ps = rng.random() < 0.08 and est not in ("dummy", "GP")
    o = world.gen_opt(rng, space, [est], ["EIps", "PIps"] if ps else None)
    if ps and o["acqopt"] == "auto":
        o["acqopt"] = "sampling"
    o["n_points"] = rng.choice([60, 150])
    scn = dict(kind=kind, space=space, opt=o, seed=rng.randrange(10 ** 6), state=int(rng.random() < .25), values="unique")
    n = {"GP": 2, "RF": 3, "ET": 3, "GBRT": 2}.get(est, 4)
    if kind == "loop":
        scn["ops"], scn["simtime"] = world.gen_schedule(rng, n + rng.randrange(3))
    elif kind == "min":
        scn.update(fn=rng.choice(["base", "base", "dummy", "gp", "gp", "forest", "forest", "gbrt"]), n=rng.choice([1, 2, 3]),
                   x0=rng.choice([0, 0, 1, 2]), y0=rng.randrange(2), own=rng.randrange(3))
        if scn["fn"] == "gp" and allcat:
            scn["own"] = 0
    else:
        if est == "dummy":
            o["est"] = "spy"
        if ps:
            o["acq"] = "EI"
        if space[0]["t"] == "cat" and o["acqopt"] == "lbfgs":
            o["acqopt"] = "sampling"        # the second space may have only this dimension
        scn.update(n=rng.choice([2, 3, 4]), batch=rng.choice([1, 2, 3]), two=rng.randrange(2), pre=rng.choice(["2*n_jobs", "all", 2]))
    twins = []
    for _ in range(rng.choice([1, 2])):
        t = dict(jobs=rng.choice([None, 2, 3, 5, -1]), policy=rng.choice(["random", "random", "lifo", "straggler", "eager"]),
                 order=rng.randrange(10 ** 6), npseed=rng.randrange(2 ** 31), pyseed=rng.randrange(2 ** 31), noise=rng.randrange(2),
                 entropy=rng.randrange(10 ** 6), clock=[rng.randrange(1, 10 ** 8), rng.randrange(1, 2 * 10 ** 9),
                                                        rng.choice([0, 1000, 10 ** 9, 3600 * 10 ** 9])], cpus=rng.choice([1, 2, 8, 64]))
        twins.append(t)
    if i % 30 == 11:
        twins = [dict(twins[0], hashseed=rng.choice([1, 2, 3, 99]))]
    scn["twins"] = twins
    scn["ambient"] = rng.randrange(1, 10 ** 6)
    return scn


def simplify(scn):
    from sim.loop import simplify_space
    yield from simplify_space(scn)
    for k, v in (("state", 0), ("n", 1), ("batch", 1), ("x0", 0), ("two", 0), ("fn", "base"), ("own", 0)):
        if scn.get(k, v) != v:
            s = copy_.deepcopy(scn)
            s[k] = v
            yield s
    for i, t in enumerate(scn["twins"]):
        for k, v in (("jobs", None), ("policy", "random"), ("npseed", 1), ("pyseed", 1), ("noise", 0), ("entropy", 1),
                     ("clock", [1, 1, 0]), ("cpus", 8), ("hashseed", None)):
            if t.get(k) is not None and t[k] != v:
                s = copy_.deepcopy(scn)
                s["twins"][i][k] = v
                yield s


BASE = dict(jobs=None, policy="fifo", order=0, npseed=1, pyseed=1, noise=0, entropy=1, clock=[1000, 10 ** 9, 1000], cpus=8)


def noise(t):
    """What other code in the process may do between two steps."""
    if t["noise"]:
        np.random.random_sample(3)
        random.random()
        if t["noise"] % 2:
            [object() for _ in range(50)]


class Objective:
    def __init__(self, seed, t, timed=False):
        self.seed, self.t, self.n, self.timed = seed, t, 0, timed

    def __call__(self, x):
        noise(self.t)
        y = world.value(self.seed, x, self.n)
        self.n += 1
        return (y, 1.0 + self.n / 8.0) if self.timed else y


class Guess:
    """Predictions of the last model of a result."""

    def __init__(self, res):
        self.v = predictions(res)

    def __repr__(self):
        return repr(self.v)


def close(a, b):
    if a is None or b is None:
        return a is b
    return len(a) == len(b) and all(np.shape(x) == np.shape(y) and np.allclose(x, y, rtol=1e-9, atol=1e-12) for x, y in zip(a, b))


def rs(scn):
    return np.random.RandomState(scn["opt"]["rs"]) if scn["state"] else scn["opt"]["rs"]


def expected(ctx, scn, t, res):
    """What the last surrogate expects to be the minimum, for a given seed."""
    from skopt import utils
    est = scn["opt"]["est"] if scn["kind"] == "loop" or scn.get("fn") == "base" else scn["fn"] + str(scn["own"])
    if not res.models or "ps" in scn["opt"]["acq"] or est not in ("spy", "GP1", "GP", "gp0", "gp1", "gp2"):
        return []
    seed = scn["seed"] % 50
    out = []
    mk = (lambda: np.random.RandomState(seed)) if scn["state"] else (lambda: seed)
    if scn["seed"] % 3 == 0 and not any(d["t"] == "cat" for d in scn["space"]):
        noise(t)
        x, v = ctx.sut("expected_minimum", utils.expected_minimum, res, n_random_starts=2, random_state=mk())
        out += [plain(x), float(v)]
    if scn["seed"] % 3 == 1:
        noise(t)
        x, v = ctx.sut("expected_minimum_random_sampling", utils.expected_minimum_random_sampling, res, n_random_starts=40,
                       random_state=mk())
        out += [plain(x), float(v)]
    if out:
        ctx.probe("expected-minimum")
    return [["expected", out]] if out else []


class E(D):
    def after_tell(self, items, fit, res):
        self.trace.append(["tell", freeze(res), Guess(res) if fit and self.must_fit else None])
        self.check_record(res, "tell")
        self.told += 1


def loop(ctx, scn, t):
    o = dict(scn["opt"])
    if t["jobs"]:
        o["jobs"] = t["jobs"]
    d = E.__new__(E)
    d.start()
    d.__init__(ctx, dict(scn, opt=o), random_state=rs(scn))
    for op in scn["ops"]:
        noise(t)
        d.step(op)
    end = observe(d)
    end.pop("models", None)
    last = expected(ctx, scn, t, d.opt.get_result()) if d.X else []
    return d.trace + [["end", end, Guess(d.opt.get_result()) if d.X else None]] + last


def minimise(ctx, scn, t):
    import skopt
    from skopt.optimizer import base_minimize
    o = scn["opt"]
    space = scn["space"]
    r = rng_for("c08", scn["seed"])
    ps = "ps" in o["acq"]
    f = Objective(scn["seed"], t, ps and scn["fn"] == "base")
    dims = world.build_space(space)
    trace = []
    x0 = [random_point(r, space) for _ in range(scn["x0"])] or None
    y0 = None
    if x0 and scn["y0"]:
        y0 = [[0.5 + k, 1.0] if f.timed else 0.5 + k for k in range(len(x0))]
    n_init = o["n_init"]
    kw = dict(n_calls=n_init + scn["n"] + (len(x0) if x0 and y0 is None else 0), random_state=rs(scn),
              model_queue_size=o.get("queue"), x0=x0, y0=y0, callback=lambda res: trace.append(freeze(res)))
    if o["gen"]:
        kw["initial_point_generator"] = world.make_generator(o["gen"])
    est = None
    if scn["fn"] == "dummy":
        res = ctx.sut("dummy_minimize", skopt.dummy_minimize, f, dims, **kw)
        return trace + [["result", freeze(res), None]]
    kw.update(n_initial_points=n_init, n_points=o["n_points"])
    if t["jobs"]:
        kw["n_jobs"] = t["jobs"]
    seed = scn["seed"] % 1000
    if scn["fn"] == "base":
        res = ctx.sut("base_minimize", base_minimize, f, dims, world.build_estimator(o["est"], seed=seed), acq_func=o["acq"],
                      acq_optimizer=o["acqopt"], n_restarts_optimizer=3, **kw)
    elif scn["fn"] == "gp":
        est = {0: None, 1: world.build_estimator("GP1", seed=seed), 2: None}[scn["own"]]
        acqopt = "sampling" if all(d["t"] == "cat" for d in space) else ["auto", "lbfgs", "sampling"][scn["own"]]
        res = ctx.sut("gp_minimize", skopt.gp_minimize, f, dims, base_estimator=est, acq_optimizer=acqopt, n_restarts_optimizer=3, **kw)
    elif scn["fn"] == "forest":
        est = {0: "ET", 1: "RF", 2: results.small_forest(seed)}[scn["own"]]
        res = ctx.sut("forest_minimize", skopt.forest_minimize, f, dims, base_estimator=est, **kw)
    else:
        est = {0: None, 1: world.build_estimator("GB3", seed=seed), 2: world.build_estimator("GB3", seed=seed)}[scn["own"]]
        res = ctx.sut("gbrt_minimize", skopt.gbrt_minimize, f, dims, base_estimator=est, **kw)
    return trace + [["result", freeze(res), Guess(res)]] + expected(ctx, scn, t, res)


def search(ctx, scn, t):
    from skopt import BayesSearchCV
    o = scn["opt"]
    dims = world.build_space(scn["space"])
    space = {"abcd"[k]: d for k, d in enumerate(dims)}
    spaces = [(space, scn["n"]), ({"a": dims[0]}, 2)] if scn["two"] else space
    okw = dict(base_estimator=world.build_estimator(o["est"], seed=scn["seed"] % 1000), n_initial_points=min(2, o["n_init"]),
               acq_func=o["acq"], acq_optimizer=o["acqopt"], acq_optimizer_kwargs=dict(
                   n_points=o["n_points"], n_restarts_optimizer=2, n_jobs=t["jobs"] or 1))
    if isinstance(okw["base_estimator"], str):
        okw["n_jobs"] = t["jobs"] or 1
    if o["gen"]:
        okw["initial_point_generator"] = world.make_generator(o["gen"])
    s = ctx.sut("BayesSearchCV", BayesSearchCV, spies.ScriptedEstimator(tag="cv", seed=scn["seed"] % 100), spaces, n_iter=scn["n"],
                n_points=scn["batch"], optimizer_kwargs=okw, cv=3, random_state=rs(scn), n_jobs=t["jobs"], pre_dispatch=scn["pre"])
    trace = []
    ctx.sut("search-fit", s.fit, np.arange(24.0).reshape(12, 2), np.array([0, 1] * 6), callback=lambda res: trace.append(freeze(res)))
    return trace + [[sorted((k, repr(plain(v))) for k, v in p.items()) for p in s.cv_results_["params"]],
                    plain(s.cv_results_["mean_test_score"]), plain(s.cv_results_["split1_test_score"]),
                    plain(s.cv_results_["rank_test_score"]), s.best_index_, repr(sorted(s.best_params_.items())),
                    [[freeze(r), Guess(r)] for r in s.optimizer_results_]]


def execute(ctx, scn, t):
    """The workload under one ambient; -> trace, what was used."""
    spies.reset()
    np.random.seed(t["npseed"])
    random.seed(t["pyseed"])
    if seam.PRESENT:
        seam.entropy_on(t["entropy"])
        seam.clock_on(mono=t["clock"][0] * seam.NS, real=t["clock"][1] * seam.NS, tick=t["clock"][2])
    jobsim.install(rng_for("jobs", t["order"]), t["policy"], t["cpus"])
    try:
        trace = {"loop": loop, "min": minimise, "search": search}[scn["kind"]](ctx, scn, t)
    finally:
        jobsim.remove()
    return trace, {k: jobsim.STATE[k] for k in ("tasks", "calls", "swaps")}


def elsewhere(arg):
    scn, t = arg
    return execute(Ctx("C08", "/nonexistent"), scn, t)


def agree(a, b):
    """Bit by bit, except that a model's predictions may be summed in another order."""
    if isinstance(a, Guess):
        return isinstance(b, Guess) and close(a.v, b.v)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    return same_deep(a, b)


def run(ctx, scn):
    base, _ = execute(ctx, scn, BASE)
    for t in scn["twins"]:
        if t.get("hashseed") is not None:
            other, used = sibling.call("sim.props.c08", "elsewhere", (scn, t), t["hashseed"])
            ctx.fault("other_interpreter_and_hash_seed")
        else:
            other, used = execute(ctx, scn, t)
        what = [k for k in ("jobs", "hashseed") if t.get(k) is not None] + ["ambient"]
        for n, (a, b) in enumerate(zip(base, other)):
            ctx.check(agree(a, b), "differs:" + scn["kind"], lambda: "step %d: %.400r, under %r %.400r" % (n, a, t, b))
        ctx.check(len(base) == len(other), "differs:" + scn["kind"], lambda: "%d against %d observations" % (len(base), len(other)))
        ctx.ev("twin", used)
        ctx.fault("parallel_tasks", used["tasks"])
        ctx.fault("tasks_out_of_order", used["swaps"])
        ctx.fault("ambient_changed")
        o = scn["opt"]
        ctx.cover.add("%s|%s|%s|%s|%s|%s" % (scn.get("fn", scn["kind"]), o["est"], o["acq"], o["acqopt"], o["gen"], "+".join(what)))
    ctx.simtime += scn.get("simtime", 0)
    ctx.ev("base", repr(base))
    if base:
        ctx.count("nontrivial")
