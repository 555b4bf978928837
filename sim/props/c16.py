"""C16 Threads do not disturb each other."""
import copy as copy_
import os
import pickle

import numpy as np

from sim import results, spies, threadsim, world
from sim.core import Violation, rng_for
from sim.props import c09
from sim.props.c09 import Boom, TRACES, give_way, trace       # noqa
from sim.props.c15 import same_deep
from sim.world import plain

RUNS = dict(quick=1100, thorough=16000)
LEVEL = "exploration"
RULE = ("one case per seeded set of two to four threads (optimizations that share arguments; uses of one trained surrogate, one "
        "result, one space, one generator; savers and loaders) that are preempted at seeded source lines; distinct event logs "
        "among those with at least one preemption inside the code under test")
COVER = "distinct (source line at which a thread was preempted)"
REAL = ["skopt (optimizers, minimisers, search, spaces, generators, surrogates, acquisition, dump/load)", "scikit-learn, scipy and "
        "joblib below it", "threads of the interpreter"]
STUB = ["the choice of the thread that runs and of the lines at which it is preempted (seeded)", "locks made by the code under "
        "test (hand the baton on)", "objective and callbacks (scripted)", "surrogate in part of the runs (recording regressor)"]
SHRINK_LISTS = ["actors"]
TIMEOUT = 240
LIBS = ("/scipy/stats/", "/scipy/optimize/", "/sklearn/", "/joblib/")
USES = ["predict", "predict", "acq", "space", "generate", "file", "expect", "named"]


def generate(rng, tier, i):
    scn = c09.generate(rng, tier, i)
    actors = []
    shared = rng.choice(["use", "use", "mixed", "opt"])
    pick = rng.choice(USES)
    n = rng.choice([2, 2, 2, 3, 4])
    for k in range(n):
        if shared == "opt" or (shared == "mixed" and k % 2):
            a = scn["actors"][k % len(scn["actors"])]
            a = dict(a, rs=rng.randrange(10 ** 6), seed=rng.randrange(10 ** 6))
            if a["kind"] == "loop":
                a["ops"] = a["ops"][:rng.choice([4, 7])]
            if "n" in a:
                a["n"] = min(a["n"], 2)
            a["fits"] = 1
            a["verbose"] = 0
            a["o"] = dict(a["o"], n_points=30)
        else:
            kind = pick if rng.random() < .7 else rng.choice(USES)
            a = dict(kind=kind, n=rng.choice([1, 2, 4]), rs=rng.randrange(10 ** 6), seed=rng.randrange(10 ** 6), boom=None, form="space")
        actors.append(a)
    scn["actors"] = actors
    fine = rng.random() < .5
    scn.update(mean=rng.choice([2, 5, 15, 40] if fine else [15, 60, 200, 600]), libs=int(rng.random() < .4),
               policy=rng.choice(["random", "rare", "rare", "meet", "meet", "meet", "sticky", "bursty", "stall"]), first=int(rng.random() < .5),
               model=rng.choice(["GP1", "GP1", "GPn", "GPr", "RF5", "ET5", "GB3", "multi"]))
    if all(d["t"] == "cat" for d in scn["space"]):
        scn["model"] = rng.choice(["RF5", "ET5", "GB3", "ham"])
    return scn


def simplify(scn):
    for k, v in (("libs", 0), ("model", "RF5"), ("policy", "random"), ("mean", 15), ("mean", 60)):
        if scn[k] != v:
            s = copy_.deepcopy(scn)
            s[k] = v
            yield s
    yield from c09.simplify(scn)


# ------------------------------------------------------------------ what is shared on top of C09's pool
class Pool(c09.Pool):
    def __init__(self, scn, where):
        super().__init__(scn)
        from skopt.space import Space
        from skopt.utils import create_result
        space = scn["space"]
        self.where = where
        r = rng_for("c16", scn["seed"])
        own = Space([world.build_dim(d) for d in space])
        self.result = None
        kind = scn["model"]
        if any(a["kind"] in ("predict", "acq", "expect", "file") for a in scn["actors"]):
            pts = [world.random_point(r, space) for _ in range(6)]
            ys = [world.value(scn["seed"], p, n) for n, p in enumerate(pts)]
            if kind != "multi":
                if kind in ("GP1", "GPn", "GPr"):
                    own.set_transformer("normalize")
                X = np.asarray(own.transform(pts), float).reshape(len(pts), -1)
                model = trained(kind, X, ys, scn["seed"] % 1000)
            else:
                X = np.asarray(own.transform(pts), float).reshape(len(pts), -1)
                model = trained(kind, X, np.column_stack([ys, np.arange(1.0, 7.0)]), scn["seed"] % 1000)
            self.trained, self.dim = model, X.shape[1]
            self.best = min(ys)
            self.result = create_result(pts, ys, own, np.random.RandomState(3), dict(args=dict(func=None, x0=pts), function="own"), [model])


def trained(kind, X, y, seed):
    if kind in ("GPn", "GPr", "ham"):
        from skopt.learning import GaussianProcessRegressor
        from skopt.learning.gaussian_process.kernels import ConstantKernel, HammingKernel, Matern, RBF
        k = {"GPn": lambda: ConstantKernel(1.0) * Matern(length_scale=np.full(X.shape[1], 0.7), nu=2.5),
             "GPr": lambda: ConstantKernel(2.0) + RBF(0.5), "ham": lambda: HammingKernel(np.ones(X.shape[1]))}[kind]()
        m = GaussianProcessRegressor(kernel=k, noise="gaussian" if kind == "GPn" else 1e-3, normalize_y=True, n_restarts_optimizer=0,
                                     random_state=seed)
        return m.fit(X, y)
    if kind == "multi":
        from sklearn.multioutput import MultiOutputRegressor
        return MultiOutputRegressor(world.build_estimator("RF5", seed=seed)).fit(X, y)
    return world.build_estimator(kind, seed=seed).fit(X, y)


# ------------------------------------------------------------------ uses
def call(ctx, a, what, fn, *args, **kw):
    return ctx.sut(what, fn, *args, **kw)


def note(*v):
    trace().append(plain(list(v)))


def predict_actor(ctx, scn, pool, a):
    r = np.random.RandomState(a["rs"])
    m = pool.trained
    for k in range(a["n"]):
        X = r.uniform(size=(1 + k % 3, pool.dim))
        if scn["model"] == "multi":
            note("predict", np.asarray(call(ctx, a, "predict", m.predict, X)))
            continue
        note("predict", np.asarray(call(ctx, a, "predict", m.predict, X)))
        out = call(ctx, a, "predict", m.predict, X, return_std=True)
        note("std", np.asarray(out[0]), np.asarray(out[1]))
        if scn["model"] in ("GP1", "GPn", "GPr"):
            out = call(ctx, a, "predict", m.predict, X[:1], return_std=True, return_mean_grad=True, return_std_grad=True)
            note("grad", *[np.asarray(o) for o in out])
            out = call(ctx, a, "predict", m.predict, X, return_cov=True)
            note("cov", np.asarray(out[1]))
        elif scn["model"] == "GB3":
            note("quantiles", np.asarray(call(ctx, a, "predict", m.predict, X, return_quantiles=True)))


def acq_actor(ctx, scn, pool, a):
    from skopt import acquisition as q
    r = np.random.RandomState(a["rs"])
    if scn["model"] == "multi":
        return predict_actor(ctx, scn, pool, a)
    m = pool.trained
    grads = scn["model"] in ("GP1", "GPn", "GPr")
    for k in range(a["n"]):
        X = r.uniform(size=(3, pool.dim))
        for f in ("EI", "LCB", "PI"):
            note(f, np.asarray(call(ctx, a, "acquisition", q._gaussian_acquisition, X, m, y_opt=pool.best, acq_func=f,
                                    acq_func_kwargs=pool.akw)))
        if grads:
            for f in ("EI", "LCB", "PI"):
                v, g = call(ctx, a, "acquisition", q.gaussian_acquisition_1D, X[0], m, y_opt=pool.best, acq_func=f,
                            acq_func_kwargs=pool.akw)
                note(f + "-grad", np.asarray(v), np.asarray(g))


def space_actor(ctx, scn, pool, a):
    s = pool.space
    for k in range(a["n"]):
        pts = call(ctx, a, "rvs", s.rvs, 3, random_state=a["rs"] + k)
        note("rvs", pts)
        w = call(ctx, a, "transform", s.transform, pts)
        note("transform", np.asarray(w), list(s.transformed_bounds), s.transformed_n_dims, list(map(list, s.bounds)))
        note("inverse", call(ctx, a, "inverse", s.inverse_transform, w))
        note("member", pts[0] in s, s.is_categorical, s.is_real, s.n_dims)
        note("distance", s.distance(pts[0], pts[1]))
        note("one", [[d.rvs(2, random_state=k), d.transform([p])] for d, p in zip(pool.dims, pts[0])] if k % 2 else 0)
        if k % 3 == 1:
            t = pickle.loads(pickle.dumps(s))
            note("copied", t.rvs(2, random_state=k))


def generate_actor(ctx, scn, pool, a):
    for k in range(a["n"]):
        dims = [copy_.copy(d) for d in pool.dims]
        g = call(ctx, a, "generate", pool.gen.generate, dims, 3 + k, random_state=a["rs"] + k)
        note("design", [list(p) for p in g])


def file_actor(ctx, scn, pool, a):
    import skopt
    r = rng_for("file", a["seed"])
    me = "t%d" % a["rs"]
    for k in range(a["n"]):
        f = results.gen_file(r)
        p = os.path.join(pool.where, me + f["ext"])
        res = results_of(a["seed"] + k, scn["space"])
        kw = results.dump_kw(f)
        call(ctx, a, "dump", skopt.dump, res, p, **kw)
        back = call(ctx, a, "load", skopt.load, p)
        note("loaded", [list(map(repr, x)) for x in back.x_iters], back.func_vals, repr(back.space), sorted(back.specs["args"]))
        call(ctx, a, "dump", skopt.dump, pool.result, p, **kw)        # a result others save at the same time, to a file of one's own
        back = call(ctx, a, "load", skopt.load, p)
        note("shared", [list(map(repr, x)) for x in back.x_iters], back.func_vals, len(back.models), sorted(back.specs["args"]))
    ctx.check(not [n for n in os.listdir(pool.where) if n.startswith(me) and n not in (me + e for e in set(results.EXTS))],
              "left-behind", lambda: "files left: %r" % os.listdir(pool.where))


def results_of(seed, space):
    from skopt.space import Space
    from skopt.utils import create_result
    r = rng_for("results", seed)
    pts = [world.random_point(r, space) for _ in range(4)]
    ys = [world.value(seed, p, n) for n, p in enumerate(pts)]
    return create_result(pts, ys, Space([world.build_dim(d) for d in space]), np.random.RandomState(seed % 100),
                         dict(args=dict(func=world.value, n_calls=4), function="base_minimize"), [])


def expect_actor(ctx, scn, pool, a):
    from skopt.utils import expected_minimum, expected_minimum_random_sampling
    if scn["model"] == "multi":
        return space_actor(ctx, scn, pool, a)
    for k in range(a["n"]):
        x, v = call(ctx, a, "expected-minimum", expected_minimum_random_sampling, pool.result, 8, random_state=a["rs"] + k)
        note("sampled", x, v)
        if scn["model"] in ("GP1", "GPr", "GPn") and all(d["t"] == "real" for d in scn["space"]):
            x, v = call(ctx, a, "expected-minimum", expected_minimum, pool.result, 2, random_state=a["rs"] + k)
            note("minimum", x, v)


def named_actor(ctx, scn, pool, a):
    from skopt import utils
    dims = {c09.NAMES[k]: d for k, d in enumerate(pool.dims)}
    r = rng_for("named", a["seed"])
    for k in range(a["n"]):
        x = world.random_point(r, scn["space"])
        d = call(ctx, a, "point_asdict", utils.point_asdict, dims, x)
        note("dict", sorted((n, repr(v)) for n, v in d.items()))
        note("list", call(ctx, a, "point_aslist", utils.point_aslist, dims, d))
        s = call(ctx, a, "normalize_dimensions", utils.normalize_dimensions, pool.dims)
        note("normalized", repr(s), s.rvs(2, random_state=k), np.asarray(s.transform([x])), pool.space.transform([x]))
        if all(e.get("name") for e in scn["space"]):
            f = utils.use_named_args(pool.dims)(lambda **kw: sorted((n, repr(v)) for n, v in kw.items()))
            note("named", f(x))


ACTORS = dict(c09.ACTORS, predict=predict_actor, acq=acq_actor, space=space_actor, generate=generate_actor, file=file_actor,
              expect=expect_actor, named=named_actor)


# ------------------------------------------------------------------
def where(scn):
    def pred(name):
        return "/skopt/" in name or (scn["libs"] and any(l in name for l in LIBS))
    return pred


def play(ctx, scn, which, rng, preempt):
    spies.reset()
    spies.HOOK[0] = c09.on_fit
    c09.FITS.clear()
    TRACES.clear()
    d = os.path.join(ctx.scratch, "f%d" % ctx.nev)
    os.makedirs(d, exist_ok=True)
    threadsim.install_locks()
    try:
        pool = Pool(scn, d)
        sim = threadsim.Sim(rng, where(scn) if preempt else None, scn["mean"] if preempt else 0, scn["policy"])
        for k in which:
            a = scn["actors"][k]
            TRACES[k] = []
            sim.spawn(k, lambda a=a: ACTORS[a["kind"]](ctx, scn, pool, a))
        try:
            sim.run()
        except threadsim.Deadlock as e:
            raise Violation("deadlock", str(e))
    finally:
        threadsim.remove_locks()
    return {k: TRACES[k] for k in which}, sim


def run(ctx, scn):
    n = len(scn["actors"])
    if not n:
        return
    rng = rng_for("c16", scn["seed"], scn["mean"])

    def together():
        out, s = play(ctx, scn, list(range(n)), rng, True)
        return copy_.deepcopy(out), s

    def alone():
        return [copy_.deepcopy(play(ctx, scn, [k], rng_for("solo"), False)[0][k]) for k in range(n)]
    if scn["first"]:            # nothing is warmed up
        joint, sim = together()
        solo = alone()
    else:
        solo = alone()
        joint, sim = together()
    for k in range(n):
        a, b = joint[k], solo[k]
        for j, (x, y) in enumerate(zip(a, b)):
            ctx.check(same_deep(x, y), "influenced:" + scn["actors"][k]["kind"], lambda: "thread %d, step %d: together %.300r, alone "
                      "%.300r" % (k, j, x, y))
        ctx.check(len(a) == len(b), "influenced:" + scn["actors"][k]["kind"], lambda: "thread %d: %d steps together, %d alone" % (
            k, len(a), len(b)))
    ctx.ev("joint", joint, sim.trace[:2000])
    ctx.count("switches", len(sim.trace))
    ctx.count("lines", sim.lines)
    ctx.fault("preempted", sum(a.switches for a in sim.actors))
    ctx.count("meetings", sim.meetings)
    if sim.stalled is not None:
        ctx.fault("thread_stalled")
    ctx.cover.update(sim.places)
    if sim.places:
        ctx.count("nontrivial")
