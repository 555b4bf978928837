"""C09 Optimizations sharing arguments do not influence each other or the caller."""
import copy as copy_
from inspect import signature

import numpy as np

from sim import results, spies, threadsim, world
from sim.core import Violation, rng_for
from sim.props.c15 import D, observe, predictions, same_deep
from sim.results import canon
from sim.world import build_dim, freeze, plain, random_point

RUNS = dict(quick=900, thorough=20000)
LEVEL = "exploration"
RULE = ("one case per seeded set of two to four optimizations (ask-and-tell loops, minimiser calls, cross-validated searches, "
        "direct uses) that share arguments and are interleaved at every ask, tell, evaluation and callback by a seeded "
        "scheduler; distinct event logs among those where at least two of them really alternated")
COVER = "distinct (kinds of actors, form of the shared space, shared surrogate, shared generator, policy)"
REAL = ["skopt.Optimizer, the minimisers and BayesSearchCV", "spaces, generators, surrogates (GP/forest/gradient boosting in "
        "half of the runs), callbacks"]
STUB = ["objective and callbacks (scripted, hand the baton on)", "surrogate in the other runs (recording regressor)",
        "estimator of the searches (scripted scores)", "order of the actors (cooperative scheduler)"]
SHRINK_LISTS = ["actors"]
TIMEOUT = 200
NAMES = "abcd"


def generate(rng, tier, i):
    space = world.gen_space(rng)
    named = rng.random() < 0.3
    if named:
        for n, d in enumerate(space):
            d["name"] = "dim%d" % n
    est = rng.choice(["spy", "spy", "spy", "RF5", "ET5", "GB3", "GP1", "GP1"])
    if all(d["t"] == "cat" for d in space) and est == "GP1":
        est = "ET5"
    gen = rng.choice(["lhs", "lhs", "sobol", "halton", "hammersly", "grid"])
    genkw = {}
    if gen == "lhs":
        genkw = dict(iterations=3, criterion=rng.choice(["maximin", "ratio", None]), lhs_type=rng.choice(["classic", "centered"]))
    elif gen == "halton":
        genkw = dict(min_skip=rng.choice([0, 1]), max_skip=rng.choice([1, 9])) if rng.random() < .5 else {}
    elif gen == "hammersly":
        genkw = dict(min_skip=rng.choice([0, 1]), max_skip=rng.choice([1, 9])) if rng.random() < .5 else {}
    elif gen == "grid":
        genkw = dict(border=rng.choice(["include", "exclude", "only"]) if len(space) == 1 else "exclude")
        if rng.random() < .5:
            genkw = {}
    actors = []
    for k in range(rng.choice([2, 2, 3, 4])):
        kind = rng.choice(["loop", "loop", "min", "min", "search", "direct"])
        a = dict(kind=kind, form=rng.choice(["dims", "dims", "space", "list", "raw"]), gen=int(rng.random() < .6),
                 est=int(rng.random() < .6), kw=int(rng.random() < .6), seed=rng.randrange(10 ** 6), rs=rng.randrange(10 ** 6))
        own = est if a["est"] else rng.choice(["spy", "GP1", "RF5", "dummy", "ET", "GP"] if rng.random() < .4 else ["spy"])
        if all(d["t"] == "cat" for d in space) and own in ("GP", "GP1"):
            own = "spy"
        if kind == "search" and own == "dummy":
            own = "spy"
        a["own"] = own
        a["o"] = world.gen_opt(rng, space, [own])
        a["o"]["n_points"] = 60
        if kind == "loop":
            a["ops"], a["t"] = world.gen_schedule(rng, 4 if own not in ("spy", "dummy") else rng.choice([4, 8]))
        elif kind == "min":
            a.update(fn=rng.choice(["base", "base", "dummy", "forest", "gp", "gbrt"]), x0=rng.choice([0, 1, 1]),
                     y0=rng.randrange(2), n=rng.choice([1, 2, 3]), cb=rng.randrange(2), verbose=int(rng.random() < .4),
                     named=rng.randrange(2))
            if a["fn"] == "gp" and all(d["t"] == "cat" for d in space):
                a["fn"] = "base"
        elif kind == "search":
            a.update(n=rng.choice([2, 3, 4]), batch=rng.choice([1, 2, 3]), lists=rng.randrange(3), fits=rng.choice([1, 1, 2]),
                     cb=rng.randrange(2))
        else:
            a.update(n=rng.choice([2, 4]))
        a["boom"] = rng.randrange(4) if rng.random() < .12 else None
        actors.append(a)
    return dict(space=space, est=est, gen=gen, genkw=genkw, actors=actors, x0=rng.choice([1, 2]),
                policy=rng.choice(["random", "random", "sticky"]), seed=rng.randrange(10 ** 6), ambient=rng.randrange(1, 10 ** 6))


def simplify(scn):
    from sim.loop import simplify_space
    yield from simplify_space(scn)
    for k, v in (("est", "spy"), ("gen", "halton"), ("policy", "random"), ("x0", 1)):
        if scn[k] != v:
            s = copy_.deepcopy(scn)
            s[k] = v
            if k == "gen":
                s["genkw"] = {}
            yield s
    for i, a in enumerate(scn["actors"]):
        for k, v in (("gen", 0), ("est", 0), ("kw", 0), ("own", "spy"), ("x0", 0), ("cb", 0), ("boom", None), ("verbose", 0), ("n", 1),
                     ("fn", "base"), ("fits", 1), ("lists", 0), ("batch", 1)):
            if a.get(k, v) != v:
                s = copy_.deepcopy(scn)
                s["actors"][i][k] = v
                if k == "own":
                    s["actors"][i]["est"] = 0
                yield s
        if a.get("ops"):
            for cut in (a["ops"][:len(a["ops"]) // 2], a["ops"][:-1], a["ops"][1:]):
                s = copy_.deepcopy(scn)
                s["actors"][i]["ops"] = cut
                yield s


# ------------------------------------------------------------------ what is shared
def raw_dim(d):
    if d["t"] == "cat":
        return list(d["cats"])
    if d["t"] == "int":
        return (d["low"], d["high"])
    return (float(d["low"]), float(d["high"])) + (("log-uniform",) if d.get("prior") == "log-uniform" else ())


class Pool:
    """Every argument the caller owns."""

    def __init__(self, scn):
        from skopt import sampler
        from skopt.space import Space
        space = scn["space"]
        self.dims = [build_dim(d) for d in space]
        self.list = list(self.dims)
        self.space = Space(self.dims)
        self.raw = [raw_dim(d) for d in space]
        self.gen = {"lhs": sampler.Lhs, "sobol": sampler.Sobol, "halton": sampler.Halton, "hammersly": sampler.Hammersly,
                    "grid": sampler.Grid}[scn["gen"]](**scn["genkw"])
        self.est = world.build_estimator(scn["est"], "shared", 17)
        r = rng_for("pool", scn["seed"])
        some = lambda d, keep=(): {k: v for k, v in d.items() if k in keep or r.random() < .6}
        self.akw = some({"xi": 0.02, "kappa": 1.5, "eta": 0.5})
        self.aokw = some({"n_points": 60, "n_restarts_optimizer": 2, "n_jobs": 1}, ["n_points"])
        self.x0 = [random_point(r, space) for _ in range(scn["x0"])]
        self.y0 = [0.5 + k for k in range(scn["x0"])]
        self.callbacks = [record_callback, pass_callback]
        self.search = {NAMES[k]: d for k, d in enumerate(self.dims)}
        self.searches = [(self.search, 2), (dict(self.search), 1)]
        self.okw = {"base_estimator": self.est, "initial_point_generator": self.gen, "n_initial_points": 2,
                    "acq_func": "EI", "acq_optimizer": "sampling", "acq_func_kwargs": self.akw,
                    "acq_optimizer_kwargs": self.aokw}
        self.model = spies.ScriptedEstimator(tag="cv", seed=scn["seed"] % 100)
        self.data = (np.arange(12.0).reshape(6, 2), np.array([0, 1, 0, 1, 0, 1]))

    def objects(self):
        return dict(dims=self.dims, list=self.list, space=self.space.dimensions, search=list(self.search.values()),
                    x0=self.x0, callbacks=self.callbacks)

    def form(self, a):
        return {"dims": self.dims, "list": self.list, "space": self.space, "raw": self.raw}[a["form"]]

    def fingerprint(self):
        f = {}
        for n, d in enumerate(self.dims):
            draws = d.rvs(4, random_state=7)
            e = dict(repr=repr(d), name=repr(d.name), how=repr(d.transform_), size=repr(d.transformed_size),
                     tb=plain(list(d.transformed_bounds)) if not isinstance(d.transformed_bounds, tuple) else plain(d.transformed_bounds),
                     bounds=repr(d.bounds), draws=plain(draws), warped=plain(np.asarray(d.transform(draws))),
                     prior=repr(getattr(d, "prior", None)), dtype=repr(getattr(d, "dtype", None)))
            for k, v in e.items():
                f["dimension %d %s" % (n, k)] = v
        f["dimension list"] = [[id(d) for d in self.list], [id(d) for d in self.dims], [id(d) for d in self.space.dimensions]]
        f["space"] = repr(self.space)
        f["raw"] = canon(self.raw)
        f["generator"] = canon({k: getattr(self.gen, k) for k in signature(type(self.gen)).parameters})
        f["surrogate"] = canon(self.est.get_params())
        f["surrogate fitted"] = sorted(k for k in vars(self.est) if k.endswith("_"))
        f["acq_func_kwargs"] = canon(self.akw)
        f["acq_optimizer_kwargs"] = canon(self.aokw)
        f["x0"] = canon(self.x0)
        f["y0"] = canon(self.y0)
        f["callbacks"] = [id(c) for c in self.callbacks]
        f["optimizer_kwargs"] = [sorted(self.okw), [id(self.okw[k]) for k in ("base_estimator", "initial_point_generator",
                                 "acq_func_kwargs", "acq_optimizer_kwargs")], canon([self.okw[k] for k in (
                                     "n_initial_points", "acq_func", "acq_optimizer")])]
        f["search_spaces"] = [list(self.search), [id(v) for v in self.search.values()], len(self.searches),
                              [(id(s) if s is self.search else sorted(s), n) for s, n in self.searches]]
        f["estimator"] = canon(self.model.get_params())
        f["estimator fitted"] = sorted(k for k in vars(self.model) if k.endswith("_"))
        f["data"] = canon(list(self.data))
        return f

    def behaviour(self):
        """What using the objects gives (may take time)."""
        g = self.gen.generate([copy_.copy(d) for d in self.dims], 3, random_state=5)
        return plain([list(p) for p in g])


# ------------------------------------------------------------------ actors
TRACES = {}


def trace():
    a = threadsim.OWN.get(threadsim._thread.get_ident())
    return TRACES[a.name]


def give_way():
    s = threadsim.CURRENT[0]
    if s is not None:
        s.yield_()


def record_callback(res):
    trace().append(["callback", freeze(res), res.specs is not None])
    give_way()


def pass_callback(res):
    return False


class Boom(Exception):
    pass


def failing(ctx, a, fn, *args, **kw):
    """Call the code under test; an injected failure comes out as it is."""
    try:
        return fn(*args, **kw)
    except Boom:
        trace().append(["failed"])
        ctx.fault("failed_" + a["kind"])
        return None
    except (Violation, SystemExit):
        raise
    except Exception as e:
        from sim.core import sut_where
        raise Violation("exception:%s:%s" % (a["kind"], type(e).__name__), "raised %s: %s [%s]" % (
            type(e).__name__, str(e)[:300], sut_where(e.__traceback__)))


class Objective:
    def __init__(self, seed, boom=None):
        self.seed, self.n, self.boom = seed, 0, boom

    def __call__(self, x):
        give_way()
        if self.n == self.boom:
            raise Boom("scripted")
        y = world.value(self.seed, x, self.n)
        self.n += 1
        trace().append(["evaluate", plain(list(x)), y])
        give_way()
        return y


def estimator(pool, a):
    return pool.est if a["est"] else world.build_estimator(a["own"], "own%d" % a["rs"], a["rs"] % 1000)


def loop_actor(ctx, scn, pool, a):
    over = {}
    if a["kw"]:
        over = dict(acq_func_kwargs=pool.akw, acq_optimizer_kwargs=pool.aokw)
    s = dict(scn, opt=dict(a["o"], est=a["own"]), seed=a["seed"], values="unique")
    d = D.__new__(D)
    d.start()
    d.trace = trace()
    gen = {"gen": pool.gen} if a["gen"] else {}
    d.__init__(ctx, s, None, "own%d" % a["rs"], dims=pool.form(a), est=estimator(pool, a), **gen, **over)
    if a["boom"] is not None:
        # an optimizer whose construction fails half way
        from skopt import Optimizer, sampler

        class Failing(sampler.Lhs):
            def _lhs_normalized(self, *args, **kw):
                raise Boom("scripted")
        failing(ctx, a, Optimizer, pool.form(a), estimator(pool, a), n_initial_points=3, initial_point_generator=Failing(),
                acq_func_kwargs=pool.akw, acq_optimizer="sampling")
    give_way()
    for op in a["ops"]:
        d.step(op)
        give_way()
    trace().append(["end", observe(d)])


def min_actor(ctx, scn, pool, a):
    import skopt
    from skopt.optimizer import base_minimize
    dims = pool.form(a)
    func = f = Objective(a["seed"], a["boom"])
    if a["named"] and a["form"] != "raw" and all(d.get("name") for d in scn["space"]):
        names = [d["name"] for d in scn["space"]]
        func = skopt.utils.use_named_args(pool.dims)(lambda **kw: f([kw[n] for n in names]))
    o = a["o"]
    x0, y0 = None, None
    if a["x0"]:
        x0, y0 = pool.x0, pool.y0 if a["y0"] else None
    n_init = o["n_init"]
    n_calls = n_init + a["n"] + (len(pool.x0) if x0 is not None and y0 is None else 0)
    kw = dict(n_calls=n_calls, random_state=a["rs"], verbose=bool(a["verbose"]), model_queue_size=o.get("queue"))
    if a["cb"]:
        kw["callback"] = pool.callbacks
    if x0 is not None:
        kw.update(x0=x0, y0=y0)
    if a["gen"]:
        kw["initial_point_generator"] = pool.gen
    if a["fn"] == "dummy":
        res = failing(ctx, a, skopt.dummy_minimize, func, dims, **kw)
    else:
        kw.update(n_initial_points=n_init, n_points=60)
        est = estimator(pool, a)
        if a["fn"] == "base":
            acq = o["acq"] if "ps" not in o["acq"] else "EI"
            res = failing(ctx, a, base_minimize, func, dims, est, acq_func=acq, acq_optimizer="sampling", **kw)
        elif a["fn"] == "gp":
            e = est if a["own"] == "GP1" else world.build_estimator("GP1", seed=3)
            res = failing(ctx, a, skopt.gp_minimize, func, dims, base_estimator=e, acq_optimizer="sampling", **kw)
        elif a["fn"] == "forest":
            e = est if a["own"] in ("RF5", "ET5") else results.small_forest(3)
            res = failing(ctx, a, skopt.forest_minimize, func, dims, base_estimator=e, **kw)
        else:
            e = est if a["own"] == "GB3" else world.build_estimator("GB3", seed=3)
            res = failing(ctx, a, skopt.gbrt_minimize, func, dims, base_estimator=e, **kw)
    if res is not None:
        trace().append(["result", freeze(res), predictions(res)])


def search_actor(ctx, scn, pool, a):
    from skopt import BayesSearchCV
    spaces = [pool.search, pool.searches, [pool.search]][a["lists"]]
    okw = pool.okw if a["kw"] else dict(pool.okw, base_estimator=estimator(pool, a))
    s = ctx.sut("BayesSearchCV", BayesSearchCV, pool.model, spaces, optimizer_kwargs=okw, n_iter=a["n"], n_points=a["batch"],
                cv=2, random_state=a["rs"], refit=True)
    outs = []
    for k in range(a["fits"]):
        before = len(trace())
        FITS[threadsim.OWN[threadsim._thread.get_ident()].name] = a["boom"]
        if failing(ctx, a, s.fit, *pool.data, callback=pool.callbacks if a["cb"] else None) is None:
            return
        out = ["search", [sorted((k, repr(plain(v))) for k, v in p.items()) for p in s.cv_results_["params"]],
               plain(s.cv_results_["mean_test_score"]), repr(sorted(s.best_params_.items())), s.best_score_,
               [freeze(r) for r in s.optimizer_results_], [repr(r.space) for r in s.optimizer_results_],
               [[d.name for d in r.space.dimensions] for r in s.optimizer_results_]]
        ctx.check(s.get_params(deep=False)["search_spaces"] is spaces and s.get_params(deep=False)["optimizer_kwargs"] is okw,
                  "search-parameters", "fitting replaced the parameters of the search")
        trace().append(out)
        outs.append(trace()[before:])
    for other in outs[1:]:
        ctx.check(same_deep(outs[0], other), "second-fit", lambda: "fitting the same search again: %.400r, first %.400r" % (other, outs[0]))


def direct_actor(ctx, scn, pool, a):
    """The caller uses the objects himself."""
    from skopt.space import Space
    for k in range(a["n"]):
        s = pool.space
        pts = ctx.sut("rvs", s.rvs, 3, random_state=a["rs"] + k)
        trace().append(["rvs", plain(pts)])
        give_way()
        w = ctx.sut("transform", s.transform, pts)
        trace().append(["transform", plain(np.asarray(w)), plain(s.transformed_bounds), s.transformed_n_dims])
        give_way()
        trace().append(["inverse", plain(ctx.sut("inverse", s.inverse_transform, w))])
        if k % 2 and a["gen"]:
            give_way()
            g = ctx.sut("generate", pool.gen.generate, [copy_.copy(d) for d in pool.dims], 3, random_state=a["rs"])
            trace().append(["design", plain([list(p) for p in g])])
        trace().append(["distance", plain(s.distance(pts[0], pts[1]))])
        give_way()


ACTORS = dict(loop=loop_actor, min=min_actor, search=search_actor, direct=direct_actor)


FITS = {}


def on_fit(est):
    trace().append(["fit", [plain(v) for v in est.key()]])
    me = threadsim.OWN[threadsim._thread.get_ident()].name
    if FITS.get(me) is not None:
        FITS[me] -= 1
        if FITS[me] < 0:
            raise Boom("scripted")
    give_way()


def play(ctx, scn, which, rng, policy):
    """Run the actors named on one pool; traces by actor."""
    from sim.core import Ctx
    spies.reset()
    spies.HOOK[0] = on_fit
    FITS.clear()
    TRACES.clear()
    pool = Pool(scn)
    before = pool.fingerprint()
    sim = threadsim.Sim(rng, policy=policy)
    for k in which:
        a = scn["actors"][k]
        TRACES[k] = []
        sim.spawn(k, lambda a=a: ACTORS[a["kind"]](ctx, scn, pool, a))
    sim.run()
    after = pool.fingerprint()
    for key in before:
        ctx.check(same_deep(before[key], after[key]) and type(before[key]) is type(after[key]), "caller's-object:" + key.split(" ")[0],
                  lambda: "%s was %.300r, is %.300r after %s" % (key, before[key], after[key], [scn["actors"][k]["kind"] for k in which]))
    used = pool.behaviour()
    fresh = Pool(scn).behaviour()
    ctx.check(same_deep(used, fresh), "caller's-object:generator", lambda: "the generator makes %r, an unused one %r" % (used, fresh))
    return {k: TRACES[k] for k in which}, sim


def run(ctx, scn):
    n = len(scn["actors"])
    if not n:
        return
    joint, sim = play(ctx, scn, list(range(n)), rng_for("c09", scn["seed"]), scn["policy"])
    joint = copy_.deepcopy(joint)
    for k in range(n):
        solo, _ = play(ctx, scn, [k], rng_for("solo"), "random")
        a, b = joint[k], solo[k]
        for j, (x, y) in enumerate(zip(a, b)):
            ctx.check(same_deep(x, y), "influenced:" + scn["actors"][k]["kind"], lambda: "actor %d, step %d: together %.300r, alone "
                      "%.300r" % (k, j, x, y))
        ctx.check(len(a) == len(b), "influenced:" + scn["actors"][k]["kind"], lambda: "actor %d: %d steps together, %d alone" % (
            k, len(a), len(b)))
    ctx.ev("joint", joint, sim.trace)
    ctx.count("switches", len(sim.trace))
    ctx.fault("interleaved", max(0, len(sim.trace) - n))
    kinds = "+".join(sorted(a["kind"] for a in scn["actors"]))
    ctx.cover.add("%s|%s|%s|%s|%s" % (kinds, scn["actors"][0]["form"], scn["est"], scn["gen"], scn["policy"]))
    if len(sim.trace) > n:
        ctx.count("nontrivial")
