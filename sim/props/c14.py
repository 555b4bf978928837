"""C14 The initial design is delivered completely and in order."""
import numpy as np

from sim import genspy, oracle, spies, world
from sim.core import rng_for
from sim.loop import Driver, simplify_space, tell_back
from sim.world import member, plain, same, random_point

RUNS = dict(quick=3000, thorough=24000)
RULE = ("one case per seeded history (ask/tell with asynchronous workers, or a minimiser call) through the initial "
        "phase: distinct event logs among those that used a generator or random initial points to the end of it")
COVER = "distinct (generator, requested points, driver, starting points, batch sizes used)"
REAL = ["skopt.Optimizer", "skopt minimisers", "initial point generators", "search space"]
STUB = ["the surrogate in ask/tell runs (recording regressor)", "workers and delivery channel", "objective"]
simplify = simplify_space


def generate(rng, tier, i):
    space = world.gen_space(rng)
    if i % 5 == 4:
        return gen_minimise(rng, space)
    ps = rng.random() < 0.2                      # values come with times
    o = world.gen_opt(rng, space, ["spy"] if ps else ["spy", "spy", "dummy"], ["EIps", "PIps"] if ps else None)
    if ps and o["acqopt"] == "auto":
        o["acqopt"] = "sampling"
    o["n_points"] = 60
    o["gen"] = world.gen_generator(rng, ["random", None])
    o["n_init"] = rng.choice([1, 2, 3, 4, 5, 8, 16])
    ops, t = world.gen_schedule(rng, rng.choice([8, 14, 30]) if i % 97 else 90, p=dict(nofit=rng.choice([0, 0, .3]),
                                                                    res=rng.choice([0, .2]), upd=0))
    obj = rng.random() < 0.4 and o["gen"] not in (None, "random")
    return dict(kind="loop", space=space, opt=o, ops=ops, simtime=t, genobj=obj, seed=rng.randrange(10 ** 6),
                values="unique", ambient=rng.randrange(1, 10 ** 6))


def gen_minimise(rng, space):
    n0 = rng.choice([0, 0, 1, 2, 3])
    return dict(kind="minimize", space=space, fn=rng.choice(["base", "base", "dummy", "forest", "gbrt", "gp"]),
                n_init=rng.choice([1, 2, 3, 5, 8]), extra=rng.choice([0, 1, 2]), gen=world.gen_generator(rng, ["random", None]),
                x0=n0, y0=rng.random() < 0.5, rs=rng.randrange(10 ** 6), seed=rng.randrange(10 ** 6),
                genobj=rng.random() < 0.4, ambient=rng.randrange(1, 10 ** 6))


class D(Driver):
    def expect(self, k):
        """The design point for a suggestion asked after k deliveries, or None."""
        return self.design[k] if self.design is not None and k < len(self.design) else None

    def on_ask(self, x):
        k = len(self.X)
        self.judge(x, k, "ask")

    def judge(self, x, k, what):
        ctx = self.ctx
        if k < self.o["n_init"]:
            w = self.expect(k)
            if w is not None:
                ctx.check(same(plain(x), plain(w)), "design-order:" + what,
                          lambda: "after %d deliveries suggested %r, the generated point is %r" % (k, plain(x), plain(w)))
                ctx.count("design_points")
            else:
                self.fresh(x, what)
        elif not self.has_model:
            self.fresh(x, what)

    def fresh(self, x, what):
        why = member(x, self.space)
        self.ctx.check(why is None, "not-a-member", lambda: "%r: %s" % (x, why))
        if any(d["t"] == "real" and d.get("dtype") in (None, "float64") for d in self.space):
            key = repr(plain(x))
            self.ctx.check(key not in self.draws, "not-a-fresh-draw:" + what, lambda: "%r was drawn before" % (x,))
            self.draws.add(key)
            self.ctx.count("random_draws")

    def on_askn(self, pts, n, strat):
        key = (n, strat, len(self.X))
        if self.batch.get(key) is not None:      # repeated request: the same points again, nothing drawn
            return
        self.batch[key] = True
        for j, x in enumerate(pts):
            self.judge(x, len(self.X) + j, "ask-n")

    def after_tell(self, items, fit, res):
        self.batch = {}
        if self.has_model and len(self.X) < self.o["n_init"]:
            self.ctx.check(not oracle.fits(self.tag, self.mark), "trained-early", lambda: "trained after %d of %d "
                           "initial evaluations" % (len(self.X), self.o["n_init"]))

    def before_tell(self, items, fit):
        self.mark = len(oracle.log_of(self.tag))


def make_gen(scn, name):
    if not scn.get("genobj") or name in (None, "random") or not isinstance(name, str):
        return world.make_generator(name)
    from skopt import sampler
    return {"lhs": lambda: sampler.Lhs(), "sobol": lambda: sampler.Sobol(),
            "halton": lambda: sampler.Halton(), "hammersly": lambda: sampler.Hammersly(),
            "grid": lambda: sampler.Grid(border="exclude")}[name]()


def run(ctx, scn):
    spies.reset()
    genspy.install()
    genspy.DESIGNS.clear()
    if scn["kind"] == "minimize":
        return run_minimise(ctx, scn)
    o = scn["opt"]
    g = make_gen(scn, o["gen"])
    kw = dict(gen=g) if scn["genobj"] else {}
    d = D(ctx, scn, **kw)
    d.draws, d.batch = set(), {}
    d.design = design(ctx, o["gen"], o["n_init"])
    for op in scn["ops"]:
        d.step(op)
    for _ in range(max(0, min(d.left, 8)) + 2):    # to the end of the initial phase and beyond
        tell_back(d)
    if d.has_model and d.left <= 0:
        a, b = plain(ctx.sut("ask", d.opt.ask)), plain(ctx.sut("ask", d.opt.ask))
        ctx.check(oracle.fits("spy"), "no-surrogate", "initial phase over, but nothing was trained")
        ctx.check(same(a, b), "not-from-surrogate", "after the initial phase two asks gave %r and %r" % (a, b))
    if o["gen"] not in (None, "random"):
        design(ctx, o["gen"], o["n_init"])     # still the only one
    world.flags_from(ctx, scn["ops"])
    ctx.simtime = scn["simtime"]
    ctx.probe("generator-%s" % (o["gen"] if not isinstance(o["gen"], list) else o["gen"][0]))
    ctx.cover.add("%s|%d|loop|%s|%s" % (o["gen"], o["n_init"], o["est"],
                                        sorted({op[1] for op in scn["ops"] if op[0] == "askn"})))
    if d.left <= 0:
        ctx.count("nontrivial")


def design(ctx, gen, n):
    if gen in (None, "random"):
        ctx.check(not genspy.DESIGNS, "design-generated", "a generator ran although none was asked for")
        return None
    ctx.check(len(genspy.DESIGNS) == 1, "design-count",
              lambda: "%d designs were generated: %r" % (len(genspy.DESIGNS), [q[:2] for q in genspy.DESIGNS]))
    name, k, pts = genspy.DESIGNS[0]
    ctx.check(k == n and len(pts) == n, "design-size", lambda: "%d points requested, generator was asked for %d, made %d"
              % (n, k, len(pts)))
    return pts


def run_minimise(ctx, scn):
    import skopt
    from skopt.optimizer import base_minimize
    r = rng_for("c14", scn["seed"])
    space = scn["space"]
    x0 = [random_point(r, space) for _ in range(scn["x0"])]
    dims = world.build_space(space)
    seen = []

    def f(x):
        seen.append(list(x))
        return world.value(scn["seed"], x, len(seen))
    kw = dict(random_state=scn["rs"], initial_point_generator=make_gen(scn, scn["gen"]))
    if kw["initial_point_generator"] is None:
        del kw["initial_point_generator"]
    ny = 0
    if x0:
        kw["x0"] = x0
        if scn["y0"]:
            kw["y0"] = [world.value(scn["seed"], x, -5 - k) for k, x in enumerate(x0)]
            ny = len(x0)
    evaluated0 = len(x0) - ny
    n = scn["n_init"]
    fn = scn["fn"]
    if fn == "dummy":
        calls = n + scn["extra"] + evaluated0
        ctx.sut("dummy_minimize", skopt.dummy_minimize, f, dims, n_calls=calls, **kw)
        n = calls - evaluated0
    else:
        extra = min(scn["extra"], 1) if fn == "gp" else scn["extra"]
        calls = n + extra + evaluated0
        kw.update(n_calls=calls, n_initial_points=n)
        if fn == "base":
            ctx.sut("base_minimize", base_minimize, f, dims, spies.SpyRegressor(seed=1), acq_func="LCB",
                    acq_optimizer="sampling", n_points=60, **kw)
        elif fn == "forest":
            est = world.build_estimator("RF5", seed=scn["seed"] % 100)
            ctx.sut("forest_minimize", skopt.forest_minimize, f, dims, base_estimator=est, n_points=60, **kw)
        elif fn == "gbrt":
            est = world.build_estimator("GB3", seed=scn["seed"] % 100)
            ctx.sut("gbrt_minimize", skopt.gbrt_minimize, f, dims, base_estimator=est, n_points=60, **kw)
        else:
            est = world.build_estimator("GP1", seed=scn["seed"] % 100)
            ctx.sut("gp_minimize", skopt.gp_minimize, f, dims, base_estimator=est, n_points=60,
                    acq_optimizer="sampling", n_restarts_optimizer=1, **kw)
    ctx.ev("evaluated", plain(seen))
    ctx.check(len(seen) == calls, "evaluations", lambda: "%d evaluations, requested %d" % (len(seen), calls))
    mine = seen[evaluated0:]
    total = n + len(x0)
    D_ = design(ctx, scn["gen"], total)
    if D_ is not None:
        for k in range(n):
            ctx.check(same(plain(mine[k]), plain(D_[len(x0) + k])), "design-order:minimize",
                      lambda: "evaluation %d is %r, the generated point is %r" % (k, plain(mine[k]), plain(D_[len(x0) + k])))
    elif any(d["t"] == "real" and d.get("dtype") in (None, "float64") for d in space):
        ks = [repr(plain(x)) for x in mine[:n]]
        ctx.check(len(set(ks)) == len(ks), "not-a-fresh-draw:minimize", lambda: "repeated points %r" % ks)
    for x in mine:
        why = member(x, space)
        ctx.check(why is None, "not-a-member", lambda: "%r: %s" % (x, why))
    ctx.cover.add("%s|%d|%s|%d%s" % (scn["gen"], n, fn, len(x0), "y" if ny else ""))
    ctx.probe("generator-%s" % (scn["gen"] if not isinstance(scn["gen"], list) else scn["gen"][0]))
    ctx.count("nontrivial")
