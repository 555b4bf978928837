"""C18 Every suggestion is a member of the search space and can be told back."""
from sim import spies, world
from sim.core import rng_for
from sim.loop import Driver, simplify_space, tell_back
from sim.world import member, plain, random_point, same

RUNS = dict(quick=3500, thorough=30000)
RULE = ("one case per seeded delivery history over a generated search space: distinct event logs among those with "
        "suggestions from both the initial phase and a surrogate (or random ones without surrogate)")
COVER = "distinct (kind, prior, base, data type, encoding of a dimension; surrogate; generator; acquisition optimiser)"
REAL = ["skopt.Optimizer", "search space, dimensions, transformations", "initial point generators",
        "acquisition optimisation", "in half of the runs the Gaussian process, forest and gradient boosting surrogates"]
STUB = ["in half of the runs: the surrogate (recording regressor)", "workers and delivery channel", "objective"]
simplify = simplify_space


def generate(rng, tier, i):
    real = i % 3 == 0
    if i % 7 == 3:
        space = [world.gen_dim(rng, kinds="c") for _ in range(rng.choice([1, 2, 3]))]
    else:
        space = world.gen_space(rng)
    # extreme but legal dimensions
    if rng.random() < 0.25:
        space[rng.randrange(len(space))] = rng.choice([
            dict(t="real", low=-1e-300, high=1e-300), dict(t="real", low=1e-12, high=1e12, prior="log-uniform"),
            dict(t="int", low=-2 ** 31, high=2 ** 31), dict(t="int", low=0, high=1),
            dict(t="real", low=0.1, high=0.3), dict(t="real", low=1e-5, high=0.1, prior="log-uniform", base=10),
            dict(t="real", low=0.1, high=0.7, dtype="float32"), dict(t="int", low=1, high=2, prior="log-uniform"),
            dict(t="real", low=1e-3, high=0.3, prior="log-uniform", dtype="float32"),
            dict(t="int", low=3, high=1000000, prior="log-uniform", base=2, transform="normalize"),
            dict(t="cat", cats=[[1, 2], [3, 4], [5, 6]]), dict(t="cat", cats=[["a", 1], ["b", 2]], transform="label"),
            dict(t="cat", cats=["x", "y", "z"], transform="normalize"), dict(t="cat", cats=[10, 20, 30], transform="label"),
            dict(t="cat", cats=["1", 1, 2]), dict(t="cat", cats=[2, 5, 9], transform="identity"),
            dict(t="cat", cats=[0.25, -1.5], transform="identity"), dict(t="cat", cats=[True, False], transform="identity"), dict(t="cat", cats=[True, False, None]),
            dict(t="real", low=0.3, high=0.30000000000000004), dict(t="real", low=1e5, high=1e5 + 1e-6)])
    if all(isinstance(c, list) for d in space for c in d.get("cats", [0])):
        space.append(dict(t="real", low=0.0, high=1.0))   # a point of tuples only looks like a list of points
    ps = rng.random() < 0.15
    ests = ["RF5", "ET5", "GB3", "GP1", "GP1", "GP"] if real else ["spy", "spy", "spy", "dummy"]
    if ps:
        ests = [e for e in ests if e not in ("dummy", "GP")]
    if all(d["t"] == "cat" for d in space):
        ests = [e for e in ests if e != "GP1"] or ["RF5"]
    o = world.gen_opt(rng, space, ests, ["EIps", "PIps"] if ps else None)
    if ps and o["acqopt"] == "auto":
        o["acqopt"] = "sampling"
    if any(d.get("transform") == "identity" and d["t"] == "cat" for d in space):
        o["acqopt"] = "sampling"      # a gradient method cannot hit an unencoded category
    if o["est"] == "GP":
        o["n_points"] = 60
    ops, t = world.gen_schedule(rng, {"GP": 4}.get(o["est"], rng.choice([6, 10, 16]) if not real else 7),
                                p=dict(upd=rng.choice([0, 0.05])))
    if rng.random() < 0.2:
        ops = world.add_runs(rng, ops)
    return dict(space=space, opt=o, ops=ops, simtime=t, seed=rng.randrange(10 ** 6),
                values=rng.choice(["unique", "ties", "const", "slope", "slope"]), ambient=rng.randrange(1, 10 ** 6))


class D(Driver):
    def on_ask(self, x):
        self.judge(x, "ask")

    def on_askn(self, pts, n, strat):
        for x in pts:
            self.judge(x, "ask-n")

    def on_suggested(self, x):
        self.judge(x, "run")

    def judge(self, x, what):
        why = member(x, self.space)
        self.ctx.check(why is None, "not-a-member:" + what, lambda: "%r: %s" % (x, why))
        self.ctx.count("suggestions_judged")
        if self.model_phase():
            self.from_model = True
        else:
            self.from_start = True
        self.seen.append(x)


def run(ctx, scn):
    spies.reset()
    d = D.__new__(D)
    d.seen, d.from_model, d.from_start = [], False, False
    d.__init__(ctx, scn)
    for op in scn["ops"]:
        d.step(op)
    # any suggestion can be told back at any later moment, as it is
    r = rng_for("back", scn["seed"])
    for x in r.sample(d.seen, min(4, len(d.seen))):
        y = d.value(x)
        ctx.sut("tell-back", d.opt.tell, x, list(y) if d.ps else y, fit=False)
        d.record([(x, y)])
    if len(d.seen) > 1:
        xs = r.sample(d.seen, 2)
        ys = [d.value(x) for x in xs]
        ctx.sut("tell-back-batch", d.opt.tell, xs, [list(y) for y in ys] if d.ps else ys)
        d.record(list(zip(xs, ys)))
        if d.must_fit:
            d.fitted = True
    if not (d.has_model and d.left <= 0 and not d.fitted):
        x = d.ask()
    # what the acquisition optimisers do with a candidate, at the corners and edges of the space and inside
    for _ in range(12):
        c = [r.choice(e["cats"]) if e["t"] == "cat" else r.choice([e["low"], e["high"]]) if r.random() < .7 else v
             for e, v in zip(scn["space"], random_point(r, scn["space"]))]
        c = [tuple(v) if isinstance(v, list) else v for v in c]
        back = ctx.sut("candidate", lambda: d.opt.space.inverse_transform(d.opt.space.transform([c])))
        d.judge(back[0], "candidate")
    world.flags_from(ctx, scn["ops"])
    ctx.simtime = scn["simtime"]
    for e in scn["space"]:
        ctx.cover.add("%s|%s|%s|%s|%s|%s|%s|%s" % (e["t"], e.get("prior"), e.get("base"), e.get("dtype"),
                                                   e.get("transform"), scn["opt"]["est"], scn["opt"]["gen"],
                                                   d.opt.acq_optimizer))
    ctx.probe("surrogate-" + scn["opt"]["est"])
    if d.from_start and (d.from_model or not d.has_model):
        ctx.count("nontrivial")
