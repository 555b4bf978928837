"""C05 Asynchronous ask-and-tell records exactly the delivered evaluations."""
from sim import spies, world
from sim.loop import Driver, simplify_space
from sim.world import check_result, freeze, plain, same

RUNS = dict(quick=2400, thorough=20000)
RULE = ("one case per seeded asynchronous delivery history: distinct event logs among the histories with "
        "at least 6 recorded evaluations and at least one delivery fault (lost, duplicated, delayed past "
        "another, batched, unasked or without fitting)")
REAL = ["skopt.Optimizer (ask, tell, run, get_result, copy, update_next)", "search space and transformations",
        "initial point generators", "acquisition functions and their optimisation", "create_result",
        "in a part of the runs: the Gaussian process and forest surrogates"]
STUB = ["the workers and the delivery channel (seeded event queue in simulated time)",
        "the objective (a pure function of point and evaluation number)",
        "in most runs: the surrogate (a recording regressor with closed form predictions)"]
ASSUMPTIONS = ["points are delivered as lists, values as Python floats or integers"]


def generate(rng, tier, i):
    space = world.gen_space(rng)
    real = i % 12 == 5
    ests = ["RF5", "ET5", "GP1", "GB3"] if real else world.CHEAP
    ps = rng.random() < 0.2
    o = world.gen_opt(rng, space, [e for e in ests if e != "dummy"] if ps else ests,
                      ["EIps", "PIps"] if ps else None, queue=True)
    if ps:
        o["acqopt"] = "sampling"
    ev = rng.choice([8, 14, 24]) if not real else 10
    if i % 97 == 50:
        ev = 80
    ops, t = world.gen_schedule(rng, ev)
    if rng.random() < 0.3:
        ops = world.add_runs(rng, ops)
    return dict(space=space, opt=o, ops=ops, simtime=t, seed=rng.randrange(10 ** 6),
                values=rng.choice(["unique", "unique", "ties", "const", "int", "np", "nps"]),
                ambient=rng.randrange(1, 10 ** 6))


class D(Driver):
    def after_tell(self, items, fit, res):
        self.check_record(res, "tell")
        got = self.ctx.sut("get_result", self.opt.get_result)
        self.check_record(got, "get_result")
        self.snaps.append((res, freeze(res), len(self.X)))
        self.snaps.append((got, freeze(got), len(self.X)))

    def on_ask(self, x):
        self.unchanged("ask")

    def on_askn(self, pts, n, strat):
        self.unchanged("ask-n")

    def on_update(self):
        self.unchanged("update_next")

    def unchanged(self, what):
        if self.X:
            r = self.ctx.sut("get_result", self.opt.get_result)
            self.check_record(r, "after-" + what)


def run(ctx, scn):
    spies.reset()
    d = D(ctx, scn)
    d.snaps = []
    stable = None
    for op in scn["ops"]:
        nrec = len(d.X)
        d.step(op)
        # while nothing new is told, the suggestion of a fitted surrogate stays the same
        if d.model_phase() and op[0] != "update":
            x = plain(ctx.sut("ask", d.opt.ask))
            if stable is not None and stable[0] == len(d.X):
                ctx.check(same(x, stable[1]), "unstable-suggestion",
                          lambda: "after %r with nothing told: %r, before %r" % (op, x, stable[1]))
            stable = (len(d.X), x)
        else:
            stable = None
        if op[0] in ("tell", "tellb") and not op[2]:
            ctx.fault("delivery_without_fit")
            stable = None if len(d.X) != nrec else stable
    for res, snap, n in d.snaps:
        ctx.check(world.freeze(res) == snap or same(_l(freeze(res)), _l(snap)), "earlier-result-changed",
                  lambda: "a result of %d evaluations became %r" % (n, freeze(res)))
    world.flags_from(ctx, scn["ops"])
    order = sum(1 for op in scn["ops"] if op[0] == "tell" and op[1] % 8)
    if order:
        ctx.fault("delivery_reordered", order)
    ctx.simtime = scn["simtime"]
    faulty = any(op[0] in ("lose", "dup", "ext", "tellb", "askn") or op[0] == "tell" and (op[1] or not op[2])
                 for op in scn["ops"])
    ctx.probe("fitted" if d.fitted else "initial-only")
    ctx.probe("acq-" + scn["opt"]["acq"])
    ctx.cover.add("%s|%s|%s|%s|%d" % (scn["opt"]["est"], scn["opt"]["acq"], scn["opt"]["gen"],
                                      "".join(sorted({op[0][0] for op in scn["ops"]})), min(len(d.X), 12)))
    if len(d.X) >= 6 and faulty:
        ctx.count("nontrivial")


def _l(s):
    return [s[k] for k in sorted(s)]


COVER = "distinct (surrogate, acquisition, generator, kinds of operations, evaluations up to 12)"
simplify = simplify_space
