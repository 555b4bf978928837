"""C06 Batches are complete and repeatable, and their lies never reach the record."""
import numpy as np

from sim import oracle, spies, world
from sim.loop import Driver, simplify_space
from sim.world import member, plain, same

RUNS = dict(quick=1500, thorough=24000)
RULE = ("one case per seeded history mixing batch asks with partial, reordered and lost deliveries: distinct event "
        "logs among those with at least 2 batches, one of them asked with real observations present")
COVER = "distinct (strategy, batch size, acquisition, its optimiser, initial points left, generator)"
REAL = ["skopt.Optimizer (ask with n_points, copy, tell)", "constant liar strategies", "search space", "generators",
        "acquisition functions"]
STUB = ["the surrogate (recording regressor)", "workers and delivery channel", "objective"]
ASSUMPTIONS = ["which lie is told while nothing real is recorded is left open"]
simplify = simplify_space
SIMPLE = {}


def generate(rng, tier, i):
    space = world.gen_space(rng, dtypes=False)
    ps = i % 5 == 1
    ests = ["spy"] * 5 + ["dummy"] if not ps else ["spy"]
    o = world.gen_opt(rng, space, ests, ["EIps", "PIps"] if ps else None)
    o["n_points"] = 60
    ops, t = world.gen_schedule(rng, rng.choice([6, 10, 14]) if i % 97 else 50,
                                p=dict(askn=rng.choice([0.5, 1.0]), lose=rng.choice([0, 0.3]), res=0.1))
    for _ in range(rng.randint(1, 3)):
        k = rng.randint(0, len(ops))
        n = rng.choice([1, 2, 3, 4, 6])
        st = rng.choice(["cl_min", "cl_mean", "cl_max"])
        more = [["askn", n, st]]
        if rng.random() < 0.6:
            more += rng.choice([[["ask"]], [["result"]], [], [["askn", n + 1, st]], [["askn", n, "cl_max"]]])
            more += [["askn", n, st]]
        ops[k:k] = more
    return dict(space=space, opt=o, ops=ops, simtime=t, seed=rng.randrange(10 ** 6),
                values=rng.choice(["unique", "unique", "ties", "int"]), ambient=rng.randrange(1, 10 ** 6))


class D(Driver):
    def __init__(self, *a):
        self.cache = {}
        self.batches = 0
        self.real_batches = 0
        self.nout = 2 if "ps" in a[1]["opt"]["acq"] else 1
        super().__init__(*a)

    def state(self):
        o = self.opt
        return dict(X=plain(o.Xi), y=plain(o.yi), models=[id(m) for m in o.models],
                    gains=plain(getattr(o, "gains_", None)))

    def step(self, op):
        ctx = self.ctx
        mark = len(oracle.log_of(self.tag))
        if op[0] in ("ask", "askn", "peek", "result"):
            before = self.state()
            nx = plain(ctx.sut("ask", self.opt.ask)) if self.model_phase() else None
            super().step(op)
            after = self.state()
            for k in before:
                ctx.check(before[k] == after[k] or same(before[k], after[k]), "changed-by-%s:%s" % (op[0], k),
                          lambda: "%s was %r, is %r" % (k, before[k], after[k]))
            if nx is not None:
                now = plain(ctx.sut("ask", self.opt.ask))
                ctx.check(same(nx, now), "unstable-suggestion",
                          lambda: "%r changed the suggestion from %r to %r" % (op, nx, now))
            if self.X:
                self.check_record(ctx.sut("get_result", self.opt.get_result), "after-" + op[0])
        elif op[0] == "update":
            super().step(op)
            self.cache = {}
        else:
            super().step(op)

    def before_tell(self, items, fit):
        self.mark = len(oracle.log_of(self.tag))

    def after_tell(self, items, fit, res):
        self.cache = {}
        self.check_record(res, "tell")
        f = oracle.fits(self.tag, self.mark)
        for k in range(0, len(f), self.nout):
            cols = [self.Y] + ([np.log(self.T)] if self.ps else [])
            want = oracle.training_set(self.opt.space, self.X, cols)
            got = np.hstack([f[k][2]] + [r[3].reshape(-1, 1) for r in f[k:k + self.nout]])
            self.ctx.check(oracle.rows_equal(got, want), "made-up-training-data",
                           lambda: "trained on %s, recorded %s" % (got.tolist(), want.tolist()))

    def askn(self, n, strat):
        self.bmark = len(oracle.log_of(self.tag))
        return super().askn(n, strat)

    def on_askn(self, pts, n, strat):
        ctx = self.ctx
        ctx.check(len(pts) == n, "batch-size", lambda: "asked for %d, got %d" % (n, len(pts)))
        for x in pts:
            why = member(x, self.space)
            ctx.check(why is None, "batch-not-in-space", lambda: "%r: %s" % (x, why))
        key = (n, strat)
        if key in self.cache:
            ctx.check(same(self.cache[key], plain(pts)), "batch-not-repeatable",
                      lambda: "asked again: %r, before %r" % (plain(pts), self.cache[key]))
            ctx.count("repeated_batches")
            return
        self.cache[key] = plain(pts)
        self.batches += 1
        self.judge_lies(pts, n, strat)
        ctx.cover.add("%s|%d|%s|%s|%d|%s" % (strat, n, self.o["acq"], self.opt.acq_optimizer,
                                             max(-1, min(self.left, 3)), self.o.get("gen")))

    def judge_lies(self, pts, n, strat):
        ctx = self.ctx
        if not self.has_model or not self.X:
            return
        self.real_batches += 1
        f = oracle.fits(self.tag, self.bmark)
        groups = [f[k:k + self.nout] for k in range(0, len(f), self.nout)]
        red = dict(cl_min=np.min, cl_mean=np.mean, cl_max=np.max)[strat]
        lie = [float(red(self.Y))] + ([float(red(np.log(self.T)))] if self.ps else [])
        need = {i for i in range(1, n) if len(self.X) + i >= self.o["n_init"]}
        seen = {}
        for g in groups:
            got = np.hstack([g[0][2]] + [r[3].reshape(-1, 1) for r in g])
            j = len(got) - len(self.X)
            ctx.check(0 <= j <= n, "batch-training-size", lambda: "a batch of %d was suggested from %d observations "
                      "with %d real ones" % (n, len(got), len(self.X)))
            cols = [list(c) + [v] * j for c, v in zip([self.Y] + ([list(np.log(self.T))] if self.ps else []), lie)]
            want = oracle.training_set(self.opt.space, list(self.X) + list(pts[:j]), cols)
            ctx.check(oracle.rows_equal(got, want, 1e-8), "wrong-lie:" + strat,
                      lambda: "point %d of the batch was suggested from %s, expected %s" % (
                          j, got.tolist(), want.tolist()))
            seen[j] = g
        ctx.check(need <= set(seen), "batch-without-lie",
                  lambda: "points %s of the batch were not suggested by a surrogate that saw the earlier ones" % (
                      sorted(need - set(seen))))
        lb = self.opt.acq_optimizer == "lbfgs"
        if lb and not all(d["t"] == "real" for d in self.space):
            return
        kinds = ["EI", "LCB", "PI"] if self.o["acq"] == "gp_hedge" else [self.o["acq"]]
        for j in sorted(need):
            g = seen[j]
            C = oracle.candidates(self.tag, {r[1] for r in g[:1]})
            if C is None:
                continue
            rank = oracle.Ranker(g, self.o["rs"] % 1000, min(self.Y), self.o.get("akw"))
            xt = np.asarray(self.opt.space.transform([pts[j]]), float).reshape(1, -1)
            r = [rank.is_best(k, xt, C, 1e-6) for k in kinds]
            ctx.check(any(q[0] for q in r), "batch-point-not-best",
                      lambda: "point %d %r scores %s, best %s" % (j, plain(pts[j]), [q[1] for q in r],
                                                                  [q[2] for q in r]))


def run(ctx, scn):
    spies.reset()
    d = D(ctx, scn)
    for op in scn["ops"]:
        d.step(op)
    world.flags_from(ctx, scn["ops"])
    order = sum(1 for op in scn["ops"] if op[0] == "tell" and op[1] % 8)
    if order:
        ctx.fault("delivery_reordered", order)
    ctx.simtime = scn["simtime"]
    ctx.probe("acq-" + scn["opt"]["acq"])
    if d.batches >= 2 and (d.real_batches or not d.has_model):
        ctx.count("nontrivial")
