"""C13 Later suggestions come from a surrogate trained on exactly the record."""
import numpy as np

from sim import oracle, spies, world
from sim.loop import Driver, simplify_space
from sim.world import plain, same

RUNS = dict(quick=2700, thorough=24000)
RULE = ("one case per seeded delivery history: distinct event logs among the histories in which at least 3 "
        "surrogates were trained by deliveries and their suggestions judged")
COVER = "distinct (acquisition, its optimiser, queue size, generator, kinds of dimensions, deliveries declining a fit)"
REAL = ["skopt.Optimizer", "search space and transformations", "acquisition functions and their gradients",
        "L-BFGS-B / candidate sampling", "portfolio (gp_hedge) bookkeeping", "MultiOutputRegressor for EIps/PIps"]
STUB = ["the surrogate (recording regressor with closed form mean, deviation and gradients)",
        "workers and delivery channel (seeded event queue)", "objective"]
ASSUMPTIONS = ["candidates are the points the surrogate is asked to judge with uncertainty, several at a time; "
               "besides, the suggestion must be among the best 15 % of 200 points the checker draws itself",
               "with L-BFGS the comparison is made on spaces of real dimensions only (rounding may spoil it else)"]
simplify = simplify_space


def generate(rng, tier, i):
    space = world.gen_space(rng, dtypes=False)
    ps = i % 4 == 1
    o = world.gen_opt(rng, space, ["spy"], ["EIps", "PIps"] if ps else None)
    if rng.random() < 0.4:
        o["queue"] = rng.choice([1, 2, 3])
    ops, t = world.gen_schedule(rng, rng.choice([8, 12, 18]) if i % 67 else 60)
    if rng.random() < 0.25:
        for _ in range(rng.choice([1, 1, 2, 3])):
            new = {k: v for k, v in (("xi", rng.choice([0.0, 0.001, 0.05, 0.2])), ("kappa", rng.choice([0.05, 1.0, 5.0, 20.0])))
                   if rng.random() < 0.8}
            ops.insert(rng.randrange(len(ops) // 2, len(ops) + 1), ["param", new])
    return dict(space=space, opt=o, ops=ops, simtime=t, seed=rng.randrange(10 ** 6),
                values=rng.choice(["unique", "unique", "unique", "ties", "const"]),
                ambient=rng.randrange(1, 10 ** 6))


class D(Driver):
    def __init__(self, *a):
        self.ids = []          # ids of trained surrogates, one tuple per training
        self.model_log = []
        self.gains = None
        self.prev_next = None
        self.current = None    # Ranker inputs of the latest training
        self.judged = 0
        self.nout = 2 if "ps" in a[1]["opt"]["acq"] else 1
        super().__init__(*a)
        self.ctx.check(not oracle.fits(self.tag), "trained-early", "surrogate trained at construction")

    # -- what was trained in a piece of the log
    def trainings(self, start):
        f = oracle.fits(self.tag, start)
        self.ctx.check(len(f) % self.nout == 0, "training-count",
                       lambda: "%d trainings of %d outputs" % (len(f), self.nout))
        return [f[i:i + self.nout] for i in range(0, len(f), self.nout)]

    def exact(self, tr, what):
        want = oracle.training_set(self.opt.space, self.X, [self.Y] + ([self._logt()] if self.ps else []))
        if self.ps:
            a, b = tr
            self.ctx.check(oracle.rows_equal(a[2], b[2]), "training-set:" + what, "outputs see different points")
            got = np.hstack([a[2], a[3].reshape(-1, 1), b[3].reshape(-1, 1)])
        else:
            got = oracle.seen(tr[0])
        self.ctx.check(oracle.rows_equal(got, want), "training-set:" + what,
                       lambda: "trained on %s, recorded %s" % (got.tolist(), want.tolist()))

    def _logt(self):
        return [float(np.log(t)) for t in self.T]

    def before_tell(self, items, fit):
        self.mark = len(oracle.log_of(self.tag))

    def after_tell(self, items, fit, res):
        ctx = self.ctx
        tr = self.trainings(self.mark)
        want = 1 if fit and self.must_fit else 0
        ctx.check(len(tr) == want, "trainings-per-delivery",
                  lambda: "%d trainings for a delivery (fit=%s) after which %d of %d initial evaluations are left"
                  % (len(tr), fit, self.left, self.o["n_init"]))
        for t in tr:
            self.exact(t, "tell")
            self.ids.append(tuple(r[1] for r in t))
        self.judge_models(res)
        if not tr:
            return
        self.current = tr[0]
        self.judge_gains(tr[0])
        self.judge_suggestion(tr[0], "tell")

    def ids_of(self, models):
        return [tuple(m.id_ for m in (e.estimators_ if self.ps else [e])) for e in models]

    def judge_models(self, res):
        q = self.o.get("queue")
        got = self.ids_of(res.models)
        ok = got == (self.ids if q is None else self.ids[-q:])
        self.ctx.check(ok, "models", lambda: "result carries surrogates %r, trained %r, queue %r" % (got, self.ids, q))
        self.ctx.check(len({id(m) for m in res.models}) == len(res.models), "models", "a surrogate is listed twice")

    def judge_gains(self, tr):
        o = self.opt
        if self.o["acq"] != "gp_hedge" or not hasattr(o, "gains_") or not hasattr(o, "next_xs_"):
            return
        m = oracle.shadow(tr[0], self.o["rs"] % 1000)
        if self.gains is None:
            self.gains = np.zeros(len(o.gains_))
        if self.prev_next is not None:
            self.gains = self.gains - m._mean(np.vstack(self.prev_next))
        self.ctx.check(np.allclose(o.gains_, self.gains, rtol=1e-7, atol=1e-7), "hedge-credit",
                       lambda: "gains %r, expected %r" % (np.asarray(o.gains_).tolist(), self.gains.tolist()))
        self.prev_next = [np.array(x, float).copy() for x in o.next_xs_]

    def judge_suggestion(self, tr, what):
        ctx, o = self.ctx, self.o
        x = ctx.sut("ask", self.opt.ask)
        xt = np.asarray(self.opt.space.transform([x]), float).reshape(1, -1)
        rank = oracle.Ranker(tr, o["rs"] % 1000, min(self.Y), o.get("akw"))
        kinds = ["EI", "LCB", "PI"] if o["acq"] == "gp_hedge" else [o["acq"]]
        lb = self.opt.acq_optimizer == "lbfgs"
        comparable = not lb or all(d["t"] == "real" for d in self.space)
        C = oracle.candidates(self.tag, {r[1] for r in tr[:1]})
        if C is not None and comparable:
            r = [rank.is_best(k, xt, C, 1e-6) for k in kinds]
            ctx.check(any(q[0] for q in r), "not-the-best-candidate:" + what,
                      lambda: "suggestion %r scores %s, the best of %d candidates scores %s (%s)" % (
                          plain(x), [q[1] for q in r], len(C), [q[2] for q in r], kinds))
            ctx.count("suggestions_judged")
            self.judged += 1
            nx = getattr(self.opt, "next_xs_", None)
            if o["acq"] == "gp_hedge" and nx is not None and len(nx) == 3 and what == "tell":
                for k, c in zip(self.opt.cand_acq_funcs_, nx):
                    q = rank.is_best(k, np.reshape(c, (1, -1)), C, 1e-6)
                    ctx.check(q[0], "not-the-best-candidate:hedge-" + k,
                              lambda: "candidate of %s scores %r, best %r" % (k, q[1], q[2]))
        if comparable and o["n_points"] >= 200:
            R = self.opt.space.transform(self.opt.space.rvs(200, random_state=12345))
            R = np.asarray(R, float).reshape(200, -1)
            worse = []
            for k in kinds:
                v, w = float(rank(k, xt)[0]), rank(k, R)
                worse.append(int(np.sum(w > v + 1e-6 * max(abs(v), float(np.ptp(w)), 1e-300))))
            ctx.check(min(worse) <= 30, "poor-suggestion:" + what,
                      lambda: "%r of 200 random points are better than the suggestion %r under %r" % (worse, x, kinds))
        ctx.check(same(plain(self.opt.ask()), plain(x)), "unstable-suggestion", "asked twice")

    def step(self, op):
        mark = len(oracle.log_of(self.tag))
        super().step(op)
        if op[0] in ("update", "param") and self.model_phase():
            tr = self.trainings(mark)
            for t in tr:
                self.exact(t, "update_next")
            if tr:
                self.judge_suggestion(tr[-1], "update_next")
        elif op[0] in ("ask", "peek", "result"):
            self.ctx.check(not oracle.fits(self.tag, mark), "trained-by-" + op[0],
                           "a surrogate was trained by %s" % op[0])


def run(ctx, scn):
    spies.reset()
    d = D(ctx, scn)
    for op in scn["ops"]:
        d.step(op)
    world.flags_from(ctx, scn["ops"])
    nf = sum(1 for op in scn["ops"] if op[0] in ("tell", "tellb") and not op[2])
    if nf:
        ctx.fault("delivery_without_fit", nf)
    ctx.simtime = scn["simtime"]
    o = scn["opt"]
    ctx.cover.add("%s|%s|%s|%s|%s|%d" % (o["acq"], d.opt.acq_optimizer, o.get("queue"), o.get("gen"),
                                         "".join(sorted({e["t"][0] for e in scn["space"]})), nf > 0))
    ctx.probe("acq-" + o["acq"])
    if d.judged >= 3:
        ctx.count("nontrivial")
