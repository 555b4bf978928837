"""C15 A restored optimizer continues exactly like the original; copies are independent."""
import copy as copy_
import os
import pickle

import numpy as np

from sim import sibling, spies, world
from sim.core import Ctx, Violation, rng_for
from sim.loop import Driver, simplify_space
from sim.world import freeze, plain, same

RUNS = dict(quick=1300, thorough=24000)
RULE = ("one case per seeded history cut at a seeded moment by serialising, deep copying or copying the optimizer, then "
        "continued on both sides in a seeded interleaving; distinct event logs among those where both sides asked and told "
        "after the cut")
COVER = "distinct (method, phase at the cut, surrogate, acquisition, generator, queue, interleaving)"
REAL = ["skopt.Optimizer incl. copy()", "pickle, joblib and deepcopy of it", "GP/forest/gradient boosting surrogates in a "
        "third of the runs", "a fresh interpreter in some runs"]
STUB = ["surrogate in the other runs (recording regressor)", "workers and delivery channel", "objective"]
SHRINK_LISTS = ["ops", "after", "other"]
TIMEOUT = 200


def generate(rng, tier, i):
    space = world.gen_space(rng)
    ps = rng.random() < 0.15
    real = i % 3 == 0
    ests = (["RF5", "ET5", "GB3", "GP1", "GP1", "GP"] if real else ["spy", "spy", "spy", "dummy"])
    if ps:
        ests = [e for e in ests if e not in ("dummy", "GP")]
    if all(d["t"] == "cat" for d in space):
        ests = [e for e in ests if e != "GP1"] or ["RF5"]
    o = world.gen_opt(rng, space, ests, ["EIps", "PIps"] if ps else None)
    if ps and o["acqopt"] == "auto":
        o["acqopt"] = "sampling"
    if o["est"] == "GP":
        o["n_points"] = 60
    n = {"GP": 3}.get(o["est"], 5 if real else rng.choice([4, 8, 12]))
    a, t1 = world.gen_schedule(rng, rng.randrange(0, n + 1) or 1, p=dict(upd=rng.choice([0, 0.1])))
    b, t2 = world.gen_schedule(rng, n)
    c, t3 = world.gen_schedule(rng, rng.choice([0, n, n]))
    method = rng.choice(["pickle", "pickle", "joblib", "deepcopy", "copy", "copy"])
    if i % 40 == 7:
        method = "process"
    return dict(space=space, opt=o, ops=a if rng.random() < .95 else [], after=b, other=c, simtime=t1 + t2 + t3,
                method=method, protocol=rng.choice([2, 4, 5]), hashseed=rng.choice([0, 5, 77]),
                order=rng.choice(["orig-first", "twin-first", "alternate", "random"]), seed=rng.randrange(10 ** 6),
                values=rng.choice(["unique", "unique", "ties"]), ambient=rng.randrange(1, 10 ** 6))


simplify = simplify_space


def predictions(res):
    """Digest of the models a result carries."""
    if not res.models:
        return None
    X = np.asarray(res.space.transform(res.x_iters), float).reshape(len(res.x_iters), -1)
    m = res.models[-1]
    ms = m.estimators_ if type(m).__name__ == "MultiOutputRegressor" else [m]
    return [plain(np.asarray(e.predict(X))) for e in ms]


class D(Driver):
    """Keeps a trace of everything observable."""

    def start(self):
        self.trace = []
        self.asked = self.told = 0

    def on_ask(self, x):
        self.trace.append(["ask", plain(x)])
        self.asked += 1

    def on_askn(self, pts, n, strat):
        self.trace.append(["askn", n, strat, plain(pts)])
        self.asked += 1

    def after_tell(self, items, fit, res):
        self.trace.append(["tell", freeze(res), predictions(res) if fit and self.must_fit else None])
        self.check_record(res, "tell")
        self.told += 1

    def twin(self, opt):
        t = D.__new__(D)
        t.__dict__.update({k: copy_.deepcopy(v) for k, v in self.__dict__.items()
                           if k in ("pending", "delivered", "X", "Y", "T", "n", "fitted", "asked", "told")})
        for k in ("ctx", "scn", "space", "o", "tag", "ps", "mode", "seed", "over", "has_model", "log"):
            setattr(t, k, getattr(self, k))
        t.results = []
        t.opt = opt
        t.start()
        return t


def observe(d):
    """What can be seen without changing anything."""
    out = {}
    if d.X:
        r = d.opt.get_result()
        out["result"] = freeze(r)
        out["models"] = predictions(r)
    if d.model_phase():
        out["next"] = plain(d.opt.ask())
    return out


def restore(ctx, scn, opt):
    m = scn["method"]
    if m == "deepcopy":
        return ctx.sut("deepcopy", copy_.deepcopy, opt)
    if m == "joblib":
        import joblib
        p = os.path.join(ctx.scratch, "opt.pkl")
        ctx.sut("joblib-dump", joblib.dump, opt, p)
        return ctx.sut("joblib-load", joblib.load, p)
    b = ctx.sut("pickle", pickle.dumps, opt, scn["protocol"])
    return ctx.sut("unpickle", pickle.loads, b)


def interleave(scn, a, opsa, b, opsb):
    """Run operations of two drivers in the order of the scenario."""
    qa, qb = list(opsa), list(opsb)
    r = rng_for("order", scn["seed"])
    turn = 0
    while qa or qb:
        o = scn["order"]
        first = o == "orig-first" or (o == "alternate" and turn % 2 == 0) or (o == "random" and r.random() < 0.5)
        turn += 1
        if (first and qa) or not qb:
            a.step(qa.pop(0))
        else:
            b.step(qb.pop(0))


def continue_elsewhere(arg):
    """In the sibling interpreter."""
    scn, b, ledger = arg
    ctx = Ctx("C15", "/nonexistent")
    opt = pickle.loads(b)
    d = D.__new__(D)
    d.__dict__.update(ledger)
    d.ctx, d.scn, d.results, d.opt = ctx, scn, [], opt
    d.start()
    for op in scn["after"]:
        d.step(op)
    return d.trace, observe(d)


def run(ctx, scn):
    spies.reset()
    d = D.__new__(D)
    d.start()
    d.__init__(ctx, scn)
    for op in scn["ops"]:
        d.step(op)
    phase = "model" if d.model_phase() else "initial" if d.left > 0 else "unfitted" if d.has_model else "random"
    m = scn["method"]
    ctx.probe("cut-in-" + phase)
    if m == "copy":
        copies(ctx, scn, d)
    elif m == "process":
        b = ctx.sut("pickle", pickle.dumps, d.opt, scn["protocol"])
        ledger = {k: v for k, v in d.__dict__.items() if k not in ("ctx", "scn", "results", "opt", "trace", "over")}
        ledger["over"] = {}
        trace, seen = sibling.call("sim.props.c15", "continue_elsewhere", (scn, b, ledger), scn["hashseed"])
        d.start()
        for op in scn["after"]:
            d.step(op)
        compare(ctx, d.trace, trace, "process")
        ctx.check(same_obs(seen, observe(d)), "differs:process", "other state at the end")
        ctx.fault("restart_in_new_process")
    else:
        before = observe(d)
        t = d.twin(restore(ctx, scn, d.opt))
        ctx.check(same_obs(observe(t), before), "differs-at-once", lambda: "restored %r, original %r" % (observe(t), before))
        d.start()
        interleave(scn, d, scn["after"], t, scn["after"])
        compare(ctx, d.trace, t.trace, m)
        ctx.check(same_obs(observe(d), observe(t)), "differs:" + m, "other state at the end")
        # afterwards only one of them goes on
        one, two = (d, t) if scn["seed"] % 2 else (t, d)
        before = observe(two)
        for op in scn["other"]:
            one.step(op)
        ctx.check(same_obs(observe(two), before), "not-independent", "operations on one changed what the other shows")
        # and then the other, with the same
        two.start()
        n0 = len(one.trace)
        for op in scn["other"]:
            two.step(op)
        compare(ctx, one.trace[len(one.trace) - len(two.trace):], two.trace, m + "-later")
        ctx.fault("restart_" + m)
    world.flags_from(ctx, scn["after"])
    ctx.simtime = scn["simtime"]
    o = scn["opt"]
    ctx.ev("end", d.trace)
    ctx.cover.add("%s|%s|%s|%s|%s|%s|%s" % (m, phase, o["est"], o["acq"], o["gen"], o.get("queue"), scn["order"]))
    if d.asked and d.told:
        ctx.count("nontrivial")


def same_obs(a, b):
    return set(a) == set(b) and all(same_deep(a[k], b[k]) for k in a)


def same_deep(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same_deep(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same_deep(x, y) for x, y in zip(a, b))
    return same(a, b)


def compare(ctx, a, b, what):
    for n, (x, y) in enumerate(zip(a, b)):
        ctx.check(same_deep(x, y), "differs:" + what, lambda: "step %d after the cut: original %.300r, restored %.300r" % (n, x, y))
    ctx.check(len(a) == len(b), "differs:" + what, lambda: "%d observations against %d" % (len(a), len(b)))


SETTINGS = ["acq_func", "acq_func_kwargs", "acq_optimizer", "acq_optimizer_kwargs", "n_points", "n_restarts_optimizer", "n_jobs",
            "max_model_queue_size", "cand_acq_funcs_", "eta", "n_initial_points_"]


def copies(ctx, scn, d):
    """Optimizer.copy(): same record and settings, nothing shared."""
    seed = scn["seed"] % 1000
    control = d.twin(pickle.loads(pickle.dumps(d.opt)))     # never sees a copy's operations
    before = observe(d)
    c = d.twin(ctx.sut("copy", d.opt.copy, random_state=seed))
    ctx.check(same_obs(observe(d), before), "copying-changes-original", "copying changed the original")
    c2 = control.twin(ctx.sut("copy", control.opt.copy, random_state=seed))
    for k in SETTINGS:
        a, b = getattr(d.opt, k, None), getattr(c.opt, k, None)
        ctx.check(repr(a) == repr(b), "settings:" + k, lambda: "%s is %r in the copy, %r in the original" % (k, b, a))
    ctx.check([repr(x) for x in d.opt.space.dimensions] == [repr(x) for x in c.opt.space.dimensions], "settings:space",
              lambda: "space %r, original %r" % (c.opt.space, d.opt.space))
    be = [getattr(q, "base_estimator_", None) for q in (d.opt, c.opt)]
    ctx.check(type(be[0]) is type(be[1]), "settings:surrogate", lambda: "surrogates %r" % be)
    g = [getattr(q.opt, "gains_", None) for q in (d, c)]
    ctx.check((g[0] is None) == (g[1] is None) and (g[0] is None or same(plain(g[0]), plain(g[1]))), "settings:gains",
              lambda: "gains %r" % g)
    if d.X:
        a, b = d.opt.get_result(), c.opt.get_result()
        ctx.check(same(plain(a.x_iters), plain(b.x_iters)) and same(plain(a.func_vals), plain(b.func_vals)) and
                  same(plain(a.get("log_time")), plain(b.get("log_time"))), "copy-record",
                  lambda: "record of the copy %r, of the original %r" % (freeze(b), freeze(a)))
        c.check_record(b, "copy")
    if d.left > 0 and d.o["gen"] not in (None, "random"):
        a, b = plain(d.opt.ask()), plain(c.opt.ask())
        ctx.check(same(a, b), "copy-design", lambda: "the original suggests %r, its copy %r" % (a, b))
    # the copy has trained a surrogate on the whole record exactly when the initial phase is over
    c.fitted = c2.fitted = d.must_fit and bool(d.X)
    d.start()
    interleave(scn, d, scn["after"], c, scn["other"])
    for op in scn["after"]:
        control.step(op)
    compare(ctx, control.trace, d.trace, "original-next-to-its-copy")
    for op in scn["other"]:
        c2.step(op)
    compare(ctx, c2.trace, c.trace, "copy-next-to-its-original")
    ctx.check(same_obs(observe(d), observe(control)) and same_obs(observe(c), observe(c2)), "not-independent", "other state at the end")
    if c.X and c.has_model and c.o.get("queue"):
        r = c.opt.get_result()
        ctx.check(len(r.models) <= c.o["queue"], "settings:queue", lambda: "%d models in a copy with queue %r" % (
            len(r.models), c.o["queue"]))
    ctx.fault("copied")
