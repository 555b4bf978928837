"""C10 Time-limited runs measure elapsed time right and stop within the budget."""
import time

from sim import results, seam, spies, world
from sim.core import Violation, rng_for
from sim.world import plain

RUNS = dict(quick=12000, thorough=100000)
RULE = ("one case per seeded run of a minimiser or ask/tell loop on simulated clocks, with durations, blocking, clock "
        "settings and stalls drawn by seed; distinct event logs among those with at least two iterations")
COVER = "distinct (driver, order of callbacks, kinds of delay, clock settings, stall at clock reads, how it ended, reuse)"
REAL = ["TimerCallback, DeadlineStopper", "dummy/base minimisers, skopt.Optimizer, eval_callbacks"]
STUB = ["all clocks and sleeping (LD_PRELOAD seam)", "objective", "surrogate (recording regressor)"]
SHRINK_LISTS = ["steps", "order", "second"]
U = seam.NS // 512          # unit of time: 1/512 s, exact in nanoseconds and in floating point


def gen_step(rng):
    return [rng.choice([0, 1, 3, 17, 512, 513, rng.randrange(1, 4000), 512 * 3600]), rng.choice("sbm"),
            rng.choice([0, 0, 0, 0, 3600, -3600, 10 ** 6, -10 ** 6, 1, -1]), rng.choice([0, 0, 0, 1, 40, 600])]


def generate(rng, tier, i):
    order = rng.sample(["timer", "deadline", "slow", "timer2", "verbose"], rng.randint(1, 5))
    if "deadline" not in order and rng.random() < 0.8:
        order.append("deadline")
    n = rng.choice([1, 2, 3, 5, 8, 13])
    steps = [gen_step(rng) for _ in range(n)]
    if rng.random() < .3:
        for s in steps:
            s[0] = steps[0][0]
    total = ["boundary", rng.randrange(1, n + 1), rng.choice([0, 0, 0, 1, -1, 2, 500])] if rng.random() < 0.6 else \
        ["abs", rng.choice([0, -5, 1, 100, 5000, 10 ** 7])]
    return dict(driver=rng.choice(["dummy", "base", "direct"]), order=order, steps=steps, total=total,
                gap=rng.choice([0, 0, 7, 5000]), nx=rng.choice([0, 0, 1, 2]), y0=rng.randrange(2),
                second=[gen_step(rng) for _ in range(rng.choice([0, 0, 0, 2, 4]))], idle=rng.choice([0, 3, 2000]),
                stall=rng.choice([0, 0, 0, 1, 33]), mono=rng.choice([0, 1000, 2 ** 22, 2 ** 23]),
                real=rng.choice([0, 1600000000]), rs=rng.randrange(1000), seed=rng.randrange(10 ** 6),
                ambient=rng.randrange(1, 10 ** 6))


def simplify(scn):
    import copy
    for k, v in (("driver", "direct"), ("gap", 0), ("nx", 0), ("stall", 0), ("mono", 1000), ("real", 1600000000), ("idle", 0)):
        if scn[k] != v:
            s = copy.deepcopy(scn)
            s[k] = v
            yield s
    for n, st in enumerate(scn["steps"]):
        for q in ([1, "s", 0, 0], [st[0], "s", st[2], st[3]], [st[0], st[1], 0, st[3]], [st[0], st[1], st[2], 0]):
            if st != q:
                s = copy.deepcopy(scn)
                s["steps"][n] = q
                yield s


def spend(units, how):
    ns = int(units) * U
    if how == "s":
        time.sleep(ns / 1e9)
    elif how == "b":
        seam.clock_move(ns, ns, ns)
    else:
        h = ns // 2
        h -= h % U
        seam.clock_move(h, h, h)
        time.sleep((ns - h) / 1e9)


class Wrapped:
    """A callback of the code under test, with the simulated times of its calls."""

    def __init__(self, w, make):
        self.w = w
        a = seam.clock_mono()
        with w.stalls():
            self.cb = make()
        self.times = [(a, seam.clock_mono())]
        self.decisions = []

    def __call__(self, res):
        a = seam.clock_mono()
        with self.w.stalls():
            d = self.cb(res)
        self.times.append((a, seam.clock_mono()))
        self.decisions.append(d)
        self.w.judge(self, res)
        return d


class World:
    def __init__(self, ctx, scn):
        self.ctx, self.scn = ctx, scn

    def stalls(self):
        stall = self.scn["stall"] * U

        class S:
            def __enter__(s):
                seam.clock_on(*self.now(), stall)

            def __exit__(s, *a):
                seam.clock_on(*self.now(), 0)
        return S()

    def now(self):
        from sim.seam import _lib
        return [_lib.sim_clock_get(1), _lib.sim_clock_get(0), _lib.sim_clock_get(2)]

    def judge(self, w, res):
        ctx = self.ctx
        it = list(w.cb.iter_time)
        t = w.times
        name = type(w.cb).__name__
        ctx.check(len(it) == len(t) - 1, "iterations:" + name, lambda: "%d times recorded in %d iterations" % (len(it), len(t) - 1))
        for k in range(len(it)):
            lo, hi = (t[k + 1][0] - t[k][1]) / 1e9, (t[k + 1][1] - t[k][0]) / 1e9
            ctx.check(lo <= it[k] <= hi, "elapsed:" + name, lambda: "iteration %d lasted %s s, recorded %r" % (
                k, lo if lo == hi else (lo, hi), it[k]))
            lo, hi = (t[k + 1][0] - t[0][1]) / 1e9, (t[k + 1][1] - t[0][0]) / 1e9
            s = sum(it[:k + 1])
            ctx.check(lo <= s <= hi, "time-lost:" + name, lambda: "%s s since the callback was made, recorded in total %r" % (
                lo if lo == hi else (lo, hi), s))
        if hasattr(w.cb, "total_time"):
            want = self.total - sum(it) <= max(it)
            d = w.decisions[-1]
            ctx.check(bool(d) == want, "decision", lambda: "budget %r, iterations %r: decided %r" % (self.total, it, d))
            if d:
                self.ended = "deadline"


def total_of(scn):
    kind = scn["total"][0]
    if kind == "abs":
        return scn["total"][1] / 512.0
    k, off = scn["total"][1], scn["total"][2]
    d = [s[0] + s[3] for s in scn["steps"]][:k] or [0]
    d[0] += scn["gap"]
    return (sum(d) + max(d) + off) / 512.0


def run(ctx, scn):
    import skopt
    from skopt.callbacks import DeadlineStopper, TimerCallback
    from skopt.optimizer import base_minimize
    spies.reset()
    if not scn["steps"] or not scn["order"]:
        return
    seam.clock_on(scn["mono"] * seam.NS, scn["real"] * seam.NS, seam.NS, 0)
    t_start = seam.clock_mono()
    w = World(ctx, scn)
    w.ended = "budget"
    w.total = total_of(scn)
    if scn["seed"] % 5 == 0 and w.total == int(w.total):
        w.total = int(w.total)
    steps = [None]
    evals = [0]
    slow = [0]

    def f(x):
        k = evals[0]
        evals[0] += 1
        st = steps[0][k % len(steps[0])]
        if st[2]:
            seam.clock_move(0, st[2] * seam.NS, 0)
            ctx.fault("clock_set_%s" % ("forwards" if st[2] > 0 else "backwards"))
        spend(st[0], st[1])
        if st[1] != "b" and st[0]:
            ctx.fault("blocked")
        return world.value(scn["seed"], x, k)

    def slow_cb(res):
        st = steps[0][slow[0] % len(steps[0])]
        slow[0] += 1
        spend(st[3], "m")
        return None
    made = {}
    for o in scn["order"]:
        if o in ("timer", "timer2"):
            made[o] = Wrapped(w, TimerCallback)
        elif o == "deadline":
            made[o] = Wrapped(w, lambda: DeadlineStopper(w.total))
        elif o == "slow":
            made[o] = slow_cb
    cbs = [made[o] for o in scn["order"] if o in made]
    verbose = "verbose" in scn["order"]
    spend(scn["gap"], "m")
    if scn["stall"]:
        ctx.fault("stall_at_clock_read")
    x0 = [[0.25], [0.5]][:scn["nx"]]
    for rnd, st in enumerate([scn["steps"], scn["second"]]):
        if not st:
            continue
        if rnd and w.ended == "deadline":
            w.ended = "deadline-again"
        if rnd:
            spend(scn["idle"], "m")
        steps[0] = st
        evals[0] = slow[0] = 0
        n = len(st)
        before = {k: len(c.decisions) for k, c in made.items() if isinstance(c, Wrapped)}
        kw = dict(random_state=scn["rs"], callback=cbs, verbose=verbose)
        extra = 0
        if x0:
            kw["x0"] = x0
            if scn["y0"]:
                kw["y0"] = [1.0, 2.0][:len(x0)]
            else:
                extra = len(x0)
        if scn["driver"] == "dummy":
            ctx.sut("dummy_minimize", skopt.dummy_minimize, f, [(0.0, 1.0)], n_calls=n + extra, **kw)
        elif scn["driver"] == "base":
            ctx.sut("base_minimize", base_minimize, f, [(0.0, 1.0)], spies.SpyRegressor(seed=1), acq_func="LCB",
                    acq_optimizer="sampling", n_points=20, n_calls=n + extra, n_initial_points=min(n, 2), **kw)
        else:
            o = skopt.Optimizer([(0.0, 1.0)], "dummy", n_initial_points=3, random_state=scn["rs"], acq_optimizer="sampling")
            for _ in range(n):
                x = o.ask()
                res = o.tell(x, f(x))
                if skopt.utils.eval_callbacks(cbs, res):
                    break
        # it ended at the first iteration that was over, and not earlier
        dl = made.get("deadline")
        calls = {k: len(c.decisions) - before[k] for k, c in made.items() if isinstance(c, Wrapped)}
        iters = n + (1 if x0 and scn["driver"] != "direct" else 0)
        if dl is not None:
            dec = [bool(d) for d in dl.decisions[before["deadline"]:]]
            ctx.check(not any(dec[:-1]), "ran-on", lambda: "decisions %r, yet the run went on" % dec)
            if not (dec and dec[-1]):
                ctx.check(len(dec) == iters, "stopped-early", lambda: "%d of %d iterations, decisions %r" % (len(dec), iters, dec))
        for k, c in calls.items():
            want = calls["deadline"] if dl is not None else iters
            ctx.check(c == want, "callback-calls", lambda: "%s called %d times in %d iterations" % (k, c, want))
        ctx.ev("run", rnd, {k: [plain(list(c.cb.iter_time)), [bool(d) for d in c.decisions]]
                            for k, c in sorted(made.items()) if isinstance(c, Wrapped)})
        if sum(calls.values()) and max(calls.values()) >= 2:
            ctx.count("nontrivial")
    ctx.simtime = (seam.clock_mono() - t_start) / 1e9
    ctx.probe("ended-" + w.ended)
    ctx.cover.add("%s|%s|%s|%d|%d|%s|%d" % (scn["driver"], ",".join(scn["order"]), "".join(sorted({s[1] for s in scn["steps"]})),
                                            any(s[2] for s in scn["steps"]), scn["stall"], w.ended, len(scn["second"]) > 0))
