"""C03 Resuming from a checkpoint loses, repeats and alters no completed evaluation."""
import os
import signal
import sys

import numpy as np

from sim import results, seam, spies, world
from sim.core import Violation, fork_call, rng_for
from sim.results import dump_kw, gen_file, place
from sim.world import check_result, member, plain, random_point, same

RUNS = dict(quick=1300, thorough=12000)
LEVEL = "exploration"
RULE = ("one case per seeded life story of an optimization: up to six processes in a row, each resuming from the checkpoint "
        "and dying at a seeded moment (file system operation, call inside the library, objective, callback) or ending; "
        "distinct event logs among those with at least one death and one resumption from a checkpoint")
COVER = "distinct (minimiser, kind of death, what had happened in the iteration at death, file extension, starting data)"
REAL = ["base/dummy/gp/forest/gbrt_minimize in processes of their own", "CheckpointSaver, skopt.dump, skopt.load",
        "joblib, pickle, kernel file system calls (tmpfs)", "surrogates in gp, forest, gbrt runs"]
STUB = ["process death (exit or SIGKILL at a numbered event)", "failing file system calls (LD_PRELOAD seam)",
        "objective, callbacks around the saver (report to a ledger outside of the process)",
        "surrogate in base runs (recording regressor)"]
SHRINK_LISTS = ["lives"]
TIMEOUT = 200
EMIT = [None]
STATE = {}


class Death(BaseException):
    """A user interrupt that is no KeyboardInterrupt."""


def generate(rng, tier, i):
    space = world.gen_space(rng)
    timed = rng.random() < 0.1
    fns = ["timed"] if timed else [rng.choice(["base", "base", "dummy", "dummy", "forest", "gbrt", "gp"])]
    if not timed and rng.random() < 0.3:
        fns = ["base", "dummy", "forest"]
    lives = []
    for k in range(rng.choice([2, 3, 3, 4, 6])):
        fn = rng.choice(fns)
        n_init = rng.choice([0, 1, 1, 2, 3])
        slack = rng.choice([0, 1, 2, 3, 6] if fn in ("base", "dummy") else [0, 1, 2])
        how = rng.choice(["fs", "fs", "fs", "fs", "call", "call", "obj-before", "obj-after", "cb-before", "cb-after", "err", "exc",
                          "exc-cb", "none", "stop"])
        at = {"fs": rng.randrange(60), "call": int(2 ** (4 + rng.random() * 11)), "err": rng.randrange(40)}.get(how, rng.randrange(7))
        arg = rng.choice(["crash_before", "crash_partial", "crash_after"]) if how == "fs" else \
            rng.choice(["ENOSPC", "EIO", "EDQUOT", "EROFS"]) if how == "err" else \
            rng.choice(["value", "interrupt", "death", "memory"]) if how.startswith("exc") else rng.choice(["exit", "kill"])
        lives.append(dict(fn=fn, n_init=n_init, slack=slack, how=how, at=at, arg=arg, part=rng.choice([0, 1, 500, 999]),
                          xform=rng.choice(["list", "list", "tuples", "copy"]), yform=rng.choice(["array", "array", "list"]),
                          rs=rng.randrange(10 ** 6), pos=rng.randrange(3), again=rng.randrange(2)))
    return dict(space=space, lives=lives, file=gen_file(rng), raw=int(rng.random() < .3), x0=rng.choice([0, 0, 1, 2]),
                y0=rng.randrange(2), seed=rng.randrange(10 ** 6), ambient=rng.randrange(1, 10 ** 6),
                queue=rng.choice([None, None, 1, 2]),
                vals=rng.choice(["unique", "unique", "unique", "ties", "const", "zero", "int", "np"]))


def simplify(scn):
    import copy
    from sim.loop import simplify_space
    yield from simplify_space(scn)
    for k, v in (("ext", ".pkl"), ("compress", None), ("form", "str"), ("store", True), ("protocol", None)):
        if scn["file"][k] != v:
            s = copy.deepcopy(scn)
            s["file"][k] = v
            yield s
    for k, v in (("raw", 0), ("x0", 0), ("queue", None), ("vals", "unique")):
        if scn[k] != v:
            s = copy.deepcopy(scn)
            s[k] = v
            yield s
    for i, l in enumerate(scn["lives"]):
        for k, v in (("how", "none"), ("fn", "dummy"), ("slack", 0), ("n_init", 1), ("xform", "list"), ("yform", "list"),
                     ("pos", 0), ("at", l["at"] // 2)):
            if l[k] != v and not (k == "fn" and l["fn"] == "timed"):
                s = copy.deepcopy(scn)
                s["lives"][i][k] = v
                yield s


def die(arg):
    if arg == "kill":
        os.kill(os.getpid(), signal.SIGKILL)
    os._exit(seam.CRASH_RC)


def throw(arg):
    raise {"value": ValueError, "interrupt": KeyboardInterrupt, "death": Death, "memory": MemoryError}[arg]("scripted")


class Objective:
    """Storable; what it does comes from the process it runs in."""

    def __init__(self, seed, vals):
        self.seed = seed
        self.vals = vals

    def __call__(self, x):
        s = STATE
        k = s["k"]
        s["k"] += 1
        EMIT[0](("in", plain(x)))
        if s["how"] == "obj-before" and k == s["at"]:
            die(s["arg"])
        if s["how"] == "exc" and k == s["at"]:
            throw(s["arg"])
        y = world.value(self.seed, x, s["n"] + k, self.vals)
        if s["timed"]:
            y = (y, (1 + int(spies.unit(self.seed, "t", s["n"] + k) * 32)) / 8.0)
        EMIT[0](("eval", plain(x), plain(y)))
        if s["how"] == "obj-after" and k == s["at"]:
            die(s["arg"])
        return y


class Around:
    """Callbacks before and after the saver."""

    def __init__(self, name):
        self.name = name

    def __call__(self, res):
        s = STATE
        n = s["cb"].get(self.name, 0)
        s["cb"][self.name] = n + 1
        EMIT[0]((self.name, len(res.x_iters)))
        if s["how"] == self.name and n == s["at"]:
            die(s["arg"])
        if s["how"] == "exc-cb" and self.name == "cb-after" and n == s["at"]:
            throw(s["arg"])
        return s["how"] == "stop" and n == s["at"]


def call_bomb(n):
    """Kill the process at its n-th call of a Python function."""
    left = [n]

    def prof(frame, event, arg):
        if event == "call":
            left[0] -= 1
            if left[0] <= 0:
                os._exit(seam.CRASH_RC)
    sys.setprofile(prof)


def minimise(scn, life, func, callback, n_calls, x0, y0):
    import skopt
    from skopt.optimizer import base_minimize
    dims = world.build_space(scn["space"])
    kw = dict(n_calls=n_calls, random_state=life["rs"], callback=callback)
    if x0 is not None:
        kw["x0"] = x0
        if y0 is not None:
            kw["y0"] = y0
    fn, seed = life["fn"], scn["seed"] % 100
    if scn["queue"]:
        kw["model_queue_size"] = scn["queue"]
    if fn == "dummy":
        return skopt.dummy_minimize(func, dims, **kw)
    kw.update(n_initial_points=life["n_init"], n_points=40)
    if fn in ("base", "timed"):
        return base_minimize(func, dims, spies.SpyRegressor(seed=1) if fn == "base" else results.small_forest(seed),
                             acq_func="EIps" if fn == "timed" else "LCB", acq_optimizer="sampling", **kw)
    if fn == "forest":
        return skopt.forest_minimize(func, dims, base_estimator=results.small_forest(seed), **kw)
    if fn == "gbrt":
        return skopt.gbrt_minimize(func, dims, base_estimator=world.build_estimator("GB3", seed=seed), **kw)
    return skopt.gp_minimize(func, dims, base_estimator=world.build_estimator("GP1", seed=seed), acq_optimizer="sampling", **kw)


def live(emit, scn, life, d, arg, n_before, n_calls, x0, y0, first):
    """One process: resume from the checkpoint, or start."""
    from skopt import load
    from skopt.callbacks import CheckpointSaver
    EMIT[0] = emit
    STATE.clear()
    STATE.update(how=life["how"], at=life["at"], arg=life["arg"], k=0, cb={}, n=n_before, timed=life["fn"] == "timed")
    if not first:
        res = load(arg)
        x0, y0 = res.x_iters, res.func_vals
        if STATE["timed"]:
            y0 = [[float(y), float(np.exp(t))] for y, t in zip(res.func_vals, res.log_time)]
        elif life["yform"] == "list":
            y0 = list(y0)
        if life["xform"] == "tuples":
            x0 = [tuple(x) for x in x0]
        elif life["xform"] == "copy":
            x0 = [list(x) for x in x0]
    kw = dump_kw(scn["file"])
    func = Objective(scn["seed"], scn.get("vals", "unique"))
    if scn["raw"]:
        kw["store_objective"] = False
        inner = func
        func = lambda x: inner(x)          # noqa: cannot be stored
    saver = CheckpointSaver(arg, **kw)
    cbs = [Around("cb-before"), saver, Around("cb-after")]
    disk = seam.Disk(d, "/dev/null")
    plan = []
    if life["how"] == "fs":
        plan = [(life["at"], life["arg"], life["part"])]
    elif life["how"] == "err":
        plan = [(life["at"], "err", seam.ERRNO[life["arg"]])]
    disk.start(plan)
    if life["how"] == "call":
        call_bomb(life["at"])
    try:
        res = minimise(scn, life, func, cbs, n_calls, x0, y0)
    except BaseException as e:
        sys.setprofile(None)
        emit(("exc", type(e).__name__, str(e)[:300], bool(disk.fired())))
        disk.stop()
        return
    sys.setprofile(None)
    disk.stop()
    emit(("ret", plain(res.x_iters), plain(res.func_vals), plain(res.x), plain(res.fun)))


def run(ctx, scn):
    if not seam.PRESENT:
        raise RuntimeError("shim not loaded")
    spies.reset()
    from skopt import load
    r = rng_for("c03", scn["seed"])
    d = os.path.join(ctx.scratch, "data")
    os.mkdir(d)
    arg, real = place(scn["file"], d)
    X, Y = [], []                   # what the checkpoint is known to hold
    durable = 0                     # evaluations whose iterations had finished
    n_before = 0                    # evaluations made so far by all processes
    deaths = resumed = 0
    started = False
    for k, life in enumerate(scn["lives"]):
        there = os.path.exists(real)
        first = not there
        x0 = y0 = None
        if first and scn["x0"]:
            x0 = [random_point(r, scn["space"]) for _ in range(scn["x0"])]
            if scn["y0"]:
                y0 = [3.25 + j for j in range(scn["x0"])]
                if life["fn"] == "timed":
                    y0 = [[y, 0.5] for y in y0]
        unevaluated = len(x0) if x0 and y0 is None else 0
        n_init = life["n_init"]
        if first and not x0 and n_init == 0:
            n_init = 1
        lf = dict(life, n_init=n_init)
        n_calls = unevaluated + (0 if life["fn"] == "dummy" else n_init) + life["slack"]
        if first and not x0 and n_calls == 0:
            n_calls = 1
        base = (plain(X), plain(Y)) if not first else (plain(x0) if y0 is not None else [],
                                                       [plain(y)[0] if life["fn"] == "timed" else y for y in y0] if y0 is not None else [])
        rc, led = fork_call(lambda emit: live(emit, scn, lf, d, arg, n_before, n_calls, x0, y0, first))
        if led and led[-1][0] == "__exc__":
            raise Violation("exception:process", "%s: %s\n%s" % led[-1][1:4])
        evals = [e for e in led if e[0] == "eval"]
        n_before += len([e for e in led if e[0] == "in"])
        end = led[-1] if led else ("nothing",)
        died = rc in (seam.CRASH_RC, -signal.SIGKILL)
        what = "%s:%s" % (life["how"], life["fn"])
        ctx.ev("life", k, rc, [e if e[0] != "exc" else e[:2] for e in led])
        if not died:
            ctx.check(rc == 0, "exception:process", lambda: "process ended with %r, %r" % (rc, end))
        # the ledger of this life: what had been there, then what the objective answered
        LX = base[0] + [e[1] for e in evals]
        LY = base[1] + [e[2][0] if life["fn"] == "timed" else e[2] for e in evals]
        for e in evals:
            why = member(e[1] if isinstance(e[1], list) else list(e[1]), scn["space"])
            ctx.check(why is None or any(dd["t"] == "cat" for dd in scn["space"]), "not-a-member", lambda: "evaluated %r: %s" % (e[1], why))
        # the starting points are evaluated first when their values are not known
        if unevaluated:
            for j, e in enumerate(evals[:unevaluated]):
                ctx.check(same(e[1], plain(x0[j])), "starting-point", lambda: "evaluated %r as %r" % (x0[j], e[1]))
        # budget
        ctx.check(len([e for e in led if e[0] == "in"]) <= n_calls, "more-than-requested", lambda: "%d evaluations of %d" % (
            len([e for e in led if e[0] == "in"]), n_calls))
        finished = max([e[1] for e in led if e[0] == "cb-after"] or [0])
        stopped = life["how"] == "stop" and len([e for e in led if e[0] == "cb-after"]) > life["at"]
        if end[0] == "ret":
            ctx.check(stopped or len(evals) == n_calls, "budget", lambda: "%d new points evaluated, %d requested, %d resumed" % (
                len(evals), n_calls, len(base[0])))
            ctx.check(same(end[1], LX) and same(end[2], LY), "result", lambda: "result %r, known and evaluated %r" % (
                list(zip(end[1], end[2])), list(zip(LX, LY))))
            b = min(range(len(LY)), key=lambda i: (LY[i], i))
            ctx.check(same(end[3], LX[b]) and same(end[4], LY[b]), "optimum", lambda: "optimum %r, %r" % (end[3], end[4]))
            finished = len(LX)
        elif end[0] == "exc":
            ok = {"exc": True, "exc-cb": True, "err": end[3]}.get(life["how"], False)
            ctx.check(ok, "raised", lambda: "%s raised %s: %s" % (what, end[1], end[2]))
            names = {"value": "ValueError", "interrupt": "KeyboardInterrupt", "death": "Death", "memory": "MemoryError"}
            if life["how"] != "err":
                ctx.check(end[1] == names[life["arg"]], "other-exception", lambda: "%s became %s: %s" % (life["arg"], end[1], end[2]))
        sizes = [e[1] for e in led if e[0] == "cb-before"]
        ctx.check(sizes == sorted(set(sizes)) and all(s <= len(LX) for s in sizes), "callback-record",
                  lambda: "callbacks saw records of %r" % sizes)
        # the checkpoint
        if os.path.exists(real):
            if scn["file"]["form"] == "relative":
                os.chdir(d)
            try:
                res = load(arg)
            except Exception as e:
                raise Violation("checkpoint-unreadable:" + what, "%s: %s" % (type(e).__name__, e))
            gx, gy = plain(res.x_iters), plain(res.func_vals)
            ctx.check(len(gx) == len(gy), "checkpoint-record", "points and values differ in number")
            if first or started:
                lo = max(finished, durable if not first else 0)
                # a life that had not finished an iteration leaves the earlier checkpoint
                ctx.check(len(gx) >= lo, "lost:" + what, lambda: "checkpoint holds %d evaluations, %d had been completed" % (len(gx), lo))
            ctx.check(len(gx) <= len(LX) and same(gx, LX[:len(gx)]), "altered-points:" + what, lambda: "checkpoint %r, ledger %r" % (gx, LX))
            ctx.check(same(gy, LY[:len(gy)]), "altered-values:" + what, lambda: "checkpoint %r, ledger %r" % (gy, LY))
            if end[0] == "ret":
                ctx.check(len(gx) == len(LX), "last-checkpoint", lambda: "the run returned %d evaluations, its checkpoint has %d" % (
                    len(LX), len(gx)))
            b = min(range(len(gy)), key=lambda i: (gy[i], i))
            ctx.check(same(plain(res.x), gx[b]) and same(res.fun, gy[b]), "checkpoint-optimum", lambda: "%r %r" % (res.x, res.fun))
            if life["fn"] == "timed":
                known = [0.5] * (len(base[0])) if first else STATE.get("T", [])
                T = known + [e[2][1] for e in evals]
                ctx.check("log_time" in res and same(plain(res.log_time), [float(np.log(t)) for t in T[:len(gx)]], 1e-9), "altered-times",
                          lambda: "times %r, ledger %r" % (plain(res.get("log_time")), T))
                STATE["T"] = T[:len(gx)]
            if not first:
                resumed += 1
            X, Y, durable, started = res.x_iters, res.func_vals, len(gx), True
        else:
            ctx.check(not there and finished == 0, "lost:" + what, lambda: "no checkpoint, %d evaluations had been completed" % finished)
        if died or end[0] == "exc":
            deaths += 1
            last = end[0] if end[0] != "exc" else [e[0] for e in led][-2] if len(led) > 1 else "nothing"
            ctx.fault("death_%s:%s" % (life["how"], life["arg"]))
            ctx.cover.add("%s|%s|%s|%s|%s" % (life["fn"], life["how"], last, scn["file"]["ext"], "x0" if scn["x0"] else ""))
        ctx.simtime += len(evals)
    ctx.count("lives", len(scn["lives"]))
    if deaths and resumed:
        ctx.count("nontrivial")
