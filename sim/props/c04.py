"""C04 Minimisers spend exactly the requested evaluations and record each of them."""
import numpy as np

from sim import results, seam, spies, world
from sim.core import Violation, rng_for
from sim.world import check_result, freeze, member, plain, random_point, same, unit

RUNS = dict(quick=4800, thorough=40000)
RULE = ("one case per seeded call of a minimiser with starting data, budget, callbacks, stop decisions and failing "
        "objective or callback, replayed event by event against a reference model of the accounting; distinct event "
        "logs among those with at least two evaluations or a refusal")
COVER = "distinct (minimiser, form of x0, form of y0, form of callback, what ended the run, budget slack)"
REAL = ["base/dummy/gp/forest/gbrt_minimize", "skopt.Optimizer below them", "surrogates in forest, gbrt and gp runs",
        "eval_callbacks, VerboseCallback"]
STUB = ["objective and callbacks (scripted)", "surrogate in base runs (recording regressor)"]
SHRINK_LISTS = ["stops"]
EXC = {"value": ValueError, "runtime": RuntimeError, "interrupt": KeyboardInterrupt, "exit": SystemExit,
       "stop": StopIteration, "assert": AssertionError, "os": OSError}


class Own(Exception):
    pass


EXC["own"] = Own


def generate(rng, tier, i):
    space = world.gen_space(rng)
    fn = rng.choice(["base", "base", "base", "dummy", "dummy", "forest", "gbrt", "gp", "timed"])
    x0 = rng.choice(["none", "none", "point", "tuple", "list", "list", "tuples", "one"])
    y0 = rng.choice(["none", "none", "list", "tuple", "array", "gen", "scalar"])
    if x0 == "none":
        y0 = "none"
    if y0 == "scalar" and x0 not in ("point", "tuple", "one"):
        y0 = "list"
    if fn == "timed" and y0 in ("scalar", "gen", "array"):
        y0 = "list"
    n_init = rng.choice([0, 1, 1, 2, 3])
    slack = rng.choice([0, 0, 1, 2, 4, 8] if fn in ("base", "dummy") else [0, 1, 2])
    bad = rng.choice(["budget", "mismatch", "y-mismatch", "dims", "outside", "noinit", "badvalue",
                      "y-form", "y-none", "callback"]) \
        if rng.random() < 0.2 else None
    fault = None
    if rng.random() < 0.3:
        fault = [rng.choice(["objective", "objective", "callback", "badreturn"]), rng.randrange(7),
                 rng.choice(sorted(EXC)), rng.randrange(3)]
    ncb = rng.choice([0, 1, 1, 2, 3])
    return dict(space=space, fn=fn, x0=x0, nx=rng.choice([1, 2, 3]), y0=y0, n_init=n_init, slack=slack, bad=bad, fault=fault,
                ncb=ncb, cbform=rng.choice(["list", "list", "single"]), verbose=int(rng.random() < 0.15),
                stops=[[rng.randrange(6), rng.randrange(3), rng.choice(["True", "np", "one", "str"])]
                       for _ in range(rng.choice([0, 0, 1, 2]))],
                nays=rng.choice(["None", "False", "np", "zero"]), vals=rng.choice(["unique", "ties", "const", "int", "np"]),
                rs=rng.randrange(10 ** 6), seed=rng.randrange(10 ** 6), nrs=int(rng.random() < 0.1),
                gen=world.gen_generator(rng, [None] * 4), ambient=rng.randrange(1, 10 ** 6))


def simplify(scn):
    import copy
    from sim.loop import simplify_space
    yield from simplify_space(scn)
    for k, v in (("fn", "base"), ("x0", "none"), ("y0", "none"), ("fault", None), ("ncb", 1), ("verbose", 0), ("slack", 0),
                 ("n_init", 1), ("gen", None), ("nrs", 0), ("vals", "unique"), ("nx", 1), ("cbform", "list")):
        if scn[k] != v:
            s = copy.deepcopy(scn)
            s[k] = v
            if k == "x0":
                s["y0"] = "none"
            yield s


YES = {"True": True, "np": np.bool_(True), "one": 1, "str": "stop"}
NO = {"None": None, "False": False, "np": np.bool_(False), "zero": 0}


def run(ctx, scn):
    import skopt
    from skopt.optimizer import base_minimize
    spies.reset()
    r = rng_for("c04", scn["seed"])
    space = scn["space"]
    timed = scn["fn"] == "timed"
    nx = {"none": 0, "point": 1, "tuple": 1, "one": 1}.get(scn["x0"], scn["nx"])
    pts = [random_point(r, space) for _ in range(nx)]
    n_eval = [0]
    events = []

    def val(x, n):
        u = unit(scn["seed"], "y", plain(list(x)))
        if scn["vals"] == "ties":
            v = float(int(u * 3))
        elif scn["vals"] == "const":
            v = 2.0
        elif scn["vals"] == "int":
            v = int(u * 5) - 2
        elif scn["vals"] == "np":
            v = np.float64(round(u * 64) / 16.0)
        else:
            v = world.value(scn["seed"], x, n)
        return (v, (1 + int(unit(scn["seed"], "t", n) * 32)) / 8.0) if timed else v
    x0 = None
    if scn["x0"] == "point":
        x0 = list(pts[0])
    elif scn["x0"] == "tuple":
        x0 = tuple(pts[0])
    elif scn["x0"] == "tuples":
        x0 = [tuple(p) for p in pts]
    elif scn["x0"] in ("list", "one"):
        x0 = [list(p) for p in pts]
    given = [val(p, -9 - k) for k, p in enumerate(pts)]
    y0 = None
    if scn["y0"] == "scalar":
        y0 = given[0]
    elif scn["y0"] == "tuple":
        y0 = tuple(given)
    elif scn["y0"] == "array":
        y0 = np.array(given)
    elif scn["y0"] == "gen":
        y0 = iter(given)
    elif scn["y0"] == "list":
        y0 = list(given)
    with_y = y0 is not None
    n_init = scn["n_init"]
    if n_init == 0 and not nx:
        n_init = 1
    evals0 = 0 if with_y else nx
    if scn["fn"] == "dummy":
        calls = evals0 + scn["slack"]
        if calls == 0 and not nx:
            calls = 1
    else:
        calls = evals0 + n_init + scn["slack"]
        if calls == 0 and not nx:
            calls = 1
    bad = scn["bad"]
    if bad == "budget":
        if evals0 + (0 if scn["fn"] == "dummy" else n_init) < 1 or (scn["fn"] == "dummy" and not evals0):
            bad = None
        else:
            calls = r.randrange(0, evals0 + (0 if scn["fn"] == "dummy" else n_init))
    elif bad == "noinit":
        if nx or scn["fn"] == "dummy":
            bad = None
        else:
            n_init = r.choice([0, -1])
    elif bad in ("mismatch", "y-mismatch"):
        if not nx or scn["x0"] in ("point", "tuple", "one") and bad == "mismatch":
            bad = None
        else:
            y0 = list(given)
            y0 = y0[:-1] if bad == "mismatch" and len(y0) > 1 else y0 + [given[0]]
            with_y = True
            calls = max(calls, n_init + nx)
    elif bad == "dims":
        if not nx:
            bad = None
        else:
            x0 = [list(p) for p in pts]
            k = r.randrange(nx)
            x0[k] = x0[k] + [0.5] if r.random() < .5 or len(x0[k]) == 1 else x0[k][:-1]
    elif bad == "outside":
        if not nx:
            bad = None
        else:
            x0 = [list(p) for p in pts]
            k, d = r.randrange(nx), r.randrange(len(space))
            x0[k][d] = "no such value" if space[d]["t"] == "cat" else space[d]["high"] + 7
    elif bad == "badvalue":
        if not with_y or timed:
            bad = None
        else:
            y0 = list(given)
            y0[r.randrange(nx)] = r.choice(["1.0", None, [1.0]])
    elif bad in ("y-form", "y-none"):
        if not nx or bad == "y-form" and scn["x0"] != "list":
            bad = None
        else:
            y0 = [] if bad == "y-none" else r.choice([object(), 1.5 if nx > 1 else object()])
            calls += nx
    fault = scn["fault"] if not bad else None
    errs = {}

    def raise_(where):
        e = EXC[fault[2]]("scripted " + where)
        errs["e"] = e
        raise e

    def f(x):
        k = n_eval[0]
        n_eval[0] += 1
        p = plain(x)
        why = member(x, space) if isinstance(x, list) else member(list(x), space)
        if why and not bad:
            raise Violation("not-a-member", "evaluated at %r: %s" % (x, why))
        if fault and fault[0] == "objective" and fault[1] == k:
            events.append(["fail", p])
            raise_("objective")
        if fault and fault[0] == "badreturn" and fault[1] == k:
            events.append(["fail", p])
            errs["bad"] = True
            return ["not a number", None, [1.0, 2.0, 3.0]][fault[3] % 3]
        v = val(x, k)
        events.append(["eval", p, plain(v)])
        return v
    step = [-1]

    def make_cb(j):
        def cb(res):
            if j == 0:
                step[0] += 1
            k = step[0]
            events.append(["cb", j, freeze(res)])
            if "specs" not in res or not res.specs or "args" not in res.specs:
                raise Violation("specs", "the result given to a callback has no call specification")
            if fault and fault[0] == "callback" and fault[1] == k and fault[3] % max(scn["ncb"], 1) == j:
                events.append(["cbfail", j])
                raise_("callback")
            for s, c, v in scn["stops"]:
                if s == k and c % scn["ncb"] == j:
                    return YES[v]
            return NO[scn["nays"]]
        return cb
    cbs = [make_cb(j) for j in range(scn["ncb"])]
    callback = None if not cbs else cbs[0] if scn["cbform"] == "single" and len(cbs) == 1 else cbs
    if bad == "callback":
        callback = r.choice([5, "callback", cbs + [None], [3] + cbs])
    kw = dict(n_calls=calls, random_state=scn["rs"], callback=callback, verbose=bool(scn["verbose"]))
    if x0 is not None:
        kw["x0"] = x0
        if y0 is not None:
            kw["y0"] = y0
    if scn["gen"]:
        kw["initial_point_generator"] = world.make_generator(scn["gen"])
    dims = world.build_space(space)
    if scn["fn"] != "dummy":
        kw["n_random_starts" if scn["nrs"] else "n_initial_points"] = n_init
    est = dict(n_points=40)
    seed = scn["seed"] % 100

    def call():
        if scn["fn"] == "dummy":
            return skopt.dummy_minimize(f, dims, **kw)
        if scn["fn"] == "base":
            return base_minimize(f, dims, spies.SpyRegressor(seed=1), acq_func="LCB", acq_optimizer="sampling", **est, **kw)
        if scn["fn"] == "timed":
            return base_minimize(f, dims, spies.SpyRegressor(seed=1), acq_func="EIps", acq_optimizer="sampling", **est, **kw)
        if scn["fn"] == "forest":
            return skopt.forest_minimize(f, dims, base_estimator=results.small_forest(seed), **est, **kw)
        if scn["fn"] == "gbrt":
            return skopt.gbrt_minimize(f, dims, base_estimator=world.build_estimator("GB3", seed=seed), **est, **kw)
        return skopt.gp_minimize(f, dims, base_estimator=world.build_estimator("GP1", seed=seed), acq_optimizer="sampling",
                                 **est, **kw)
    res = err = None
    try:
        res = call()
    except Violation:
        raise
    except BaseException as e:
        err = e
    ctx.ev("events", [e[:2] if e[0] == "cb" else e for e in events], type(err).__name__, bad)
    ended = judge(ctx, scn, bad, fault, events, res, err, errs, pts, given, with_y, nx, calls, timed)
    ctx.cover.add("%s|%s|%s|%s|%s|%d" % (scn["fn"], scn["x0"], scn["y0"], scn["cbform"] if scn["ncb"] == 1 else scn["ncb"],
                                         ended, min(scn["slack"], 3)))
    ctx.probe("ended-" + ended)
    if ended == "exception":
        ctx.fault("failing_%s:%s" % (fault[0], fault[2]))
    if ended == "refused" or n_eval[0] >= 2:
        ctx.count("nontrivial")


def judge(ctx, scn, bad, fault, events, res, err, errs, pts, given, with_y, nx, calls, timed):
    ncb = scn["ncb"]
    if bad:
        ctx.check(err is not None, "accepted:" + bad, lambda: "accepted %s" % bad)
        ctx.check(isinstance(err, Exception), "accepted:" + bad, lambda: "raised %r" % (err,))
        ctx.check(not events, "evaluated-before-refusal:" + bad, lambda: "refused only after %r" % (events[:3],))
        return "refused"
    # the reference model: a program of expected events
    X, Y, T = [], [], []
    pos = [0]

    def nxt(what):
        ctx.check(pos[0] < len(events), "missing:" + what, lambda: "the run ended (%r) where the model expects: %s; after %d "
                  "evaluations of %d" % (err, what, sum(e[0] == "eval" for e in events), calls))
        e = events[pos[0]]
        pos[0] += 1
        return e

    def record(p, v):
        X.append(p)
        Y.append(v[0] if timed else v)
        if timed:
            T.append(v[1])

    def evaluate(must):
        e = nxt("evaluation")
        ctx.check(e[0] in ("eval", "fail"), "order", lambda: "expected an evaluation, saw %s %r" % (e[0], e[1]))
        if must is not None:
            ctx.check(same(e[1], plain(must)), "starting-point", lambda: "evaluated %r, expected %r" % (e[1], must))
        return e

    def callbacks():
        stop = False
        for j in range(ncb):
            e = nxt("callback")
            ctx.check(e[0] == "cb" and e[1] == j, "order", lambda: "expected callback %d, saw %r" % (j, e[:2]))
            fr = e[2]
            ctx.check(same(fr["x_iters"], X) and same(fr["func_vals"], Y), "callback-result",
                      lambda: "callback was given %r, the record is %r" % (fr, list(zip(X, Y))))
            b = min(range(len(Y)), key=lambda i: (Y[i], i))
            ctx.check(same(fr["x"], X[b]) and same(fr["fun"], Y[b]), "callback-optimum",
                      lambda: "callback was given optimum %r %r" % (fr["x"], fr["fun"]))
            if pos[0] < len(events) and events[pos[0]][0] == "cbfail":
                pos[0] += 1
                return "exception"
            k = step[0]
            stop = stop or any(s == k and c % ncb == j for s, c, _ in scn["stops"])
        step[0] += 1
        return stop
    step = [0]
    ended = "budget"
    n = 0
    if nx:
        for p, y in zip(pts, given):
            if with_y:
                record(plain(p), y)
            else:
                e = evaluate(p)
                n += 1
                if e[0] == "fail":
                    if fault[0] == "badreturn":       # noticed when the starting points are recorded
                        for q in pts[len(X) + 1:]:
                            evaluate(q)
                    ended = "exception"
                    break
                record(e[1], e[2])
        if ended == "budget":
            s = callbacks()
            if s == "exception":
                ended = "exception"
            elif s:
                ended = "stop"
    while ended == "budget" and n < calls:
        e = evaluate(None)
        n += 1
        if e[0] == "fail":
            ended = "exception"
            break
        record(e[1], e[2])
        s = callbacks()
        if s == "exception":
            ended = "exception"
        elif s:
            ended = "stop"
    ctx.check(pos[0] == len(events), "superfluous:" + ended, lambda: "the run should have ended (%s) after %d evaluations; "
              "then came %r" % (ended, n, events[pos[0]][:2]))
    if ended == "exception":
        ctx.check(err is not None, "swallowed", lambda: "the exception did not reach the caller")
        if "e" in errs:
            ctx.check(err is errs["e"], "other-exception", lambda: "raised %r instead of %r" % (err, errs["e"]))
        return ended
    ctx.check(err is None, "raised", lambda: "raised %s: %s" % (type(err).__name__, err))
    if not X:
        return ended
    ctx.check(res is not None, "no-result", "nothing was returned")
    check_result(ctx, res, X, Y, "returned", T if timed else None)
    ctx.check(res.specs and "args" in res.specs, "specs", "the result has no call specification")
    return ended
