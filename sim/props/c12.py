"""C12 The cross-validated search evaluates and records every candidate exactly once."""
import copy as copy_
import pickle
import warnings
from collections import Counter

import numpy as np

from sim import jobsim, spies, world
from sim.core import rng_for
from sim.spies import norm, script_fails, script_score
from sim.world import build_dim, member, plain, same

RUNS = dict(quick=2400, thorough=40000)
LEVEL = "exploration"
RULE = ("one case per seeded search (spaces, budgets, batch sizes, cross-validation, callbacks) whose parallel fits run in a "
        "seeded order with failing fits, killed workers, failing callbacks and surrogates; distinct event logs among those "
        "in which at least two candidates were evaluated")
COVER = "distinct (spaces, budget, batch size, jobs, order of tasks, error score, fault)"
REAL = ["skopt.BayesSearchCV, skopt.Optimizer, utils.point_asdict/eval_callbacks", "scikit-learn's BaseSearchCV, splitters and "
        "_fit_and_score", "joblib.Parallel"]
STUB = ["joblib's pools (seeded order, pickle round trip for processes)", "estimator (scripted scores and failures, logs its fits)",
        "surrogate (recording regressor) in three quarters of the runs", "callbacks"]
SHRINK_LISTS = ["spaces", "rounds"]
TIMEOUT = 120
NAMES = "abcd"
N = 12
DEFAULT = dict(a=0.0, b=0, c="x", d=1.0)


def generate(rng, tier, i):
    spaces = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        dims = world.gen_space(rng)
        names = rng.sample(NAMES, len(dims))
        sp = dict(dims=dims, names=names, raw=int(rng.random() < .2), n=rng.choice([None, None, 1, 2, 3, 4]))
        if rng.random() < .2:
            for k, d in enumerate(dims):
                d["name"] = "own%d" % k
        spaces.append(sp)
    allcat = any(all(d["t"] == "cat" for d in s["dims"]) for s in spaces)
    est = rng.choice(["spy", "spy", "spy", "RF5" if allcat else "GP1", "ET5", None if rng.random() < .3 else "dummy"])
    gen = world.gen_generator(rng, [None, None])
    rounds = []
    for _ in range(rng.choice([1, 1, 2])):
        rounds.append(dict(fault=rng.choice([None] * 5 + ["worker", "interrupt", "callback", "surrogate"]), at=rng.randrange(14),
                           stop=[rng.randrange(1, 4) if rng.random() < .25 else 0 for _ in spaces],
                           stopper=rng.randrange(2)))
    fail = rng.choice([0, 0, 0, 0.15, 0.4])
    return dict(spaces=spaces, form=rng.choice(["dict", "list", "list"]), est=est, gen=gen, n_iter=rng.choice([1, 2, 3, 5, 7]),
                n_points=rng.choice([1, 1, 2, 3, 4, 9]), n_init=rng.choice([1, 2, 3, 5]), jobs=rng.choice([None, 1, 2, 3, -1]),
                policy=rng.choice(["random", "random", "lifo", "straggler", "eager", "fifo"]), cpus=rng.choice([2, 4, 8]),
                backend=rng.choice([None, None, "threading", "loky"]), pre=rng.choice(["2*n_jobs", "all", 1, 3]),
                cv=rng.choice([2, 3, "shuffle", "group", "pairs", "single"]), scorer=rng.choice([None, None, "callable"]),
                refit=rng.randrange(4) > 0, train=int(rng.random() < .3), error=rng.choice(["raise", -1.0, 0.0, 0.5]) if fail else
                rng.choice(["raise", 0.0]), fail=fail, per_fold=rng.randrange(3) > 0, pipe=int(rng.random() < .2),
                weights=int(rng.random() < .2), cbs=rng.choice([0, 1, 1, 2]), rounds=rounds, acq=rng.choice(["EI", "LCB", "gp_hedge"]),
                state=int(rng.random() < .2), seed=rng.randrange(10 ** 6), refresh=rng.choice([None, None, "clone", "pickle"]),
                after=int(rng.random() < .2), ambient=rng.randrange(1, 10 ** 6))


EASY = [("form", "list"), ("est", "spy"), ("gen", None), ("n_points", 1), ("n_init", 1), ("jobs", None), ("policy", "fifo"),
          ("backend", None), ("pre", "all"), ("cv", 2), ("scorer", None), ("train", 0), ("fail", 0), ("pipe", 0), ("weights", 0),
          ("cbs", 1), ("state", 0), ("refresh", None), ("after", 0), ("n_iter", 1), ("n_iter", 2)]


def simplify(scn):
    from sim.loop import simplify_space
    for k, v in EASY:
        if scn[k] != v:
            s = copy_.deepcopy(scn)
            s[k] = v
            yield s
    for n, r in enumerate(scn["rounds"]):
        for k, v in (("fault", None), ("stop", [0] * len(scn["spaces"]))):
            if r[k] != v:
                s = copy_.deepcopy(scn)
                s["rounds"][n][k] = v
                yield s
    for n, sp in enumerate(scn["spaces"]):
        for t in simplify_space(dict(space=sp["dims"])):
            s = copy_.deepcopy(scn)
            s["spaces"][n]["dims"] = t["space"]
            s["spaces"][n]["names"] = sp["names"][:len(t["space"])]
            if len(s["spaces"][n]["dims"]) == len(s["spaces"][n]["names"]):
                yield s


class Boom(Exception):
    pass


MARKS = []


def call_scorer(est, X, y):
    e = est[-1] if hasattr(est, "steps") else est
    return script_score(e.seed + 1, e.key(), int(np.sum(X[:, 0])))


def pairs():
    r = np.arange(N)
    return [(r[:8], r[8:]), (r[4:], r[:4]), (r[::2], r[1::2])]


def splits(scn):
    """Argument cv, and the (train sum, train size, test sum) of every fold."""
    from sklearn.model_selection import GroupKFold, KFold, StratifiedKFold
    X, y, groups = data()
    cv = scn["cv"]
    if cv in (2, 3):
        arg, obj = cv, StratifiedKFold(cv)
    elif cv == "shuffle":
        arg = obj = KFold(3, shuffle=True, random_state=scn["seed"] % 100)
    elif cv == "group":
        arg = obj = GroupKFold(2)
    elif cv == "single":
        arg = [pairs()[2]]
    else:
        arg = pairs()
    got = arg if isinstance(arg, list) else list(obj.split(X, y, groups))
    return arg, [(int(X[tr, 0].sum()), len(tr), int(X[te, 0].sum())) for tr, te in got]


def data():
    return np.arange(2.0 * N).reshape(N, 2) ** 1.5 // 1, np.array([0, 1] * (N // 2)), np.array([0, 0, 1, 2, 2, 2, 3, 3, 1, 4, 4, 0])


def raw_dim(d):
    if d["t"] == "cat":
        return list(d["cats"])
    if d["t"] == "int":
        return (d["low"], d["high"])
    return (float(d["low"]), float(d["high"])) + (("log-uniform",) if d.get("prior") == "log-uniform" else ())


class Plan:
    """What one call of fit should do."""

    def __init__(self, ctx, scn):
        self.ctx, self.scn = ctx, scn
        self.arg, self.folds = splits(scn)
        self.pre = "m__" if scn["pipe"] else ""
        self.spaces = scn["spaces"] if scn["form"] == "list" else scn["spaces"][:1]
        self.budget = [s["n"] if s["n"] and scn["form"] == "list" else scn["n_iter"] for s in self.spaces]
        self.order = [sorted(range(len(s["names"])), key=lambda k: s["names"][k]) for s in self.spaces]
        self.sorted_dims = [[s["dims"][k] if not s["raw"] else self.as_raw(s["dims"][k]) for k in o]
                            for s, o in zip(self.spaces, self.order)]

    @staticmethod
    def as_raw(d):
        """Kinds as a bare tuple or list gives them."""
        return dict(d) if d["t"] == "cat" else dict(t=d["t"], low=d["low"], high=d["high"])

    def search_spaces(self):
        out = []
        for s in self.spaces:
            sp = {}
            for n, d in zip(s["names"], s["dims"]):
                # bare tuples of two integers are Integer, of floats Real
                sp[self.pre + n] = raw_dim(d) if s["raw"] else build_dim(d)
            out.append((sp, s["n"]) if s["n"] and self.scn["form"] == "list" else sp)
        return out[0] if self.scn["form"] == "dict" else out

    def key(self, space, point):
        v = dict(DEFAULT)
        v.update({self.spaces[space]["names"][k]: p for k, p in zip(self.order[space], point)})
        return tuple(v[k] for k in NAMES)

    def fails(self, key, train):
        return bool(self.scn["fail"]) and script_fails(self.scn["seed"] % 100, key, train if self.scn["per_fold"] else None,
                                                        self.scn["fail"])

    def score(self, key, fold, test=True):
        tr, _, te = fold
        if self.fails(key, tr):
            return self.scn["error"]
        return script_score(self.scn["seed"] % 100 + (self.scn["scorer"] is not None), key, te if test else tr)

    def scores(self, key, test=True):
        return [self.score(key, f, test) for f in self.folds]


class Callback:
    """Looks at everything there is to see after a batch."""

    def __init__(self, plan, rnd, first):
        self.p, self.rnd, self.first = plan, rnd, first
        self.calls = 0

    def __call__(self, res):
        self.calls += 1
        if self.first:
            MARKS.append((len(spies.LOG.get("cv", [])), [list(x) for x in res.x_iters], [float(v) for v in res.func_vals], res))
            f = self.rnd
            if f["fault"] == "callback" and len(MARKS) > f["at"] % 5:
                self.p.ctx.fault("callback_raised")
                raise Boom("callback")
        return self.stop() if self.first == (self.rnd["stopper"] == 0) or self.p.scn["cbs"] == 1 else None

    def stop(self):
        space, batch = where(self.p, self.rnd, self.calls)
        s = self.rnd["stop"][space] if space < len(self.rnd["stop"]) else 0
        return bool(s and batch >= s)


def schedule(plan, rnd):
    """The batches of a fit: [(space, size)]."""
    out = []
    for k, n in enumerate(plan.budget):
        b = 0
        while n > 0:
            size = min(n, plan.scn["n_points"])
            out.append((k, size))
            n -= size
            b += 1
            s = rnd["stop"][k] if k < len(rnd["stop"]) and plan.scn["cbs"] else 0
            if s and b >= s:
                break
    return out


def where(plan, rnd, calls):
    """(space, batch within the space) of the batch with this number."""
    sch = schedule(plan, rnd)
    if calls > len(sch):
        return len(plan.budget), 0
    k = sch[calls - 1][0]
    return k, sum(1 for j, _ in sch[:calls] if j == k)


def make(ctx, scn, plan):
    from skopt import BayesSearchCV
    model = spies.ScriptedEstimator(tag="cv", seed=scn["seed"] % 100, fail=scn["fail"] or None, per_fold=bool(scn["per_fold"]))
    if scn["pipe"]:
        from sklearn.pipeline import Pipeline
        model = Pipeline([("m", model)])
    okw = dict(n_initial_points=scn["n_init"], acq_func=scn["acq"], acq_optimizer="sampling",
               acq_optimizer_kwargs=dict(n_points=50, n_restarts_optimizer=2))
    if scn["est"] is not None:
        okw["base_estimator"] = world.build_estimator(scn["est"], "sur", scn["seed"] % 1000)
    if scn["gen"]:
        okw["initial_point_generator"] = world.make_generator(scn["gen"])
    rs = np.random.RandomState(scn["seed"]) if scn["state"] else scn["seed"]
    return ctx.sut("BayesSearchCV", BayesSearchCV, model, plan.search_spaces(), optimizer_kwargs=okw, n_iter=scn["n_iter"],
                   n_points=scn["n_points"], n_jobs=scn["jobs"], pre_dispatch=scn["pre"], cv=plan.arg, refit=scn["refit"],
                   scoring=call_scorer if scn["scorer"] else None, error_score=scn["error"], random_state=rs,
                   return_train_score=bool(scn["train"]))


def run(ctx, scn):
    import contextlib
    import joblib
    plan = Plan(ctx, scn)
    s = make(ctx, scn, plan)
    total = sum(plan.budget)
    ctx.check(s.total_iterations == total, "total", lambda: "%r iterations announced, %d requested" % (s.total_iterations, total))
    if scn["refresh"] == "clone":
        from sklearn.base import clone
        s = ctx.sut("clone", clone, s)
    elif scn["refresh"] == "pickle":
        s = pickle.loads(pickle.dumps(s))
    r = rng_for("c12", scn["seed"])
    for rnd in scn["rounds"]:
        spies.reset()
        MARKS.clear()
        f = rnd["fault"]
        if f == "surrogate" and scn["est"] == "spy":
            spies.FAULTS["sur"] = {"fit": {str(rnd["at"] % 6): "injected"}}
        if f == "interrupt":
            left = [rnd["at"]]

            def hook(est):
                left[0] -= 1
                if left[0] < 0:
                    raise KeyboardInterrupt
            spies.HOOK[0] = hook
        kill = rnd["at"] if f == "worker" else None
        jobsim.install(r, scn["policy"], scn["cpus"], kill)
        cbs = [Callback(plan, rnd, k == 0) for k in range(scn["cbs"])]
        X, y, groups = data()
        kw = dict(groups=groups) if scn["cv"] == "group" else {}
        if scn["weights"] and not scn["pipe"]:
            kw["weight"] = 2.0
        if cbs:
            kw["callback"] = cbs if len(cbs) > 1 or scn["seed"] % 2 else cbs[0]
        error = None
        try:
            with joblib.parallel_config(backend=scn["backend"]) if scn["backend"] else contextlib.nullcontext():
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    s.fit(X, y, **kw)
        except (Boom, spies.InjectedError, jobsim.TerminatedWorkerError, KeyboardInterrupt) as e:
            error = e
        except ValueError as e:
            if "fits failed" not in str(e):
                ctx.sut("search-fit", again, e)
            error = e
        except Exception as e:
            ctx.sut("search-fit", again, e)
        finally:
            spies.HOOK[0] = None
            jobsim.remove()
        ctx.fault("parallel_tasks", jobsim.STATE["tasks"])
        ctx.fault("tasks_out_of_order", jobsim.STATE["swaps"])
        log = [l for l in spies.LOG.get("cv", [])]
        judge(ctx, scn, plan, rnd, s, log, error, cbs)
        o = "+".join(str(v) for v in (len(plan.budget), scn["n_iter"], scn["n_points"], scn["jobs"], scn["policy"], scn["error"], f))
        ctx.cover.add(o)


def again(e):
    raise e


def judge(ctx, scn, plan, rnd, s, log, error, cbs):
    """Everything that was observed during one fit against the plan."""
    sch = schedule(plan, rnd)
    ctx.ev("fit", type(error).__name__, len(log), len(MARKS))
    done = len(MARKS)
    # --- during the run: what each callback saw
    start, per_space, cands = 0, {}, []
    for n, (end, xs, ys, res) in enumerate(MARKS):
        ctx.check(n < len(sch), "too-many-batches", lambda: "batch %d of %d" % (n + 1, len(sch)))
        k, size = sch[n]
        before = per_space.get(k, ([], []))
        ctx.check(len(xs) == len(before[0]) + size, "batch-size", lambda: "space %d: %d points recorded after %d and a batch of %d"
                  % (k, len(xs), len(before[0]), size))
        ctx.check(same(xs[:len(before[0])], before[0]) and ys[:len(before[1])] == before[1], "record-rewritten",
                  "earlier points or values changed")
        new = xs[len(before[0]):]
        for x in new:
            why = member(x, plan.sorted_dims[k])
            ctx.check(why is None, "not-in-space", lambda: "space %d: %s" % (k, why))
        want = Counter((norm(plan.key(k, x)), f[0], f[1]) for x in new for f in plan.folds)
        got = Counter((norm(l[1]), l[2], l[3]) for l in log[start:end])
        ctx.check(want == got, "evaluations", lambda: "batch %d: evaluated %r, should be %r" % (n, sorted(got.items(), key=repr)[:4],
                                                                                              sorted(want.items(), key=repr)[:4]))
        for x, v in zip(new, ys[len(before[1]):]):
            sc = plan.scores(plan.key(k, x))
            ctx.check(abs(-v - np.mean(sc)) <= 1e-12 and not any(t == "raise" for t in sc), "value-told",
                      lambda: "space %d, %r: told %r, scores %r" % (k, x, v, sc))
        best = int(np.argmin(ys))
        ctx.check(res.fun == ys[best] and same(res.x, xs[best]), "optimum", lambda: "x, fun %r %r of %r %r" % (res.x, res.fun, xs, ys))
        per_space[k] = (xs, ys)
        cands += [(k, x, v) for x, v in zip(new, ys[len(before[1]):])]
        start = end
    for c in cbs[1:]:
        ctx.check(abs(c.calls - cbs[0].calls) <= (error is not None), "callback-calls", lambda: "%r calls" % [d.calls for d in cbs])
    want_w = ["weight"] if scn["weights"] and not scn["pipe"] else []
    ctx.check(all(l[4] == want_w for l in log), "fit-parameters", lambda: "fits got %r" % [l[4] for l in log][:5])
    ctx.probe("error" if error is not None else "complete")
    f = rnd["fault"]
    if error is not None:
        # a failure that reached the caller must have a cause
        nxt = log[start:]
        failing = [l for l in nxt if plan.fails(norm_key(l[1]), l[2])]
        if isinstance(error, spies.InjectedError):
            refit = bool(nxt) and nxt[-1][3] == N and bool(failing) and failing[-1] is nxt[-1]     # never scored by a number
            why = (scn["error"] == "raise" and bool(failing)) or refit or spies.COUNT.get("sur", {}).get("fired")
        elif isinstance(error, ValueError):     # scikit-learn: every fit of the batch failed
            c, why = 0, False
            for _, size in sch[done:]:
                batch = nxt[c:c + size * len(plan.folds)]
                c += size * len(plan.folds)
                why = why or (c == len(nxt) and all(plan.fails(norm_key(l[1]), l[2]) for l in batch))
        elif isinstance(error, KeyboardInterrupt):
            why = f == "interrupt"
        elif isinstance(error, Boom):
            why = f == "callback"
        else:
            why = f == "worker"
        ctx.check(bool(why), "failure", lambda: "raised %r with fits %r" % (error, nxt[:6]))
        ctx.fault({"InjectedError": "fit_failed_and_raised", "ValueError": "all_fits_of_a_batch_failed",
                   "KeyboardInterrupt": "interrupted", "Boom": "callback_failed"}.get(type(error).__name__, "worker_killed"))
        return
    if scn["error"] == "raise" and scn["fail"]:
        bad = [l for l in log if plan.fails(norm_key(l[1]), l[2])]
        ctx.check(not bad, "failure-swallowed", lambda: "fits %r failed, nothing was raised" % bad[:3])
    if spies.COUNT.get("sur", {}).get("fired"):
        ctx.check(False, "failure-swallowed", "the surrogate failed and nothing was raised")
    # --- afterwards: the table
    cv = s.cv_results_
    params = cv["params"]
    ctx.check(len(params) == sum(n for _, n in sch), "rows", lambda: "%d rows, batches %r" % (len(params), sch))
    rows = []
    for p, k in zip(params, [k for k, n in sch for _ in range(n)]):
        names = sorted(plan.pre + n for n in plan.spaces[k]["names"])
        ctx.check(sorted(p) == names, "row-names", lambda: "row %r in space %d" % (p, k))
        x = [p[n] for n in names]
        why = member(x, plan.sorted_dims[k])
        ctx.check(why is None, "not-in-space", lambda: "row of space %d: %s" % (k, why))
        rows.append((k, x))
    if cbs:
        ctx.check(done == len(sch), "callback-calls", lambda: "%d callback calls for %d batches" % (done, len(sch)))
        ctx.check(same([list(r) for r in rows], [[k, x] for k, x, _ in cands]), "row-order",
                  lambda: "rows %r, suggested %r" % (rows, cands))
    end = [l for l in log if l[3] == N]
    fits = [l for l in log if l[3] != N]
    want = Counter((norm(plan.key(k, x)), f[0], f[1]) for k, x in rows for f in plan.folds)
    got = Counter((norm(l[1]), l[2], l[3]) for l in fits)
    ctx.check(want == got, "evaluations", lambda: "evaluated %r, rows give %r" % (sorted((got - want).items(), key=repr)[:4],
                                                                                sorted((want - got).items(), key=repr)[:4]))
    table = [plan.scores(plan.key(k, x)) for k, x in rows]
    for j in range(len(plan.folds)):
        col = plain(cv["split%d_test_score" % j])
        ctx.check(col == [t[j] for t in table], "scores", lambda: "fold %d: %r, should be %r" % (j, col, [t[j] for t in table]))
    mean = [float(np.mean(t)) for t in table]
    got = plain(cv["mean_test_score"])
    ctx.check(np.allclose(got, mean, rtol=0, atol=1e-12), "mean-scores", lambda: "%r, should be %r" % (got, mean))
    if scn["train"]:
        for j, fo in enumerate(plan.folds):
            col = plain(cv["split%d_train_score" % j])
            w = [plan.score(plan.key(k, x), fo, False) for k, x in rows]
            ctx.check(col == w, "train-scores", lambda: "fold %d: %r, should be %r" % (j, col, w))
        m = cv["mean_train_score"]
        rank = [1 + sum(1 for v in m if v > u) for u in m]
        ctx.check(plain(cv["rank_train_score"]) == rank, "train-rank", lambda: "%r for %r" % (cv["rank_train_score"], m))
    best = max(got)
    rank = [1 + sum(1 for v in got if v > u + 1e-9) for u in got]
    if all(abs(u - v) > 1e-9 or u == v for u in got for v in got):
        ctx.check(plain(cv["rank_test_score"]) == rank, "rank", lambda: "%r for %r" % (cv["rank_test_score"], got))
    for n in sorted({plan.pre + n for sp in plan.spaces for n in sp["names"]}):
        col = cv["param_" + n]
        for i, p in enumerate(params):
            ok = (np.ma.getmaskarray(col)[i] if n not in p else not np.ma.getmaskarray(col)[i] and same_loose(col[i], p[n]))
            ctx.check(bool(ok), "column", lambda: "column %s row %d: %r for %r" % (n, i, col[i], p))
    # --- best
    b = s.best_index_
    ctx.check(got[b] >= best - 1e-9, "best", lambda: "best index %r of %r" % (b, got))
    if scn["refit"] or hasattr(s, "best_params_"):
        ctx.check(same_dict(s.best_params_, params[b]) and s.best_score_ == got[b], "best", lambda: "%r %r" % (s.best_params_, s.best_score_))
    if scn["refit"]:
        ctx.check(len(end) == 1 and norm(end[0][1]) == norm(plan.key(*rows[b])), "refit", lambda: "refitted on %r, best %r" % (end, rows[b]))
    else:
        ctx.check(not end, "refit", "refitted although not asked to")
    # --- the optimizers
    done = [k for k in range(len(plan.budget))]
    res = s.optimizer_results_
    ctx.check(len(res) == len(done), "results", lambda: "%d results for %d spaces" % (len(res), len(done)))
    for k in done:
        xs = [x for j, x in rows if j == k]
        ys = [-v for (j, _), v in zip(rows, got) if j == k]
        ctx.check(same(plain(res[k].x_iters), plain(xs)) and plain(res[k].func_vals) == ys, "optimizer-record",
                  lambda: "space %d: recorded %r %r, table %r %r" % (k, res[k].x_iters, res[k].func_vals, xs, ys))
        i = int(np.argmin(ys))
        ctx.check(res[k].fun == ys[i] and same(plain(res[k].x), plain(xs[i])), "optimum", lambda: "space %d: %r %r" % (k, res[k].x, res[k].fun))
        opt = s.optimizers_[k]
        ctx.check(same(plain(opt.Xi), plain(xs)) and plain(list(opt.yi)) == ys, "optimizer-record", lambda: "optimizer %d: %r %r"
                  % (k, opt.Xi, opt.yi))
        names = [d.name for d in opt.space.dimensions]
        sp = plan.spaces[k]
        w = [sp["dims"][j].get("name") if not sp["raw"] and sp["dims"][j].get("name") else plan.pre + sp["names"][j]
             for j in plan.order[k]]
        ctx.check(names == w, "names", lambda: "space %d: names %r, should be %r" % (k, names, w))
    if scn["est"] == "spy":
        told, n, seen = 0, 0, []
        by_space = {}
        for k, size in sch:
            by_space.setdefault(k, []).append(size)
        # the surrogates' training sets: every delivery past the initial phase, all of it
        for k in done:
            ys = [-v for (j, _), v in zip(rows, got) if j == k]
            c = 0
            for size in by_space[k]:
                c += size
                if c >= scn["n_init"]:
                    seen.append(ys[:c])
        fits = [plain(l[3]) for l in spies.LOG.get("sur", []) if l[0] == "fit"]
        it = iter(fits)
        for w in seen:
            ctx.check(any(len(f) == len(w) and f == w for f in it), "surrogate", lambda: "no surrogate was trained on %r" % (w,))
    if scn["after"] and not cbs:        # a fitted search keeps its callbacks
        t = pickle.loads(pickle.dumps(s))
        ctx.check(repr(t.cv_results_["params"]) == repr(params) and t.best_index_ == b, "pickled", "the pickled search differs")
    if len(rows) > 1:
        ctx.count("nontrivial")
    ctx.ev("rows", [[k, plain(x)] for k, x in rows], got)


def norm_key(k):
    return tuple(k)


def same_loose(a, b):
    a, b = norm(a), norm(b)
    return a == b or (a is None and b is None)


def same_dict(a, b):
    return set(a) == set(b) and all(same_loose(a[k], b[k]) for k in a)
