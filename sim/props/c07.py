"""C07 A malformed delivery or request is refused and leaves no trace: compared with a twin that never saw them."""
import copy

import numpy as np

from sim import oracle, spies, world
from sim.core import rng_for
from sim.loop import Driver, simplify_space
from sim.world import freeze, plain, random_point, same

RUNS = dict(quick=1500, thorough=24000)
RULE = ("one case per seeded pair of histories, one with malformed deliveries and requests injected and its twin "
        "without: distinct event logs among those with at least 2 refusals before the last accepted delivery")
COVER = "distinct (kind of malformed input, kind of dimension hit or batch shape, phase, acquisition)"
REAL = ["skopt.Optimizer input validation", "Space and Dimension membership", "all of ask and tell"]
STUB = ["the surrogate (recording regressor)", "workers and delivery channel", "objective"]
ASSUMPTIONS = ["not generated, because membership of them is a matter of taste: a fractional number for an integer "
               "dimension, True for a numeric one, NaN as an objective value, an empty batch"]

KINDS = ["above", "below", "wrongtype", "none", "nan", "short", "long", "badcat", "ystr", "ynone", "ylist", "ydict",
         "len-more-x", "len-more-y", "scalar-for-batch", "batch-bad-x", "batch-bad-y", "batch-short", "no-time",
         "three", "batch-no-time", "bad-time", "batch-bad-time", "batch-bad-time", "ystr-time", "batch-mixed-time", "n0", "nneg", "nfloat", "nstr",
         "strategy", "notlist", "list-for-point"]


def generate(rng, tier, i):
    space = world.gen_space(rng)
    ps = i % 4 == 2
    ests = ["spy"] * 4 + (["dummy"] if not ps else []) + (["RF5"] if i % 20 == 3 else [])
    o = world.gen_opt(rng, space, ests, ["EIps", "PIps"] if ps else None)
    o["n_points"] = 60
    if ps and o["est"] != "spy":
        o["acqopt"] = "sampling"
    ops, t = world.gen_schedule(rng, rng.choice([6, 10]) if i % 97 else 40, p=dict(askn=0.3))
    bad = [["bad", rng.randint(0, len(ops)), rng.choice(KINDS), rng.randrange(10 ** 6), int(rng.random() < 0.8)]
           for _ in range(rng.randint(2, 8))]
    return dict(space=space, opt=o, ops=ops, bad=bad, simtime=t, seed=rng.randrange(10 ** 6),
                values=rng.choice(["unique", "ties"]), ambient=rng.randrange(1, 10 ** 6))


SHRINK_LISTS = ["ops", "bad"]
simplify = simplify_space


def good_y(ps, k=1):
    return [0.5 + k, 2.0] if ps else 0.5 + k


def spoil(kind, r, space, ps):
    """-> (description, method, args) or None when the kind does not apply here."""
    pt = lambda: random_point(r, space)
    x = pt()
    y = good_y(ps)
    num = [i for i, d in enumerate(space) if d["t"] != "cat"]
    cat = [i for i, d in enumerate(space) if d["t"] == "cat"]

    def bad_x(kind=None):
        z = pt()
        kind = kind or r.choice(["above", "below", "wrongtype", "badcat"])
        if kind == "badcat" or not num:
            if not cat:
                kind = "above"
            else:
                z[r.choice(cat)] = r.choice(["no-such-category", 98765, -1.25])
                return z
        j = r.choice(num)
        d = space[j]
        span = d["high"] - d["low"]
        z[j] = {"above": d["high"] + r.choice([1, span, 1e9]) if d["t"] == "int" else
                d["high"] + r.choice([max(abs(d["high"]), 1) * 1e-6, span, 1e300, float("inf")]),
                "below": d["low"] - r.choice([1, span]) if d["t"] == "int" else
                d["low"] - r.choice([max(abs(d["low"]), 1) * 1e-6, span, float("inf")]),
                "wrongtype": "0.5", "none": None, "nan": float("nan")}[kind]
        return z
    if kind in ("above", "below", "wrongtype", "none", "nan"):
        return ("tell", [bad_x(kind), y]) if num else None
    if kind == "badcat":
        return ("tell", [bad_x(kind), y]) if cat else None
    if kind == "short":
        return ("tell", [x[:-1], y]) if len(x) > 1 else None
    if kind == "long":
        return "tell", [x + [x[0]], y]
    if kind in ("ystr", "ynone", "ylist", "ydict"):
        if ps and kind == "ylist":
            return None
        return "tell", [x, {"ystr": "1.5", "ynone": None, "ylist": [1.5], "ydict": {"loss": 1.5}}[kind]]
    n = r.randint(2, 4)
    xs, ys = [pt() for _ in range(n)], [good_y(ps, k) for k in range(n)]
    if kind == "len-more-x":
        return "tell", [xs, ys[:-1]]
    if kind == "len-more-y":
        return "tell", [xs, ys + [good_y(ps, 9)]]
    if kind == "scalar-for-batch":
        return "tell", [xs, y]
    k = r.randrange(n)
    if kind == "batch-bad-x":
        xs[k] = bad_x()
        return "tell", [xs, ys]
    if kind == "batch-bad-y":
        ys[k] = r.choice(["bad", None, [1.5], {}]) if not ps else r.choice([["bad", 1.0], [None, 1.0]])
        return "tell", [xs, ys]
    if kind == "batch-short":
        if len(x) == 1:
            xs[k] = xs[k] + xs[k]
        else:
            xs[k] = xs[k][:-1]
        return "tell", [xs, ys]
    if kind == "no-time":
        return ("tell", [x, 1.5]) if ps else None
    if kind == "three":
        return ("tell", [x, [1.5, 2.0, 3.0]]) if ps else None
    if kind == "batch-no-time":
        return ("tell", [xs, [v[0] for v in ys]]) if ps else None
    if kind == "batch-mixed-time":
        if not ps:
            return None
        ys[k] = ys[k][0]
        return "tell", [xs, ys]
    if kind == "bad-time":
        return ("tell", [x, [1.5, r.choice([-1.0, 0.0, "2.0", None])]]) if ps else None
    if kind == "batch-bad-time":
        if not ps:
            return None
        ys[k] = [ys[k][0], r.choice([-1.0, 0.0, 0, "2.0", None])]
        return "tell", [xs, ys]
    if kind == "ystr-time":
        return ("tell", [x, ["1.5", 2.0]]) if ps else None
    if kind == "n0":
        return "ask", [0]
    if kind == "nneg":
        return "ask", [-r.randint(1, 4)]
    if kind == "nfloat":
        return "ask", [r.choice([2.0, 1.5, float("nan")])]
    if kind == "nstr":
        return "ask", [r.choice(["2", [2], (1,)])]
    if kind == "strategy":
        return "ask", [r.randint(1, 3), r.choice(["cl_median", "CL_MIN", "", None, "max"])]
    if kind == "notlist":
        return "tell", [r.choice([3.5, "abc", None]), y]
    if kind == "list-for-point":
        return "tell", [xs, good_y(ps)] if not ps else [xs, [1.0] * n]


class D(Driver):
    def after_tell(self, items, fit, res):
        self.trace.append(("tell", freeze(res)))
        self.check_record(res, "tell")

    def on_ask(self, x):
        self.trace.append(("ask", plain(x)))

    def on_askn(self, pts, n, strat):
        self.trace.append(("askn", plain(pts)))

    def on_update(self):
        self.trace.append(("update",))


def state(o):
    return dict(X=plain(o.Xi), y=plain(o.yi), models=[id(m) for m in o.models], left=getattr(o, "_n_initial_points", 0),
                gains=plain(getattr(o, "gains_", None)))


def play(ctx, scn, tag, bad):
    d = D(ctx, scn, tag=tag)
    d.trace = []
    at = {}
    for b in bad:
        at.setdefault(min(b[1], len(scn["ops"])), []).append(b)
    refused = last = 0
    for i in range(len(scn["ops"]) + 1):
        for b in at.get(i, ()):
            r = rng_for("bad", b[3], b[2])
            s = spoil(b[2], r, scn["space"], d.ps)
            if s is None:
                continue
            what, args = s
            before = state(d.opt)
            nfit = len(oracle.fits(tag))
            kw = {} if what == "ask" or b[4] else dict(fit=False)
            given = copy.deepcopy(args)
            e = ctx.sut_raises(b[2], getattr(d.opt, what), *args, **kw)
            ctx.ev("refused", b[2], repr(given), type(e).__name__)
            ctx.fault("malformed:" + b[2])
            ctx.check(same(list(state(d.opt).values()), list(before.values())), "trace-left:" + b[2],
                      lambda: "%s%r was refused with %r, but changed %r to %r" % (what, given, e, before, state(d.opt)))
            ctx.check(len(oracle.fits(tag)) == nfit, "trained-by-refused:" + b[2], "a refused %s trained" % b[2])
            refused += 1
            last = i
            ctx.cover.add("%s|%s|%s|%s" % (b[2], "".join(sorted({q["t"][0] for q in scn["space"]})),
                                           "fitted" if d.fitted else "init", scn["opt"]["acq"]))
        if i < len(scn["ops"]):
            d.step(scn["ops"][i])
    d.refused, d.last_refused = refused, last
    return d


def run(ctx, scn):
    spies.reset()
    a = play(ctx, scn, "A", scn["bad"])
    b = play(ctx, scn, "B", [])
    for n, (p, q) in enumerate(zip(a.trace, b.trace)):
        ctx.check(p[0] == q[0] and same(_l(p[1:]), _l(q[1:])), "differs-from-twin",
                  lambda: "event %d: %r, without the refusals %r" % (n, p, q))
    ctx.check(len(a.trace) == len(b.trace), "differs-from-twin", "different numbers of events")
    fa, fb = oracle.fits("A"), oracle.fits("B")
    ctx.check(len(fa) == len(fb) and all(np.array_equal(p[2], q[2]) and np.array_equal(p[3], q[3])
                                         for p, q in zip(fa, fb)), "training-differs-from-twin",
              "surrogates were trained on something else")
    world.flags_from(ctx, scn["ops"])
    ctx.simtime = scn["simtime"]
    if a.refused >= 2 and any(t[0] == "tell" for t in a.trace):
        ctx.count("nontrivial")


def _l(v):
    if isinstance(v, dict):
        return [_l(v[k]) for k in sorted(v)]
    if isinstance(v, (list, tuple)):
        return [_l(w) for w in v]
    return v
