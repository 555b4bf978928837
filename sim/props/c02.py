"""C02 What is loaded is what was saved."""
import os
import threading

from sim import results, seam, spies, world
from sim.core import Violation, rng_for
from sim.results import canon, differing, dump_kw, fingerprint, gen_file, make, place

RUNS = dict(quick=1400, thorough=12000)
RULE = ("one case per seeded result (minimiser, space, size) saved and loaded under seeded splits, interruptions and "
        "damages of the transfers, or per run with checkpoints compared after every iteration; distinct event logs "
        "among those that compared at least two loaded results")
COVER = "distinct (result kind, extension, compression, protocol, objective option, file form, mode)"
REAL = ["skopt.dump / skopt.load / CheckpointSaver", "joblib and its compressors, pickle",
        "the C library and kernel file system calls (tmpfs)", "the minimisers and surrogates"]
STUB = ["short and interrupted transfers, read errors (LD_PRELOAD seam)", "truncated files (made by the simulator)",
        "objective"]
SHRINK_LISTS = ["wsplit", "rsplit", "cuts", "rerr"]
LOG = []


class Raw:
    """An objective which can be neither stored nor copied."""

    def __init__(self, seed):
        self.seed = seed
        self.lock = threading.Lock()

    def __call__(self, x):
        return world.value(self.seed, x, 0)


def generate(rng, tier, i):
    space = world.gen_space(rng)
    mode = "checkpoint" if i % 4 == 3 else "file"
    kind = rng.choice(results.KINDS if mode == "file" else ["dummy", "base", "gp", "forest", "gbrt", "timed"])
    if kind == "timed" and mode == "checkpoint" and rng.random() < .5:
        kind = "forest"
    n = rng.choice([1, 2, 3, 5, 8] + ([30] if kind == "dummy" else []))
    f = gen_file(rng)
    raw = rng.random() < 0.3 and kind not in ("timed",)
    return dict(space=space, mode=mode, kind=kind, n=n, seed=rng.randrange(1000), file=f, raw=int(raw),
                again=rng.choice([0, 0, 1]), nofunc=int(rng.random() < 0.15),
                x0=rng.choice([0, 0, 1, 2]) if kind not in ("optimizer", "bare", "timed") else 0, y0=rng.randrange(2),
                wsplit=[[rng.choice([0, 1, 2, 3, rng.randrange(40)]), rng.choice(["short", "short", "EINTR"]),
                         rng.choice([1, 250, 500, 999])] for _ in range(rng.choice([0, 3, 8]))],
                rsplit=[[rng.choice([0, 1, 2, 3, rng.randrange(30)]), rng.choice(["short", "short", "EINTR"]),
                         rng.choice([1, 250, 500, 999])] for _ in range(rng.choice([0, 3, 8]))],
                rerr=[[rng.choice([0, 1, 2, rng.randrange(20)]), rng.choice(["EIO", "EACCES", "EMFILE"])]
                      for _ in range(3)],
                cuts=[rng.choice([0, 1, -1, -2, -9, rng.randrange(1, 100000)]) for _ in range(6)],
                mmap=int(rng.random() < 0.1), ambient=rng.randrange(1, 10 ** 6))


def simplify(scn):
    import copy
    from sim.loop import simplify_space
    yield from simplify_space(scn)
    for k, v in (("ext", ".pkl"), ("compress", None), ("form", "str"), ("store", True), ("protocol", None)):
        if scn["file"][k] != v and not (k == "store" and scn["raw"]):
            s = copy.deepcopy(scn)
            s["file"][k] = v
            yield s
    for k, v in (("kind", "dummy"), ("n", 1), ("raw", 0), ("again", 0), ("nofunc", 0), ("x0", 0), ("mmap", 0)):
        if scn[k] != v:
            s = copy.deepcopy(scn)
            s[k] = v
            yield s


def expected(fp, store):
    """The fingerprint of what should be in the file."""
    if store:
        return fp
    f = dict(fp)
    f["specs_args"] = [a for a in fp["specs_args"] if a != "func"]
    f["args"] = {k: v for k, v in fp["args"].items() if k != "func"}
    return f


def plan(splits):
    return [(k, "err" if w == "EINTR" else "short", seam.ERRNO["EINTR"] if w == "EINTR" else a) for k, w, a in splits]


def run(ctx, scn):
    if not seam.PRESENT:
        raise RuntimeError("shim not loaded")
    spies.reset()
    LOG.clear()
    (run_checkpoint if scn["mode"] == "checkpoint" else run_file)(ctx, scn)


def extra_args(scn):
    r = rng_for("c02", scn["seed"])
    kw = {}
    if scn["x0"]:
        kw["x0"] = [world.random_point(r, scn["space"]) for _ in range(scn["x0"])]
        if scn["y0"]:
            kw["y0"] = [0.5 + k for k in range(scn["x0"])]
    return kw


def size(scn):
    return scn["n"] + (scn["x0"] if not scn["y0"] else 0)


def run_file(ctx, scn):
    from skopt import dump, load
    f = scn["file"]
    kw = dump_kw(f)
    store = f["store"]
    func = Raw(scn["seed"]) if scn["raw"] else None
    ea = extra_args(scn)
    if ea:
        res = make(scn["kind"], size(scn), scn["seed"], scn["space"], func=func, n_init=max(1, min(2, scn["n"])), **ea)
    else:
        res = make(scn["kind"], scn["n"], scn["seed"], scn["space"], func=func)
    if scn["nofunc"] or not getattr(res, "specs", None):
        res.specs = {"args": {"note": ["own", 1]}, "function": "custom"}
        func = None
    own = res.specs["args"].get("func")
    if own is None:
        func = None
    arg, real = place(f, ctx.scratch)
    before = fingerprint(res)
    ids = (list(res.keys()), id(res.specs), id(res.specs["args"]), id(res.models), id(res.space), id(res.x_iters))

    def unchanged(what):
        after = fingerprint(res)
        ctx.check(after == before, "changed-in-memory", lambda: "%s changed %s of the result in memory" % (
            what, differing(after, before)))
        ctx.check(res.specs["args"].get("func") is own, "changed-in-memory", "%s replaced the objective in memory" % what)
        ctx.check(ids == (list(res.keys()), id(res.specs), id(res.specs["args"]), id(res.models), id(res.space),
                          id(res.x_iters)), "changed-in-memory", "%s replaced parts of the result in memory" % what)
    if scn["again"]:
        ctx.sut("dump", dump, make("dummy", 12, 5, [dict(t="real", low=0.0, high=1.0)]), arg)
    if func is not None and store:
        # cannot be stored with its objective: raises, touches nothing
        old = read(real)
        ctx.sut_raises("dump-unstorable", dump, res, arg, exc=BaseException, **kw)
        unchanged("a failing dump")
        ctx.check(read(real) == old, "failed-save-changed-file", "a save that raised changed the file")
        ctx.ev("unstorable")
        store = False
        kw["store_objective"] = False
    disk = seam.Disk(ctx.scratch, "/dev/null")
    disk.start(plan(scn["wsplit"]))
    ctx.sut("dump", dump, res, arg, **kw)
    fired = disk.fired()
    disk.stop()
    for k, n in fired.items():
        ctx.fault("write_" + k, n)
    unchanged("dump")
    want = expected(before, store)
    data = read(real)
    ctx.check(data is not None, "no-file", "dump returned, there is no file")
    n = 0

    def look(what, plan_=(), **lk):
        disk = seam.Disk(ctx.scratch, "/dev/null")
        disk.start(plan_)
        try:
            got = load(arg, **lk)
        except Exception as e:
            got = e
        fired = disk.fired()
        disk.stop()
        for k, n in fired.items():
            ctx.fault("read_" + k, n)
        if isinstance(got, Exception):
            # joblib detects the compression by one read of the first bytes; split there it may refuse
            ctx.check("short" in fired, "load-failed", lambda: "load raised %s: %s" % (type(got).__name__, got))
            ctx.ev("refused", type(got).__name__)
            return None
        fp = fingerprint(got)
        ctx.check(fp == want, "different:" + what, lambda: "loaded result differs in %s" % differing(fp, want))
        ctx.check(("func" in got.specs["args"]) == (store and "func" in before["specs_args"]), "objective",
                  "objective %s in the file" % ("is" if "func" in got.specs["args"] else "is not"))
        if store and "func" in got.specs["args"] and hasattr(own, "seed"):
            x = got.x
            ctx.check(got.specs["args"]["func"](x) == own(x), "objective", "the loaded objective is another one")
        return got
    one = look("load")
    two = look("load-split", plan(scn["rsplit"])) or look("load")
    if scn["mmap"] and not f["compress"] and f["ext"] in (".pkl", ""):
        look("load-mmap", mmap_mode="r")
    # what was loaded once is not tied to the file, to the original or to another load
    if one.models:
        one.models.pop()
    one.x_iters.append("x")
    one.specs["args"].clear()
    ctx.check(fingerprint(two) == want, "tied", "changing one loaded result changed another")
    unchanged("changing a loaded result")
    ctx.check(read(real) == data, "load-changed-file", "loading changed the file")
    # saving what was loaded saves the same again
    f2, kw2 = dict(f), dict(kw)
    arg2 = os.path.join(ctx.scratch, "second.pkl")
    ctx.sut("dump-loaded", dump, two, arg2, store_objective=True)
    again = fingerprint(ctx.sut("load", load, arg2))
    ctx.check(again == want, "different:second-generation", lambda: "differs in %s" % differing(again, want))
    # an open file instead of a name
    if scn["seed"] % 5 == 0:
        arg3 = os.path.join(ctx.scratch, "third")
        with open(arg3, "w+b") as fh:
            fh.write(b"head")
            ctx.sut("dump-open-file", dump, two, fh, store_objective=bool(scn["seed"] % 2))
            ctx.check(not fh.closed, "closed", "saving to an open file closed it")
            fh.seek(4)
            fp = fingerprint(ctx.sut("load-open-file", load, fh))
        ctx.check(fp == expected(want, scn["seed"] % 2), "different:open-file",
                  lambda: "differs in %s" % differing(fp, expected(want, scn["seed"] % 2)))
    # read errors
    for k, e in scn["rerr"]:
        disk = seam.Disk(ctx.scratch, "/dev/null")
        disk.start([(k, "err", seam.ERRNO[e])])
        try:
            got = load(arg)
            out = "loaded"
        except Exception as ex:
            got, out = None, type(ex).__name__
        fired = disk.fired()
        disk.stop()
        if fired:
            ctx.fault("read_error:" + e)
        else:
            ctx.check(got is not None, "load-failed-without-fault", lambda: "load raised %s" % out)
        if got is not None:
            fp = fingerprint(got)
            ctx.check(fp == want, "different:read-error", lambda: "read error %s: another result was loaded, differs in %s"
                      % (e, differing(fp, want)))
        ctx.ev("rerr", k, e, out)
    # truncated files: reported, or (when only a trailer is missing) the very same result
    for c in scn["cuts"]:
        cut = len(data) + c if c < 0 else c % len(data)
        p = os.path.join(ctx.scratch, "cut" + os.path.splitext(real)[1])
        with open(p, "wb") as fh:
            fh.write(data[:max(0, cut)])
        try:
            got = load(p)
            out = "loaded"
        except Exception as ex:
            got, out = None, type(ex).__name__
        if got is not None:
            try:
                fp = fingerprint(got)
            except Exception:
                fp = {}
            ctx.check(fp == want, "different:truncated", lambda: "%d of %d bytes: another result was loaded, differs in %s"
                      % (cut, len(data), differing(fp, want)))
        ctx.fault("truncated_file")
        ctx.ev("cut", cut, out)
    ctx.cover.add("%s|%s|%s|%s|%s|%s|file" % (scn["kind"], f["ext"], f["compress"], f["protocol"], store, f["form"]))
    ctx.ev("file", scn["kind"], canon(before["x"]), len(data) if 0 else sorted(want)[:1], before["func_vals"])
    ctx.count("loaded_results", 3)
    ctx.count("nontrivial")


def read(p):
    if not os.path.exists(p):
        return None
    with open(p, "rb") as f:
        return f.read()


class Watcher:
    """Storable callback that stands behind the saver in the list of callbacks."""

    def __init__(self, path):
        self.path = path

    def __call__(self, res):
        from skopt import load
        LOG.append((fingerprint(res), fingerprint(load(self.path)), res.specs["args"].get("func") is FUNC[0]))


class Before:
    def __call__(self, res):
        LOG.append(("before", fingerprint(res)))


FUNC = [None]


def run_checkpoint(ctx, scn):
    from skopt.callbacks import CheckpointSaver
    f = scn["file"]
    kw = dump_kw(f)
    if scn["raw"]:
        kw["store_objective"] = False
    store = kw.get("store_objective", True)
    arg, real = place(f, ctx.scratch)
    cp = CheckpointSaver(arg, **kw)
    FUNC[0] = Raw(scn["seed"]) if scn["raw"] else results.Timed(scn["seed"]) if scn["kind"] == "timed" \
        else results.Objective(scn["seed"])
    disk = seam.Disk(ctx.scratch, "/dev/null")
    disk.start(plan(scn["wsplit"]))
    ea = extra_args(scn)
    n = size(scn) if ea else scn["n"]
    try:
        res = ctx.sut("run-with-checkpoints", make, scn["kind"], n, scn["seed"], scn["space"], func=FUNC[0],
                      callback=[Before(), cp, Watcher(real)], n_init=max(1, min(2, scn["n"])), **ea)
    finally:
        fired = disk.fired()
        disk.stop()
    for k, m in fired.items():
        ctx.fault("write_" + k, m)
    steps = (1 if ea else 0) + n - (scn["x0"] if ea and "y0" not in ea else 0)
    ctx.check(len(LOG) == 2 * steps, "iterations", lambda: "%d callbacks for %d iterations" % (len(LOG) // 2, steps))
    for k in range(0, len(LOG), 2):
        given = LOG[k][1]
        now, got, same = LOG[k + 1]
        ctx.check(now == given, "changed-in-memory", lambda: "the saver changed %s of the result" % differing(now, given))
        ctx.check(same, "changed-in-memory", "the saver replaced the objective in memory")
        want = expected(given, store)
        ctx.check(got == want, "different:checkpoint", lambda: "iteration %d: the checkpoint differs in %s" % (
            k // 2 + 1, differing(got, want)))
        ctx.ev("checkpoint", k // 2, given["x"], given["fun"])
    # the file is really made with the options given
    with open(real, "rb") as fh:
        head = fh.read(6)
    how = sniff(head)
    c = f["compress"]
    # what joblib itself makes of these options
    import joblib
    probe = os.path.join(ctx.scratch, "probe" + f["ext"])
    kk = {k: v for k, v in kw.items() if k != "store_objective"}
    joblib.dump({"a": 1}, probe, **kk)
    with open(probe, "rb") as fh:
        should = sniff(fh.read(6))
    ctx.check(how == should, "options", lambda: "checkpoint is %s, the options say %s" % (how, should))
    ctx.cover.add("%s|%s|%s|%s|%s|%s|checkpoint" % (scn["kind"], f["ext"], c, f["protocol"], store, f["form"]))
    ctx.count("loaded_results", len(LOG) // 2)
    if steps >= 2:
        ctx.count("nontrivial")


def sniff(head):
    for m, n in ((b"\x1f\x8b", "gzip"), (b"BZh", "bz2"), (b"\xfd7zXZ", "xz"), (b"\x5d\x00\x00", "lzma")):
        if head.startswith(m):
            return n
    if head[:1] == b"\x78":
        return "zlib"
    return "pickle%d" % head[1] if head[:1] == b"\x80" else "pickle"
