"""C01 A crash or I/O error during a save never destroys the last saved result."""
import hashlib
import os
import shutil

from sim import results, seam, spies, world
from sim.core import Violation, fork_call, rng_for
from sim.results import differing, dump_kw, fingerprint, gen_file, make, place

RUNS = dict(quick=400, thorough=3000)
LEVEL = "fault_enumeration"
RULE = ("one evaluation = one scenario (result kind, file options, earlier saves) in which a "
        "seeded sample of (kind of fault, numbered file system operation of the last save) is injected one by one, "
        "each in a forked victim process; "
        "distinct event logs among scenarios with at least 10 injected faults")
COVER = "distinct (kind of fault, kind of operation hit, file extension, compression, driver, earlier save present)"
REAL = ["skopt.dump / skopt.load / CheckpointSaver", "joblib and its compressors, pickle", "the C library and kernel "
        "file system calls (tmpfs)", "the minimisers in checkpoint runs"]
STUB = ["failing system calls (LD_PRELOAD seam)", "process death (exit at a numbered system call)",
        "power loss (disk image from the operation log: ordered metadata, file data durable only by fsync)"]
ASSUMPTIONS = ["file system with ordered metadata and atomic rename", "only fsync makes data durable",
               "a crash takes effect at a file system call (between calls nothing on disk changes)"]
TIMEOUT = 400
SHRINK_LISTS = ["faults", "power", "saves"]
ERRS = ["ENOSPC", "EIO", "EDQUOT", "EACCES", "EMFILE", "EROFS", "EFBIG"]
SPACE = [dict(t="real", low=0.0, high=1.0), dict(t="cat", cats=["a", "b", "c"]), dict(t="int", low=1, high=9)]


def generate(rng, tier, i):
    via = rng.choice(["dump", "dump", "dump", "checkpoint"])
    f = gen_file(rng)
    nprev = rng.choice([0, 1, 1, 2])
    saves = [[rng.choice(results.KINDS), rng.choice([1, 2, 3, 4, 6, 40 if rng.random() < .3 else 5]),
              rng.randrange(1000)] for _ in range(nprev + 1)]
    if via == "checkpoint":
        saves = [[rng.choice(["dummy", "dummy", "base", "forest", "gp"]), rng.choice([2, 3, 4]), rng.randrange(1000)]]
        if rng.random() < 0.6:
            # the file of an earlier run, which this one may continue
            saves.append([rng.choice(results.KINDS), rng.choice([1, 2, 3, 7]), rng.randrange(1000)])
    faults = []
    for k in list(range(26)) + list(range(-6, 0)):
        faults.append(["crash_before", k, 0])
        faults.append(["crash_partial", k, rng.choice([0, 1, 250, 500, 999])])
        faults.append(["crash_after", k, 0])
        faults.append(["err", k, rng.choice(ERRS)])
        faults.append(["err", k, "EINTR"])
        if k % 3 == 0:
            faults.append(["sticky", k, rng.choice(["ENOSPC", "EIO", "EDQUOT"])])
            faults.append(["short", k, rng.choice([1, 300, 900])])
    if via == "checkpoint":
        extra = []
        for _ in range(40):
            extra.append([rng.choice(["crash_before", "crash_partial", "crash_after"]), rng.randrange(26, 120),
                          rng.choice([0, 500])])
        faults += extra
    keep = (24 if via == "checkpoint" else 44) * (3 if tier == "thorough" else 1)
    if len(faults) > keep:
        faults = [faults[j] for j in sorted(rng.sample(range(len(faults)), keep))]
    bombs = [[rng.choice(["first", "last"]), e] for e in ("pickle", "memory", "interrupt", "runtime")]
    power = [[rng.randrange(10 ** 6), k] for k in range(12)]
    return dict(via=via, file=f, saves=saves, faults=faults, bombs=bombs, power=power, big=int(rng.random() < 0.15),
                saver=rng.choice(["dump", "dump", "callback", "callbacks"]), go_on=int(rng.random() < 0.4),
                ambient=rng.randrange(1, 10 ** 6))


def simplify(scn):
    import copy
    for k, v in (("ext", ".pkl"), ("compress", None), ("form", "str"), ("store", True), ("protocol", None)):
        if scn["file"][k] != v:
            s = copy.deepcopy(scn)
            s["file"][k] = v
            yield s
    for k in ("bombs", "power", "faults"):
        if scn[k]:
            s = copy.deepcopy(scn)
            s[k] = []
            yield s
    for i, sv in enumerate(scn["saves"]):
        for v in (["dummy", 1 + i, i],):
            if sv != v:
                s = copy.deepcopy(scn)
                s["saves"][i] = v
                yield s
    for k, v in (("saver", "dump"), ("go_on", 0)):
        if scn.get(k, v) != v:
            s = copy.deepcopy(scn)
            s[k] = v
            yield s
    if scn.get("big"):
        s = copy.deepcopy(scn)
        s["big"] = 0
        yield s


class Bomb:
    """Fails while it is serialised."""

    def __init__(self, e):
        self.e = e

    def __reduce_ex__(self, p):
        raise {"pickle": __import__("pickle").PicklingError, "memory": MemoryError, "interrupt": KeyboardInterrupt,
               "runtime": RuntimeError}[self.e]("bomb")

    def __deepcopy__(self, memo):
        return self


def run(ctx, scn):
    if not seam.PRESENT:
        raise RuntimeError("shim not loaded")
    spies.reset()
    if not scn["saves"]:
        return
    if scn["via"] == "checkpoint":
        return run_checkpoint(ctx, scn)
    run_dump(ctx, scn)


class Site:
    """One directory with a result file and a bystander, prepared to the state before the last save."""

    def __init__(self, ctx, scn, n):
        self.d = os.path.join(ctx.scratch, "site%d" % n)
        os.mkdir(self.d)
        with open(os.path.join(self.d, "bystander"), "wb") as f:
            f.write(b"do not touch")
        self.arg, self.real = place(scn["file"], self.d)

    def bystander_ok(self):
        try:
            with open(os.path.join(self.d, "bystander"), "rb") as f:
                return f.read() == b"do not touch"
        except OSError:
            return False

    def remove(self):
        os.chdir("/")
        shutil.rmtree(self.d)


MEMO = {}


def content(path):
    """Bytes of the file, or None."""
    if not os.path.exists(path):
        return None
    with open(path, "rb") as f:
        return f.read()


def loaded(path, data="read"):
    """Fingerprint of what is there: None absent, ('bad', why) unreadable.

    Files with equal bytes load equally, hence the memory.
    """
    from skopt import load
    if isinstance(data, str):
        data = content(path)
    if data is None:
        return None
    key = hashlib.sha256(data).digest()
    if key not in MEMO:
        if content(path) != data:
            with open(path, "wb") as f:
                f.write(data)
        try:
            MEMO[key] = fingerprint(load(path))
        except BaseException as e:
            MEMO[key] = ("bad", "%s: %s" % (type(e).__name__, str(e)[:200]))
    return MEMO[key]


def judge(ctx, got, allowed, absent_ok, what):
    if got is None:
        ctx.check(absent_ok, "lost:" + what[0], lambda: "%s: the earlier result is gone" % (what,))
        return "absent"
    ctx.check(not isinstance(got, tuple), "unreadable:" + what[0], lambda: "%s: the file does not load: %s" % (
        what, got[1]))
    for n, f in enumerate(allowed):
        if f == got:
            return "%d of %d" % (n, len(allowed))
    raise Violation("wrong-result:" + what[0], "%s: what is loaded is none of the saved results; it differs from the "
                    "latest in %s" % (what, differing(got, allowed[-1])))


def saver(kind):
    """The ways to save: the function, a checkpoint callback per save, one callback for all saves to one path."""
    from skopt import dump
    from skopt.callbacks import CheckpointSaver
    if kind == "dump":
        return dump
    made = {}

    def save(res, path, **kw):
        if kind == "callback" or str(path) not in made:
            made[str(path)] = CheckpointSaver(path, **kw)
        made[str(path)](res)
    return save


def run_dump(ctx, scn):
    dump = saver(scn.get("saver", "dump"))
    kw = dump_kw(scn["file"])
    res = []
    for n, (kind, size, seed) in enumerate(scn["saves"]):
        r = make(kind, size, seed + n, SPACE)
        if scn.get("big") and n == len(scn["saves"]) - 1:
            import numpy as np
            r["history"] = np.random.RandomState(3).rand(40000)
        res.append(r)
    after = make("dummy", 2, 4711, SPACE)        # saved when the fault is gone
    site = [0]

    def fp_saved(r):
        """Reference fingerprint: what saving and loading without faults gives (C02 judges that it is right)."""
        s = Site(ctx, scn, site[0])
        site[0] += 1
        dump(r, s.arg, **kw)
        f = loaded(str(s.real))
        s.remove()
        return f
    fps = [ctx.sut("save-without-fault", fp_saved, r) for r in res]
    fp_after = fp_saved(after)
    for f in fps:
        ctx.check(not isinstance(f, tuple) and f is not None, "unreadable:no-fault", lambda: "a save without fault "
                  "does not load: %r" % (f,))
    absent_ok = len(res) == 1
    # the state before the last save, as bytes
    s = Site(ctx, scn, site[0])
    site[0] += 1
    for r in res[:-1]:
        dump(r, s.arg, **kw)
    before = {}
    for base, _, names in os.walk(s.d):
        for nm in names:
            p = os.path.join(base, nm)
            if not os.path.islink(p):
                with open(p, "rb") as fh:
                    before[os.path.relpath(p, s.d)] = fh.read()
    # dry run: numbered operations of the last save
    logp = os.path.join(ctx.scratch, "oplog")

    def dry(emit):
        disk = seam.Disk(s.d, logp)
        disk.start()
        dump(res[-1], s.arg, **kw)
        n = disk.count()
        disk.stop()
        emit(n)
    rc, out = fork_call(dry)
    if rc != 0 or not out:
        raise RuntimeError("dry run failed: %r %r" % (rc, out))
    nops = out[-1]
    log = seam.read_log(logp)
    root = os.path.join(os.path.realpath(s.d), "")
    ctx.check(loaded(s.real) == fps[-1], "wrong-result:no-fault", "a save without fault does not load as saved")
    ops = "".join(r["op"] for r in log)
    ctx.ev("ops", ops if len(ops) < 80 else (ops[:40], len(ops), ops[-30:]))
    s.remove()
    injected = 0

    def fresh():
        t = Site(ctx, scn, site[0])
        site[0] += 1
        for rel, b in before.items():
            if rel != "bystander":
                os.makedirs(os.path.dirname(os.path.join(t.d, rel)), exist_ok=True)
                with open(os.path.join(t.d, rel), "wb") as fh:
                    fh.write(b)
        return t
    allowed = fps[-2:]
    for kind, k, arg in scn["faults"]:
        idx = k if k >= 0 else nops + k
        if idx < 0 or idx >= nops or (k < 0 and idx < 26):
            continue
        op = log[idx]["op"] if idx < len(log) else "?"
        if kind == "crash_partial" and op != "W" or kind == "short" and op not in "WR":
            continue
        t = fresh()
        a = seam.ERRNO.get(arg, arg)

        def victim(emit):
            disk = seam.Disk(t.d, logp)
            disk.start([(idx, kind, a)])
            try:
                dump(res[-1], t.arg, **kw)
                ok = None
            except Exception as e:
                ok = "%s: %s" % (type(e).__name__, e)
            fired = disk.fired()
            disk.pause()
            emit(("returned", ok, fired))
            if kind in ("err", "sticky", "short"):
                emit(("now", content(t.real)))
                disk.plan([])
                try:
                    dump(after, t.arg, **kw)
                    emit(("again", None, content(t.real)))
                except Exception as e:
                    emit(("again", "%s: %s" % (type(e).__name__, e), None))
            disk.stop()
        rc, out = fork_call(victim)
        what = ("%s at operation %d of %d (%s)" % (kind, idx, nops, op), arg)
        tag = kind
        got = None
        if kind.startswith("crash"):
            if rc != seam.CRASH_RC:
                # the operation was not reached this time
                ctx.count("not_reached")
            got = loaded(t.real)
            st = judge(ctx, got, allowed, absent_ok, (tag,) + what)
            # recovery: another process saves again
            if idx % 5 == 0:
                ctx.sut("save-after-crash", dump, after, t.arg, **kw)
                judge(ctx, loaded(t.real), [fp_after], False, ("after-" + tag,) + what)
        else:
            if rc != 0:
                raise RuntimeError("victim died: %r %r" % (rc, out))
            d = {m[0]: m for m in out}
            _, err, fired = d["returned"]
            now = loaded(t.real, d["now"][1])
            if err is None:
                # it returned as if it had succeeded
                st = judge(ctx, now, [fps[-1]], False, ("silent-" + tag,) + what)
            else:
                st = "raised " + judge(ctx, now, allowed, absent_ok, (tag,) + what)
                ctx.check(fired, "save-failed-without-fault", lambda: "%s: %s" % (what, err))
                ctx.check(not (kind == "short" or arg == "EINTR" and op in "OWRC" and False),
                          "save-failed:" + tag, lambda: "%s: %s" % (what, err))
            _, err2, f2 = d["again"]
            f2 = loaded(t.real, f2)
            ctx.check(err2 is None, "no-recovery:" + tag, lambda: "%s: the next save raised %s" % (what, err2))
            judge(ctx, f2, [fp_after], False, ("after-" + tag,) + what)
        ctx.check(t.bystander_ok(), "bystander:" + tag, lambda: "%s: another file was changed" % (what,))
        ctx.ev(kind, k, arg, op, st)
        ctx.fault(kind if kind not in ("err", "sticky") else "%s:%s" % (kind, arg))
        ctx.cover.add("%s|%s|%s|%s|dump|%d" % (kind, op, scn["file"]["ext"], scn["file"]["compress"], not absent_ok))
        injected += 1
        t.remove()
    # exceptions while serialising
    for where, e in scn["bombs"]:
        t = fresh()
        r = type(res[-1])(res[-1])
        if where == "first":
            q = type(r)()
            q["bomb"] = Bomb(e)
            q.update(r)
            r = q
        else:
            r["zzz"] = Bomb(e)
        try:
            dump(r, t.arg, **kw)
            raise Violation("silent-serialising", "a result that cannot be serialised was saved without exception")
        except Violation:
            raise
        except BaseException as ex:
            ctx.ev("bomb", where, e, type(ex).__name__)
        judge(ctx, loaded(t.real), [fps[-2]] if len(fps) > 1 else [], absent_ok, ("serialising", where, e))
        ctx.sut("save-after-exception", dump, after, t.arg, **kw)
        judge(ctx, loaded(t.real), [fp_after], False, ("after-serialising", where, e))
        ctx.check(t.bystander_ok(), "bystander:serialising", "another file was changed")
        ctx.fault("serialisation_exception:" + e)
        injected += 1
        t.remove()
    # power loss
    if scn["file"]["form"] not in ("symlink",) and scn["power"]:
        for seed, k in scn["power"]:
            r = rng_for("power", seed)
            upto = min(len(log), k) if k < 6 else r.randint(0, len(log))
            if k >= 10:
                upto = len(log)
            model = seam.DiskModel(before)
            img = model.images(log, root, upto, lambda n, w: r.randrange(n))
            t = Site(ctx, scn, site[0])
            site[0] += 1
            for rel, b in img.items():
                os.makedirs(os.path.dirname(os.path.join(t.d, rel)), exist_ok=True)
                with open(os.path.join(t.d, rel), "wb") as fh:
                    fh.write(b)
            st = judge(ctx, loaded(t.real), fps, absent_ok, ("power-loss", "after operation %d of %d" % (upto, len(log)),
                                                            "seed %d" % seed))
            ctx.check(t.bystander_ok(), "bystander:power-loss", "another file was changed")
            ctx.ev("power", upto, st)
            ctx.fault("power_loss")
            ctx.cover.add("power|%d|%s|%s|%d" % (min(upto, 12), scn["file"]["ext"], scn["file"]["compress"], not absent_ok))
            injected += 1
            t.remove()
    ctx.count("injected", injected)
    if injected >= 10:
        ctx.count("nontrivial")


def run_checkpoint(ctx, scn):
    """The checkpoint callback saves after every iteration; the whole run is the victim."""
    from skopt.callbacks import CheckpointSaver
    from skopt import dump
    (kind, size, seed), = scn["saves"][:1]
    kw = dump_kw(scn["file"])
    start, earlier, n0 = {}, None, 0
    if len(scn["saves"]) > 1:
        k0, n0, s0 = scn["saves"][1]
        old = make(k0, n0, s0 + 1, SPACE)
        earlier = world.freeze(old)
        if scn.get("go_on") and k0 != "timed":
            start = dict(x0=list(old.x_iters), y0=list(old.func_vals))
        else:
            n0 = 0

    def site(n):
        t = Site(ctx, scn, n)
        if earlier is not None:
            dump(old, t.arg, **kw)
        return t
    logp = os.path.join(ctx.scratch, "oplog")

    class Tell:
        """Emits, durably, that an iteration's checkpoint was written, and what it was."""

        def __init__(self, emit):
            self.emit = emit

        def __call__(self, res):
            self.emit(("saved", len(res.x_iters)))

        def __deepcopy__(self, memo):
            return self

        def __reduce__(self):
            return (str, ("Tell",))

    def play(site, plan, emit):
        disk = seam.Disk(site.d, logp)
        cp = CheckpointSaver(site.arg, **kw)
        disk.start(plan)
        cut = None
        try:
            make(kind, size, seed, SPACE, callback=[cp, Tell(emit)], **start)
        except Exception as e:
            cut = "%s: %s" % (type(e).__name__, e)
        fired = disk.fired()
        n = disk.count()
        disk.stop()
        emit(("end", cut, n, fired))
    refs = {}
    snap = []

    def grab(res):
        import copy
        snap.append((len(res.x_iters), world.freeze(res)))
    make(kind, size, seed, SPACE, callback=[grab], **start)
    refs = dict(snap)
    order = [n for n, _ in snap]
    total = order[-1]
    s = site(0)
    rc, out = fork_call(lambda emit: play(s, [], emit))
    if rc != 0:
        raise RuntimeError("dry run failed %r %r" % (rc, out))
    end = [m for m in out if m[0] == "end"][-1]
    ctx.check(end[1] is None, "save-failed:no-fault", lambda: "checkpoint raised without fault: %s" % (end[1],))
    nops = end[2]
    log = seam.read_log(logp)
    final = read_freeze(s.real)
    ctx.check(final == refs[total], "wrong-result:no-fault", lambda: "after the run the checkpoint is %r" % (final,))
    s.remove()
    ctx.ev("ops", nops)
    injected = 0
    for n, (fk, k, arg) in enumerate(scn["faults"]):
        idx = k if k >= 0 else nops + k
        if idx < 0 or idx >= nops or fk == "short":
            continue
        op = log[idx]["op"] if idx < len(log) else "?"
        if fk == "crash_partial" and op != "W":
            continue
        t = site(n + 1)
        a = seam.ERRNO.get(arg, arg)
        rc, out = fork_call(lambda emit: play(t, [(idx, fk, a)], emit))
        saved = max([m[1] for m in out if m[0] == "saved"] or [0])
        end = [m for m in out if m[0] == "end"]
        now = read_freeze(t.real)
        what = "%s (%s) at operation %d of %d (%s)" % (fk, arg, idx, nops, op)
        if now is None:
            ctx.check(saved == 0 and earlier is None, "lost:" + fk, lambda: "%s: %d iterations had been saved, the file is gone" % (what, saved))
            st = "absent"
        elif earlier is not None and saved == 0 and now == earlier:
            st = "earlier"
        else:
            ctx.check(not isinstance(now, tuple), "unreadable:" + fk, lambda: "%s: %s" % (what, now[1]))
            m = len(now["x_iters"])
            ctx.check(saved <= m, "older-result:" + fk, lambda: "%s: %d iterations had been saved, the file has %d" % (
                what, saved, m))
            nth = order.index(saved) + 1 if saved in order else 0
            ctx.check(m in order[:nth + 1], "wrong-result:" + fk, lambda: "%s: %d iterations saved, %d in the file" % (what, saved, m))
            ctx.check(now == refs.get(m), "wrong-result:" + fk, lambda: "%s: the file has %r, iteration %d was %r" % (
                what, now, m, refs.get(m)))
            st = m
        if end and end[0][1] is None and end[0][3]:
            # nobody was told: then it must all be there
            ctx.check(now is not None and not isinstance(now, tuple) and len(now["x_iters"]) == total,
                      "silent-" + fk, lambda: "%s: the run ended as if all had been saved" % what)
        ctx.check(t.bystander_ok(), "bystander:" + fk, lambda: "%s: another file was changed" % what)
        ctx.ev(fk, k, arg, op, st, saved)
        ctx.fault(fk if fk not in ("err", "sticky") else "%s:%s" % (fk, arg))
        ctx.cover.add("%s|%s|%s|%s|checkpoint" % (fk, op, scn["file"]["ext"], scn["file"]["compress"]))
        injected += 1
        t.remove()
    ctx.count("injected", injected)
    if injected >= 10:
        ctx.count("nontrivial")


def read_freeze(path):
    from skopt import load
    if not os.path.exists(path):
        return None
    try:
        return world.freeze(load(path))
    except BaseException as e:
        return ("bad", "%s: %s" % (type(e).__name__, str(e)[:200]))
