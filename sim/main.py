"""Seeded search over simulated runs for one property; minimisation, replay files, evidence."""
import copy
import hashlib
import importlib
import json
import os
import select
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("SIM_PYTHON", "/opt/venv/bin/python")
NW = 8


def build_shim():
    src = os.path.join(VERIF, "sim", "shim.c")
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:12]
    for d in (os.path.join(VERIF, "build"), tempfile.gettempdir()):
        so = os.path.join(d, "shim-%s.so" % h)
        if os.path.exists(so):
            return so
        try:
            os.makedirs(d, exist_ok=True)
            tmp = so + ".%d.tmp" % os.getpid()
            subprocess.check_call(["gcc", "-O1", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-shared",
                                   "-fPIC", "-o", tmp, src, "-ldl"])
            os.replace(tmp, so)
            return so
        except OSError:
            continue
    raise SystemExit(2)


NO_SIMD = ("SSSE3 SSE41 POPCNT SSE42 AVX F16C FMA3 AVX2 AVX512F AVX512CD AVX512_KNL AVX512_KNM AVX512_SKX AVX512_CLX "
           "AVX512_CNL AVX512_ICL AVX512_SPR")


def environment(hashseed):
    e = dict(os.environ)
    e.update(LD_PRELOAD=build_shim(), PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             # numpy's vector loops round differently depending on where arrays lie in memory
             NPY_DISABLE_CPU_FEATURES=NO_SIMD, MPLBACKEND="agg", PYTHONWARNINGS="ignore", LOKY_MAX_CPU_COUNT="8",
             PYTHONPATH=os.pathsep.join([VERIF, os.environ.get("SIM_REPO", "/repo")]))
    e.pop("VERIF_TIER", None)
    return e


class Pool:
    def __init__(self, prop, scratch, n=NW):
        self.w = []
        for k in range(n):
            d = os.path.join(scratch, "w%d" % k)
            os.makedirs(d, exist_ok=True)
            p = subprocess.Popen([PY, "-m", "sim.worker", prop, d], stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE, env=environment(hash_seed(k)), cwd=VERIF)
            self.w.append(dict(p=p, q=[], busy=None, buf=b"", ready=False, dead=False))

    def put(self, k, job):
        self.w[k % len(self.w)]["q"].append(job)

    def pending(self):
        return sum(len(w["q"]) + (w["busy"] is not None) for w in self.w if not w["dead"])

    def drop_queued(self):
        for w in self.w:
            w["q"] = []

    def poll(self, timeout=1.0):
        """Results that have arrived."""
        for w in self.w:
            if w["ready"] and not w["busy"] and w["q"] and not w["dead"]:
                job = w["q"].pop(0)
                w["busy"] = job
                try:
                    w["p"].stdin.write((json.dumps(job) + "\n").encode())
                    w["p"].stdin.flush()
                except OSError:
                    w["dead"] = True
        fds = {w["p"].stdout.fileno(): w for w in self.w if not w["dead"]}
        if not fds:
            raise RuntimeError("all workers died")
        out = []
        for fd in select.select(list(fds), [], [], timeout)[0]:
            w = fds[fd]
            b = os.read(fd, 1 << 20)
            if not b:
                w["dead"] = True
                if w["busy"]:
                    out.append(dict(ok=None, error="worker died", stats={}, digest="", i=w["busy"].get("i"),
                                    job=w["busy"].get("job")))
                    w["busy"] = None
                continue
            w["buf"] += b
            while b"\n" in w["buf"]:
                line, w["buf"] = w["buf"].split(b"\n", 1)
                m = json.loads(line.decode())
                if m.get("ready"):
                    w["ready"] = True
                else:
                    m["worker"] = self.w.index(w)
                    w["busy"] = None
                    out.append(m)
        return out

    def run_all(self, jobs):
        """Run jobs (list of (worker index, job)), return results in order of `job` key."""
        res = {}
        for n, (k, j) in enumerate(jobs):
            j = dict(j, job=n)
            self.put(k, j)
        while len(res) < len(jobs):
            for m in self.poll():
                if m.get("job") is not None:
                    res[m["job"]] = m
        return [res[n] for n in range(len(jobs))]

    def close(self):
        for w in self.w:
            try:
                w["p"].stdin.close()
            except OSError:
                pass
        for w in self.w:
            try:
                w["p"].wait(3)
            except subprocess.TimeoutExpired:
                w["p"].kill()
                w["p"].wait()


def hash_seed(k):
    return [0, 1, 17, 2024, 99991, 123, 4242, 31337][k % NW]


# --------------------------------------------------------------------- minimisation
def get(scn, path):
    for p in path:
        scn = scn[p]
    return scn


def with_(scn, path, val):
    s = copy.deepcopy(scn)
    get(s, path[:-1])[path[-1]] = val
    return s


def list_paths(scn, keys, path=()):
    if isinstance(scn, dict):
        for k in sorted(scn):
            if k in keys and isinstance(scn[k], list):
                yield path + (k,)
            yield from list_paths(scn[k], keys, path + (k,))
    elif isinstance(scn, list):
        for n, v in enumerate(scn):
            if isinstance(v, (dict, list)):
                yield from list_paths(v, keys, path + (n,))


def candidates(mod, scn):
    """Smaller scenarios, biggest cuts first."""
    keys = set(getattr(mod, "SHRINK_LISTS", ["ops", "faults"]))
    for path in sorted(list_paths(scn, keys), key=lambda p: -len(get(scn, p))):
        lst = get(scn, path)
        n = len(lst)
        size = n
        while size >= 1:
            for s in range(0, n, size):
                if size == n and n == 1 and s == 0:
                    pass
                yield with_(scn, path, lst[:s] + lst[s + size:])
            size //= 2
            if n > 64 and size < 4:
                break
    if hasattr(mod, "simplify"):
        for s in mod.simplify(copy.deepcopy(scn)):
            yield s
    for path, vals in getattr(mod, "SIMPLE", {}).items():
        path = tuple(path.split("."))
        try:
            cur = get(scn, path)
        except (KeyError, IndexError, TypeError):
            continue
        for v in vals:
            if v == cur:
                break
            yield with_(scn, path, v)


def minimise(pool, mod, scn, kind, worker, budget):
    end = time.monotonic() + budget
    tried = set()
    steps = 0
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        batch = []
        for c in candidates(mod, scn):
            key = json.dumps(c, sort_keys=True)
            if key in tried:
                continue
            tried.add(key)
            batch.append(c)
            if len(batch) == NW * 2:
                c = _try(pool, batch, kind, worker)
                batch = []
                if c is not None:
                    scn, improved, steps = c, True, steps + 1
                    break
                if time.monotonic() > end:
                    break
        if not improved and batch and time.monotonic() < end:
            c = _try(pool, batch, kind, worker)
            if c is not None:
                scn, improved, steps = c, True, steps + 1
    return scn, steps


def _try(pool, batch, kind, worker):
    rs = pool.run_all([(n, dict(scn=c, timeout=60)) for n, c in enumerate(batch)])
    for c, r in zip(batch, rs):
        if r.get("ok") is False and same_class(r["kind"], kind):
            return c
    return None


def same_class(a, b):
    return a == b


def replay_file(path, verbose=True):
    """Re-execute a replay file in a fresh process.  Returns its outcome."""
    with open(path) as f:
        rep = json.load(f)
    scratch = make_scratch()
    try:
        p = subprocess.run([PY, "-m", "sim.worker", rep["property"], scratch],
                           input=(json.dumps(dict(scn=rep["scenario"], verbose=verbose, timeout=300))
                                  + "\n").encode(),
                           stdout=subprocess.PIPE, env=environment(rep.get("hashseed", 0)), cwd=VERIF)
        lines = p.stdout.decode().strip().splitlines()
        return rep, json.loads(lines[-1])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def make_scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="skoptsim-", dir=base)


def known_findings():
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:"):
                    kv = dict(t.split("=", 1) for t in line.split(" ")[1:4] if "=" in t)
                    kv["text"] = line
                    out.append(kv)
    except OSError:
        pass
    return out


# --------------------------------------------------------------------- a check
def check(prop, tier, seed, runs=None, wall=None, keep=False):
    sys.path.insert(0, VERIF)
    mod = importlib.import_module("sim.props." + prop.lower())
    t0 = time.monotonic()
    n = runs or int(mod.RUNS[tier])
    wall = wall or {"quick": 240.0, "thorough": 840.0}[tier]
    timeout = getattr(mod, "TIMEOUT", 120)
    scratch = make_scratch()
    pool = Pool(prop, scratch)
    agg = dict(evaluations=0, faults={}, probes={}, other={}, simtime=0.0, checks=0, digests=set(),
               nontrivial=set(), cover=set(), discarded=0, events=0)
    samples, viol, errors = [], [], []
    firsts = {}
    nself = {"quick": 16, "thorough": 64}[tier]
    known = [k for k in known_findings() if k.get("property") == prop]
    known_seen = {}

    def absorb(m):
        agg["evaluations"] += 1
        for k, v in m["stats"].items():
            if k.startswith("fault:"):
                agg["faults"][k[6:]] = agg["faults"].get(k[6:], 0) + v
            elif k.startswith("probe:"):
                agg["probes"][k[6:]] = agg["probes"].get(k[6:], 0) + v
            else:
                agg["other"][k] = agg["other"].get(k, 0) + v
        agg["simtime"] += m.get("simtime", 0)
        agg["events"] += m.get("events", 0)
        agg["digests"].add(m["digest"])
        if m["stats"].get("nontrivial"):
            agg["nontrivial"].add(m["digest"])
        agg["cover"].update(m.get("cover", ()))

    try:
        print("check %s tier=%s seed=%d runs=%d" % (prop, tier, seed, n), flush=True)
        for i in range(n):
            pool.put(i, dict(i=i, seed=seed, tier=tier, timeout=timeout, want_scn=i < 3))
        done_at, dropped = None, False
        while pool.pending():
            for m in pool.poll():
                if m.get("i") is None:
                    continue
                absorb(m)
                if m["ok"] is None:
                    errors.append(m)
                elif m["ok"] is False:
                    k = next((k for k in known if k.get("kind") == m["kind"]), None)
                    if k is not None:
                        known_seen.setdefault(k["kind"], k)
                    else:
                        viol.append(m)
                elif m["i"] < 3 and "scn" in m:
                    samples.append(dict(i=m["i"], scenario=m["scn"], events=m["events"], digest=m["digest"]))
                if m["ok"] is not None and m["i"] < nself:
                    firsts[m["i"]] = (m["digest"], m["ok"])
            now = time.monotonic()
            if viol and done_at is None:
                done_at = now + 6
            if (done_at and now > done_at) or now - t0 > wall or len(errors) > 20:
                pool.drop_queued()
                dropped = True
        if agg["evaluations"] < n and not dropped or not agg["evaluations"]:
            print("harness error: %d of %d runs were executed" % (agg["evaluations"], n))
            return 2
        # determinism self-test: same runs, other interpreter with another hash seed
        unstable = []
        if not viol and firsts:
            rs = pool.run_all([(i + 3, dict(i=i, seed=seed, tier=tier, timeout=timeout))
                               for i in sorted(firsts)])
            for m in rs:
                if (m["digest"], m["ok"]) != firsts[m["i"]]:
                    unstable.append(m["i"])
        rc = 0
        replay = None
        if viol:
            viol.sort(key=lambda m: m["i"])
            v = viol[0]
            scn, steps = minimise(pool, mod, v["scn"], v["kind"], v["worker"],
                                  {"quick": 45, "thorough": 120}[tier])
            replay, rc = report(prop, tier, seed, v, scn, steps)
        ev = evidence(mod, prop, tier, seed, agg, samples, viol, errors, unstable, len(firsts),
                      time.monotonic() - t0, n, known_seen)
        for k in known_seen.values():
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
        if unstable:
            print("note: runs %s did not repeat exactly in another interpreter" % unstable)
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (prop, replay), flush=True)
            return 1
        if rc:
            return rc
        if errors:
            e = errors[0]
            print("harness error in run %s: %s\n%s" % (e.get("i"), e.get("error"), e.get("traceback", "")))
            print("%d of %d runs had harness errors" % (len(errors), agg["evaluations"]))
            return 2
        print("ok: %d runs, %d distinct, %.0f s" % (agg["evaluations"], len(agg["digests"]), ev["wall_s"]))
        return 0
    finally:
        pool.close()
        shutil.rmtree(scratch, ignore_errors=True)


def report(prop, tier, seed, v, scn, steps):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    for s, hs, note in ((scn, 0, "minimised"), (scn, hash_seed(v["worker"]), "minimised"),
                        (v["scn"], hash_seed(v["worker"]), "original")):
        rep = dict(property=prop, kind=v["kind"], seed=seed, tier=tier, run=v["i"], hashseed=hs,
                   scenario=s, note=note, minimisation_steps=steps)
        name = hashlib.sha256(json.dumps([s, hs], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(d, "%s-%s.json" % (prop, name))
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        _, a = replay_file(path)
        _, b = replay_file(path)
        if a.get("ok") is False and same_class(a["kind"], v["kind"]) and b.get("ok") is False:
            rep["message"], rep["log"], rep["digest"] = a["msg"], a.get("log"), a["digest"]
            rep["exact"] = a["digest"] == b["digest"]
            with open(path, "w") as f:
                json.dump(rep, f, indent=1)
            print("violation of %s: %s\n  %s\n  (%s scenario, run %d, seed %d, replays %s)" % (
                prop, v["kind"], a["msg"], note, v["i"], seed,
                "exactly" if rep["exact"] else "with a different event log"))
            return path, 1
        os.remove(path)
    print("run %d violated %s (%s: %s) but did not do so again in a fresh process" % (
        v["i"], prop, v["kind"], v["msg"]))
    return None, 2


def evidence(mod, prop, tier, seed, agg, samples, viol, errors, unstable, nself, wall, planned, known_seen):
    rate = agg["evaluations"] / wall * 3600 if wall else 0
    cov = dict(
        evaluations=agg["evaluations"], distinct_nontrivial=len(agg["nontrivial"]), rule=mod.RULE,
        samples=samples or [dict(note="no run completed")],
        planned_runs=planned, runs_per_hour=int(rate), simulated_seconds=round(agg["simtime"], 3),
        distinct_event_logs=len(agg["digests"]), events=agg["events"],
        oracle_checks=agg["other"].pop("checks", 0),
        faults_injected=dict(sorted(agg["faults"].items())), probes=dict(sorted(agg["probes"].items())),
        counters=dict(sorted(agg["other"].items())),
        states_measure=getattr(mod, "COVER", "distinct event-log digests"),
        distinct_states=len(agg["cover"]) or len(agg["digests"]),
        determinism_selftest=dict(runs_repeated=nself, differing=unstable,
                                  how="repeated in another process with another PYTHONHASHSEED"),
        real_components=mod.REAL, stub_components=mod.STUB, harness_errors=len(errors),
        known_findings_seen=sorted(known_seen))
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
              coverage=cov, assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2),
              violations=len(viol))
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))
    return ev


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    a = ap.parse_args()
    if a.build:
        print(build_shim())
        return 0
    if a.replay:
        rep, o = replay_file(a.replay)
        for line in o.get("log") or []:
            print(" ", line)
        if o.get("ok") is False:
            print("%s: %s" % (o["kind"], o["msg"]))
            if o.get("traceback"):
                print(o["traceback"])
            same = o["kind"] == rep["kind"] and (not rep.get("digest") or o["digest"] == rep["digest"])
            print("VIOLATION property=%s replay=%s%s" % (rep["property"], a.replay,
                                                         "" if same else " (differs from the recorded one)"))
            return 1
        print("no violation" if o.get("ok") else "harness error: %s\n%s" % (o.get("error"), o.get("traceback")))
        return 0 if o.get("ok") else 2
    return check(a.prop, a.tier, a.seed, a.runs, a.wall)


if __name__ == "__main__":
    sys.exit(main())
