"""Worker process: imports the code under test once, then forks one child per run."""
import importlib
import json
import os
import select
import shutil
import sys
import tempfile
import time


def one(prop, mod, scn, scratch, verbose, timeout):
    from . import core
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            # the code under test may print; its output is not ours
            dn = os.open("/dev/null", os.O_WRONLY)
            os.dup2(dn, 1)
            if not verbose:
                os.dup2(dn, 2)
            d = tempfile.mkdtemp(dir=scratch)
            out = core.run_scenario(prop, mod, scn, d, verbose)
            b = json.dumps(out).encode()
            while b:
                b = b[os.write(w, b):]
        except BaseException:    # noqa
            import traceback
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    buf = bytearray()
    end = time.monotonic() + timeout
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        if not select.select([r], [], [], min(left, 5))[0]:
            continue
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf += b
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, 9)
        except OSError:
            pass
        try:
            os.kill(pid, 9)
        except OSError:
            pass
    os.waitpid(pid, 0)
    for n in os.listdir(scratch):
        shutil.rmtree(os.path.join(scratch, n), ignore_errors=True)
    if timed_out:
        return {"ok": None, "error": "timeout after %ds" % timeout, "stats": {}, "digest": "", "timeout": True}
    try:
        return json.loads(buf.decode())
    except ValueError:
        return {"ok": None, "error": "run ended without an outcome", "stats": {}, "digest": ""}


def preload(locks=False):
    import warnings
    warnings.simplefilter("ignore")
    import numpy, scipy, sklearn, joblib     # noqa
    if locks:
        # locks the code under test makes while it is imported belong to the simulated scheduler as well
        from . import threadsim
        threadsim.install_locks()
    import skopt                             # noqa
    import skopt.plots                       # noqa
    if locks:
        threadsim.remove_locks()
    root = os.environ.get("SIM_REPO", "/repo")
    if not os.path.realpath(skopt.__file__).startswith(os.path.realpath(root) + os.sep):
        raise SystemExit("skopt imported from %s, not from %s" % (skopt.__file__, root))


def main():
    prop, scratch = sys.argv[1], sys.argv[2]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    preload(prop == "C16")
    mod = importlib.import_module("sim.props." + prop.lower())
    if hasattr(mod, "warmup"):
        mod.warmup()
    out.write(json.dumps({"ready": True}) + "\n")
    from .core import rng_for
    for line in sys.stdin:
        job = json.loads(line)
        t = time.monotonic()
        if "scn" in job:
            scn = job["scn"]
        else:
            scn = mod.generate(rng_for(prop, job["seed"], job["i"]), job["tier"], job["i"])
        res = one(prop, mod, scn, scratch, job.get("verbose", False), job.get("timeout", 120))
        res["i"] = job.get("i")
        res["job"] = job.get("job")
        res["wall"] = time.monotonic() - t
        if not res.get("ok") or job.get("want_scn"):
            res["scn"] = scn
        out.write(json.dumps(res) + "\n")


if __name__ == "__main__":
    main()
