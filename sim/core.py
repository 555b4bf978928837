"""Running one scenario: context, event log, violations, forked victims."""
import hashlib
import json
import os
import pickle
import random
import signal
import struct
import sys
import traceback

from . import seam


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, kind, msg=""):
        super().__init__("%s: %s" % (kind, msg))
        self.kind, self.msg = kind, msg


class Discard(Exception):
    """The scenario is not meaningful (should be rare; counted)."""


def rng_for(*parts):
    return random.Random("/".join(map(str, parts)))


def sut_where(tb):
    """Innermost frames of the code under test in a traceback, for messages."""
    out = []
    for fs in traceback.extract_tb(tb):
        if "/skopt/" in fs.filename:
            out.append("%s:%s" % (fs.filename.split("/skopt/")[-1], fs.name))
    return " < ".join(reversed(out[-3:]))


def raised_in_sut(tb):
    """Where, if the exception came out of a call into the code under test (not out of the harness)."""
    last_sim = last_sut = -1
    frames = traceback.extract_tb(tb)
    for n, fs in enumerate(frames):
        if "/sim/" in fs.filename:
            last_sim = n
        elif "/skopt/" in fs.filename:
            last_sut = n
    return sut_where(tb) if last_sut > last_sim else None


class Ctx:
    def __init__(self, prop, scratch, verbose=False):
        self.prop = prop
        self.scratch = scratch
        self.h = hashlib.sha256()
        self.nev = 0
        self.stats = {}
        self.cover = set()
        self.simtime = 0.0
        self.verbose = verbose
        self.events = [] if verbose else None
        self.flags = {}

    # --- recording
    def ev(self, *a):
        s = repr(a)
        self.h.update(s.encode())
        self.nev += 1
        if self.events is not None:
            self.events.append(s if len(s) < 600 else s[:600] + "...")

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def probe(self, name):
        self.count("probe:" + name)

    def fault(self, name, n=1):
        self.count("fault:" + name, n)

    # --- judging
    def check(self, cond, kind, msg=""):
        self.count("checks")
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)

    def sut(self, what, fn, *a, **k):
        """Call the code under test where the property says it must work."""
        try:
            return fn(*a, **k)
        except (Violation, Discard, HarnessStop):
            raise
        except Exception as e:
            raise Violation("exception:%s:%s" % (what, type(e).__name__),
                            "%s raised %s: %s [%s]" % (what, type(e).__name__, str(e)[:300],
                                                       sut_where(e.__traceback__)))

    def sut_raises(self, what, fn, *a, exc=Exception, **k):
        """Call the code under test where the property says it must refuse."""
        try:
            r = fn(*a, **k)
        except exc as e:
            return e
        raise Violation("accepted:%s" % what, "%s was accepted, returned %.200r" % (what, r))


class HarnessStop(BaseException):
    pass


# ------------------------------------------------------------------ forked victims
def fork_call(fn, timeout=None):
    """Run fn(emit) in a forked child; emit(obj) is durable when it returns.

    Returns (returncode, [emitted...]).  returncode seam.CRASH_RC: killed by an injected crash.
    """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        rc = 98
        try:
            os.close(r)

            def emit(obj):
                b = pickle.dumps(obj)
                b = struct.pack("<q", len(b)) + b
                while b:
                    n = os.write(w, b)
                    b = b[n:]
            try:
                fn(emit)
                rc = 0
            except BaseException as e:      # noqa
                try:
                    emit(("__exc__", type(e).__name__, str(e)[:500],
                          traceback.format_exc()[-3000:],
                          getattr(e, "kind", None)))
                except BaseException:       # noqa
                    pass
                rc = 97
        finally:
            os._exit(rc)
    os.close(w)
    buf = bytearray()
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    rc = os.waitstatus_to_exitcode(status)
    out, i = [], 0
    while i + 8 <= len(buf):
        n, = struct.unpack_from("<q", buf, i)
        if i + 8 + n > len(buf):
            break
        out.append(pickle.loads(bytes(buf[i + 8:i + 8 + n])))
        i += 8 + n
    return rc, out


# ------------------------------------------------------------------ one run
def reset_ambient(scn):
    """Everything ambient the code under test could see is a function of the scenario."""
    import numpy as np
    a = int(scn.get("ambient", 1))
    random.seed(a)
    np.random.seed(a % (2 ** 32))
    if seam.PRESENT:
        seam.entropy_on(a)
        seam.clock_on(tick=1000)


def run_scenario(prop, mod, scn, scratch, verbose=False):
    """Execute a scenario; returns a JSON-able outcome."""
    ctx = Ctx(prop, scratch, verbose)
    out = {}
    try:
        reset_ambient(scn)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run(ctx, scn)
        out["ok"] = True
    except Violation as v:
        out["ok"] = False
        out["kind"], out["msg"] = v.kind, v.msg[:1500]
        if verbose:
            out["traceback"] = traceback.format_exc()[-4000:]
    except Discard as d:
        out["ok"] = True
        ctx.count("discarded")
        out["discard"] = str(d)
    except BaseException as e:             # noqa: harness error, kept apart from violations
        where = raised_in_sut(e.__traceback__) if isinstance(e, Exception) else None
        out["ok"] = None if where is None else False
        if where is not None:
            out["kind"] = "exception:unguarded:%s" % type(e).__name__
            out["msg"] = "%s: %s [%s]" % (type(e).__name__, str(e)[:300], where)
        out["error"] = "%s: %s" % (type(e).__name__, e)
        out["traceback"] = traceback.format_exc()[-4000:]
    if seam.PRESENT:
        seam.clock_off()
        seam.entropy_off()
    out["digest"] = ctx.h.hexdigest()[:16]
    out["events"] = ctx.nev
    out["stats"] = ctx.stats
    out["cover"] = sorted(ctx.cover)[:400]
    out["simtime"] = ctx.simtime
    if verbose:
        out["log"] = ctx.events
    return out


def canon(scn):
    return json.dumps(scn, sort_keys=True)
