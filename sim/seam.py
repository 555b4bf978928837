"""ctypes side of shim.c, and the disk simulation built on its operation log."""
import ctypes
import errno
import os
import struct

_lib = ctypes.CDLL(None)
PRESENT = hasattr(_lib, "sim_present")
if PRESENT:
    i64, cint, u64 = ctypes.c_int64, ctypes.c_int, ctypes.c_uint64
    _lib.sim_fs_start.argtypes = [ctypes.c_char_p, cint]
    _lib.sim_fs_plan_add.argtypes = [i64, cint, i64]
    _lib.sim_fs_count.restype = i64
    _lib.sim_fs_fired.restype = i64
    _lib.sim_clock.argtypes = [cint, i64, i64, i64, i64]
    _lib.sim_clock_move.argtypes = [i64, i64, i64]
    _lib.sim_clock_get.restype = i64
    _lib.sim_clock_reads.restype = i64
    _lib.sim_entropy.argtypes = [cint, u64]
    _lib.sim_entropy_reads.restype = i64

KINDS = {"crash_before": 1, "crash_partial": 2, "err": 3, "short": 4,
         "crash_after": 5, "sticky": 6}
CRASH_RC = 99

# ----------------------------------------------------------------- clock, entropy
NS = 1000000000


def clock_on(mono=1000 * NS, real=1600000000 * NS, cpu=NS, tick=0):
    _lib.sim_clock(1, mono, real, cpu, tick)


def clock_off():
    _lib.sim_clock(0, 0, 0, 0, 0)


def clock_move(mono=0, real=0, cpu=0):
    _lib.sim_clock_move(mono, real, cpu)


def clock_mono():
    return _lib.sim_clock_get(1)


def clock_reads():
    return [_lib.sim_clock_reads(i) for i in range(3)]


def entropy_on(seed):
    _lib.sim_entropy(1, seed & (2 ** 64 - 1))


def entropy_off():
    _lib.sim_entropy(0, 0)


def entropy_reads():
    return _lib.sim_entropy_reads()


# ----------------------------------------------------------------- disk
class Disk:
    """Fault plan and operation log for everything below one directory."""

    def __init__(self, root, logpath):
        self.root = os.path.join(os.path.realpath(root), "")
        self.logpath = logpath

    def start(self, plan=()):
        self.fd = os.open(self.logpath, os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_APPEND, 0o600)
        _lib.sim_fs_start(self.root.encode(), self.fd)
        self.plan(plan)

    def plan(self, plan):
        _lib.sim_fs_plan_clear()
        for idx, kind, arg in plan:
            _lib.sim_fs_plan_add(int(idx), KINDS[kind], int(arg))

    def pause(self):
        _lib.sim_fs_stop()

    def resume(self):
        _lib.sim_fs_resume()

    def count(self):
        return _lib.sim_fs_count()

    def fired(self):
        return {k: _lib.sim_fs_fired(v) for k, v in KINDS.items() if _lib.sim_fs_fired(v)}

    def stop(self):
        _lib.sim_fs_stop()
        if getattr(self, "fd", None) is not None:
            os.close(self.fd)
            self.fd = None

    def log(self):
        return read_log(self.logpath)


REC = struct.Struct("<qiiqqqqiiii")


def read_log(path):
    out = []
    with open(path, "rb") as f:
        b = f.read()
    i = 0
    while i + REC.size <= len(b):
        (idx, kind, fault, ino, off, ln, want, res, err, p1, p2) = REC.unpack_from(b, i)
        i += REC.size
        a = b[i:i + p1].decode(); i += p1
        c = b[i:i + p2].decode(); i += p2
        data = b[i:i + ln]; i += ln
        out.append(dict(idx=idx, op=chr(kind), fault=fault, ino=ino, off=off, data=data,
                        want=want, res=res, err=err, path=a, path2=c))
    return out


def op_summary(log, root):
    """Short text of a log, for replay files and event digests (no addresses, no inode numbers)."""
    seen, out = {}, []
    for r in log:
        names = []
        for p in (r["path"], r["path2"]):
            if p:
                p = p.replace(" (deleted)", "")
                base = p[len(root):] if p.startswith(root) else p
                names.append(seen.setdefault(base, base if len(seen) < 0 else "f%d" % len(seen)))
        out.append("%s %s%s%s" % (r["op"], ">".join(names), " n=%d" % r["want"] if r["op"] == "W" else "",
                                  " FAULT%d" % r["fault"] if r["fault"] else ""))
    return out


class DiskModel:
    """What could be on the disk after a power loss, derived from the operation log.

    Model: metadata operations (create, rename, unlink, truncation by open) become durable in
    order (a journalled file system) but possibly later than they were issued; file data becomes
    durable only with fsync of that file, otherwise any prefix of the unsynced data, including none
    of it, may be there.
    """

    def __init__(self, initial):
        # name -> inode, inode -> [durable bytes, current bytes]
        self.names = {}
        self.inodes = {}
        self.n = 0
        for name, data in initial.items():
            self.names[name] = self._new(bytes(data), bytes(data))

    def _new(self, durable=b"", current=b""):
        self.n += 1
        self.inodes[self.n] = [durable, current]
        return self.n

    def images(self, log, root, upto, choose):
        """State after power is lost following the first `upto` log records.

        choose(n, what) -> int in [0, n) decides what had become durable.
        """
        names = dict(self.names)
        inodes = {k: list(v) for k, v in self.inodes.items()}
        real = {}
        meta = []          # ordered metadata history: snapshots of names
        sync_floor = 0     # metadata durable at least up to here

        def ino(r):
            return real.get(r["ino"])

        nextid = [self.n]

        def snap():
            meta.append((dict(names), {}))
        snap()
        trunc = []         # (meta position, inode): a truncation is metadata as well
        for r in log[:upto]:
            rel = r["path"][len(root):] if r["path"].startswith(root) else None
            if r["op"] == "O" and r["res"] >= 0:
                rp = r["path2"]
                rel = rp[len(root):] if rp.startswith(root) else None
                if rel is None:
                    continue
                flags = r["off"]
                if rel not in names:
                    nextid[0] += 1
                    inodes[nextid[0]] = [b"", b""]
                    names[rel] = nextid[0]
                    snap()
                i = names[rel]
                real[r["ino"]] = i
                if flags & os.O_TRUNC and (flags & os.O_ACCMODE) != os.O_RDONLY and inodes[i][1]:
                    inodes[i][1] = b""
                    trunc.append((len(meta), i))
                    snap()
            elif r["op"] == "W" and r["res"] > 0:
                i = ino(r)
                if i is None:
                    continue
                cur = inodes[i][1]
                off = r["off"]
                cur = cur.ljust(off, b"\0")
                inodes[i][1] = cur[:off] + r["data"] + cur[off + len(r["data"]):]
            elif r["op"] == "T" and r["res"] >= 0:
                i = ino(r)
                if i is not None:
                    inodes[i][1] = inodes[i][1][:r["off"]].ljust(r["off"], b"\0")
                    trunc.append((len(meta), i))
                    snap()
            elif r["op"] == "S" and r["res"] >= 0:
                i = ino(r)
                if i is not None:
                    inodes[i][0] = inodes[i][1]
                    trunc[:] = [t for t in trunc if t[1] != i]
                # the journal is committed with it
                sync_floor = len(meta) - 1
            elif r["op"] == "N" and r["res"] >= 0:
                a = r["path"][len(root):]
                b = r["path2"][len(root):]
                if a in names:
                    names[b] = names.pop(a)
                    snap()
            elif r["op"] == "U" and r["res"] >= 0:
                names.pop(rel, None)
                snap()
            elif r["op"] == "L" and r["res"] >= 0:
                b = r["path2"][len(root):]
                if rel in names:
                    names[b] = names[rel]
                    snap()
        pos = sync_floor + choose(len(meta) - sync_floor, "metadata")
        state = {}
        for name, i in meta[pos][0].items():
            dur, cur = inodes[i]
            if any(t <= pos and j == i for t, j in trunc):
                dur = b"" if not cur.startswith(dur) else dur
            if cur == dur:
                state[name] = cur
            elif cur.startswith(dur):
                c = choose(4, "data")
                extra = len(cur) - len(dur)
                n = [0, extra, extra // 2, max(0, extra - 1)][c]
                state[name] = cur[:len(dur) + n]
            else:
                # rewritten in place without sync: old, nothing, a prefix, or all of the new data
                c = choose(4, "data")
                state[name] = [dur, b"", cur[:len(cur) // 2], cur][c]
        return state


ERRNO = {n: getattr(errno, n) for n in ("ENOSPC", "EIO", "EDQUOT", "EACCES", "EMFILE", "EINTR",
                                        "EROFS", "ENFILE", "EFBIG")}
