#!/usr/bin/env python3
"""Development aid: write and verify planted bugs under /verif/seeded (no check reads them).

import plant; plant.plant(id, property, [(file, old, new)], demo_source, needs, breaks)
plant.py verify ID...     demo on clean and patched copy, stable tests on the patched copy, the property's check
plant.py check ID...      only the property's check
"""
import json, os, shutil, subprocess, sys, tempfile
SEEDED = "/verif/seeded"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


class Copy:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="plant-", dir="/dev/shm")
        self.r = self.d + "/repo"
        subprocess.check_call(["cp", "-a", "/repo", self.r])
        sh("find %s -name __pycache__ -prune -exec rm -rf {} +" % self.r)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d)

    def demo(self, i):
        p = self.d + "/demo"
        shutil.copytree("%s/%s" % (SEEDED, i), p, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        r = sh("timeout 300 bash %s/demo.sh" % p, cwd=self.r)
        shutil.rmtree(p)
        return r.returncode, r.stdout[-400:]

    def apply(self, i):
        subprocess.check_call(["git", "-C", self.r, "apply", "%s/%s/patch.diff" % (SEEDED, i)])

    def tests(self):
        s = open("/opt/vp/test.sh").read().replace("/repo", self.r)
        open(self.d + "/test.sh", "w").write(s)
        sh("bash %s/test.sh %s/out.json" % (self.d, self.d))
        b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        return sorted(b - set(json.load(open(self.d + "/out.json"))["passed"]))

    def check(self, prop):
        v = self.d + "/verif"
        os.makedirs(v, exist_ok=True)
        sh("cp -a /verif/sim /verif/check /verif/build /verif/known_findings.txt %s/" % v)
        r = sh("timeout 900 %s/check %s %s" % (v, prop, os.environ.get("ARGS", "")), env=dict(os.environ, SIM_REPO=self.r))
        return (r.returncode if r.returncode != 1 or "VIOLATION property=%s " % prop in r.stdout else 99), "\n     ".join(r.stdout.strip().splitlines()[1:4])[:600]


def plant(i, prop, edits, demo, needs, breaks, verify=True):
    p = "%s/%s" % (SEEDED, i)
    os.makedirs(p, exist_ok=True)
    with Copy() as c:
        for f, old, new in edits:
            s = open(c.r + "/" + f).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(c.r + "/" + f, "w").write(s.replace(old, new))
        open(p + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", c.r, "diff"], text=True))
    open(p + "/demo.py", "w").write(demo.lstrip("\n"))
    open(p + "/demo.sh", "w").write("#!/bin/bash\n# run with cwd = the repository\nexport PYTHONPATH=\"$PWD\" PYTHONDONTWRITEBYTECODE=1 "
                                    "OMP_NUM_THREADS=1\nexec /opt/venv/bin/python -W ignore \"$(dirname \"$0\")/demo.py\"\n")
    os.chmod(p + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(p + "/meta.json", "w"), indent=1)
    if verify:
        return do_verify(i)


def do_verify(i, what="verify"):
    prop = json.load(open("%s/%s/meta.json" % (SEEDED, i)))["property"]
    with Copy() as c:
        line = [i, prop]
        ok = True
        if what == "verify":
            a = c.demo(i)
            c.apply(i)
            b = c.demo(i)
            lost = c.tests()
            ok = a[0] == 0 and b[0] != 0 and not lost
            line += ["clean=%d patched=%d lost=%d" % (a[0], b[0], len(lost))]
            if not ok:
                line += [a[1], b[1], lost[:5]]
        else:
            c.apply(i)
        rc, out = c.check(prop)
        print("VALID" if ok else "INVALID", "CAUGHT" if rc == 1 else "MISSED rc=%d" % rc, *line, flush=True)
        print("    ", out, flush=True)
        return ok, rc


if __name__ == "__main__":
    for i in sys.argv[2:] or sorted(os.listdir(SEEDED)):
        do_verify(i, sys.argv[1])
