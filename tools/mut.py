#!/usr/bin/env python3
"""Run checks against a mutated scratch copy of /repo (development aid, not part of any check).

mut.py PROP[,PROP..] FILE 'old' 'new'  |  mut.py PROP patch.diff
"""
import os, shutil, subprocess, sys, tempfile
props = sys.argv[1].split(",")
d = tempfile.mkdtemp(prefix="mut-", dir="/dev/shm")
r = d + "/repo"
try:
    subprocess.check_call(["cp", "-a", "/repo", r])
    if len(sys.argv) == 3:
        subprocess.check_call(["git", "-C", r, "apply", os.path.abspath(sys.argv[2])])
    else:
        f = os.path.join(r, sys.argv[2])
        s = open(f).read()
        old, new = (a.encode().decode("unicode_escape") for a in sys.argv[3:5])
        assert s.count(old) >= 1, "not found"
        open(f, "w").write(s.replace(old, new, 1))
    subprocess.call("find %s -name __pycache__ -prune -exec rm -rf {} +" % r, shell=True)
    v = d + "/verif"
    os.makedirs(v)
    subprocess.check_call("cp -a /verif/sim /verif/check /verif/build %s/; cp -a /verif/known_findings.txt %s/ 2>/dev/null; true" % (v, v), shell=True)
    for p in props:
        rc = subprocess.run([v + "/check", p] + os.environ.get("ARGS", "").split(), env=dict(os.environ, SIM_REPO=r),
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(p, "rc=%d" % rc.returncode, "|", "\n   ".join(rc.stdout.strip().splitlines()[1:6]))
finally:
    shutil.rmtree(d)
