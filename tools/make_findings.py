#!/usr/bin/env python3
"""Print the 'fixed' lines of known_findings.txt from the repair commits (development aid)."""
import subprocess
P = {"np.int": "C14", "forest regressors": "C18", "log-uniform dimensions with base": "C18", "mixed types": "C18", "narrow float dtype": "C18",
     "dummy_minimize counts": "C04", "without surrogate": "C14", "Optimizer.copy": "C15", "different number of points": "C07",
     "returned result": "C05", "Dimension objects": "C09", "verbose=True": "C09", "monotonic clock": "C10",
     "per second": "C06", "total_iterations": "C12", "does not deep copy": "C02", "replaces an existing": "C01",
     "copies of the dimensions": "C09", "single category": "C18", "another size": "C06", "time-aware": "C07",
     "Grid makes": "C14", "gp_hedge recovers": "C17",
     "starting points outside": "C04", "refuses more initial": "C04", "StopIteration": "C04", "callback reads the clock": "C10", "Sobol generator": "C16", "two skips": "C14", "numeric categories": "C18", "bases they do not need": "C14", "expected minimum": "C20"}
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        p = next((v for k, v in P.items() if k in s), "C??")
        print("fixed: property=%s %s %s" % (p, h, s[5:]))
