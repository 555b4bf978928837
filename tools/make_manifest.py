#!/usr/bin/env python3
"""Write MANIFEST.json: one check per module under sim/props."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
NOTE = {
 "C01": "Every numbered file system operation of a save can be hit by crash, torn write, error, full disk, and power loss images from the recorded operation log; sampled by seed. Trusts the kernel's file system calls between injected faults and the stated disk model (ordered metadata, atomic rename, data durable by fsync).",
 "C02": "Deep content comparison of loaded and saved results over generated results, file types, options, split or interrupted reads and writes, and torn or corrupt files. Trusts the fingerprint's list of parts a user reads.",
 "C03": "Real minimiser processes killed at sampled file system operations, objective calls and callbacks, restarted again and again, judged against a durable ledger of evaluations written outside the process.",
 "C04": "Executable reference model of the minimisers' accounting, compared event by event on seeded runs with stopping and failing objectives and callbacks.",
 "C05": "Seeded delivery histories (late, lost, duplicated, reordered, batched, unsolicited) against an independent shadow record after every step.",
 "C06": "Seeded histories of batch requests with recording surrogates; lies, training data, repeatability and side effects are recomputed from the shadow record.",
 "C07": "Twin simulation: a history with malformed deliveries and one without them must be indistinguishable afterwards.",
 "C08": "Twin simulations with equal seed that differ in the number of jobs, task order, global random state, hash seed, clock and entropy must be bit-equal.",
 "C09": "Seeded interleavings of several optimizations sharing arguments, against each of them run alone, and fingerprints of the caller's objects.",
 "C10": "Whole runs on a simulated monotonic and wall clock; durations, stalls and clock jumps are drawn by seed; exact comparison with a reference model.",
 "C11": "Reference models of the stopping rules on every prefix of generated histories, including shared stoppers and crash and resume.",
 "C12": "The whole search under a simulated parallel backend that decides order, stragglers and failures, judged against the scores the scripted estimators gave.",
 "C13": "Recording surrogates and acquisition functions; training data, models in results and the choice of candidates are recomputed from the shadow record.",
 "C14": "Recorded generator output against suggestions over seeded histories of singles, batches and minimisers.",
 "C15": "Twin simulation: the restored (also in another process) or deep copied optimizer and the original get the same deliveries and must agree bit by bit.",
 "C16": "Real threads run one at a time under a seeded preemptive scheduler at source line granularity, against the same work run alone. Preemption inside a C extension is not simulated.",
 "C17": "Surrogate faults injected at seeded fit and predict calls; record, results, refusals and recovery are judged against the shadow record.",
 "C18": "Membership of every suggestion judged by an independent definition of the space over seeded histories and generated spaces; every suggestion is told back.",
 "C19": "Seeded descriptions and layouts of configuration files read under split, interrupted and failing transfers; every field of every dimension is compared with the description.",
 "C20": "Results of seeded histories; the reported minimum is judged with the recorded surrogate, own sample points, disturbed random states and failing predictions.",
}
NA = {
 "N01": "Closed formulas of pure functions: no schedule, time, I/O, randomness or second party for a simulator to decide.",
 "N02": "Numerical linear algebra of a pure function; nothing nondeterministic to put under a simulator.",
 "N03": "Pure function round trip; no nondeterminism or fault to inject.",
 "N04": "Pure function of the seed; nothing to schedule or to fail.",
 "N05": "Plotting of recorded data; pure presentation code without concurrency, time or I/O of its own.",
 "N07": "Pure data conversion.",
}
mods = {f[:-3].upper() for f in os.listdir(here + "/sim/props") if re.match(r"c\d\d\.py$", f)}
checks, na = [], []
for i in ids:
    if i in mods:
        level = re.search(r'^LEVEL = "(\w+)"', open("%s/sim/props/%s.py" % (here, i.lower())).read(), re.M)
        checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i,
                       "thorough_cmd": "./check %s --tier thorough" % i,
                       "technique": "deterministic simulation with fault injection: seeded search over schedules and faults",
                       "level": level.group(1) if level else "exploration", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "Check still being built.")})
m = {"version": 1, "setup_cmd": "./check --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: seams are the LD_PRELOAD library sim/shim.c (disk, clock, entropy), joblib backends, "
              "surrogate, generator, objective and callback interfaces, and the interpreter's trace function."}
open(here + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
