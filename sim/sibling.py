"""A fresh interpreter that executes one function of a property module: (module, function, argument) pickled on stdin."""
import os
import pickle
import subprocess
import sys


def call(module, function, arg, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "sim.sibling"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=env, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    out, err = p.communicate(pickle.dumps((module, function, arg)))   # time is simulated here: no timeout
    if p.returncode != 0:
        raise RuntimeError("sibling interpreter failed: %s" % err.decode()[-1500:])
    return pickle.loads(out)


def main():
    m, f, arg = pickle.load(sys.stdin.buffer)
    out = os.dup(1)
    os.dup2(2, 1)
    import importlib
    import warnings
    warnings.simplefilter("ignore")
    import skopt
    root = os.environ.get("SIM_REPO", "/repo")
    assert os.path.realpath(skopt.__file__).startswith(os.path.realpath(root) + os.sep), skopt.__file__
    r = getattr(importlib.import_module(m), f)(arg)
    b = pickle.dumps(r)
    while b:
        b = b[os.write(out, b):]


if __name__ == "__main__":
    main()
