"""C19 A search space read from a configuration file is the one described there."""
import json
import os
import pathlib

import numpy as np

from sim import seam, spies, world
from sim.core import rng_for
from sim.world import member, plain, same

RUNS = dict(quick=2500, thorough=20000)
RULE = ("one case per seeded description of a search space, written to a file in a seeded layout and read back while transfers "
        "are split or interrupted, and again while they fail; distinct event logs among those that compared a space and in "
        "which at least one transfer was disturbed")
COVER = "distinct (layout, name of the file, kinds of dimensions, disturbances that happened)"
REAL = ["Space.from_yaml and the dimensions it makes", "the YAML reader", "Python's file objects, the C library, tmpfs",
        "Optimizer (a few suggestions from the space read)"]
STUB = ["short, interrupted and failing opens and reads (LD_PRELOAD seam)", "the author of the file (seeded layouts)"]
SHRINK_LISTS = ["splits", "errs"]
NAMES = ["alpha", "learning rate", "C", "kernel", "n_est", "x0", "größe", "on", "null", "1", "a: b", "#5"]


def generate(rng, tier, i):
    space = [d for d in world.gen_space(rng, rng.choice([1, 2, 3, 5])) if d]
    for d in space:
        d.pop("short", None)
        if d["t"] == "cat" and rng.random() < 0.2:
            d["cats"] = rng.choice([["ä", "ö"], ["Adam", "SGD", "adam"], [" x ", "x"], ["yes", "no", "null"], ["1", "2", 1], ["a" * 300, "b"], ["x: y", "- z", "#"],
                                    [True, "true"], [None, "None"], list(range(40))])
            d.pop("prior", None)
            d.pop("transform", None)
    names = rng.sample(NAMES, len(space))
    for d, n in zip(space, names):
        if rng.random() < 0.7:
            d["name"] = n
    other = world.gen_space(rng, 2)
    return dict(space=space, other=other, layout=rng.choice(["list", "only", "first", "named", "named", "named-last"]),
                style=rng.choice(["block", "block", "flow"]), case=rng.choice(["asis", "lower", "upper", "mixed"]),
                pad=rng.choice([0, 0, 10, 9000, 70000]), crlf=int(rng.random() < .15),
                form=rng.choice(["str", "str", "path", "relative", "subdir", "symlink"]),
                splits=[[rng.choice([0, 0, 1, 2, rng.randrange(12)]), rng.choice(["short", "short", "EINTR"]),
                         rng.choice([1, 250, 500, 999])] for _ in range(rng.choice([1, 3, 8]))],
                errs=[[rng.choice([0, 1, 2, rng.randrange(8)]), rng.choice(["EIO", "EACCES", "EMFILE"])] for _ in range(3)],
                rs=rng.randrange(10 ** 6), seed=rng.randrange(10 ** 6), ambient=rng.randrange(1, 10 ** 6))


def scalar(v):
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, float):
        s = repr(v)
        m, e, x = s.partition("e")
        return (m if "." in m else m + ".0") + e + x
    if isinstance(v, int):
        return repr(v)
    if isinstance(v, list):
        return "[" + ", ".join(scalar(c) for c in v) + "]"
    return json.dumps(v, ensure_ascii=False)


def spell(word, case, r):
    if case == "mixed":
        return "".join(c.upper() if r.random() < .5 else c for c in word)
    return {"asis": word.capitalize(), "lower": word.lower(), "upper": word.upper()}[case]


def fields(d):
    out = []
    if d["t"] == "cat":
        out.append(("categories", d["cats"]))
        keys = ["prior", "transform", "name"]
    else:
        out += [("low", d["low"]), ("high", d["high"])]
        keys = ["prior", "base", "transform", "dtype", "name"]
    return out + [(k, d[k]) for k in keys if d.get(k) is not None]


def describe(dims, scn, r, indent):
    """The text of one list of dimensions."""
    out = []
    for d in dims:
        kind = spell({"real": "real", "int": "integer", "cat": "categorical"}[d["t"]], scn["case"], r)
        fs = fields(d)
        if r.random() < .3:
            r.shuffle(fs)
        key = (lambda k: k) if scn["case"] == "asis" else lambda k: spell(k, scn["case"], r)
        if scn["style"] == "flow":
            out.append("%s- {%s: {%s}}" % (indent, kind, ", ".join("%s: %s" % (key(k), scalar(v)) for k, v in fs)))
        else:
            out.append("%s- %s:" % (indent, kind))
            for k, v in fs:
                if isinstance(v, list) and r.random() < .5:
                    out.append("%s    %s:" % (indent, key(k)))
                    out += ["%s    - %s" % (indent, scalar(c)) for c in v]
                else:
                    out.append("%s    %s: %s" % (indent, key(k), scalar(v)))
        if scn["pad"] and r.random() < .5:
            out.append("# " + "padding " * (scn["pad"] // 8))
    return out


def write(scn, r):
    own, other = describe(scn["space"], scn, r, "  "), describe(scn["other"], scn, r, "  ")
    if scn["layout"] == "list":
        lines, ns = describe(scn["space"], scn, r, ""), None
    elif scn["layout"] in ("only", "first"):
        lines, ns = ["Space:"] + own + (["Other:"] + other if scn["layout"] == "first" else []), None
    elif scn["layout"] == "named":
        lines, ns = ["first:"] + other + ["my space:"] + own + ["last:"] + other, "my space"
    else:
        lines, ns = ["first:"] + other + ["Space:"] + own, "Space"
    if scn["pad"]:
        lines = ["# " + "é" * scn["pad"], "---"] + lines
    return ("\r\n" if scn["crlf"] else "\n").join(lines) + "\n", ns


def place(scn, root):
    real = os.path.join(root, "space.yaml")
    if scn["form"] == "path":
        return pathlib.Path(real), real
    if scn["form"] == "relative":
        os.chdir(root)
        return "space.yaml", real
    if scn["form"] == "subdir":
        os.makedirs(os.path.join(root, "sub dir é"))
        real = os.path.join(root, "sub dir é", "s p.yml")
        return real, real
    if scn["form"] == "symlink":
        link = os.path.join(root, "link")
        os.symlink(real, link)
        return link, real
    return real, real


def open_files():
    return len(os.listdir("/proc/self/fd"))


def agrees(ctx, got, dims, what):
    """The space is the one described."""
    kinds = {"real": "Real", "int": "Integer", "cat": "Categorical"}
    ds = list(got.dimensions)
    ctx.check([type(d).__name__ for d in ds] == [kinds[d["t"]] for d in dims], "dimensions:" + what,
              lambda: "read %r, described %r" % (ds, dims))
    for q, d in zip(ds, dims):
        ref = world.build_dim(d)
        say = lambda: "read %r (%r), described %r" % (q, vars(q), d)
        ctx.check(q.name == d.get("name"), "name:" + what, say)
        if d["t"] == "cat":
            ctx.check(same(plain(q.categories), plain(ref.categories)) and
                      [type(c) for c in q.categories] == [type(c) for c in d["cats"]], "categories:" + what, say)
            ctx.check(same(plain(q.prior), plain(ref.prior)) and np.allclose(q.prior_, ref.prior_), "prior:" + what, say)
        else:
            ctx.check(same(plain(q.bounds), [d["low"], d["high"]]), "bounds:" + what, say)
            ctx.check(q.prior == d.get("prior", "uniform") and q.base == d.get("base", ref.base), "prior:" + what, say)
            ctx.check(q.dtype == ref.dtype, "dtype:" + what, say)
        ctx.check(q.transform_ == ref.transform_, "transform:" + what, say)


def run(ctx, scn):
    from skopt import Optimizer
    from skopt.space import Space
    spies.reset()
    r = rng_for("c19", scn["seed"])
    text, ns = write(scn, r)
    arg, real = place(scn, ctx.scratch)
    with open(real, "w", encoding="utf-8", newline="") as f:
        f.write(text)
    kw = {} if ns is None else dict(namespace=ns)
    happened = set()

    def read(plan):
        disk = seam.Disk(ctx.scratch, "/dev/null")
        n = open_files()
        disk.start(plan)
        got = err = None
        try:
            got = Space.from_yaml(arg, **kw)
        except Exception as e:
            err = e
        fired = disk.fired()
        disk.stop()
        del disk
        if err is not None:
            err.__traceback__ = None
        ctx.check(open_files() <= n, "file-left-open", lambda: "%d files open, %d before" % (open_files(), n))
        for k, m in fired.items():
            ctx.fault("read_" + k, m)
            happened.add(k)
        return got, err, fired
    open(real).close()
    got, err, _ = read([])
    ctx.check(err is None, "refused", lambda: "%s: %s on\n%s" % (type(err).__name__, err, text[:600]))
    agrees(ctx, got, scn["space"], "plain")
    split = [(k, "err" if w == "EINTR" else "short", seam.ERRNO["EINTR"] if w == "EINTR" else a) for k, w, a in scn["splits"]]
    got2, err, fired = read(split)
    ctx.check(err is None, "refused-split", lambda: "transfers split: %s: %s" % (type(err).__name__, err))
    agrees(ctx, got2, scn["space"], "split")
    for k, e in scn["errs"]:
        g, err, fired = read([(k, "err", seam.ERRNO[e])])
        ctx.check(bool(fired) or err is None, "refused-without-fault", lambda: repr(err))
        if err is None:
            agrees(ctx, g, scn["space"], "error")
        ctx.ev("err", k, e, type(err).__name__)
    # unknown names are reported, the next attempt works as before
    ctx.sut_raises("missing-file", Space.from_yaml, os.path.join(ctx.scratch, "no such file"))
    if ns is not None:
        ctx.sut_raises("missing-namespace", Space.from_yaml, arg, namespace="no such space")
    got3, err, _ = read([])
    ctx.check(err is None, "refused-again", lambda: repr(err))
    agrees(ctx, got3, scn["space"], "again")
    with open(real, encoding="utf-8", newline="") as f:
        ctx.check(f.read() == text, "file-changed", "reading changed the file")
    # the file is written anew, in the same layout with the two spaces exchanged
    swapped = dict(scn, space=scn["other"], other=scn["space"])
    text2, _ = write(swapped, rng_for("c19", scn["seed"], 2))
    with open(real, "w", encoding="utf-8", newline="") as f:
        f.write(text2)
    got4, err, _ = read([])
    ctx.check(err is None, "refused-rewritten", lambda: repr(err))
    agrees(ctx, got4, scn["other"], "rewritten")
    # a space that was read works like one made by hand
    a, b = (Optimizer(s, "dummy", random_state=scn["rs"], acq_optimizer="sampling", n_initial_points=2)
            for s in (got2.dimensions, [world.build_dim(d) for d in scn["space"]]))
    for k in range(3):
        x, y = ctx.sut("ask", a.ask), b.ask()
        ctx.check(same(plain(x), plain(y)), "suggestion", lambda: "suggests %r, made by hand %r" % (x, y))
        why = member(plain(x), scn["space"])
        ctx.check(why is None, "not-a-member", lambda: why)
        ctx.sut("tell", a.tell, x, float(k))
        b.tell(y, float(k))
    # two readings share nothing
    got.set_transformer("normalize")
    agrees(ctx, got3, scn["space"], "shared")
    ctx.ev("space", repr(got2), scn["layout"], len(text), sorted(happened))
    ctx.cover.add("%s|%s|%s|%s|%s" % (scn["layout"], scn["style"], scn["form"], "".join(sorted({d["t"][0] for d in scn["space"]})),
                                      "+".join(sorted(happened))))
    if happened:
        ctx.count("nontrivial")
