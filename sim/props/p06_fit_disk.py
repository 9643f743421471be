"""Fitting from a file equals fitting the same data in memory."""

import os
import random

import numpy as np
import pandas as pd

from ..core import INJECTED, InjectedOSError, digest, nprng, pyrng
from ..disk import Disk
from ..tabular import (dataset, differ, gen_dataset, gen_process,
                       make_process, observe)

ID = "P06"
TITLE = "fitting from disk equals fitting in memory, faults included"
LEVEL = "exploration"
N_QUICK = 360
RULE = ("one run = one generated csv file, one process fitted from it through "
        "the simulated disk (open failures, read errors, short reads, "
        "retries, refits) and compared with an in-memory fit of the same "
        "table; non-trivial when a disk fault fired; distinct by hash of the "
        "event log")
REAL = ["BinningProcess.fit_disk and fit", "pandas csv reader",
        "all binary/continuous/multiclass binnings", "solver"]
STUB = ["disk (faults injected at open and read)"]
PROBES = ["rewritten-in-place", "fault-surfaced", "retry-ok", "refit-after-fault", "separator",
          "dotted-path", "target-binary", "target-continuous",
          "target-multiclass"]


def generate(seed, tier="quick"):
    r = pyrng("p06", seed)
    spec = gen_dataset(r, codes=True, n=r.randint(40, 300))
    cfg = gen_process(r, spec)
    ops = []
    for _ in range(r.randint(1, 3)):
        ops.append({"op": r.choice(["fit", "fit", "fault", "fault"]),
                    "kind": r.choice(["open", "open", "reio", "rshort"]),
                    "at": r.randint(0, 2 * len(spec["cols"]) + 1)})
    ops.append({"op": "fit"})
    return {"data": spec, "cfg": cfg, "ops": ops,
            "sep": r.choice([",", ",", ";", "\t"]),
            "dir": r.choice(["", "", "v1.2"]),
            "prior": r.random() < .35,
            "in_place": r.random() < .5}


def execute(plan, ctx):
    random.seed(plan["seed"])
    np.random.seed(plan["seed"] % (1 << 31))
    df, y = dataset(plan["data"])
    t = plan["data"]["target"]
    ctx.probe("target-" + t)
    names = list(df.columns)
    full = df.copy()
    full["target"] = y
    rng = nprng("p06", plan["seed"])
    full = full[list(np.array(list(full.columns))[rng.permutation(
        full.shape[1])])]
    d = os.path.join(ctx.scratch, plan["dir"])
    os.makedirs(d, exist_ok=True)
    if plan["dir"]:
        ctx.probe("dotted-path")
    path = os.path.join(d, "train.csv")
    full.to_csv(path, index=False, sep=plan["sep"])
    kw = {} if plan["sep"] == "," else {"sep": plan["sep"]}
    if kw:
        ctx.probe("separator")
    mem = pd.read_csv(path, low_memory=False, **kw)
    try:
        ref = make_process(names, plan["cfg"]).fit(mem[names],
                                                   mem["target"].values)
    except ValueError as e:
        # outside the domain in memory: must be refused from disk as well
        bad = None
        try:
            make_process(names, plan["cfg"]).fit_disk(path, "target", **kw)
        except Exception as e2:
            bad = e2
        ctx.check(type(bad) is type(e), "disk-accepts-what-memory-refuses",
                  "in memory: %r, from disk: %r" % (e, bad))
        return
    want = observe(ref, mem[names], (None,))
    if plan.get("in_place"):
        # the file holds other records of the same size first
        ctx.probe("rewritten-in-place")
        with open(path, "rb") as f:
            lines = f.read().splitlines(keepends=True)
        rows = [lines[1 + i].rstrip(b"\n").split(plan["sep"].encode())
                for i in range(len(lines) - 1)]
        j = rng.integers(len(rows[0]))
        v = [w[j] for w in rows]
        old = [plan["sep"].encode().join(w[:j] + [v[len(v) - 1 - i]] +
                                         w[j + 1:]) + b"\n"
               for i, w in enumerate(rows)]
        with open(path, "wb") as f:
            f.write(lines[0] + b"".join(old))
        try:
            make_process(names, plan["cfg"]).fit_disk(path, "target", **kw)
        except Exception as e:
            if isinstance(e, INJECTED):
                raise
        with open(path, "wb") as f:
            f.write(b"".join(lines))
    disk = Disk(ctx, ctx.scratch, plan["seed"])
    bp = make_process(names, plan["cfg"])
    if plan["prior"]:
        # an object that already served another file
        other = dict(plan["data"], seed=plan["data"]["seed"] + 1)
        odf, oy = dataset(other)
        odf["target"] = oy
        opath = os.path.join(d, "old.csv")
        odf.to_csv(opath, index=False)
        try:
            bp.fit_disk(opath, "target")
        except ValueError:
            bp = make_process(names, plan["cfg"])
    with disk.installed():
        for k, op in enumerate(plan["ops"]):
            if op["op"] == "fit":
                disk.arm()
                ctx.must("fit_disk", bp.fit_disk, path, "target", **kw)
                check_same(ctx, bp, want, mem[names], "fit %d" % k)
                ctx.probe("retry-ok" if k else "first-fit")
                continue
            disk.arm(op["kind"], op["at"])
            err = None
            try:
                bp.fit_disk(path, "target", **kw)
            except INJECTED as e:
                err = e
            fired = disk.fired
            disk.arm()
            ctx.event("fault", op["kind"], op["at"], fired,
                      type(err).__name__)
            if err is None:
                ctx.check(not fired or op["kind"] == "rshort",
                          "read-error-swallowed",
                          lambda: "fit_disk finished although the file could "
                          "not be read (%s at operation %d)" % (
                              op["kind"], op["at"]))
                check_same(ctx, bp, want, mem[names], "fit under %s" %
                           op["kind"])
            else:
                ctx.check(isinstance(err, InjectedOSError), "other-error",
                          "disk error reported as %r" % err)
                ctx.probe("fault-surfaced")
                # an unfinished fit must not answer
                answered = None
                try:
                    answered = bp.transform(mem[names])
                except Exception:
                    pass
                ctx.check(answered is None, "answers-after-failed-fit",
                          "transform answers after fit_disk failed")


def check_same(ctx, bp, want, X, where):
    got = observe(bp, X, (None,))
    k = differ(got, want)
    ctx.check(k is None, "disk-differs-from-memory",
              lambda: "%s: %s from disk\n%s\nin memory\n%s" % (
                  where, k, got.get(k), want.get(k)))
    ctx.event(where, digest([got["table:" + n]["Count"].to_numpy()
                             for n in bp.variable_names]))
