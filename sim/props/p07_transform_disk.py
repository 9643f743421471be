"""Transforming a file in chunks equals transforming it in memory."""

import io
import os
import random

import numpy as np
import pandas as pd

from ..core import INJECTED, InjectedOSError, SimCrash, digest, nprng, pyrng
from ..disk import Disk
from ..tabular import (dataset, differ, gen_dataset, gen_process,
                       make_process, observe)

ID = "P07"
TITLE = "out-of-core transform equals in-memory transform, faults included"
LEVEL = "exploration"
N_QUICK = 420
RULE = ("one run = one fitted process and a history of transform_disk calls "
        "on generated csv files (chunk sizes, metrics, stale outputs, disk "
        "faults at any read, write or open, crash, retry) compared with the "
        "in-memory transform of the same file; non-trivial when a disk fault "
        "fired; distinct by hash of the event log")
REAL = ["BinningProcess.transform_disk, fit_transform_disk, transform",
        "pandas csv reader and writer"]
STUB = ["disk (faults injected at open, read and write)"]
PROBES = ["fault-surfaced", "retry-ok", "stale-output", "unknown-category",
          "chunk-of-one", "chunk-divides", "crash", "refused",
          "metric-bins", "metric-indices", "fit-transform"]


def gen_metric(r, target):
    m = {"binary": [None, "woe", "event_rate", "indices", "bins"],
         "continuous": [None, "mean", "indices", "bins"],
         "multiclass": [None, "mean_woe", "weighted_mean_woe", "indices",
                        "bins"]}[target]
    k = {"metric": r.choice(m)}
    if r.random() < .4:
        k["metric_missing"] = r.choice(["empirical", 1.5, -2])
    if r.random() < .4:
        k["metric_special"] = r.choice(["empirical", 0.75, 3])
    if r.random() < .2:
        k["show_digits"] = r.choice([0, 4])
    return k


def generate(seed, tier="quick"):
    r = pyrng("p07", seed)
    spec = gen_dataset(r, codes=True, n=r.randint(40, 200))
    cfg = gen_process(r, spec)
    if r.random() < .5:
        cfg["criteria"] = None
    if r.random() < .5:
        cfg["transform"] = {}
    n_score = r.choice([1, 7, r.randint(2, 60), r.randint(60, 400)])
    ops = []
    for _ in range(r.randint(2, 5)):
        ops.append({
            "kind": r.choice([None, None, "open", "reio", "rshort", "enospc",
                              "enospc", "eio", "eio", "short", "crash",
                              "crash"]),
            "frac": round(r.random(), 4),
            "chunk": r.choice([1, 2, 3, 7, 16, n_score, n_score + 1,
                               max(1, n_score // 2), 1000]),
            "args": gen_metric(r, spec["target"]),
            "out": r.choice(["a.csv", "a.csv", "b.csv"])})
    return {"data": spec, "cfg": cfg, "ops": ops, "n_score": n_score,
            "unknown": r.random() < .4, "stale": r.random() < .3,
            "fit_transform": r.random() < .15,
            "sep": r.choice([",", ",", ";"])}


def execute(plan, ctx):
    random.seed(plan["seed"])
    np.random.seed(plan["seed"] % (1 << 31))
    df, y = dataset(plan["data"])
    names = list(df.columns)
    for n in names:
        # the level that makes the column text occurs in training
        if plan["data"]["cols"][n]["kind"] in ("catnum", "catfloat"):
            df.loc[0, n] = "X" if plan["data"]["cols"][n][
                "kind"] == "catnum" else "n/k"
    sub = ctx.scratch
    kw = {} if plan["sep"] == "," else {"sep": plan["sep"]}
    train = os.path.join(sub, "train.csv")
    full = df.copy()
    full["target"] = y
    full.to_csv(train, index=False, sep=plan["sep"])
    mem = pd.read_csv(train, low_memory=False, **kw)
    bp = make_process(names, plan["cfg"])
    try:
        bp.fit(mem[names], mem["target"].values)
    except ValueError:
        return
    cats = {n: str for n in names
            if plan["data"]["cols"][n]["kind"].startswith("cat")}
    score = os.path.join(sub, "score.csv")
    if plan["fit_transform"]:
        score = train
        ctx.probe("fit-transform")
    else:
        sdf, _ = dataset(dict(plan["data"], seed=plan["data"]["seed"] + 7,
                              n=max(plan["n_score"], 4)))
        sdf = sdf.iloc[:plan["n_score"]].copy()
        rng = nprng("p07", plan["seed"])
        if plan["unknown"]:
            for n in cats:
                m = rng.random(len(sdf)) < .2
                sdf.loc[m, n] = "ZZ"
                ctx.probe("unknown-category")
        extra = [n for n in sdf.columns] + ["unused"]
        sdf["unused"] = rng.integers(0, 9, len(sdf))
        sdf[list(np.array(extra)[rng.permutation(len(extra))])].to_csv(
            score, index=False, sep=plan["sep"])
    X = pd.read_csv(score, low_memory=False, dtype=cats, **kw)[names]
    with open(score, "rb") as f:
        source = f.read()
    before = observe(bp)
    disk = Disk(ctx, sub, plan["seed"])
    if plan["stale"]:
        for o in ("a.csv", "b.csv"):
            with open(os.path.join(sub, o), "w") as f:
                f.write("x0,x1\n" + "9,9\n" * 50)
        ctx.probe("stale-output")
    with disk.installed():
        for k, op in enumerate(plan["ops"]):
            out = os.path.join(sub, op["out"])
            args = dict(op["args"])
            want = refused = None
            try:
                want = bp.transform(X, **args)
            except ValueError as e:
                refused = e
            if want is not None and not len(want.columns
                                            if hasattr(want, "columns")
                                            else ()):
                return                # nothing selected: nothing to write
            if op["chunk"] == 1:
                ctx.probe("chunk-of-one")
            elif len(X) % op["chunk"] == 0:
                ctx.probe("chunk-divides")
            if args["metric"] in ("bins", "indices"):
                ctx.probe("metric-" + args["metric"])
            disk.arm()

            def call():
                if plan["fit_transform"] and k == 0:
                    make_process(names, plan["cfg"]).fit_transform_disk(
                        score, out, "target", op["chunk"], **args, **kw)
                else:
                    bp.transform_disk(score, out, op["chunk"], **args, **kw)

            if refused is not None:
                err = None
                try:
                    call()
                except ValueError as e:
                    err = e
                ctx.check(err is not None, "disk-accepts-what-memory-refuses",
                          lambda: "in memory: %r; transform_disk accepted" %
                          refused)
                ctx.probe("refused")
                continue
            old = _bytes(disk, out)
            if op["kind"]:
                # how many operations would a clean run need?
                dry = os.path.join(sub, "dry.csv")
                bp.transform_disk(score, dry, op["chunk"], **args, **kw)
                total = {"open": disk.n_open, "reio": disk.n_read,
                         "rshort": disk.n_read}.get(op["kind"], disk.n_write)
                clean = _bytes(disk, dry)
                at = min(int(op["frac"] * total), total - 1)
                disk.arm(op["kind"], at)
                err = None
                try:
                    bp.transform_disk(score, out, op["chunk"], **args, **kw)
                except INJECTED as e:
                    err = e
                fired, kind = disk.fired, op["kind"]
                disk.arm()
                ctx.event("fault", kind, at, fired, type(err).__name__)
                if err is None:
                    ctx.check(not fired or kind in ("short", "rshort"),
                              "io-error-swallowed",
                              lambda: "transform_disk finished although %s "
                              "struck at operation %d" % (kind, at))
                else:
                    ctx.check(isinstance(err, SimCrash if kind == "crash"
                                         else InjectedOSError),
                              "other-error", "%s became %r" % (kind, err))
                    ctx.probe("crash" if kind == "crash"
                              else "fault-surfaced")
                    left = _bytes(disk, out)
                    ok = left is None or left == old or \
                        clean.startswith(left)
                    ctx.check(ok, "wrong-rows-after-failure",
                              lambda: "after %s at operation %d the output "
                              "is neither the previous one nor the first "
                              "rows of the result:\n%r\nexpected to start "
                              "%r" % (kind, at, left[-200:], clean[:200]))
                    ctx.must("retry", bp.transform_disk, score, out,
                             op["chunk"], **args, **kw)
                    ctx.probe("retry-ok")
            else:
                ctx.must("transform_disk", call)
            compare(ctx, disk, out, want, args, op, k)
    with open(score, "rb") as f:
        ctx.check(f.read() == source, "input-modified",
                  "transform_disk changed its input file")
    k = differ(observe(bp), before)
    ctx.check(k is None, "process-modified",
              "transform_disk changed the fitted process: %s" % k)


def _bytes(disk, path):
    if not os.path.exists(path):
        return None
    with disk._orig(path, "rb") as f:
        return f.read()


def compare(ctx, disk, out, want, args, op, k):
    raw = _bytes(disk, out)
    text = args["metric"] == "bins" or want.dtypes.iloc[0] == object
    got = pd.read_csv(io.BytesIO(raw), float_precision="round_trip",
                      keep_default_na=not text, dtype=str if text else None)
    ctx.check(list(got.columns) == list(want.columns), "columns",
              lambda: "output has columns %s, transform gives %s" % (
                  list(got.columns), list(want.columns)))
    ctx.check(len(got) == len(want), "row-count",
              lambda: "chunk size %d: %d rows written for %d rows read" % (
                  op["chunk"], len(got), len(want)))
    for c in want.columns:
        a, b = got[c].to_numpy(), want[c].to_numpy()
        if text:
            bad = np.array([str(u) != str(v) for u, v in zip(a, b)])
        else:
            a, b = a.astype(float), b.astype(float)
            bad = ~((a == b) | (np.isnan(a) & np.isnan(b)))
        ctx.check(not bad.any(), "value",
                  lambda: "chunk size %d, %s: row %d of %s is %r on disk, %r "
                  "in memory" % (op["chunk"], args, int(np.argmax(bad)), c,
                                 a[np.argmax(bad)], b[np.argmax(bad)]))
    ctx.event("out", k, op["chunk"], digest(raw))
