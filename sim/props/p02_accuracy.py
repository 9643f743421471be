"""Sketch answers do not depend on how the data was partitioned."""

import copy
import pickle
import random

import numpy as np

from ..core import close, digest, nprng, pyrng
from ..stream import (Cluster, Kind, cat_counts, count_bins, gen_cluster,
                      gen_ops, ref_counts)

ID = "P02"
TITLE = "sketch answers match the data however it was partitioned"
LEVEL = "exploration"
N_QUICK = 1500
RULE = ("one run = one simulated cluster that partitions, delays, replays and "
        "re-merges generated batches under a seeded fault schedule, then "
        "compares the root with exact counts over the whole data and with a "
        "sketch fed the same data in one piece; non-trivial when a fault "
        "fired; distinct by hash of the event log")
REAL = ["OptimalBinningSketch", "BSketch", "BCatSketch", "GK", "tdigest",
        "OR-Tools solver", "pickle of sketches"]
STUB = ["network", "node disk", "input log", "delivery protocol"]
PROBES = ["exact-regime", "approximate-regime", "partition-invariant-solve",
          "quantile", "t-digest", "size-bound", "categorical"]
ASSUMPTIONS = [
    "Greenwald-Khanna is exact while eps*n <= 1 per class; beyond that the "
    "check accepts a cumulative rank error of 6*eps*n+2 (observed maximum on "
    "the shipped code about 3.4*eps*n)"]


def generate(seed, tier="quick"):
    r = pyrng("p02", seed)
    obj = r.choice(["bnum", "bnum", "bcat", "onum", "onum", "onum", "ocat"])
    kind = "cat" if obj.endswith("cat") else "num"
    regime = r.choice(["exact", "approx"])
    cfg = {"obj": obj,
           "sketch": "gk" if r.random() < 0.85 else "t-digest",
           "np_codes": r.random() < 0.3, "eps": 1e-4 if regime == "exact" else r.choice(
               [0.005, 0.01, 0.02, 0.05]),
           "codes": r.random() < 0.6, "prebins": r.choice([4, 8, 12, 20]),
           "cat_cutoff": r.choice([None, None, 0.08])
           if kind == "cat" else None,
           "cat_heuristic": kind == "cat" and r.random() < .5,
           "trend": r.choice(["auto", "auto_asc_desc", None, "ascending",
                              "peak", "valley"])}
    if cfg["sketch"] == "t-digest":
        cfg["eps"] = r.choice([1e-3, 0.01])
    cl = gen_cluster(r)
    big = regime == "approx" and cfg["sketch"] == "gk" and kind == "num"
    nmax = 60 if cfg["sketch"] == "t-digest" else (700 if big else 250)
    return {"cfg": cfg, "cluster": cl,
            "ops": gen_ops(r, kind, r.randint(3, 14), cl["workers"],
                           nmax=nmax, pop=r.randrange(1000),
                           k=r.choice([3, 5, 8, 12, 20]),
                           dist=r.choice([None, "normal", "exp", "ints",
                                          "uniform"]),
                           shape=r.choice([None, "up", "peak", "wave"]))}


def execute(plan, ctx):
    random.seed(plan["seed"])
    cfg = plan["cfg"]
    kind = Kind(cfg)
    rng = nprng("p02x", plan["seed"])

    def on_merge(node, other, oref):
        if rng.random() < 0.2:
            inspect(node.obj, node.ref, node.name)

    def inspect(obj, ref, where):
        rc = ref_counts(*ref.data(), kind.specials)
        o = copy.deepcopy(obj)
        n1 = int((rc["y"] == 1).sum())
        n0 = len(rc["y"]) - n1
        exact = kind.cat or (cfg["sketch"] == "gk" and
                             cfg["eps"] * (max(n0, n1) - 1) < 1)
        if cfg["sketch"] == "t-digest" and not kind.cat:
            ctx.probe("t-digest")
        if kind.cat:
            ctx.probe("categorical")
        else:
            ctx.probe("exact-regime" if exact else "approximate-regime")
        eps = cfg["eps"]
        if cfg["sketch"] == "t-digest" and not kind.cat:
            eps = TD_SLACK
        if kind.raw:
            kind.check_bins(ctx, o, rc, where, rng,
                            slack=0.0 if exact else eps)
            if not kind.cat and cfg["sketch"] == "gk" and n0 and n1:
                quantiles(o, rc, where)
        elif kind.solvable(rc):
            ctx.must("solve", o.solve)
            df = kind.check_table(ctx, o, rc, where, exact=exact, eps=eps)
            ctx.event("table", digest(df["Count"].to_numpy()))
            return o, rc, exact
        return None, rc, exact

    def quantiles(o, rc, where):
        m = o.merge_sketches()
        x = np.sort(rc["x"])
        n = len(x)
        tot_exact = cfg["eps"] * (n - 1) < 1
        for q in (0.0, 0.1, 0.25, 0.5, 0.75, 0.9, 1.0):
            v = m.quantile(q)
            lo = int(np.searchsorted(x, v, side="left"))
            hi = int(np.searchsorted(x, v, side="right"))
            want = q * (n - 1)
            lim = 1.0 if tot_exact else 6.0 * cfg["eps"] * n + 2
            err = max(0.0, lo - want, want - (hi - 1))
            ctx.check(hi > lo and err <= lim, "quantile-error",
                      lambda: "%s: quantile(%g)=%r has ranks [%d,%d), "
                      "expected about %.1f of %d" % (where, q, v, lo, hi,
                                                     want, n))
        ctx.probe("quantile")

    cl = Cluster(plan, ctx, kind, None, on_merge)
    root = cl.run()
    solved, rc, exact = inspect(root.obj, cl.all, "root")

    # bounded size: the summary must not keep the data
    if not kind.cat and cfg["sketch"] == "gk" and cfg["eps"] >= 0.02:
        n = len(rc["y"])
        if n > 600:
            per = entries_of(root.obj, kind)
            if per is not None:
                lim = 2 * (3.0 / cfg["eps"] * np.log2(
                    4 + cfg["eps"] * n) + 40) + 2 * (1 / cfg["eps"] + 1)
                ctx.probe("size-bound")
                ctx.check(per <= lim, "summary-too-large",
                          lambda: "%d bytes/40 for %d records, eps=%g, limit "
                          "%.0f" % (per, n, cfg["eps"], lim))

    # same data, one sketch, one call, other order
    if solved is not None:
        x, y = cl.all.data()
        p = rng.permutation(len(y)) if not kind.cat else np.arange(len(y))
        one = kind.new()
        one.add(x[p], y[p])
        ctx.must("solve", one.solve)
        ties = False
        if kind.cat:
            rates = [b / (a + b) for a, b in cat_counts(rc).values()]
            ties = len(set(rates)) < len(rates)
        if exact and not ties and (kind.cat or cfg["eps"] * (
                len(rc["y"]) - 1) < 1):
            ctx.probe("partition-invariant-solve")
            ctx.check(one.status == solved.status, "partition-status",
                      lambda: "status %s merged, %s in one piece" % (
                          solved.status, one.status))
            t1, t2 = one.binning_table.build(), solved.binning_table.build()
            ctx.check(tuple(t1["Count"]) == tuple(t2["Count"]) and
                      close(np.asarray(t1["WoE"][:-1], dtype=float),
                            np.asarray(t2["WoE"][:-1], dtype=float)),
                      "partition-table",
                      lambda: "merged table\n%s\none piece\n%s" % (t2, t1))
            ctx.check(kind.cat or close(one.splits, solved.splits),
                      "partition-splits", lambda: "splits %s / %s" % (
                          list(solved.splits), list(one.splits)))


TD_SLACK = 0.05 / 6


def entries_of(obj, kind):
    """Approximate number of stored tuples, from the serialized size."""
    o = copy.deepcopy(obj)
    return len(pickle.dumps(o)) / 60.0
