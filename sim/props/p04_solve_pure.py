"""Solving mid-stream is a pure observation of the data so far."""

import contextlib
import copy
import io
import pickle
import random

import numpy as np

from ..core import close, digest, nprng, pyrng, same
from ..solver import SolverSim
from ..stream import (Kind, Ref, batch, gen_batch_spec, ref_counts)

ID = "P04"
TITLE = "solving mid-stream only observes the data added so far"
LEVEL = "exploration"
OWN_SOLVER = True
N_QUICK = 900
RULE = ("one run = one stream of adds and merges with solves, transforms, "
        "table reads, solver deadlines and crash-restores at seeded points; "
        "each solve is compared with a fresh sketch fed the same records; "
        "non-trivial when at least two solves happened; distinct by hash of "
        "the event log")
REAL = ["OptimalBinningSketch", "BSketch", "BCatSketch", "GK", "BinningTable",
        "transformations", "CP-SAT (one worker)"]
STUB = ["solver deadline", "process crash (pickle round trip)"]
PROBES = ["solve", "solve-after-deadline", "stale-read", "crash-restart",
          "cat-heuristic", "min-event-filter", "refused-unsolved"]


def generate(seed, tier="quick"):
    r = pyrng("p04", seed)
    obj = r.choice(["onum", "onum", "ocat"])
    kind = "cat" if obj == "ocat" else "num"
    pop, k = r.randrange(1000), r.choice([3, 5, 8, 12, 20])
    cfg = {"obj": obj, "sketch": "gk", "eps": 1e-4, "codes": r.random() < .7,
           "prebins": r.choice([4, 8, 12]),
           "cat_cutoff": r.choice([None, 0.05, 0.12])
           if kind == "cat" else None,
           "cat_heuristic": kind == "cat" and r.random() < .4,
           "divergence": r.choice(["iv", "iv", "js", "hellinger",
                                   "triangular"]),
           "trend": r.choice(["auto", "auto", "ascending", "descending",
                              "auto_asc_desc", "peak", "valley", None]),
           "extra": r.choice([{}, {}, {"min_bin_n_event": 3},
                              {"max_pvalue": 0.2}, {"min_bin_size": 0.1},
                              {"min_bin_n_event": 5,
                               "min_bin_n_nonevent": 5},
                              {"max_n_bins": 3}, {"split_digits": 1}])}
    if kind == "cat":
        cfg["extra"].pop("split_digits", None)
    ops = []
    for _ in range(r.randint(6, 16)):
        o = r.choice(["add", "add", "add", "merge", "solve", "solve", "read",
                      "restore", "deadline"])
        op = {"op": o, "seed": r.randrange(1 << 40)}
        if o in ("add", "merge"):
            op["spec"] = gen_batch_spec(r, kind, 150)
            if kind == "cat":
                op["spec"].update(pop=pop, k=k)
        ops.append(op)
    ops.append({"op": "solve", "seed": 1})
    return {"cfg": cfg, "ops": ops}


def answers(o, xs):
    """Everything a user reads from a solved sketch."""
    t = o.binning_table.build()
    out = {"status": o.status, "count": t["Count"].to_numpy(),
           "event": t["Event"].to_numpy(),
           "woe": t["WoE"].iloc[:-1].to_numpy(dtype=float),
           "bin": t["Bin"].astype(str).to_numpy(dtype=object)}
    for m in ("woe", "event_rate", "indices"):
        out[m + "@"] = np.asarray(o.transform(
            xs, metric=m, metric_special="empirical",
            metric_missing="empirical"))
    return out


def compare(ctx, a, b, cls, where):
    for k in a:
        ok = close(a[k], b[k]) if isinstance(a[k], np.ndarray) \
            else a[k] == b[k]
        ctx.check(ok, cls, lambda: "%s: %s is %s, expected %s" % (
            where, k, a[k], b[k]), key=cls)


def execute(plan, ctx):
    random.seed(plan["seed"])
    cfg = plan["cfg"]
    kind = Kind(cfg)
    sim = SolverSim(ctx, seed=7)
    o = kind.new(**cfg["extra"])
    ref = Ref()
    xs = None
    last = None
    n_solve = 0
    since = 0
    with sim.installed():
        for n, op in enumerate(plan["ops"]):
            w = op["op"]
            ctx.event(n, w)
            if w == "add":
                x, y = batch(op["spec"])
                o.add(x, y)
                ref.add(x, y)
                since += 1
            elif w == "merge":
                x, y = batch(op["spec"])
                p = kind.new(**cfg["extra"])
                p.add(x, y)
                prc = ref_counts(x, y, kind.specials)
                if op["seed"] % 3 == 0 and kind.solvable(prc):
                    ctx.must("solve-other", p.solve)
                o.merge(p)
                ref.add(x, y)
                since += 1
            elif w in ("solve", "deadline"):
                rc = ref_counts(*ref.data(), kind.specials)
                if not kind.solvable(rc):
                    continue
                if w == "deadline":
                    sim.mode = "nosol"
                ctx.must("solve", o.solve)
                sim.mode = "full"
                n_solve += 1
                xs = probe(ref, kind, op["seed"])
                last = answers(o, xs)
                since = 0
                if w == "deadline":
                    ctx.probe("solve-after-deadline")
                    kind.check_table(ctx, o, rc, "solve %d" % n)
                    continue
                ctx.probe("solve")
                kind.check_table(ctx, o, rc, "solve %d" % n,
                                 ) if not cfg["extra"].get("split_digits") \
                    else None
                twin = kind.new(**cfg["extra"])
                x, y = ref.data()
                twin.add(x, y)
                ctx.must("solve-twin", twin.solve)
                compare(ctx, last, answers(twin, xs), "solve-depends-on-"
                        "history", "solve at step %d" % n)
                ctx.event(digest(last["count"]))
                ctx.state(digest(last["count"]))
                if cfg.get("cat_heuristic"):
                    ctx.probe("cat-heuristic")
                if cfg["extra"].get("min_bin_n_event"):
                    ctx.probe("min-event-filter")
            elif w == "read":
                if last is None:
                    if not n_solve:
                        ok = False
                        try:
                            o.transform(np.array([1.0]))
                        except Exception as e:
                            ok = type(e).__name__ in ("NotSolvedError",
                                                      "NotFittedError")
                        ctx.check(ok, "answers-before-solve",
                                  "transform before the first solve")
                        ctx.probe("refused-unsolved")
                    continue
                with contextlib.redirect_stdout(io.StringIO()):
                    o.information(print_level=op["seed"] % 3)
                if since:
                    ctx.probe("stale-read")
                compare(ctx, answers(o, xs), last, "answer-changed-without-"
                        "solve", "read at step %d" % n)
            elif w == "restore":
                o = pickle.loads(pickle.dumps(o))
                ctx.fault("crash-restart")
                if last is not None:
                    compare(ctx, answers(o, xs), last, "answer-lost-in-"
                            "restart", "restart at step %d" % n)
            kind.check_counts(ctx, o, ref, "step %d" % n)
    ctx.nontrivial = n_solve >= 2


def probe(ref, kind, seed):
    rng = nprng("probe", seed)
    x, _ = ref.data()
    k = rng.integers(0, len(x), 30)
    xs = x[k]
    if kind.cat:
        return np.concatenate([xs, np.array(["never-seen", None, "SPEC"],
                                            dtype=object)])
    return np.concatenate([xs, [np.nan, -999.0, 1e9, -1e9]])
