"""A multi-variable sketch equals one sketch per variable."""

import contextlib
import copy
import io
import os
import random
import re

import numpy as np
import pandas as pd

from ..core import close, digest, nprng, pyrng, same
from ..refs import select
from ..stream import (Cluster, Ref, batch, gen_batch_spec, gen_cluster,
                      ref_counts)

ID = "P05"
TITLE = "multi-variable sketches equal one sketch per variable"
LEVEL = "exploration"
N_QUICK = 420
RULE = ("one run = one simulated cluster of multi-variable sketches with "
        "columns appearing and disappearing per batch, merges, crashes and "
        "retries; the root is compared variable by variable with independent "
        "sketches; non-trivial when a fault fired; distinct by hash of the "
        "event log")
REAL = ["BinningProcessSketch", "OptimalBinningSketch", "GK", "BCatSketch",
        "variable selection", "transform", "save/load", "solver"]
STUB = ["network", "node disk", "delivery protocol"]
PROBES = ["missing-column", "selection", "merge-not-started", "transform",
          "save-load", "solve-midway"]

CODES = [-999.0, -998.0]


def generate(seed, tier="quick"):
    r = pyrng("p05", seed)
    nv = r.randint(2, 4)
    names = ["v%d" % i for i in range(nv)]
    r.shuffle(names)
    cats = [n for n in names if r.random() < 0.35]
    cl = gen_cluster(r, r.randint(2, 4))
    crit = r.choice([None, None, {"iv": {"min": 0.02}},
                     {"iv": {"strategy": "highest", "top": 0.5}},
                     {"gini": {"min": 0.05, "max": 0.9}},
                     {"iv": {"min": 0.001}, "js": {"strategy": "highest",
                                                   "top": 2}},
                     {"quality_score": {"strategy": "lowest", "top": 1}}])
    fitp = {}
    tp = {}
    for n in names:
        if r.random() < 0.4:
            fitp[n] = r.choice([{"max_n_bins": 3}, {"monotonic_trend": None},
                                {"max_n_prebins": 5}, {"divergence": "js"}])
        if r.random() < 0.4:
            tp[n] = r.choice([{"metric": "event_rate"}, {"metric": "woe"},
                              {"metric_missing": "empirical"},
                              {"metric_special": 3.5},
                              {"metric_missing": -4.25,
                               "metric_special": "empirical"}])
    cfg = {"names": names, "cats": cats, "criteria": crit, "fit": fitp,
           "transform": tp, "prebins": r.choice([4, 8]),
           "codes": r.random() < 0.6, "max_bin_size": r.choice([None, 0.9]),
           "min_bin_size": r.choice([None, None, 0.1]),
           "max_n_bins": r.choice([None, None, 4]),
           "max_pvalue": r.choice([None, None, 0.4])}
    ops = []
    pops = {n: (r.randrange(1000), r.choice([3, 5, 8]),
                r.choice(["normal", "ints", "exp", "uniform"]),
                r.choice(["up", "down", "peak", "flat"])) for n in names}
    for i in range(r.randint(4, 10)):
        n = r.choice([1, 5, r.randint(20, 120), r.randint(20, 120)])
        spec = {"n": n, "seed": r.randrange(1 << 40), "cols": {},
                "shuffle": r.random() < .3, "index": r.random() < .3,
                "extra": r.random() < .2}
        for v in names:
            if i and r.random() < 0.2:
                continue
            s = gen_batch_spec(r, "cat" if v in cats else "num", n=n)
            s.pop("only", None)
            s.pop("order", None)
            if v in cats:
                s.update(pop=pops[v][0], k=pops[v][1])
            else:
                s.update(dist=pops[v][2], shape=pops[v][3])
            spec["cols"][v] = s
        ops.append({"op": "batch", "w": r.randrange(cl["workers"]),
                    "spec": spec})
    for _ in range(r.choice([0, 1, 2, 3])):
        ops.append({"op": "crash", "t": round(r.uniform(0.5, 30), 3),
                    "node": r.randrange(16),
                    "down": round(r.uniform(0.5, 10), 3)})
    return {"cfg": cfg, "cluster": cl, "ops": ops}


def frame(spec):
    cols = {}
    y = None
    rng = nprng("frame", spec["seed"])
    ys = []
    for v, s in spec["cols"].items():
        x, yy = batch(s)
        cols[v] = x
        ys.append(yy)
    if ys:
        k = rng.integers(0, len(ys), spec["n"])
        y = np.array([ys[k[i]][i] for i in range(spec["n"])], dtype=np.int64)
    else:
        y = rng.integers(0, 2, spec["n"])
    df = pd.DataFrame(cols, index=range(spec["n"]))
    for v, s in spec["cols"].items():
        if s["kind"] == "cat":
            df[v] = df[v].astype(object)
            df[v] = [None if a is None else a for a in cols[v]]
    if spec.get("extra"):
        df["unrelated"] = 1.5
    if spec.get("shuffle"):
        df = df[list(df.columns)[::-1]]
    if spec.get("index"):
        df.index = rng.permutation(len(df)) + 1000
    return df, y


class PKind:
    raw = False
    cat = False

    def __init__(self, cfg):
        self.cfg = cfg
        self.codes = list(CODES) if cfg["codes"] else None

    def common(self):
        c = self.cfg
        return dict(max_n_prebins=c["prebins"], special_codes=self.codes,
                    min_bin_size=c["min_bin_size"],
                    max_bin_size=c["max_bin_size"],
                    max_n_bins=c["max_n_bins"], max_pvalue=c["max_pvalue"])

    def new(self):
        from optbinning import BinningProcessSketch
        c = self.cfg
        return BinningProcessSketch(
            list(c["names"]), categorical_variables=list(c["cats"]) or None,
            selection_criteria=copy.deepcopy(c["criteria"]),
            binning_fit_params=copy.deepcopy(c["fit"]) or None,
            binning_transform_params=copy.deepcopy(c["transform"]) or None,
            **self.common())

    def twin(self, name):
        from optbinning import OptimalBinningSketch
        o = OptimalBinningSketch(
            name=name, dtype="categorical" if name in self.cfg["cats"]
            else "numerical", **self.common())
        o.set_params(**self.cfg["fit"].get(name, {}))
        return o


class PCluster(Cluster):
    def fetch(self, spec):
        return frame(spec)


def execute(plan, ctx):
    random.seed(plan["seed"])
    cfg = plan["cfg"]
    kind = PKind(cfg)
    rng = nprng("p05x", plan["seed"])

    def on_merge(node, other, oref):
        if len(node.ref.parts) == len(oref.parts):
            ctx.probe("merge-not-started")
        if node.name == "root" and rng.random() < .15:
            inspect(node.obj, node.ref, "root midway")

    def inspect(obj, ref, where):
        ok = {}
        for v in cfg["names"]:
            xs = [(p[0][v].to_numpy(), p[1]) for p in ref.parts
                  if v in p[0].columns]
            if not xs:
                return
            rc = ref_counts(np.concatenate([a for a, _ in xs]),
                            np.concatenate([b for _, b in xs]), kind.codes)
            if not (len(rc["y"]) > 1 and rc["y"].min() == 0 and
                    rc["y"].max() == 1):
                return
            ok[v] = (xs, rc)
            if len(xs) < len(ref.parts):
                ctx.probe("missing-column")
        before = digest([list(p[0].columns) for p in ref.parts])
        obj = copy.deepcopy(obj) if where != "root" else obj
        ctx.must("solve", obj.solve)
        if where != "root":
            ctx.probe("solve-midway")
        stats = {}
        twins = {}
        for v, (xs, rc) in ok.items():
            t = kind.twin(v)
            for x, y in xs:
                t.add(x, y)
            ctx.must("solve-twin", t.solve)
            twins[v] = t
            o = obj.get_binned_variable(v)
            a, b = o.binning_table.build(), t.binning_table.build()
            ctx.check(o.status == t.status and same(
                a["Count"].to_numpy(), b["Count"].to_numpy()) and same(
                a["Event"].to_numpy(), b["Event"].to_numpy()) and list(
                a["Bin"].astype(str)) == list(b["Bin"].astype(str)),
                "variable-differs", lambda: "%s: variable %s\n%s\nalone\n%s"
                % (where, v, a, b))
            ctx.check(int(a["Count"].iloc[-1]) == rc["n"] and
                      int(a["Event"].iloc[-1]) == rc["e"], "variable-totals",
                      lambda: "%s: variable %s totals %d/%d, fed %d/%d" % (
                          where, v, a["Count"].iloc[-1], a["Event"].iloc[-1],
                          rc["n"], rc["e"]))
            t.binning_table.analysis(print_output=False)
            bt = t.binning_table
            stats[v] = {"iv": bt.iv, "js": bt.js, "gini": bt.gini,
                        "quality_score": bt.quality_score}
            ctx.event(v, digest(a["Count"].to_numpy()))
        stats = {v: stats[v] for v in cfg["names"]}
        # summary and selection
        sm = obj.summary().set_index("name")
        for v in cfg["names"]:
            for m in ("iv", "js", "gini", "quality_score"):
                ctx.check(close(float(sm.loc[v, m]), stats[v][m]),
                          "summary-metric", lambda: "%s: %s %s=%r expected %r"
                          % (where, v, m, sm.loc[v, m], stats[v][m]))
        want = select(cfg["names"], {v: {m: stats[v][m] for m in (
            "iv", "js", "gini", "quality_score")} for v in cfg["names"]},
            cfg["criteria"])
        sup = obj.get_support()
        if want is not None:
            if cfg["criteria"]:
                ctx.probe("selection")
            ctx.check(list(sup) == list(want), "selection",
                      lambda: "%s: support %s expected %s" % (
                          where, list(sup), list(want)))
            ctx.check(list(obj.get_support(names=True)) ==
                      [n for n, w in zip(cfg["names"], want) if w],
                      "selection-names", "names disagree with mask")
        # information counts what was fed
        n = sum(len(p[1]) for p in ref.parts)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            obj.information(print_level=1)
        m = re.search(r"Number of records\s+(\d+)", out.getvalue())
        if m:
            ctx.check(int(m.group(1)) == n, "reported-records",
                      lambda: "%s: information reports %s records, %d fed" % (
                          where, m.group(1), n))
        m = re.search(r"Add operations\s+(\d+)", out.getvalue())
        if m:
            ctx.check(int(m.group(1)) == len(ref.parts), "reported-adds",
                      lambda: "%s: %s add operations reported, %d made" % (
                          where, m.group(1), len(ref.parts)))
        ctx.check(digest([list(p[0].columns) for p in ref.parts]) == before,
                  "input-modified", "caller frames changed")
        # transform
        full = [p[0] for p in ref.parts if set(cfg["names"]) <=
                set(p[0].columns)]
        if full and sup.any():
            X = full[int(rng.integers(0, len(full)))]
            for metric in ("woe", "event_rate"):
                got = obj.transform(X, metric=metric, metric_missing=1.25,
                                    metric_special=-2.5)
                names = [v for v, s in zip(cfg["names"], sup) if s]
                ctx.check(list(got.columns) == names and len(got) == len(X),
                          "transform-shape", "%s: columns %s" % (
                              where, list(got.columns)))
                for v in names:
                    p = cfg["transform"].get(v, {})
                    w = twins[v].transform(
                        X[v], metric=p.get("metric", metric),
                        metric_missing=p.get("metric_missing", 1.25),
                        metric_special=p.get("metric_special", -2.5))
                    ctx.check(close(got[v].to_numpy(), np.asarray(w)),
                              "transform", lambda: "%s: %s of %s with %s: %s "
                              "expected %s" % (where, metric, v, p,
                                               got[v].to_numpy(), w))
                ctx.probe("transform")
                ctx.event("t", digest(got.to_numpy()))
            # durable copy answers the same
            path = os.path.join(ctx.scratch, "p.pkl")
            obj.save(path)
            o2 = type(obj).load(path)
            ctx.check(same(o2.transform(X).to_numpy(),
                           obj.transform(X).to_numpy()),
                      "save-load", "reloaded sketch transforms differently")
            ctx.probe("save-load")

    cl = PCluster(plan, ctx, kind, None, on_merge)
    root = cl.run()
    inspect(root.obj, root.ref, "root")
    ctx.check(len(root.ref.parts) == len(cl.all.parts), "lost-batches",
              "root misses batches")
