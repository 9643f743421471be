"""Merging never couples or corrupts sketches; incompatible ones are refused."""

import copy
import pickle
import random

import numpy as np
import pandas as pd

from ..core import digest, nprng, pyrng
from ..stream import (Kind, Ref, batch, gen_batch_spec, ref_counts)

ID = "P03"
TITLE = "merging isolates sketches and refuses incompatible ones"
LEVEL = "exploration"
N_QUICK = 1800
RULE = ("one run = a seeded history of add / merge / copy / serialise / crash-"
        "restore / refused-merge / solve operations over a pool of sketches; "
        "after every operation every sketch of the pool is compared with its "
        "own exact reference; non-trivial when a merge happened; distinct by "
        "hash of the event log")
REAL = ["BinningProcessSketch", "OptimalBinningSketch", "BSketch", "BCatSketch", "GK", "tdigest",
        "solver"]
STUB = ["process crash (object dropped, restored from its pickle)"]
PROBES = ["compressing", "merge", "merge-empty", "refused", "deepcopy",
          "solve-in-history", "merge-into-fresh", "add-after-merge",
          "process"]


def generate(seed, tier="quick"):
    r = pyrng("p03", seed)
    obj = r.choice(["bnum", "bcat", "onum", "onum", "ocat", "ocat", "pnum",
                    "pcat"])
    kind = "cat" if obj.endswith("cat") else "num"
    cfg = {"obj": obj, "sketch": "gk" if r.random() < .8 else "t-digest",
           "np_codes": r.random() < 0.3, "eps": 1e-4, "codes": r.random() < 0.6, "prebins": 6,
           "cat_cutoff": r.choice([None, None, 0.08])
           if kind == "cat" else None, "trend": "auto"}
    if cfg["sketch"] == "t-digest":
        cfg["eps"] = 1e-3
    if kind == "num" and cfg["sketch"] == "gk" and r.random() < .35:
        # summaries that compress: answers are not exact, but still nobody
        # else's
        cfg["eps"] = r.choice([.04, .1, .2])
        cfg["coarse"] = True
    ops = []
    np_ = r.randint(2, 4)
    for _ in range(r.randint(6, 22)):
        o = r.choice(["add", "add", "add", "merge", "merge", "merge",
                      "restore", "fresh", "copy", "refuse", "solve"])
        op = {"op": o, "i": r.randrange(np_), "j": r.randrange(np_),
              "seed": r.randrange(1 << 40)}
        if o == "add":
            op["spec"] = gen_batch_spec(r, kind,
                                        200 if cfg.get("coarse") else 60)
        if o == "refuse":
            op["how"] = r.choice(["param", "param", "codes"])
        ops.append(op)
    return {"cfg": cfg, "pool": np_, "ops": ops}


class ProcKind(Kind):
    """A process of two variables, both fed the same column."""
    names = ("v", "w")

    def new(self, **over):
        from optbinning import BinningProcessSketch
        c = self.cfg
        codes = list(self.specials) if self.specials else None
        if codes and c.get("np_codes"):
            codes = np.array(codes, dtype=object if self.cat else float)
        kw = dict(variable_names=list(self.names),
                  categorical_variables=list(self.names) if self.cat else None,
                  max_n_prebins=c.get("prebins", 8), special_codes=codes,
                  binning_fit_params={v: {
                      "sketch": c["sketch"], "eps": c["eps"],
                      "cat_cutoff": c.get("cat_cutoff")} for v in self.names})
        kw.update(over)
        return BinningProcessSketch(**kw)

    def feed(self, obj, x, y):
        obj.add(pd.DataFrame({v: x for v in self.names}), y)

    def check_counts(self, ctx, obj, ref, where):
        for v in self.names:
            o = getattr(obj, "_binned_variables", {}).get(v)
            rc = super().check_counts(ctx, o, ref, "%s, %s" % (where, v))
        return rc

    def check_table(self, ctx, obj, rc, where, exact=True, eps=0.0):
        for v in self.names:
            super().check_table(ctx, obj.get_binned_variable(v), rc,
                                "%s, %s" % (where, v), exact, eps)


def execute(plan, ctx):
    random.seed(plan["seed"])
    proc = plan["cfg"]["obj"].startswith("p")
    kind = ProcKind(plan["cfg"]) if proc else Kind(plan["cfg"])
    if proc:
        ctx.probe("process")
    td = plan["cfg"]["sketch"] == "t-digest" and not kind.cat
    pool = [kind.new() for _ in range(plan["pool"])]
    refs = [Ref() for _ in pool]
    disk = [(pickle.dumps(o), Ref()) for o in pool]
    solved = [None] * len(pool)     # (fingerprint of the last solve)
    merged = set()

    coarse = plan["cfg"].get("coarse")
    prints = {}

    def verify_untouched(tag, touched):
        """Sketches an operation does not involve answer as before."""
        for k, o in enumerate(pool):
            f = fingerprint(o, kind)
            if k not in touched and k in prints:
                ctx.check(prints[k] == f, "other-sketch-changed",
                          lambda: "%s: sketch %d, not involved, answered %s, "
                          "now %s" % (tag, k, prints[k], f))
            prints[k] = f

    def verify_all(tag):
        for k, (o, rf) in enumerate(zip(pool, refs)):
            where = "%s, sketch %d" % (tag, k)
            rc = kind.check_counts(ctx, o, rf, where)
            c = copy.deepcopy(o)
            if kind.raw and not coarse:
                kind.check_bins(ctx, c, rc, where, nprng(plan["seed"], k),
                                slack=TD if td else 0.0)
                ctx.state(digest([rc["n"], rc["e"]]))

    def verify_solvable(tag):
        for k, (o, rf) in enumerate(zip(pool, refs)):
            if kind.raw:
                return
            where = "%s, sketch %d" % (tag, k)
            rc = kind.check_counts(ctx, o, rf, where)
            if kind.solvable(rc) and not coarse:
                c = copy.deepcopy(o)
                ctx.must("solve", c.solve)
                kind.check_table(ctx, c, rc, where, exact=not td, eps=TD)

    for n, op in enumerate(plan["ops"]):
        i, j = op["i"] % len(pool), op["j"] % len(pool)
        what = op["op"]
        ctx.event(n, what, i, j)
        if what == "add":
            x, y = batch(op["spec"])
            x0, y0 = x.copy(), y.copy()
            if proc:
                kind.feed(pool[i], x, y)
            else:
                pool[i].add(x, y)
            ctx.check(digest(x) == digest(x0) and digest(y) == digest(y0),
                      "input-modified", "add changed the caller's arrays")
            refs[i].add(x0, y0)
            # the caller may reuse its buffers
            if len(x):
                x[:] = None if x.dtype == object else -7777.25
                y[:] = 1 - y
            if i in merged:
                ctx.probe("add-after-merge")
        elif what == "merge":
            if i == j:
                continue
            if not refs[j].parts:
                ctx.probe("merge-empty")
            if not refs[i].parts:
                ctx.probe("merge-into-fresh")
            ctx.must("merge", pool[i].merge, pool[j])
            refs[i].merge(refs[j])
            ctx.probe("merge")
            ctx.nontrivial = True
            merged |= {i, j}
            if len(refs[i].parts) > 40:
                pool[i], refs[i] = kind.new(), Ref()
        elif what == "restore":
            b, rf = disk[i]
            pool[i], refs[i] = pickle.loads(b), rf.copy()
            solved[i] = None
            ctx.fault("crash-restart")
        elif what == "fresh":
            disk[i] = (pickle.dumps(pool[i]), refs[i].copy())
        elif what == "copy":
            if i != j:
                pool[j] = copy.deepcopy(pool[i])
                refs[j] = refs[i].copy()
                ctx.probe("deepcopy")
        elif what == "refuse":
            refuse(ctx, kind, plan, op, pool[i], refs[i])
        elif what == "solve":
            rc = ref_counts(*refs[i].data(), kind.specials)
            if not kind.raw and kind.solvable(rc):
                ctx.must("solve", pool[i].solve)
                ctx.probe("solve-in-history")
                if not coarse:
                    kind.check_table(ctx, pool[i], rc, "solve in history",
                                     exact=not td, eps=TD)
        verify_all("after %s" % what)
        if coarse:
            ctx.probe("compressing")
            verify_untouched("after %s" % what,
                             {i, j} if what in ("merge", "copy") else {i})
        if what in ("merge", "refuse", "copy", "restore"):
            verify_solvable("after %s" % what)
    verify_solvable("end")


TD = 0.05 / 6


def fingerprint(obj, kind):
    """What a copy of the sketch answers at fixed split points."""
    o = copy.deepcopy(obj)
    if kind.raw:
        inner = [o]
    elif isinstance(kind, ProcKind):
        inner = [b._bsketch for b in
                 getattr(o, "_binned_variables", {}).values()]
    else:
        inner = [getattr(o, "_bsketch", None)]
    out = []
    for b in inner:
        if b is None or not b.n:
            out.append(None)
            continue
        e, ne = b.bins(np.array([-3., -1., -.3, 0., .2, .4, .6, .8, 1., 3.,
                                 8.]))
        out.append([int(b.n), [int(v) for v in e], [int(v) for v in ne]])
    return out


def refuse(ctx, kind, plan, op, obj, ref):
    """A sketch with another signature must be refused, both unchanged."""
    from optbinning.binning.distributed.bsketch import BCatSketch, BSketch
    r = pyrng("refuse", op["seed"])
    cfg = plan["cfg"]
    if kind.raw:
        other = r.choice([[5.0], None if kind.specials else [7.0]])
        if kind.cat:
            alt = BCatSketch(cfg.get("cat_cutoff"), other)
        else:
            alt = r.choice([
                lambda: BSketch(cfg["sketch"], 0.25, 25, kind.specials),
                lambda: BSketch("t-digest" if cfg["sketch"] == "gk" else "gk",
                                cfg["eps"], 25, kind.specials),
                lambda: BSketch(cfg["sketch"], cfg["eps"], 99, kind.specials),
                lambda: BSketch(cfg["sketch"], cfg["eps"], 25, other)])()
            
    else:
        over = r.choice([
            {"max_n_prebins": 9}, {"eps": 0.3}, {"name": "other"},
            {"special_codes": [5.0] if not kind.cat else ["zz"]},
            {"divergence": "js"}, {"monotonic_trend": None},
            {"min_bin_size": 0.2}, {"max_n_bins": 3}, {"gamma": 0.5},
            {"max_pvalue": 0.3},
            {"dtype": "numerical" if kind.cat else "categorical"},
            {"cat_cutoff": 0.5}, {"time_limit": 3}])
        if isinstance(kind, ProcKind):
            over = r.choice([
                {"max_n_prebins": 9}, {"variable_names": ["v", "z"]},
                {"special_codes": [5.0] if not kind.cat else ["zz"]},
                {"min_bin_size": 0.2}, {"max_n_bins": 3},
                {"max_pvalue": 0.3}, {"binning_fit_params": None},
                {"binning_fit_params": {"v": {"max_n_bins": 2}}},
                {"categorical_variables": None if kind.cat else ["v"]}])
            if "variable_names" in over:
                over["categorical_variables"] = None
        alt = kind.new(**over)
    spec = dict(kind="cat" if kind.cat else "num", seed=op["seed"], n=9)
    x, y = batch(spec)
    if isinstance(kind, ProcKind):
        alt.add(pd.DataFrame({
            v: x if v in (alt.categorical_variables or []) else np.arange(9.)
            for v in alt.variable_names}), y)
    else:
        if not kind.raw and alt.dtype == "numerical" and kind.cat:
            x = np.arange(9.0)
        alt.add(x, y)
    if not kind.raw:
        ctx.check(not obj.mergeable(alt), "mergeable-wrong",
                  "mergeable() accepts sketches with other parameters")
    raised = False
    try:
        obj.merge(alt)
    except Exception:
        raised = True
    ctx.check(raised, "incompatible-merged",
              "merge accepted a sketch with another signature")
    ctx.probe("refused")
    kind.check_counts(ctx, obj, ref, "after refused merge")
    inner = alt if kind.raw else getattr(alt, "_bsketch", None)
    if inner is not None:
        ctx.check(int(inner.n) == 9, "refused-merge-touched-other",
                  "a refused merge changed the other sketch")
