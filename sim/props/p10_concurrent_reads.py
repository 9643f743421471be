"""Concurrent readers of one fitted object get the sequential answers."""

import random

import numpy as np

from ..core import INJECTED, digest, pyrng
from ..families import Fam, gen_fam, outcome, veq
from ..sched import Profile, Sched, gen_switches

ID = "P10"
TITLE = "concurrent readers of a fitted object get the sequential answers"
LEVEL = "exploration"
N_QUICK = 2000
RULE = ("one run = one fitted estimator of any family shared by 2-4 reader "
        "tasks (transform, score, tables, analyses, reports, with different "
        "arguments) under a seeded line-level interleaving; every answer "
        "equals the sequential one; non-trivial when a preemption happened; "
        "distinct by hash of the event log")
REAL = ["every estimator of the package", "solvers", "pandas", "sklearn"]
STUB = ["thread scheduling (one task at a time, switches at source lines)"]
PROBES = ["mixed-reads", "same-read", "transform", "table", "score",
          "same-request-other-input"]


def generate(seed, tier="quick"):
    r = pyrng("p10", seed)
    fam = gen_fam(r, small=True)
    same = r.random() < .3
    base = r.randrange(1000)
    tasks = [[base if same else r.randrange(1000)
              for _ in range(r.choice([1, 1, 2, 3]))]
             for _ in range(r.randint(2, 4))]
    pair = r.random() < .35
    return {"fam": fam, "tasks": tasks, "rot": r.randrange(3),
            "pair": r.randrange(1000) if pair else None,
            "ops": gen_switches(r)}


def variants(fam, d, rot):
    """Reads with argument variants: other inputs, other metrics."""
    reads = fam.reads(d)
    out = list(reads)
    if fam.name == "cf":
        return out
    X = fam.xnew(d)
    if isinstance(X, tuple):
        Xr = tuple(a[rot + 1:][::-1] for a in X)
    elif hasattr(X, "iloc"):
        Xr = X.iloc[rot + 1:].iloc[::-1]
    else:
        Xr = X[rot + 1:][::-1]
    if fam.name == "scorecard":
        out.append(("score-rev", lambda o: o.score(Xr)))
    elif fam.name == "process":
        for m in ("indices", "bins"):
            out.append(("transform-rev:" + m, lambda o, m=m: o.transform(
                Xr, metric=m)))
        out.append(("transform-miss", lambda o: o.transform(
            Xr, metric_missing="empirical", metric_special=1.25)))
    elif fam.name == "psketch":
        out.append(("transform-rev", lambda o: o.transform(
            Xr, metric_missing="empirical")))
    elif fam.name != "monitor":
        for m in fam.metrics():
            def f(o, m=m):
                if isinstance(Xr, tuple):
                    return o.transform(*Xr, metric=m)
                return o.transform(Xr, **({} if m is None else
                                          {"metric": m}))
            out.append(("transform-rev:%s" % m, f))
    return out


def pairs(fam, d):
    """The same request for two inputs of the same size."""
    out = []
    X = fam.xnew(d)
    if isinstance(X, tuple):
        Xr = tuple(a[::-1].copy() for a in X)
    elif hasattr(X, "iloc"):
        Xr = X.iloc[::-1]
    else:
        Xr = X[::-1].copy()
    if fam.name in ("scorecard",):
        ms = ("score", "predict", "predict_proba", "transform")
        return [tuple((m + k, lambda o, m=m, Z=Z: getattr(o, m)(Z))
                      for k, Z in (("", X), ("-rev", Xr))) for m in ms]
    if fam.name in ("monitor", "cf"):
        return out
    for m in fam.metrics() or [None]:
        kw = {} if m is None else {"metric": m}
        out.append(tuple(("transform%s:%s" % (k, m), lambda o, Z=Z, kw=kw: (
            o.transform(*Z, **kw) if isinstance(Z, tuple)
            else o.transform(Z, **kw))) for k, Z in (("", X), ("-rev", Xr))))
    return out


def execute(plan, ctx):
    random.seed(plan["seed"])
    np.random.seed(plan["seed"] % (1 << 31))
    fam = Fam(plan["fam"])
    d = fam.data(0)
    o = fam.new()
    twin = fam.new()
    try:
        fam.fit(o, d)
        fam.fit(twin, fam.data(0))
    except Exception as e:
        if isinstance(e, INJECTED):
            raise
        ctx.probe("unfit")
        return
    reads = variants(fam, d, plan["rot"])
    if plan.get("pair") is not None:
        ps = pairs(fam, d)
        if ps:
            reads = list(ps[plan["pair"] % len(ps)])
            ctx.probe("same-request-other-input")
            for i, t in enumerate(plan["tasks"]):
                t[0] = i
    want = {}
    prof = Profile(ctx)

    def sequential():
        for t in plan["tasks"]:
            for i in t:
                k, f = reads[i % len(reads)]
                want[k] = outcome(f, twin)
    t = prof.run(sequential)
    if t.error is not None:
        raise t.error
    sched = Sched(ctx, prof.place(plan["ops"]), plan["seed"])
    got = []

    def reader(idx):
        def body():
            for i in idx:
                k, f = reads[i % len(reads)]
                got.append((k, outcome(f, o)))
        return body
    for idx in plan["tasks"]:
        sched.spawn(reader(idx))
    sched.run()
    for t in sched.tasks:
        if t.error is not None:
            raise t.error
    ks = [k for k, _ in got]
    ctx.probe("same-read" if len(set(ks)) == 1 else "mixed-reads")
    for k, v in got:
        for p in ("transform", "table", "score"):
            if k.startswith(p):
                ctx.probe(p)
        ctx.check(veq(v, want[k]), "concurrent-read-differs",
                  lambda: "%s: %s gives\n%s\nsequentially\n%s" % (
                      fam.name, k, v, want[k]))
    # what the readers did is not visible afterwards
    for k, f in reads:
        a, b = outcome(f, o), outcome(f, twin)
        ctx.check(veq(a, b), "state-changed-by-readers",
                  lambda: "%s: %s gives\n%s\non the twin\n%s" % (
                      fam.name, k, a, b))
    ctx.event("reads", len(got), digest([str(v[0]) for _, v in got]))
