"""Independent fits that share inputs and options do not interfere."""

import random

import numpy as np

from ..core import (INJECTED, InjectedError, digest, pyrng)
from ..families import Fam, first_diff, gen_fam
from ..sched import Profile, Sched, gen_switches

ID = "P11"
TITLE = "concurrent independent fits do not interfere"
LEVEL = "exploration"
N_QUICK = 900
RULE = ("one run = 2-3 tasks, each fitting (and reading) its own estimator "
        "of any family, on shared input arrays and shared option objects, "
        "under a seeded line-level interleaving, one possibly failing midway; "
        "every object equals the one fitted alone and inputs and options stay "
        "unchanged; non-trivial when a preemption happened; distinct by hash "
        "of the event log")
REAL = ["every estimator of the package", "solvers", "pandas", "sklearn"]
STUB = ["thread scheduling (one task at a time, switches at source lines)",
        "the failure (exception raised at an executed line of optbinning)"]
PROBES = ["same-family", "mixed-families", "sibling-failure",
          "shared-options"]


def generate(seed, tier="quick"):
    r = pyrng("p11", seed)
    fams = []
    base = gen_fam(r, small=True)
    n = r.choice([2, 2, 3])
    how = r.choice(["same", "mixed", "seed", "seed"])
    for i in range(n):
        if how == "mixed" and i:
            fams.append(gen_fam(r, small=True))
        else:
            fams.append(base)
    return {"fams": fams, "how": how, "vs": [i % 2 if how == "seed" else 0
                                             for i in range(n)],
            "fail": r.choice([None, None, r.randrange(n)]),
            "fail_frac": round(r.random(), 5), "ops": gen_switches(r)}


def share(a, b):
    """b's option values replaced by the very objects of a."""
    pa, pb = vars(a), vars(b)
    k = 0
    for name in pa:
        if not name.startswith("_") and name in pb and \
                (isinstance(pa[name], (list, dict, np.ndarray)) and
                 digest(pa[name]) == digest(pb[name]) or
                 name == "estimator" and pa[name] is not None):
            pb[name] = pa[name]
            k += 1
    return k


def options(o):
    return digest({k: v for k, v in o.get_params(deep=False).items()
                   if isinstance(v, (list, dict, tuple, np.ndarray, str, int,
                                     float, type(None)))})


def execute(plan, ctx):
    random.seed(plan["seed"])
    np.random.seed(plan["seed"] % (1 << 31))
    fams = [Fam(s) for s in plan["fams"]]
    shared = plan["how"] != "mixed"
    ctx.probe("same-family" if shared else "mixed-families")
    data = []
    for i, (f, v) in enumerate(zip(fams, plan["vs"])):
        j = plan["vs"].index(v)
        data.append(data[j] if shared and j < i else f.data(v))
    want, alone = [], []
    prof = Profile(ctx)

    def sequential():
        for f, v in zip(fams, plan["vs"]):
            o = f.new()
            d = f.data(v)
            try:
                f.fit(o, d)
                alone.append(None)
            except Exception as e:
                if isinstance(e, INJECTED):
                    raise
                alone.append(type(e).__name__)
            want.append((o, d))
    t = prof.run(sequential)
    if t.error is not None:
        raise t.error
    only = [[k for k, _ in f.reads(d) if k != "information"]
            for f, d in zip(fams, data)]
    want = [None if a else f.observe(o, d, only[i]) for i, (f, (o, d), a)
            in enumerate(zip(fams, want, alone))]
    objs = [f.new() for f in fams]
    opts = [options(o) if hasattr(o, "get_params") else None for o in objs]
    if shared:
        for o in objs[1:]:
            if share(objs[0], o):
                ctx.probe("shared-options")
    digs = [digest(d) for d in data]
    at = max(1, int(plan["fail_frac"] * prof.total / len(fams)))

    def strike(task, frame):
        if task.id == plan["fail"] and task.steps == at:
            ctx.fault("sibling-failure")
            raise InjectedError("injected failure")

    sched = Sched(ctx, prof.place(plan["ops"]), plan["seed"], strike)
    for f, o, d in zip(fams, objs, data):
        sched.spawn(lambda f=f, o=o, d=d: f.fit(o, d))
    sched.run()
    for i, (t, f) in enumerate(zip(sched.tasks, fams)):
        ctx.event("task", i, f.name, type(t.error).__name__)
        ctx.check(digest(data[i]) == digs[i], "input-modified",
                  lambda: "%s modified its training data" % f.name)
        if opts[i] is not None:
            ctx.check(options(objs[i]) == opts[i], "options-modified",
                      lambda: "%s modified its options" % f.name)
        if isinstance(t.error, INJECTED):
            ctx.probe("sibling-failure")
            continue
        ctx.check((type(t.error).__name__ if t.error else None) == alone[i],
                  "outcome-differs", lambda: "%s: alone %s, concurrently %r"
                  % (f.name, alone[i], t.error))
        if alone[i]:
            continue
        got = f.observe(objs[i], data[i], only[i])
        k = first_diff(got, want[i])
        ctx.check(k is None, "concurrent-fit-differs",
                  lambda: "%s: %s gives\n%s\nfitted alone\n%s" % (
                      f.name, k, got[k], want[i][k]))
