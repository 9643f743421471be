"""Reads, failing and aborted ones included, never change a fitted object."""

import copy
import random

import numpy as np

from ..core import INJECTED, digest, pyrng
from ..faults import gen_strike, profile, struck
from ..families import Fam, first_diff, gen_fam, outcome, veq

ID = "P15"
TITLE = "reads, failed or aborted ones included, change nothing"
LEVEL = "exploration"
N_QUICK = 900
RULE = ("one run = one fitted estimator of any family and a history of "
        "transforms, scorings, table builds, analyses, reports and refused "
        "calls, some struck by an exception at a seeded source line; every "
        "answer equals the one given right after the fit and the inputs stay "
        "unchanged; non-trivial when a failure struck; distinct by hash of "
        "the event log")
REAL = ["every estimator of the package", "solvers", "pandas", "sklearn"]
STUB = ["the failure (exception raised at an executed line of optbinning)",
        "solver budget (runs to its end)"]
PROBES = ["struck-transform", "struck-table", "struck-report",
          "refused-call", "repeat"]


def generate(seed, tier="quick"):
    r = pyrng("p15", seed)
    fam = gen_fam(r, small=True)
    ops = []
    for _ in range(r.randint(4, 12)):
        ops.append({"read": r.randrange(1000), "seed": r.randrange(1 << 30),
                    "how": r.choice(["strike", "strike", "strike", "plain",
                                     "refused"]),
                    "strike": gen_strike(r)})
    return {"fam": fam, "ops": ops}


def bad_call(fam, o, d, seed):
    """A call with an invalid argument."""
    X = fam.xnew(d)
    k = seed % 4
    if fam.name == "cf":
        q, kw = fam.cf_args(d)
        return lambda: o.generate(q, **dict(kw, method="no-such-method"))
    if fam.name == "monitor":
        return lambda: o.psi_variable_table(style="no-such-style")
    if fam.name == "scorecard":
        if k < 2:
            return lambda: o.table(style="no-such-style")
        return lambda: o.score(X.iloc[:, :1].rename(columns=lambda c: "q"))
    if fam.name in ("process", "psketch"):
        if k < 2:
            return lambda: o.transform(X, metric="no-such-metric")
        return lambda: o.get_binned_variable("no-such-variable")
    if k == 0:
        return lambda: o.binning_table.build(show_digits=-1)
    if k == 1:
        return lambda: o.binning_table.analysis(pvalue_test="no-such-test")
    if fam.name in ("bin2d", "cont2d"):
        return lambda: o.transform(X[0], X[1], metric="no-such-metric")
    if fam.name == "pw_cont":
        return lambda: o.transform(X, metric_missing="no-such-metric")
    return lambda: o.transform(X, metric="no-such-metric")


def execute(plan, ctx):
    random.seed(plan["seed"])
    np.random.seed(plan["seed"] % (1 << 31))
    fam = Fam(plan["fam"])
    d = fam.data(0)
    o = fam.new()
    try:
        fam.fit(o, d)
    except Exception as e:
        if isinstance(e, INJECTED):
            raise
        ctx.probe("unfit")
        return
    twin = fam.new()
    fam.fit(twin, fam.data(0))
    reads = fam.reads(d)
    want = {k: outcome(f, twin) for k, f in reads}
    dig = snapshot(d)
    for op in plan["ops"]:
        k, f = reads[op["read"] % len(reads)]
        if op["how"] == "refused":
            f = bad_call(fam, o, d, op["seed"])
            got = outcome(f)
            ctx.event("refused", fam.name, got[0])
            if got[0] == "err":
                ctx.probe("refused-call")
        elif op["how"] == "plain":
            got = outcome(f, o)
            ctx.event("read", k)
            ctx.check(veq(got, want[k]), "answer-changed",
                      lambda: "%s: %s gives\n%s\nafter the fit it gave\n%s"
                      % (fam.name, k, got, want[k]))
            ctx.probe("repeat")
        else:
            t, prof = profile(ctx, lambda: f(twin))
            t, s = struck(ctx, lambda: f(o), prof, op["strike"])
            ctx.event("struck", k, s.fired, type(t.error).__name__)
            if s.fired:
                ctx.probe("struck-table" if k.startswith(
                    ("table", "analysis", "psi", "summary"))
                    else "struck-report" if k == "information"
                    else "struck-transform")
            if t.error is None and s.fired is None:
                ctx.check(veq(("ok", t.result), want[k]) or
                          k in ("information", "analysis", "report"),
                          "answer-changed", lambda: "%s: %s" % (fam.name, k))
        ctx.check(snapshot(d) == dig, "input-modified",
                  lambda: "%s: %s modified its input" % (fam.name, k))
    got = {k: outcome(f, o) for k, f in reads}
    k = first_diff(got, want)
    ctx.check(k is None, "answer-changed",
              lambda: "%s: %s gives\n%s\nafter the fit it gave\n%s" % (
                  fam.name, k, got[k], want[k]))


def snapshot(d):
    return digest({k: v for k, v in d.items()})
