"""An aborted fit never leaves a mixture; a retry gives the clean result."""

import random

import numpy as np

from ..core import INJECTED, digest, pyrng
from ..faults import gen_strike, profile, struck
from ..families import Fam, first_diff, gen_fam, refusal, veq

ID = "P14"
TITLE = "an aborted fit never answers from a mixture of solutions"
LEVEL = "exploration"
N_QUICK = 900
RULE = ("one run = one estimator of any family and a history of fits on "
        "different data sets, some struck by an exception at a seeded source "
        "line; after each abort every read either fails or belongs to one "
        "single fit, and the next undisturbed fit equals that of a new "
        "object; non-trivial when a failure struck; distinct by hash of the "
        "event log")
REAL = ["every estimator of the package", "solvers", "pandas", "sklearn"]
STUB = ["the failure (exception raised at an executed line of optbinning)",
        "solver budget (runs to its end)"]
PROBES = ["abort-unfitted", "abort-old-kept", "abort-new-kept", "retry-ok",
          "refit-other-data", "first-fit-aborted", "refused"]


def generate(seed, tier="quick"):
    r = pyrng("p14", seed)
    fam = gen_fam(r, small=True)
    ops = []
    for _ in range(r.randint(2, 4)):
        ops.append({"v": r.randrange(2),
                    "strike": gen_strike(r) if r.random() < .7 else None})
    ops.append({"v": r.randrange(2), "strike": None})
    return {"fam": fam, "ops": ops}


def execute(plan, ctx):
    random.seed(plan["seed"])
    np.random.seed(plan["seed"] % (1 << 31))
    fam = Fam(plan["fam"])
    once = fam.name in ("sketch", "psketch")
    ref, prof, bad = {}, {}, {}

    def look(o):
        # the report of a sketch counts the calls, aborted or not
        return fam.observe(o, d0, [k for k, _ in fam.reads(d0)
                                   if not (once and k == "information")])

    def reference(v):
        if v in prof:
            return
        d = fam.data(v)
        o = fam.new()
        if once:
            feed(fam, o, d)
            t, p = profile(ctx, lambda: o.solve())
        else:
            t, p = profile(ctx, lambda: fam.fit(o, d))
        prof[v] = p
        if t.error is not None:
            if isinstance(t.error, INJECTED) or \
                    not isinstance(t.error, Exception):
                raise t.error
            bad[v] = type(t.error).__name__
            ctx.check(refusal(bad[v], str(t.error)), "internal-error",
                      lambda: "%s: a new object cannot be fitted: %r" % (
                          fam.name, t.error))
            ctx.probe("refused")
            return
        ref[v] = look(o)
        for k, r in ref[v].items():
            ctx.check(r[0] == "ok" or refusal(*r[1:]), "internal-error",
                      lambda: "%s: %s of a new fitted object fails: %s" % (
                          fam.name, k, r[1:]))

    d0 = fam.data(0)
    o = fam.new()
    if once:
        feed(fam, o, d0)
    last = None
    for op in plan["ops"]:
        v = 0 if once else op["v"]
        d = fam.data(v)
        reference(v)
        run = (lambda: o.solve()) if once else (lambda: fam.fit(o, d))
        t, s = struck(ctx, run, prof[v], op["strike"])
        err = t.error
        ctx.event("fit", fam.name, v, type(err).__name__, s.fired)
        if err is not None and not isinstance(err, INJECTED):
            if s.fired is None:
                ctx.check(bad.get(v) == type(err).__name__, "fit-depends-on-"
                          "history", lambda: "a new object gives %s, this one "
                          "%r" % (bad.get(v), err))
            # a failure translated to another error is still a failure
        if err is not None:
            got = look(o)
            ok = {k: r for k, r in got.items() if r[0] == "ok"}
            if not ok:
                ctx.probe("abort-unfitted")
                if last is None:
                    ctx.probe("first-fit-aborted")
                last = None
                continue
            cands = [w for w in ([last] if last is not None else []) +
                     ([v] if v in ref else [])]
            fits = [w for w in cands if all(veq(r, ref[w][k])
                                            for k, r in ok.items())]
            ctx.check(bool(fits), "mixture-after-aborted-fit",
                      lambda: explain(ok, cands, ref, s, err))
            ctx.probe("abort-old-kept" if fits[0] == last
                      else "abort-new-kept")
            last = fits[0]
            continue
        ctx.check(v not in bad, "fit-depends-on-history",
                  lambda: "a new object fails with %s, this one does not"
                  % bad.get(v))
        got = look(o)
        k = first_diff(got, ref[v])
        ctx.check(k is None, "retry-differs-from-clean-fit",
                  lambda: "%s: %s gives\n%s\na new object gives\n%s" % (
                      fam.name, k, got[k], ref[v][k]))
        ctx.probe("retry-ok")
        if last is not None and last != v:
            ctx.probe("refit-other-data")
        last = v
        ctx.event("ok", digest(repr(got.get("status"))))


def feed(fam, o, d):
    if fam.name == "sketch":
        for a, b in fam._cuts(len(d["x"])):
            o.add(d["x"][a:b], d["y"][a:b])
    else:
        for a, b in fam._cuts(len(d["y"])):
            o.add(d["X"].iloc[a:b], d["y"][a:b])


def explain(ok, cands, ref, s, err):
    out = ["struck at %s (%r); answers kept:" % (s.fired, err)]
    for w in cands:
        diff = [k for k, r in ok.items() if not veq(r, ref[w][k])]
        out.append("differs from the fit on data %d in %s" % (w, diff[:6]))
        if diff:
            out.append("%s\nversus\n%s" % (ok[diff[0]], ref[w][diff[0]]))
    if not cands:
        out.append("no fit ever succeeded, yet %s answer" % list(ok)[:6])
    return "\n".join(out)
