"""A fit is a function of its data and options, not of the environment."""

import base64
import os
import pickle
import random
import subprocess
import sys

import numpy as np
import pandas as pd

from ..clock import Clock
from ..core import HarnessError, INJECTED, digest, pyrng
from ..families import Fam, first_diff, gen_fam

ID = "P16"
TITLE = "a fit depends only on its data and options"
LEVEL = "exploration"
N_QUICK = 900
RULE = ("one run = one estimator of any family fitted and read in a plain "
        "environment and again under seeded ambient changes (global random "
        "states, hash seed in a new process, clock jumps, unrelated fits, "
        "failed calls and earlier fits of the same object, read-only and "
        "strided inputs, other containers and indexes); all answers are "
        "equal and inputs and options unchanged; non-trivial when an ambient "
        "change was made; distinct by hash of the event log")
REAL = ["every estimator of the package", "solvers", "pandas", "sklearn"]
STUB = ["clock", "global random states", "hash seed (chosen per process)",
        "solver seed (fixed)"]
PROBES = ["rng", "clock", "other-fit", "refit", "failed-call", "readonly",
          "strided", "container", "hash-seed", "params-roundtrip"]
KINDS = ["rng", "rng", "clock", "other-fit", "refit", "failed-call",
         "readonly", "strided", "container", "params-roundtrip"]


def generate(seed, tier="quick"):
    r = pyrng("p16", seed)
    fam = gen_fam(r, small=True)
    ops = [{"op": r.choice(KINDS), "seed": r.randrange(1 << 30)}
           for _ in range(r.randint(1, 4))]
    if r.random() < .06:
        # one other process fits several small problems, where ties abound
        fams = []
        for _ in range(12):
            f = gen_fam(r, r.choice([None, None, "bin_cat", "bin_cat",
                                     "cont_cat", "process", "sketch"]),
                        small=True)
            if f["fam"] in ("bin_cat", "cont_cat") and r.random() < .7:
                f["n"] = r.randint(24, 60)
                f["k"] = r.randint(5, 9)
            fams.append(f)
        ops = [{"op": "hash-seed", "seed": 1 + r.randrange(1 << 20),
                "fams": fams}]
    for o in ops:
        if o["op"] == "other-fit":
            o["fam"] = gen_fam(r, small=True)
    return {"fam": fam, "ops": ops}


def relayout(a, how, rng):
    """The same data in another memory layout or container."""
    if isinstance(a, list):
        return [relayout(v, how, rng) for v in a]
    if isinstance(a, np.ndarray):
        if how == "readonly":
            a = a.copy()
            a.flags.writeable = False
            return a
        if how == "strided":
            b = np.empty(2 * len(a), dtype=a.dtype)
            b[::2] = a
            b[1::2] = a[::-1]
            return b[::2]
        return pd.Series(a, index=rng.permutation(len(a)) + 3)
    if isinstance(a, pd.DataFrame):
        if how == "container":
            b = a.copy()
            b.index = ["r%d" % i for i in rng.permutation(len(a))]
            return b
        return a.copy()
    return a


def answers(fam, o, d):
    only = [k for k, _ in fam.reads(d) if k != "information"]
    return fam.observe(o, d, only)


def fit_fresh(spec):
    fam = Fam(spec)
    d = fam.data(0)
    o = fam.new()
    try:
        fam.fit(o, d)
    except Exception as e:
        if isinstance(e, INJECTED):
            raise
        return type(e).__name__
    return answers(fam, o, fam.data(0))


def in_new_process(specs, hash_seed):
    env = dict(os.environ, PYTHONHASHSEED=str(hash_seed % (1 << 32)))
    arg = base64.b64encode(pickle.dumps(specs)).decode()
    p = subprocess.run([sys.executable, "-c", (
        "import sys, pickle, base64\n"
        "from sim import runner, core\n"
        "from sim.props import p16_reproducible as m\n"
        "from sim.solver import SolverSim\n"
        "runner.warm(m)\n"
        "specs = pickle.loads(base64.b64decode(sys.argv[1]))\n"
        "out = sys.stdout.buffer\n"
        "sys.stdout = sys.stderr\n"
        "with SolverSim(seed=7).installed():\n"
        "    r = [m.fit_fresh(s) for s in specs]\n"
        "out.write(pickle.dumps(r))\n"), arg], env=env,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if p.returncode:
        raise HarnessError(p.stderr.decode()[-600:])
    return pickle.loads(p.stdout)


def execute(plan, ctx):
    random.seed(plan["seed"])
    np.random.seed(plan["seed"] % (1 << 31))
    fam = Fam(plan["fam"])
    want = fit_fresh(plan["fam"])
    d = fam.data(0)
    o = fam.new()
    clock = Clock(ctx=ctx)
    jump = None
    for op in plan["ops"]:
        rng = np.random.default_rng(op["seed"])
        k = op["op"]
        ctx.event("env", k)
        ctx.probe(k)
        ctx.fault("env-" + k)
        if k == "rng":
            random.seed(op["seed"])
            np.random.seed(op["seed"])
        elif k == "clock":
            jump = rng
        elif k in ("readonly", "strided", "container"):
            d = {a: relayout(v, k, rng) for a, v in d.items()}
        elif k == "other-fit":
            other = Fam(op["fam"])
            try:
                p = other.new()
                other.fit(p, other.data(1))
                other.observe(p, other.data(1))
            except Exception as e:
                if isinstance(e, INJECTED):
                    raise
        elif k == "refit" and fam.name not in ("sketch", "psketch"):
            try:
                fam.fit(o, fam.data(1))
                if rng.random() < .5:
                    fam.observe(o, fam.data(1))
            except Exception as e:
                if isinstance(e, INJECTED):
                    raise
        elif k == "failed-call":
            for bad in ({}, {"x": "no", "y": None, "X": 3}):
                try:
                    fam.fit(o, dict(d, **bad) if bad else {})
                except Exception:
                    pass
                if fam.name in ("sketch", "psketch"):
                    o = fam.new()
        elif k == "params-roundtrip" and hasattr(o, "get_params") and \
                fam.name not in ("process", "scorecard", "monitor", "cf"):
            o = type(o)(**o.get_params(deep=False))
        elif k == "hash-seed":
            got = in_new_process(op["fams"], op["seed"])
            for spec, g in zip(op["fams"], got):
                compare(ctx, Fam(spec), g, fit_fresh(spec),
                        "in a new process")
    params = digest(str(o.get_params(deep=False))) \
        if hasattr(o, "get_params") else None
    dig = digest(d)

    def run():
        fam.fit(o, d)
    err = None
    try:
        if jump is not None:
            with clock.installed():
                for _ in range(2):
                    clock.jump(float(jump.uniform(-1e5, 1e5)))
                clock.step = float(jump.choice([0, 1e-9, 1e-3, 10.]))
                run()
        else:
            run()
    except Exception as e:
        if isinstance(e, INJECTED):
            raise
        err = type(e).__name__
        ctx.check(want == err, "outcome-differs",
                  lambda: "%s: plain %s, now %r" % (
                      fam.name, want if isinstance(want, str) else "fits",
                      e))
        return
    ctx.check(digest(d) == dig, "input-modified",
              "%s modified its training data" % fam.name)
    if params is not None:
        ctx.check(digest(str(o.get_params(deep=False))) == params,
                  "options-modified", "%s modified its options" % fam.name)
    # scoring inputs are the plain ones, so containers matter for fit only
    compare(ctx, fam, answers(fam, o, fam.data(0)), want, "now")


def compare(ctx, fam, got, want, where):
    if isinstance(want, str) or isinstance(got, str):
        ctx.check(got == want if isinstance(got, str) == isinstance(
            want, str) else False, "outcome-differs",
            lambda: "%s: plain %s, %s %s" % (
                fam.name, want if isinstance(want, str) else "fits", where,
                got if isinstance(got, str) else "fits"))
        return
    k = first_diff(got, want)
    ctx.check(k is None, "result-differs",
              lambda: "%s: %s gives %s\n%s\nplain environment\n%s" % (
                  fam.name, k, where, got[k], want[k]))
    ctx.event("same", digest(str(got.get("status"))))
