"""Parallel fitting gives the sequential result under every schedule."""

import random

import numpy as np

from ..core import INJECTED, InjectedError, InjectedMemoryError, digest, pyrng
from ..sched import Profile, Sched, gen_switches, joblib_on
from ..tabular import (dataset, differ, fit_alone, gen_dataset, gen_process,
                       make_process, observe)

ID = "P09"
TITLE = "n_jobs does not change the result under any worker schedule"
LEVEL = "exploration"
N_QUICK = 480
RULE = ("one run = one data set and process fitted with n_jobs workers whose "
        "interleaving (line-level preemption), completion order and failures "
        "are chosen by the simulator, compared with the sequential fit; "
        "non-trivial when a preemption or worker failure happened; distinct "
        "by hash of the event log")
REAL = ["BinningProcess.fit", "joblib dispatch and result collection",
        "all binary/continuous/multiclass binnings", "solver"]
STUB = ["thread scheduling (one task at a time, switches at source lines)",
        "joblib worker pool (tasks of the simulated scheduler)"]
PROBES = ["threads", "processes", "more-jobs-than-variables", "cpu-count",
          "worker-failure", "retry-ok", "array-input", "sample-weight",
          "target-binary", "target-continuous", "target-multiclass",
          "completion-reordered", "shuffled-columns"]


def generate(seed, tier="quick"):
    r = pyrng("p09", seed)
    spec = gen_dataset(r, codes=True, n=r.randint(40, 150),
                       nv=r.randint(2, 6))
    cfg = gen_process(r, spec)
    return {"data": spec, "cfg": cfg,
            "jobs": r.choice([2, 2, 3, 4, 8, -1, -2]),
            "isolate": r.random() < .25,
            "array": r.random() < .2,
            "shuffle": r.random() < .3,
            "weight": r.random() < .25,
            "fail": r.choice([None, None, None, "error", "memory"]),
            "fail_frac": round(r.random(), 6),
            "fail_task": r.randrange(4),
            "ops": gen_switches(r)}


def execute(plan, ctx):
    random.seed(plan["seed"])
    np.random.seed(plan["seed"] % (1 << 31))
    df, y = dataset(plan["data"])
    t = plan["data"]["target"]
    ctx.probe("target-" + t)
    names = list(df.columns)
    X = df
    if plan.get("shuffle"):
        # columns are found by name
        X = df[list(df.columns)[::-1]]
        ctx.probe("shuffled-columns")
    elif plan["array"] and not any(c["kind"].startswith("cat") for c in
                                 plan["data"]["cols"].values()):
        X = df.to_numpy(dtype=float)
        ctx.probe("array-input")
    kw = {}
    if plan["weight"] and t == "binary":
        kw["sample_weight"] = np.random.default_rng(
            plan["seed"]).integers(1, 4, len(y)).astype(float)
        ctx.probe("sample-weight")
    kw0 = {k: v.copy() for k, v in kw.items()}
    dig = digest([df, y, kw])
    # the reference is fitted by one traced task, which gives the source
    # lines the switches are spread over
    seq = make_process(names, plan["cfg"], n_jobs=1)
    prof = Profile(ctx)
    job = prof.run(lambda: seq.fit(X, y, **kw))
    if job.error is not None:
        if not isinstance(job.error, ValueError):
            raise job.error
        err = None
        try:
            make_process(names, plan["cfg"], n_jobs=2).fit(X, y, **kw)
        except Exception as e:
            err = e
        ctx.check(type(err) is type(job.error), "parallel-accepts",
                  "sequential: %r, parallel: %r" % (job.error, err))
        return
    want = observe(seq, X, (None,))
    clean = {k: np.array(v) for k, v in kw0.items()}
    for n in names:
        o = fit_alone(df, y, n, t, plan["cfg"], **clean)
        alone = {"table:" + n: o.binning_table.build(),
                 "splits:" + n: list(o.splits), "status:" + n: o.status}
        k = differ(alone, {k: want[k] for k in alone})
        ctx.check(k is None, "variable-differs-from-single-fit",
                  lambda: "%s of the process is\n%s\nfitted alone it is\n%s"
                  % (k, want[k], alone[k]))
    jobs = plan["jobs"]
    if jobs < 0:
        ctx.probe("cpu-count")
    elif jobs > len(names):
        ctx.probe("more-jobs-than-variables")
    ctx.probe("processes" if plan["isolate"] else "threads")
    par = make_process(names, plan["cfg"], n_jobs=jobs)
    params = digest(repr(par.get_params()))
    if plan["fail"]:
        run_once(plan, ctx, par, X, y, kw, want, prof, fail=plan["fail"])
    run_once(plan, ctx, par, X, y, kw, want, prof)
    ctx.check(digest([df, y, kw]) == dig, "input-modified",
              "fitting changed the data it was given")
    ctx.check(digest(repr(par.get_params())) == params, "params-changed",
              "fitting changed the parameters of the process")


def run_once(plan, ctx, par, X, y, kw, want, prof, fail=None):
    log = []
    done = []
    at = max(1, int(plan["fail_frac"] * prof.total / 4))

    def strike(task, frame):
        if fail and task.id == plan["fail_task"] and task.steps == at:
            ctx.fault("worker-" + fail)
            raise (InjectedError("worker failed") if fail == "error"
                   else InjectedMemoryError("worker out of memory"))

    sched = Sched(ctx, prof.place(plan["ops"]), plan["seed"], strike)
    err = None
    with joblib_on(sched, isolate=plan["isolate"], log=log):
        try:
            par.fit(X, y, **kw)
        except INJECTED as e:
            err = e
    sched.run()
    for tsk in log:
        done.append(tsk.id)
    if sched.n_switch:
        ctx.probe("completion-reordered")
    struck = any(isinstance(tsk.error, INJECTED) for tsk in log)
    ctx.event("fit", len(log), sched.step, type(err).__name__)
    if struck:
        ctx.probe("worker-failure")
        ctx.check(err is not None, "worker-failure-swallowed",
                  "a worker failed, fit reported success")
        answered = None
        try:
            answered = par.transform(X)
        except Exception:
            pass
        ctx.check(answered is None, "answers-after-failed-fit",
                  "transform answers after a worker of fit failed")
        return
    ctx.check(err is None, "unexpected-failure", lambda: repr(err))
    if fail is None and plan["fail"]:
        ctx.probe("retry-ok")
    got = observe(par, X, (None,))
    k = differ(got, want)
    ctx.check(k is None, "parallel-differs",
              lambda: "n_jobs=%d, %d switches: %s is\n%s\nsequential fit "
              "gives\n%s" % (plan["jobs"], sched.n_switch, k, got.get(k),
                             want.get(k)))
    ctx.event("same", digest([got["table:" + n]["Count"].to_numpy()
                              for n in par.variable_names]))
