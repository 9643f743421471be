"""Counterfactuals are valid and best for the scorecard, whatever the solver
does."""

import copy
import itertools
import random
import warnings

import numpy as np
import pandas as pd

from ..core import INJECTED, Violation, digest, nprng, pyrng
from ..faults import gen_strike, profile, struck
from ..solver import SolverSim
from ..tabular import CODES, dataset, gen_dataset, gen_process, make_process

ID = "P21"
TITLE = "counterfactuals are valid and best, whatever the solver does"
LEVEL = "exploration"
N_QUICK = 700
RULE = ("one run = one scorecard and a session of fit / generate / refused / "
        "aborted requests under a simulated solver budget; every answer is "
        "turned into records, scored by the scorecard itself and compared "
        "with the enumeration of all alternatives; non-trivial when a fault "
        "fired or a counterfactual was found; distinct by hash of the event "
        "log")
REAL = ["Counterfactual", "Scorecard", "BinningProcess", "CBC"]
STUB = ["solver time budget (stopped before, at, or after an incumbent)",
        "the failure (exception raised at an executed line)"]
PROBES = ["found", "infeasible", "several", "optimal-checked",
          "hierarchical", "refused", "interrupted", "special-missing",
          "dict-codes", "dict-query", "missing-query", "closeness-only",
          "probability", "continuous", "diversity", "metric-override"]


def generate(seed, tier="quick"):
    r = pyrng("p21", seed)
    t = r.choice(["binary", "binary", "continuous"])
    nv = r.choice([2, 2, 3, 3, 4])
    spec = gen_dataset(r, target=t, codes=True, n=r.randint(60, 250), nv=nv)
    cfg = gen_process(r, spec)
    cfg.update(criteria=None, max_n_bins=r.choice([2, 3, 4] if nv < 4 else
                                                  [2, 3]))
    for k, v in cfg["fit"].items():
        v.pop("max_n_bins", None)
    if r.random() < .7:
        cfg["transform"] = {k: v for k, v in cfg["transform"].items()
                            if "metric" not in v}
    ops = [{"op": "fit", "v": 0}]
    for _ in range(r.randint(2, 5)):
        k = r.random()
        ot = "continuous" if t == "continuous" else \
            r.choice(["binary", "binary", "probability"])
        n_cf = r.choice([1, 1, 1, 2, 2, 3])
        hard, soft = [], {}
        if ot != "binary":
            c = r.choice(["min_outcome", "max_outcome", "diff_outcome",
                          "both"])
            if c in ("min_outcome", "both"):
                hard.append("min_outcome")
            if c == "max_outcome":
                hard.append("max_outcome")
            if c in ("diff_outcome", "both"):
                soft["diff_outcome"] = r.choice([1, 2.5, 0.5])
        for d in ("diversity_features", "diversity_values"):
            if r.random() < .3:
                hard.append(d)
            if r.random() < .15:
                soft[d] = r.choice([1, .25])
        obj = r.choice([None, None, {"proximity": 1}, {"closeness": 1},
                        {"proximity": 1, "closeness": 3},
                        {"proximity": 2, "closeness": .5}])
        ops.append({
            "op": "fit" if k < .1 else "bad" if k < .2 else "gen",
            "v": r.randrange(2), "row": r.randrange(1000),
            "kind": r.choice(["frame", "frame", "dict"]),
            "blank": r.random() < .2, "yq": round(r.random(), 3),
            "type": ot, "n_cf": n_cf,
            "method": r.choice(["weighted", "weighted", "hierarchical"]),
            "objectives": obj, "changes": r.choice([None, 1, 2, nv, nv]),
            "act": r.choice([None, None, r.randrange(1, 1 << nv)]),
            "hard": hard or None, "soft": soft or None,
            "tol": r.choice([.1, 0, .5]),
            "mode": r.choice(["full", "full", "full", "full", "nosol",
                              "incumbent", "feasible"]),
            "noise": r.choice([0, 0, 1e-7]), "sseed": r.randrange(1 << 30),
            "limit": r.choice([10, 1, 0.5]),
            "bad": r.choice(["y", "n_cf", "feature", "objective", "tol",
                             "limit", "hard"]),
            "strike": gen_strike(r) if r.random() < .15 else None})
    return {"data": spec, "cfg": cfg, "ops": ops, "sm": r.random() < .4,
            "codes": r.choice([None, "list", "dict"]),
            "ms": r.choice([0, 0, "empirical", 1.5]),
            "mm": r.choice([0, 0, "empirical", -0.75]),
            "rounding": r.random() < .3}


class Model:
    """The scorecard seen from outside, through records."""

    def __init__(self, plan, sc, X):
        self.sc = sc
        bp = sc.binning_process_
        self.names = list(bp.get_support(names=True))
        self.p = len(self.names)
        self.coef = np.asarray(sc.estimator_.coef_, dtype=float).ravel()
        self.icpt = float(np.ravel(sc.estimator_.intercept_)[0])
        self.binary = sc._target_dtype == "binary"
        self.rows = []
        tab = sc.table(style="detailed")
        kw = dict(metric_special=plan["ms"], metric_missing=plan["mm"])
        self.kw = kw
        for v in self.names:
            optb = bp.get_binned_variable(v)
            t = tab[tab["Variable"] == v]
            pool = list(X[v]) + [np.nan]
            if plan["codes"]:
                pool += list(CODES)
            num = optb.dtype == "numerical"
            arr = np.array(pool, dtype=float if num else object)
            if not num:
                arr[-1 if not plan["codes"] else -3] = None
            idx = np.asarray(optb.transform(
                arr, metric="indices", metric_special="empirical",
                metric_missing="empirical"))
            ns = (len(CODES) if plan["codes"] == "dict" else 1)
            n = len(t)
            par = (bp.binning_transform_params or {}).get(v, {})
            q = {"metric_special": par.get("metric_special", plan["ms"]),
                 "metric_missing": par.get("metric_missing", plan["mm"])}
            if par.get("metric"):
                q["metric"] = par["metric"]
            val = np.asarray(optb.transform(arr, **q), dtype=float)
            rs = []
            labels = list(t["Bin"])
            for j in range(n):
                w = np.flatnonzero(idx == j)
                # what the table says, where no record shows it
                given = "empirical" if j < n - 1 - ns else \
                    q["metric_missing" if j == n - 1 else "metric_special"]
                if par.get("metric"):
                    given = None
                elif given == "empirical":
                    given = float(
                        t["WoE" if self.binary else "Mean"].iloc[j])
                rs.append(dict(
                    label=labels[j], value=val[w[0]] if len(w) else None,
                    worth=val[w[0]] if len(w) else given,
                    real=arr[w[0]] if len(w) else None,
                    odd=j >= n - 1 - ns))
            self.rows.append(rs)

    def x(self, q):
        return np.asarray(self.sc.binning_process_.transform(
            q[self.names], **self.kw), dtype=float)[0]


def lab(b):
    if isinstance(b, np.ndarray):
        return "[" + " ".join(map(str, b)) + "]"
    return str(b)


def sigma(a):
    return 1 / (1 + np.exp(-np.asarray(a, dtype=float)))


class Request:
    def __init__(self, plan, op, m, Xfit, query):
        self.op, self.m = op, m
        self.query = query
        self.x = m.x(query)
        self.exact = True
        allow = plan["sm"]
        act = None if op["act"] is None else [
            v for i, v in enumerate(m.names) if op["act"] >> i & 1]
        self.act = act
        self.max = len(m.names) // 2 if op["changes"] is None \
            else op["changes"]
        ch = []
        for i, v in enumerate(m.names):
            c = [(None, self.x[i])]
            for j, row in enumerate(m.rows[i]):
                if row["odd"] and not allow:
                    continue
                if act is not None and v not in act:
                    continue
                if row["value"] is None:
                    # no record shows what this bin is worth
                    self.exact = False
                    continue
                if abs(row["value"] - self.x[i]) > 1e-9:
                    c.append((j, row["value"]))
            ch.append(c)
        combos = [c for c in itertools.product(*ch)
                  if sum(a[0] is not None for a in c) <= self.max]
        self.z = [[a[0] for a in c] for c in combos]
        self.V = np.array([[a[1] for a in c] for c in combos], dtype=float)
        self.a = m.icpt + self.V @ m.coef
        # objectives of every alternative
        Xt = np.asarray(m.sc.binning_process_.transform(
            Xfit[m.names], **m.kw), dtype=float)
        rng = []
        lo = hi = m.icpt
        for i in range(m.p):
            pts = [r["worth"] * m.coef[i] for r in m.rows[i]
                   if r["worth"] is not None]
            self.exact &= len(pts) == len(m.rows[i])
            rng.append(max(pts) - min(pts))
            lo, hi = lo + min(pts), hi + max(pts)
        self.lo, self.hi = lo, hi
        self.flat = min(rng) < 1e-9
        with np.errstate(all="ignore"):
            self.prox = (np.abs(self.V - self.x) / np.array(rng)).sum(axis=1)
        C = np.atleast_2d(np.cov(Xt.T))
        self.singular = np.linalg.matrix_rank(C) < m.p or \
            np.linalg.cond(C) > 1e10
        if not self.singular:
            F = np.linalg.cholesky(np.linalg.inv(C))
            self.close = np.abs((self.V - Xt.mean(axis=0)) @ F).sum(axis=1)
        # how far the linear pieces may be from the logistic function
        h = (hi - lo) / 15
        self.eps = {"binary": 1e-5, "continuous": 1e-5 * max(1, abs(hi - lo)),
                    "probability": min(.25, .1 * h * h) + 1e-5}[op["type"]]

    def ok(self, a, slack):
        """Alternatives reaching the outcome, with slack (may be < 0)."""
        op = self.op
        y = self.y
        hard = op["hard"] or []
        if op["type"] == "binary":
            return a >= -slack if y == 1 else a <= slack
        f = sigma(a) if op["type"] == "probability" else a
        k = np.ones(len(a), dtype=bool)
        if "min_outcome" in hard:
            k &= f >= y - slack
        if "max_outcome" in hard:
            k &= f <= y + slack
        return k

    def objectives(self):
        op = self.op
        obj = op["objectives"]
        if obj is None:
            obj = {"proximity": 1, "closeness": 1} \
                if op["method"] == "weighted" else \
                {"proximity": 2, "closeness": 1}
        soft = dict(op["soft"] or {})
        if op["n_cf"] == 1:
            soft = {k: v for k, v in soft.items() if "diversity" not in k}
        return {**obj, **soft}

    def best(self, slack):
        """-> matrix of objective values of all feasible tuples, names; None
        when there are too many."""
        op = self.op
        K = op["n_cf"]
        k = np.flatnonzero(self.ok(self.a, slack))
        if len(k) ** K > 400000:
            return None
        hard = op["hard"] or []
        Z = [self.z[i] for i in k]
        ch = np.array([[c is not None for c in z] for z in Z],
                      dtype=bool).reshape(len(Z), self.m.p)
        zz = np.array([[-1 if c is None else c for c in z] for z in Z],
                      dtype=int).reshape(len(Z), self.m.p)
        w = self.objectives()
        names = sorted(w, key=lambda n: -w[n]) \
            if op["method"] == "hierarchical" else list(w)
        base = {"proximity": self.prox[k],
                "closeness": self.close[k]}
        f = sigma(self.a[k]) if op["type"] == "probability" else self.a[k]
        base["diff_outcome"] = np.abs(f - self.y)
        if K == 1:
            return np.column_stack([base[n] for n in names]), names, w
        grids = np.meshgrid(*[np.arange(len(k))] * K, indexing="ij")
        grids = [g.ravel() for g in grids]
        keep = np.ones(len(grids[0]), dtype=bool)
        u = np.zeros(len(keep))
        dv = np.zeros(len(keep))
        for a, b in itertools.combinations(range(K), 2):
            A, B = grids[a], grids[b]
            du = (ch[A] != ch[B]).sum(axis=1)
            both = ch[A] & ch[B]
            d = np.where(zz[A] == zz[B], 0, ch[A].astype(int) + ch[B])
            u += du
            dv += d.sum(axis=1)
            if "diversity_features" in hard:
                keep &= du >= 1
            if "diversity_values" in hard:
                keep &= ~(both & (zz[A] == zz[B])).any(axis=1)
        cols = []
        for n in names:
            if n == "diversity_features":
                cols.append(-u[keep])
            elif n == "diversity_values":
                cols.append(-dv[keep])
            else:
                cols.append(sum(base[n][g] for g in grids)[keep])
        return np.column_stack(cols), names, w


def execute(plan, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _execute(plan, ctx)


def _execute(plan, ctx):
    from optbinning import Scorecard
    from optbinning.scorecard import Counterfactual
    from sklearn.linear_model import LinearRegression, LogisticRegression
    random.seed(plan["seed"])
    np.random.seed(plan["seed"] % (1 << 31))
    df, y = dataset(plan["data"])
    names = list(df.columns)
    codes = {None: None, "list": list(CODES),
             "dict": {"a": CODES[0], "b": CODES[1]}}[plan["codes"]]
    if plan["codes"] == "dict":
        ctx.probe("dict-codes")
    est = LogisticRegression() if plan["data"]["target"] == "binary" \
        else LinearRegression()
    sc = Scorecard(binning_process=make_process(
        names, plan["cfg"], special_codes=codes), estimator=est)
    try:
        sc.fit(df, y, metric_special=plan["ms"], metric_missing=plan["mm"])
    except ValueError as e:
        ctx.event("no-scorecard", str(e)[:40])
        return
    if any(v.get("metric") for v in plan["cfg"]["transform"].values()):
        ctx.probe("metric-override")
    m = Model(plan, sc, df)
    sig = digest(sc.table(style="detailed").astype(str))
    c = Counterfactual(sc, special_missing=plan["sm"])
    if plan["sm"]:
        ctx.probe("special-missing")
    Xfit = None
    shown = None                      # what display() has to answer
    for n, op in enumerate(plan["ops"]):
        ctx.tick()
        ctx.steps += 1
        if op["op"] == "fit":
            X, _ = dataset(dict(plan["data"], seed=plan["data"]["seed"] +
                                op["v"]))
            try:
                c.fit(X)
            except Exception as e:
                C = np.atleast_2d(np.cov(np.asarray(
                    sc.binning_process_.transform(X[m.names], **m.kw),
                    dtype=float).T))
                ctx.check(m.p < 2 or np.linalg.cond(C) > 1e10, "fit-fails",
                          lambda: "fit raised %r, covariance\n%s" % (e, C))
                ctx.event("singular")
                return
            Xfit, shown = X, None
            expect_none(ctx, c, "after fit")
            continue
        q, kw = request(plan, op, m, df)
        R = Request(plan, op, m, Xfit, q)
        if R.singular or R.flat:
            ctx.event("degenerate")
            return
        R.y = kw["y"]
        if op["op"] == "bad":
            spoil(op, kw, m)
            before = digest(repr(sorted(kw.items(), key=str)))
            try:
                c.generate(q, **kw)
                ctx.check(False, "bad-request-accepted", "%s" % kw)
            except (ValueError, TypeError):
                ctx.probe("refused")
            ctx.check(before == digest(repr(sorted(kw.items(), key=str))),
                      "request-modified", "options changed")
            same_display(ctx, c, shown, "after a refused request")
            continue
        run_generate(ctx, plan, op, m, c, q, kw, R, shown)
        shown = snapshot(c)
        ctx.check(digest(sc.table(style="detailed").astype(str)) == sig,
                  "scorecard-changed", "generate changed the scorecard")


def request(plan, op, m, df):
    q = df.iloc[[op["row"] % len(df)]].copy()
    if op["blank"]:
        v = m.names[op["row"] % m.p]
        q[v] = None if q[v].dtype == object else np.nan
    if op["type"] == "binary":
        y = op["row"] % 2
    elif op["type"] == "probability":
        y = op["yq"]
    else:
        a = np.asarray(m.sc.predict(df), dtype=float)
        y = float(np.quantile(a, op["yq"]) + (op["row"] % 3 - 1) * .01)
    kw = dict(y=y, outcome_type=op["type"], n_cf=op["n_cf"],
              method=op["method"], objectives=copy.copy(op["objectives"]),
              max_changes=op["changes"],
              actionable_features=None if op["act"] is None else [
                  v for i, v in enumerate(m.names) if op["act"] >> i & 1]
              or [m.names[0]],
              hard_constraints=copy.copy(op["hard"]),
              soft_constraints=copy.copy(op["soft"]),
              priority_tol=op["tol"], time_limit=op["limit"])
    if op["act"] is not None and not any(op["act"] >> i & 1
                                         for i in range(m.p)):
        op["act"] = 1
    return q, kw


def spoil(op, kw, m):
    b = op["bad"]
    if b == "y":
        kw["y"] = "1"
    elif b == "n_cf":
        kw["n_cf"] = 0
    elif b == "feature":
        kw["actionable_features"] = ["nope"]
    elif b == "objective":
        kw["objectives"] = {"proximity": -1}
    elif b == "tol":
        kw["priority_tol"] = 1.5
    elif b == "limit":
        kw["time_limit"] = 0
    else:
        kw["hard_constraints"] = ["diff_outcome"]


def snapshot(c):
    try:
        return c.status, c.display(show_outcome=True).astype(str)
    except Exception as e:
        return type(e).__name__


def expect_none(ctx, c, where):
    try:
        d = c.display()
    except Exception:
        return
    ctx.check(False, "answer-without-request", "%s display() gives\n%s" % (
        where, d))


def same_display(ctx, c, shown, where):
    now = snapshot(c)
    if shown is None:
        expect_none(ctx, c, where)
        return
    ctx.check(digest(repr(now)) == digest(repr(shown)), "answer-changed",
              lambda: "%s display() gives\n%s\nbefore\n%s" % (
                  where, now, shown))


def run_generate(ctx, plan, op, m, c, q, kw, R, shown):
    form = q
    if op["kind"] == "dict":
        form = {v: q[v].iloc[0] for v in q.columns}
        ctx.probe("dict-query")
    if op["blank"]:
        ctx.probe("missing-query")
    before = digest(repr((form if isinstance(form, dict) else
                          form.astype(str).values.tolist(),
                          sorted(kw.items(), key=str))))
    sim = SolverSim(ctx, mip_mode=op["mode"], seed=op["sseed"],
                    noise=op["noise"], models=op["mode"] != "nosol")

    def call():
        with sim.installed():
            return c.generate(form, **kw)
    if op["strike"]:
        twin = copy.copy(c)

        def dry():
            with sim.installed():
                try:
                    twin.generate(form, **kw)
                except INJECTED:
                    raise
                except Exception:
                    pass
        _, prof = profile(ctx, dry)
        t, st = struck(ctx, call, prof, op["strike"])
        if t.error is not None and isinstance(t.error, INJECTED):
            ctx.probe("interrupted")
            ctx.nontrivial = True
            # the old answer, none, or a complete new one
            now = snapshot(c)
            if isinstance(now, tuple) and not (
                    shown is not None and digest(repr(now)) ==
                    digest(repr(shown))):
                verify(ctx, plan, op, m, c, R, None, sim)
    err = None
    try:
        call()
    except Exception as e:
        if isinstance(e, INJECTED):
            raise
        err = e
    ctx.check(before == digest(repr((form if isinstance(form, dict) else
                                     form.astype(str).values.tolist(),
                                     sorted(kw.items(), key=str)))),
              "request-modified", "generate changed what it was given")
    for k in sim.calls:
        ctx.check(k["limit"] is not None and
                  abs(k["limit"] - 1000 * op["limit"]) < 1,
                  "time-limit", "solver limit %r ms, asked for %r s" % (
                      k["limit"], op["limit"]))
    verify(ctx, plan, op, m, c, R, err, sim)


def verify(ctx, plan, op, m, c, R, err, sim):
    where = "%s %s" % (op["type"], {k: op[k] for k in (
        "n_cf", "method", "objectives", "changes", "act", "hard", "soft",
        "mode")})
    feas = None
    if R.exact:
        strict = R.best(-R.eps)
        feas = None if strict is None else len(strict[0]) > 0
    inside = R.lo - 1e-9 <= R.a.min() and R.a.max() <= R.hi + 1e-9
    if op["type"] == "probability" and not inside:
        feas = None
    if err is not None:
        ctx.check("hierarchical model" in str(err), "generate-fails",
                  lambda: "%s: generate raised %r" % (where, err))
        if op["mode"] != "nosol" and feas and not excused(ctx, sim):
            ctx.check(False, "no-counterfactual", "%s: %r, but alternatives "
                      "exist" % (where, err))
        expect_none(ctx, c, where)
        ctx.event("hierarchical-refused")
        return
    st = c.status
    ctx.event("generate", op["type"], op["method"], op["n_cf"], st)
    if st not in ("OPTIMAL", "FEASIBLE"):
        expect_none(ctx, c, where)
        ctx.check(op["mode"] == "nosol" or st == "INFEASIBLE",
                  "odd-status", lambda: "%s: status %s" % (where, st))
        if op["mode"] != "nosol" and feas and not excused(ctx, sim):
            ctx.check(False, "no-counterfactual", "%s: status %s, but "
                      "alternatives exist" % (where, st))
        ctx.probe("infeasible")
        return
    ctx.check(op["mode"] != "nosol", "invented", "%s: status %s although "
              "the solver found nothing" % (where, st))
    if op["mode"] in ("incumbent", "feasible") and op["method"] == "weighted":
        ctx.check(st == "FEASIBLE", "unproven-optimal",
                  "%s: status %s" % (where, st))
    ctx.nontrivial = True
    ctx.probe("found")
    if op["n_cf"] > 1:
        ctx.probe("several")
    if op["method"] == "hierarchical":
        ctx.probe("hierarchical")
    if op["type"] != "binary":
        ctx.probe(op["type"])
    if op["objectives"] == {"closeness": 1}:
        ctx.probe("closeness-only")
    d = c.display(show_outcome=True)
    only = c.display(show_only_changes=True)
    plain = c.display()
    K = op["n_cf"]
    ctx.check(len(d) == K and len(only) == K and len(plain) == K and
              list(plain.columns) == list(R.query.columns), "display-shape",
              lambda: "%s:\n%s" % (where, d))
    got = []
    for k in range(K):
        z = []
        rec = R.query.copy()
        full = True
        for v in R.query.columns:
            a, b = plain[v].iloc[k], only[v].iloc[k]
            q = R.query[v].iloc[0]
            if isinstance(b, str) and b == "-":
                ctx.check(digest(repr(a)) == digest(repr(q)) or a == q or
                          (pd.isnull(a) and pd.isnull(q)), "unchanged-differs",
                          lambda: "%s: %s is %r, query has %r" % (
                              where, v, a, q))
                if v in m.names:
                    z.append(None)
                continue
            ctx.check(v in m.names, "foreign-feature", "%s changed" % v)
            i = m.names.index(v)
            rows = [j for j, r in enumerate(m.rows[i])
                    if lab(r["label"]) == lab(a)]
            ctx.check(len(rows) >= 1, "unknown-bin",
                      lambda: "%s: %s = %r is no bin of %s" % (
                          where, v, a, [r["label"] for r in m.rows[i]]))
            j = rows[0]
            z.append(j)
            row = m.rows[i][j]
            ctx.check(plan["sm"] or not row["odd"], "special-offered",
                      "%s: %s = %r" % (where, v, a))
            ctx.check(R.act is None or v in R.act, "not-actionable",
                      "%s: %s changed, actionable %s" % (where, v, R.act))
            if row["value"] is None:
                full = False
                continue
            ctx.check(abs(row["value"] - R.x[i]) > 1e-9, "no-change",
                      lambda: "%s: %s changed to %r worth %r, as before" % (
                          where, v, a, row["value"]))
            rec[v] = pd.Series([row["real"]], index=rec.index,
                               dtype=object if isinstance(
                                   row["real"], (str, type(None)))
                               or rec[v].dtype == object else float)
        got.append(z)
        ch = sum(a is not None for a in z)
        ctx.check(ch <= R.max, "too-many-changes",
                  lambda: "%s: %d changes, at most %d" % (where, ch, R.max))
        if not full:
            continue
        # what the scorecard says about such a record
        a = m.icpt + float(m.x(rec) @ m.coef)
        out = float(m.sc.predict_proba(rec)[0, 1]) if m.binary else \
            float(m.sc.predict(rec)[0])
        ctx.check(abs(d["outcome"].iloc[k] - out) <= 1e-6 * max(1, abs(out)),
                  "outcome-differs", lambda: "%s: outcome %r, the scorecard "
                  "gives %r for\n%s" % (where, d["outcome"].iloc[k], out,
                                        rec))
        ctx.check(bool(R.ok(np.array([a]), R.eps)[0]), "outcome-missed",
                  lambda: "%s: wanted %r, decision value %r, outcome %r for"
                  "\n%s" % (where, R.y, a, out, plain.iloc[[k]]))
    hard = op["hard"] or []
    for A, B in itertools.combinations(got, 2):
        if "diversity_features" in hard:
            ctx.probe("diversity")
            ctx.check([x is None for x in A] != [x is None for x in B],
                      "same-features", "%s: %s" % (where, got))
        if "diversity_values" in hard:
            ctx.probe("diversity")
            ctx.check(not any(x is not None and x == w
                              for x, w in zip(A, B)), "same-values",
                      "%s: %s" % (where, got))
    if st == "OPTIMAL" and R.exact and op["mode"] == "full":
        best(ctx, op, m, R, got, where, sim)


def excused(ctx, sim):
    if sim.mistaken():
        ctx.probe("engine-mistaken")
        return True
    return False


def best(ctx, op, m, R, got, where, sim):
    try:
        optimal(ctx, op, m, R, got, where)
    except Violation:
        if not excused(ctx, sim):
            raise


def optimal(ctx, op, m, R, got, where):
    if op["type"] == "probability" and op["soft"] and \
            "diff_outcome" in op["soft"]:
        return
    strict, relaxed = R.best(-R.eps), R.best(R.eps)
    if strict is None or relaxed is None or not len(strict[0]):
        return
    M, names, w = strict
    val = value(R, op, got, names)
    ctx.probe("optimal-checked")
    if op["method"] == "weighted":
        W = np.array([w[n] for n in names])
        best = float((M @ W).min())
        mine = float(val @ W)
        ctx.check(mine <= best + 1e-4 * max(1, abs(best)), "not-optimal",
                  lambda: "%s: objective %r, %r is possible" % (
                      where, mine, best))
        return
    # the first objective is optimal within the tolerance; the last one is
    # best among those keeping the others near their optimum
    best = float(M[:, 0].min())
    rbest = float(relaxed[0][:, 0].min())
    lim = best + op["tol"] * max(abs(best), abs(rbest))
    slack = 1e-4 * max(1, abs(best))
    if len(names) == 1:
        ctx.check(val[0] <= best + slack, "not-optimal",
                  lambda: "%s: %s=%r, %r is possible" % (
                      where, names[0], val[0], best))
        return
    ctx.check(val[0] <= lim + slack, "priority-lost",
              lambda: "%s: %s=%r, at most %r allowed" % (
                  where, names[0], val[0], lim))
    if len(names) == 2:
        k = M[:, 0] <= rbest + op["tol"] * abs(rbest) - slack \
            if op["tol"] else M[:, 0] <= rbest + 1e-9
        if not k.any():
            return
        b2 = float(M[k, 1].min())
        ctx.check(val[1] <= b2 + 1e-4 * max(1, abs(b2)), "not-optimal",
                  lambda: "%s: %s=%r, %r is possible" % (
                      where, names[1], val[1], b2))


def value(R, op, got, names):
    pos = {tuple(z): i for i, z in enumerate(R.z)}
    ix = [pos[tuple(z)] for z in got]
    out = []
    for n in names:
        if n == "proximity":
            out.append(R.prox[ix].sum())
        elif n == "closeness":
            out.append(R.close[ix].sum())
        elif n == "diff_outcome":
            out.append(np.abs(R.a[ix] - R.y).sum())
        else:
            s = 0
            for A, B in itertools.combinations(got, 2):
                for x, w in zip(A, B):
                    if n == "diversity_features":
                        s += (x is None) != (w is None)
                    elif x != w:
                        s += (x is not None) + (w is not None)
            out.append(-s)
    return np.array(out, dtype=float)
