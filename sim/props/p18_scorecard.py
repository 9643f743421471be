"""P18: a scorecard's score is the sum of its points and agrees with the model.

A scorecard service: scorecards are trained (the rounding solver may be cut
short), deployed to replicas, saved and loaded, crashed and restored,
reconfigured and retrained in place, and asked for scores and predictions.
Every answer is compared with an independent model: which table row holds each
value, the points of those rows, the estimator applied to the value of those
rows, and the scaling the user asked for.
"""

import copy
import os
import pickle

import numpy as np
import pandas as pd

from ..core import INJECTED, digest, feq, nprng, pyrng
from ..faults import gen_strike, profile, struck
from ..oracle import UNKNOWN, BinaryRef, Bins, ContRef, expect
from ..solver import SolverSim
from ..tabular import CODES, dataset, gen_dataset, gen_process, make_process

ID = "P18"
TITLE = "a scorecard's score is the sum of its points and fits its model"
LEVEL = "exploration"
N_QUICK = 500
RULE = ("one run = one data set, process configuration, scaling and history "
        "of trainings, deployments, retrainings in place, crashes and "
        "requests; points, scores and predictions equal an independent "
        "model of the scorecard; non-trivial when a retraining, a restore "
        "or a fault happened; distinct by hash of the event log")
REAL = ["optbinning.scorecard (fit, scaling, rounding, score, predict, save, "
        "load)", "optbinning.binning.binning_process", "pickle", "OR-Tools",
        "scikit-learn estimators"]
STUB = ["service with replicas", "rounding solver outcome at the simulated "
        "deadline", "the failure (exception raised at an executed line)"]
PROBES = ["retrained-in-place", "crash-mid-request", "fit-refused",
          "unknown-category-scored", "scaling-None", "scaling-min_max",
          "scaling-pdo_odds", "scaling-min_max-rounded",
          "scaling-pdo_odds-rounded", "rounding-fallback"]
DICT = {"a": [-999.0], "b": -998.0}


def gen_scaling(r, t):
    kw = {"rounding": r.random() < .4, "intercept_based": r.random() < .4,
          "reverse_scorecard": r.random() < .4}
    sm = r.choice([None, "min_max", "min_max"] +
                  (["pdo_odds"] * 2 if t == "binary" else []))
    kw["scaling_method"] = sm
    kw["scaling_method_params"] = None
    if sm == "min_max":
        a = r.choice([0, 300, -50])
        kw["scaling_method_params"] = {"min": a,
                                       "max": a + r.choice([20, 100, 550])}
    elif sm:
        kw["scaling_method_params"] = {
            "pdo": r.choice([20, 15.5]), "odds": r.choice([50, 1, 0.5]),
            "scorecard_points": r.choice([600, 60])}
    else:
        kw["rounding"] = False
    return kw


def generate(seed, tier="quick"):
    r = pyrng("p18", seed)
    t = r.choice(["binary", "binary", "continuous"])
    data = gen_dataset(r, target=t, codes=True, n=r.randint(60, 200),
                       nv=r.randint(1, 4))
    cfg = gen_process(r, data)
    # "bins" and "indices" are no model inputs unless asked per variable
    ops = [{"op": "train", "v": 0, "kw": gen_scaling(r, t),
            "mip": r.choice(["full", "full", "nosol", "feasible"])}]
    for i in range(r.randint(6, 14)):
        k = r.random()
        if k < .62:
            ops.append({"op": "req", "rep": r.randrange(3),
                        "s": r.randrange(1 << 30),
                        "n": r.choice([1, 1, 3, 12, 40]),
                        "what": r.choice(["score", "score", "predict",
                                          "proba", "decision"]),
                        "cols": r.choice(["same", "same", "reversed",
                                          "extra"]),
                        "strike": gen_strike(r) if r.random() < .12
                        else None})
        elif k < .72:
            ops.append({"op": "restore", "rep": r.randrange(3),
                        "how": r.choice(["pickle", "file", "copy"])})
        elif k < .8:
            ops.append({"op": "table", "rep": r.randrange(3)})
        else:
            ops.append({"op": "train", "v": r.randrange(3),
                        "kw": gen_scaling(r, t),
                        "mip": r.choice(["full", "nosol", "feasible"]),
                        "rep": r.choice([None, 0, 1, 2])})
    return {"data": data, "cfg": cfg, "ops": ops,
            "dict": cfg["codes"] and t == "binary" and r.random() < .4,
            "mm": r.choice([0, 0, "empirical", 0.5]),
            "ms": r.choice([0, 0, "empirical", -0.5]),
            "sw": t == "binary" and r.random() < .2,
            "digits": r.choice([2, 2, 4]),
            "unk": r.random() < .06,
            "cat_unknown": 1.5 if r.random() < .06 else None}


class Card:
    """Reference of one trained scorecard."""

    def __init__(self, ctx, plan, kw, sc, X, y, sw, mip):
        self.plan, self.kw = plan, kw
        self.sc = sc
        t = plan["data"]["target"]
        self.names = [n for n, k in zip(X.columns,
                                        sc.binning_process_.get_support())
                      if k]
        self.est = sc.estimator_
        coef = np.asarray(self.est.coef_, dtype=float).ravel()
        b0 = float(np.ravel(self.est.intercept_)[0])
        self.codes = (DICT if plan["dict"] else list(CODES)) \
            if plan["cfg"]["codes"] else None
        self.b, self.ref, self.val, self.raw, self.pts = {}, {}, {}, {}, {}
        self.p = {}
        df = sc.table(style="detailed")
        short = sc.table()
        ctx.check(np.array_equal(df["Points"].to_numpy(dtype=float),
                                 short["Points"].to_numpy(dtype=float),
                                 equal_nan=True),
                  "tables-differ", "summary and detailed tables disagree")
        ctx.check(list(df["Variable"].unique()) == self.names,
                  "table-variables", lambda: "table lists %s, selected %s" % (
                      list(df["Variable"].unique()), self.names))
        for n, c in zip(self.names, coef):
            v = sc.binning_process_.get_binned_variable(n)
            cat = v.dtype == "categorical"
            tab = v.binning_table.build(show_digits=plan["digits"],
                                        add_totals=False)
            b = Bins(groups=[list(g) for g in v.splits], codes=self.codes) \
                if cat else Bins(splits=v.splits, codes=self.codes)
            ref = (BinaryRef if t == "binary" else ContRef)(
                b, X[n].to_numpy(), y)
            if sw is not None or \
                    (plan["cfg"]["fit"].get(n) or {}).get("class_weight"):
                ref.adopt(tab)
            p = plan["cfg"]["transform"].get(n) or {}
            m = p.get("metric") or ("woe" if t == "binary" else "mean")
            ms = p.get("metric_special", plan["ms"])
            mm = p.get("metric_missing", plan["mm"])
            col = {"woe": "WoE", "event_rate": "Event rate",
                   "mean": "Mean"}.get(m)
            tv = tab[col].to_numpy(dtype=float) if col else None
            vals = expect(ref, np.arange(b.n_rows), m, ms, mm, None, tv)
            self.b[n], self.ref[n] = b, ref
            self.val[n] = np.array(vals, dtype=float)
            u = (plan["cfg"]["fit"].get(n) or {}).get("cat_unknown")
            self.val[n] = np.append(
                self.val[n], (u if u is not None else -1 if m == "indices"
                              else ref.unknown(m)) if cat else np.nan)
            self.raw[n] = c * self.val[n]
            rows = df[df["Variable"] == n]
            self.pts[n] = rows["Points"].to_numpy(dtype=float)
            ctx.check(len(self.pts[n]) == b.n_rows, "table-rows", lambda: (
                "%s has %d rows in the scorecard, %d in its binning" % (
                    n, len(self.pts[n]), b.n_rows)))
            ctx.check(feq(rows["Coefficient"].to_numpy(dtype=float),
                          np.full(b.n_rows, c)), "table-coefficient",
                      "Coefficient column is not the estimator's")
            ctx.check(list(rows["Bin"].astype(str)) ==
                      list(tab["Bin"].astype(str)) and
                      list(rows["Count"]) == list(tab["Count"]),
                      "table-bins", "scorecard rows are not the binning's")
        self.b0 = b0
        self.icpt = float(np.ravel(sc.intercept_)[0])
        self.scaling(ctx, mip)

    def line(self):
        """score = slope * (sum of coefficient * value) + shift, or None."""
        kw, b0 = self.kw, self.b0
        m, q = kw["scaling_method"], kw["scaling_method_params"]
        s = -1 if kw["reverse_scorecard"] else 1
        if m is None:
            return 1.0, 0.0
        if m == "pdo_odds":
            f = q["pdo"] / np.log(2)
            off = q["scorecard_points"] - f * np.log(q["odds"])
            return -s * f, off - b0 * f
        lo = sum(self.raw[n][:-1].min() for n in self.names)
        hi = sum(self.raw[n][:-1].max() for n in self.names)
        if not hi - lo > 1e-9:
            return None
        a, b = q["min"], q["max"]
        k = s * (a - b) / (hi - lo)
        return k, (b if s > 0 else a) - k * lo

    def scaling(self, ctx, mip):
        kw = self.kw
        ln = self.line()
        self.ln = ln
        if ln is None:
            ctx.probe("no-range")
            return
        k, shift = ln
        r = kw["rounding"]
        q = kw["scaling_method_params"]
        ctx.probe("scaling-%s%s%s%s" % (
            kw["scaling_method"], "-rounded" if r else "",
            "-intercept" if kw["intercept_based"] else "",
            "-reverse" if kw["reverse_scorecard"] else ""))
        lo = sum(self.pts[n].min() for n in self.names)
        hi = sum(self.pts[n].max() for n in self.names)
        scale = 1 + abs(k) * max(abs(self.raw[n][:-1]).max()
                                 for n in self.names) + abs(shift)
        tol = 1e-8 * scale
        if not kw["intercept_based"]:
            ctx.check(self.icpt == 0, "intercept", lambda: "intercept_ is %r "
                      "without intercept_based" % self.icpt)
        elif not r:
            ctx.check(all(abs(self.pts[n].min()) <= tol
                          for n in self.names), "intercept-min",
                      "the lowest points of a variable are not zero")
        if r:
            ctx.check(all(float(p).is_integer() for n in self.names
                          for p in self.pts[n]) and
                      float(self.icpt).is_integer(), "not-rounded",
                      lambda: "rounding=True gives points %s, intercept %r" %
                      ({n: self.pts[n].tolist() for n in self.names},
                       self.icpt))
        # exact points of every row, one constant per variable
        dev = 0.0
        for n in self.names:
            d = self.pts[n] - k * self.raw[n][:-1]
            if not r:
                ctx.check(np.ptp(d) <= tol, "points-not-affine", lambda: (
                    "points of %s are %s, coefficient times value %s, "
                    "slope %r" % (n, self.pts[n].tolist(),
                                  self.raw[n][:-1].tolist(), k)))
            elif kw["scaling_method"] == "pdo_odds" or mip == "nosol":
                ctx.check(np.ptp(d) <= 1 + tol, "points-not-affine",
                          lambda: "rounded points of %s are %s, coefficient "
                          "times value times slope %s" % (
                              n, self.pts[n].tolist(),
                              (k * self.raw[n][:-1]).tolist()))
            dev += d[0]
        if not r:
            c = dev if kw["scaling_method"] else dev
            ctx.check(abs(c + self.icpt - shift) <= tol * 10,
                      "score-shift", lambda: "score minus slope times "
                      "prediction is %r, scaling asks for %r" % (
                          c + self.icpt, shift))
        if kw["scaling_method"] == "min_max":
            if not r:
                ctx.check(abs(lo + self.icpt - q["min"]) <= tol * 10 and
                          abs(hi + self.icpt - q["max"]) <= tol * 10,
                          "score-range", lambda: "scores span [%r, %r], asked "
                          "for %s" % (lo + self.icpt, hi + self.icpt, q))
            else:
                m = tol if mip != "nosol" else .5 * len(self.names) + 1
                ctx.check(abs(lo + self.icpt - q["min"]) <= m and
                          abs(hi + self.icpt - q["max"]) <= m,
                          "rounded-range", lambda: "rounded scores span "
                          "[%r, %r], asked for %s" % (
                              lo + self.icpt, hi + self.icpt, q))

    def cells(self, X):
        return {n: self.b[n].rows(X[n].to_numpy(dtype=object))
                for n in self.names}

    def xt(self, X):
        c = self.cells(X)
        # row -3 (UNKNOWN) -> last value
        return pd.DataFrame({n: self.val[n][np.where(
            c[n] == UNKNOWN, self.b[n].n_rows, c[n])] for n in self.names})

    def score(self, X):
        out = np.full(len(X), self.icpt)
        for n, r in self.cells(X).items():
            out += np.where(r == UNKNOWN, np.nan, self.pts[n][
                np.where(r == UNKNOWN, 0, r)])
        return out

    def linear(self, X):
        s = np.zeros(len(X))
        for n, r in self.cells(X).items():
            s += self.raw[n][np.where(r == UNKNOWN, self.b[n].n_rows, r)]
        return self.ln[0] * s + self.ln[1]


def execute(plan, ctx):
    from optbinning import Scorecard
    from sklearn.linear_model import LinearRegression, LogisticRegression
    t = plan["data"]["target"]
    cfg = copy.deepcopy(plan["cfg"])
    if plan.get("cat_unknown") is not None and t == "binary":
        for n, c in plan["data"]["cols"].items():
            if c["kind"].startswith("cat"):
                cfg["fit"].setdefault(n, {})["cat_unknown"] = \
                    plan["cat_unknown"]
    plan = dict(plan, cfg=cfg)
    reps = [None] * 3
    names = list(plan["data"]["cols"])
    over = {"special_codes": copy.deepcopy(DICT)} if plan["dict"] else {}

    def train(op):
        d = dict(plan["data"], seed=plan["data"]["seed"] + 7919 * op["v"])
        X, y = dataset(d)
        kw = copy.deepcopy(op["kw"])
        old = op.get("rep")
        if old is not None and reps[old] is not None:
            sc = reps[old][0]
            sc.set_params(**kw)
            ctx.probe("retrained-in-place")
        else:
            sc = Scorecard(make_process(names, cfg, **over),
                           LogisticRegression() if t == "binary" else
                           LinearRegression(), **kw)
        sw = None
        if plan["sw"]:
            sw = nprng("sw", d["seed"]).choice([0.5, 1.0, 2.0], len(y))
        mip = op["mip"]
        try:
            with SolverSim(ctx, mip_mode=mip, seed=7).installed() as sim:
                sc.fit(X, y, sample_weight=sw, metric_special=plan["ms"],
                       metric_missing=plan["mm"],
                       show_digits=plan["digits"])
        except ValueError as e:
            ctx.event("fit-refused", op["v"], str(e)[:60])
            ctx.probe("fit-refused")
            if old is not None:
                reps[old] = None
            return
        # the rounding program is the last one solved
        if op["kw"]["rounding"] and \
                op["kw"]["scaling_method"] == "min_max" and \
                sim.calls[-1]["status"] not in (0, 1):
            mip = "nosol"
            ctx.probe("rounding-fallback")
        c = Card(ctx, plan, op["kw"], sc, X, y, sw, mip)
        U = X.iloc[:60].copy()
        extra = X.iloc[:6].copy()
        for n in names:
            k = plan["data"]["cols"][n]["kind"]
            b = c.b.get(n)
            if b is not None and b.groups is None and b.splits and \
                    extra[n].dtype.kind == "f":
                extra[n] = [b.splits[i % len(b.splits)] for i in range(6)]
            elif k.startswith("cat"):
                extra.loc[extra.index[0], n] = "??"
            elif k == "num":
                extra.loc[extra.index[1], n] = np.nan
        c.U = pd.concat([U, extra], ignore_index=True)
        blob = pickle.dumps(sc)
        for i in range(3):
            if i == old:
                reps[i] = (sc, c, blob)
            else:
                reps[i] = (pickle.loads(blob), c, blob)
        ctx.event("trained", op["v"], digest(sc.table().astype(str)))

    for op in plan["ops"]:
        ctx.tick()
        ctx.steps += 1
        k = op["op"]
        if k == "train":
            if ctx.steps > 1:
                ctx.nontrivial = True
            train(op)
            continue
        if reps[op["rep"]] is None:
            continue
        sc, c, blob = reps[op["rep"]]
        if k == "restore":
            if op["how"] == "copy":
                new = copy.deepcopy(sc)
            elif op["how"] == "file":
                p = os.path.join(ctx.scratch, "card.pkl")
                sc.save(p)
                new = Scorecard.load(p)
            else:
                new = pickle.loads(blob)
            reps[op["rep"]] = (new, c, blob)
            ctx.fault("replica-crash-restore")
            continue
        if k == "table":
            df = sc.table()
            for n in c.names:
                ctx.check(feq(df[df["Variable"] == n]["Points"].to_numpy(
                    dtype=float), c.pts[n], 0, 0), "table-changed",
                    "points of a replica differ from the trained ones")
            continue
        r = nprng("rows", op["s"])
        X = c.U.iloc[r.integers(0, len(c.U), op["n"])]
        if op["what"] == "score" and not plan["unk"]:
            bad = np.zeros(len(X), dtype=bool)
            for rows in c.cells(X).values():
                bad |= rows == UNKNOWN
            X = X[~bad]
            if not len(X):
                continue
        ref = X
        if op["cols"] == "reversed":
            X = X[list(X.columns)[::-1]]
        elif op["cols"] == "extra":
            X = X.assign(zz="other")
            X = X[["zz"] + names]
        if t != "binary" and op["what"] in ("proba", "decision"):
            op = dict(op, what="predict")
        f = {"score": sc.score, "predict": sc.predict,
             "proba": getattr(sc, "predict_proba"),
             "decision": sc.decision_function}[op["what"]]

        def call():
            return np.asarray(f(X), dtype=float)

        if op["strike"]:
            _, prof = profile(ctx, lambda: quiet(call))
            tk, st = struck(ctx, call, prof, op["strike"])
            if tk.error is not None and isinstance(tk.error, INJECTED):
                ctx.probe("crash-mid-request")
        rows = c.cells(ref)
        has_unk = any((v == UNKNOWN).any() for v in rows.values())
        if has_unk and op["what"] == "score":
            ctx.probe("unknown-category-scored")
            unknown_score(ctx, c, call, ref)
            continue
        if op["what"] == "score" and plan["cat_unknown"] is not None:
            try:
                call()
            except ValueError as e:
                ctx.check("cat_unknown" not in str(e), "cannot-score",
                          "score() raised: %s" % e,
                          key="score-with-cat-unknown")
        got = ctx.must(op["what"], call)
        ctx.event("answer", op["what"], digest(got))
        if op["what"] == "score":
            want = c.score(ref)
            ctx.check(feq(got, want, 1e-9, 1e-9), "wrong-score", lambda: (
                "scores %s, points of the rows say %s" % (
                    got.tolist()[:5], want.tolist()[:5])))
            if c.ln is not None and not c.kw["rounding"]:
                lin = c.linear(ref)
                ctx.check(feq(got, lin, 1e-6, 1e-6), "score-not-affine",
                          lambda: "scores %s, scaled predictions %s" % (
                              got.tolist()[:5], lin.tolist()[:5]))
            continue
        xt = c.xt(ref)
        e = c.est
        want = {"predict": e.predict, "proba": getattr(
            e, "predict_proba", None), "decision": getattr(
                e, "decision_function", None)}[op["what"]](xt)
        want = np.asarray(want, dtype=float)
        if op["what"] == "predict" and t == "binary":
            sure = np.abs(e.decision_function(xt)) > 1e-9
            ok = got.shape == want.shape and (got == want)[sure].all()
        else:
            ok = got.shape == want.shape and feq(got, want, 1e-8, 1e-8)
        ctx.check(ok, "wrong-prediction", lambda: (
            "%s gives %s, the model on the rows' values %s" % (
                op["what"], got.tolist()[:5], want.tolist()[:5])))
        if op["what"] == "proba":
            ctx.check(feq(got.sum(axis=1), np.ones(len(got))) and
                      (got >= 0).all(), "not-a-probability",
                      "probabilities do not add up to one")


def unknown_score(ctx, c, call, ref):
    key = "score-of-unknown-category"
    try:
        got = call()
    except Exception as e:
        ctx.check(False, "unknown-category", "scoring a category not seen in "
                  "training raised %s" % type(e).__name__, key=key)
    if c.ln is None:
        return
    lin = c.linear(ref)
    tol = 1e-6 * (1 + abs(lin)) + (len(c.names) if c.kw["rounding"] else 0)
    ctx.check((abs(got - lin) <= tol).all(), "unknown-category", lambda: (
        "score %s, scaled prediction %s" % (got.tolist()[:5],
                                            lin.tolist()[:5])), key=key)


def quiet(f):
    try:
        f()
    except Exception:
        pass
