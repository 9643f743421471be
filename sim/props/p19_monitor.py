"""P19: monitoring and metric reports say what happened to the populations.

A monitored scorecard in production: windows of a drifting population arrive
(values missing for the first time, special codes, shifts, tiny windows,
windows of one class), monitors are fitted on them, interrupted, restored,
fitted again and read.  Everything they report is recomputed from the records
and the scores alone.
"""

import contextlib
import copy
import io
import pickle

import numpy as np
import pandas as pd
from scipy import stats

from ..core import INJECTED, digest, feq, nprng, pyrng
from ..faults import gen_strike, profile, struck
from ..oracle import UNKNOWN, Bins
from ..tabular import CODES, dataset, gen_dataset, gen_process, make_process
from .p18_scorecard import DICT, gen_scaling

ID = "P19"
TITLE = "monitoring reports what happened to the populations"
LEVEL = "exploration"
N_QUICK = 1000
RULE = ("one run = one scorecard and a history of windows of a drifting "
        "population, monitors fitted on them (some interrupted, restored, "
        "reused) and reports read; counts, stability indices, tests, target "
        "and performance figures equal those recomputed from the records; "
        "non-trivial when a window drifted, or a monitor was reused, "
        "interrupted or restored; distinct by hash of the event log")
REAL = ["optbinning.scorecard.monitoring", "optbinning.scorecard.scorecard",
        "optbinning.metrics", "optbinning.scorecard.plots",
        "scikit-learn estimators and trees"]
STUB = ["population source", "the failure (exception raised at an executed "
        "line)", "matplotlib canvas (Agg)"]
PROBES = ["boxed-list", "boxed-Series", "drift-missing", "drift-codes", "drift-shift", "drift-tiny",
          "drift-one-class", "empty-bin", "reused", "interrupted",
          "restored", "report", "fit-refused", "score-at-split",
          "plot-psi", "plot-ks", "plot-roc", "plot-cap"]
DRIFTS = ["none", "none", "missing", "codes", "shift", "shift", "tiny",
          "one-class"]


def gen_win(r):
    return {"s": r.randrange(1 << 30), "d": r.choice(DRIFTS),
            "n": r.choice([30, 80, 150]), "f": r.random()}


def generate(seed, tier="quick"):
    r = pyrng("p19", seed)
    t = r.choice(["binary", "binary", "continuous"])
    data = gen_dataset(r, target=t, codes=True, n=r.randint(60, 200),
                       nv=r.randint(1, 3))
    cfg = gen_process(r, data)
    kw = gen_scaling(r, t)
    ops = []
    for i in range(r.randint(2, 5)):
        ops.append({"op": "fit", "m": r.randrange(2), "a": gen_win(r),
                    "e": r.choice(["train", "train", gen_win(r)]),
                    "kw": {"psi_method": r.choice(["cart", "uniform",
                                                   "quantile"]),
                           "psi_n_bins": r.choice([2, 5, 10, 20]),
                           "psi_min_bin_size": r.choice([.02, .05, .2]),
                           "show_digits": r.choice([0, 2, 4])},
                    "strike": gen_strike(r) if r.random() < .2 else None})
        if r.random() < .3:
            ops.append({"op": "restore", "m": r.randrange(2),
                        "how": r.choice(["pickle", "copy"])})
        for j in range(r.randint(1, 3)):
            ops.append({"op": "read", "m": r.randrange(2),
                        "what": r.choice(["psi", "var", "vars", "tests",
                                          "report", "info"]),
                        "style": r.choice(["summary", "detailed"]),
                        "v": r.randrange(4)})
        if r.random() < .25:
            ops.append({"op": "plot", "what": r.choice(
                ["psi", "ks", "roc", "cap"]), "m": r.randrange(2)})
    return {"data": data, "cfg": cfg, "kw": kw, "ops": ops,
            "dict": cfg["codes"] and t == "binary" and r.random() < .4}


def window(plan, w):
    d = dict(plan["data"], seed=plan["data"]["seed"] ^ (w["s"] + 1),
             n=w["n"])
    X, y = dataset(d)
    k = w["d"]
    rng = nprng("win", w["s"])
    num = [c for c in X.columns if plan["data"]["cols"][c]["kind"] == "num"]
    f = .05 + .9 * w["f"]
    if k == "missing":
        for c in X.columns:
            if plan["data"]["cols"][c]["kind"] != "int":
                X.loc[rng.random(len(X)) < f / 2, c] = \
                    np.nan if c in num else None
    elif k == "codes" and plan["cfg"]["codes"]:
        for c in num:
            X.loc[rng.random(len(X)) < f / 2, c] = rng.choice(CODES)
    elif k == "shift":
        nums = [c for c in X.columns if X[c].dtype.kind in "fi"]
        if nums:
            c = nums[0]
            v = X[c].to_numpy(dtype=float)
            with np.errstate(all="ignore"):
                q = np.nanquantile(v, f)
            keep = v >= q if w["s"] % 2 else v <= q
            if keep.sum() > 1:
                X, y = X[keep], y[keep]
    elif k == "tiny":
        m = 1 + w["s"] % 6
        X, y = X.iloc[:m], y[:m]
    elif k == "one-class" and plan["data"]["target"] == "binary":
        m = y == w["s"] % 2
        if m.any():
            X, y = X[m], y[m]
    else:
        k = "none"
    # categories of the training sample only
    tr, _ = dataset(plan["data"])
    keep = np.ones(len(X), dtype=bool)
    for c in X.columns:
        if plan["data"]["cols"][c]["kind"] != "num":
            known = set(tr[c].dropna())
            keep &= X[c].isna().to_numpy() | X[c].isin(known).to_numpy()
    return X[keep].reset_index(drop=True), np.asarray(y)[keep], k


def psi(a, e):
    """Share of each bin and its contribution to the index."""
    p, q = a / a.sum(), e / e.sum()
    out = np.zeros(len(p))
    for i in range(len(p)):
        if p[i] == q[i]:
            continue
        out[i] = np.inf if p[i] == 0 or q[i] == 0 else \
            (p[i] - q[i]) * np.log(p[i] / q[i])
    return p, q, out


def counts(rows, n):
    return np.bincount(rows, minlength=n)[:n]


def chi2(obs):
    """Pearson's test of a 2x2 table; nan when it is not defined."""
    n = obs.sum()
    r, c = obs.sum(axis=1), obs.sum(axis=0)
    if (r == 0).any() or (c == 0).any():
        return np.nan, np.nan
    e = np.outer(r, c) / n
    t = ((obs - e) ** 2 / e).sum()
    return t, stats.chi2.sf(t, 1)


def auc(y, s):
    """Probability that an event scores above a non-event (ties half)."""
    a, b = s[y == 1], s[y == 0]
    if not len(a) or not len(b):
        return np.nan
    g = (a[:, None] > b[None, :]).sum() + .5 * (a[:, None] ==
                                                b[None, :]).sum()
    return g / (len(a) * len(b))


def ks_score(y, s):
    """Largest lead of the non-events' distribution over the events'."""
    if y.min() == y.max():
        return np.nan
    v = np.unique(s)
    return max((s[y == 0] <= t).mean() - (s[y == 1] <= t).mean() for t in v)


def rates(y, p):
    with np.errstate(all="ignore"):
        n1, n0 = np.float64((y == 1).sum()), np.float64((y == 0).sum())
        tpr = ((y == 1) & (p == 1)).sum() / n1
        tnr = ((y == 0) & (p == 0)).sum() / n0
        fpr, fnr = 1 - tnr, 1 - tpr
        dp = np.sqrt(3) / np.pi * (np.log(tpr / (1 - tnr)) +
                                   np.log(tnr / (1 - tpr)))
        return {"True positive rate": tpr, "True negative rate": tnr,
                "False positive rate": fpr, "False negative rate": fnr,
                "Balanced accuracy": .5 * (tpr + tnr),
                "Discriminant power": dp}


def regr(y, p):
    with np.errstate(all="ignore"):
        e = y - p
        a = np.abs(e)
        pe = e / y
        sm = a / (np.abs(y) + np.abs(p))
        den = ((y - y.mean()) ** 2).sum()
        return {"Mean absolute error": a.mean(),
                "Mean squared error": (e ** 2).mean(),
                "Median absolute error": np.median(a),
                "Explained variance": 1 - e.var() / y.var()
                if y.var() else None,
                "R^2": 1 - (e ** 2).sum() / den if den else None,
                "MPE": pe.mean(), "MAPE": np.abs(pe).mean(),
                "SMAPE": sm.mean(), "MdAPE": np.median(np.abs(pe)),
                "SMdAPE": np.median(sm)}


class Ref:
    """What a monitor fitted on (Xa, ya) against (Xe, ye) must report."""

    def __init__(self, plan, sc, Xa, ya, Xe, ye, kw):
        self.plan, self.sc, self.kw = plan, sc, kw
        self.a, self.e = (Xa, ya), (Xe, ye)
        self.binary = plan["data"]["target"] == "binary"
        self.sa = np.asarray(sc.score(Xa), dtype=float)
        self.se = np.asarray(sc.score(Xe), dtype=float)
        codes = (DICT if plan["dict"] else list(CODES)) \
            if plan["cfg"]["codes"] else None
        self.vars = [n for n, k in zip(
            Xa.columns, sc.binning_process_.get_support()) if k]
        self.b = {}
        for n in self.vars:
            v = sc.binning_process_.get_binned_variable(n)
            self.b[n] = Bins(groups=[list(g) for g in v.splits],
                             codes=codes) if v.dtype == "categorical" else \
                Bins(splits=v.splits, codes=codes)

    def system(self, ctx, splits):
        splits = np.asarray(splits, dtype=float)
        kw = self.kw
        ctx.check(np.isfinite(splits).all() and (np.diff(splits) > 0).all()
                  and len(splits) < kw["psi_n_bins"] + 1, "psi-splits",
                  lambda: "psi_splits %s for %d bins" % (
                      splits.tolist(), kw["psi_n_bins"]))
        b = Bins(splits=splits)
        self.nb = b.nb
        self.lab = b.labels(kw["show_digits"])[:b.nb]
        self.ra, self.re = b.rows(self.sa), b.rows(self.se)
        self.ca, self.ce = counts(self.ra, b.nb), counts(self.re, b.nb)
        if np.isin(self.sa, splits).any() or np.isin(self.se, splits).any():
            ctx.probe("score-at-split")
        if (self.ca == 0).any() or (self.ce == 0).any():
            ctx.probe("empty-bin")
        if kw["psi_method"] == "cart":
            m = kw["psi_min_bin_size"] * len(self.se)
            ctx.check((self.ce >= m - 1e-9).all() or self.nb == 1,
                      "psi-bin-size", lambda: "bins hold %s of %d records, "
                      "asked at least %r" % (self.ce.tolist(), len(self.se),
                                             kw["psi_min_bin_size"]))
        self.p, self.q, self.psi = psi(self.ca, self.ce)

    def psi_table(self, ctx, m):
        self.system(ctx, m.psi_splits)
        t = m.psi_table()
        d, tot = t.iloc[:-1], t.iloc[-1]
        ctx.check(t.index[-1] == "Totals" and
                  list(d["Bin"]) == self.lab, "psi-bins", lambda: (
                      "PSI table lists %s, bins are %s" % (
                          list(d["Bin"]), self.lab)))
        for c, want in (("Count A", self.ca), ("Count E", self.ce),
                        ("Count A (%)", self.p), ("Count E (%)", self.q),
                        ("PSI", self.psi)):
            got = d[c].to_numpy(dtype=float)
            ctx.check(feq(got, want), "psi-table", lambda: (
                "%s is %s, the scores say %s" % (c, got.tolist(),
                                                 list(want))))
        want = [len(self.sa), len(self.se), 1, 1, self.psi.sum()]
        got = [float(tot[c]) for c in ("Count A", "Count E", "Count A (%)",
                                       "Count E (%)", "PSI")]
        ctx.check(feq(got, want), "psi-totals", lambda: (
            "totals %s, expected %s" % (got, want)))

    def variable(self, n):
        b = self.b[n]
        ra = b.rows(self.a[0][n].to_numpy(dtype=object))
        re = b.rows(self.e[0][n].to_numpy(dtype=object))
        assert not (ra == UNKNOWN).any() and not (re == UNKNOWN).any()
        ca, ce = counts(ra, b.n_rows), counts(re, b.n_rows)
        return (ca, ce) + psi(ca, ce)

    def check_var(self, ctx, n, d):
        ca, ce, p, q, s = self.variable(n)
        k = len(d)
        tab = self.sc.table()
        bins = list(tab[tab["Variable"] == n]["Bin"].astype(str))
        ctx.check(list(d["Bin"].astype(str)) == bins[:k], "var-bins",
                  lambda: "%s has bins %s in the report, %s in the "
                  "scorecard" % (n, list(d["Bin"]), bins))
        ctx.check(d["Count A"].sum() == len(self.a[1]) and
                  d["Count E"].sum() == len(self.e[1]), "var-records-lost",
                  lambda: "%s: %d of %d actual and %d of %d expected records "
                  "are counted" % (n, d["Count A"].sum(), len(self.a[1]),
                                   d["Count E"].sum(), len(self.e[1])))
        for c, want in (("Count A", ca), ("Count E", ce),
                        ("Count A (%)", p), ("Count E (%)", q),
                        ("PSI", s)):
            got = d[c].to_numpy(dtype=float)
            ctx.check(feq(got, want[:k]), "var-table", lambda: (
                "%s of %s is %s, the records say %s" % (
                    c, n, got.tolist(), want[:k].tolist())))

    def tests_table(self, ctx, t):
        ctx.check(list(t["Bin"]) == self.lab and
                  list(t["Count A"]) == list(self.ca) and
                  list(t["Count E"]) == list(self.ce), "tests-bins",
                  "tests table has other bins or counts")
        ya, ye = self.a[1], self.e[1]
        for i in range(self.nb):
            a, e = ya[self.ra == i], ye[self.re == i]
            r = t.iloc[i]
            with np.errstate(all="ignore"):
                if self.binary:
                    obs = np.array([[(a == 0).sum(), (e == 0).sum()],
                                    [(a == 1).sum(), (e == 1).sum()]])
                    want = [a.mean() if len(a) else np.nan,
                            e.mean() if len(e) else np.nan]
                    want += chi2(obs)
                    got = [r[c] for c in ("Event rate A", "Event rate E",
                                          "statistic", "p-value")]
                else:
                    ma, me, va, ve = [f(v) if len(v) else np.nan for f, v in
                                      ((np.mean, a), (np.mean, e),
                                       (np.std, a), (np.std, e))]
                    want = [ma, me, va, ve]
                    na, ne = np.float64(len(a)), np.float64(len(e))
                    u, w = va ** 2 / na, ve ** 2 / ne
                    s = (ma - me) / np.sqrt(u + w)
                    df = (u + w) ** 2 / (u ** 2 / (na - 1) +
                                         w ** 2 / (ne - 1))
                    if len(a) < 2 or len(e) < 2 or u + w == 0:
                        s = None
                    want += [s, None if s is None else
                             2 * stats.t.sf(abs(s), df)]
                    got = [r[c] for c in ("Mean A", "Mean E", "Std A",
                                          "Std E", "statistic", "p-value")]
            ok = all(w is None or feq(float(g), float(w), 1e-7, 1e-9)
                     for g, w in zip(got, want))
            ctx.check(ok, "tests-table", lambda: "bin %s: tests table says "
                      "%s, the records %s" % (self.lab[i],
                                              list(map(float, got)), want))

    def report(self, ctx, text):
        """The printed report, figure by figure."""
        lines = [x.strip() for x in text.splitlines() if x.strip()]

        def after(key):
            hit = [x for x in lines if x.startswith(key)]
            ctx.check(len(hit) == 1, "report-line",
                      lambda: "report has %d lines %r" % (len(hit), key))
            return hit[0][len(key):].split()

        tot = self.psi.sum()
        w = after("PSI total:")
        verdict = "No significant change" if tot < .1 else \
            "Requires investigation" if tot < .25 else "Significance change"
        near = min(abs(tot - .1), abs(tot - .25)) < 1e-9
        ctx.check(num_eq(w[0], tot, 4) and
                  (near or " ".join(w[1:]) == "(%s)" % verdict),
                  "report-psi", lambda: "report says PSI %s, it is %r" % (
                      " ".join(w), tot))
        edges = [(0, .1), (.1, .25), (.25, np.inf)]
        if not any(abs(x - y) < 1e-9 for x in self.psi for y in (.1, .25)):
            for (lo, hi), key in zip(edges, ("[0.00, 0.10)", "[0.10, 0.25)",
                                             "[0.25, Inf+)")):
                n = int(((self.psi >= lo) & (self.psi < hi)).sum())
                if hi == np.inf:
                    n = int((self.psi >= lo).sum())
                ctx.check(int(after(key)[0]) == n, "report-psi-bins",
                          lambda: "report counts %s bins with PSI in %s, "
                          "there are %d" % (after(key)[0], key, n))
        ya, ye = self.a[1], self.e[1]
        pa = np.asarray(self.sc.predict(self.a[0]), dtype=float)
        pe = np.asarray(self.sc.predict(self.e[0]), dtype=float)
        rows = []
        if self.binary:
            for k, f in (("Number of records", len),
                         ("Event records", lambda y: (y == 1).sum()),
                         ("Non-event records", lambda y: (y == 0).sum())):
                w = after(k)
                ctx.check([int(w[0]), int(w[2])] == [f(ya), f(ye)],
                          "report-target", lambda: "report: %s %s" % (k, w))
                if k != "Number of records":
                    ctx.check(num_eq(w[1], f(ya) / len(ya), 6) and
                              num_eq(w[3], f(ye) / len(ye), 6),
                              "report-target", lambda: "report: %s %s" % (
                                  k, w))
            ma, me = rates(ya, pa), rates(ye, pe)
            ma["Gini"] = 2 * auc(ya, np.asarray(
                self.sc.predict_proba(self.a[0]))[:, 1]) - 1
            me["Gini"] = 2 * auc(ye, np.asarray(
                self.sc.predict_proba(self.e[0]))[:, 1]) - 1
        else:
            for k, f in (("Mean", np.mean), ("Std", np.std),
                         ("p25", lambda y: np.percentile(y, 25)),
                         ("Median", np.median),
                         ("p75", lambda y: np.percentile(y, 75))):
                w = [x.split()[1:] for x in lines if x.split()[0] == k and
                     len(x.split()) == 3]
                ctx.check(len(w) == 1 and num_eq(w[0][0], f(ya), 4) and
                          num_eq(w[0][1], f(ye), 4), "report-target",
                          lambda: "report: %s %s, records %r %r" % (
                              k, w, f(ya), f(ye)))
            ma, me = regr(ya, pa), regr(ye, pe)
        for k in ma:
            w = after(k)
            x, z = ma[k], me[k]
            ok = len(w) == 3 and (x is None or num_eq(w[0], x, 4)) and \
                (z is None or num_eq(w[1], z, 4))
            if ok and x is not None and z is not None:
                with np.errstate(all="ignore"):
                    ok = num_eq(w[2], x - z, 4)
            ctx.check(ok, "report-performance", lambda: (
                "report: %s %s, records %r %r" % (k, w, x, z)))


def num_eq(s, x, d):
    g = float(s)
    x = float(x)
    if np.isnan(x) or np.isinf(x):
        return str(g) == str(x)
    return abs(g - x) <= 10.0 ** -d * (.51 + abs(x) * 1e-3)


def boxed(r, y):
    """The same targets as another container."""
    k = r.choice(["array", "array", "list", "series", "shuffled"])
    if k == "list":
        return y.tolist()
    if k == "array":
        return y
    i = list(range(len(y)))
    if k == "shuffled":
        r.shuffle(i)
    return pd.Series(y, index=i)


def execute(plan, ctx):
    from optbinning import Scorecard
    from optbinning.scorecard import ScorecardMonitoring
    from sklearn.exceptions import NotFittedError
    from sklearn.linear_model import LinearRegression, LogisticRegression
    import matplotlib.pyplot as plt
    t = plan["data"]["target"]
    names = list(plan["data"]["cols"])
    over = {"special_codes": copy.deepcopy(DICT)} if plan["dict"] else {}
    X, y = dataset(plan["data"])
    sc = Scorecard(make_process(names, copy.deepcopy(plan["cfg"]), **over),
                   LogisticRegression() if t == "binary" else
                   LinearRegression(), **copy.deepcopy(plan["kw"]))
    try:
        sc.fit(X, y)
        if not np.isfinite(sc.score(X)).all():
            ctx.probe("no-range")
            return
    except ValueError as e:
        ctx.event("card-refused", str(e)[:60])
        ctx.probe("fit-refused")
        return
    blob = pickle.dumps(sc)
    mons = [None, None]         # (monitor, Ref or None)

    def win(w):
        if w == "train":
            return X.copy(), y.copy(), "none"
        return window(plan, w)

    for op in plan["ops"]:
        ctx.tick()
        ctx.steps += 1
        k = op["op"]
        if k == "fit":
            Xa, ya, d = win(op["a"])
            Xe, ye, _ = win(op["e"])
            if not len(ya) or len(ye) < 4 or (
                    t == "binary" and ye.min() == ye.max()):
                continue
            if d != "none":
                ctx.probe("drift-" + d)
                ctx.nontrivial = True
            i = op["m"]
            if mons[i] is None:
                m = ScorecardMonitoring(sc, **op["kw"])
            else:
                m = mons[i][0]
                m.set_params(**op["kw"])
                ctx.probe("reused")
                ctx.nontrivial = True
            before = [digest(v.copy()) for v in (Xa, ya, Xe, ye)]
            box = pyrng("box", plan["seed"], ctx.steps)
            ba, be = boxed(box, ya), boxed(box, ye)
            ctx.probe("boxed-" + type(ba).__name__)

            def call():
                with contextlib.redirect_stdout(io.StringIO()):
                    m.fit(Xa, ba, Xe, be)
                return True

            ref = Ref(plan, pickle.loads(blob), Xa, ya, Xe, ye, op["kw"])
            err = None
            shown = digest(m.psi_table()) if mons[i] and mons[i][1] else None
            if op["strike"]:
                probe = copy.deepcopy(m)

                def dry():
                    try:
                        probe.fit(Xa, ba, Xe, be)
                    except ValueError:
                        pass
                _, prof = profile(ctx, dry)
                tk, st = struck(ctx, call, prof, op["strike"])
                err = tk.error
                if isinstance(err, INJECTED):
                    ctx.probe("interrupted")
                    ctx.nontrivial = True
                    # interrupted before anything was discarded, or in the
                    # middle, or with everything done
                    old = None
                    try:
                        if shown is not None and \
                                digest(m.psi_table()) == shown:
                            old = mons[i][1]
                        else:
                            m.psi_table()
                            old = ref
                        old.psi_table(ctx, m)
                    except NotFittedError:
                        pass
                    mons[i] = (m, old)
                    continue
            else:
                try:
                    call()
                except Exception as e:
                    err = e
            if isinstance(err, ValueError) and refusable(err, ya, ye, t):
                ctx.probe("fit-refused")
                ctx.event("refused", str(err)[:60])
                mons[i] = (m, None)
                continue
            if err is not None:
                ctx.check(False, "monitor-fit", "fit raised %s: %s" % (
                    type(err).__name__, str(err)[:200]))
            ctx.check(before == [digest(v) for v in (Xa, ya, Xe, ye)],
                      "inputs-changed", "fit changed its inputs")
            mons[i] = (m, ref)
            ref.psi_table(ctx, m)
            ctx.event("fitted", i, digest(m.psi_table().astype(str)))
            continue
        if mons[op["m"]] is None:
            continue
        m, ref = mons[op["m"]]
        if k == "restore":
            m = pickle.loads(pickle.dumps(m)) if op["how"] == "pickle" else \
                copy.deepcopy(m)
            mons[op["m"]] = (m, ref)
            ctx.fault("replica-crash-restore")
            ctx.probe("restored")
            ctx.nontrivial = True
            continue
        if ref is None:
            # a failed fit must not answer with something else
            try:
                m.psi_table()
                ctx.check(False, "answers-after-failed-fit",
                          "psi_table() answered after a failed fit")
            except NotFittedError:
                pass
            continue
        if k == "plot":
            plot(ctx, plan, op, m, ref, plt)
            continue
        w = op["what"]
        n = ref.vars[op["v"] % len(ref.vars)]
        if w == "psi":
            ctx.must("psi_table", lambda: ref.psi_table(ctx, m))
        elif w == "var":
            g = ctx.must("psi_variable_table", lambda:
                         m.psi_variable_table(n, style=op["style"]))
            if op["style"] == "summary":
                want = ref.variable(n)[-1].sum()
                ctx.check(len(g) == 1 and feq(float(g.iloc[0]), want),
                          "var-summary", lambda: "PSI of %s is %s, the "
                          "records say %r" % (n, g.tolist(), want))
            else:
                ref.check_var(ctx, n, g)
        elif w == "vars":
            g = ctx.must("psi_variable_table", lambda:
                         m.psi_variable_table(style=op["style"]))
            ctx.check(sorted(g["Variable"].unique()) == sorted(ref.vars),
                      "var-list", lambda: "report on %s, selected %s" % (
                          list(g["Variable"].unique()), ref.vars))
            for v in ref.vars:
                h = g[g["Variable"] == v]
                if op["style"] == "summary":
                    want = ref.variable(v)[-1].sum()
                    ctx.check(len(h) == 1 and
                              feq(float(h["PSI"].iloc[0]), want),
                              "var-summary", lambda: "PSI of %s is %s, the "
                              "records say %r" % (v, h["PSI"].tolist(),
                                                  want))
                else:
                    ref.check_var(ctx, v, h)
        elif w == "tests":
            ref.tests_table(ctx, ctx.must("tests_table", m.tests_table))
        else:
            buf = io.StringIO()

            def rep():
                with contextlib.redirect_stdout(buf):
                    if w == "info":
                        m.information(print_level=1)
                    else:
                        m.system_stability_report()
            ctx.must(w, rep)
            if w == "report":
                ctx.probe("report")
                ref.report(ctx, buf.getvalue())
            else:
                info(ctx, ref, buf.getvalue())
        ctx.event("read", w)


def info(ctx, ref, text):
    got = {}
    for ln in text.splitlines():
        if ":" in ln or "  " in ln.strip():
            p = ln.strip().rsplit(None, 1)
            if len(p) == 2 and p[1].lstrip("-").isdigit():
                got[p[0].strip(" :")] = int(p[1])
    want = {"Number of records Actual": len(ref.a[1]),
            "Number of records Expected": len(ref.e[1]),
            "Number of scorecard variables": len(ref.vars)}
    for k, v in want.items():
        ctx.check(got.get(k) == v, "information", lambda: (
            "information() says %s = %s, it is %d" % (k, got.get(k), v)))


def refusable(err, ya, ye, t):
    """Refused as documented: the kind of target is not supported."""
    from sklearn.utils.multiclass import type_of_target
    a, e = type_of_target(ya), type_of_target(ye)
    s = str(err)
    return ("Target type" in s) and (a != e or a not in ("binary",
                                                         "continuous"))


def plot(ctx, plan, op, m, ref, plt):
    w = op["what"]
    ya = ref.a[1]
    if w != "psi" and (not ref.binary or ya.min() == ya.max()):
        return
    from optbinning.scorecard import plot_auc_roc, plot_cap, plot_ks
    plt.close("all")
    p = None
    try:
        if w == "psi":
            old = plt.show
            plt.show = lambda *a, **k: None
            try:
                ctx.must("psi_plot", m.psi_plot)
            finally:
                plt.show = old
            ax = plt.gcf().axes[0]
            h = [b.get_height() for b in ax.patches]
            want = list(100 * ref.p) + list(100 * ref.q)
            ctx.check(feq(h, want), "psi-plot", lambda: (
                "bars are %s, shares of the records %s" % (h, want)))
        else:
            p = np.asarray(ref.sc.predict_proba(ref.a[0]))[:, 1]
            if ref.kw["show_digits"] == 0:
                p = np.round(p, 1)
            f = {"ks": plot_ks, "roc": plot_auc_roc, "cap": plot_cap}[w]
            ctx.must("plot_" + w, lambda: f(ya, p))
            ax = plt.gca()
            if w == "ks":
                got = ax.texts[0].get_text()
                want, u = 100 * ks_score(ya, p), 1e-2
                val = float(got.split("%")[0].split(":")[1])
            else:
                want, u = auc(ya, p), 1e-5
                if w == "cap":
                    want = 2 * want - 1
                key = "AUC:" if w == "roc" else "Gini:"
                got = [x.get_text() for x in ax.get_legend().get_texts()]
                val = [float(x.split(key)[1].strip(" )")) for x in got
                       if key in x][0]
            ctx.check(abs(val - want) <= .51 * u, "plot-" + w, lambda: (
                "plot says %s, the scores say %r" % (got, want)))
        ctx.probe("plot-" + w)
    finally:
        plt.close("all")
