"""P20: statistics, reports and plots of a binning table are those of its
records.

An analyst's session on fitted objects of every family: refits, restores,
builds with other options, analyses and plots - some interrupted - in any
order, on tables of the current and of earlier fits.  Everything printed,
returned or drawn is recomputed from the records and the bins.
"""

import contextlib
import io
import pickle
import warnings

import numpy as np
from scipy import integrate, stats

from ..core import INJECTED, digest, feq, nprng, pyrng
from ..families import Fam, gen_fam, outcome
from ..faults import gen_strike, profile, struck
from .p17_service import PW, Two, reference

ID = "P20"
TITLE = "statistics and plots of a table are those of its records"
LEVEL = "exploration"
N_QUICK = 700
RULE = ("one run = one binning family, data and a history of fits, restores, "
        "builds, analyses and plots (some interrupted) on tables of the "
        "current and earlier fits; tests, probabilities, association, "
        "quality, trend labels, the printed report and everything drawn "
        "equal those recomputed from the records; non-trivial when a table "
        "was reused after a refit, restored or an operation was interrupted; "
        "distinct by hash of the event log")
REAL = ["optbinning.binning.binning_statistics",
        "optbinning.binning.multidimensional.binning_statistics_2d",
        "optbinning.binning.piecewise.binning_statistics",
        "optbinning.binning.metrics", "optbinning.binning.auto_monotonic",
        "all binning classes"]
STUB = ["analyst and object store (in-process)", "matplotlib canvas (Agg)",
        "the failure (exception raised at an executed line)"]
PROBES = ["refused-unbuilt", "pair-test", "pair-bayes", "fisher", "trend", "others-bin",
          "dict-codes", "old-table", "restored", "interrupted", "plot-bin",
          "plot-actual", "plot-labels", "plot-2d", "plot-pw", "plot-multi",
          "pw-metrics", "no-analysis-yet"]
FAMS = ["bin_num", "bin_num", "bin_num", "bin_cat", "bin_cat", "cont_num",
        "cont_num", "cont_cat", "cont_cat", "multi", "multi", "bin2d",
        "bin2d", "cont2d", "cont2d", "pw_bin", "pw_bin", "pw_cont", "sb",
        "sketch"]


def generate(seed, tier="quick"):
    r = pyrng("p20", seed)
    fam = gen_fam(r, r.choice(FAMS), small=True)
    if fam["fam"] in ("bin_num", "cont_num", "multi", "pw_bin", "pw_cont",
                      "bin_cat", "cont_cat") and r.random() < .35:
        fam["codes"] = "dict"
        fam["special"] = r.choice([0, .1])
    ops = [{"op": "fit", "v": 0}]
    for i in range(r.randint(4, 9)):
        k = r.random()
        w = "fit" if k < .14 else "restore" if k < .24 else \
            "build" if k < .36 else "analysis" if k < .66 else "plot"
        ops.append({"op": w, "v": r.randrange(3),
                    "old": r.random() < .25,
                    "test": r.choice(["chi2", "chi2", "fisher"]),
                    "ns": r.choice([100, 100, 7, 400]),
                    "digits": r.choice([2, 2, 0, 4]),
                    "totals": r.random() < .6,
                    "metric": r.randrange(3),
                    "sp": r.random() < .6, "mi": r.random() < .6,
                    "style": r.choice(["bin", "bin", "actual"]),
                    "labels": r.random() < .4,
                    "strike": gen_strike(r) if r.random() < .15 else None,
                    "verify": r.random() < .4})
    return {"fam": fam, "ops": ops}


# -------------------------------------------------------------- the oracle --

class Table:
    """What a table has to say, from the records of its fit."""

    def __init__(self, ctx, F, o, d):
        self.F, self.o = F, o
        self.name = F.name
        self.R = R = reference(ctx, F, o, d)
        self.t = o.binning_table
        self.tab = t = R.t
        self.two = isinstance(R, Two)
        self.pw = isinstance(R, PW)
        b = R.ref.b
        self.nb = R.nb if self.two else b.nb
        self.rows = len(t) - 1
        ctx.check(self.rows == (R.nb + 2 if self.two else b.n_rows),
                  "table-rows", "table has %d rows" % self.rows)
        self.n_spec = self.rows - self.nb - 1
        if self.n_spec > 1:
            ctx.probe("dict-codes")
        self.others = bool(len(getattr(self.t, "cat_others", None) or []))\
            if not isinstance(getattr(self.t, "cat_others", None),
                              np.ndarray) else \
            bool(self.t.cat_others.size)
        if self.others:
            ctx.probe("others-bin")
        self.nm = self.nb - (1 if self.others else 0)
        f = F.name
        self.kind = "multi" if f == "multi" else "cont" if f in (
            "cont_num", "cont_cat", "cont2d", "pw_cont") else "binary"
        k = self.rows

        def col(c):
            return t[c].iloc[:k].to_numpy(dtype=float)
        # counts were compared with the records by the reference
        self.n = col("Count")
        if self.kind == "binary":
            self.e = col("Event")
            self.ne = col("Non-event")
            if not self.pw:
                self.vals = {"event_rate": t["Event rate"], "woe": t["WoE"],
                             "iv": t["IV"]}
        elif self.kind == "cont":
            s = col("Sum")
            self.std = col("Std")
            if self.pw:
                self.mean = np.array([s[i] / self.n[i] if self.n[i] else 0.0
                                      for i in range(k)])
                self.vals = {}
            else:
                self.mean = col("Mean")
                self.vals = {"mean": t["Mean"], "woe": t["WoE"],
                             "iv": t["IV"]}
        else:
            self.cl = [c[6:] for c in t.columns if c.startswith("Event_") and
                       not c.startswith("Event_rate_")]
            self.ev = np.array([col("Event_%s" % c)
                                for c in self.cl]).T
            self.rate = np.array([
                col("Event_rate_%s" % c)
                for c in self.cl]).T
        self.vals = {m: v.to_numpy(dtype=object)[:k].astype(float)
                     for m, v in getattr(self, "vals", {}).items()}
        if self.kind == "cont":
            self.std_check(ctx, d)
        self.d = d
        self.digits = 2
        self.sig = digest(t.astype(str))

    def std_check(self, ctx, d):
        if self.R.outliers if hasattr(self.R, "outliers") else False:
            return
        y = np.asarray(d["z" if self.two else "y"], dtype=float)
        r = self.R.r if self.pw else self.R.ref.r
        for i in range(self.rows):
            g = y[r == i]
            if len(g):
                ctx.check(feq(self.std[i], g.std(), 1e-6, 1e-6), "table-std",
                          "row %d: std is %r, records say %r" % (
                              i, self.std[i], g.std()))

    # ------------------------------------------------------------- analysis
    def pairs(self):
        if not self.two:
            return [(i, i + 1) for i in range(self.nm - 1)]
        out = set()
        if self.R.caty:
            P = np.asarray(self.t.P).astype(int)
            for A in (P, P.T):
                for row in A:
                    out |= {(int(a), int(b)) for a, b in zip(row, row[1:])
                            if a != b}
            return sorted(out)
        sx, sy = self.R.sx, self.R.sy
        for i in range(self.nb):
            for j in range(self.nb):
                if i == j:
                    continue
                for u, w in ((sx, sy), (sy, sx)):
                    if u[i][1] == u[j][0] and max(w[i][0], w[j][0]) < \
                            min(w[i][1], w[j][1]):
                        out.add((i, j))
        return sorted(out)

    def want(self, test, ns):
        """-> rows of the test table, report figures."""
        fig, rows, pv = {}, [], []
        off = .5 if self.pw else 0
        for i, j in self.pairs():
            ij = [i, j]
            if self.kind == "cont":
                t, p = welch(self.mean[i], self.std[i], self.n[i],
                             self.mean[j], self.std[j], self.n[j])
                rows.append((i, j, t, p))
            elif self.kind == "multi":
                t, p = chi2(self.ev[ij])
                rows.append((i, j, t, p))
            else:
                obs = np.array([self.ne[ij] + off, self.e[ij] + off])
                if test == "fisher":
                    t, p = stats.fisher_exact(obs.astype(np.int64))
                else:
                    t, p = chi2(obs)
                rows.append((i, j, t, p, obs))
            pv.append(p)
        share = self.n / self.n.sum()
        h = (share ** 2).sum()
        k = len(share)
        fig["HHI"] = h
        fig["HHI (normalized)"] = hn = (h - 1 / k) / (1 - 1 / k) \
            if k > 1 else 1
        if self.kind == "binary":
            fig["Cramer's V"] = cramer(np.array(
                [self.ne[:self.nm], self.e[:self.nm]]))
            s = {a: float(getattr(self.t, b)) for a, b in (
                ("Gini index", "gini"), ("IV (Jeffrey)", "iv"),
                ("JS (Jensen-Shannon)", "js"), ("Hellinger", "hellinger"),
                ("Triangular", "triangular"), ("KS", "ks"))} \
                if not self.pw else self.pw_metrics()
            fig.update(s)
            iv = s.get("IV (Jeffrey)", getattr(self.t, "_iv", None))
            if iv is not None:
                fig["Quality score"] = quality(iv, pv, hn)
            trend = [] if self.pw else [
                ("", self.vals["event_rate"][:self.nm])]
        elif self.kind == "multi":
            fig["Cramer's V"] = cramer(self.ev[:self.nm])
            fig["JS (Jensen-Shannon)"] = js = float(self.t.js)
            fig["Quality score"] = quality(js / np.log(len(self.cl)), pv, hn)
            trend = [(str(c), self.rate[:self.nm, i])
                     for i, c in enumerate(self.cl)]
        else:
            if self.pw:
                rw = 1e6
                fig.update(self.pw_metrics())
            else:
                fig["IV"] = float(self.t.iv)
                fig["WoE"] = w = float(self.t.woe)
                # mean of the records of the bins (missing and special
                # included), the table's own total
                tm = self.total_mean()
                rw = w if tm == 0 else w / abs(tm)
                fig["WoE (normalized)"] = rw
            s1 = 0 if rw == 0 else max(1 - 1 / rw, 0)
            fig["Quality score"] = s1 * np.prod(1 - np.array(pv)) * (1 - hn)
            trend = [("", self.mean[:self.nm])]
        if self.two or self.pw:
            trend = []
        return rows, fig, trend

    def total_mean(self):
        return float(self.tab["Sum"].iloc[:-1].astype(float).sum() /
                     self.n.sum())

    def pw_metrics(self):
        from sklearn.metrics import (average_precision_score,
                                     brier_score_loss, roc_auc_score)
        R, d = self.R, self.d
        x = np.asarray(d["x"], dtype=float)
        y = np.asarray(d["y"])
        m = R.b.rows(x) < R.b.nb
        R.clip = (None, None)
        p = np.array(R.want(None, x[m], "event_rate", 0, 0), dtype=object)
        if any(v is None for v in p):
            return {}
        p = p.astype(float)
        y = y[m]
        if self.kind == "cont":
            s = self.o
            e = y - p
            lb, ub = getattr(s, "_lb", None), getattr(s, "_ub", None)
            return {"Mean absolute error": np.abs(e).mean(),
                    "Mean squared error": (e ** 2).mean(),
                    "Median absolute error": np.median(np.abs(e)),
                    "R^2": 1 - (e ** 2).sum() / ((y - y.mean()) ** 2).sum()}
        p = np.clip(p, 1e-8, 1 - 1e-8)
        if y.min() == y.max():
            return {}
        u = np.unique(np.round(p, 9))
        out = {"Brier score": brier_score_loss(y, p)}
        if len(u) == len(np.unique(p)):
            out["Gini index"] = 2 * roc_auc_score(y, p) - 1
            out["Avg precision"] = average_precision_score(y, p)
            out["KS"] = max((p[y == 1] >= c).mean() - (p[y == 0] >= c).mean()
                            for c in np.unique(p))
        return out


def chi2(obs):
    obs = np.asarray(obs, dtype=float)
    r, c, n = obs.sum(axis=1), obs.sum(axis=0), obs.sum()
    if not (r.all() and c.all()):
        return np.nan, np.nan
    ex = np.outer(r, c) / n
    t = ((obs - ex) ** 2 / ex).sum()
    df = (obs.shape[0] - 1) * (obs.shape[1] - 1)
    return t, stats.chi2.sf(t, df)


def cramer(obs):
    if min(obs.shape) < 2 or obs.shape[0] == 2 and obs.shape[1] < 2:
        return 0.0
    t, _ = chi2(obs)
    return (t / obs.sum() / (min(obs.shape) - 1)) ** .5


def welch(u, s, n, u2, s2, n2):
    # the standard deviations are those of the table
    a, b = s * s / n if n else np.nan, s2 * s2 / n2 if n2 else np.nan
    with np.errstate(all="ignore"):
        t = np.divide(u - u2, np.sqrt(a + b))
        df = np.divide((a + b) ** 2, np.divide(a * a, n - 1) +
                       np.divide(b * b, n2 - 1))
        if not np.isfinite(df):
            df = 1.0
        return t, 2 * stats.t.sf(abs(t), df)


def quality(iv, pv, hn):
    c = 0.39573882184806863
    return iv / c * np.exp((1 - (iv / c) ** 2) / 2) * \
        np.prod(1 - np.array(pv)) * (1 - hn)


def beats(obs):
    """P[event rate of A > event rate of B], by quadrature."""
    (na, nb), (ea, eb) = obs
    if min(na, nb, ea, eb) <= 0:
        return None
    A, B = stats.beta(ea, na), stats.beta(eb, nb)
    v, _ = integrate.quad(lambda q: A.sf(B.ppf(q)), 0, 1, limit=200,
                          epsabs=1e-5)
    return v


def trend_of(v):
    """Acceptable labels of a trend, None when ties within rounding."""
    v = np.asarray(v, dtype=float)
    d = np.diff(v)
    if len(v) == 1:
        return {"undefined"}
    if not np.isfinite(v).all() or np.any((np.abs(d) < 1e-12) & (d != 0)):
        return None
    if (d >= 0).all() and (d <= 0).all():
        return None
    if (d >= 0).all():
        return {"ascending"}
    if (d <= 0).all():
        return {"descending"}
    dd = np.diff(d)
    flat = np.any(np.abs(dd) < 1e-12)
    s = np.sign(d[d != 0])
    turns = int((np.diff(s) != 0).sum())
    if turns > 1:
        return {"no monotonic"}
    if s[0] > 0:
        return {"peak", "peak (concave)"} if flat else \
            {"peak (concave)"} if (dd <= 0).all() else {"peak"}
    return {"valley", "valley (convex)"} if flat else \
        {"valley (convex)"} if (dd >= 0).all() else {"valley"}


# ----------------------------------------------------------------- reports --

def run_analysis(T, op, buf=None):
    kw = {}
    if T.kind == "binary":
        kw = {"pvalue_test": op["test"], "n_samples": op["ns"]}
    b = io.StringIO()
    with contextlib.redirect_stdout(b), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        T.t.analysis(**kw)
    return b.getvalue()


def near(got, want, printed=True):
    """A printed figure equals a number (NaN equals NaN)."""
    if np.isnan(want):
        return np.isnan(got)
    if np.isinf(want):
        return got == want
    return abs(got - want) <= 2e-8 + 1e-6 * abs(want)


def check_analysis(ctx, T, op, txt):
    rows, fig, trend = T.want(op["test"], op["ns"])
    got = {}
    lines = txt.splitlines()
    for ln in lines:
        for k in list(fig):
            if ln.strip().startswith(k + " ") and k not in got:
                try:
                    got[k] = float(ln.strip()[len(k):])
                except ValueError:
                    pass
    for k, v in fig.items():
        ctx.check(k in got, "report", "report has no %s: %s" % (k, txt))
        ctx.check(near(got[k], float(v)), "figure",
                  "%s is %r, the records say %r (%s)" % (k, got[k], v,
                                                         T.name),
                  key="figure:" + k)
    if "Quality score" in fig and hasattr(type(T.t), "quality_score"):
        ctx.check(feq(float(T.t.quality_score), float(fig["Quality score"]),
                      1e-6, 1e-9), "quality-score", "%r, records say %r" % (
            T.t.quality_score, fig["Quality score"]))
    for c, v in trend:
        want = trend_of(v)
        if want is None:
            continue
        if c:
            ln = [x for x in lines if x.strip().startswith("Class ")]
            lab = [x for x in ln if x.split()[1] == c]
            ctx.check(len(lab) == 1, "report", "no trend of class %s: %s" % (
                c, ln))
            lab = " ".join(lab[0].split()[2:])
        else:
            lab = [x for x in lines if "Monotonic trend" in x][0]
            lab = lab.split("Monotonic trend")[1].strip()
        ctx.probe("trend")
        ctx.check(lab in want, "trend", lambda: (
            "trend of %s is reported as %r, it is %s" % (
                np.asarray(v).tolist(), lab, sorted(want))))
    i = [k for k, x in enumerate(lines) if "Significance tests" in x][0]
    body = [x for x in lines[i + 1:] if x.strip()]
    if not rows:
        ctx.check(body and body[0].strip() == "None", "report",
                  "tests of a single bin: %s" % body)
        return
    if op["test"] == "fisher" and T.kind == "binary":
        ctx.probe("fisher")
        ctx.check("odd ratio" in body[0], "report", body[0])
    body = body[1:]
    ctx.check(len(body) == len(rows), "tests-rows", lambda: (
        "tests are %s, adjacent bins %s" % (body, [r[:2] for r in rows])))
    for ln, r in zip(body, rows):
        f = ln.split()
        ctx.check((int(f[0]), int(f[1])) == r[:2], "tests-rows",
                  "test of bins %s, expected %s" % (f[:2], r[:2]))
        for s, v, what in ((f[2], r[2], "statistic"), (f[3], r[3],
                                                       "p-value")):
            s = float(s)
            ok = np.isnan(s) if np.isnan(v) else s == v if np.isinf(v) else \
                abs(s - v) <= 2e-6 + 2e-6 * abs(v)
            ctx.check(ok, "test-" + what, lambda: (
                "%s of bins %s (%s) is %r, the records say %r" % (
                    what, r[:2], op["test"], s, v)))
        ctx.probe("pair-test")
        if T.kind == "binary":
            a, b = float(f[4]), float(f[5])
            w = beats(r[4])
            if w is None:
                continue
            ctx.probe("pair-bayes")
            ctx.check(abs(a - w) <= .5 / op["ns"] + 1e-4 and
                      abs(a + b - 1) < 1e-5, "bayes", lambda: (
                "P[A > B] of bins %s is %r, P[B > A] %r; the records say %r"
                % (r[:2], a, b, w)))


# ------------------------------------------------------------------- plots --

def draw(T, op):
    import matplotlib.pyplot as plt
    t = T.t
    plt.close("all")
    old = plt.show
    plt.show = lambda *a, **k: None
    kw = {}
    ms = []
    if not (T.two or T.pw):
        kw = {"add_special": op["sp"], "add_missing": op["mi"],
              "show_bin_labels": op["labels"]}
        if T.kind != "multi":
            ms = [m for m in ("woe", "event_rate", "iv") if m in T.vals] \
                if T.kind == "binary" else []
            cat = T.R.ref.b.groups is not None
            if op["style"] == "actual" and not cat and \
                    getattr(t, "min_x", None) is not None:
                kw["style"] = "actual"
                kw["show_bin_labels"] = False
    elif T.two and T.kind == "binary":
        ms = ["woe", "event_rate"]
    elif T.pw and T.kind == "binary":
        ms = ["woe", "event_rate"]
    if T.pw:
        kw["n_samples"] = 60
    if ms:
        kw["metric"] = ms[op["metric"] % len(ms)]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            t.plot(**kw)
    finally:
        plt.show = old
    return plt.gcf(), kw


def check_plot(ctx, T, fig, kw):
    if T.two:
        return check_plot2(ctx, T, fig, kw)
    if T.pw:
        return check_plot_pw(ctx, T, fig, kw)
    ax1, ax2 = fig.axes[:2]
    if kw.get("style") == "actual":
        return check_actual(ctx, T, ax1, ax2, kw)
    show = list(range(T.nb)) + (list(range(T.nb, T.nb + T.n_spec))
                                if kw["add_special"] else []) + (
        [T.rows - 1] if kw["add_missing"] else [])
    k = len(show)
    h = [b.get_height() for b in ax1.patches]
    xc = [b.get_x() + b.get_width() / 2 for b in ax1.patches]
    if T.kind == "binary":
        groups = [T.e, T.ne]
    elif T.kind == "cont":
        groups = [T.n]
    else:
        groups = [T.ev[:, j] for j in range(len(T.cl))]
    ctx.check(len(h) == k * len(groups), "plot-bars",
              "%d bars for %d bins" % (len(h), k))
    base = np.zeros(k)
    for g, v in enumerate(groups):
        ctx.check(feq(h[g * k:(g + 1) * k], v[show]) and
                  feq([b.get_y() for b in ax1.patches[g * k:(g + 1) * k]],
                      base), "plot-bars", lambda: (
            "bars are %s from %s, the rows are %s from %s" % (
                h[g * k:(g + 1) * k], [b.get_y() for b in ax1.patches[
                    g * k:(g + 1) * k]], v[show].tolist(), base.tolist())))
        ctx.check(feq(xc[g * k:(g + 1) * k], np.arange(k)), "plot-bars",
                  "bars at %s" % xc)
        base = base + v[show]
    pts = {}
    for ln in ax2.lines:
        for a, b in zip(np.atleast_1d(ln.get_xdata()),
                        np.atleast_1d(ln.get_ydata())):
            pts.setdefault(int(a), []).append(float(b))
    if T.kind == "multi":
        want = {i: sorted(T.rate[r]) for i, r in enumerate(show)}
    else:
        m = kw.get("metric") or "mean"
        want = {i: [T.vals[m][r]] for i, r in enumerate(show)}
    ctx.check(set(pts) == set(want) and all(
        feq(sorted(pts[i]), want[i]) or T.kind == "cont" and
        not T.n[show[i]] for i in want), "plot-points", lambda: (
        "points are %s, the shown rows %s have %s" % (pts, show, want)))
    ctx.probe("plot-multi" if T.kind == "multi" else "plot-bin")
    if kw["show_bin_labels"]:
        got = [x.get_text() for x in ax1.get_xticklabels()]
        lab = [str(b) for b in T.tab_bins]
        if T.R.ref.b.groups is not None:
            lab = [b if len(b) <= 27 else b[:27] + "..." for b in lab]
        lab = [lab[i] for i in show]
        at = list(ax1.get_xticks())
        ctx.check(got == lab and feq(at, np.arange(k)), "plot-labels",
                  lambda: "labels are %s at %s, expected %s" % (got, at, lab))
        ctx.probe("plot-labels")


def check_actual(ctx, T, ax1, ax2, kw):
    x = np.asarray(T.d["x"] if "x" in T.d else np.concatenate(T.d["X"]),
                   dtype=float)
    x = x[T.R.ref.b.rows(x) < T.nb]
    if getattr(T.R, "outliers", False):
        return
    e = np.array([x.min()] + list(T.R.ref.b.splits) + [x.max()])
    p = ax1.patches
    groups = [T.e, T.ne] if T.kind == "binary" else [T.n]
    k = T.nb
    ctx.check(len(p) == k * len(groups), "plot-bars",
              "%d bars for %d bins" % (len(p), k))
    for g, v in enumerate(groups):
        q = p[g * k:(g + 1) * k]
        ctx.check(feq([b.get_height() for b in q], v[:k]) and
                  feq([b.get_x() for b in q], e[:-1]) and
                  feq([b.get_x() + b.get_width() for b in q], e[1:]),
                  "plot-bars", lambda: "bars are %s, bins are %s %s" % (
                      [(b.get_x(), b.get_width(), b.get_height())
                       for b in q], e.tolist(), v[:k].tolist()))
    m = T.vals[kw.get("metric") or "mean"][:k]
    segs = [ln for ln in ax2.lines if len(ln.get_xdata()) == 2]
    for i in range(k):
        xs, ys = segs[i].get_xdata(), segs[i].get_ydata()
        ctx.check(feq(list(xs), e[i:i + 2]) and feq(list(ys), [m[i]] * 2),
                  "plot-points", lambda: "segment %s %s, bin %s %s" % (
                      list(xs), list(ys), e[i:i + 2], m[i]))
    ctx.probe("plot-actual")


def check_plot2(ctx, T, fig, kw):
    ax, top, right = fig.axes[:3]
    M = np.asarray(ax.images[0].get_array(), dtype=float)
    P = np.full(M.shape, -1)
    for t in ax.texts:
        x, y = t.get_position()
        P[int(y), int(x)] = int(t.get_text())
    ctx.check(sorted(set(P.ravel().tolist())) == list(range(T.nb)),
              "plot-cells", lambda: "cells %s of %d bins" % (P.tolist(),
                                                             T.nb))
    v = T.vals[kw.get("metric") or "mean"]
    for i in range(T.nb):
        c = np.argwhere(P == i)
        a, b = c.min(axis=0), c.max(axis=0)
        ctx.check((P[a[0]:b[0] + 1, a[1]:b[1] + 1] == i).all(), "plot-cells",
                  lambda: "bin %d is no rectangle in %s" % (i, P.tolist()))
        mixed = T.kind == "cont" or T.e[i] > 0 and T.ne[i] > 0
        if mixed and T.n[i]:
            ctx.check(feq(M[P == i], np.full((P == i).sum(), v[i]), 1e-7,
                          1e-9), "plot-cells", lambda: (
                "colour of bin %d is %s, its value %r" % (
                    i, M[P == i].tolist(), v[i])))
    # order of the rectangles on the axes is that of their bounds
    sx, sy = T.R.sx, T.R.sy
    for i in range(T.nb):
        for j in range(T.nb):
            for s, k in ((sx, 1), (sy, 0)):
                if k == 0 and T.R.caty:
                    continue
                if s[i][1] <= s[j][0]:
                    ctx.check(np.argwhere(P == i)[:, k].max() <
                              np.argwhere(P == j)[:, k].min(), "plot-cells",
                              lambda: "bins %d, %d lie in the wrong order "
                              "in %s" % (i, j, P.tolist()))
    for axm, A in ((top, P), (right, P.T)):
        want = []
        for row in A:
            w = [v[c] for c in row]
            w.append(w[-1])
            if w not in want:
                want.append(w)
        got = []
        for ln in axm.lines:
            if ln.get_linestyle() == "--":
                continue
            y = ln.get_ydata() if axm is top else ln.get_xdata()
            got.append([float(c) for c in y])
        ctx.check(all(any(feq(g, w) for w in want) for g in got) and
                  all(any(feq(g, w) for g in got) for w in want),
                  "plot-margins", lambda: "lines %s, paths %s" % (got, want))
    ctx.probe("plot-2d")


def check_plot_pw(ctx, T, fig, kw):
    ax1, ax2 = fig.axes[:2]
    R = T.R
    x = np.asarray(T.d["x"], dtype=float)
    x = x[R.b.rows(x) < R.b.nb]
    e = np.array([x.min()] + list(R.b.splits) + [x.max()])
    k = R.b.nb
    groups = [T.e, T.ne] if T.kind == "binary" else [T.n]
    ctx.check(len(ax1.patches) == k * len(groups), "plot-bars", "%d bars" %
              len(ax1.patches))
    for g, v in enumerate(groups):
        q = ax1.patches[g * k:(g + 1) * k]
        ctx.check(feq([b.get_height() for b in q], v[:k]) and
                  feq([b.get_x() for b in q], e[:-1]) and
                  feq([b.get_x() + b.get_width() for b in q], e[1:]),
                  "plot-bars", lambda: "bars are %s, bins are %s %s" % (
                      [(b.get_x(), b.get_width(), b.get_height())
                       for b in q], e.tolist(), v[:k].tolist()))
    ln = max(ax2.lines, key=lambda u: len(u.get_xdata()))
    xs, ys = np.asarray(ln.get_xdata()), np.asarray(ln.get_ydata())
    R.clip = (None, None)
    if T.kind == "binary":
        R.clip = (1e-8, 1 - 1e-8)
    want = R.want(None, xs, kw.get("metric") or "mean", 0, 0)
    bad = [i for i in range(len(xs)) if want[i] is not None and
           1e-6 < want[i] < 1 - 1e-6 and T.kind == "binary" and
           kw["metric"] == "event_rate" and abs(ys[i] - want[i]) > 1e-6]
    if T.kind == "cont":
        bad = [i for i in range(len(xs)) if abs(ys[i] - want[i]) > 1e-6 *
               max(1, abs(want[i]))]
    ctx.check(not bad, "plot-points", lambda: (
        "curve at %r is %r, the bin says %r" % (
            xs[bad[0]], ys[bad[0]], want[bad[0]])))
    ctx.probe("plot-pw")


# --------------------------------------------------------------- execution --

def execute(plan, ctx):
    import matplotlib.pyplot as plt
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _execute(plan, ctx)
    finally:
        plt.close("all")


def _execute(plan, ctx):
    import matplotlib.pyplot as plt
    F = Fam(plan["fam"])
    ctx.event("family", F.name)
    T = old = None
    o = F.new()
    for op in plan["ops"]:
        ctx.tick()
        ctx.steps += 1
        k = op["op"]
        if k == "fit":
            d = F.data(op["v"])
            if F.name == "sketch":
                o = F.new()
            try:
                F.fit(o, d)
            except Exception as e:
                ctx.event("refused", type(e).__name__)
                o = F.new()
                continue
            if T is not None:
                old = T
            if F.name not in ("sb", "sketch"):
                for n in ("analysis", "plot"):
                    got = outcome(getattr(o.binning_table, n))
                    ctx.check(got[:2] == ("err", "NotFittedError"),
                              "answer-before-build", lambda: "%s before the "
                              "table is built: %r" % (n, got))
                    ctx.probe("refused-unbuilt")
            T = Table(ctx, F, o, F.data(op["v"]))
            T.tab_bins = [] if T.two else list(T.tab.Bin[:T.rows])
            ctx.event("fit", op["v"], T.sig)
            continue
        if T is None:
            continue
        U = T
        if op["old"] and old is not None:
            U = old
            ctx.probe("old-table")
            ctx.nontrivial = True
        if k == "restore":
            c = pickle.loads(pickle.dumps((T.o, T.t)))
            o, T.o = c[0], c[0]
            T.t = c[1]
            ctx.fault("crash-restore")
            ctx.probe("restored")
            ctx.nontrivial = True
            continue
        if k == "build":
            t = ctx.must("build", U.t.build, show_digits=op["digits"],
                         add_totals=op["totals"])
            ctx.check(len(t) == U.rows + op["totals"], "table-rows",
                      "%d rows" % len(t))
            ref = U.tab.iloc[:len(t)]
            for c in t.columns:
                if c == "Bin" or U.two and c.startswith("Bin"):
                    continue
                ctx.check(digest(t[c].astype(str).tolist()) ==
                          digest(ref[c].astype(str).tolist()),
                          "table-changed", lambda: "column %s is %s, was %s"
                          % (c, t[c].tolist(), ref[c].tolist()))
            if not U.two:
                lab = U.R.ref.b.labels(op["digits"])
                U.tab_bins = list(t.Bin[:U.rows])
                ctx.check([str(b) for b in U.tab_bins] == lab, "table-bins",
                          lambda: "Bin is %s, expected %s" % (
                              t.Bin.tolist(), lab))
            continue
        if k == "analysis":
            def call():
                return run_analysis(U, op)
        else:
            def call():
                return draw(U, op)
        if op["strike"]:
            _, prof = profile(ctx, call)
            t, st = struck(ctx, call, prof, op["strike"])
            plt.close("all")
            if t.error is not None and isinstance(t.error, INJECTED):
                ctx.probe("interrupted")
                ctx.nontrivial = True
        if k == "analysis":
            txt = ctx.must("analysis", call)
            check_analysis(ctx, U, op, txt)
            ctx.event("analysis", op["test"], digest(txt))
        else:
            fig, kw = ctx.must("plot", call)
            check_plot(ctx, U, fig, kw)
            ctx.event("plot", sorted(kw.items()))
            plt.close("all")
        if op.get("verify", True):
            unchanged(ctx, U, k)
    for U in (T, old):
        if U is not None:
            unchanged(ctx, U, "all")


def unchanged(ctx, U, k):
    t = ctx.must("build", U.t.build)
    U.tab_bins = [] if U.two else list(U.tab.Bin[:U.rows])
    ctx.check(digest(t.astype(str)) == U.sig, "table-changed",
              "table after %s differs from the fitted one" % k)
