"""Executable reference of what a fitted binning stands for.

Nothing here calls the code under test: given the split points (or category
groups) and the training records it says which bin a value belongs to, what
the rows of the table are, and what a transform of the value must return.
"""

import numpy as np

from .core import close, feq

SPECIAL, MISSING, UNKNOWN = -1, -2, -3


def is_missing(v):
    if v is None:
        return True
    try:
        return bool(v != v)
    except Exception:
        return False


def code_groups(codes):
    """Special codes as a list of (label, [codes])."""
    if codes is None:
        return [("Special", [])]
    if isinstance(codes, dict):
        return [(k, list(v) if isinstance(v, (list, np.ndarray)) else [v])
                for k, v in codes.items()]
    return [("Special", list(codes))]


class Bins:
    """Which row of the table a value belongs to."""

    def __init__(self, splits=None, groups=None, codes=None):
        self.splits = None if splits is None else \
            [float(s) for s in splits]
        self.groups = groups
        self.names = None
        self.codes = code_groups(codes)
        self.nb = len(self.splits) + 1 if groups is None else len(groups)
        self.n_rows = self.nb + len(self.codes) + 1
        if groups is not None:
            self.of = {}
            for i, g in enumerate(groups):
                for c in g:
                    self.of.setdefault(c, i)

    def row(self, v):
        """Row index in the table (without totals), or UNKNOWN."""
        if is_missing(v):
            return self.n_rows - 1
        for i, (_, g) in enumerate(self.codes):
            if any(v == c for c in g):
                return self.nb + i
        if self.groups is not None:
            return self.of.get(v, UNKNOWN)
        return sum(1 for s in self.splits if v >= s)

    def rows(self, x):
        return np.array([self.row(v) for v in x], dtype=int)

    def labels(self, digits=2):
        if self.groups is not None:
            out = list(self.names or [str(g) for g in self.groups])
        else:
            e = [-np.inf] + self.splits + [np.inf]
            out = ["%s%.*f, %.*f)" % ("(" if i == 0 else "[", digits, e[i],
                                      digits, e[i + 1])
                   for i in range(self.nb)]
        return out + [k for k, _ in self.codes] + ["Missing"]


def woe(ne, e, t_ne, t_e):
    return np.log((ne / t_ne) / (e / t_e))


class BinaryRef:
    """Binary-target table: counts per row and everything derived."""

    def __init__(self, bins, x, y, w=None):
        self.b = bins
        self.r = bins.rows(x)
        y = np.asarray(y)
        w = np.ones(len(y)) if w is None else np.asarray(w, dtype=float)
        self.e = np.array([w[(self.r == i) & (y == 1)].sum()
                           for i in range(bins.n_rows)])
        self.ne = np.array([w[(self.r == i) & (y == 0)].sum()
                            for i in range(bins.n_rows)])
        self.derive()

    def adopt(self, t):
        """Take the counts of a table fitted with class weights, whose
        records do not count one by one."""
        k = len(self.e)
        self.e = t["Event"].to_numpy(dtype=float)[:k]
        self.ne = t["Non-event"].to_numpy(dtype=float)[:k]
        self.derive()

    def derive(self):
        e, ne = self.e, self.ne
        self.n = e + ne
        self.te, self.tne = e.sum(), ne.sum()
        self.mixed = (e > 0) & (ne > 0)
        m = self.mixed
        self.rate = np.zeros(len(e))
        self.woe = np.zeros(len(e))
        self.rate[m] = e[m] / self.n[m]
        self.woe[m] = woe(ne[m], e[m], self.tne, self.te)
        p, q = ne[m] / self.tne, e[m] / self.te
        self.iv = np.zeros(len(e))
        self.js = np.zeros(len(e))
        self.iv[m] = (p - q) * np.log(p / q)
        a = (p + q) / 2
        self.js[m] = (p * np.log(p / a) + q * np.log(q / a)) / 2

    def check_table(self, ctx, t, where):
        k = len(self.e)
        body = t.iloc[:k]
        n = self.n.sum()
        want = {"Count": self.n, "Non-event": self.ne, "Event": self.e,
                "Count (%)": self.n / n}
        for c, v in want.items():
            got = body[c].to_numpy(dtype=float)
            ctx.check(feq(got, v), "table-" + c.lower(),
                      lambda: "%s: column %r is %s, records say %s" % (
                          where, c, got.tolist(), v.tolist()))
        m = self.mixed
        for c, v in (("Event rate", self.rate), ("WoE", self.woe),
                     ("IV", self.iv), ("JS", self.js)):
            got = body[c].to_numpy(dtype=float)
            ctx.check(feq(got[m], v[m]), "table-" + c.lower(),
                      lambda: "%s: column %r is %s, records say %s" % (
                          where, c, got.tolist(), v.tolist()))
        tot = t.iloc[k]
        for c, v in (("Count", n), ("Event", self.te), ("Non-event",
                                                        self.tne),
                     ("Event rate", self.te / n), ("Count (%)", 1)):
            ctx.check(feq(float(tot[c]), v), "table-totals",
                      "%s: total %r is %r, records say %r" % (
                          where, c, tot[c], v))
        for c in ("IV", "JS"):
            s = body[c].to_numpy(dtype=float).sum()
            ctx.check(feq(float(tot[c]), s), "table-totals",
                      "%s: total %s %r is not the sum %r" % (where, c,
                                                             tot[c], s))

    def check_metrics(self, ctx, t, where):
        """Gini, KS, HHI, IV, JS, Hellinger, triangular of the analysis."""
        m = self.mixed
        p, q = self.ne / self.tne, self.e / self.te
        keep = self.n > 0
        o = np.argsort(np.where(keep, self.ne / np.maximum(self.n, 1e-300),
                                0)[keep], kind="stable")
        ev, nv = self.e[keep][o], self.ne[keep][o]
        cn = np.concatenate([[0], np.cumsum(nv)[:-1]])
        gini = 1 - (ev * (nv + 2 * cn)).sum() / (self.te * self.tne) \
            if keep.sum() > 1 else 0
        share = self.n / self.n.sum()
        want = {"gini": gini, "ks": np.abs(np.cumsum(q) -
                                           np.cumsum(p)).max(),
                "iv": self.iv.sum(), "js": self.js.sum(),
                "hellinger": (0.5 * (np.sqrt(p[m]) - np.sqrt(q[m])) **
                              2).sum(),
                "triangular": ((p[m] - q[m]) ** 2 / (p[m] + q[m])).sum()}
        for a, v in want.items():
            got = float(getattr(t, a))
            ctx.check(feq(got, v, 1e-7, 1e-9), "metric-" + a,
                      "%s: %s is %r, records say %r" % (where, a, got, v))
        h = (share ** 2).sum()
        k = len(share)
        hn = 1 if k == 1 else (h - 1 / k) / (1 - 1 / k)
        for a, v in (("_hhi", h), ("_hhi_norm", hn)):
            got = getattr(t, a, None)
            if got is not None:
                ctx.check(feq(float(got), v), "metric-hhi",
                          "%s: %s is %r, records say %r" % (where, a, got,
                                                            v))

    def values(self, metric):
        """(value per row, rows where the formula settles the value)"""
        if metric == "woe":
            return self.woe, self.mixed
        return self.rate, self.mixed

    def unknown(self, metric):
        return 0.0 if metric == "woe" else self.te / (self.te + self.tne)


class ContRef:
    def __init__(self, bins, x, y):
        self.b = bins
        self.r = bins.rows(x)
        y = np.asarray(y, dtype=float)
        k = bins.n_rows
        g = [y[self.r == i] for i in range(k)]
        self.n = np.array([len(a) for a in g], dtype=float)
        self.sum = np.array([a.sum() for a in g])
        self.mean = np.array([a.mean() if len(a) else 0.0 for a in g])
        self.std = np.array([a.std() if len(a) else np.nan for a in g])
        self.min = np.array([a.min() if len(a) else np.nan for a in g])
        self.max = np.array([a.max() if len(a) else np.nan for a in g])
        self.zeros = np.array([(a == 0).sum() for a in g], dtype=float)
        self.some = self.n > 0

    def check_table(self, ctx, t, where):
        k = self.b.n_rows
        body = t.iloc[:k]
        n = self.n.sum()
        tm = self.sum.sum() / n
        s = self.some
        cols = [("Count", self.n, None), ("Count (%)", self.n / n, None),
                ("Sum", self.sum, s), ("Std", self.std, s),
                ("Mean", self.mean, s), ("Min", self.min, s),
                ("Max", self.max, s), ("Zeros count", self.zeros, s),
                ("WoE", self.mean - tm, s),
                ("IV", np.abs(self.mean - tm) * self.n / n, s)]
        for c, v, m in cols:
            if c not in body:
                continue
            got = body[c].to_numpy(dtype=float)
            ok = feq(got, v, 1e-7, 1e-7) if m is None else \
                feq(got[m], v[m], 1e-6, 1e-6)
            ctx.check(ok, "table-" + c.lower(),
                      lambda: "%s: column %r is %s, records say %s" % (
                          where, c, got.tolist(), v.tolist()))
        tot = t.iloc[k]
        for c, v in (("Count", n), ("Sum", self.sum.sum()), ("Mean", tm),
                     ("Min", np.nanmin(self.min)),
                     ("Max", np.nanmax(self.max)),
                     ("Zeros count", self.zeros.sum())):
            if c in tot and tot[c] != "":
                ctx.check(feq(float(tot[c]), v, 1e-7, 1e-7), "table-totals",
                          "%s: total %r is %r, records say %r" % (
                              where, c, tot[c], v))

    def check_metrics(self, ctx, t, where):
        n = self.n.sum()
        tm = self.sum.sum() / n
        if not self.some.all():
            return
        for a, v in (("iv", (np.abs(self.mean - tm) * self.n / n).sum()),
                     ("woe", np.abs(self.mean - tm).sum())):
            got = float(getattr(t, a))
            ctx.check(feq(got, v, 1e-6, 1e-7), "metric-" + a,
                      "%s: %s is %r, records say %r" % (where, a, got, v))

    def values(self, metric):
        return self.mean, self.some

    def unknown(self, metric):
        return self.sum.sum() / self.n.sum()


class MultiRef:
    def __init__(self, bins, x, y, classes):
        self.b = bins
        self.r = bins.rows(x)
        y = np.asarray(y)
        self.classes = list(classes)
        self.e = np.array([[((self.r == i) & (y == c)).sum()
                            for c in self.classes]
                           for i in range(bins.n_rows)], dtype=float)
        n = self.e.sum(axis=1)
        self.n = n
        te = self.e.sum(axis=0)
        self.woe = np.zeros(self.e.shape)
        self.mixed = np.ones(len(n), dtype=bool)
        for j in range(len(self.classes)):
            e, ne = self.e[:, j], n - self.e[:, j]
            m = (e > 0) & (ne > 0)
            self.woe[m, j] = woe(ne[m], e[m], ne.sum(), e.sum())
            self.mixed &= m
        self.te = te

    def check_table(self, ctx, t, where):
        k = self.b.n_rows
        body = t.iloc[:k]
        tot = t.iloc[k]
        ctx.check(feq(body["Count"].to_numpy(dtype=float), self.n),
                  "table-count", lambda: "%s: Count is %s, records say %s" % (
                      where, body["Count"].tolist(), self.n.tolist()))
        for j, c in enumerate(self.classes):
            got = body["Event_%s" % c].to_numpy(dtype=float)
            ctx.check(feq(got, self.e[:, j]), "table-event",
                      lambda: "%s: Event_%s is %s, records say %s" % (
                          where, c, got.tolist(), self.e[:, j].tolist()))
            m = self.n > 0
            got = body["Event_rate_%s" % c].to_numpy(dtype=float)
            ctx.check(feq(got[m], self.e[m, j] / self.n[m]),
                      "table-event rate",
                      lambda: "%s: Event_rate_%s is %s" % (where, c,
                                                           got.tolist()))
            ctx.check(feq(float(tot["Event_%s" % c]), self.te[j]),
                      "table-totals", "%s: total Event_%s" % (where, c))
        ctx.check(feq(float(tot["Count"]), self.n.sum()), "table-totals",
                  "%s: total count %r" % (where, tot["Count"]))

    def check_metrics(self, ctx, t, where):
        p = self.e / self.te
        m = (p > 0)
        w = np.full(p.shape[1], 1 / p.shape[1])
        a = (p * w).sum(axis=1)
        h = -(a[a > 0] * np.log(a[a > 0])).sum()
        hs = sum(-w[j] * (p[m[:, j], j] * np.log(p[m[:, j], j])).sum()
                 for j in range(p.shape[1]))
        ctx.check(feq(float(t.js), h - hs, 1e-7, 1e-9), "metric-js",
                  "%s: js is %r, records say %r" % (where, t.js, h - hs))

    def values(self, metric):
        if metric == "mean_woe":
            return self.woe.mean(axis=1), self.mixed
        return (self.woe * self.te).sum(axis=1) / self.te.sum(), self.mixed

    def unknown(self, metric):
        return 0.0


def expect(ref, rows, metric, ms, mm, unknown, table_vals, digits=2):
    """Expected answer per value: list of (value or None if not settled)."""
    b = ref.b
    out = []
    lab = b.labels(digits) if metric == "bins" else None
    if metric not in ("bins", "indices"):
        val, ok = ref.values(metric)
    for r in rows:
        if r == UNKNOWN:
            if unknown is not None:
                out.append(unknown)
            elif metric == "indices":
                out.append(-1)
            elif metric == "bins":
                out.append("unknown")
            else:
                out.append(ref.unknown(metric))
            continue
        mis, spe = r == b.n_rows - 1, b.nb <= r < b.n_rows - 1
        m = mm if mis else ms if spe else "empirical"
        if metric == "bins":
            out.append(lab[r])
        elif m != "empirical" and not (metric == "indices" and
                                       not isinstance(m, int)):
            out.append(m)
        elif metric == "indices":
            out.append(int(r))
        else:
            out.append(val[r] if ok[r] else
                       table_vals[r] if table_vals is not None else None)
    return out


def answers_match(got, want, exact=False):
    """Index of the first answer that is wrong, or None."""
    got = np.asarray(got, dtype=object)
    if len(got) != len(want):
        return -1
    for i, (g, w) in enumerate(zip(got, want)):
        if w is None:
            continue
        if isinstance(w, str) or isinstance(g, str):
            if str(g) != w:
                return i
        elif not feq(float(g), float(w), 1e-8, 1e-8):
            return i
    return None


def refs_for(F, o, d):
    """Reference of a fitted one-dimensional object, from its split points
    and the records it was fitted on."""
    n, s = F.name, F.s
    from .families import _codes
    if n == "sb":
        x = np.concatenate(d["X"])
        y = np.concatenate(d["Y"])
    else:
        x, y = d["x"], d["y"]
    cat = n in ("bin_cat", "cont_cat") or (n == "sketch" and s["cat"])
    codes = _codes(s) if n != "sketch" else None
    if cat:
        b = Bins(groups=[list(g) for g in o.splits], codes=codes)
    else:
        b = Bins(splits=o.splits, codes=codes)
    if n in ("cont_num", "cont_cat"):
        return ContRef(b, x, y)
    if n == "multi":
        return MultiRef(b, x, y, sorted(set(np.asarray(y).tolist())))
    return BinaryRef(b, x, y, d.get("sample_weight"))
