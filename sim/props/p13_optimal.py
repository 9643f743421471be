"""P13: a binning reported optimal is optimal, and its status is honest.

The candidate splits are given by the user, so every admissible binning can be
listed by an independent model (definitions of the options, straight from the
records).  The solver runs to its end, is stopped by the deadline after some
incumbent, or before the first; the same object is fitted again and again.
"""

import itertools
import math

import numpy as np
from scipy import stats

from ..core import digest, nprng, pyrng
from ..solver import SolverSim

ID = "P13"
TITLE = "a binning reported optimal is optimal, and its status is honest"
LEVEL = "exploration"
N_QUICK = 2400
RULE = ("one run = one problem with user-given candidate splits, solved "
        "several times with the solver finishing or stopped by its deadline "
        "after a seeded incumbent or before the first; all admissible "
        "binnings are listed by an independent model; non-trivial when a "
        "deadline struck or the status was not OPTIMAL; distinct by hash of "
        "the event log")
REAL = ["OptimalBinning, ContinuousOptimalBinning, "
        "MulticlassOptimalBinning, SBOptimalBinning, OptimalBinning2D, "
        "ContinuousOptimalBinning2D", "CP and MIP models",
        "OR-Tools"]
STUB = ["solver deadline (simulated incumbents and time)"]
PROBES = ["optimal", "feasible", "unknown", "infeasible", "fixed-split",
          "beaten-by-deadline", "mip", "cp", "categorical", "continuous",
          "multiclass", "scenario", "binary", "regularised", "grid",
          "contgrid", "grid-gamma", "grid-cart"]
OWN_SOLVER = True
TRENDS = [None, "ascending", "descending", "peak", "valley", "concave",
          "convex", "auto", "auto_asc_desc", "auto_heuristic",
          "peak_heuristic", "valley_heuristic"]


def generate(seed, tier="quick"):
    r = pyrng("p13", seed)
    fam = r.choice(["binary", "binary", "binary", "categorical", "continuous",
                    "continuous", "multiclass", "scenario", "grid",
                    "contgrid"])
    if "grid" in fam:
        return generate2(r, fam)
    m = r.randint(2, 7)
    p = {"fam": fam, "m": m, "seed": r.randrange(1 << 40),
         "k": r.randint(2, 3), "shape": r.choice(
             ["up", "down", "peak", "valley", "noise"]),
         "noise": r.choice([0.05, 0.2, 0.6]), "big": r.random() < .2,
         "size": r.choice([[5, 60], [5, 60], [20, 30], [4, 300]]),
         "missing": r.choice([0, 0, 7]), "special": r.choice([0, 0, 5]),
         "loc": r.choice([0, 0, 100, -50]), "scale": r.choice([1, .01, 30])}
    kw = {}
    if fam == "multiclass":
        kw["monotonic_trend"] = r.choice([
            None, "auto", [r.choice([None, "ascending", "descending", "peak",
                                     "valley", "concave", "convex",
                                     "peak_heuristic", "valley_heuristic"])
                           for _ in range(3)]])
    elif fam == "scenario":
        kw["monotonic_trend"] = r.choice(TRENDS[:7])
    elif fam == "categorical":
        kw["monotonic_trend"] = r.choice([None, "auto", "ascending"])
    else:
        kw["monotonic_trend"] = r.choice(TRENDS)
    if r.random() < .25:
        kw["min_n_bins"] = r.choice([2, 3])
    if r.random() < .35:
        kw["max_n_bins"] = r.choice([2, 3, 4])
    if "min_n_bins" in kw and "max_n_bins" in kw:
        kw["max_n_bins"] = max(kw["max_n_bins"], kw["min_n_bins"])
    if r.random() < .3:
        kw["min_bin_size"] = r.choice([0.05, 0.15, 0.3])
    if r.random() < .2:
        kw["max_bin_size"] = r.choice([0.4, 0.6, 0.8])
    if r.random() < .25:
        kw["max_pvalue"] = r.choice([0.01, 0.1, 0.5])
        kw["max_pvalue_policy"] = r.choice(["all", "consecutive"])
    if fam == "continuous":
        if r.random() < .25:
            kw["min_mean_diff"] = round(r.choice([0.2, 1.0]) * p["scale"], 4)
        if r.random() < .1:
            kw["gamma"] = r.choice([0.1, 1.0])
    else:
        if r.random() < .25:
            kw["min_event_rate_diff"] = r.choice([0.02, 0.1, 0.3])
    if fam in ("binary", "categorical"):
        kw["solver"] = r.choice(["cp", "cp", "mip"])
        kw["divergence"] = r.choice(["iv", "iv", "js", "hellinger",
                                     "triangular"])
        if r.random() < .2:
            kw["min_bin_n_event"] = r.choice([5, 20])
        if r.random() < .15:
            kw["max_bin_n_nonevent"] = r.choice([30, 200])
        if r.random() < .1:
            kw["gamma"] = r.choice([0.1, 1.0])
    if fam == "multiclass":
        kw["solver"] = r.choice(["cp", "cp", "mip"])
    p["kw"] = kw
    if fam != "categorical" and r.random() < .2:
        p["fixed"] = [r.random() < .3 for _ in range(m - 1)]
    p["weights"] = r.choice([None, [1.0, 1.0, 1.0], [1.5, 1.0, 1.0],
                             [0.25, 0.6, 2.0], [3, 1, 2]])
    p["ops"] = [{"op": "fit", "v": r.randrange(2),
                 "mode": r.choice(["full", "full", "full", "stop", "nosol"]),
                 "k": r.choice([1, 1, 2, 3]), "sseed": r.randrange(1 << 20)}
                for _ in range(r.randint(1, 4))]
    return p


def generate2(r, fam):
    p = {"fam": fam, "seed": r.randrange(1 << 40),
         "mn": r.choice([[2, 2], [2, 3], [3, 2], [3, 3], [2, 4], [3, 3]]),
         "noise": r.choice([.05, .3, 1]), "sx": r.choice([1, -1]),
         "sy": r.choice([1, -1]), "missing": r.choice([0, 0, 9]),
         "special": r.choice([0, 0, 7]),
         "size": r.choice([[4, 20], [10, 12], [4, 60]])}
    kw = {"solver": r.choice(["cp", "mip"]),
          "strategy": r.choice(["grid", "grid", "grid", "cart"])}
    if r.random() < .2:
        kw["gamma"] = r.choice([.1, 1.0, 5.0])
    for a in "xy":
        if r.random() < .5:
            kw["monotonic_trend_" + a] = r.choice(["ascending",
                                                   "descending"])
            if r.random() < .4:
                kw[("min_event_rate_diff_" if fam == "grid" else
                    "min_mean_diff_") + a] = r.choice([.02, .1, .3])
    if r.random() < .25:
        kw["min_n_bins"] = r.choice([2, 3, 5])
    if r.random() < .35:
        kw["max_n_bins"] = max(r.choice([2, 3, 4, 6]),
                               kw.get("min_n_bins", 0))
    if r.random() < .3:
        kw["min_bin_size"] = r.choice([.05, .15, .3])
    if r.random() < .25:
        kw["max_bin_size"] = r.choice([.3, .5, .8])
    if fam == "grid":
        kw["divergence"] = r.choice(["iv", "js", "hellinger", "triangular"])
        if r.random() < .2:
            kw[r.choice(["min_bin_n_event", "min_bin_n_nonevent"])] = \
                r.choice([5, 15])
        if r.random() < .2:
            kw[r.choice(["max_bin_n_event", "max_bin_n_nonevent"])] = \
                r.choice([20, 60])
    p["kw"] = kw
    p["ops"] = [{"op": "fit", "v": r.randrange(2),
                 "mode": r.choice(["full", "full", "full", "stop", "nosol"]),
                 "k": r.choice([1, 1, 2]), "sseed": r.randrange(1 << 20)}
                for _ in range(r.randint(1, 3))]
    return p


def problem2(p, v):
    """Records of each cell of the grid: rows along y, columns along x."""
    rng = nprng("p13g", p["seed"], v)
    m, n = p["mn"]
    lo, hi = p["size"]
    t = p["sx"] * np.arange(n)[None, :] / n + p["sy"] * \
        np.arange(m)[:, None] / m + rng.normal(0, p["noise"], (m, n))
    N = rng.integers(lo, hi + 1, (m, n))
    z = {}
    for i in range(m):
        for j in range(n):
            k = int(N[i, j])
            if p["fam"] == "contgrid":
                z[i, j] = np.round(rng.normal(2 * t[i, j], 1, k), 4)
            else:
                e = min(max(1, round(k / (1 + math.exp(-2 * t[i, j])))),
                        k - 1)
                z[i, j] = np.r_[np.ones(e), np.zeros(k - e)]
    X = [np.full(len(a), j) + .1 + .8 * rng.random(len(a))
         for (i, j), a in z.items()]
    Y = [np.full(len(a), i) + .1 + .8 * rng.random(len(a))
         for (i, j), a in z.items()]
    X, Y, Z = (np.concatenate(a) for a in (X, Y, list(z.values())))
    # the extremes of both axes, so that equal width prebins are the cells
    X[np.argmin(X)], X[np.argmax(X)] = 0, n
    Y[np.argmin(Y)], Y[np.argmax(Y)] = 0, m
    for k, code in ((p["missing"], np.nan), (p["special"], -99.0)):
        X = np.r_[X, np.full(k, code)]
        Y = np.r_[Y, rng.uniform(.2, m - .2, k)]
        Z = np.r_[Z, rng.choice(Z, k)]
    o = rng.permutation(len(X))
    Z = Z[o] if p["fam"] == "contgrid" else Z[o].astype(int)
    return z, X[o], Y[o], Z


class Grid:
    def __init__(self, p, z, total):
        self.p, self.kw, self.z, self.total = p, p["kw"], z, total
        self.m, self.n = p["mn"]
        self.cont = p["fam"] == "contgrid"
        allz = np.concatenate(list(z.values()))
        self.mean = allz.mean()
        self.E, self.NE = allz.sum(), (1 - allz).sum()
        self.st = {}
        for a in range(self.m):
            for b in range(a + 1, self.m + 1):
                for c in range(self.n):
                    for d in range(c + 1, self.n + 1):
                        q = np.concatenate([z[i, j] for i in range(a, b)
                                            for j in range(c, d)])
                        self.st[a, b, c, d] = (len(q), q.sum(), q.mean())

    def tilings(self, done=frozenset(), acc=()):
        cell = next(((i, j) for i in range(self.m) for j in range(self.n)
                     if (i, j) not in done), None)
        if cell is None:
            yield acc
            return
        i, j = cell
        for b in range(i + 1, self.m + 1):
            for d in range(j + 1, self.n + 1):
                c = {(u, w) for u in range(i, b) for w in range(j, d)}
                if c & done:
                    break
                yield from self.tilings(done | c, acc + ((i, b, j, d),))

    def value(self, t):
        s = [self.st[r] for r in t]
        if self.cont:
            return sum(abs(a[2] - self.mean) for a in s)
        e = np.array([a[1] for a in s])
        n = np.array([a[0] for a in s])
        return div(self.kw["divergence"], e / self.E, (n - e) / self.NE)

    def admissible(self, t, strict):
        kw = self.kw
        if not kw.get("min_n_bins", 0) <= len(t) <= kw.get("max_n_bins", 99):
            return False
        g = 1e-6 if strict else -1e-6
        for r in t:
            n, e, _ = self.st[r]
            if "min_bin_size" in kw:
                lim = kw["min_bin_size"] * self.total
                if n < (math.ceil(lim + 1e-9) if strict else lim - 1e-9):
                    return False
            if "max_bin_size" in kw:
                lim = kw["max_bin_size"] * self.total
                if n > (math.floor(lim) if strict else
                        math.ceil(lim + 1e-9)):
                    return False
            if not self.cont:
                if e < kw.get("min_bin_n_event", 0) or \
                        e > kw.get("max_bin_n_event", 1e9) or \
                        n - e < kw.get("min_bin_n_nonevent", 0) or \
                        n - e > kw.get("max_bin_n_nonevent", 1e9):
                    return False
        for ax in "xy":
            tr = kw.get("monotonic_trend_" + ax)
            if tr is None:
                continue
            s = 1 if tr == "ascending" else -1
            md = kw.get("min_event_rate_diff_" + ax,
                        kw.get("min_mean_diff_" + ax, 0))
            for a in t:
                for b in t:
                    near = (a[3] == b[2] and a[0] < b[1] and b[0] < a[1]) \
                        if ax == "x" else \
                        (a[1] == b[0] and a[2] < b[3] and b[2] < a[3])
                    if near and s * (self.st[b][2] - self.st[a][2]) < md + g:
                        return False
        return True


def execute2(p, ctx):
    from optbinning.binning.multidimensional import (
        OptimalBinning2D, ContinuousOptimalBinning2D)
    m, n = p["mn"]
    kw = dict(p["kw"], prebinning_method="uniform", max_n_prebins_x=n,
              max_n_prebins_y=m, min_prebin_size_x=.01,
              min_prebin_size_y=.01)
    if p["special"]:
        kw["special_codes_x"] = [-99.0]
    o = (OptimalBinning2D if p["fam"] == "grid" else
         ContinuousOptimalBinning2D)(**kw)
    ctx.probe("mip" if p["kw"]["solver"] == "mip" else "cp")
    for op in p["ops"]:
        ctx.tick()
        ctx.steps += 1
        z, X, Y, Z = problem2(p, op["v"])
        mode = op["mode"]
        with SolverSim(ctx, mode=mode, k=op["k"], seed=op["sseed"],
                       mip_mode={"stop": "feasible"}.get(
                           mode, mode), noise=1e-7).installed() as sim:
            ctx.must("fit", o.fit, X, Y, Z)
        G = Grid(p, z, len(X))
        st, last = o.status, sim.calls[-1]["status"]
        sx, sy = o.splits

        def pos(v, top):
            return 0 if v == -np.inf else top if v == np.inf else \
                int(round(v))
        t = tuple((pos(b[0], m), pos(b[1], m), pos(a[0], n), pos(a[1], n))
                  for a, b in zip(sx, sy))
        ctx.event("fit", op["v"], mode, st, digest(t))
        ctx.probe(st.lower())
        ctx.state((p["fam"], st, len(t)))
        if st != "OPTIMAL":
            ctx.nontrivial = True
        cells = sorted((i, j) for a, b, c, d in t for i in range(a, b)
                       for j in range(c, d))
        ctx.check(cells == sorted(z), "bad-partition", lambda: (
            "rectangles %s of a %d x %d grid" % (t, m, n)))
        if st in ("UNKNOWN", "INFEASIBLE", "ABNORMAL"):
            ctx.check(len(t) == 1, "not-single", lambda: (
                "status %s with rectangles %s" % (st, t)))
            if kw["strategy"] == "cart":
                pass             # only unions of leaves: not settled
            elif st != "UNKNOWN":
                ok = next((q for q in G.tilings() if G.admissible(q, True)),
                          None)
                ctx.check(ok is None, "not-infeasible", lambda: (
                    "reported %s, but %s is admissible; options %s" % (
                        st, ok, p["kw"])))
            else:
                ctx.check(last not in (0, 1, "FEASIBLE", "OPTIMAL"),
                          "status-wrong", "a solution was found, status "
                          "UNKNOWN")
            continue
        ctx.check(last in (0, 1, "FEASIBLE", "OPTIMAL") and
                  (st == "OPTIMAL") == (last in (0, "OPTIMAL")),
                  "status-wrong", lambda: "status %s, the solver said %s" % (
                      st, last))
        ctx.check(G.admissible(t, False), "not-admissible", lambda: (
            "%s rectangles %s (%s) break the options %s" % (
                st, t, [G.st[r] for r in t], p["kw"])))
        if kw.get("gamma"):
            ctx.probe("grid-gamma")
        if kw["strategy"] == "cart":
            ctx.probe("grid-cart")
        if st != "OPTIMAL" or kw.get("gamma") or kw["strategy"] == "cart":
            continue
        v = G.value(t)
        tol = 2e-5 * len(z) + (2e-4 * abs(v) if kw["solver"] == "mip" else 0)
        best = max((q for q in G.tilings() if G.admissible(q, True)),
                   key=G.value, default=None)
        ctx.check(best is None or v >= G.value(best) - tol, "not-optimal",
                  lambda: "reported OPTIMAL with value %.7f (%s), "
                  "admissible %s has value %.7f; options %s" % (
                      v, t, best, G.value(best), p["kw"]))


# ------------------------------------------------------------------- data --

def curve(p, rng):
    m = p["m"]
    t = np.linspace(0, 1, m) if m > 1 else np.zeros(1)
    s = {"up": t, "down": 1 - t, "peak": 1 - abs(2 * t - 1),
         "valley": abs(2 * t - 1), "noise": rng.random(m)}[p["shape"]]
    s = s + rng.normal(0, p["noise"], m)
    s = s - s.min()
    return s / (s.max() or 1)


def problem(p, v):
    """Records of the candidate bins, by bin."""
    rng = nprng("p13", p["seed"], v)
    m, fam = p["m"], p["fam"]
    lo, hi = p["size"]
    d = {}
    if fam == "scenario":
        d["n"] = [rng.integers(max(lo, 4), hi + 1, m) for _ in range(p["k"])]
        d["e"] = []
        for s in range(p["k"]):
            rate = np.clip(curve(p, rng), .05, .95)
            d["e"].append(np.array([min(max(1, round(q * n)), n - 1)
                                    for q, n in zip(rate, d["n"][s])]))
        return d
    n = rng.integers(max(lo, 4), hi + 1, m)
    d["n"] = n
    if fam == "continuous":
        mu = (curve(p, rng) * 4 - (2 if p["big"] else 0)) * p["scale"] \
            + p["loc"]
        d["y"] = [np.round(rng.normal(u, p["scale"], k), 5)
                  for u, k in zip(mu, n)]
        return d
    if fam == "multiclass":
        c = [np.clip(curve(p, rng), .05, 1) for _ in range(3)]
        w = np.array(c) / sum(c)
        d["c"] = []
        for j in range(m):
            k = np.maximum(1, np.round(w[:, j] * n[j]).astype(int))
            d["c"].append(k)
        d["n"] = np.array([k.sum() for k in d["c"]])
        return d
    base = rng.choice([0.0, 0.0, 0.5])
    rate = np.clip(curve(p, rng) * .9 + .05, .03, .97)
    rate = base + rate * (1 - base)
    d["e"] = np.array([min(max(1, round(q * k)), k - 1)
                       for q, k in zip(rate, n)])
    return d


def records(p, d, v):
    rng = nprng("p13x", p["seed"], v)
    fam, m = p["fam"], p["m"]

    def one(n, ys):
        x = np.concatenate([j + rng.random(k) * .98 for j, k in
                            enumerate(n)])
        y = np.concatenate(ys)
        if p["missing"]:
            x = np.r_[x, np.full(p["missing"], np.nan)]
            y = np.r_[y, rng.choice(y, p["missing"])]
        if p["special"]:
            x = np.r_[x, np.full(p["special"], -99.0)]
            y = np.r_[y, rng.choice(y, p["special"])]
        i = rng.permutation(len(x))
        return x[i], y[i]

    if fam == "scenario":
        X, Y = [], []
        for s in range(p["k"]):
            x, y = one(d["n"][s], [np.r_[np.ones(e, int),
                                         np.zeros(n - e, int)]
                                   for n, e in zip(d["n"][s], d["e"][s])])
            X.append(x)
            Y.append(y)
        return X, Y
    if fam == "continuous":
        return one(d["n"], d["y"])
    if fam == "multiclass":
        return one(d["n"], [np.repeat([0, 1, 2], k) for k in d["c"]])
    x, y = one(d["n"], [np.r_[np.ones(e, int), np.zeros(n - e, int)]
                        for n, e in zip(d["n"], d["e"])])
    if fam == "categorical":
        lv = np.array(["L%d" % j for j in range(m)], dtype=object)
        out = np.empty(len(x), dtype=object)
        for i, a in enumerate(x):
            out[i] = None if a != a else "zz" if a < 0 else lv[int(a)]
        x = out
    return x, y


# ------------------------------------------------------------------ model --

def div(kind, p, q):
    p, q = np.asarray(p, float), np.asarray(q, float)
    if kind == "iv":
        return ((p - q) * np.log(p / q)).sum()
    if kind == "js":
        m = (p + q) / 2
        return .5 * ((p * np.log(p / m)).sum() + (q * np.log(q / m)).sum())
    if kind == "hellinger":
        return .5 * ((np.sqrt(p) - np.sqrt(q)) ** 2).sum()
    return ((p - q) ** 2 / (p + q)).sum()


def monotone(trend, r, eps, consecutive=True):
    r = np.asarray(r, float)
    dd = np.diff(r)
    if trend in (None,):
        return True
    if trend == "ascending":
        return (dd >= -eps).all()
    if trend == "descending":
        return (dd <= eps).all()
    if trend in ("peak", "peak_heuristic"):
        return any((dd[:t] >= -eps).all() and (dd[t:] <= eps).all()
                   for t in range(len(r)))
    if trend in ("valley", "valley_heuristic"):
        return any((dd[:t] <= eps).all() and (dd[t:] >= -eps).all()
                   for t in range(len(r)))
    s = 1 if trend == "concave" else -1
    if consecutive:
        tr = [(i - 1, i, i + 1) for i in range(1, len(r) - 1)]
    else:
        tr = itertools.combinations(range(len(r)), 3)
    return all(s * (2 * r[j] - r[i] - r[k]) >= -eps for i, j, k in tr)


class Model:
    """All binnings over the candidates, with their value and admissibility
    in a generous and in a strict reading of the options."""

    def __init__(self, p, d, order=None):
        self.p, self.kw = p, p["kw"]
        self.fam = fam = p["fam"]
        k = order if order is not None else np.arange(p["m"])
        extra = p["missing"] + p["special"]
        self.order = k
        if fam == "scenario":
            self.n = [np.asarray(a)[k] for a in d["n"]]
            self.e = [np.asarray(a)[k] for a in d["e"]]
            self.total = [a.sum() + extra for a in self.n]
        else:
            self.n = [np.asarray(d["n"])[k]]
            self.total = [self.n[0].sum() + extra]
            if fam == "continuous":
                self.y = [d["y"][i] for i in k]
            elif fam == "multiclass":
                self.c = np.array(d["c"])[k]
            else:
                self.e = [np.asarray(d["e"])[k]]
        self.m = len(k)

    def rates(self, blocks):
        """event rates (means) per target, per block."""
        if self.fam == "continuous":
            return [[np.concatenate([self.y[i] for i in b]).mean()
                     for b in blocks]]
        if self.fam == "multiclass":
            return [[self.c[b, c].sum() / self.c[b].sum() for b in blocks]
                    for c in range(3)]
        return [[e[b].sum() / n[b].sum() for b in blocks]
                for e, n in zip(self.e, self.n)]

    def value(self, blocks):
        kw = self.kw
        if self.fam == "continuous":
            t = np.concatenate(self.y).mean()
            v = sum(abs(a - t) for a in self.rates(blocks)[0])
        elif self.fam == "multiclass":
            v = 0
            for c in range(3):
                e = np.array([self.c[b, c].sum() for b in blocks], float)
                ne = np.array([self.c[b].sum() for b in blocks]) - e
                v += div("iv", e / e.sum(), ne / ne.sum())
        else:
            v = 0
            w = self.p["weights"] or [1.0] * 3
            if self.fam != "scenario":
                w = [1.0]
            for s, (e0, n0) in enumerate(zip(self.e, self.n)):
                e = np.array([e0[b].sum() for b in blocks], float)
                ne = np.array([n0[b].sum() for b in blocks]) - e
                v += w[s] * div(kw.get("divergence", "iv"), e / e.sum(),
                                ne / ne.sum())
        if kw.get("gamma"):
            z = [self.n[0][b].sum() for b in blocks]
            g = math.ceil(1e6 * kw["gamma"] / self.n[0].sum()) / 1e6
            v -= g * (max(z) - min(z))
        return v

    def admissible(self, blocks, strict, trend):
        kw, p = self.kw, self.p
        k = len(blocks)
        if k < kw.get("min_n_bins", 0) or k > kw.get("max_n_bins", 99):
            return False
        for n, tot in zip(self.n, self.total):
            z = [n[b].sum() for b in blocks]
            if "min_bin_size" in kw:
                lim = kw["min_bin_size"] * tot
                if min(z) < (math.ceil(lim + 1e-9) if strict
                             else lim - 1e-9):
                    return False
            if "max_bin_size" in kw:
                lim = kw["max_bin_size"] * tot
                if max(z) > (math.floor(lim) if strict
                             else math.ceil(lim + 1e-9)):
                    return False
        if "min_bin_n_event" in kw or "max_bin_n_nonevent" in kw:
            e = [self.e[0][b].sum() for b in blocks]
            ne = [self.n[0][b].sum() - a for a, b in zip(e, blocks)]
            if min(e) < kw.get("min_bin_n_event", 0) or \
                    max(ne) > kw.get("max_bin_n_nonevent", 1e9):
                return False
        rs = self.rates(blocks)
        sc = max([1] + [abs(a) for r in rs for a in r])
        eps = 4e-6 if not strict else -4e-6 if not self.exact(rs) else 0
        tr = trend if self.fam == "multiclass" else [trend] * len(rs)
        if self.fam == "scenario" and trend in ("peak", "valley"):
            # one change point for all scenarios
            if not any(all(monotone(a, r[:t + 1], eps) and
                           monotone(b, r[t:], eps) for r in rs)
                       for t in range(k)
                       for a, b in [("ascending", "descending")
                                    if trend == "peak" else
                                    ("descending", "ascending")]):
                # generous: the point may lie between two bins
                if strict or not all(monotone(trend, r, eps) for r in rs):
                    return False
        else:
            for r, t in zip(rs, tr):
                if not monotone(t, r, eps, not strict):
                    return False
        md = kw.get("min_event_rate_diff", kw.get("min_mean_diff", 0))
        if md:
            g = 4e-6 * (1 if self.fam != "continuous" else sc)
            for r in rs:
                if k > 1 and np.abs(np.diff(r)).min() < \
                        md + (g if strict else -g):
                    return False
        if "max_pvalue" in kw:
            prs = itertools.combinations(range(k), 2) \
                if kw["max_pvalue_policy"] == "all" else \
                [(i, i + 1) for i in range(k - 1)]
            for i, j in prs:
                for s in range(len(rs)):
                    pv = self.pvalue(blocks[i], blocks[j], s)
                    if pv != pv:
                        if strict:
                            return False
                        continue
                    g = 1e-7
                    if pv > kw["max_pvalue"] + (-g if strict else g):
                        return False
        f = p.get("fixed")
        if f:
            cuts = {b[-1] for b in blocks[:-1]}
            if any(f[i] and i not in cuts for i in range(self.m - 1)):
                return False
        return True

    def exact(self, rs):
        return False

    def pvalue(self, a, b, s):
        if self.fam == "continuous":
            y = np.concatenate([self.y[i] for i in a])
            z = np.concatenate([self.y[i] for i in b])
            return stats.ttest_ind_from_stats(
                y.mean(), y.std(), len(y), z.mean(), z.std(), len(z),
                False)[1]
        if self.fam == "multiclass":
            e = self.c[:, s]
            n = self.c.sum(axis=1)
        else:
            e, n = self.e[s], self.n[s]
        e1, n1, e2, n2 = e[a].sum(), n[a].sum(), e[b].sum(), n[b].sum()
        q = (e1 + e2) / (n1 + n2)
        z = (e1 / n1 - e2 / n2) / math.sqrt(q * (1 - q) * (1 / n1 + 1 / n2))
        return 2 * stats.norm.sf(abs(z))

    def all(self):
        for cut in itertools.product((False, True), repeat=self.m - 1):
            yield self.blocks([i for i, c in enumerate(cut) if c])

    def blocks(self, cuts):
        e = [0] + [c + 1 for c in cuts] + [self.m]
        return [list(range(a, b)) for a, b in zip(e, e[1:])]

    def best(self, strict, trend):
        v = [self.value(b) for b in self.all()
             if self.admissible(b, strict, trend)]
        return max(v) if v else None


# -------------------------------------------------------------- execution --

def build(p):
    import optbinning as ob
    from optbinning.binning.uncertainty import SBOptimalBinning
    kw = dict(p["kw"])
    if isinstance(kw.get("monotonic_trend"), list):
        kw["monotonic_trend"] = list(kw["monotonic_trend"])
    fam = p["fam"]
    if fam == "categorical":
        kw["dtype"] = "categorical"
        kw["user_splits"] = np.array([["L%d" % j] for j in range(p["m"])],
                                     dtype=object)
        if p["special"]:
            kw["special_codes"] = ["zz"]
    else:
        kw["user_splits"] = [float(j) for j in range(1, p["m"])]
        if p["special"]:
            kw["special_codes"] = [-99.0]
        if p.get("fixed"):
            kw["user_splits_fixed"] = list(p["fixed"])
    c = {"binary": ob.OptimalBinning, "categorical": ob.OptimalBinning,
         "continuous": ob.ContinuousOptimalBinning,
         "multiclass": ob.MulticlassOptimalBinning,
         "scenario": SBOptimalBinning}[fam]
    return c(**kw)


def execute(plan, ctx):
    p = plan
    fam = p["fam"]
    ctx.probe(fam)
    if "grid" in fam:
        return execute2(p, ctx)
    if fam in ("binary", "categorical", "multiclass"):
        ctx.probe(p["kw"]["solver"])
    if any(p.get("fixed") or ()):
        ctx.probe("fixed-split")
    o = build(p)
    for op in p["ops"]:
        ctx.tick()
        ctx.steps += 1
        d = problem(p, op["v"])
        x, y = records(p, d, op["v"])
        order = None
        if fam == "categorical":
            rate = d["e"] / d["n"]
            if len(set(np.round(rate, 9))) < len(rate):
                ctx.probe("tied")
                continue
            order = np.argsort(rate)
        mode = op["mode"]
        mip = p["kw"].get("solver") == "mip"
        with SolverSim(ctx, mode=mode, k=op["k"], seed=op["sseed"],
                       mip_mode={"stop": "feasible"}.get(
                           mode, mode), noise=1e-7).installed() as sim:
            if fam == "scenario":
                w = p["weights"]
                w = None if w is None else w[:p["k"]]
                ctx.must("fit", o.fit, x, y, w)
            else:
                ctx.must("fit", o.fit, x, y)
        judge(ctx, p, o, Model(p, d, order), op, sim, mip)


def judge(ctx, p, o, M, op, sim, mip):
    fam = p["fam"]
    status = o.status
    if fam == "categorical":
        got = [list(g) for g in o.splits]
        lv = ["L%d" % i for i in M.order]
        flat = [c for g in got for c in g]
        ctx.check(flat == lv or sorted(flat) == sorted(lv), "bad-partition",
                  lambda: "groups %s of levels %s" % (got, lv))
        pos = {c: i for i, c in enumerate(lv)}
        blocks = [sorted(pos[c] for c in g) for g in got]
        blocks.sort()
        ctx.check(all(b == list(range(b[0], b[-1] + 1)) for b in blocks),
                  "not-contiguous", lambda: "groups %s are not contiguous in "
                  "event rate order %s" % (got, lv))
    else:
        got = [float(s) for s in o.splits]
        ctx.check(all(s in range(1, p["m"]) for s in got) and
                  all(a < b for a, b in zip(got, got[1:])), "bad-partition",
                  lambda: "splits %s out of candidates 1..%d" % (
                      got, p["m"] - 1))
        blocks = M.blocks([int(s) - 1 for s in got])
    ctx.event("fit", op["v"], op["mode"], status, digest(got))
    ctx.probe(status.lower())
    ctx.state((fam, status, len(blocks)))
    if not sim.calls:
        ctx.probe("no-solver-call")
        return
    st = sim.calls[-1]["status"]
    if status != "OPTIMAL":
        ctx.nontrivial = True
    trends = p["kw"].get("monotonic_trend")
    if fam == "categorical":
        trends = [None] if trends is None else ["ascending"]
    elif fam == "multiclass":
        if trends == "auto":
            trends = list(itertools.product(
                ["ascending", "descending", "peak", "valley"], repeat=3))
            tight = False
        else:
            trends = [[None] * 3 if trends is None else trends]
    elif trends in ("auto", "auto_heuristic"):
        trends = ["ascending", "descending", "peak", "valley"]
    elif trends == "auto_asc_desc":
        trends = ["ascending", "descending"]
    else:
        trends = [trends]
    # the code (and its tests) take a fixed split that goes against an
    # ascending or descending trend as infeasible: only admissibility
    heur = "heuristic" in str(p["kw"].get("monotonic_trend")) or (
        any(p.get("fixed") or ()) and fam == "binary" and
        p["kw"].get("monotonic_trend") not in (
            None, "peak", "valley", "concave", "convex"))
    auto = "auto" in str(p["kw"].get("monotonic_trend"))

    if status in ("UNKNOWN", "INFEASIBLE", "ABNORMAL"):
        ctx.check(len(blocks) == 1, "not-single", lambda: (
            "status %s with splits %s" % (status, got)))
        if status in ("INFEASIBLE", "ABNORMAL") and not heur:
            ok = [M.best(True, t) is None for t in trends]
            ctx.check(any(ok), "not-infeasible", lambda: (
                "reported %s, but %s is admissible" % (status, next(
                    b for b in M.all() if M.admissible(b, True, trends[0])))))
        if status == "UNKNOWN":
            ctx.check(st not in (0, 1, "FEASIBLE", "OPTIMAL"),
                      "status-wrong", "a solution was found, status UNKNOWN")
        return
    ctx.check(status in ("OPTIMAL", "FEASIBLE"), "status-wrong",
              lambda: "status %s" % status)
    ctx.check(st in (0, 1, "FEASIBLE", "OPTIMAL"), "status-wrong",
              lambda: "status %s, the solver said %s" % (status, st))
    proved = st in (0, "OPTIMAL")
    ctx.check((status == "OPTIMAL") == proved, "status-wrong", lambda: (
        "status %s, solver said %s" % (status, st)))
    ok = [t for t in trends if M.admissible(blocks, False, t)]
    ctx.check(ok, "not-admissible", lambda: (
        "%s splits %s (bins %s, rates %s, sizes %s) break the options %s" % (
            status, got, blocks, M.rates(blocks),
            [[int(n[b].sum()) for b in blocks] for n in M.n], p["kw"])))
    v = M.value(blocks)
    tol = 2e-5 * p["m"] + (2e-4 if mip else 0) * abs(v)
    if fam == "scenario":
        tol *= sum((p["weights"] or [1, 1, 1])[:p["k"]]) + 1
    if fam == "multiclass" and auto:
        return                       # which of the 64 trends: not settled
    up = [M.best(False, t) for t in trends]
    ctx.check(any(u is not None and v <= u + tol for u in up),
              "above-optimum", "model error: value above the optimum")
    if status != "OPTIMAL":
        if any(u is not None and v < u - tol for u in up):
            ctx.probe("beaten-by-deadline")
        return
    if p["kw"].get("gamma"):
        ctx.probe("regularised")
    if heur:
        return
    best = [M.best(True, t) for t in ok]
    ctx.check(any(b is None or v >= b - tol for b in best), "not-optimal",
              lambda: "reported OPTIMAL with value %.7f (splits %s), "
              "admissible %s has value %.7f; options %s" % (
                  v, got, max((b for b in M.all()
                               if M.admissible(b, True, ok[0])),
                              key=M.value), max(b for b in best
                                                if b is not None),
                  p["kw"]))
