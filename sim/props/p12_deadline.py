"""P12: whenever the search is cut short, the binning keeps its promises.

Histories of fits of one object under a simulated solver deadline.  After each
fit the table accounts for all records and the bins respect the options the
user asked for, computed from the records alone; later fits are not affected.
"""

import math

import numpy as np
from scipy import stats

from ..core import digest, nprng, pyrng
from ..families import Fam, first_diff, gen_fam
from ..oracle import Bins, code_groups, is_missing
from ..solver import SolverSim
from .p17_service import One, Two

ID = "P12"
TITLE = "a binning keeps its promises whenever its search is cut short"
LEVEL = "exploration"
N_QUICK = 1800
RULE = ("one run = a history of fits of one object, each with the solver "
        "finishing, stopped after a seeded incumbent, stopped before the "
        "first one, racing the deadline the code asked for, or returning "
        "values integral within its tolerance; non-trivial when a deadline "
        "struck; distinct by hash of the event log")
REAL = ["all 1-D binnings, 2D, scenario-based and sketch binnings",
        "CP and MIP models", "OR-Tools", "prebinning"]
STUB = ["solver deadline (simulated incumbents and time)",
        "MIP integrality noise"]
PROBES = ["optimal", "feasible", "unknown", "infeasible", "single-bin",
          "recovered", "2d", "scenario", "sketch", "multiclass", "mip",
          "categorical", "others", "limit-set"]
OWN_SOLVER = True
FAMS = ["bin_num"] * 3 + ["bin_cat", "cont_num", "cont_num", "cont_cat",
                          "multi", "multi", "sb", "sb", "sketch", "bin2d",
                          "bin2d", "cont2d", "cont2d"]
ONED = ["ascending", "descending", "peak", "valley"]


def generate(seed, tier="quick"):
    r = pyrng("p12", seed)
    s = gen_fam(r, r.choice(FAMS), small=True)
    kw = s["kw"]
    kw.pop("outlier_detector", None)
    kw.pop("class_weight", None)
    s["weights"] = False
    if s["fam"] == "sb" and s["codes"] == "dict":
        s["codes"] = "list"
    n = s["fam"]
    if n != "sketch" and r.random() < .7:
        kw["time_limit"] = r.choice([1, 5, 17, 60, 300])
    if n in ("bin2d", "cont2d"):
        kw["solver"] = r.choice(["cp", "cp", "mip"])
        if r.random() < .2:
            kw["min_n_bins"] = r.choice([2, 3, 12])
            kw["max_n_bins"] = r.choice([12, 14])
        if r.random() < .3:
            kw["min_bin_size"] = r.choice([.05, .1, .3])
        if r.random() < .2:
            kw["max_bin_size"] = max(r.choice([.2, .4, .6]),
                                     kw.get("min_bin_size", 0))
        m = "min_event_rate_diff_" if n == "bin2d" else "min_mean_diff_"
        for a in "xy":
            if "monotonic_trend_" + a in kw and r.random() < .4:
                kw[m + a] = r.choice([.02, .1, .5])
        if n == "bin2d" and r.random() < .3:
            kw["min_bin_n_event"] = r.choice([2, 5])
        if n == "bin2d" and r.random() < .2:
            kw["max_bin_n_nonevent"] = r.choice([15, 40])
    elif n != "sketch":
        if "min_n_bins" in kw and r.random() < .3:
            kw["min_n_bins"] = kw["max_n_bins"] = r.choice([3, 4, 5])
        if n in ("bin_num", "bin_cat", "multi", "sb") and r.random() < .2:
            kw["min_event_rate_diff"] = r.choice([.02, .1, .25])
        if n in ("bin_num", "bin_cat") and r.random() < .2:
            kw[r.choice(["min_bin_n_event", "min_bin_n_nonevent"])] = \
                r.choice([3, 8])
        if n in ("bin_num", "bin_cat") and r.random() < .2:
            kw[r.choice(["max_bin_n_event", "max_bin_n_nonevent"])] = \
                r.choice([12, 40])
        if n == "sb":
            kw["monotonic_trend"] = r.choice(
                [None, "ascending", "descending", "peak", "valley",
                 "concave", "convex"])
        if n == "multi" and r.random() < .4:
            kw["monotonic_trend"] = [r.choice(
                [None, "auto", "ascending", "descending", "peak", "valley",
                 "concave", "convex"]) for _ in range(3)]
    ops = []
    for _ in range(r.randint(2, 5)):
        ops.append({"op": "fit", "v": r.randrange(2),
                    "mode": r.choice(["full", "full", "stop", "stop",
                                      "nosol", "draw"]),
                    "k": r.choice([1, 1, 1, 2, 3]),
                    "noise": r.choice([0, 0, 1e-7, 1e-6]),
                    "sseed": r.randrange(1 << 20)})
    return {"fam": s, "ops": ops}


# ------------------------------------------------------------- admissible --

def shape_ok(trend, r, eps):
    r = np.asarray(r, float)
    dd = np.diff(r)
    up, dn = dd >= -eps, dd <= eps
    t = trend.replace("_heuristic", "") if trend else trend
    if t is None:
        return True
    if t == "auto":
        return any(shape_ok(a, r, eps) for a in ONED)
    if t == "auto_asc_desc":
        return bool(up.all() or dn.all())
    if t == "ascending":
        return bool(up.all())
    if t == "descending":
        return bool(dn.all())
    if t in ("peak", "valley"):
        a, b = (up, dn) if t == "peak" else (dn, up)
        return any(a[:i].all() and b[i:].all() for i in range(len(r)))
    c = 1 if t == "concave" else -1
    return all(c * (2 * r[i] - r[i - 1] - r[i + 1]) >= -2 * eps
               for i in range(1, len(r) - 1))


def broken(F, o, d, drop_last=False):
    """The first option the bins do not respect, or None."""
    s, n = F.s, F.name
    kw = s["kw"]
    from ..families import _codes
    codes = _codes(s) if n != "sketch" else None
    cat = n in ("bin_cat", "cont_cat") or (n == "sketch" and s["cat"])
    sets = list(zip(d["X"], d["Y"])) if n == "sb" else [(d["x"], d["y"])]
    if cat:
        b = Bins(groups=[list(g) for g in o.splits], codes=codes)
    else:
        b = Bins(splits=o.splits, codes=codes)
    nb = b.nb - drop_last
    if nb > kw.get("max_n_bins", 1e9) if kw.get("max_n_bins") else False:
        return "max_n_bins: %d bins" % nb
    if nb < (kw.get("min_n_bins") or 0):
        return "min_n_bins: %d bins" % nb
    cont = n in ("cont_num", "cont_cat")
    trend = kw.get("monotonic_trend", "auto" if n != "sb" else None)
    rates = []
    for x, y in sets:
        y = np.asarray(y, float)
        rows = b.rows(x)
        N = len(x)
        size = np.array([(rows == i).sum() for i in range(nb)])
        lim = kw.get("min_bin_size")
        if lim and size.min() < lim * N - 1e-6:
            return "min_bin_size: %s of %d" % (size.tolist(), N)
        lim = kw.get("max_bin_size")
        if lim and size.max() > math.ceil(lim * N + 1e-6):
            return "max_bin_size: %s of %d" % (size.tolist(), N)
        tg = [y] if n != "multi" else [(y == c).astype(float)
                                       for c in sorted(set(y.tolist()))]
        for c, t in enumerate(tg):
            v = [t[rows == i] for i in range(nb)]
            r = np.array([a.mean() if len(a) else np.nan for a in v])
            if np.isnan(r).any():
                return "empty bin: %s" % size.tolist()
            rates.append(r)
            if not cont and n != "multi":
                e = np.array([a.sum() for a in v])
                for k, w in (("event", e), ("nonevent", size - e)):
                    if w.min() < (kw.get("min_bin_n_" + k) or 0):
                        return "min_bin_n_%s: %s" % (k, w.tolist())
                    if w.max() > (kw.get("max_bin_n_" + k) or 1e9):
                        return "max_bin_n_%s: %s" % (k, w.tolist())
            sc = max(1.0, float(np.abs(r).max()))
            md = kw.get("min_mean_diff" if cont else "min_event_rate_diff")
            if md and nb > 1 and np.abs(np.diff(r)).min() < md - 4e-6 * sc:
                return "minimum difference %s: %s" % (md, r.tolist())
            if kw.get("max_pvalue"):
                for i in range(nb):
                    for j in range(i + 1, nb):
                        if j > i + 1 and kw["max_pvalue_policy"] == \
                                "consecutive":
                            continue
                        pv = pvalue(v[i], v[j], cont)
                        if pv == pv and pv > kw["max_pvalue"] + 1e-6:
                            return "max_pvalue: bins %d, %d have %r" % (
                                i, j, pv)
    tr = trend if isinstance(trend, list) else [trend] * len(rates)
    if cat:
        # categories are ordered by event rate (mean)
        tr = [None if t is None else "auto_asc_desc" for t in tr]
    for r, t in zip(rates, tr):
        eps = 4e-6 * max(1.0, float(np.abs(r).max()))
        if not shape_ok(t, r, eps):
            return "monotonic trend %s: %s" % (t, r.tolist())
    if n == "sb" and trend in ("peak", "valley"):
        a, c = (1, -1) if trend == "peak" else (-1, 1)
        if not any(all((a * np.diff(r)[:i] >= -4e-6).all() and
                       (c * np.diff(r)[i:] >= -4e-6).all() for r in rates)
                   for i in range(nb)) and nb > 3:
            # the change point may also lie between two bins
            if not any(all((a * np.diff(r)[:i] >= -4e-6).all() and
                           (c * np.diff(r)[i + 1:] >= -4e-6).all()
                           for r in rates) for i in range(nb)):
                return "one %s for all scenarios: %s" % (
                    trend, [r.tolist() for r in rates])
    if s.get("user_splits") == "fixed" and not cat:
        us, fx = F._user_splits()
        miss = [u for u, f in zip(us, fx) if f and not
                np.isclose(np.asarray(o.splits, float), u).any()]
        if miss and "split_digits" not in kw:
            return "user_splits_fixed: %s not in %s" % (
                miss, np.asarray(o.splits).tolist())
    return None


def pvalue(a, b, cont):
    n1, n2 = len(a), len(b)
    if cont:
        with np.errstate(all="ignore"):
            return stats.ttest_ind_from_stats(
                a.mean(), a.std(), n1, b.mean(), b.std(), n2, False)[1]
    q = (a.sum() + b.sum()) / (n1 + n2)
    v = q * (1 - q) * (1 / n1 + 1 / n2)
    if v <= 0:
        return float("nan")
    return 2 * stats.norm.sf(abs(a.mean() - b.mean()) / math.sqrt(v))


def broken2(F, o, d):
    s, kw = F.s, F.s["kw"]
    sx, sy = o.splits
    nb = len(sx)
    if nb > (kw.get("max_n_bins") or 1e9) or nb < (kw.get("min_n_bins") or 0):
        return "number of bins %d" % nb
    codes = [c for _, g in code_groups(o.special_codes_x) for c in g] \
        if s["codes"] else []
    z = np.asarray(d["z"], float)
    rows = []
    for x, y in zip(d["x"], d["y"]):
        if is_missing(x) or is_missing(y) or x in codes:
            rows.append(-1)
            continue
        rows.append(next(i for i in range(nb) if sx[i][0] <= x < sx[i][1] and
                         (y in list(sy[i]) if s["caty"] else
                          sy[i][0] <= y < sy[i][1])))
    rows = np.array(rows)
    v = [z[rows == i] for i in range(nb)]
    size = np.array([len(a) for a in v])
    N = len(z)
    if kw.get("min_bin_size") and size.min() < kw["min_bin_size"] * N - 1e-6:
        return "min_bin_size: %s of %d" % (size.tolist(), N)
    if kw.get("max_bin_size") and size.max() > math.ceil(
            kw["max_bin_size"] * N + 1e-6):
        return "max_bin_size: %s of %d" % (size.tolist(), N)
    if not size.all():
        return "empty bin: %s" % size.tolist()
    r = np.array([a.mean() for a in v])
    if F.name == "bin2d":
        e = np.array([a.sum() for a in v])
        if e.min() < (kw.get("min_bin_n_event") or 0):
            return "min_bin_n_event: %s" % e.tolist()
        if (size - e).max() > (kw.get("max_bin_n_nonevent") or 1e9):
            return "max_bin_n_nonevent: %s" % (size - e).tolist()

    def meets(a, b, catd):
        if catd:
            return bool(set(a) & set(b))
        return a[0] < b[1] and b[0] < a[1]

    m = "min_event_rate_diff_" if F.name == "bin2d" else "min_mean_diff_"
    for ax, A, B, catb in (("x", sx, sy, s["caty"]), ("y", sy, sx, False)):
        t = kw.get("monotonic_trend_" + ax)
        if t is None or (ax == "y" and s["caty"]):
            continue
        md = kw.get(m + ax, 0)
        sgn = 1 if t == "ascending" else -1
        for i in range(nb):
            for j in range(nb):
                if A[i][1] == A[j][0] and meets(B[i], B[j], catb):
                    if sgn * (r[j] - r[i]) < md - 1e-9:
                        return "trend_%s %s, minimum difference %s: bins " \
                            "%s %s, rates %r %r" % (
                                ax, t, md, (sx[i], sy[i]), (sx[j], sy[j]),
                                r[i], r[j])
    return None


# -------------------------------------------------------------- execution --

def execute(plan, ctx):
    F = Fam(plan["fam"])
    kw = F.s["kw"]
    two = F.name in ("bin2d", "cont2d")
    ctx.probe({"bin2d": "2d", "cont2d": "2d", "sb": "scenario",
               "multi": "multiclass", "sketch": "sketch",
               "bin_cat": "categorical", "cont_cat": "categorical"}.get(
                   F.name, F.name))
    mip = kw.get("solver") == "mip"
    if mip:
        ctx.probe("mip")
    o = F.new()
    hit = False
    for op in plan["ops"]:
        ctx.tick()
        ctx.steps += 1
        d = F.data(op["v"])
        mode = op["mode"]
        if F.name == "sketch":
            o = F.new()

        def fit(obj, mode, noise):
            sim = SolverSim(ctx, mode=mode, k=op["k"], seed=op["sseed"],
                            mip_mode={"stop": "feasible",
                                      "draw": "full"}.get(mode, mode),
                            noise=noise)
            with sim.installed():
                try:
                    F.fit(obj, d)
                except ValueError as e:
                    # documented refusals of user splits
                    if F.s.get("user_splits") and ("split" in str(e)):
                        return None
                    if two and "max_n_bins" in str(e):
                        return None
                    ctx.check(False, "fit-fails", "fit raised %r (solver "
                              "%s)" % (e, mode))
                except Exception as e:
                    ctx.check(False, "fit-fails", "fit raised %r (solver "
                              "%s)" % (e, mode))
            return sim

        sim = fit(o, mode, op["noise"])
        if sim is None:
            ctx.event("refused", op["v"])
            ctx.probe("refused")
            o = F.new()
            continue
        judge(ctx, F, o, d, sim, mode, mip, two)
        if not sim.calls:
            continue
        if o.status in ("UNKNOWN", "FEASIBLE"):
            hit = ctx.nontrivial = True
        elif hit and mode == "full" and not op["noise"]:
            # what an earlier deadline left behind must not matter
            q = F.new()
            if fit(q, "full", 0) is not None:
                k = first_diff(F.observe(q, d), F.observe(o, d), False)
                ctx.check(k is None, "not-recovered", lambda: (
                    "after a cut short fit, a complete fit answers %r unlike "
                    "a fresh object: %s / %s" % (
                        k, str(F.observe(o, d)[k])[:200],
                        str(F.observe(q, d)[k])[:200])))
                ctx.probe("recovered")


def judge(ctx, F, o, d, sim, mode, mip, two):
    kw = F.s["kw"]
    st = o.status
    nb = len(o.splits[0]) if two else len(o.splits) + (
        0 if isinstance(o.splits, list) or
        getattr(o, "dtype", "") == "categorical" else 1)
    ctx.event("fit", mode, st, nb, digest(str(o.splits)))
    ctx.probe(st.lower())
    ctx.state((F.name, mode, st, nb))
    for c in sim.calls:
        if "time_limit" in kw:
            ctx.probe("limit-set")
            want = kw["time_limit"] * (1000 if c["solver"] == "mip" else 1)
            ctx.check(c["limit"] == want, "limit", lambda: (
                "the solver was given a limit of %r, asked for %r" % (
                    c["limit"], want)))
    (Two if two else One)(ctx, F, o, d)       # partition and table
    if not sim.calls:
        return
    last = sim.calls[-1]["status"]
    found = last in (0, 1, "OPTIMAL", "FEASIBLE")
    if st in ("OPTIMAL", "FEASIBLE"):
        ctx.check(found, "status-wrong", "status %s, solver said %s" % (
            st, last))
        ctx.check((st == "OPTIMAL") == (last in (0, "OPTIMAL")),
                  "status-wrong", "status %s, solver said %s" % (st, last))
        if two:
            why = broken2(F, o, d)
        else:
            why = broken(F, o, d)
            if why and kw.get("cat_cutoff") and len(o.splits) > 1:
                why = broken(F, o, d, True)
                ctx.probe("others")
        ctx.check(why is None, "not-admissible", lambda: (
            "status %s (solver %s): %s" % (st, mode, why)))
    else:
        ctx.probe("single-bin")
        extra = 1 if kw.get("cat_cutoff") else 0
        ctx.check(nb <= 1 + extra, "not-single", lambda: (
            "status %s with %d bins" % (st, nb)))
