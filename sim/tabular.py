"""Multi-column data sets with a target, and processes fitted on them."""

import numpy as np
import pandas as pd

from .core import nprng
from .gen import CATS, binary, numeric, risk


def column(rng, n, c):
    k = c["kind"]
    if k == "num":
        x = numeric(rng, n, c["dist"])
        score = risk(x, c["shape"])
        if c.get("codes"):
            x[rng.random(n) < c["codes"]] = rng.choice([-999.0, -998.0])
        if c.get("missing"):
            x[rng.random(n) < c["missing"]] = np.nan
        return x, score
    if k == "int":
        x = rng.integers(0, c.get("hi", 12), n)
        return x, risk(x.astype(float), c["shape"])
    levels = {"cat": CATS[:c["k"]],
              "catnum": [str(i) for i in range(1, c["k"])] + ["X"],
              "catfloat": ["%d.0" % i for i in range(1, c["k"])] + ["n/k"],
              }[k]
    p = rng.dirichlet(np.full(c["k"], 1.5))
    if k != "cat":
        p[-1] = min(p[-1], 0.06)
        p /= p.sum()
    idx = rng.choice(c["k"], n, p=p)
    rate = rng.permutation(np.linspace(-1.5, 1.5, c["k"]))
    x = np.array(levels, dtype=object)[idx]
    score = rate[idx]
    if c.get("missing"):
        x[rng.random(n) < c["missing"]] = None
    return x, score


def dataset(spec):
    """-> (DataFrame of the variables, y)"""
    rng = nprng("tab", spec["seed"])
    n = spec["n"]
    cols = {}
    tot = np.zeros(n)
    for name, c in spec["cols"].items():
        x, s = column(rng, n, c)
        cols[name] = x
        tot += s
    tot /= max(1, np.sqrt(len(cols)))
    t = spec["target"]
    if t == "binary":
        y = binary(rng, tot)
        if y.min() == y.max():
            y[0] = 1 - y[0]
    elif t == "continuous":
        y = np.round(10 * tot + rng.normal(0, 3, n), 3) + 0.25
    else:
        y = np.digitize(tot + rng.normal(0, .7, n), [-.7, .7])
        y[:3] = [0, 1, 2]
    df = pd.DataFrame(cols)
    for name, c in spec["cols"].items():
        if c["kind"].startswith("cat"):
            df[name] = df[name].astype(object)
    return df, y


def gen_dataset(r, target=None, n=None, nv=None, cats=True, codes=False):
    t = target or r.choice(["binary", "binary", "continuous", "multiclass"])
    spec = {"seed": r.randrange(1 << 40), "target": t,
            "n": n or r.randint(40, 400), "cols": {}}
    for i in range(nv or r.randint(2, 5)):
        k = r.choice(["num", "num", "num", "int", "cat", "catnum",
                      "catfloat"])
        if k.startswith("cat") and (t == "multiclass" or not cats):
            k = "num"
        c = {"kind": k}
        if k in ("num", "int"):
            c["dist"] = r.choice(["uniform", "normal", "ints", "exp",
                                  "halves"])
            c["shape"] = r.choice(["up", "down", "peak", "valley", "flat"])
            if k == "num":
                c["missing"] = r.choice([0, 0, 0.1, 0.3])
                if codes:
                    c["codes"] = r.choice([0, 0.1])
        else:
            c["k"] = r.randint(3, 7)
            c["missing"] = r.choice([0, 0, 0.15])
        spec["cols"]["x%d" % i] = c
    return spec


def gen_process(r, spec, n_jobs=False):
    """JSON configuration of a BinningProcess for that data."""
    t = spec["target"]
    names = list(spec["cols"])
    cfg = {"max_n_prebins": r.choice([5, 8, 12, 20]),
           "max_n_bins": r.choice([None, None, 4]),
           "min_bin_size": r.choice([None, None, 0.08]),
           "max_pvalue": r.choice([None, None, 0.3]),
           "split_digits": r.choice([None, None, 2]),
           "fit": {}, "transform": {}, "criteria": None, "fixed": None,
           "codes": r.random() < 0.4, "cats": []}
    for n in names:
        if spec["cols"][n]["kind"] == "int" and t != "multiclass" \
                and r.random() < .25:
            cfg["cats"].append(n)
        if r.random() < 0.35:
            p = r.choice([{"max_n_bins": 3}, {"monotonic_trend": None},
                          {"max_n_prebins": 6}, {"monotonic_trend":
                                                 "auto_asc_desc"},
                          {"prebinning_method": "quantile"},
                          {"prebinning_method": "uniform"}])
            if t == "multiclass":
                p = r.choice([{"max_n_bins": 3}, {"max_n_prebins": 6},
                              {"prebinning_method": "quantile"}])
            elif t == "binary" and r.random() < .25:
                p = {"class_weight": "balanced"}
            cfg["fit"][n] = p
        if r.random() < 0.35:
            if t == "binary":
                cfg["transform"][n] = r.choice([
                    {"metric": "event_rate"}, {"metric": "indices"},
                    {"metric_missing": "empirical"},
                    {"metric_missing": 2.5}, {"metric_special": -1.5}])
            else:
                cfg["transform"][n] = r.choice([
                    {"metric": "indices"}, {"metric_missing": 2.5},
                    {"metric_special": -1.5},
                    {"metric_missing": "empirical"}])
    cfg["more"] = {}
    for k, p, vals in (("max_bin_size", .2, [.5, .7]),
                       ("min_n_bins", .1, [2]),
                       ("min_prebin_size", .2, [.02, .1]),
                       ("max_pvalue_policy", .3, ["all"])):
        if r.random() < p:
            cfg["more"][k] = r.choice(vals)
    if r.random() < .4:
        m = {"binary": ["iv", "js", "gini"], "continuous": ["woe"],
             "multiclass": ["js"]}[t]
        m = r.choice(m)
        cfg["criteria"] = r.choice([
            {m: {"min": 0.01}}, {m: {"strategy": "highest", "top": 2}},
            {m: {"strategy": "highest", "top": 0.5}},
            {"quality_score": {"min": 0.001}}])
        if r.random() < .4:
            cfg["fixed"] = [r.choice(names)]
    return cfg


CODES = [-999.0, -998.0]


def codes_of(cfg):
    c = cfg["codes"]
    return list(c) if isinstance(c, list) else list(CODES) if c else None


def make_process(names, cfg, **over):
    import copy
    from optbinning import BinningProcess
    kw = dict(max_n_prebins=cfg["max_n_prebins"],
              max_n_bins=cfg["max_n_bins"], min_bin_size=cfg["min_bin_size"],
              max_pvalue=cfg["max_pvalue"], split_digits=cfg["split_digits"],
              selection_criteria=copy.deepcopy(cfg["criteria"]),
              fixed_variables=list(cfg["fixed"]) if cfg["fixed"] else None,
              categorical_variables=list(cfg["cats"]) or None,
              special_codes=codes_of(cfg),
              binning_fit_params=copy.deepcopy(cfg["fit"]) or None,
              binning_transform_params=copy.deepcopy(cfg["transform"])
              or None, **cfg.get("more", {}))
    kw.update(over)
    return BinningProcess(list(names), **kw)


def observe(bp, X=None, metrics=(None,), **tk):
    """Everything a user reads from a fitted process."""
    out = {"summary": bp.summary(),
           "support": list(map(bool, bp.get_support()))}
    for n in bp.variable_names:
        o = bp.get_binned_variable(n)
        out["table:" + n] = o.binning_table.build()
        out["splits:" + n] = [list(s) if isinstance(s, np.ndarray) else s
                              for s in o.splits]
        out["status:" + n] = o.status
    if X is not None and any(out["support"]):
        for m in metrics:
            try:
                out["transform:%s" % m] = bp.transform(X, metric=m, **tk)
            except ValueError as e:
                out["transform:%s" % m] = str(e)
    return out


def differ(a, b, exact=True):
    """First key in which two observations differ, or None."""
    from .core import close, same
    eq = same if exact else close
    if list(a) != list(b):
        return "keys"
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, (str, type(None))) or isinstance(y, (str,
                                                             type(None))):
            if x != y:
                return k
        elif k.startswith("splits"):
            if repr_splits(x) != repr_splits(y):
                return k
        elif not eq(x, y):
            return k
    return None


def repr_splits(s):
    return [[str(a) for a in v] if isinstance(v, (list, np.ndarray)) else
            float(v) if isinstance(v, (int, float, np.number)) else str(v)
            for v in s]


def fit_alone(df, y, name, target, cfg, sample_weight=None):
    """The binning of one variable fitted by itself with the process's
    options."""
    import copy
    import optbinning as ob
    x = df[name]
    cat = x.dtype == object or name in cfg["cats"]
    kw = dict(max_n_prebins=cfg["max_n_prebins"],
              max_n_bins=cfg["max_n_bins"], min_bin_size=cfg["min_bin_size"],
              max_pvalue=cfg["max_pvalue"], split_digits=cfg["split_digits"],
              special_codes=list(CODES) if cfg["codes"] else None,
              **cfg.get("more", {}))
    if target != "multiclass":
        kw["dtype"] = "categorical" if cat else "numerical"
    kw.update(copy.deepcopy(cfg["fit"].get(name) or {}))
    C = {"binary": ob.OptimalBinning,
         "continuous": ob.ContinuousOptimalBinning,
         "multiclass": ob.MulticlassOptimalBinning}[target]
    a = (np.array(sample_weight),) if sample_weight is not None else ()
    return C(name=name, **kw).fit(x.copy(), np.array(y), *a)
