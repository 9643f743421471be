"""One interface over every estimator of the package.

A spec is plain JSON; ``Fam(spec)`` makes unfitted objects, data sets
(variants of the same shape) and the list of reads a user does on the fitted
object, each returning plain comparable values.
"""

import contextlib
import copy
import io

import numpy as np
import pandas as pd

from .solver import pin_osqp  # noqa: F401
from .core import close, nprng, pyrng, same
from .gen import CATS, binary, numeric, poison, risk
from .tabular import (CODES, dataset, gen_dataset, gen_process, make_process,
                      repr_splits)

NAMES = ["bin_num", "bin_num", "bin_cat", "cont_num", "cont_cat", "multi",
         "bin2d", "cont2d", "pw_bin", "pw_cont", "sb", "process",
         "scorecard", "monitor", "cf", "sketch", "psketch"]
KINDS = ["uniform", "normal", "ints", "fewints", "halves", "exp", "spike"]
SHAPES = ["up", "down", "peak", "valley", "wave", "flat"]


def _common(r, kw, target):
    """Options shared by the one-dimensional binnings."""
    kw["max_n_prebins"] = r.choice([5, 8, 12, 20])
    kw["prebinning_method"] = r.choice(
        ["cart", "cart", "quantile", "uniform"] +
        (["mdlp"] if target == "binary" else []))
    if r.random() < .25:
        kw["min_prebin_size"] = r.choice([0.02, 0.1])
    if r.random() < .2:
        kw["min_n_bins"] = 2
    if r.random() < .3:
        kw["max_n_bins"] = r.choice([2, 3, 4])
    if r.random() < .25:
        kw["min_bin_size"] = r.choice([0.05, 0.12])
    if r.random() < .15:
        kw["max_bin_size"] = r.choice([0.5, 0.7])
    if r.random() < .25:
        kw["max_pvalue"] = r.choice([0.05, 0.3])
        kw["max_pvalue_policy"] = r.choice(["all", "consecutive"])
    if r.random() < .25:
        kw["split_digits"] = r.choice([0, 1, 2])


def gen_fam(r, name=None, small=False):
    name = name or r.choice(NAMES)
    s = {"fam": name, "seed": r.randrange(1 << 40),
         "n": r.randint(30, 120) if small else r.randint(40, 300),
         "kind": r.choice(KINDS), "shape": r.choice(SHAPES),
         "missing": r.choice([0, 0, .1, .25]),
         "special": r.choice([0, 0, .1]),
         "codes": r.choice([None, "list", "array", "dict"]), "kw": {}}
    kw = s["kw"]
    if name in ("bin_num", "cont_num", "multi"):
        t = {"bin_num": "binary", "cont_num": "continuous",
             "multi": "multi"}[name]
        _common(r, kw, t)
        if name == "bin_num":
            kw["solver"] = r.choice(["cp", "cp", "mip"])
            kw["divergence"] = r.choice(["iv", "iv", "js", "hellinger",
                                         "triangular"])
            if r.random() < .25:
                kw["gamma"] = r.choice([0.1, 0.5])
            if r.random() < .2:
                kw["min_event_rate_diff"] = 0.02
            if r.random() < .15:
                kw["class_weight"] = r.choice(["balanced", {"0": 1, "1": 3}])
            if r.random() < .15:
                kw["min_bin_n_event"] = 2
            s["weights"] = r.random() < .2
        if name == "cont_num" and r.random() < .2:
            kw["min_mean_diff"] = 0.3
        if name != "multi":
            kw["monotonic_trend"] = r.choice(
                ["auto", "auto", None, "auto_heuristic", "auto_asc_desc",
                 "ascending", "descending", "peak", "valley", "concave",
                 "convex", "peak_heuristic", "valley_heuristic"])
            if r.random() < .2:
                kw["outlier_detector"] = r.choice(["range", "zscore"])
        else:
            kw["solver"] = r.choice(["cp", "cp", "mip"])
            if r.random() < .4:
                kw["monotonic_trend"] = r.choice(
                    ["auto", None, ["ascending", "auto", "auto"],
                     ["auto", "peak_heuristic", None]])
        if r.random() < .25:
            s["user_splits"] = r.choice(["plain", "plain", "fixed", "fixed",
                                         "empty", "outside"])
            kw.pop("max_n_bins", None)
            if name == "multi":
                kw.pop("split_digits", None)
                if s["user_splits"] == "empty":    # refused
                    s["user_splits"] = "outside"
    elif name in ("bin_cat", "cont_cat"):
        _common(r, kw, "x")
        kw.pop("split_digits")  if "split_digits" in kw else None
        kw["prebinning_method"] = r.choice(["cart", "quantile"])
        kw["dtype"] = "categorical"
        s["k"] = r.randint(3, 9)
        if r.random() < .4:
            kw["cat_cutoff"] = r.choice([0.05, 0.15])
        if r.random() < .3:
            kw["cat_unknown"] = r.choice([0, 0.5, 2])
        s["catkind"] = r.choice(["str", "str", "int"])
        kw["monotonic_trend"] = r.choice(["auto", None, "ascending",
                                          "descending"])
        if r.random() < .2:
            s["user_splits"] = r.choice(["plain", "fixed"])
    elif name in ("bin2d", "cont2d"):
        kw["strategy"] = r.choice(["grid", "cart"])
        kw["solver"] = "cp"
        kw["max_n_prebins_x"] = r.choice([3, 4])
        kw["max_n_prebins_y"] = r.choice([3, 4])
        if r.random() < .3:
            kw["monotonic_trend_x"] = r.choice(["ascending", "descending"])
        if r.random() < .3:
            kw["monotonic_trend_y"] = r.choice(["ascending", "descending"])
        if r.random() < .3:
            kw["max_n_bins"] = 4
        if r.random() < .3:
            kw["prebinning_method"] = r.choice(["quantile", "uniform"])
        if r.random() < .2:
            kw["gamma"] = 0.1
        s["n"] = max(s["n"], 90)
        s["caty"] = r.random() < .2
        s["codes"] = r.choice([None, "list"])
        s["missing"] = r.choice([0, 0.1])
        s["tied"] = r.random() < .15
        s["pure"] = r.random() < .15
        if s["pure"] and name == "bin2d":
            s.update(missing=0, codes=None, caty=False)
    elif name in ("pw_bin", "pw_cont"):
        kw["max_n_prebins"] = r.choice([4, 8])
        kw["objective"] = r.choice(["l2", "l2", "l1"])
        kw["degree"] = r.choice([1, 1, 2])
        kw["continuous"] = r.choice([True, True, False])
        if kw["degree"] == 0:
            kw["continuous"] = False
        kw["monotonic_trend"] = r.choice(["auto", None, "ascending"])
        if kw["degree"] == 2 and kw["monotonic_trend"] == "auto":
            kw["monotonic_trend"] = None
        if r.random() < .3:
            kw["max_n_bins"] = 3
        if name == "pw_bin" and r.random() < .4:
            s["est"] = r.choice(["lr", "tree"])
        s["n"] = max(s["n"], 80)
    elif name == "sb":
        _common(r, kw, "x")
        kw["prebinning_method"] = r.choice(["cart", "quantile", "uniform"])
        kw["monotonic_trend"] = r.choice([None, "ascending", "descending",
                                          "peak", "valley"])
        if s["codes"] == "dict":                   # refused
            s["codes"] = "list"
        s["k"] = r.randint(2, 3)
        s["w"] = r.random() < .4
        if r.random() < .25:
            s["user_splits"] = r.choice(["plain", "fixed"])
    elif name in ("process", "scorecard", "monitor", "cf"):
        t = None
        if name in ("scorecard", "monitor"):
            t = r.choice(["binary", "binary", "continuous"])
        if name == "cf":
            t = r.choice(["binary", "binary", "continuous"])
        s["data"] = gen_dataset(r, target=t, codes=True, n=s["n"],
                                nv=r.randint(2, 3) if name != "process"
                                else None)
        if name in ("scorecard", "monitor", "cf"):
            s["n"] = s["data"]["n"] = max(60, s["n"])
        s["cfg"] = gen_process(r, s["data"])
        if name != "process":
            s["cfg"]["criteria"] = None
            for tk in s["cfg"]["transform"].values():
                if tk.get("metric") in ("bins", "indices", "event_rate"):
                    tk.pop("metric")
            kw.update(rounding=r.random() < .3,
                      intercept_based=r.random() < .3,
                      reverse_scorecard=r.random() < .3)
            sm = r.choice([None, "min_max"] + (["pdo_odds"]
                                               if t == "binary" else []))
            kw["scaling_method"] = sm
            if sm == "min_max":
                kw["scaling_method_params"] = {"min": 300, "max": 850}
            elif sm:
                kw["scaling_method_params"] = {"pdo": 20, "odds": 50,
                                               "scorecard_points": 600}
            if sm is None:
                kw["rounding"] = False
            s["mm"] = r.choice([0, 0, "empirical", 0.5])
            s["ms"] = r.choice([0, 0, "empirical", -0.5])
        if name == "monitor":
            s["mkw"] = {"psi_method": r.choice(["cart", "quantile",
                                                "uniform"]),
                        "psi_n_bins": r.choice([4, 8, 20]),
                        "psi_min_bin_size": r.choice([0.05, 0.1])}
        if name == "cf":
            for c in s["data"]["cols"].values():
                c["missing"] = 0
                c["codes"] = 0
            s["cf"] = {"method": r.choice(["weighted", "hierarchical"]),
                       "n_cf": r.choice([1, 1, 2]),
                       "row": r.randrange(1000),
                       "max_changes": r.choice([None, None, 1, 2])}
            s["ckw"] = {"special_missing": r.random() < .3}
    elif name in ("sketch", "psketch"):
        s["cat"] = r.random() < .3
        s["parts"] = r.randint(1, 3)
        s["n"] = max(60, s["n"])
        kw["max_n_prebins"] = r.choice([6, 10, 20])
        kw["max_n_bins"] = r.choice([None, 4])
        kw["monotonic_trend"] = r.choice(["auto", None])
        if name == "psketch":
            s["data"] = gen_dataset(r, target="binary", codes=False, n=s["n"])
            for c in s["data"]["cols"].values():
                if c["kind"] == "cat":
                    c["missing"] = 0
    return s


def _codes(s):
    k = s.get("codes")
    if not k:
        return None
    if s.get("catkind") is not None:
        c = ["SPEC"] if s["catkind"] == "str" else [-9]
        return {"sp": c[0]} if k == "dict" else (
            np.array(c, dtype=object) if k == "array" else c)
    if k == "list":
        return list(CODES)
    if k == "array":
        return np.array(CODES)
    return {"grp": list(CODES)} if s["seed"] % 2 else {"a": CODES[0],
                                                       "b": CODES[1]}


class Fam:
    def __init__(self, spec):
        self.s = spec
        self.name = spec["fam"]

    # ------------------------------------------------------------------ data
    def data(self, v=0):
        """-> dict of fit arguments (arrays are fresh objects)."""
        s, name = self.s, self.name
        rng = nprng("fam", s["seed"], v)
        if v:
            # other data sets also differ in what is missing or special
            r = pyrng("famv", s["seed"], v)
        if v and not s.get("pure"):
            s = dict(s, missing=r.choice([0, s["missing"], .15]),
                     special=r.choice([0, s["special"], .1]))
        n = s["n"] if v == 0 else max(30, int(s["n"] * (0.7 + 0.2 * v)))
        if name in ("bin_num", "cont_num", "multi", "pw_bin", "pw_cont"):
            x = numeric(rng, n, s["kind"])
            sc = risk(x, s["shape"])
            y = self._y(rng, sc, n)
            special = s["special"] if _codes(s) is not None or \
                s["fam"] == "cont_num" else 0
            x = poison(rng, x, s["missing"], special, CODES)
            d = {"x": x, "y": y}
            if s.get("weights"):
                d["sample_weight"] = rng.integers(1, 4, n).astype(float)
            return d
        if name in ("bin_cat", "cont_cat"):
            k = s["k"]
            lv = np.array(CATS[:k] if s["catkind"] == "str"
                          else list(range(k)), dtype=object)
            p = nprng("famp", s["seed"]).dirichlet(np.full(k, 1.2))
            idx = rng.choice(k, n, p=p)
            rate = nprng("famr", s["seed"]).permutation(
                np.linspace(-1.5, 1.5, k))
            y = self._y(rng, rate[idx], n)
            x = lv[idx].astype(object)
            if _codes(s) is not None and s["special"]:
                x[rng.random(n) < s["special"]] = \
                    "SPEC" if s["catkind"] == "str" else -9
            if s["missing"]:
                x[rng.random(n) < s["missing"]] = None
            return {"x": x, "y": y}
        if name in ("bin2d", "cont2d"):
            x = numeric(rng, n, s["kind"])
            y = numeric(rng, n, "normal")
            z = self._y(rng, risk(x, s["shape"]) + risk(y, "up") / 2, n)
            if s["caty"]:
                lv = np.array(CATS[:4], dtype=object)
                i = rng.integers(0, 4, n)
                z = self._y(rng, risk(x, s["shape"]) + i / 2.0 - 1, n)
                y = lv[i].astype(object)
            elif s["tied"]:
                y = x.copy()        # no axis tells more than the other
            if s["pure"] and name == "bin2d":
                z = (x > np.median(x)).astype(int)
            x = poison(rng, x, s["missing"],
                       .06 if s["codes"] else 0, CODES)
            if not s["caty"]:
                y = poison(rng, y, s["missing"] / 2)
            return {"x": x, "y": y, "z": z}
        if name == "sb":
            X, Y = [], []
            for i in range(s["k"]):
                m = n - 5 * i
                x = numeric(rng, m, s["kind"])
                Y.append(self._y(rng, risk(x, s["shape"]) + 0.2 * i, m))
                X.append(poison(rng, x, s["missing"],
                                s["special"] if _codes(s) is not None
                                else 0, CODES))
            d = {"X": X, "Y": Y}
            if s["w"]:
                d["weights"] = [0.5 + i for i in range(s["k"])]
            return d
        if name in ("process", "scorecard", "monitor", "cf", "psketch"):
            spec = dict(s["data"], n=n, seed=s["data"]["seed"] + 7919 * v)
            if v:
                spec["cols"] = {
                    k: dict(c, missing=r.choice([0, c["missing"], .15]))
                    if "missing" in c else c for k, c in spec["cols"].items()}
            df, y = dataset(spec)
            d = {"X": df, "y": y}
            if name == "monitor":
                e, ye = dataset(dict(spec, seed=spec["seed"] + 101))
                d = {"X_actual": df, "y_actual": y, "X_expected": e,
                     "y_expected": ye}
            return d
        if name == "sketch":
            if s["cat"]:
                d = Fam(dict(s, fam="bin_cat", k=5, catkind="str",
                             codes=None)).data(v)
            else:
                d = Fam(dict(s, fam="bin_num", codes=None)).data(v)
            return d
        raise ValueError(name)

    def _y(self, rng, sc, n):
        f = self.name
        if f in ("cont_num", "cont_cat", "cont2d", "pw_cont"):
            return np.round(4 * sc + rng.normal(0, 2, n), 3) + .125
        if f == "multi":
            y = np.digitize(sc + rng.normal(0, .9, n), [-.6, .6])
            y[:6] = [0, 1, 2, 0, 1, 2]
            return y
        y = binary(rng, sc)
        y[:4] = [0, 1, 0, 1]
        return y

    # --------------------------------------------------------------- objects
    def new(self):
        import optbinning as ob
        from optbinning.binning.uncertainty import SBOptimalBinning
        from optbinning.binning.multidimensional import (
            OptimalBinning2D, ContinuousOptimalBinning2D)
        s, name = self.s, self.name
        kw = copy.deepcopy(s["kw"])
        if "class_weight" in kw and isinstance(kw["class_weight"], dict):
            kw["class_weight"] = {int(k): v for k, v in
                                  kw["class_weight"].items()}
        if s.get("user_splits"):
            us, fixed = self._user_splits()
            kw["user_splits"] = us
            if s["user_splits"] == "fixed":
                kw["user_splits_fixed"] = fixed
        one = {"bin_num": ob.OptimalBinning, "bin_cat": ob.OptimalBinning,
               "cont_num": ob.ContinuousOptimalBinning,
               "cont_cat": ob.ContinuousOptimalBinning,
               "multi": ob.MulticlassOptimalBinning,
               "pw_bin": ob.OptimalPWBinning,
               "pw_cont": ob.ContinuousOptimalPWBinning,
               "sb": SBOptimalBinning}
        if name in one:
            if _codes(s) is not None:
                kw["special_codes"] = _codes(s)
            if s.get("est") == "lr":
                from sklearn.linear_model import LogisticRegression
                kw["estimator"] = LogisticRegression(C=0.2)
            elif s.get("est") == "tree":
                from sklearn.tree import DecisionTreeClassifier
                kw["estimator"] = DecisionTreeClassifier(
                    max_depth=3, min_samples_leaf=8, random_state=3)
            return one[name](name="v", **kw)
        if name in ("bin2d", "cont2d"):
            if s["caty"]:
                kw["dtype_y"] = "categorical"
                kw.pop("monotonic_trend_y", None)
                kw["prebinning_method"] = "cart"
            if s["codes"]:
                kw["special_codes_x"] = list(CODES)
            C = OptimalBinning2D if name == "bin2d" else \
                ContinuousOptimalBinning2D
            return C(name_x="vx", name_y="vy", **kw)
        if name in ("process", "scorecard", "monitor", "cf"):
            bp = make_process(list(s["data"]["cols"]), s["cfg"])
            if name == "process":
                return bp
            sc = self._scorecard(bp, kw)
            if name == "scorecard":
                return sc
            if name == "monitor":
                from optbinning.scorecard import ScorecardMonitoring
                X, y = self.train()
                sc.fit(X, y, metric_special=s["ms"], metric_missing=s["mm"])
                return ScorecardMonitoring(scorecard=sc, **s["mkw"])
            from optbinning.scorecard import Counterfactual
            X, y = self.train()
            sc.fit(X, y, metric_special=s["ms"], metric_missing=s["mm"])
            return Counterfactual(scorecard=sc, **s["ckw"])
        if name == "sketch":
            return ob.OptimalBinningSketch(
                name="v", dtype="categorical" if s["cat"] else "numerical",
                eps=1e-4, **kw)
        if name == "psketch":
            cats = [c for c, k in s["data"]["cols"].items()
                    if k["kind"].startswith("cat")]
            kw.pop("monotonic_trend")
            return ob.BinningProcessSketch(
                list(s["data"]["cols"]), categorical_variables=cats or None,
                **kw)
        raise ValueError(name)

    def train(self):
        """The data of the scorecard behind a monitor or counterfactual."""
        d = self.s["data"]
        return dataset(dict(d, seed=d["seed"] + 55))

    def _scorecard(self, bp, kw):
        from optbinning import Scorecard
        from sklearn.linear_model import LinearRegression, LogisticRegression
        est = LogisticRegression() if self.s["data"]["target"] == "binary" \
            else LinearRegression()
        return Scorecard(binning_process=bp, estimator=est,
                         **copy.deepcopy(kw))

    def _user_splits(self):
        s = self.s
        if "k" in s and s["fam"] != "sb":
            lv = CATS[:s["k"]] if s["catkind"] == "str" else \
                list(range(s["k"]))
            cut = max(1, len(lv) // 2)
            arr = np.empty(3 if len(lv) > 2 else 2, dtype=object)
            parts = [lv[:cut], lv[cut:cut + 1], lv[cut + 1:]]
            parts = [p for p in parts if len(p)]
            arr = np.empty(len(parts), dtype=object)
            for i, p in enumerate(parts):
                arr[i] = np.array(p, dtype=object)
            return arr, [True] + [False] * (len(parts) - 1)
        x = self.data(0)
        x = np.asarray(x["X"][0] if s["fam"] == "sb" else x["x"],
                       dtype=float)
        x = x[~np.isnan(x) & (x > -900)]
        q = np.unique(np.round(np.quantile(x, [.2, .4, .6, .8]), 2))
        q = q[(q > x.min()) & (q <= x.max())]
        if s["user_splits"] == "empty":
            return q[:0], []
        if s["user_splits"] == "outside":
            return x.max() + np.array([1., 2.]), []
        return q, [i == 1 for i in range(len(q))]

    def fit(self, o, d):
        name = self.name
        s = self.s
        if name in ("scorecard",):
            return o.fit(d["X"], d["y"], metric_special=s["ms"],
                         metric_missing=s["mm"])
        if name == "cf":
            o.fit(d["X"])
            q, kw = self.cf_args(d)
            return o.generate(q, **kw)
        if name == "sketch":
            for i, (a, b) in enumerate(self._cuts(len(d["x"]))):
                o.add(d["x"][a:b], d["y"][a:b])
            return o.solve()
        if name == "psketch":
            for a, b in self._cuts(len(d["y"])):
                o.add(d["X"].iloc[a:b], d["y"][a:b])
            return o.solve()
        return o.fit(**d)

    def _cuts(self, n):
        k = self.s["parts"]
        e = [n * i // k for i in range(k + 1)]
        return list(zip(e, e[1:]))

    def cf_args(self, d):
        c = self.s["cf"]
        X = d["X"]
        q = X.iloc[[c["row"] % len(X)]]
        kw = {"n_cf": c["n_cf"], "method": c["method"],
              "max_changes": c["max_changes"]}
        if self.s["data"]["target"] == "binary":
            kw.update(y=1 if c["row"] % 2 else 0, outcome_type="binary")
        else:
            kw.update(y=float(np.mean(d["y"]) + c["row"] % 5 - 2),
                      outcome_type="continuous",
                      soft_constraints={"diff_outcome": 1.0})
        return q, kw

    # ----------------------------------------------------------------- reads
    def xnew(self, d, v=0):
        """Scoring input: training values, plus values outside the range and
        unknown categories."""
        name = self.name
        if name in ("bin_num", "cont_num", "multi", "pw_bin", "pw_cont") or \
                (name == "sketch" and not self.s["cat"]):
            x = np.array(d["x"], dtype=float)
            return np.concatenate([x[:25], [np.nan, 1e6, -1e5], CODES
                                   if _codes(self.s) is not None else []])
        if name in ("bin_cat", "cont_cat", "sketch"):
            extra = ["ZZ", None] if self.s.get("catkind") != "int" else \
                [77, None]
            return np.concatenate([d["x"][:25], np.array(extra,
                                                         dtype=object)])
        if name == "sb":
            return np.concatenate([d["X"][0][:25], [np.nan, 1e6, -1e5]])
        if name in ("bin2d", "cont2d"):
            return d["x"][:30], d["y"][:30]
        if name == "monitor":
            return d["X_actual"].iloc[:20]
        return d["X"].iloc[:30]

    def metrics(self):
        n = self.name
        if n in ("bin_num", "bin_cat", "sketch", "sb"):
            return ["woe", "event_rate", "indices", "bins"]
        if n in ("cont_num", "cont_cat"):
            return ["mean", "indices", "bins"]
        if n == "multi":
            return ["mean_woe", "weighted_mean_woe", "indices", "bins"]
        if n == "bin2d":
            return ["woe", "event_rate", "indices", "bins"]
        if n == "cont2d":
            return ["mean", "indices", "bins"]
        if n == "pw_bin":
            return ["woe", "event_rate"]
        return [None]

    def reads(self, d):
        """-> [(label, fn(obj))]; values are comparable with ``veq``."""
        n, s = self.name, self.s
        X = self.xnew(d)
        out = []
        miss = [(0, 0), ("empirical", "empirical"), (1.5, -2)]

        def tr(m, a, b):
            def f(o):
                kw = {"metric_missing": a, "metric_special": b}
                if m is not None:
                    kw["metric"] = m
                if n in ("bin2d", "cont2d"):
                    return o.transform(X[0], X[1], **kw)
                if n == "pw_cont":
                    return o.transform(X, **kw)
                return o.transform(X, **kw)
            return f

        if n not in ("scorecard", "monitor", "cf"):
            for m in self.metrics():
                for a, b in miss:
                    if m in ("bins", "indices") and a != 0:
                        continue
                    out.append(("transform:%s:%s" % (m, a), tr(m, a, b)))
        if n in ("bin_num", "bin_cat", "cont_num", "cont_cat", "multi",
                 "bin2d", "cont2d", "sketch", "sb", "pw_bin", "pw_cont"):
            out.append(("status", lambda o: o.status))
            out.append(("table", lambda o: o.binning_table.build()))
            out.append(("splits", lambda o: splits_of(o)))
            if n not in ("sb",):
                out.append(("analysis", lambda o: analysis(o)))
            if n not in ("bin2d", "cont2d", "pw_bin", "pw_cont"):
                out.append(("table2", lambda o: o.binning_table.build(
                    show_digits=4, add_totals=False)))
        if n == "sb":
            for i in range(s["k"]):
                out.append(("table_scenario%d" % i, lambda o, i=i:
                            o.binning_table_scenario(i).build()))
        if n in ("process", "psketch"):
            out.append(("summary", lambda o: o.summary()))
            out.append(("support", lambda o: o.get_support()))
            out.append(("names", lambda o: o.get_support(names=True)))
            for v in list(s["data"]["cols"]):
                out.append(("table:" + v, lambda o, v=v: o.get_binned_variable(
                    v).binning_table.build()))
                out.append(("splits:" + v, lambda o, v=v: splits_of(
                    o.get_binned_variable(v))))
        if n == "scorecard":
            out += [("score", lambda o: o.score(X)),
                    ("predict", lambda o: o.predict(X)),
                    ("table", lambda o: o.table()),
                    ("detailed", lambda o: o.table(style="detailed")),
                    ("intercept", lambda o: (o.score(X.iloc[:1]),
                                             o.intercept_)[1])]
            if s["data"]["target"] == "binary":
                out += [("proba", lambda o: o.predict_proba(X)),
                        ("decision", lambda o: o.decision_function(X))]
        if n == "monitor":
            out += [("psi_table", lambda o: o.psi_table()),
                    ("psi_var", lambda o: o.psi_variable_table()),
                    ("psi_det", lambda o: o.psi_variable_table(
                        style="detailed")),
                    ("tests", lambda o: o.tests_table()),
                    ("splits", lambda o: o.psi_splits),
                    ("report", lambda o: printed(
                        o.system_stability_report))]
        if n == "cf":
            out += [("display", lambda o: o.display()),
                    ("changes", lambda o: o.display(show_only_changes=True,
                                                    show_outcome=True)),
                    ("status", lambda o: o.status)]
        if n != "cf":
            out.append(("information", lambda o: printed(
                lambda: o.information(print_level=2))))
        return out

    def observe(self, o, d, only=None):
        """Outcome of every read: value, or the error it raises."""
        res = {}
        for k, f in self.reads(d):
            if only is not None and k not in only:
                continue
            res[k] = outcome(f, o)
        return res


TIMING = ("Time", "time", "Solver statistics", "sec")


def printed(fn):
    """Printed report without its timing lines (output is process-global, so
    concurrent checks only use that it does not raise)."""
    from .sched import current_task
    if current_task() is not None:
        fn()
        return None
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        fn()
    keep = []
    skip = False
    for ln in b.getvalue().splitlines():
        if "Timing" in ln:
            skip = True
        if "sec" in ln or "%)" in ln or skip:
            continue
        keep.append(ln.rstrip())
    return "\n".join(keep)


def analysis(o):
    t = o.binning_table
    t.build()
    txt = printed(lambda: t.analysis())
    out = {"printed": txt}
    for a in ("iv", "js", "gini", "hellinger", "triangular", "ks", "hhi",
              "hhi_norm", "cramer_v", "quality_score", "woe"):
        try:
            v = getattr(t, a)
        except AttributeError:
            continue
        if v is not None:
            out[a] = float(v)
    return out


def splits_of(o):
    s = o.splits
    if s is None:
        return "None"
    if isinstance(s, tuple):
        return [str([np.asarray(u).tolist() for u in a]) for a in s]
    return repr_splits(s)


def outcome(f, *a):
    from .core import INJECTED
    try:
        return ("ok", f(*a))
    except INJECTED:
        raise
    except Exception as e:
        return ("err", type(e).__name__, str(e)[:200])


REFUSED = ("Fixed user_splits", "Option monotonic trend",
           "Invalid value for cat_unknown", "special_codes must be",
           "Neither optimal or feasible", "INFEASIBLE problem",
           "ABNORMAL problem")


def refusal(kind, text):
    """Is that error an answer (options or data the code declines, a failure
    of the numerical engine), not an internal failure?"""
    return kind in ("LinAlgError", "SolverError") or text.startswith(REFUSED)


def veq(a, b, exact=True, rtol=1e-9):
    if isinstance(a, tuple) and isinstance(b, tuple):
        a, b = list(a), list(b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(veq(x, y, exact, rtol)
                                        for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(veq(a[k], b[k], exact, rtol)
                                          for k in a)
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return type(a) is type(b) and a == b
    return same(a, b) if exact else close(a, b, rtol, rtol)


def first_diff(a, b, exact=True, rtol=1e-9):
    if list(a) != list(b):
        return "keys"
    for k in a:
        if not veq(a[k], b[k], exact, rtol):
            return k
    return None
