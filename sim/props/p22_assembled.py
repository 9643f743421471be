"""P22: a process assembled and updated by hand answers from its current
variables.

A history of fits (from data, from separately fitted binnings, over changing
lists of variables), replacements of single variables - refused and
interrupted ones included -, reads in any order, saves and crashes with a
restore of the last save.  The oracle keeps its own copies of the binnings the
process should hold and recomputes every answer from them.
"""

import contextlib
import copy
import io
import os
import re
import warnings

import numpy as np
import pandas as pd

from .. import tabular
from ..core import INJECTED, close, digest, feq, pyrng
from ..faults import gen_strike, profile, struck
from ..refs import select

ID = "P22"
TITLE = "a process answers from its current variables"
LEVEL = "exploration"
N_QUICK = 600
RULE = ("one run = one data set and a history of fits from data or from "
        "separately fitted binnings over changing variable lists, "
        "replacements of variables (refused and interrupted ones included), "
        "reads, saves and crash-restores; after every step each answer "
        "equals the one recomputed from copies of the binnings the process "
        "should hold; non-trivial when a replacement was interrupted, "
        "refused or followed by a crash; distinct by hash of the event log")
REAL = ["optbinning.binning.binning_process", "all 1-D binning classes",
        "piecewise binnings", "pickle"]
STUB = ["user session (in-process)", "process crash (object dropped, last "
        "saved file reloaded)", "the failure (exception raised at an executed "
        "line)"]
PROBES = ["support-flip", "piecewise-in", "piecewise-out", "refused-unfitted",
          "refused-name", "refused-type", "refused-kind", "refused-keys",
          "struck-update", "struck-fit", "struck-read", "crash", "other-variables",
          "none-selected", "array-input", "disk"]


def generate(seed, tier="quick"):
    r = pyrng("p22", seed)
    spec = tabular.gen_dataset(r, n=r.randint(60, 260), nv=r.randint(2, 4),
                               codes=r.random() < .4)
    cfg = tabular.gen_process(r, spec)
    if cfg["criteria"] is None and r.random() < .6:
        m = {"binary": "iv", "continuous": "woe",
             "multiclass": "js"}[spec["target"]]
        cfg["criteria"] = r.choice([
            {m: {"strategy": "highest", "top": 1}},
            {m: {"strategy": "highest", "top": 2}},
            {m: {"strategy": "lowest", "top": 1}},
            {m: {"min": r.choice([.05, .2, 1.])}}])
    ops = [{"op": "fit", "how": r.choice(["data", "dict"]), "names": None,
            "seed": r.randrange(1 << 30), "bad": None, "strike": None}]
    for _ in range(r.randint(4, 10)):
        k = r.random()
        if k < .15:
            ops.append({"op": "fit", "how": r.choice(["data", "dict"]),
                        "names": r.choice([None, None, "subset", "shuffle"]),
                        "bad": r.choice([None] * 4 + ["keys", "unfitted",
                                                      "kind", "frame"]),
                        "strike": gen_strike(r) if r.random() < .25
                        else None, "seed": r.randrange(1 << 30)})
        elif k < .5:
            ops.append({"op": "update", "i": r.randrange(99),
                        "how": r.choice(["refit", "refit", "refit", "pw",
                                         "pw", "unfitted", "name", "type",
                                         "kind", "unknown"]),
                        "seed": r.randrange(1 << 30),
                        "strike": gen_strike(r) if r.random() < .25
                        else None})
        elif k < .88:
            ops.append({"op": "read", "what": r.choice(
                ["summary", "support", "indices", "names", "transform",
                 "transform", "information", "table", "array", "disk"]),
                "metric": r.randrange(4), "seed": r.randrange(1 << 30),
                "strike": gen_strike(r) if r.random() < .2 else None})
        elif k < .95:
            ops.append({"op": "save"})
        else:
            ops.append({"op": "crash"})
    return {"data": spec, "process": cfg, "ops": ops}


METRICS = {"binary": [None, "woe", "event_rate", "indices"],
           "continuous": [None, "mean", "mean", "indices"],
           "multiclass": [None, "mean_woe", "weighted_mean_woe", "indices"]}
STATS = {"binary": ["iv", "js", "gini", "quality_score"],
         "continuous": ["woe", "quality_score"],
         "multiclass": ["js", "quality_score"]}


def refused(ctx, what, fn):
    try:
        fn()
    except INJECTED:
        raise
    except Exception as e:
        ctx.fault("refused-call")
        ctx.event("refused", what, type(e).__name__)
        return
    ctx.check(False, "accepted", "%s was accepted" % what)


class World:
    def __init__(self, plan, ctx):
        self.ctx, self.plan = ctx, plan
        self.spec, self.cfg = plan["data"], plan["process"]
        self.t = self.spec["target"]
        self.df, self.y = tabular.dataset(self.spec)
        self.all = list(self.df.columns)
        self.names = list(self.all)
        self.bp = self.process(self.names)
        self.cur = None           # what the process should hold
        self.saved = None
        self.path = os.path.join(ctx.scratch, "process.pkl")
        self.sup = None

    def process(self, names):
        fixed = [f for f in self.cfg["fixed"] or () if f in names] or None
        return tabular.make_process(
            names, self.cfg, fixed_variables=fixed,
            categorical_variables=[c for c in self.cfg["cats"]
                                   if c in names] or None)

    def alone(self, name, seed=None):
        """A binning of the variable, fitted by itself."""
        cfg = self.cfg
        if seed is not None:
            r = pyrng("alone", seed)
            cfg = dict(cfg, max_n_bins=r.choice([2, 3, None]),
                       max_n_prebins=r.choice([3, 6, 10]),
                       min_bin_size=r.choice([None, .2]),
                       fit={name: {}})
        return tabular.fit_alone(self.df, self.y, name, self.t, cfg)

    def piecewise(self, name, seed):
        import optbinning as ob
        r = pyrng("pw", seed)
        C = {"binary": ob.OptimalPWBinning,
             "continuous": ob.ContinuousOptimalPWBinning}[self.t]
        o = C(name=name, max_n_prebins=r.choice([3, 5]),
              max_n_bins=r.choice([None, 2]),
              monotonic_trend=r.choice([None, "ascending"]),
              special_codes=list(tabular.CODES) if self.cfg["codes"]
              else None)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return o.fit(self.df[name].to_numpy(dtype=float), self.y)

    # -- oracle ------------------------------------------------------------
    def stats(self):
        out = {}
        for n in self.names:
            o = copy.deepcopy(self.cur[n])
            t = o.binning_table
            self.ctx.must("table of " + n, t.build)
            self.ctx.must("analysis of " + n, t.analysis, print_output=False)
            out[n] = self.ctx.must("statistics of " + n, lambda: {
                m: float(getattr(t, m)) for m in STATS[self.t]})
            d = getattr(o, "dtype", "numerical")
            out[n]["dtype"] = d
            out[n]["status"] = o.status
            out[n]["n_bins"] = len(o.splits) + (d == "numerical")
        return out

    def support(self, st):
        fixed = [f for f in self.cfg["fixed"] or () if f in self.names]
        return select(self.names, {n: {m: s[m] for m in STATS[self.t]}
                                   for n, s in st.items()},
                      self.cfg["criteria"], fixed)

    def own_transform(self, metric, sup):
        cols = []
        for n, s in zip(self.names, sup):
            if not s:
                continue
            o = copy.deepcopy(self.cur[n])
            p = dict(self.cfg["transform"].get(n) or {})
            m = p.pop("metric", metric)
            pw = type(o).__name__
            kw = dict(metric_special=p.get("metric_special", 0),
                      metric_missing=p.get("metric_missing", 0))
            if m is not None and not (pw == "ContinuousOptimalPWBinning" and
                                      m == "mean"):
                kw["metric"] = m
            cols.append((n, np.asarray(o.transform(self.df[n], **kw),
                                       dtype=float)))
        return cols

    def verify(self, full=True):
        ctx, bp = self.ctx, self.bp
        self.read("support", 0, None)
        if full:
            self.read("summary", 0, None)
            self.read("transform", 0, None)
            for n in self.names:
                self.table(n)

    def table(self, n):
        want = copy.deepcopy(self.cur[n]).binning_table.build()
        got = self.ctx.must("get_binned_variable", lambda: self.bp
                            .get_binned_variable(n).binning_table.build())
        self.ctx.check(close(got, want), "table",
                       lambda: "%s:\n%s\nthe current binning gives\n%s"
                       % (n, got, want))

    def read(self, what, metric, seed):
        ctx, bp, t = self.ctx, self.bp, self.t
        if self.cur is None:
            # nothing fitted: every read is refused
            return refused(ctx, "a read before a fit", bp.summary)
        if what == "table":
            return self.table(self.names[seed % len(self.names)])
        st = self.stats()
        sup = self.support(st)
        if sup is None:
            # a tie at the cut: any selection of the right size
            sup = np.array(bp.get_support(), dtype=bool)
            ctx.probe("tie")
        if what == "support":
            got = ctx.must("get_support", bp.get_support)
            ctx.check([bool(v) for v in got] == list(sup), "support",
                      lambda: "support %s of %s; the current variables give "
                      "%s" % (got, self.names, sup))
            if self.sup is not None and list(sup) != self.sup:
                ctx.probe("support-flip")
            self.sup = list(map(bool, sup))
        elif what == "indices":
            got = ctx.must("get_support", bp.get_support, indices=True)
            ctx.check(list(got) == list(np.flatnonzero(sup)), "support",
                      lambda: "indices %s; expected %s" % (got, sup))
        elif what == "names":
            got = ctx.must("get_support", bp.get_support, names=True)
            w = [n for n, s in zip(self.names, sup) if s]
            ctx.check([str(v) for v in got] == w, "support",
                      lambda: "names %s; expected %s" % (got, w))
        elif what == "summary":
            got = ctx.must("summary", bp.summary)
            ctx.check(list(got["name"]) == self.names, "summary-names",
                      lambda: "summary of %s; variables %s" % (
                          list(got["name"]), self.names))
            for i, n in enumerate(self.names):
                row = got.iloc[i]
                s = st[n]
                ctx.check(row["dtype"] == s["dtype"] and
                          row["status"] == s["status"] and
                          int(row["n_bins"]) == s["n_bins"] and
                          bool(row["selected"]) == bool(sup[i]) and
                          all(feq(float(row[m]), s[m]) for m in STATS[t]),
                          "summary-row", lambda: "%s: %s; the current "
                          "binning gives %s selected=%s" % (
                              n, dict(row), s, sup[i]))
        elif what == "information":
            with contextlib.redirect_stdout(io.StringIO()) as out:
                ctx.must("information", bp.information,
                         print_level=1 + (seed or 0) % 2)
            text = out.getvalue()
            k = {"selected": int(sup.sum()), "variables": len(self.names),
                 "numerical": sum(s["dtype"] == "numerical"
                                  for s in st.values()),
                 "categorical": sum(s["dtype"] == "categorical"
                                    for s in st.values())}
            for key, pat in [("selected", r"selected\s+(\d+)"),
                             ("numerical", r"[Nn]umerical\s+(\d+)"),
                             ("categorical", r"[Cc]ategorical\s+(\d+)"),
                             ("variables", r"[Nn]umber of variables\s+(\d+)")]:
                m = re.search(pat, text)
                ctx.check(m is not None and int(m.group(1)) == k[key],
                          "information", lambda: "information prints\n%s\n"
                          "the current variables give %s" % (text, k))
        else:
            self.transform(what, METRICS[t][metric], sup, seed)

    def transform(self, what, metric, sup, seed):
        ctx, bp = self.ctx, self.bp
        pw = any("PW" in type(o).__name__ for o in self.cur.values())
        if metric == "indices" and pw:
            if sup.any():
                refused(ctx, "indices of a piecewise binning",
                        lambda: bp.transform(self.df, metric=metric))
            return
        if what == "disk" and sup.any() and all(
                self.spec["cols"][n]["kind"] in ("num", "int") and
                n not in self.cfg["cats"] for n in self.names):
            return self.disk(metric, sup)
        try:
            want = self.own_transform(metric, sup)
        except INJECTED:
            raise
        except Exception:
            refused(ctx, "a transform one variable cannot do",
                    lambda: bp.transform(self.df, metric=metric))
            return
        kw = {} if metric is None else {"metric": metric}
        if what == "array" and all(self.df[n].dtype != object
                                   for n in self.names):
            X = self.df[self.names].to_numpy(dtype=float)
            ctx.probe("array-input")
        else:
            X = self.df
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = ctx.must("transform", bp.transform, X, **kw)
        if not sup.any():
            ctx.probe("none-selected")
            ctx.check(got.shape == (len(self.df), 0), "transform-empty",
                      lambda: "transform without selected variables has "
                      "shape %s" % (got.shape,))
            return
        if isinstance(X, pd.DataFrame):
            ctx.check(list(got.columns) == [n for n, _ in want],
                      "transform-columns", lambda: "transform has columns %s;"
                      " selected %s" % (list(got.columns),
                                        [n for n, _ in want]))
            got = got.to_numpy(dtype=float)
        ctx.check(got.shape == (len(self.df), len(want)), "transform-shape",
                  lambda: "shape %s" % (got.shape,))
        for j, (n, w) in enumerate(want):
            ctx.check(close(np.asarray(got[:, j], dtype=float), w),
                      "transform", lambda: "%s (metric %s): %s; the current "
                      "binning gives %s" % (n, metric, got[:, j], w))

    def disk(self, metric, sup):
        ctx, bp = self.ctx, self.bp
        ctx.probe("disk")
        try:
            want = self.own_transform(metric, sup)
        except INJECTED:
            raise
        except Exception:
            return
        src = os.path.join(ctx.scratch, "in.csv")
        dst = os.path.join(ctx.scratch, "out.csv")
        self.df[self.names[::-1]].to_csv(src, index=False)
        if os.path.exists(dst):
            os.remove(dst)
        kw = {} if metric is None else {"metric": metric}
        ctx.must("transform_disk", bp.transform_disk, src, dst,
                 chunksize=max(7, len(self.df) // 3),
                 float_precision="round_trip", **kw)
        got = pd.read_csv(dst, float_precision="round_trip")
        ctx.check(list(got.columns) == [n for n, _ in want] and
                  all(close(got[n].to_numpy(dtype=float), w)
                      for n, w in want), "transform-disk",
                  lambda: "transform_disk gives\n%s\nthe current binnings\n%s"
                  % (got, want))

    # -- operations --------------------------------------------------------
    def fit(self, op):
        ctx, bp = self.ctx, self.bp
        r = pyrng("names", op["seed"])
        if op["names"]:
            names = list(self.all)
            r.shuffle(names)
            if op["names"] == "subset" and len(names) > 1:
                names = names[:r.randint(1, len(names) - 1)]
            if names != self.names:
                ctx.probe("other-variables")
            self.names = names
            fixed = [f for f in self.cfg["fixed"] or () if f in names]
            bp.set_params(variable_names=list(names),
                          fixed_variables=fixed or None,
                          categorical_variables=[
                              c for c in self.cfg["cats"] if c in names]
                          or None)
            # not refitted yet; the old selection is undefined
            self.cur = None
        new = {n: self.alone(n) for n in self.names}
        given = {n: copy.deepcopy(o) for n, o in new.items()}
        X = self.df[self.names]
        bad = op["bad"]
        if bad:
            if bad == "frame" or op["how"] == "data":
                fn = lambda: bp.fit(self.df.iloc[:, :0], self.y)  # noqa
            elif bad == "keys":
                given["other"] = given.pop(self.names[0])
                fn = lambda: bp.fit_from_dict(given)  # noqa: E731
            elif bad == "unfitted":
                given[self.names[0]] = self.unfitted(self.names[0])
                fn = lambda: bp.fit_from_dict(given)  # noqa: E731
            else:
                given[self.names[0]] = self.other_kind(self.names[0])
                fn = lambda: bp.fit_from_dict(given)  # noqa: E731
                if len(self.names) == 1:
                    given[self.names[0]] = "no binning"
            ctx.probe("refused-keys")
            refused(ctx, "a fit with bad %s" % bad, fn)
            # a failed fit leaves no solution behind (P14)
            self.cur = None
            return
        fn = (lambda: bp.fit(X, self.y)) if op["how"] == "data" else \
            (lambda: bp.fit_from_dict(given))
        before = None if self.cur is None else {
            n: bp.get_binned_variable(n) for n in self.names}
        if op["strike"] and self.plan["ops"][0] is not op:
            twin = copy.deepcopy(bp)
            g2 = copy.deepcopy(given)
            f2 = (lambda: twin.fit(X, self.y)) if op["how"] == "data" else \
                (lambda: twin.fit_from_dict(g2))
            _, prof = profile(ctx, f2)
            task, s = struck(ctx, fn, prof, op["strike"])
            if s.fired:
                ctx.probe("struck-fit")
                if task.error is not None:
                    if not self.answers():
                        self.cur = None
                        return
                    if before is None:
                        # parameters changed, the fit not reached: undefined
                        self.cur = None
                        given = {n: copy.deepcopy(o) for n, o in new.items()}
                        ctx.must("fit", fn if op["how"] == "data" else
                                 lambda: bp.fit_from_dict(given))
                    else:
                        kept = [bp.get_binned_variable(n) is before[n]
                                for n in self.names]
                        ctx.check(len(set(kept)) == 1, "half-fitted",
                                  lambda: "an interrupted fit replaced some "
                                  "variables of a process that answers")
                        if kept[0]:
                            new = self.cur
            elif task.error is not None:
                raise task.error
        else:
            ctx.must("fit", fn)
        self.cur = new
        self.verify(full=r.random() < .4)

    def answers(self):
        """Whether the process claims to be fitted."""
        try:
            self.bp.get_support()
        except INJECTED:
            raise
        except Exception:
            return False
        return True

    def unfitted(self, name):
        import optbinning as ob
        return {"binary": ob.OptimalBinning,
                "continuous": ob.ContinuousOptimalBinning,
                "multiclass": ob.MulticlassOptimalBinning}[self.t](name=name)

    def other_kind(self, name):
        import optbinning as ob
        x = np.arange(60.)
        if self.t == "binary":
            return ob.ContinuousOptimalBinning(name=name).fit(x, x)
        return ob.OptimalBinning(name=name).fit(x, (x > 30).astype(int))

    def update(self, op):
        ctx, bp = self.ctx, self.bp
        name = self.names[op["i"] % len(self.names)]
        how = op["how"]
        if self.cur is None:
            return refused(ctx, "an update before a fit",
                           lambda: bp.update_binned_variable(
                               name, self.alone(name)))
        numeric = self.spec["cols"][name]["kind"] in ("num", "int")
        if how == "pw" and (self.t == "multiclass" or not numeric or
                            name in self.cfg["cats"]):
            how = "refit"
        if how == "unfitted":
            ctx.probe("refused-unfitted")
            return refused(ctx, "an unfitted binning",
                           lambda: bp.update_binned_variable(
                               name, self.unfitted(name)))
        if how == "type":
            ctx.probe("refused-type")
            return refused(ctx, "an object that is no binning",
                           lambda: bp.update_binned_variable(
                               name, {"splits": [1]}))
        if how == "kind":
            ctx.probe("refused-kind")
            o = self.other_kind(name)
            return refused(ctx, "a binning for another target",
                           lambda: bp.update_binned_variable(name, o))
        if how in ("name", "unknown"):
            ctx.probe("refused-name")
            o = self.alone(name)
            if how == "name":
                o.name = "other"
                return refused(ctx, "a binning of another variable",
                               lambda: bp.update_binned_variable(name, o))
            o.name = "other"
            return refused(ctx, "a variable the process does not have",
                           lambda: bp.update_binned_variable("other", o))
        try:
            new = self.piecewise(name, op["seed"]) if how == "pw" \
                else self.alone(name, op["seed"])
        except INJECTED:
            raise
        except Exception:
            ctx.probe("unfit")
            return
        given = copy.deepcopy(new)
        old = self.cur[name]
        fn = lambda: bp.update_binned_variable(name, given)  # noqa: E731
        if op["strike"]:
            twin = copy.deepcopy(bp)
            g2 = copy.deepcopy(new)
            _, prof = profile(ctx, lambda: twin.update_binned_variable(
                name, g2))
            task, s = struck(ctx, fn, prof, op["strike"])
            if s.fired:
                ctx.probe("struck-update")
            if task.error is not None:
                if not s.fired:
                    raise task.error
                # all or nothing
                new = new if bp.get_binned_variable(name) is given else old
        else:
            ctx.must("update_binned_variable", fn)
        if "PW" in type(new).__name__:
            ctx.probe("piecewise-in")
        elif "PW" in type(old).__name__:
            ctx.probe("piecewise-out")
        self.cur[name] = new

    def struck_read(self, op):
        """A read that fails changes nothing."""
        ctx, bp = self.ctx, self.bp
        fn = {"summary": lambda b: b.summary(),
              "support": lambda b: b.get_support(),
              "indices": lambda b: b.get_support(indices=True),
              "names": lambda b: b.get_support(names=True),
              "information": lambda b: b.information(),
              "table": lambda b: b.get_binned_variable(
                  self.names[0]).binning_table.build()}.get(
            op["what"], lambda b: b.transform(self.df))
        twin = copy.deepcopy(bp)
        with warnings.catch_warnings(), \
                contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            _, prof = profile(ctx, lambda: fn(twin))
            _, s = struck(ctx, lambda: fn(bp), prof, op["strike"])
        if s.fired:
            ctx.probe("struck-read")

    def step(self, op):
        ctx = self.ctx
        k = op["op"]
        if k == "fit":
            self.fit(op)
        elif k == "update":
            self.update(op)
        elif k == "read":
            if op["strike"] and self.cur is not None:
                self.struck_read(op)
            self.read(op["what"], op["metric"], op["seed"])
        elif k == "save":
            if self.cur is None:
                return
            ctx.must("save", self.bp.save, self.path)
            self.saved = (dict(self.cur), list(self.names))
        elif k == "crash":
            if self.saved is None:
                return
            ctx.fault("crash-restore")
            ctx.probe("crash")
            self.bp = ctx.must("load", type(self.bp).load, self.path)
            self.cur, self.names = dict(self.saved[0]), list(self.saved[1])
            self.verify(full=False)


def execute(plan, ctx):
    w = World(plan, ctx)
    for op in plan["ops"]:
        ctx.tick()
        w.step(op)
        ctx.event(op["op"], op.get("how", op.get("what")),
                  None if w.cur is None else
                  {n: [str(s) for s in o.splits] for n, o in w.cur.items()})
    if w.cur is not None:
        w.verify()
        ctx.state(digest([type(o).__name__ for o in w.cur.values()]))
