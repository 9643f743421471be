"""A scoring service answers every row by the bin that holds it."""

import pickle
import random

import numpy as np
import pandas as pd

from ..core import INJECTED, digest, feq, nprng, pyrng
from ..faults import gen_strike, profile, struck
from ..families import Fam, _codes, gen_fam
from ..gen import numeric
from ..oracle import (UNKNOWN, BinaryRef, Bins, ContRef, MultiRef,
                      answers_match, expect, is_missing, refs_for)
from ..tabular import CODES

ID = "P17"
TITLE = "every row is answered by the bin that holds it"
LEVEL = "exploration"
N_QUICK = 900
RULE = ("one run = one binning or process fitted, deployed to replicas "
        "restored from snapshots and queried in batches of any size, order, "
        "container and metric while replicas crash in mid-request, are "
        "restored and are moved to a new version; every answer and every "
        "table row equals an independent reference built from the split "
        "points and the records; non-trivial when a replica crashed or "
        "moved; distinct by hash of the event log")
REAL = ["all binnings, 2D, piecewise, scenario-based, sketch and process "
        "objects", "solvers", "pickle"]
STUB = ["replicas, snapshot store and clients (in-process)",
        "the failure (exception raised at an executed line of optbinning)"]
PROBES = ["boundary-row", "unknown-category", "special-row", "missing-row",
          "crash-mid-request", "redeploy", "restore", "fit-transform",
          "table-checked", "single-row", "2d", "piecewise", "process"]

FAMS = ["bin_num", "bin_num", "bin_num", "bin_cat", "bin_cat", "cont_num",
        "cont_num", "cont_cat", "cont_cat", "multi", "multi", "sb", "sketch",
        "bin2d", "bin2d", "cont2d", "cont2d", "pw_bin", "pw_cont", "process",
        "process", "process"]


def generate(seed, tier="quick"):
    r = pyrng("p17", seed)
    fam = gen_fam(r, r.choice(FAMS), small=True)
    ops = [{"op": "deploy", "v": 0}]
    for i in range(r.randint(8, 18)):
        k = r.random()
        if k < .62:
            ops.append({"op": "req", "rep": r.randrange(3),
                        "s": r.randrange(1 << 30),
                        "n": r.choice([1, 1, 3, 10, 40]),
                        "metric": r.randrange(12),
                        "mm": r.choice([0, "empirical", 1.5]),
                        "ms": r.choice([0, "empirical", -2]),
                        "box": r.choice(["array", "array", "list", "series",
                                         "strided", "readonly"]),
                        "digits": r.choice([2, 2, 0, 4]),
                        "clip": r.choice([None, None, None, [-1.5, 2.0],
                                          [0.25, None], [None, 0.5]]),
                        "strike": gen_strike(r) if r.random() < .12
                        else None})
        elif k < .72:
            ops.append({"op": "restore", "rep": r.randrange(3)})
        elif k < .8:
            ops.append({"op": "table", "rep": r.randrange(3)})
        elif k < .88:
            ops.append({"op": "deploy", "v": r.randrange(3)})
        else:
            ops.append({"op": "ft", "v": r.randrange(3),
                        "metric": r.randrange(12),
                        "mm": r.choice([0, "empirical"]),
                        "ms": r.choice([0, "empirical"])})
    return {"fam": fam, "ops": ops}


# ------------------------------------------------------------- references --

COL = {"woe": "WoE", "event_rate": "Event rate", "mean": "Mean"}


class One:
    """Reference of a one-dimensional binning."""

    def __init__(self, ctx, F, o, d):
        self.F, self.o = F, o
        s = F.s
        self.t = t = o.binning_table.build()
        self.check_shape(ctx, F, o, d)
        self.ref = refs_for(F, o, d)
        self.weighted = bool(s["kw"].get("class_weight"))
        self.outliers = bool(s["kw"].get("outlier_detector"))
        if self.ref.b.groups is not None:
            self.ref.b.names = [str(g) for g in t.Bin[:self.ref.b.nb]]
        if self.weighted:
            self.ref.adopt(t)
        self.unknown = s["kw"].get("cat_unknown")
        if not self.outliers:
            self.check_table(ctx)

    def check_table(self, ctx):
        self.ref.check_table(ctx, self.t, self.F.name)
        self.o.binning_table.build()
        self.ref.check_metrics(ctx, self.o.binning_table, self.F.name)
        lab = self.ref.b.labels()
        got = [str(b) for b in self.t.Bin[:-1]]
        ctx.check(got == lab, "table-bins", "Bin column %s, expected %s" % (
            got, lab))
        ctx.probe("table-checked")

    def check_shape(self, ctx, F, o, d):
        sp = o.splits
        if F.name in ("bin_cat", "cont_cat") or \
                (F.name == "sketch" and F.s["cat"]):
            codes = set()
            for _, g in Bins(groups=[], codes=_codes(F.s) if
                             F.name != "sketch" else None).codes:
                codes |= set(g)
            seen = {}
            for g in sp:
                for c in g:
                    seen[c] = seen.get(c, 0) + 1
            want = {c for c in d["x"] if not is_missing(c) and
                    c not in codes}
            ctx.check(all(v == 1 for v in seen.values()) and
                      want <= set(seen), "category-partition",
                      lambda: "categories %s are grouped as %s" % (
                          sorted(map(str, want)), [list(g) for g in sp]))
        else:
            a = np.asarray(sp, dtype=float)
            ctx.check(bool(np.all(np.isfinite(a))) and
                      bool(np.all(np.diff(a) > 0)), "splits-order",
                      lambda: "split points %s" % a.tolist())

    def universe(self, ctx, d):
        b = self.ref.b
        F = self.F
        if b.groups is not None:
            x = list(d["x"]) + list(F.xnew(d))
            return np.array(x, dtype=object)
        x = np.concatenate(d["X"]) if F.name == "sb" else d["x"]
        sp = np.array(b.splits)
        return np.concatenate([np.asarray(x, dtype=float)[:60], sp,
                               np.nextafter(sp, -np.inf),
                               np.nextafter(sp, np.inf), sp,
                               [np.nan, 1e7, -1e7],
                               CODES if _codes(F.s) is not None and
                               F.name != "sketch" else []])

    def take(self, U, idx):
        return U[idx]

    def size(self, U):
        return len(U)

    def want(self, ctx, x, metric, ms, mm, digits=2):
        rows = self.ref.b.rows(x)
        b = self.ref.b
        for r in rows:
            ctx.probe("missing-row" if r == b.n_rows - 1 else
                      "unknown-category" if r == UNKNOWN else
                      "special-row" if r >= b.nb else
                      "boundary-row" if b.splits and x is not None and
                      float(x[0]) in b.splits else "plain-row")
        tv = self.t[COL[metric]].to_numpy() if metric in COL else None
        if self.outliers and metric not in ("bins", "indices"):
            v = [tv[r] for r in range(b.n_rows)]
            return [v[r] if (mm if r == b.n_rows - 1 else ms if r >= b.nb
                             else "empirical") == "empirical" else
                    (mm if r == b.n_rows - 1 else ms) for r in rows]
        if self.outliers and metric == "indices":
            pass
        return expect(self.ref, rows, metric, ms, mm, self.unknown, tv,
                      digits)

    def valid(self, metric):
        u = self.unknown
        return u is None or not (metric == "bins" or
                                 metric == "indices" and
                                 not isinstance(u, int))

    def ask(self, o, x, box, **kw):
        return o.transform(pack(x, box), **kw)

    def ask_ft(self, o, d, **kw):
        if self.F.name == "sb":
            return o.fit_transform(d["X"][0], d["X"], d["Y"],
                                   d.get("weights"), **kw), d["X"][0]
        if self.F.name == "sketch":
            return None
        return o.fit_transform(**dict(d, **kw)), d["x"]


class Two(One):
    """Reference of a two-dimensional binning."""

    def __init__(self, ctx, F, o, d):
        self.F, self.o = F, o
        self.t = o.binning_table.build()
        self.sx, self.sy = o.splits
        self.nb = len(self.sx)
        self.cont = F.name == "cont2d"
        self.caty = F.s["caty"]
        self.codes = list(CODES) if F.s["codes"] else []
        self.unknown = None
        b = Bins(splits=[], codes=None)
        b.nb, b.n_rows = self.nb, self.nb + 2
        b.rows = None
        r = self.rows2(ctx, d["x"], d["y"], True)
        b.rows = lambda x: r
        b.labels = None
        z = np.asarray(d["z"])
        self.ref = (ContRef if self.cont else BinaryRef)(b, d["x"], z)
        if self.cont:
            self.ref.max[:] = 0
        self.ref.check_table(ctx, self.t, F.name)
        ctx.probe("table-checked")
        ctx.probe("2d")

    def rows2(self, ctx, X, Y, train=False):
        out = []
        for x, y in zip(X, Y):
            if is_missing(x) or is_missing(y):
                out.append(self.nb + 1)
                continue
            if x in self.codes:
                out.append(self.nb)
                continue
            hit = [i for i in range(self.nb)
                   if self.sx[i][0] <= x < self.sx[i][1] and
                   (y in list(self.sy[i]) if self.caty else
                    self.sy[i][0] <= y < self.sy[i][1])]
            ctx.check(len(hit) <= 1 and (len(hit) == 1 or self.caty and
                                         not train),
                      "rectangles", "(%r, %r) lies in rectangles %s" % (
                          x, y, hit))
            out.append(hit[0] if hit else UNKNOWN)
        return np.array(out, dtype=int)

    def universe(self, ctx, d):
        n = min(60, len(d["x"]))
        bx = sorted({v for a in self.sx for v in a if np.isfinite(v)})
        x = list(d["x"][:n]) + list(d["x"][:8]) + bx * 2
        if self.caty:
            y = list(d["y"][:n]) + list(d["y"][1:9]) + \
                list(d["y"][:len(bx) * 2])
            return np.array(x, dtype=float), np.array(y, dtype=object)
        by = sorted({v for a in self.sy for v in a if np.isfinite(v)})
        y = list(d["y"][:n]) + list(d["y"][1:9]) + \
            ((by or [0.0]) * len(x))[:2 * len(bx)]
        return np.array(x, dtype=float), np.array(y, dtype=float)

    def take(self, U, idx):
        return U[0][idx], U[1][idx]

    def size(self, U):
        return len(U[0])

    def want(self, ctx, xy, metric, ms, mm, digits=2):
        rows = self.rows2(ctx, *xy)
        k = self.nb + 2
        if metric == "bins":
            def lab(i):
                if i >= self.nb:
                    return ["Special", "Missing"][i - self.nb]
                def one(s, cat):
                    if cat:
                        return None
                    return "%s%.*f, %.*f)" % (
                        "(" if np.isinf(s[0]) else "[", digits, s[0],
                        digits, s[1])
                a, b = one(self.sx[i], False), one(self.sy[i], self.caty)
                return None if b is None else r"%s $\cup$ %s" % (a, b)
            return [None if r == UNKNOWN else lab(r) for r in rows]
        out = []
        if metric != "indices":
            val, ok = self.ref.values(metric)
            tv = self.t[COL[metric]].to_numpy()
        for r in rows:
            if r == UNKNOWN:
                out.append(None)
                continue
            m = "empirical" if r < self.nb else ms if r == self.nb else mm
            if metric == "indices":
                out.append(int(r) if m == "empirical" or
                           not isinstance(m, int) else m)
            elif m != "empirical":
                out.append(m)
            else:
                out.append(val[r] if ok[r] else tv[r])
        return out

    def ask(self, o, xy, box, **kw):
        return o.transform(pack(xy[0], box), pack(xy[1], box), **kw)

    def ask_ft(self, o, d, **kw):
        return o.fit_transform(d["x"], d["y"], d["z"], **kw), (d["x"],
                                                               d["y"])


class PW(One):
    """Piecewise binning: the polynomial of the bin, from the table."""

    def __init__(self, ctx, F, o, d):
        self.F, self.o = F, o
        self.t = t = o.binning_table.build()
        self.unknown = None
        self.b = Bins(splits=o.splits, codes=_codes(F.s))
        k = self.b.n_rows
        cs = [c for c in t.columns if c.startswith("c") and c[1:].isdigit()]
        self.c = t[cs].iloc[:self.b.nb].to_numpy(dtype=float)
        y = np.asarray(d["y"], dtype=float)
        self.r = r = self.b.rows(d["x"])
        self.cont = F.name == "pw_cont"
        self.clip = None, None
        n = np.array([(r == i).sum() for i in range(k)], dtype=float)
        s = np.array([y[r == i].sum() for i in range(k)])
        ctx.check(feq(t["Count"].to_numpy(dtype=float)[:k], n),
                  "table-count", lambda: "Count is %s, records say %s" % (
                      t["Count"].tolist(), n.tolist()))
        ctx.check(feq(t["Sum" if self.cont else "Event"].to_numpy(
            dtype=float)[:k], s, 1e-7, 1e-7), "table-event",
            lambda: "table is %s, records say %s" % (t.to_dict("list"),
                                                     s.tolist()))
        if self.cont:
            self.rate = np.array([s[i] / n[i] if n[i] else 0.0
                                  for i in range(k)])
            self.ok = n > 0
        else:
            self.rate = np.array([s[i] / n[i] if n[i] else 0.0
                                  for i in range(k)])
            self.ok = (s > 0) & (s < n)
        self.te, self.tne = s.sum(), n.sum() - s.sum()
        ctx.probe("table-checked")
        ctx.probe("piecewise")
        self.ref = type("R", (), {"b": self.b})()

    def want(self, ctx, x, metric, ms, mm, digits=2):
        out = []
        lo, hi = self.clip
        for v in x:
            r = self.b.row(v)
            if r == self.b.n_rows - 1 or r >= self.b.nb:
                m = mm if r == self.b.n_rows - 1 else ms
                if m != "empirical":
                    out.append(m)
                    continue
                if not self.ok[r]:
                    out.append(None)
                    continue
                e = self.rate[r]
            else:
                e = float(np.polyval(self.c[r][::-1], v))
                if abs(v) > 1e6:
                    out.append(None)
                    continue
                e = e if lo is None else max(e, lo)
                e = e if hi is None else min(e, hi)
            if metric == "woe":
                if not 1e-9 < e < 1 - 1e-9:
                    out.append(None)
                    continue
                e = np.log((1 / e - 1) * self.te / self.tne)
            out.append(e)
        return out

    def ask(self, o, x, box, **kw):
        kw.pop("show_digits", None)
        if self.cont:
            kw.pop("metric", None)
        lo, hi = self.clip
        if lo is not None:
            kw["lb"] = lo
        if hi is not None:
            kw["ub"] = hi
        return o.transform(pack(x, box), **kw)

    def ask_ft(self, o, d, **kw):
        kw.pop("show_digits", None)
        if self.cont:
            kw.pop("metric", None)
        return o.fit_transform(d["x"], d["y"], **kw), d["x"]


class Proc(One):
    """Reference of a process: one reference per variable."""

    def __init__(self, ctx, F, o, d):
        self.F, self.o = F, o
        s = F.s
        self.unknown = None
        self.names = list(s["data"]["cols"])
        self.sel = [n for n, k in zip(self.names, o.get_support()) if k]
        codes = list(CODES) if s["cfg"]["codes"] else None
        self.ref1, self.t1 = {}, {}
        tgt = s["data"]["target"]
        for n in self.names:
            v = o.get_binned_variable(n)
            t = v.binning_table.build()
            cat = getattr(v, "dtype", "numerical") == "categorical"
            b = Bins(groups=[list(g) for g in v.splits], codes=codes) \
                if cat else Bins(splits=v.splits, codes=codes)
            if cat:
                b.names = [str(g) for g in t.Bin[:b.nb]]
            x = d["X"][n].to_numpy()
            y = np.asarray(d["y"])
            if tgt == "binary":
                ref = BinaryRef(b, x, y)
                if (s["cfg"]["fit"].get(n) or {}).get("class_weight"):
                    ref.adopt(t)
            elif tgt == "continuous":
                ref = ContRef(b, x, y)
            else:
                ref = MultiRef(b, x, y, sorted(set(y.tolist())))
            ref.check_table(ctx, t, n)
            self.ref1[n], self.t1[n] = ref, t
        ctx.probe("table-checked")
        ctx.probe("process")

    def universe(self, ctx, d):
        X = d["X"].iloc[:50]
        extra = X.iloc[:6].copy()
        for n in self.names:
            b = self.ref1[n].b
            if b.groups is None and b.splits and \
                    extra[n].dtype.kind == "f":
                extra[n] = [b.splits[i % len(b.splits)]
                            for i in range(len(extra))]
            elif extra[n].dtype == object:
                extra.loc[extra.index[0], n] = "??"
        return pd.concat([X, extra], ignore_index=True)

    def take(self, U, idx):
        return U.iloc[idx]

    def valid(self, metric):
        cfg = self.F.s["cfg"]["transform"]
        own = {(cfg.get(n) or {}).get("metric") for n in self.sel} - {None}
        return metric != "bins" or not own

    def want(self, ctx, X, metric, ms, mm, digits=2):
        out = []
        cfg = self.F.s["cfg"]["transform"]
        for n in self.sel:
            p = cfg.get(n) or {}
            m = p.get("metric") or metric or {
                "binary": "woe", "continuous": "mean",
                "multiclass": "mean_woe"}[self.F.s["data"]["target"]]
            ms1 = p.get("metric_special", ms)
            mm1 = p.get("metric_missing", mm)
            ref, t = self.ref1[n], self.t1[n]
            rows = ref.b.rows(X[n].to_numpy())
            tv = t[COL[m]].to_numpy() if m in COL else None
            out += expect(ref, rows, m, ms1, mm1, None, tv, digits)
        return out

    def ask(self, o, X, box, **kw):
        if box == "series":
            X = X.copy()
            X.index = np.arange(len(X))[::-1] * 3 + 7
        elif box in ("strided", "list"):
            X = X[list(X.columns)[::-1]]
        out = o.transform(X, **kw)
        if isinstance(out, pd.DataFrame):
            if list(out.columns) != self.sel:
                raise ValueError("columns %s" % list(out.columns))
            return np.concatenate([out[n].to_numpy(dtype=object)
                                   for n in self.sel])
        return np.asarray(out, dtype=object).T.ravel()

    def ask_ft(self, o, d, **kw):
        out = o.fit_transform(d["X"], d["y"], **kw)
        return np.concatenate([out[n].to_numpy(dtype=object)
                               for n in self.sel]), d["X"]


def pack(x, box):
    if box == "list" and x.dtype != object:
        return x.tolist() if len(x) else x
    if box == "series":
        return pd.Series(x, index=np.arange(len(x))[::-1] * 2 + 5)
    if box == "strided":
        z = np.empty(2 * len(x), dtype=x.dtype)
        z[::2] = x
        return z[::2]
    x = x.copy()
    if box == "readonly":
        x.setflags(write=False)
    return x


def reference(ctx, F, o, d):
    C = {"bin2d": Two, "cont2d": Two, "pw_bin": PW, "pw_cont": PW,
         "process": Proc}.get(F.name, One)
    return C(ctx, F, o, d)


def metrics(F):
    if F.name == "process":
        return [None, None, "indices", "bins"]
    return F.metrics()


# --------------------------------------------------------------- execution --

def execute(plan, ctx):
    F = Fam(plan["fam"])
    ctx.event("family", F.name)
    store = {}
    refs = {}
    data = {}
    live = [None]
    reps = [None, None, None]         # (version, object)

    def deploy(v):
        if v not in store:
            d = F.data(v)
            o = F.new()
            try:
                F.fit(o, d)
            except Exception as e:
                ctx.event("fit-refused", v, type(e).__name__)
                return False
            d = F.data(v)
            refs[v] = reference(ctx, F, o, d)
            data[v] = refs[v].universe(ctx, d)
            store[v] = pickle.dumps(o)
        live[0] = v
        reps[:] = [(v, pickle.loads(store[v])) for _ in reps]
        ctx.event("deploy", v)
        return True

    for op in plan["ops"]:
        ctx.tick()
        ctx.steps += 1
        k = op["op"]
        if k == "deploy":
            if deploy(op["v"]) and ctx.steps > 1:
                ctx.nontrivial = True
                ctx.probe("redeploy")
            continue
        if live[0] is None:
            continue
        if k == "restore":
            v = live[0]
            reps[op["rep"]] = (v, pickle.loads(store[v]))
            ctx.fault("replica-crash-restore")
            ctx.probe("restore")
            continue
        if k == "table":
            v, o = reps[op["rep"]]
            if F.name != "process":
                t = o.binning_table.build()
                ctx.check(digest(t.astype(str)) ==
                          digest(refs[v].t.astype(str)), "table-changed",
                          "table of a replica differs from the fitted one")
            continue
        ms_all = metrics(F)
        m = ms_all[op["metric"] % len(ms_all)]
        kw = {"metric": m, "metric_missing": op["mm"],
              "metric_special": op["ms"]}
        if m in ("bins", "indices"):
            # numbers other than 0 have no meaning here
            kw["metric_missing"] = "empirical" if op["mm"] == 1.5 else \
                op["mm"]
            kw["metric_special"] = "empirical" if op["ms"] == -2 else \
                op["ms"]
        if k == "ft":
            v = op["v"]
            if v not in store:
                continue
            R = refs[v]
            if not R.valid(m):
                continue
            R.clip = None, None
            got = ctx.must("fit_transform", R.ask_ft, F.new(), F.data(v),
                           **kw)
            if got is None:
                continue
            got, x = got
            ctx.probe("fit-transform")
            judge(ctx, F, R, x, got, m, kw, 2, "fit_transform")
            continue
        v, o = reps[op["rep"]]
        R = refs[v]
        if not R.valid(m):
            continue
        U = data[v]
        r = nprng("rows", op["s"])
        idx = r.integers(0, R.size(U), op["n"])
        x = R.take(U, idx)
        if op["n"] == 1:
            ctx.probe("single-row")
        kw2 = dict(kw)
        if m == "bins":
            kw2["show_digits"] = op["digits"]

        R.clip = op.get("clip") or (None, None)

        def call():
            return R.ask(o, x, op["box"], **kw2)

        if op["strike"]:
            _, prof = profile(ctx, call)
            t, st = struck(ctx, call, prof, op["strike"])
            if t.error is not None and isinstance(t.error, INJECTED):
                ctx.probe("crash-mid-request")
        got = ctx.must("transform %s" % m, call)
        judge(ctx, F, R, x, got, m, kw, op["digits"], "request")


def judge(ctx, F, R, x, got, m, kw, digits, where):
    want = R.want(ctx, x, m, kw["metric_special"], kw["metric_missing"],
                  digits if where == "request" else 2)
    j = answers_match(got, want)
    ctx.event("answer", m, digest(np.asarray(got, dtype=object)))
    if j is None:
        ctx.evals += len(want)
        return
    ctx.check(False, "wrong-answer", lambda: (
        "%s of %s metric=%s metric_special=%s metric_missing=%s: answer %d "
        "of %d is %r, the bin holding the row says %r" % (
            where, F.name, m, kw["metric_special"], kw["metric_missing"], j,
            len(want), got[j] if j >= 0 else len(got),
            want[j] if j >= 0 else len(want))))
