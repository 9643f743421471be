"""P23: recoding the data recodes the answers and nothing else.

Two objects live through the same history of fits (under solver deadlines),
crash-restores and reads.  One sees the data, the other the same data in
another coding: shifted and scaled, records in another order, categories,
variables or special codes under other names, columns in another order.
"""

import copy
import pickle
import random

import numpy as np
import pandas as pd

from ..core import INJECTED, digest, pyrng
from ..families import Fam, gen_fam, veq
from ..gen import CATS
from ..solver import SolverSim
from ..tabular import CODES

ID = "P23"
TITLE = "recoding the data recodes the answers and nothing else"
LEVEL = "exploration"
N_QUICK = 900
OWN_SOLVER = True
RULE = ("one run = two objects of one family taken through the same seeded "
        "history of fits, solver deadlines, crash-restores and reads, one on "
        "the data, the other on the same data in another coding; all answers "
        "are equal up to the coding; non-trivial when a deadline, a refit or "
        "a restore happened; distinct by hash of the event log")
REAL = ["binnings of all targets, 2D, scenario based, sketches, processes, "
        "scorecards, monitoring", "solvers", "pandas", "sklearn"]
STUB = ["solver deadline (simulated incumbents)", "process crash (pickle "
        "round trip)"]
NAMES = ["bin_num", "bin_num", "cont_num", "cont_num", "multi", "bin_cat",
         "cont_cat", "bin2d", "cont2d", "sb", "process", "process",
         "scorecard", "monitor", "sketch", "psketch"]
PROBES = ["shift", "scale", "shuffle", "rename", "permute", "categories",
          "codes", "deadline", "restore", "refit", "shifted-cart",
          "shifted-user"] + sorted(set(NAMES))
FRAME = ("process", "scorecard", "monitor", "psketch")


def generate(seed, tier="quick"):
    r = pyrng("p23", seed)
    f = gen_fam(r, r.choice(NAMES), small=r.random() < .7)
    name, kw = f["fam"], f["kw"]
    if f.get("user_splits") in ("empty",):
        f["user_splits"] = "plain"
    opts = ["codes"]
    cats = (name == "sketch" and f["cat"]) or any(
        c["kind"].startswith("cat")
        for c in f.get("data", {}).get("cols", {}).values())
    num = name not in ("bin_cat", "cont_cat") and not (
        name == "sketch" and f["cat"])
    fits = f["cfg"]["fit"].values() if "cfg" in f else []
    cart = kw.get("prebinning_method", "cart") == "cart" and \
        all(p.get("prebinning_method", "cart") == "cart" for p in fits)
    if num and "split_digits" not in kw and \
            not f.get("cfg", {}).get("split_digits"):
        opts += ["scale", "scale"]
        if (cart or f.get("user_splits") in ("plain", "fixed")) and \
                not kw.get("outlier_detector"):
            opts += ["shift", "shift", "shift"]
    # categories of the same rate keep the order in which a sketch met them;
    # sums of fractional weights are truncated to whole records
    frac = "balanced" in [p.get("class_weight") for p in [kw] + list(fits)]
    if not frac and name not in ("scorecard", "monitor") and not (
            cats and name in ("sketch", "psketch")):
        opts += ["shuffle", "shuffle"]
    if name in FRAME:
        opts += ["rename", "permute"]
    if cats or name in ("bin_cat", "cont_cat") or f.get("caty"):
        opts += ["categories", "categories"]
    rc = {}
    for _ in range(r.randint(1, 3)):
        k = r.choice(opts)
        rc[k] = {"scale": r.choice([2. ** i for i in (-6, -2, 1, 5, 10)]),
                 "shift": r.choice([-1, 1]) * r.choice([1, 7, 50, 999, 4000]),
                 "shuffle": r.randrange(1 << 30)}.get(k, 1)
    if "scale" in rc or "shift" in rc:
        rc["codes"] = 1             # no value may become a special code
    ops = []
    for i in range(r.randint(1, 3)):
        ops.append({"op": "fit", "v": r.randrange(3),
                    "mode": r.choice(["full", "full", "stop", "nosol"]),
                    "k": r.choice([1, 1, 2]), "sseed": r.randrange(1 << 20)})
        for _ in range(r.randint(0, 2)):
            ops.append({"op": r.choice(["read", "restore"])})
    ops.append({"op": "read"})
    return {"fam": f, "code": rc, "ops": ops}


class Plain(Fam):
    """The family with data on a grid on which sums are exact."""

    def __init__(self, spec):
        super().__init__(spec)
        self.cols = spec["data"]["cols"] if "data" in spec else {}
        self.cats = spec.get("cfg", {}).get("cats", ())
        self.coded = CODES if self.name not in ("sketch", "psketch") and (
            spec["cfg"]["codes"] if "cfg" in spec else
            spec["codes"]) else []

    def data(self, v=0):
        d = super().data(v)
        out = {}
        for k, a in d.items():
            out[k] = [grid(b) for b in a] if isinstance(a, list) and \
                k != "weights" else a if k == "weights" else grid(a)
        return out

    def fresh(self):
        with SolverSim(seed=7).installed():
            return self.new()

    def train(self):
        X, y = super().train()
        return grid(X), grid(y)


def grid(a):
    if isinstance(a, pd.DataFrame):
        return a.apply(lambda c: pd.Series(grid(c.to_numpy()), c.index))
    return np.round(a * 8) / 8 + 0. if a.dtype.kind == "f" else a


class Coded(Plain):
    def __init__(self, spec, code):
        super().__init__(spec)
        self.code = code
        if "rename" in code:
            self.back = {self.new_name(c): c for c in self.cols}
            s = copy.deepcopy(spec)
            s["data"]["cols"] = {self.new_name(c): k
                                 for c, k in self.cols.items()}
            if "cfg" in s:
                g = s["cfg"]
                for k in ("fit", "transform"):
                    g[k] = {self.new_name(c): p for c, p in g[k].items()}
                g["cats"] = [self.new_name(c) for c in g["cats"]]
                g["fixed"] = g["fixed"] and [self.new_name(c)
                                             for c in g["fixed"]]
            super().__init__(s)
        else:
            self.back = {c: c for c in self.cols}
        if "codes" in code and "cfg" in spec and spec["cfg"]["codes"]:
            self.s = dict(self.s, cfg=dict(
                self.s["cfg"], codes=[self.a_code(c) for c in CODES]))

    def new_name(self, c):
        return "z_%s_%s" % (c[1:], c)

    def num(self, a):
        c = self.code
        s = c.get("scale", 1.)
        a = np.asarray(a, dtype=float)
        out = a * s + c.get("shift", 0) * s
        for k in self.coded:
            out = np.where(a == k, self.a_code(k), out)
        return out

    def a_code(self, k):
        return k - 1e7 if "codes" in self.code else k

    def cat(self, a):
        out = np.array(a, dtype=object)
        for i, v in enumerate(out):
            if v is None or v != v:
                continue
            if v in ("SPEC", -9):
                if "codes" in self.code:
                    out[i] = {"SPEC": "sonder", -9: -77}[v]
            elif "categories" in self.code:
                out[i] = "k_" + v if isinstance(v, str) else v + 10
        return out

    def enc(self, a):
        if isinstance(a, tuple):
            return tuple(self.enc(b) for b in a)
        if isinstance(a, list):
            return [self.enc(b) for b in a]
        if isinstance(a, pd.DataFrame):
            out = {}
            for c in a:
                k = self.cols[c]["kind"]
                x = a[c].to_numpy()
                out[c] = self.cat(x) if k.startswith("cat") else x if self.back[c] in \
                    self.cats0 else self.num(x) if set(self.code) & {
                        "scale", "shift", "codes"} else x
            out = pd.DataFrame(out, index=a.index)
            if "permute" in self.code:
                out = out[list(out)[::-1]]
            return out
        return self.cat(a) if a.dtype == object else self.num(a)

    @property
    def cats0(self):
        return [self.back[c] for c in self.cats]

    def data(self, v=0):
        d = Plain.data(self, v)
        axes = {"bin2d": "xy", "cont2d": "xy"}.get(self.name, "x")
        out = {}
        for k, a in d.items():
            out[k] = self.enc(a) if k in axes or k.startswith("X") else a
        if "shuffle" in self.code:
            rng = np.random.default_rng(self.code["shuffle"])
            perm = {}

            def mix(a):
                n = len(a)
                if n not in perm:
                    perm[n] = rng.permutation(n)
                return a.iloc[perm[n]] if hasattr(a, "iloc") else a[perm[n]]
            out = {k: a if k == "weights" else [mix(b) for b in a]
                   if isinstance(a, list) else mix(a)
                   for k, a in out.items()}
        return out

    def train(self):
        X, y = Plain.train(self)
        return self.enc(X), y

    def xnew(self, d, v=0):
        return self.enc(Fam.xnew(self, Plain.data(self, self.v)))

    def _user_splits(self):
        q, fixed = Fam._user_splits(Plain(self.s))
        if self.name in ("bin_cat", "cont_cat"):
            out = np.empty(len(q), dtype=object)
            for i, g in enumerate(q):
                out[i] = self.cat(g)
            return out, fixed
        return self.num(q), fixed

    def new(self):
        o = super().new()
        if "codes" in self.code and "cfg" not in self.s:
            for p in ("special_codes", "special_codes_x"):
                if hasattr(o, p):
                    setattr(o, p, self.codes(getattr(o, p)))
        return o

    def codes(self, c):
        if c is None:
            return None
        if isinstance(c, dict):
            return {k: self.codes(v) for k, v in c.items()}
        if isinstance(c, str):
            return "sonder"
        if isinstance(c, (int, float)):
            return {-9: -77}.get(c, c - 1e7)
        if isinstance(c, np.ndarray):
            return np.array([self.codes(v) for v in c.tolist()],
                            dtype=c.dtype)
        return [self.codes(v) for v in c]


# ---------------------------------------------------------------- answers --

TEXT = ("information", "report")


def canon(F, res, code, coded):
    """The answers, without what names the coding, in the plain coding."""
    labels = set(code) & {"scale", "shift", "categories", "codes"}
    # categories of the others bin with the same count have no order
    if F.name in ("bin_cat", "cont_cat", "process"):
        labels |= set(code) & {"shuffle"}
    back = F.back if coded else {}
    out = {}
    for k, r in res.items():
        base, _, tail = k.partition(":")
        if base in TEXT or (labels and k.startswith("transform:bins")):
            continue
        if tail in back:
            k = base + ":" + back[tail]
        if r[0] != "ok":
            out[k] = r[:2]
            continue
        out[k] = ("ok", value(F, base, r[1], code, coded, back, labels))
    return dict(sorted(out.items()))


def value(F, base, v, code, coded, back, labels):
    if base == "analysis":
        return {a: b for a, b in v.items() if a != "printed"}
    if base == "splits" and F.name != "monitor":
        return splits(F, v, code, coded)
    if isinstance(v, pd.DataFrame):
        v = v.rename(columns=back, index=back)
        for c in list(v):
            if str(c).startswith("Bin") and labels and base != "psi_table":
                v = v.drop(columns=c)
            elif v[c].dtype == object:
                v[c] = v[c].map(lambda a: back.get(a, a)
                                if isinstance(a, str) else a)
        return v
    if base == "names":
        return [str(back.get(a, a)) for a in v]
    if F.name == "monitor" and base == "splits":
        return np.asarray(v, dtype=float)
    return v


def splits(F, v, code, coded):
    if isinstance(v, str):
        return v
    out = []
    s, c = code.get("scale", 1.), code.get("shift", 0)
    for a in v:
        if isinstance(a, str):              # 2D
            out.append("" if set(code) & {"scale", "shift", "categories"}
                       else a)
        elif isinstance(a, list):
            g = [pre(F, x, code, coded) for x in a]
            out.append(sorted(g) if "shuffle" in code else g)
        elif isinstance(a, float):
            out.append(np.float64(a / s - c if coded else a))
        else:
            out.append(a)
    return out


def pre(F, x, code, coded):
    if not coded or "categories" not in code:
        return x
    if x.startswith("k_"):
        return x[2:]
    if F.name in FRAME:
        return x
    return str(int(x) - 10) if x.lstrip("-").isdigit() else x


# -------------------------------------------------------------- execution --

def execute(plan, ctx):
    random.seed(plan["seed"])
    np.random.seed(plan["seed"] % (1 << 31))
    code = plan["code"]
    A, B = Plain(plan["fam"]), Coded(plan["fam"], code)
    once = A.name in ("sketch", "psketch")
    ctx.probe(A.name)
    for k in code:
        ctx.probe(k)
    if "shift" in code:
        ctx.probe("shifted-user" if plan["fam"].get("user_splits")
                  else "shifted-cart")
    a, b = A.fresh(), B.fresh()
    v = None
    for op in plan["ops"]:
        ctx.tick()
        ctx.steps += 1
        k = op["op"]
        if k == "fit":
            if v is not None:
                ctx.probe("refit")
                ctx.nontrivial = True
            v = op["v"]
            if once:
                a, b = A.fresh(), B.fresh()
            ra = fit(ctx, A, a, v, op)
            rb = fit(None, B, b, v, op)
            ctx.event("fit", v, op["mode"], ra)
            ctx.check(ra == rb, "outcome-differs", lambda: (
                "%s: fit %s; in the other coding %s" % (A.name, ra, rb)))
            if ra != "ok":
                ctx.probe("refused")
                a, b, v = A.fresh(), B.fresh(), None
            continue
        if v is None:
            continue
        if k == "restore":
            a, b = pickle.loads(pickle.dumps((a, b)))
            ctx.fault("crash-restore")
            ctx.probe("restore")
            ctx.nontrivial = True
            continue
        B.v = v
        ga = canon(A, A.observe(a, A.data(v)), code, False)
        gb = canon(B, B.observe(b, B.data(v)), code, True)
        ctx.check(list(ga) == list(gb), "answers-differ", "other answers")
        for n in ga:
            ctx.check(agree(ga[n], gb[n]), "answers-differ", lambda: (
                "%s: %s is\n%s\nin the other coding (%s)\n%s" % (
                    A.name, n, ga[n], code, gb[n])))
        ctx.event("read", len(ga), digest(str(ga.get("status"))))
        ctx.state((A.name, tuple(sorted(code)), str(ga.get("status"))))


def agree(x, y):
    if x[0] != "ok" or y[0] != "ok":
        return x == y
    return veq(x[1], y[1], exact=False, rtol=1e-7)


def fit(ctx, F, o, v, op):
    d = F.data(v)
    with SolverSim(ctx, mode=op["mode"], k=op["k"], seed=op["sseed"],
                   mip_mode={"stop": "feasible"}.get(
                       op["mode"], op["mode"])).installed():
        try:
            F.fit(o, d)
        except Exception as e:
            if isinstance(e, INJECTED):
                raise
            return type(e).__name__
    if ctx is not None and op["mode"] != "full":
        ctx.probe("deadline")
        ctx.nontrivial = True
    return "ok"
