"""Streaming sketches: adapters, exact reference, and a simulated cluster."""

import copy
import pickle
import random

import numpy as np

from .core import HarnessError, nprng
from .gen import CATS, binary, numeric, poison, risk
from .net import Node, World

SPEC_NUM = [-999.0, -998.0]
SPEC_CAT = ["SPEC", "OTHERSPEC"]


# ------------------------------------------------------------------- data ---

def batch(spec):
    """One batch {x, y}; kind num or cat; may be empty of one class."""
    rng = nprng("batch", spec["seed"])
    n = spec["n"]
    if spec["kind"] == "cat":
        k = spec.get("k", 6)
        base = np.random.Generator(np.random.PCG64(spec.get("pop", 0)))
        rate = base.permutation(np.linspace(-1.5, 1.5, k))
        wts = base.dirichlet(np.full(k, 0.7 + spec.get("pop", 0) % 3))
        idx = rng.choice(k, n, p=wts)
        lo = spec.get("lo", 0)
        idx = np.maximum(idx, lo)
        x = np.array(CATS[:k], dtype=object)[idx]
        y = binary(rng, rate[idx])
        x = np.array(x, dtype=object)
        if spec.get("special"):
            m = rng.random(n) < spec["special"]
            x[m] = rng.choice(np.array(SPEC_CAT, dtype=object), m.sum())
        if spec.get("missing"):
            x[rng.random(n) < spec["missing"]] = None
    else:
        x = numeric(rng, n, spec.get("dist", "normal"))
        y = binary(rng, risk(x, spec.get("shape", "up")))
        x = poison(rng, x, spec.get("missing", 0), spec.get("special", 0),
                   SPEC_NUM)
    cls = spec.get("only")
    if cls is not None:
        y = np.full(n, cls, dtype=np.int64)
    order = spec.get("order")
    if order == "sorted" and spec["kind"] != "cat":
        o = np.argsort(x, kind="stable")
        x, y = x[o], y[o]
    elif order == "reverse" and spec["kind"] != "cat":
        o = np.argsort(-x, kind="stable")
        x, y = x[o], y[o]
    return x, y


def gen_batch_spec(r, kind, nmax=120, n=None):
    s = {"kind": kind, "seed": r.randrange(1 << 40),
         "n": n if n is not None else r.choice(
             [1, 2, 3, r.randint(4, 20), r.randint(20, nmax),
              r.randint(20, nmax)]),
         "missing": r.choice([0, 0, 0.1, 0.3, 1.0 if r.random() < .1 else 0]),
         "special": r.choice([0, 0, 0.1, 0.3, 1.0 if r.random() < .1 else 0])}
    if r.random() < 0.1:
        s["only"] = r.choice([0, 1])
    if kind == "cat":
        s["k"] = r.randint(3, 8)
        s["lo"] = r.choice([0, 0, 2])
    else:
        s["dist"] = r.choice(["uniform", "normal", "ints", "halves", "exp",
                              "spike"])
        s["shape"] = r.choice(["up", "down", "peak", "wave", "flat"])
        s["order"] = r.choice([None, None, None, "sorted", "reverse"])
    return s


class Ref:
    """Exact multiset of records."""

    def __init__(self):
        self.parts = []          # (x, y)

    def add(self, x, y):
        self.parts.append((x, y))

    def merge(self, o):
        self.parts.extend(o.parts)

    def copy(self):
        r = Ref()
        r.parts = list(self.parts)
        return r

    def data(self):
        if not self.parts:
            return np.array([]), np.array([])
        x = np.concatenate([p[0] for p in self.parts])
        y = np.concatenate([p[1] for p in self.parts])
        return x, y


def is_missing(x):
    if x.dtype == object:
        return np.array([v is None or v != v for v in x], dtype=bool) \
            if len(x) else np.zeros(0, dtype=bool)
    return np.isnan(x)


def ref_counts(x, y, specials):
    """{total, event, nonevent, missing, special} as exact numbers."""
    m = is_missing(x)
    s = np.zeros(len(x), dtype=bool)
    if specials:
        for c in specials:
            s |= np.array([v == c for v in x], dtype=bool) if len(x) else s
    s &= ~m
    c = ~(m | s)
    return {"n": len(y), "e": int((y == 1).sum()), "ne": int((y == 0).sum()),
            "miss": [int((y[m] == 0).sum()), int((y[m] == 1).sum())],
            "spec": [int((y[s] == 0).sum()), int((y[s] == 1).sum())],
            "x": x[c], "y": y[c]}


def table_of(obj):
    """(bins, special, missing, totals) of a solved object, through its
    public table.  Each entry is (nonevent, event)."""
    df = obj.binning_table.build()
    ev = df["Event"].to_numpy()
    ne = df["Non-event"].to_numpy()
    cnt = df["Count"].to_numpy()
    rows = [(int(ne[i]), int(ev[i]), int(cnt[i])) for i in range(len(df))]
    return rows[:-3], rows[-3], rows[-2], rows[-1], df


def count_bins(splits, x, y):
    """Half-open bins (-inf, s1), [s1, s2), ... as the table labels them."""
    k = np.searchsorted(np.asarray(splits, dtype=float), x, side="right")
    nb = len(splits) + 1
    e = np.bincount(k[y == 1], minlength=nb)
    ne = np.bincount(k[y == 0], minlength=nb)
    return [(int(a), int(b)) for a, b in zip(ne, e)]


# --------------------------------------------------------------- adapters ---

class Kind:
    """One kind of mergeable object under test."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.cat = cfg["obj"].endswith("cat")
        self.specials = (SPEC_CAT if self.cat else SPEC_NUM) \
            if cfg.get("codes") else None
        self.raw = cfg["obj"] in ("bnum", "bcat")

    def new(self, **over):
        from optbinning import OptimalBinningSketch
        from optbinning.binning.distributed.bsketch import (BCatSketch,
                                                            BSketch)
        c = self.cfg
        codes = list(self.specials) if self.specials else None
        if codes and c.get("np_codes"):
            codes = np.array(codes, dtype=object if self.cat else float)
        if c["obj"] == "bnum":
            return BSketch(sketch=c["sketch"], eps=c["eps"], K=25,
                           special_codes=codes)
        if c["obj"] == "bcat":
            return BCatSketch(c.get("cat_cutoff"), codes)
        kw = dict(name="v", dtype="categorical" if self.cat else "numerical",
                  sketch=c["sketch"], eps=c["eps"],
                  max_n_prebins=c.get("prebins", 8), special_codes=codes,
                  monotonic_trend=c.get("trend", "auto"),
                  cat_cutoff=c.get("cat_cutoff"),
                  cat_heuristic=bool(c.get("cat_heuristic", False)),
                  divergence=c.get("divergence", "iv"))
        if c.get("max_n_bins"):
            kw["max_n_bins"] = c["max_n_bins"]
        kw.update(over)
        return OptimalBinningSketch(**kw)

    def solvable(self, rc):
        """Both classes among the clean records (the code's documented
        domain)."""
        return len(rc["y"]) > 1 and rc["y"].min() == 0 and rc["y"].max() == 1

    # ------------------------------------------------------------ oracles --
    def check_counts(self, ctx, obj, ref, where):
        """Totals; exact whatever the error parameter."""
        rc = ref_counts(*ref.data(), self.specials)
        inner = obj if self.raw else getattr(obj, "_bsketch", None)
        if inner is not None and hasattr(inner, "n_event"):
            got = (int(inner.n), int(inner.n_event), int(inner.n_nonevent))
            want = (rc["n"], rc["e"], rc["ne"])
            ctx.check(got == want, "lost-or-invented-records",
                      lambda: "%s: (n, event, nonevent)=%s, fed %s" % (
                          where, got, want))
        return rc

    def check_bins(self, ctx, obj, rc, where, rng, slack=0.0):
        """Counts per bin at random split points against brute force."""
        if not self.raw:
            return
        if self.cat:
            sp, cats, ne, e, others, one, oe = obj.bins()
            got = {c: (int(a), int(b)) for c, a, b in zip(cats, ne, e)}
            want = cat_counts(rc)
            if len(others):
                wo = [want.pop(o) for o in others]
                tot = (sum(a for a, _ in wo), sum(b for _, b in wo))
                ctx.check((int(one), int(oe)) == tot, "others-counts",
                          lambda: "%s: others %s want %s" % (
                              where, (one, oe), tot))
            ctx.check(got == want, "category-counts",
                      lambda: "%s: got %s want %s" % (where, got, want))
            rate = [b / (a + b) for a, b in zip(ne, e)]
            ctx.check(all(rate[i] <= rate[i + 1] + 1e-12
                          for i in range(len(rate) - 1)), "category-order",
                      "%s: categories not ordered by event rate" % where)
            return
        if len(rc["x"]) == 0:
            return
        k = int(rng.integers(1, 7))
        vals = rc["x"]
        sp = np.unique(np.concatenate([
            rng.choice(vals, k), rng.uniform(vals.min(), vals.max(), 2)]))
        e, ne = obj.bins(sp)
        got = [(int(a), int(b)) for a, b in zip(ne, e)]
        want = count_bins(sp, rc["x"], rc["y"])
        tot = (sum(a for a, _ in got), sum(b for _, b in got))
        wtot = (sum(a for a, _ in want), sum(b for _, b in want))
        ctx.check(tot == wtot, "bins-do-not-add-up",
                  lambda: "%s: bins %s add to %s, %s records fed" % (
                      where, got, tot, wtot))
        if slack == 0:
            ctx.check(got == want, "bin-counts",
                      lambda: "%s: splits %s got %s want %s" % (
                          where, sp.tolist(), got, want))
        else:
            self.check_cumulative(ctx, got, want, slack, where)

    def check_cumulative(self, ctx, got, want, eps, where):
        for j, name in ((0, "nonevent"), (1, "event")):
            g = np.cumsum([a[j] for a in got])
            w = np.cumsum([a[j] for a in want])
            n = w[-1] if len(w) else 0
            lim = 6.0 * eps * n + 2
            err = int(np.max(np.abs(g - w))) if len(w) else 0
            ctx.check(err <= lim, "rank-error",
                      lambda: "%s: %s records misplaced among %d %s, limit "
                      "%.1f (eps=%g)" % (where, err, n, name, lim, eps))

    def check_table(self, ctx, obj, rc, where, exact=True, eps=0.0):
        """A solved object's table against the records it was fed."""
        bins, sp, ms, tot, df = table_of(obj)
        ctx.check(tot[:2] == (rc["ne"], rc["e"]) and tot[2] == rc["n"],
                  "table-totals", lambda: "%s: table totals %s, fed %s" % (
                      where, tot, (rc["ne"], rc["e"], rc["n"])))
        ctx.check(list(sp[:2]) == rc["spec"], "table-special",
                  lambda: "%s: Special row %s, fed %s" % (where, sp[:2],
                                                          rc["spec"]))
        ctx.check(list(ms[:2]) == rc["miss"], "table-missing",
                  lambda: "%s: Missing row %s, fed %s" % (where, ms[:2],
                                                          rc["miss"]))
        ctx.check(all(a + b == c for a, b, c in bins + [sp, ms, tot]),
                  "table-count-column", "%s: Count != Event+Non-event" % where)
        if self.cat:
            want = cat_counts(rc)
            groups = [list(g) for g in obj.splits]
            gi = [(sum(want.get(c, (0, 0))[0] for c in g),
                   sum(want.get(c, (0, 0))[1] for c in g)) for g in groups]
            got = [b[:2] for b in bins]
            if len(gi) == len(got):
                ctx.check(gi == got, "table-category-bins",
                          lambda: "%s: groups %s got %s want %s" % (
                              where, groups, got, gi))
            seen = [c for g in groups for c in g]
            ctx.check(len(seen) == len(set(seen)) and
                      set(want) <= set(seen), "category-coverage",
                      lambda: "%s: groups %s for categories %s" % (
                          where, groups, sorted(want)))
        else:
            splits = np.asarray(obj.splits, dtype=float)
            ctx.check(bool(np.all(np.diff(splits) > 0)), "splits-order",
                      lambda: "%s: splits %s" % (where, splits))
            want = count_bins(splits, rc["x"], rc["y"])
            got = [b[:2] for b in bins]
            if exact:
                ctx.check(got == want, "table-bins",
                          lambda: "%s: splits %s got %s want %s" % (
                              where, splits.tolist(), got, want))
            else:
                self.check_cumulative(ctx, got, want, eps, where)
        return df


def cat_counts(rc):
    d = {}
    for v, t in zip(rc["x"], rc["y"]):
        a, b = d.get(v, (0, 0))
        d[v] = (a + (t == 0), b + (t == 1))
    return {k: (int(a), int(b)) for k, (a, b) in d.items()}


# ---------------------------------------------------------------- cluster ---

class Agg(Node):
    """Merges shards from below; durable before it acknowledges."""

    def __init__(self, name, parent, cl):
        super().__init__(name)
        self.parent = parent
        self.cl = cl
        self.disk = {"acc": self.freeze(cl.kind.new(), Ref()), "seen": (),
                     "outbox": {}, "no": 0, "n": 0}
        self.load()

    def freeze(self, obj, ref):
        return (pickle.dumps(obj), ref.copy())

    def load(self):
        b, ref = self.disk["acc"]
        self.obj = pickle.loads(b)
        self.ref = ref.copy()
        self.seen = set(self.disk["seen"])
        self.n = self.disk["n"]
        self.toack = []

    def restart(self):
        self.load()
        self.start()

    def start(self):
        if self.parent:
            self.timer(self.cl.flush_every, self.flush)
            self.timer(1.0, self.retry)

    def receive(self, src, msg):
        what, sid = msg[0], msg[1]
        if what == "ack":
            self.disk["outbox"].pop(sid, None)
            return
        if sid in self.seen:
            self.cl.ctx.probe("duplicate-shard-dropped")
            if sid in self.disk["seen"]:
                self.world.send(self.name, src, ("ack", sid))
            return
        other = pickle.loads(msg[2])
        self.cl.merge(self, other, msg[3])
        self.seen.add(sid)
        self.n += 1
        self.toack.append((src, sid))
        if len(self.toack) == 1:
            self.timer(self.cl.commit_delay, self.commit)

    def commit(self):
        """Group commit, then acknowledge."""
        self.disk["acc"] = self.freeze(self.obj, self.ref)
        self.disk["seen"] = tuple(sorted(self.seen))
        self.disk["n"] = self.n
        for src, sid in self.toack:
            self.world.send(self.name, src, ("ack", sid))
        self.toack = []

    def flush(self):
        """Close the accumulator as a shard for the parent."""
        if self.n and not self.toack:
            sid = "%s#%d" % (self.name, self.disk["no"])
            self.disk["no"] += 1
            self.disk["outbox"][sid] = self.freeze(self.obj, self.ref)
            self.obj, self.ref, self.n = self.cl.kind.new(), Ref(), 0
            self.disk["acc"] = self.freeze(self.obj, self.ref)
            self.disk["n"] = 0
            self.ship(sid)
        self.timer(self.cl.flush_every, self.flush)

    def ship(self, sid):
        b, ref = self.disk["outbox"][sid]
        self.world.send(self.name, self.parent, ("shard", sid, b, ref))

    def retry(self):
        for sid in sorted(self.disk["outbox"]):
            self.ship(sid)
        self.timer(4.0, self.retry)


class Worker(Agg):
    """Reads its own partition of the input log and adds batches."""

    def __init__(self, name, parent, cl, log):
        self.log = log
        super().__init__(name, parent, cl)
        self.disk["off"] = 0
        self.off = 0

    def load(self):
        super().load()
        self.off = self.disk.get("off", 0)

    def start(self):
        self.timer(self.world.rng.uniform(0.1, 1.0), self.step)
        self.timer(1.0, self.retry)

    def step(self):
        if self.off < len(self.log):
            self.cl.add(self, self.log[self.off])
            self.off += 1
            self.n += 1
            if self.world.rng.random() < 0.5:
                self.checkpoint()
        if self.off and (self.off % self.cl.shard_len == 0 or
                         self.off == len(self.log)) and self.n:
            self.close()
        if self.off < len(self.log):
            self.timer(self.world.rng.uniform(0.1, 1.0), self.step)

    def checkpoint(self):
        self.disk["acc"] = self.freeze(self.obj, self.ref)
        self.disk["off"] = self.off
        self.disk["n"] = self.n

    def close(self):
        sid = "%s#%d" % (self.name, self.disk["no"])
        self.disk["no"] += 1
        self.disk["outbox"][sid] = self.freeze(self.obj, self.ref)
        self.obj, self.ref, self.n = self.cl.kind.new(), Ref(), 0
        self.checkpoint()
        self.ship(sid)


class Cluster:
    def __init__(self, plan, ctx, kind, on_add=None, on_merge=None):
        self.plan, self.ctx, self.kind = plan, ctx, kind
        self.on_add, self.on_merge = on_add, on_merge
        c = plan["cluster"]
        self.shard_len = c["shard_len"]
        self.flush_every = c["flush_every"]
        self.commit_delay = c["commit_delay"]
        self.world = World(ctx, c["seed"], c["net"])
        nw = c["workers"]
        logs = [[] for _ in range(nw)]
        for op in plan["ops"]:
            if op["op"] == "batch":
                logs[op["w"] % nw].append(op["spec"])
        self.root = Agg("root", None, self)
        self.world.add(self.root)
        mids = []
        for i in range(c["mids"]):
            a = Agg("mid%d" % i, "root", self)
            mids.append(a.name)
            self.world.add(a)
        self.workers = []
        for i in range(nw):
            par = mids[i % len(mids)] if mids else "root"
            w = Worker("w%d" % i, par, self, logs[i])
            self.workers.append(w)
            self.world.add(w)
        self.all = Ref()
        for lg in logs:
            for s in lg:
                self.all.add(*self.fetch(s))
        for op in plan["ops"]:
            if op["op"] == "crash":
                names = sorted(self.world.nodes)
                self.world.at(op["t"], self.world.crash,
                              names[op["node"] % len(names)], op["down"])
            elif op["op"] == "cut":
                names = sorted(self.world.nodes)
                w = names[op["node"] % len(names)]
                p = self.world.nodes[w].parent
                if p:
                    self.world.at(op["t"], self.world.partition, w, p,
                                  op["dur"])
        for n in sorted(self.world.nodes):
            self.world.nodes[n].start()

    def fetch(self, spec):
        return batch(spec)

    def feed(self, obj, x, y):
        obj.add(x, y)

    def add(self, node, spec):
        x, y = self.fetch(spec)
        self.feed(node.obj, x, y)
        node.ref.add(x, y)
        if self.on_add:
            self.on_add(node)

    def merge(self, node, other, ref):
        node.obj.merge(other)
        node.ref.merge(ref)
        if self.on_merge:
            self.on_merge(node, other, ref)

    def finished(self):
        return (len(self.root.ref.parts) == len(self.all.parts) and
                not self.root.toack and self.root.up)

    def run(self):
        ok = self.world.run(self.finished)
        if not ok:
            raise HarnessError("simulated cluster did not drain")
        return self.root


def gen_cluster(r, workers=None):
    return {"seed": r.randrange(1 << 40),
            "workers": workers or r.randint(2, 5), "mids": r.choice([0, 0, 2]),
            "shard_len": r.randint(1, 4), "flush_every": r.uniform(3, 12),
            "commit_delay": r.choice([0.0, 0.0, 0.5, 3.0]),
            "net": {"drop": r.choice([0, 0.1, 0.3]),
                    "dup": r.choice([0, 0.1, 0.4]),
                    "delay": r.choice([[0.1, 1.0], [0.5, 6.0]]),
                    "until": 120.0}}


def gen_ops(r, kind, nb, workers, nmax=120, pop=0, k=6, dist=None,
            shape=None):
    ops = []
    for i in range(nb):
        s = gen_batch_spec(r, kind, nmax)
        if kind == "cat":
            s["pop"] = pop
            s["k"] = k
        else:
            if dist:
                s["dist"] = dist
            if shape:
                s["shape"] = shape
        ops.append({"op": "batch", "w": r.randrange(workers), "spec": s})
    for _ in range(r.choice([0, 1, 2, 4])):
        ops.append({"op": "crash", "t": round(r.uniform(0.5, 40), 3),
                    "node": r.randrange(16),
                    "down": round(r.uniform(0.5, 10), 3)})
    for _ in range(r.choice([0, 0, 1, 2])):
        ops.append({"op": "cut", "t": round(r.uniform(0, 30), 3),
                    "node": r.randrange(16),
                    "dur": round(r.uniform(1, 20), 3)})
    return ops
