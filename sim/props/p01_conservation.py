"""No record is lost, duplicated or invented by streaming sketches."""

import random

from ..core import digest, nprng, pyrng
from ..stream import Cluster, Kind, gen_cluster, gen_ops

ID = "P01"
TITLE = "streaming sketches conserve every record under faulty delivery"
LEVEL = "exploration"
N_QUICK = 420
RULE = ("one run = one simulated cluster (2-5 workers, optional mid "
        "aggregators, root) delivering generated batches under a seeded "
        "fault schedule; non-trivial when at least one fault fired; distinct "
        "by hash of the whole event log")
REAL = ["OptimalBinningSketch", "BSketch", "BCatSketch", "GK", "tdigest",
        "OR-Tools solver", "pickle of sketches"]
STUB = ["network", "node disk (pickled checkpoints)", "input log",
        "delivery protocol (dedupe, ack after commit)"]
PROBES = ["duplicate-shard-dropped", "solved-final", "solved-midway"]
ASSUMPTIONS = ["the delivery protocol around the sketches is the simulator's "
               "(exactly-once merge, ack after durable commit)"]


def generate(seed, tier="quick"):
    r = pyrng("p01", seed)
    obj = r.choice(["bnum", "bnum", "bcat", "onum", "onum", "ocat"])
    kind = "cat" if obj.endswith("cat") else "num"
    cfg = {"obj": obj, "sketch": r.choice(["gk", "gk", "gk", "t-digest"]),
           "np_codes": r.random() < 0.3, "eps": r.choice([1e-4, 1e-3, 0.01, 0.05]),
           "codes": r.random() < 0.7, "prebins": r.choice([4, 8, 12]),
           "cat_cutoff": r.choice([None, None, 0.08])
           if kind == "cat" else None,
           "trend": r.choice(["auto", "auto_asc_desc", None, "ascending"])}
    if cfg["sketch"] == "t-digest":
        cfg["eps"] = r.choice([1e-3, 0.01])
    cl = gen_cluster(r)
    return {"cfg": cfg, "cluster": cl,
            "ops": gen_ops(r, kind, r.randint(3, 14), cl["workers"],
                           nmax=60 if cfg["sketch"] == "t-digest" else 160,
                           pop=r.randrange(1000), k=r.choice([3, 5, 8, 12, 20]))}


def execute(plan, ctx):
    random.seed(plan["seed"])
    kind = Kind(plan["cfg"])
    rng = nprng("p01x", plan["seed"])

    def on_add(node):
        kind.check_counts(ctx, node.obj, node.ref, "%s after add" % node.name)

    def on_merge(node, other, oref):
        kind.check_counts(ctx, node.obj, node.ref,
                          "%s after merge" % node.name)
        kind.check_counts(ctx, other, oref,
                          "%s: the merged-in sketch" % node.name)
        if node.name == "root" and rng.random() < 0.15:
            look(node, "midway")

    def look(node, tag):
        """Solve a copy and read its table (read on a copy: solving itself
        is P04's business)."""
        import copy
        rc = kind.check_counts(ctx, node.obj, node.ref, "%s %s" % (
            node.name, tag))
        o = copy.deepcopy(node.obj)
        if kind.raw:
            kind.check_bins(ctx, o, rc, "%s %s" % (node.name, tag), rng,
                            slack=exactness(plan["cfg"], rc))
        elif kind.solvable(rc):
            ctx.must("solve", o.solve)
            ctx.probe("solved-" + tag)
            df = kind.check_table(ctx, o, rc, "%s %s" % (node.name, tag),
                                  exact=False, eps=1.0)
            ctx.event("table", digest(df["Count"].to_numpy()))
        ctx.state(digest([rc["n"], rc["e"], rc["miss"], rc["spec"]]))

    cl = Cluster(plan, ctx, kind, on_add, on_merge)
    root = cl.run()
    # everything that entered the system is in the root, once
    ref = cl.all
    kind.check_counts(ctx, root.obj, ref, "root at the end")
    look(root, "final")


def exactness(cfg, rc):
    return 1.0          # totals only; positions are P02's business
