"""P08: what is loaded is what was saved, or the load fails."""

import os
import pickle

import numpy as np

from ..core import SimCrash, digest, pyrng
from ..disk import Disk
from ..families import Fam, first_diff, gen_fam, splits_of, outcome

ID = "P08"
TITLE = "what is loaded is what was saved, or the load fails"
LEVEL = "exploration"
N_QUICK = 500
RULE = ("one run = objects of one family fitted on different data, saved to "
        "and loaded from two files while disks fill up, fail, tear writes, "
        "return short reads and processes die; non-trivial when a fault "
        "struck; distinct by hash of the event log")
REAL = ["save/load, to_json/read_json, pickling of every family", "fits",
        "real files"]
STUB = ["disk faults and page cache behind open()", "process death"]
PROBES = ["json", "save-load", "pickle", "torn-file", "save-refused",
          "load-refused", "overwrite", "read-into-fitted", "json-again",
          "short-io", "bare-object"]
JSON = ["bin_num", "bin_num", "bin_cat", "bin_cat", "cont_num", "cont_num",
        "cont_cat", "cont_cat", "multi", "multi"]
FILE = ["process", "process", "scorecard", "scorecard"]
PICK = ["bin_num", "bin_cat", "cont_num", "cont_cat", "multi", "bin2d",
        "cont2d", "pw_bin", "pw_cont", "sb", "monitor", "sketch", "psketch"]
FAULTS = [None, None, None, "enospc", "eio", "short", "crash", "crash",
          "close", "open"]
RFAULTS = [None, None, None, "rshort", "rshort", "reio", "open"]


def generate(seed, tier="quick"):
    r = pyrng("p08", seed)
    how = r.choice(["json", "json", "json", "file", "file", "pickle"])
    fam = gen_fam(r, r.choice({"json": JSON, "file": FILE,
                               "pickle": PICK}[how]), small=True)
    ops = []
    for _ in range(r.randint(4, 12)):
        k = r.random()
        if k < .5:
            ops.append({"op": "save", "v": r.randrange(3),
                        "slot": r.randrange(2), "kind": r.choice(FAULTS),
                        "at": r.choice([0, 0, 0, 1, 2])})
        else:
            ops.append({"op": "load", "slot": r.randrange(2),
                        "into": r.choice([None, 0, 1, 2]),
                        "bare": r.random() < .5,
                        "kind": r.choice(RFAULTS),
                        "at": r.choice([0, 0, 1])})
    ops.append({"op": "load", "slot": 0, "into": None, "kind": None, "at": 0})
    return {"fam": fam, "how": how, "ops": ops}


class Store:
    def __init__(self, ctx, plan):
        self.F = Fam(plan["fam"])
        self.how = plan["how"]
        self.objs, self.obs, self.data = {}, {}, {}

    def fitted(self, v):
        """A fresh fitted object of version v, or None when refused."""
        if v not in self.objs:
            F = self.F
            d = F.data(v)
            o = F.new()
            try:
                F.fit(o, d)
                b = pickle.dumps(o)
            except Exception:          # whether a fit succeeds: not here
                b = None
            self.objs[v] = b
            if b is not None:
                self.obs[v] = self.answers(o)
        b = self.objs[v]
        return None if b is None else pickle.loads(b)

    def questions(self):
        if "q" not in self.data:
            self.data["q"] = self.F.data(1)
        return self.data["q"]

    def answers(self, o):
        F = self.F
        d = self.questions()
        if self.how != "json":
            return F.observe(o, d)
        res = {}
        x = d["x"]
        for m in F.metrics():
            for mm in (0, "empirical"):
                kw = {} if m is None else {"metric": m}
                a = outcome(lambda: o.transform(
                    x, metric_missing=mm, metric_special=mm, **kw))
                if m == "bins" and a[0] == "ok":
                    a = ("ok", [plain(i) for i in a[1]])
                res["transform %s %s" % (m, mm)] = a
        t = outcome(lambda: o.binning_table.build())
        if t[0] == "ok":
            t = t[1].reset_index(drop=True)
            res["bins"] = [plain(i) for i in t["Bin"]]
            t = ("ok", t.drop(columns="Bin").astype(object))
        res["table"] = t
        res["splits"] = plain(splits_of(o))
        return res

    def save(self, o, path):
        if self.how == "json":
            o.to_json(path)
        elif self.how == "file":
            o.save(path)
        else:
            with open(path, "wb") as f:
                pickle.dump(o, f)

    def load(self, into, path):
        if self.how == "json":
            into.read_json(path)
            return into
        if self.how == "file":
            return type(into).load(path)
        with open(path, "rb") as f:
            return pickle.load(f)


def plain(s):
    """Labels without the name of the string or number type in them."""
    s = str(s)
    for t in ("np.str_(", "np.int64(", "np.float64("):
        if t in s:
            s = s.replace(t, "").replace(")", "")
    return s


def execute(plan, ctx):
    S = Store(ctx, plan)
    disk = Disk(ctx, ctx.scratch, plan["seed"])
    # per file: versions it may hold, and whether it may be unreadable
    state = [(set(), True), (set(), True)]
    path = [os.path.join(ctx.scratch, n) for n in ("one.sav", "two.sav")]
    ctx.event("family", S.F.name, S.how)
    with disk.installed():
        for op in plan["ops"]:
            ctx.tick()
            ctx.steps += 1
            i = op["slot"]
            if op["op"] == "save":
                o = S.fitted(op["v"])
                if o is None:
                    continue
                save(ctx, S, disk, o, op, path[i], state)
            else:
                load(ctx, S, disk, op, path[i], state[i])


def save(ctx, S, disk, o, op, path, state):
    i, v = op["slot"], op["v"]
    ctx.probe({"json": "json", "file": "save-load",
               "pickle": "pickle"}[S.how])
    if os.path.exists(path):
        ctx.probe("overwrite")
    disk.arm(op["kind"], op["at"])
    err = None
    try:
        S.save(o, path)
    except SimCrash as e:
        err = e
    except OSError as e:
        err = e
    except Exception as e:
        disk.arm()
        ctx.check(False, "save-failed", "saving raised %s: %s" % (
            type(e).__name__, str(e)[:200]))
    fired = disk.fired
    disk.arm()
    ctx.event("save", v, i, type(err).__name__)
    if op["kind"] == "short" and fired:
        ctx.probe("short-io")
    if fired and op["kind"] != "short":
        ctx.check(err is not None, "silent-save-failure",
                  "the %s fault struck and save() returned" % op["kind"])
        ctx.probe("save-refused")
        if op["kind"] == "open":
            return                    # nothing was written
        state[i] = (state[i][0] | {v}, True)
        if isinstance(err, SimCrash):
            ctx.probe("torn-file")
            return
    else:
        ctx.check(err is None, "save-failed", lambda: "saving failed with no "
                  "fault: %s" % err)
        state[i] = ({v}, False)
    k = first_diff(S.obs[v], S.answers(o))
    ctx.check(k is None, "save-changes-object",
              "after saving, the object answers %r differently" % k)


def load(ctx, S, disk, op, path, st):
    may, broken = st
    base = None
    if op["into"] is not None:
        into = S.fitted(op["into"])
        if into is None:
            return
        base = S.obs[op["into"]]
        ctx.probe("read-into-fitted")
    else:
        into = S.F.new()
        if S.how == "json" and op.get("bare") and \
                getattr(into, "cat_unknown", None) is None:
            into = type(into)()
            ctx.probe("bare-object")
    disk.arm(op["kind"], op["at"])
    err = got = None
    try:
        got = S.load(into, path)
    except Exception as e:
        err = e
    fired = disk.fired
    disk.arm()
    ctx.event("load", op["slot"], type(err).__name__)
    if err is not None:
        ctx.probe("load-refused")
        ctx.check(broken or fired and op["kind"] != "rshort", "load-failed",
                  lambda: "loading a complete file raised %s: %s" % (
                      type(err).__name__, str(err)[:200]))
        # the object that was to be overwritten still answers as before
        if base is not None:
            k = first_diff(base, S.answers(into))
            ctx.check(k is None, "failed-load-changes-object", lambda: (
                "after a failed load (%s) the object answers %r "
                "differently" % (type(err).__name__, k)))
        return
    if fired and op["kind"] == "rshort":
        ctx.probe("short-io")
    ctx.check(not (fired and op["kind"] in ("reio", "open")),
              "silent-load-failure", "a read error was swallowed")
    a = S.answers(got)
    ctx.event("answers", digest(str(sorted(a))))
    diffs = {v: first_diff(S.obs[v], a) for v in sorted(may)}
    ctx.check(any(k is None for k in diffs.values()), "wrong-object",
              lambda: "the loaded object differs from every version saved "
              "there: %s" % {v: describe(S.obs[v], a, k)
                             for v, k in diffs.items()})
    if S.how == "json":
        p2 = path + ".again"
        got.to_json(p2)
        with open(path, "rb") as f, open(p2, "rb") as g:
            ctx.check(f.read() == g.read(), "json-not-idempotent",
                      "saving the loaded object gives another file")
        ctx.probe("json-again")


def describe(a, b, k):
    if k is None:
        return "same"
    if k == "keys":
        return "keys"
    return "%s: saved %s, loaded %s" % (k, str(a[k])[:200], str(b[k])[:200])
