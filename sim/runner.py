"""Command line of the simulator: checks, replays, minimisation, evidence."""

import importlib
import json
import os
import pickle
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from .core import (Ctx, HarnessError, INJECTED, Violation, derive, from_repo,
                   innermost_frames)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")
REAL_TIME = time.time
RUN_CAP_S = 120


def load(prop):
    d = os.path.join(VERIF, "sim", "props")
    for f in sorted(os.listdir(d)):
        if f.lower().startswith(prop.lower()) and f.endswith(".py"):
            return importlib.import_module("sim.props." + f[:-3])
    raise SystemExit("no such property: %s" % prop)


def all_props():
    d = os.path.join(VERIF, "sim", "props")
    return sorted(f[:3].upper() for f in os.listdir(d)
                  if f.startswith("p") and f.endswith(".py"))


def known_findings(prop):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in data.get("findings", []) if e["property"] == prop
            and e.get("kind") == "known"]


def warm(mod):
    """Imports shared by every run, done once before forking."""
    from .sched import patch_locks
    patch_locks()
    import optbinning                                       # noqa: F401
    import optbinning.scorecard                             # noqa: F401
    import optbinning.binning.distributed                   # noqa: F401
    if hasattr(mod, "warmup"):
        mod.warmup()


# ---------------------------------------------------------------- one run ---

def execute(mod, plan, keep_events=False):
    """Run one plan in this process; returns a plain result dict."""
    scratch = tempfile.mkdtemp(prefix="simv-", dir=scratch_base())
    ctx = Ctx(mod.ID, plan.get("seed", 0), scratch, keep_events)
    t0 = time.perf_counter()
    res = {"status": "ok"}
    old = os.getcwd()
    try:
        os.chdir(scratch)
        try:
            if getattr(mod, "OWN_SOLVER", False):
                mod.execute(plan, ctx)
            else:
                from .solver import SolverSim
                with SolverSim(ctx, seed=7).installed():
                    mod.execute(plan, ctx)
        finally:
            os.chdir(old)
    except Violation as v:
        res = {"status": "violation", "cls": v.cls, "msg": v.msg,
               "key": v.key}
    except HarnessError as e:
        res = {"status": "harness", "msg": "HarnessError: %s" % e,
               "tb": traceback.format_exc()}
    except _Alarm:
        raise
    except BaseException as e:
        if isinstance(e, Exception) and not isinstance(e, INJECTED) \
                and from_repo(e):
            fr = innermost_frames(e, 8)
            where = [a for a in fr if "/optbinning/" in a]
            res = {"status": "violation", "cls": "unexpected-exception",
                   "msg": "%s: %s at %s" % (type(e).__name__, str(e)[:300],
                                            where[-1] if where else fr[-1]),
                   "key": "unexpected-exception:%s" % type(e).__name__}
        else:
            res = {"status": "harness", "msg": "%s: %s" % (
                type(e).__name__, e), "tb": traceback.format_exc()}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    res.update(trace=ctx.trace_hash(), events=ctx.n_events, evals=ctx.evals,
               faults=ctx.faults, probes=ctx.probes, sim_time=ctx.sim_time,
               steps=ctx.steps, nontrivial=ctx.nontrivial,
               states=sorted(ctx.state_digests)[:64],
               wall=time.perf_counter() - t0)
    if keep_events:
        res["log"] = ctx.events
    return res


_BASE = [None]


def scratch_base():
    return _BASE[0]


class _Alarm(BaseException):
    pass


def _on_alarm(*a):
    raise _Alarm("run exceeded %d s" % RUN_CAP_S)


def hung(msg):
    """A run takes seconds; one that never ends makes no progress."""
    return {"status": "violation", "cls": "no-progress", "msg": msg,
            "key": "no-progress", "trace": "hung", "events": 0, "evals": 0,
            "faults": {}, "probes": {}, "sim_time": 0, "steps": 0,
            "nontrivial": False, "states": [], "wall": RUN_CAP_S, "log": []}


def child(mod, plan, wfd, keep_events=False):
    try:
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.alarm(RUN_CAP_S)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("SIM_DEBUG"):
            os.dup2(devnull, 2)
        res = execute(mod, plan, keep_events)
        signal.alarm(0)
        data = pickle.dumps(res)
    except _Alarm as e:
        data = pickle.dumps(hung(str(e)))
    except BaseException as e:
        data = pickle.dumps({"status": "harness", "msg": repr(e),
                             "tb": traceback.format_exc()})
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


class Forks:
    """Runs each plan in a fresh fork of this process."""

    def __init__(self, mod, n):
        self.mod, self.n = mod, n
        self.live = {}

    def start(self, tag, plan, keep_events=False):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            child(self.mod, plan, w, keep_events)
        os.close(w)
        self.live[r] = [pid, tag, b"", time.monotonic()]

    def full(self):
        return len(self.live) >= self.n

    def poll(self, timeout=1.0):
        done = []
        if not self.live:
            return done
        rd, _, _ = select.select(list(self.live), [], [], timeout)
        for fd in rd:
            b = os.read(fd, 1 << 20)
            if b:
                self.live[fd][2] += b
            else:
                pid, tag, data, _ = self.live.pop(fd)
                os.close(fd)
                _, st = os.waitpid(pid, 0)
                try:
                    res = pickle.loads(data)
                except Exception:
                    res = {"status": "harness",
                           "msg": "run process died, wait status %d" % st}
                done.append((tag, res))
        now = time.monotonic()
        for fd in list(self.live):
            pid, tag, data, t0 = self.live[fd]
            if now - t0 > RUN_CAP_S + 20:
                os.kill(pid, signal.SIGKILL)
                self.live.pop(fd)
                os.close(fd)
                os.waitpid(pid, 0)
                done.append((tag, hung("run killed after %d s" %
                                       (RUN_CAP_S + 20))))
        return done

    def kill(self):
        for fd in list(self.live):
            pid = self.live.pop(fd)[0]
            os.close(fd)
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass


def isolated(mod, plan, keep_events=False):
    f = Forks(mod, 1)
    f.start(0, plan, keep_events)
    while True:
        d = f.poll(5)
        if d:
            return d[0][1]


def plan_for(mod, vseed, i, tier="quick"):
    s = derive(vseed, mod.ID, i)
    plan = mod.generate(s, tier) if mod.generate.__code__.co_argcount > 1 \
        else mod.generate(s)
    plan["seed"] = s
    plan["index"] = i
    return json.loads(json.dumps(plan))


# ----------------------------------------------------------- minimisation ---

def minimise(mod, plan, cls, budget_s=60, budget_n=150, log=lambda *a: None):
    t0 = time.monotonic()
    n = [0]

    def bad(p):
        if n[0] >= budget_n or time.monotonic() - t0 > budget_s:
            return False
        n[0] += 1
        try:
            r = isolated(mod, json.loads(json.dumps(p)))
        except Exception:
            return False
        return r["status"] == "violation" and r["cls"] == cls

    best = plan
    ops = list(plan.get("ops", []))
    if ops:
        k = max(1, len(ops) // 2)
        while k >= 1:
            i = 0
            while i < len(best["ops"]):
                cand = dict(best)
                cand["ops"] = best["ops"][:i] + best["ops"][i + k:]
                if len(cand["ops"]) < len(best["ops"]) and bad(cand):
                    best = cand
                else:
                    i += k
            k //= 2
    simp = getattr(mod, "simplify", None)
    if simp is not None:
        progress = True
        while progress and n[0] < budget_n:
            progress = False
            for cand in simp(best):
                if bad(cand):
                    best = cand
                    progress = True
                    break
    return best, n[0]


# ------------------------------------------------------------------- check --

def check(prop, tier):
    vseed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = load(prop)
    t0 = time.monotonic()
    base = tempfile.mkdtemp(prefix="simverif-")
    _BASE[0] = base
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    try:
        return _check(mod, tier, vseed, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _check(mod, tier, vseed, t0):
    prop = mod.ID
    print("check %s tier=%s VERIF_SEED=%d" % (prop, tier, vseed), flush=True)
    warm(mod)
    n_runs = mod.N_QUICK if tier == "quick" else 10 ** 9
    budget = float(os.environ.get("SIM_BUDGET_S",
                                  "780" if tier == "quick" else "800"))
    if os.environ.get("SIM_RUNS"):
        n_runs = int(os.environ["SIM_RUNS"])
    nproc = int(os.environ.get("SIM_PROCS", os.cpu_count() or 4))
    known = known_findings(prop)
    known_keys = {e["key"] for e in known}
    forks = Forks(mod, nproc)
    nxt = 0
    results = {}
    first_bad = None
    harness = []
    stop = False
    truncated = False
    while True:
        while not stop and nxt < n_runs and not forks.full():
            if time.monotonic() - t0 > budget:
                stop = True
                truncated = True
                break
            forks.start(nxt, plan_for(mod, vseed, nxt, tier))
            nxt += 1
        if not forks.live:
            break
        for tag, res in forks.poll():
            results[tag] = res
            if res["status"] == "violation" \
                    and res.get("key") not in known_keys:
                stop = True
                if first_bad is None or tag < first_bad:
                    first_bad = tag
            elif res["status"] == "harness":
                harness.append((tag, res))
                if len(harness) > 3:
                    stop = True
    wall_search = time.monotonic() - t0

    rc = 0
    n_viol = sum(1 for r in results.values() if r["status"] == "violation"
                 and r.get("key") not in known_keys)
    seen_known = {r["key"] for r in results.values()
                  if r["status"] == "violation"
                  and r.get("key") in known_keys}
    replay_path = None
    replay_note = None
    if first_bad is not None:
        rc = 1
        r = results[first_bad]
        plan = plan_for(mod, vseed, first_bad, tier)
        again = isolated(mod, plan)
        stable = again["status"] == "violation" and again["cls"] == r["cls"]
        tries = 0
        best = plan
        if stable and r["cls"] != "no-progress":
            best, tries = minimise(
                mod, plan, r["cls"],
                budget_s=60 if tier == "quick" else 180)
        final = isolated(mod, best, keep_events=True)
        if final["status"] != "violation":
            final = dict(r, log=[])
            best = plan
        replay_path = os.path.join(OUT, "replay-%s-%d-%d.json" % (
            prop, vseed, first_bad))
        with open(replay_path, "w") as f:
            json.dump({"property": prop, "verif_seed": vseed,
                       "index": first_bad, "run_seed": plan["seed"],
                       "class": final.get("cls"), "key": final.get("key"),
                       "message": final.get("msg"), "trace": final["trace"],
                       "events": final.get("log"), "plan": best}, f, indent=1)
        fresh = subprocess.run(
            [os.path.join(VERIF, "run.sh"), "replay", replay_path],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        replay_note = "fresh-process replay rc=%d" % fresh.returncode
        print("seed=%d run=%d ops %d -> %d after %d executions; %s" % (
            plan["seed"], first_bad, len(plan.get("ops", [])),
            len(best.get("ops", [])), tries, replay_note))
        print("  %s: %s" % (final.get("cls"), final.get("msg")))
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))
    elif harness:
        rc = 2
        for tag, r in harness[:3]:
            print("HARNESS-ERROR run=%d %s\n%s" % (tag, r["msg"],
                                                   r.get("tb", "")))
    # listed findings are re-demonstrated from their own plans
    for e in known:
        still = e["key"] in seen_known
        if e.get("plan") is not None and not still:
            r = isolated(mod, e["plan"])
            still = r["status"] == "violation" and r.get("key") == e["key"]
        if still:
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
        else:
            print("note: listed finding %s no longer reproduces" % e["id"])

    # determinism: some seeds again, in a fresh interpreter with another
    # hash seed, trace hashes compared
    det = None
    if rc == 0 and results:
        det = determinism(mod, vseed, tier, results)
    write_evidence(mod, tier, vseed, results, t0, wall_search, n_viol, det,
                   truncated, replay_path)
    ok = len([r for r in results.values() if r["status"] == "ok"])
    print("%s: %d runs (%d ok), %.1f s, rc=%d" % (
        prop, len(results), ok, time.monotonic() - t0, rc), flush=True)
    if rc == 0 and truncated and tier == "quick":
        print("error: wall budget reached before the planned runs were done")
        rc = 2
    return rc


def determinism(mod, vseed, tier, results, n=None):
    n = n or (4 if tier == "quick" else 24)
    idx = sorted(results)
    step = max(1, len(idx) // n)
    pick = idx[::step][:n]
    env = dict(os.environ, SIM_HASHSEED="4242", SIM_PROCS="2",
               VERIF_SEED=str(vseed))
    try:
        p = subprocess.run(
            [os.path.join(VERIF, "run.sh"), "trace", mod.ID, tier] +
            [str(i) for i in pick], stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, text=True, env=env, timeout=300)
        other = json.loads(p.stdout.strip().splitlines()[-1])
    except Exception as e:
        return {"compared": 0, "error": repr(e)}
    diff = [i for i in pick if other[str(i)] != results[i]["trace"]]
    if diff:
        print("warning: event logs differ under another hash seed for runs "
              "%s" % diff)
    return {"compared": len(pick), "different": diff,
            "how": "same seeds in a fresh interpreter, other PYTHONHASHSEED, "
                   "2 workers; event-log hashes compared"}


def write_evidence(mod, tier, vseed, results, t0, wall_search, n_viol, det,
                   truncated, replay_path):
    faults, probes = {}, {}
    sim_time = 0.0
    steps = evals = nev = 0
    traces = set()
    states = set()
    for r in results.values():
        for k, v in r.get("faults", {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r.get("probes", {}).items():
            probes[k] = probes.get(k, 0) + v
        sim_time += r.get("sim_time", 0)
        steps += r.get("steps", 0)
        evals += r.get("evals", 0)
        nev += r.get("events", 0)
        if r.get("nontrivial"):
            traces.add(r["trace"])
        states.update(r.get("states", ()))
    samples = []
    for i in sorted(results)[:2]:
        p = plan_for(mod, vseed, i, tier)
        s = json.dumps(p)
        samples.append({"index": i, "trace": results[i].get("trace"),
                        "plan": p if len(s) < 4000 else s[:4000] + "..."})
    wall = time.monotonic() - t0
    ev = {
        "property": mod.ID, "tier": tier, "seed": vseed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(traces),
            "rule": mod.RULE,
            "samples": samples,
            "oracle_checks": evals,
            "events_logged": nev,
            "runs_per_hour": round(len(results) / max(wall_search, 1e-9)
                                   * 3600),
            "seeds": "derive(VERIF_SEED=%d, %s, i), i in [0, %d)" % (
                vseed, mod.ID, len(results)),
            "simulated_time_s": round(sim_time, 3),
            "scheduler_steps": steps,
            "faults_fired": dict(sorted(faults.items())),
            "probes_hit": dict(sorted(probes.items())),
            "probes_never_hit": [p for p in getattr(mod, "PROBES", ())
                                 if p not in probes],
            "distinct_states": len(states),
            "real_components": mod.REAL,
            "stubbed_components": mod.STUB,
            "determinism_self_check": det,
            "stopped_by_wall_budget": truncated,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())),
        "wall_s": round(wall, 2),
        "violations": n_viol,
    }
    if replay_path:
        ev["coverage"]["replay"] = replay_path
    with open(os.path.join(EVID, mod.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


# -------------------------------------------------------------------- main --

def trace(prop, tier, idx):
    mod = load(prop)
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    base = tempfile.mkdtemp(prefix="simverif-")
    _BASE[0] = base
    out = {}
    try:
        warm(mod)
        forks = Forks(mod, int(os.environ.get("SIM_PROCS", "2")))
        todo = list(idx)
        while todo or forks.live:
            while todo and not forks.full():
                i = todo.pop(0)
                forks.start(i, plan_for(mod, vseed, i, tier))
            for tag, r in forks.poll():
                out[str(tag)] = r.get("trace")
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print(json.dumps(out))
    return 0


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    mod = load(rec["property"])
    base = tempfile.mkdtemp(prefix="simverif-")
    _BASE[0] = base
    try:
        warm(mod)
        r = isolated(mod, rec["plan"], keep_events=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if os.environ.get("SIM_EVENTS"):
        for e in r.get("log", ()):
            print(e)
    if r["status"] == "violation":
        same = (r["cls"] == rec.get("class") and
                r["trace"] == rec.get("trace"))
        print("%s: %s" % (r["cls"], r["msg"]))
        print("replay %s the recorded violation (trace %s)" % (
            "reproduces exactly" if same else "violates, but differs from",
            r["trace"]))
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return 1
    print("status=%s %s" % (r["status"], r.get("msg", "")))
    if r.get("tb"):
        print(r["tb"])
    return 0 if r["status"] == "ok" else 2


def selftest(args):
    """Determinism on a large sample: every property, many seeds, event logs
    compared across interpreters, hash seeds and worker counts."""
    n = int(args[0]) if args else 40
    props = args[1:] or all_props()
    bad = 0
    for p in props:
        outs = []
        for hs, procs in (("0", "8"), ("7", "3"), ("99991", "1")):
            env = dict(os.environ, SIM_HASHSEED=hs, SIM_PROCS=procs)
            q = subprocess.run(
                [os.path.join(VERIF, "run.sh"), "trace", p, "quick"] +
                [str(i) for i in range(n)], stdout=subprocess.PIPE,
                stderr=subprocess.DEVNULL, text=True, env=env)
            outs.append(json.loads(q.stdout.strip().splitlines()[-1]))
        diff = [i for i in outs[0] if len({o[i] for o in outs}) > 1]
        print("%s: %d seeds x 3 interpreters, %d differ %s" % (
            p, n, len(diff), diff[:10]), flush=True)
        bad += len(diff)
    return 1 if bad else 0


def main(argv):
    cmd = argv[0] if argv else "list"
    if cmd == "check":
        return check(argv[1], argv[2] if len(argv) > 2
                     else os.environ.get("VERIF_TIER", "quick"))
    if cmd == "replay":
        return replay(argv[1])
    if cmd == "trace":
        return trace(argv[1], argv[2], [int(a) for a in argv[3:]])
    if cmd == "selftest":
        return selftest(argv[1:])
    if cmd == "one":
        # debugging aid: run one index in this process tree, show the result
        mod = load(argv[1])
        _BASE[0] = tempfile.mkdtemp(prefix="simverif-")
        warm(mod)
        vseed = int(os.environ.get("VERIF_SEED", "1"))
        for i in argv[2:]:
            r = isolated(mod, plan_for(mod, vseed, int(i)), True)
            print(i, {k: v for k, v in r.items() if k not in ("log", "tb",
                                                              "states")})
            print(r.get("tb", ""))
        shutil.rmtree(_BASE[0], ignore_errors=True)
        return 0
    for p in all_props():
        m = load(p)
        print(p, m.TITLE)
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
