"""Build /verif/seeded/<id>/ from a definition file and try it.

usage: plant.py BUGS.py [id ...]   (BUGS.py: list B of dicts with keys
id, prop, edits=[(file, old, new)], demo, needs, breaks)
Everything is tried in a scratch clone of /repo.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/bug"
BASE = "ac6f1d8"
SH = '''#!/bin/bash
export HOME=${HOME:-/root} PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1
export MPLBACKEND=Agg PYTHONWARNINGS=ignore OMP_NUM_THREADS=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True,
                       text=True, timeout=timeout, env=e)
    return r.returncode, r.stdout, r.stderr


def main():
    bugs = runpy.run_path(sys.argv[1])["B"]
    only = set(sys.argv[2:])
    fast = "-fast" in only
    only.discard("-fast")
    for b in bugs:
        if only and b["id"] not in only:
            continue
        if not os.path.isdir(SCR):
            sh("git clone -q /repo " + SCR)
        sh("git fetch -q && git reset -q --hard origin/HEAD && git clean -fdq", SCR)
        bad = None
        orig = set()
        for f, old, new in b["edits"]:
            p = os.path.join(SCR, f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = "old text occurs %d times in %s" % (s.count(old), f)
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(b["id"], "BAD", bad)
            continue
        diff = sh("git diff", SCR)[1]
        # removed lines must be lines of the original repository
        for f, old, new in b["edits"]:
            base = sh("git show %s:%s" % (BASE, f), SCR)[1].splitlines()
            orig = set(base)
        gone = [ln[1:] for ln in diff.splitlines()
                if ln.startswith("-") and not ln.startswith("---")]
        allbase = "\n".join(sh("git show %s:%s" % (BASE, f), SCR)[1]
                            for f, _, _ in b["edits"]).splitlines()
        foreign = [g for g in gone if g not in set(allbase)]
        d = os.path.join(HERE, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"],
                   "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        clean, o1, e1 = sh("bash %s/demo.sh" % d, "/repo", 300)
        mut, o2, e2 = sh("bash %s/demo.sh" % d, SCR, 300)
        chk, o, _ = sh("./run.sh check %s quick" % b["prop"], HERE, 1000,
                       {"VERIF_REPO": SCR, "VERIF_SEED": "1",
                        "SIM_EVIDENCE": "/tmp/bugs/evidence"})
        tests = "skipped"
        if not fast:
            t = open("/opt/vp/test.sh").read().replace("/repo", SCR)
            open("/tmp/bugs/test.sh", "w").write(t)
            sh("bash /tmp/bugs/test.sh /tmp/bugs/t.json")
            r = json.load(open("/tmp/bugs/t.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            tests = judge(r, base)
        print("%-22s %s demo clean=%d bug=%d check=%d tests=%s%s" % (
            b["id"], b["prop"], clean, mut, chk, tests,
            " FOREIGN %r" % foreign[:2] if foreign else ""), flush=True)
        if clean:
            print("   clean:", (o1 + e1).strip().splitlines()[-1:])
        if mut:
            print("   bug:", (o2 + e2).strip().splitlines()[-1:])
        v = [ln for ln in o.splitlines() if "VIOLATION" in ln]
        if v:
            print("   ", v[0][:110])


def names(x):
    if isinstance(x, dict):
        for k in ("passed", "stable"):
            if k in x:
                return names(x[k])
        return {k for k, v in x.items() if v in ("passed", "pass", True)}
    return set(t if isinstance(t, str) else t.get("id") for t in x)


def judge(r, base):
    need, got = names(base), names(r)
    lost = need - got
    return "ok(%d)" % len(got) if not lost else "LOST %s" % sorted(lost)[:2]


if __name__ == "__main__":
    main()
