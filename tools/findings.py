"""``python3 tools/findings.py`` rewrites the "fixed" list of
known_findings.json from the table below and the log of /repo."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXES = """
808b1a2 P02
b6dbc0f P01
8ef6d0d P03
c02a07f P01
29ed88e P04
908e417 P01
1ae9438 P01
491660a P07
58b67c1 P07
64045b9 P06
cd50659 P22
e7e77e7 P05
c81df9c P05
e05f837 P09
8e66b51 P03
84172fe P03
3d33019 P01
7960269 P04
69492de P04
9ebad31 P04
57af05b P14
d81e992 P13
99734fd P07
448e8db P17
6de4b75 P17
8892f4a P10
6f59b0f P17
7c194a3 P14
bbc4108 P17
4243a60 P14
c91ee9e P13
e97f11d P17
8a9e432 P12
b3a6c18 P21
1939753 P16
3dc2fb9 P17
0c0c16e P14
b1c82e6 P17
86bef2c P08
6750e64 P16
71087a9 P11
cfe25d7 P11
7fd3b9d P19
447abf3 P13
ccea364 P13
397036f P12
cae1a02 P12
82f9abe P17
c49f73c P17
0594300 P17
b4c1c6e P18
7d269fb P13
d37916c P13
50ef051 P13
3792fe0 P13
6be0255 P13
0e5b0c8 P13
7c5cd58 P13
640c59a P12
5f4c1c9 P12
92f7229 P12
b03b2c6 P12
673c7a7 P12
517337c P14
32671ad P23
1b00c1b P19
e0a178f P19
4679e19 P19
81d3ec4 P19
0ac5f05 P19
5b3f0a3 P19
88e0233 P20
8045a36 P20
e6fad04 P20
c5016c5 P20
69ac359 P20
4a0aa6d P20
1efd41d P21
ab434a5 P21
b4b9f1c P21
5ca1ad4 P18
ab24854 P22
2c01a7b P22
2ba60f1 P22
8bbc058 P22
0e6864c P14
6648d59 P13
98cb669 P23
"""


def main():
    path = os.path.join(HERE, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    data["findings"] = [e for e in data["findings"]
                        if e.get("kind") == "known"]
    out = []
    for line in FIXES.split("\n"):
        if not line.strip():
            continue
        h, p = line.split()
        s = subprocess.run(["git", "-C", "/repo", "log", "-1",
                            "--format=%h %s", h], capture_output=True,
                           text=True, check=True).stdout.strip()
        c, what = s.split(" ", 1)
        assert what.startswith("fix: ")
        out.append("fixed: property=%s %s repaired: %s" % (p, c, what[5:]))
    data["fixed"] = out
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
