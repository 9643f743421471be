"""Small reference models used by several checks."""

import numpy as np


def select(names, stats, criteria, fixed=None):
    """Variable selection: stats is {name: {metric: value}}; returns the set
    of acceptable supports as a bool array, or None if ties at a cut make it
    ambiguous."""
    sup = np.ones(len(names), dtype=bool)
    order = [m for m in next(iter(stats.values()))] if stats else []
    for metric in order:
        if criteria is None or metric not in criteria:
            continue
        c = criteria[metric]
        v = np.array([stats[n][metric] for n in names], dtype=float)
        if "min" in c:
            sup &= v >= c["min"]
        if "max" in c:
            sup &= v <= c["max"]
        if "strategy" in c and "top" in c:
            idx = [i for i in range(len(names)) if sup[i]]
            top = c["top"]
            if not isinstance(top, (int, np.integer)):
                top = int(np.ceil(len(idx) * top))
            top = min(top, len(idx))
            s = sorted(idx, key=lambda i: -v[i] if c["strategy"] ==
                       "highest" else v[i])
            if 0 < top < len(s) and abs(v[s[top - 1]] - v[s[top]]) < 1e-9:
                return None
            keep = set(s[:top])
            sup = np.array([i in keep for i in range(len(names))])
    for f in fixed or ():
        sup[list(names).index(f)] = True
    return sup
