"""Workload data: every array is a pure function of a small JSON spec."""

import numpy as np

from .core import nprng

SPECIALS = [-999.0, -998.0]
CATS = [chr(97 + i) for i in range(26)]


def numeric(rng, n, kind):
    return _numeric(rng, n, kind) + 0.0     # no negative zeros


def _numeric(rng, n, kind):
    if kind == "uniform":
        return rng.uniform(-10, 10, n)
    if kind == "normal":
        return rng.normal(3, 5, n)
    if kind == "ints":
        return rng.integers(0, 15, n).astype(float)
    if kind == "fewints":
        return rng.integers(0, 5, n).astype(float)
    if kind == "halves":
        return np.round(rng.normal(0, 4, n) * 2) / 2
    if kind == "exp":
        return np.round(rng.exponential(20, n), 3)
    if kind == "const":
        return np.full(n, 7.0)
    if kind == "spike":
        x = rng.uniform(0, 10, n)
        x[rng.random(n) < 0.5] = 5.0
        return x
    raise ValueError(kind)


NUM_KINDS = ["uniform", "normal", "ints", "fewints", "halves", "exp",
             "spike"]


def poison(rng, x, missing=0.0, special=0.0, codes=SPECIALS):
    x = np.array(x)
    if special:
        m = rng.random(len(x)) < special
        x[m] = rng.choice(np.asarray(codes, dtype=object if x.dtype == object
                                     else None), m.sum())
    if missing:
        m = rng.random(len(x)) < missing
        x[m] = None if x.dtype == object else np.nan
    return x


def risk(x, shape):
    """A score in roughly [-2, 2] with the requested shape in x."""
    z = np.asarray(x, dtype=float)
    if len(z) == 0:
        return z
    s = (z - np.nanmin(z)) / (np.nanmax(z) - np.nanmin(z) + 1e-12)
    if shape == "up":
        return 4 * s - 2
    if shape == "down":
        return 2 - 4 * s
    if shape == "peak":
        return 2 - 8 * np.abs(s - 0.5)
    if shape == "valley":
        return -2 + 8 * np.abs(s - 0.5)
    if shape == "wave":
        return 2 * np.sin(9 * s)
    return np.zeros(len(z))


SHAPES = ["up", "down", "peak", "valley", "wave", "flat"]


def binary(rng, score, base=0.0):
    p = 1.0 / (1.0 + np.exp(-(score + base)))
    y = (rng.random(len(score)) < p).astype(np.int64)
    return y


def num_xy(spec):
    """Clean numeric x with missing / special values and a binary target."""
    rng = nprng("xy", spec["seed"])
    n = spec["n"]
    x = numeric(rng, n, spec.get("kind", "normal"))
    y = binary(rng, risk(x, spec.get("shape", "up")), spec.get("base", 0.0))
    x = poison(rng, x, spec.get("missing", 0), spec.get("special", 0))
    return x, y


def cat_xy(spec):
    rng = nprng("cat", spec["seed"])
    n = spec["n"]
    k = spec.get("k", 6)
    cats = np.array(CATS[:k], dtype=object)
    p = rng.dirichlet(np.full(k, spec.get("alpha", 2.0)))
    idx = rng.choice(k, n, p=p)
    x = cats[idx].astype(object)
    rate = rng.permutation(np.linspace(-1.5, 1.5, k))
    y = binary(rng, rate[idx], spec.get("base", 0.0))
    x = np.array(x, dtype=object)
    if spec.get("special"):
        x[rng.random(n) < spec["special"]] = "SPEC"
    if spec.get("missing"):
        x[rng.random(n) < spec["missing"]] = None
    return x, y


def ensure_both(y, rng):
    """Both classes present."""
    y = np.array(y)
    if len(y) >= 2:
        if y.min() == y.max():
            y[int(rng.integers(0, len(y)))] ^= 1
    return y


def pick(r, seq, *weights):
    return r.choice(seq)
