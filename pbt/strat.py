"""Generators shared by the checks.  Everything they produce is JSON data."""
import math

import numpy as np
from hypothesis import strategies as st

PI = math.pi
SPECIAL_ANGLES = [0.0, PI / 6, PI / 4, PI / 3, PI / 2, 2 * PI / 3, 3 * PI / 4, PI, -PI / 4,
                  -PI / 3, -PI / 2, -2 * PI / 3, -PI, 2 * PI, -2 * PI, 1e-9, -1e-9, 1e-4,
                  PI - 1e-9, PI / 2 - 1e-7, PI / 2 + 1e-7]


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False).map(
        lambda x: 0.0 if abs(x) < 1e-12 else x)


def grid(lo, hi, k=1000):
    """Multiples of 1/k: shrink well and hit exact values often."""
    return st.integers(int(math.ceil(lo * k)), int(math.floor(hi * k))).map(lambda i: i / k)


def num(lo, hi):
    gs = [grid(lo, hi, k) for k in (10, 1000) if math.ceil(lo * k) <= math.floor(hi * k)]
    return st.one_of(*gs, fl(lo, hi))


def ang(lo=-PI, hi=PI):
    sp = [a for a in SPECIAL_ANGLES if lo <= a <= hi] + [lo, hi]
    return st.one_of(st.sampled_from(sp), fl(lo, hi), fl(lo, hi))


def vec(lo=-1.0, hi=1.0, n=3):
    return st.lists(num(lo, hi), min_size=n, max_size=n)


def axis():
    """3-vector of norm >= ~0.1 (not normalised)."""
    ints = st.lists(st.integers(-5, 5), min_size=3, max_size=3).filter(lambda v: any(v)).map(
        lambda v: [float(x) for x in v])
    fls = st.lists(fl(-1, 1), min_size=3, max_size=3).map(
        lambda v: v if sum(x * x for x in v) > 0.01 else [v[0] + 1.0, v[1], v[2]])
    return st.one_of(ints, fls, fls)


def quat():
    """Unit quaternion with q0 >= 0 (list of 4)."""
    def norm(v):
        n = math.sqrt(sum(x * x for x in v))
        v = [x / n for x in v]
        lead = next((x for x in v if abs(x) > 0), 1.0)
        return [-x + 0.0 for x in v] if (v[0] < 0) else v
    ints = st.lists(st.integers(-4, 4), min_size=4, max_size=4).filter(lambda v: any(v)).map(norm)
    fls = st.lists(fl(-1, 1), min_size=4, max_size=4).map(
        lambda v: norm(v) if sum(x * x for x in v) > 0.01 else norm([v[0] + 1.0, v[1], v[2], v[3]]))
    half = st.tuples(ang(0, PI), axis()).map(lambda t: norm(
        [math.cos(t[0] / 2)] + [math.sin(t[0] / 2) * x / math.sqrt(sum(y * y for y in t[1])) for x in t[1]]))
    return st.one_of(ints, fls, half)


def expmap(maxang=PI):
    return st.tuples(ang(0, maxang), axis()).map(
        lambda t: [t[0] * x / math.sqrt(sum(y * y for y in t[1])) for x in t[1]])


def batch(s, lo=1, hi=9):
    """Sizes chosen to straddle SIMD widths (1..9) with an occasional long one."""
    return st.one_of(st.lists(s, min_size=lo, max_size=min(hi, 3)), st.lists(s, min_size=lo, max_size=hi))


seeds = st.integers(0, 2 ** 31 - 1)


def rng(seed):
    """Deterministic expansion of a drawn seed into bulk data."""
    return np.random.default_rng(seed)
