"""Strategies shared by the property modules. All yield JSON-able values."""
import math

import numpy as np
from hypothesis import strategies as st

from . import ref

seeds = st.integers(0, 2**31 - 1)


def rng(seed):
    """Bulk numbers derived from a drawn integer (pure function of the case)."""
    return np.random.Generator(np.random.Philox(int(seed)))


def small_floats(scale=3.0):
    return st.integers(-300, 300).map(lambda k: k / 300.0 * scale)


@st.composite
def real(draw, scale=3.0):
    k = draw(st.integers(0, 9))
    if k == 0:
        return 0.0
    if k == 1:
        return float(draw(st.integers(-3, 3)))
    if k == 2:  # tiny
        return draw(st.sampled_from([-1.0, 1.0])) * 10.0 ** draw(st.integers(-12, -2))
    if k == 3:
        return draw(st.integers(-1000, 1000)) / 1000.0 * scale * 10
    return draw(st.integers(-100000, 100000)) / 100000.0 * scale


def vec(n, scale=3.0):
    return st.lists(real(scale), min_size=n, max_size=n)


@st.composite
def angle(draw, beyond_pi=False):
    """Rotation angle in [0, pi] (or up to ~3pi) weighted to branch regions."""
    k = draw(st.integers(0, 11))
    if k == 0:
        return 0.0
    if k == 1:
        return 10.0 ** (-draw(st.integers(3, 130)) / 10.0)
    if k == 2:  # around the small-angle switches
        c = draw(st.sampled_from([5e-3, 1e-2, 2e-1, 1e-3, 5e-2]))
        return c * (1 + draw(st.integers(-50, 50)) / 500.0)
    if k == 3:  # just below pi
        return math.pi - 10.0 ** (-draw(st.integers(5, 160)) / 10.0)
    if k == 4:
        return draw(st.sampled_from([math.pi / 2, math.pi / 3, math.pi / 4, 2.0, 3.0, 1.0]))
    if k == 5 and beyond_pi:
        return math.pi + draw(st.integers(1, 1000)) / 1000.0 * 2.9
    if k == 6 and beyond_pi:
        return math.pi + 10.0 ** (-draw(st.integers(5, 160)) / 10.0)
    return draw(st.integers(1, 9990)) / 10000.0 * math.pi


@st.composite
def axis(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        i = draw(st.integers(0, 2))
        a = [0.0, 0.0, 0.0]
        a[i] = draw(st.sampled_from([1.0, -1.0]))
        return a
    if k == 1:
        a = [draw(st.integers(-2, 2)) for _ in range(3)]
    else:
        a = [draw(st.integers(-1000, 1000)) for _ in range(3)]
    n = math.sqrt(sum(v * v for v in a))
    if n == 0:
        return [0.0, 0.0, 1.0]
    return [v / n for v in a]


@st.composite
def tangent(draw, g, scale=3.0, beyond_pi=False):
    """A tangent vector of group g."""
    if ref.is_vec(g):
        return draw(vec(ref.dof(g), scale))
    th = draw(angle(beyond_pi))
    if g == "SO2":
        return [draw(st.sampled_from([1.0, -1.0])) * th]
    if g == "SE2":
        return draw(vec(2, scale)) + [draw(st.sampled_from([1.0, -1.0])) * th]
    w = [a * th for a in draw(axis())]
    if g == "SO3":
        return w
    return draw(vec(3, scale)) + w


def batch(g, n, **kw):
    return st.lists(tangent(g, **kw), min_size=n, max_size=n)


dtypes = st.sampled_from(["float64", "float64", "float64", "float32"])


def classify_tangent(g, x, t):
    if ref.is_vec(g):
        return
    n = {"SO2": 0, "SE2": 2, "SO3": 0, "SE3": 3}[g]
    a = math.sqrt(sum(v * v for v in x[n:]))
    if a == 0:
        t.label("angle=0")
    elif a < 1e-2:
        t.label("angle<1e-2")
    elif abs(a - math.pi) < 1e-3:
        t.label("angle~pi")
    elif a > math.pi:
        t.label("angle>pi")
    else:
        t.label("angle generic")
