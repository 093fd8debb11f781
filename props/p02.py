import math

import numpy as np
import torch
import theseus as th
from hypothesis import strategies as st

from vlib import gens, ref
from vlib.core import Sub
from vlib.geomops import angle_of, rot_angle
from vlib.th import DT, close, cls, make, mats, need, with_flags

PROPERTY = "P02"
RULE = (
    "A case draws a group, dtype, batch of tangent vectors (rotation angle weighted to 0, tiny, the "
    "small-angle switches, just below/above pi, generic) and compares exp/log/retract/local with a "
    "matrix-exponential reference and with each other. Non-trivial: some element has a non-zero rotation "
    "(or, for vectors, a non-zero value)."
)
ASSUMPTIONS = [
    "3D groups use documented small-angle approximations below their near-zero threshold: there the "
    "tolerance grows to theta^2/4*|v| (float64 threshold 5e-3, float32 1e-2)",
    "near pi the logarithm's rounding error grows like eps/(pi-theta)",
]


def exp_tol(g, dt, s, a):
    if dt == "float64":
        t = 1e-12
        if g == "SE2" and a < 2e-3:
            t += 1e-9
        if g == "SO3" and a < 5.2e-3:
            t += 0.3 * a**3
        if g == "SE3" and a < 5.2e-3:
            t += 0.4 * a**2
        return t * s
    t = 3e-6
    if g == "SE2" and 1e-2 < a < 0.2:
        t += 3e-6
    if g in ("SO3", "SE3") and a < 1.05e-2:
        t += 0.5 * a**2
    elif g == "SE3":
        t += 1e-7 / a
    return t * s


def log_tol(g, dt, s, a):
    """Error of exp(log(X)) against X."""
    gap = max(math.pi - a, 1e-16)
    a = max(a, 1e-12)
    if dt == "float64":
        t = 1e-11
        if g in ("SO3", "SE3"):
            t += min(1e-14 / gap, 1e-8)
            t += 1e-13 / a**2 if a > 4.9e-3 else 1e-11
        return t * s
    t = 5e-6
    if g in ("SO3", "SE3"):
        t += min(1e-6 / gap, 1e-4)
    if g == "SE3":
        t += 6e-7 / a**2 if a > 9.5e-3 else 1e-6
    return t * s


def sc(g, *xs):
    return max([1.0] + [abs(v) for x in xs for v in np.ravel(x)])


@st.composite
def exp_case(draw):
    g = draw(st.sampled_from(ref.LIE * 3 + ["R1", "R2", "R3", "Point2", "Point3"]))
    b = draw(st.integers(1, 4))
    return dict(g=g, dtype=draw(gens.dtypes), x=draw(gens.batch(g, b, beyond_pi=True)),
                style=draw(st.integers(0, 1)))


def check_exp(c, t):
    g, dt = c["g"], c["dtype"]
    xt = torch.tensor(c["x"], dtype=DT[dt])
    keep = xt.clone()
    x = xt.double().numpy()
    t.label(g, dt)
    for v in c["x"]:
        gens.classify_tangent(g, v, t)
    t.nontrivial(np.abs(x).max() > 0)
    proto = make(g, [ref.exp(g, v) for v in x], dt)
    X = th.exp_map(proto, xt) if c["style"] else cls(g).exp_map(xt)
    need(isinstance(X, th.Vector if ref.is_vec(g) else cls(g)), f"exp_map returned {type(X).__name__}")
    need(X.dtype == DT[dt], "exp_map changed the dtype")
    need(X.shape[0] == len(c["x"]), "exp_map changed the batch size")
    M = mats(g, X)
    for i in range(len(x)):
        a = angle_of(g, x[i])
        close(M[i], ref.exp(g, x[i]), exp_tol(g, dt, sc(g, x[i]), a), f"{g} exp_map element {i} (angle {a:.4g})")
    need(torch.equal(xt, keep), "exp_map modified its argument")
    # log inverts exp below pi
    L = th.log_map(X) if c["style"] else X.log_map()
    need(L.dtype == DT[dt] and L.shape == xt.shape, "log_map dtype/shape")
    Ln = L.detach().double().numpy()
    for i in range(len(x)):
        a = angle_of(g, x[i])
        if a > math.pi - (1e-5 if dt == "float64" else 1e-3):
            t.label("wraps")
            continue
        tol = log_tol(g, dt, sc(g, x[i]), a) + exp_tol(g, dt, sc(g, x[i]), a)
        if g in ("SO2", "SE2", "SO3", "SE3") and math.pi - a < 0.2:
            e = 1e-14 if dt == "float64" else 1e-5
            tol += e * sc(g, x[i]) / (math.pi - a) ** 2
        close(Ln[i], x[i], tol * 3, f"{g} log(exp(x)) element {i} (angle {a:.4g})")


@st.composite
def log_case(draw):
    g = draw(st.sampled_from(ref.LIE * 3 + ["R2", "Point2", "Point3"]))
    b = draw(st.integers(1, 4))
    return dict(g=g, dtype=draw(gens.dtypes), x=draw(gens.batch(g, b)))


def check_log(c, t):
    g, dt = c["g"], c["dtype"]
    X = make(g, [ref.exp(g, v) for v in c["x"]], dt)
    keep = X.tensor.clone()
    M = mats(g, X)
    t.label(g, dt)
    for v in c["x"]:
        gens.classify_tangent(g, v, t)
    t.nontrivial(np.abs(np.array(c["x"])).max() > 0)
    L = X.log_map()
    need(L.dtype == DT[dt] and L.shape == (len(M), ref.dof(g)), "log_map dtype/shape")
    Ln = L.double().numpy()
    need(np.isfinite(Ln).all(), f"{g} log_map is not finite: {Ln}")
    for i, m in enumerate(M):
        a = angle_of(g, Ln[i])
        need(a <= math.pi + 1e-5, f"{g} log_map returned an angle of {a}")
        a = angle_of(g, c["x"][i])
        close(ref.exp(g, Ln[i]), m, log_tol(g, dt, sc(g, c["x"][i]), a), f"{g} exp(log(X)) element {i} (angle {a:.6g})")
    if g in ("SO2",):
        close(X.theta(), L, 0, "theta equals log_map")
    need(torch.equal(X.tensor, keep), "log_map modified the element")


@st.composite
def rl_case(draw):
    g = draw(st.sampled_from(ref.LIE * 3 + ["R1", "R3", "Point2", "Point3"]))
    b = draw(st.integers(1, 4))
    mix = draw(st.sampled_from(["same", "same", "same", "first1", "second1"]))
    return dict(
        g=g, dtype=draw(gens.dtypes), style=draw(st.integers(0, 1)),
        x=draw(gens.batch(g, 1 if mix == "first1" else b)),
        d=draw(gens.batch(g, 1 if mix == "second1" else b)),
    )


def check_rl(c, t):
    """Y := X*exp(d) built by the reference; retract(X, local(X, Y)) must be Y."""
    g, dt = c["g"], c["dtype"]
    n = max(len(c["x"]), len(c["d"]))
    xs = c["x"] if len(c["x"]) == n else c["x"] * n
    ds = c["d"] if len(c["d"]) == n else c["d"] * n
    X0 = [ref.exp(g, v) for v in c["x"]]
    X = make(g, X0, dt)
    t.label(g, dt, "same" if len(c["x"]) == len(c["d"]) else "mixed")
    for v in c["d"]:
        gens.classify_tangent(g, v, t)
    t.nontrivial(np.abs(np.array(c["d"])).max() > 0)
    dten = torch.tensor(c["d"], dtype=DT[dt])
    Xr = mats(g, X)
    Xr = Xr if len(Xr) == n else Xr * n
    dr = dten.double().numpy()
    dr = dr if len(dr) == n else np.repeat(dr, n, 0)
    R = th.retract(X, dten) if c["style"] else X.retract(dten)
    need(type(R) is cls(g), f"retract returned {type(R).__name__}")
    need(R.dtype == DT[dt] and R.shape[0] == n, "retract dtype/batch")
    Rm = mats(g, R)
    base = 1e-12 if dt == "float64" else 1e-5
    for i in range(n):
        a = angle_of(g, dr[i])
        s = sc(g, xs[i], dr[i])
        close(Rm[i], ref.compose(g, Xr[i], ref.exp(g, dr[i])), 2 * exp_tol(g, dt, s, a) + base * s,
              f"{g} retract element {i}")
    # local/retract round trip with Y as an exact element of the dtype
    Y = make(g, [ref.compose(g, Xr[i], ref.exp(g, dr[i])) for i in range(n)], dt)
    Lo = th.local(X, Y) if c["style"] else X.local(Y)
    need(Lo.dtype == DT[dt] and Lo.shape == (n, ref.dof(g)), f"local shape {tuple(Lo.shape)}")
    need(bool(torch.isfinite(Lo).all()), "local is not finite")
    Ym = mats(g, Y)
    R2 = mats(g, X.retract(Lo))
    for i in range(n):
        rel = ref.compose(g, ref.inv(g, Xr[i]), Ym[i])
        a = 0.0 if ref.is_vec(g) else rot_angle(g, rel)
        s = sc(g, xs[i], dr[i])
        Ln = Lo[i].double().numpy()
        tol = 3 * (log_tol(g, dt, s, a) + exp_tol(g, dt, s, a)) + base * s
        gap = max(math.pi - a, 1e-16)
        tol += (0 if ref.is_vec(g) else min(base * 0.02 * s / gap, 1e-6 if dt == "float64" else 1e-3))
        need(angle_of(g, Ln) <= math.pi + 1e-5, "local returned an angle above pi")
        close(ref.exp(g, Ln), rel, tol, f"{g} exp(local(X,Y)) against X^-1 Y, element {i} (angle {a:.6g})")
        close(R2[i], Ym[i], tol, f"{g} retract(X, local(X, Y)) element {i} (angle {a:.6g})")


SUBS = [
    Sub("exp", exp_case, check_exp, 1600, shards=(3, 8)),
    Sub("log", *with_flags(log_case, check_log), 1600, shards=(3, 8)),
    Sub("retract_local", *with_flags(rl_case, check_rl), 1200, shards=(3, 8)),
]
