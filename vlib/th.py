"""Bridges between reference values and theseus objects, and oracle assertions."""
import math

import numpy as np
import torch
import theseus as th

from . import ref
from .core import Violation

DT = {"float32": torch.float32, "float64": torch.float64}


def cls(g):
    return {
        "SO2": th.SO2, "SE2": th.SE2, "SO3": th.SO3, "SE3": th.SE3,
        "Point2": th.Point2, "Point3": th.Point3,
    }.get(g, th.Vector)


def make(g, mats, dtype="float64", name=None):
    """theseus variable of group g holding the given reference elements."""
    data = torch.tensor(np.stack([ref.to_data(g, m) for m in mats]), dtype=DT[dtype])
    if data.dtype == torch.float32 and g in ("SO3", "SE3"):
        # entries rounded to float32: still valid within the class tolerance
        pass
    return cls(g)(tensor=data, name=name, **({} if ref.is_vec(g) else {}))


def elems(g, tangents):
    return [ref.exp(g, x) for x in tangents]


def mats(g, var_or_tensor):
    t = var_or_tensor if isinstance(var_or_tensor, torch.Tensor) else var_or_tensor.tensor
    a = t.detach().cpu().double().numpy()
    return [ref.from_data(g, a[i]) for i in range(a.shape[0])]


def np_(t):
    if isinstance(t, torch.Tensor):
        return t.detach().cpu().double().numpy()
    return np.asarray(t, float)


def need(cond, msg):
    if not cond:
        raise Violation(msg)


def close(got, want, tol, what):
    """tol: absolute tolerance, may be an array broadcastable to the values."""
    a, b = np_(got), np_(want)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape}, expected {b.shape}")
    if a.size == 0:
        return
    with np.errstate(all="ignore"):
        err = np.abs(a - b)
        same = (a == b) | (np.isnan(a) & np.isnan(b))
        bad = ~(same | (err <= tol))
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        raise Violation(
            f"{what}: at {i} got {a[i]!r}, expected {b[i]!r} "
            f"(|diff|={err[i]:.3g}, tolerance {np.broadcast_to(tol, err.shape)[i]:.3g})"
        )


def scale_of(*arrs):
    m = 1.0
    for a in arrs:
        a = np_(a)
        if a.size:
            v = np.abs(a[np.isfinite(a)])
            if v.size:
                m = max(m, float(v.max()))
    return m


def expect_raise(fn, what, exc=Exception):
    try:
        fn()
    except exc:
        return
    raise Violation(f"{what}: no error was raised")


def with_flags(case, check):
    """the same cases, some of them under torchlie's optional code paths (faster logarithms, pass-through operators)"""
    from hypothesis import strategies as st
    from torchlie.global_params import _TORCHLIE_GLOBAL_PARAMS as LG

    @st.composite
    def flagged(draw):
        c = draw(case())
        c["lie_flags"] = draw(st.sampled_from([0, 0, 0, 1, 2, 3]))
        return c

    def run(c, t):
        f = c.get("lie_flags", 0)
        old = LG._faster_log_maps, LG._allow_passthrough_ops
        LG._faster_log_maps, LG._allow_passthrough_ops = bool(f & 1), bool(f & 2)
        try:
            if f:
                t.label("optional code paths")
            return check(c, t)
        finally:
            LG._faster_log_maps, LG._allow_passthrough_ops = old

    return flagged, run
