"""Table of geometry operations: reference function and theseus call, shared by P03 and P04."""
import math

import numpy as np
import torch
import theseus as th

from . import ref
from .th import cls

ROT = {"SO2": 2, "SE2": 2, "SO3": 3, "SE3": 3}


def angle_of(g, x):
    if ref.is_vec(g):
        return 0.0
    x = np.asarray(x, float)
    return float(np.linalg.norm({"SO2": x, "SE2": x[2:], "SO3": x, "SE3": x[3:]}[g]))


def rot_angle(g, X):
    return angle_of(g, ref.log(g, X))


def is_rot(g):
    return g in ("SO2", "SO3")


def ops_for(g):
    ops = ["exp", "log", "compose", "inverse", "between", "local"]
    if not ref.is_vec(g):
        ops += ["from", "to"]
    if g == "SE2":
        ops += ["theta", "xy"]
    return ops


def operands(g, op):
    """Manifold of each operand."""
    d = "R%d" % ref.dof(g)
    if op == "exp":
        return [d]
    if op in ("log", "inverse", "theta", "xy"):
        return [g]
    if op in ("compose", "between", "local"):
        return [g, g]
    return [g, "R%d" % ROT[g]]


def out_manifold(g, op):
    d = "R%d" % ref.dof(g)
    return {
        "exp": g, "log": d, "compose": g, "inverse": g, "between": g, "local": d,
        "theta": "SO2", "xy": "R2",
    }.get(op) or "R%d" % ROT[g]


def ref_fn(g, op):
    if op == "exp":
        return lambda x: ref.exp(g, x)
    if op == "log":
        return lambda x: ref.log(g, x)
    if op == "inverse":
        return lambda x: ref.inv(g, x)
    if op == "compose":
        return lambda x, y: ref.compose(g, x, y)
    if op == "between":
        return lambda x, y: ref.compose(g, ref.inv(g, x), y)
    if op == "local":
        return lambda x, y: ref.log(g, ref.compose(g, ref.inv(g, x), y))
    if op == "theta":
        return lambda x: x[:2, :2].copy()
    if op == "xy":
        return lambda x: x[:2, 2].copy()
    if op == "from":
        return lambda x, p: ref.act(g, x, p)
    return lambda x, p: ref.act(g, ref.inv(g, x), p)


def call(g, op, args, jac=None, style=0):
    """Calls the operation on theseus variables/tensors; style picks equivalent public spellings."""
    kw = {} if jac is None else dict(jacobians=jac)
    if op == "exp":
        if style:
            return th.exp_map(cls(g)(**({"dof": ref.dof(g)} if g[0] == "R" else {})), args[0], **kw)
        if g[0] == "R":
            return th.Vector.exp_map(args[0], **kw)
        return cls(g).exp_map(args[0], **kw)
    if op == "log":
        return th.log_map(args[0], **kw) if style else args[0].log_map(**kw)
    if op == "inverse":
        kw = {} if jac is None else dict(jacobian=jac)
        return th.inverse(args[0], **kw) if style else args[0].inverse(**kw)
    if op in ("compose", "between", "local"):
        if style:
            return getattr(th, op)(args[0], args[1], **kw)
        return getattr(args[0], op)(args[1], **kw)
    if op == "theta":
        return args[0].theta(**kw)
    if op == "xy":
        return args[0].xy(**kw)
    name = {"from": "rotate", "to": "unrotate"} if is_rot(g) else {
        "from": "transform_from", "to": "transform_to"}
    return getattr(args[0], name[op])(args[1], **kw)


def tensor(v):
    return v if isinstance(v, torch.Tensor) else v.tensor


def jac_tol(g, op, dt, s, ang):
    """Tolerance of a Jacobian entry: documented small-angle approximations and cancellation."""
    a = max(ang, 1e-9)
    if op not in ("exp", "log", "local"):
        return (3e-8 if dt == "float64" else 1e-4) * s
    if dt == "float64":
        tol = 3e-8
        if g == "SE2":
            tol += 1e-15 / a**2 if a > 5e-7 else 1e-7
            if op != "exp" and a > 9e-4:  # 1/theta - sin/(2 (1 - cos)) right above its series
                tol += 4e-16 / a**3
        if g in ("SO3", "SE3"):
            if a < 5.2e-3:
                tol += 0.5 * a**2 + 1e-9
            tol += min(1e-12 / a**2, 1e-6)
        if op != "exp" and math.pi - ang < 1e-2:
            tol += min(1e-13 / max(math.pi - ang, 1e-16) ** 2, 1e-3)
    else:
        tol = 4e-4
        if g in ("SO3", "SE3", "SE2"):
            tol += 3e-7 / a**2 if a > 9e-3 else a
        if op != "exp" and math.pi - ang < 1e-1:
            tol += min(1e-5 / max(math.pi - ang, 1e-6), 1.0)
    return tol * s
