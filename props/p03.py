import math

import numpy as np
import torch
from hypothesis import strategies as st

from vlib import gens, geomops as go, ref
from vlib.core import Skip, Sub
from vlib.th import DT, close, make, mats, need, np_, with_flags

PROPERTY = "P03"
RULE = (
    "A case draws a group, an operation returning Jacobians, dtype, operand batches (equal or one "
    "singleton) and tangents weighted to branch angles; each returned Jacobian is compared with central "
    "differences of an independent float64 reference. Non-trivial: some operand is not the identity."
)
ASSUMPTIONS = [
    "logarithm Jacobians are compared with the inverse of the numerical exponential Jacobian at the "
    "returned value (exact identity below pi)",
    "small-angle approximations of the 3D groups are tolerated to O(theta^2) below their switch",
]


@st.composite
def case(draw):
    g = draw(st.sampled_from(ref.LIE * 3 + ["R1", "R2", "R3", "Point2", "Point3"]))
    op = draw(st.sampled_from(go.ops_for(g)))
    b = draw(st.integers(1, 3))
    ins = go.operands(g, op)
    mix = draw(st.sampled_from(["same", "same", "first1", "second1"])) if len(ins) == 2 else "same"
    bs = [1 if mix == "first1" else b, 1 if mix == "second1" else b]
    xs = []
    for i, m in enumerate(ins):
        if op == "exp":
            xs.append(draw(gens.batch(g, bs[i], beyond_pi=True)))
        elif m.startswith("R") and not ref.is_vec(g):
            xs.append(draw(st.lists(gens.vec(ref.dof(m)), min_size=bs[i], max_size=bs[i])))
        else:
            xs.append(draw(gens.batch(g, bs[i])))
    return dict(g=g, op=op, dtype=draw(gens.dtypes), x=xs, style=draw(st.integers(0, 1)),
                point=draw(st.integers(0, 1)))


def build(c):
    """theseus operands and reference elements (as rounded to the dtype)."""
    g, op, dt = c["g"], c["op"], c["dtype"]
    args, refs = [], []
    for m, x in zip(go.operands(g, op), c["x"]):
        if m == g and op != "exp":
            v = make(g, [ref.exp(g, y) for y in x], dt)
            refs.append(mats(g, v))
        else:
            v = torch.tensor(x, dtype=DT[dt])
            refs.append([r for r in v.double().numpy()])
            if op in ("from", "to") and c["point"]:
                v = make("Point%d" % go.ROT[g], refs[-1], dt)
        args.append(v)
    n = max(len(r) for r in refs)
    refs = [r if len(r) == n else r * n for r in refs]
    return args, refs, n


def check(c, t):
    g, op, dt = c["g"], c["op"], c["dtype"]
    args, refs, n = build(c)
    t.label(g, op, dt)
    t.nontrivial(any(np.abs(np.array(x)).max() > 0 for x in c["x"]))
    keep = [go.tensor(a).clone() for a in args]
    plain = go.call(g, op, args, None, c["style"])
    jac = []
    out = go.call(g, op, args, jac, c["style"])
    for a, k in zip(args, keep):
        need(torch.equal(go.tensor(a), k), f"{g}.{op} modified an operand")
    need(type(out) is type(plain), "result type depends on jacobians=")
    need(torch.equal(go.tensor(out), go.tensor(plain)), f"{g}.{op}: value changes when Jacobians are requested")
    ins, gout = go.operands(g, op), go.out_manifold(g, op)
    need(len(jac) == len(ins), f"{g}.{op}: {len(jac)} Jacobians for {len(ins)} operands")
    f = go.ref_fn(g, op)
    do = ref.dof(gout)
    s = max([1.0] + [abs(v) for x in refs for y in x for v in np.ravel(y)])
    if op == "local" and not ref.is_vec(g):
        rel = [ref.compose(g, ref.inv(g, a), b) for a, b in zip(*refs)]
        s = max(s, max(abs(v) for r in rel for v in np.ravel(r)))
    full = []
    for k, (m, J) in enumerate(zip(ins, jac)):
        need(J.dtype == DT[dt], f"{g}.{op}: Jacobian dtype {J.dtype}")
        need(J.ndim == 3 and J.shape[1:] == (do, ref.dof(m)), f"{g}.{op}: Jacobian {k} shape {tuple(J.shape)}")
        need(J.shape[0] in (1, n), f"{g}.{op}: Jacobian {k} batch {J.shape[0]} for batch {n}")
        full.append(np.broadcast_to(np_(J), (n, do, ref.dof(m))))
    val = np_(go.tensor(out))
    for i in range(n):
        xi = [r[i] for r in refs]
        ang = 0.0
        if op == "exp":
            ang = go.angle_of(g, xi[0])
        elif op in ("log", "local"):
            ang = go.angle_of(g, val[i])
        if op in ("log", "local") and not ref.is_vec(g):
            # J_log = inverse of the exponential's Jacobian at the returned value
            if math.pi - ang < (1e-6 if dt == "float64" else 2e-3):
                t.label("too close to pi")
                continue
            d = "R%d" % ref.dof(g)
            Jl = np.linalg.inv(ref.num_jac(d, val[i], lambda v: ref.exp(g, v), g))
            if op == "log":
                want = [Jl]
            else:
                want = [-Jl @ ref.adj(g, ref.inv(g, rel[i])), Jl]
        else:
            want = []
            for k, m in enumerate(ins):
                def fk(v, k=k):
                    a = list(xi)
                    a[k] = v
                    return f(*a)
                want.append(ref.num_jac(m, xi[k], fk, gout))
        tol = go.jac_tol(g, op, dt, s * s if op in ("local", "exp", "log", "compose", "between") else s, ang)
        for k in range(len(ins)):
            close(full[k][i], want[k], tol, f"{g}.{op} Jacobian of operand {k}, element {i} (angle {ang:.4g})")


@st.composite
def bad_case(draw):
    g = draw(st.sampled_from(ref.LIE + ["R2"]))
    op = draw(st.sampled_from(go.ops_for(g)))
    c = dict(g=g, op=op, dtype="float64", style=0, point=0, x=[])
    for m in go.operands(g, op):
        c["x"].append([draw(gens.vec(ref.dof(m))) if m != g else draw(gens.tangent(g))])
    return c


def check_bad(c, t):
    """A non-empty list of Jacobians is rejected rather than appended to."""
    args, _, _ = build(c)
    t.label(c["g"], c["op"])
    t.nontrivial()
    jac = [torch.zeros(1)]
    try:
        go.call(c["g"], c["op"], args, jac, 0)
    except ValueError:
        need(len(jac) == 1, "rejected call still appended Jacobians")
        return
    raise Skip("accepted")


# ---------------------------------------------------------------- the functional 3D API
FOPS = ["exp", "log", "inv", "compose", "transform", "untransform", "quaternion_to_rotation"]
SAME = {"inv": "inverse", "transform": "from", "untransform": "to"}


@st.composite
def fun_case(draw):
    g = draw(st.sampled_from(["SO3", "SE3"]))
    op = draw(st.sampled_from(FOPS if g == "SO3" else FOPS[:-1]))
    c = dict(g=g, op=op, dtype=draw(gens.dtypes), style=draw(st.integers(0, 3)), n=draw(st.integers(1, 3)), seed=draw(gens.seeds))
    n = c["n"]
    if op == "quaternion_to_rotation":
        c["x"] = [draw(st.lists(gens.vec(4), min_size=n, max_size=n))]
    elif op in ("transform", "untransform"):
        c["x"] = [draw(gens.batch(g, n)), draw(st.lists(gens.vec(3), min_size=n, max_size=n))]
    else:
        c["x"] = [draw(gens.batch(g, n, beyond_pi=op == "exp")) for _ in range(2 if op == "compose" else 1)]
    return c


def fun_check(c, t):
    import torchlie
    import torchlie.functional as lf

    g, op, dt, n = c["g"], c["op"], c["dtype"], c["n"]
    t.label(g, op, dt)
    t.nontrivial(any(np.abs(np.array(x)).max() > 0 for x in c["x"]))
    fn, st_ = getattr(lf, g), c["style"]
    if op == "quaternion_to_rotation":
        q = np.array(c["x"][0], float)
        if (np.linalg.norm(q, axis=1) < 0.1).any():
            raise Skip("too short")
        q /= np.linalg.norm(q, axis=1, keepdims=True)
        q = torch.tensor(q, dtype=DT[dt])
        jac = []
        if st_ % 2:
            jac, _ = fn.jquaternion_to_rotation(q)
        else:
            fn.quaternion_to_rotation(q, jacobians=jac)

        def f(v):
            w, x, y, z = v / np.linalg.norm(v)
            return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                             [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                             [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])

        for i in range(n):
            v, h = q[i].double().numpy(), 1e-5
            R = f(v)
            want = np.stack([ref.vee("SO3", R.T @ (f(v + h * e) - f(v - h * e)) / (2 * h)) for e in np.eye(4)], 1)
            # tangent directions only: the matrix of a scaled quaternion is not defined by the conversion
            P = np.eye(4) - np.outer(v, v) / (v @ v)
            close(np_(jac[0])[i] @ P, want @ P, 1e-8 if dt == "float64" else 1e-4, f"quaternion Jacobian, element {i}")
        return
    gop = SAME.get(op, op)
    cc = dict(c, op=gop, point=0)
    args, refs, _ = build(cc)
    raw = [go.tensor(a) for a in args]
    jac = []
    if st_ == 0:
        out = getattr(fn, op)(*raw, jacobians=jac)
    elif st_ == 1:
        jac, out = getattr(fn, "j" + op)(*raw)
    else:  # Lie tensors, and the module level functions
        L = getattr(torchlie, g)
        if op == "exp":
            jac, out = L.jexp(raw[0])
        else:
            a = [torchlie.LieTensor(x, L) if i == 0 or op == "compose" else x for i, x in enumerate(raw)]
            jac, out = getattr(torchlie, "j" + op)(*a) if st_ == 2 else getattr(a[0], "j" + op)(*a[1:])
        out = out._t if isinstance(out, torchlie.LieTensor) else out
    ins, gout = go.operands(g, gop), go.out_manifold(g, gop)
    need(len(jac) == len(ins), f"functional {g}.{op}: {len(jac)} Jacobians for {len(ins)} operands")
    s = max([1.0] + [abs(v) for x in refs for y in x for v in np.ravel(y)])
    val, do, fr = np_(out), ref.dof(gout), go.ref_fn(g, gop)
    for i in range(n):
        xi = [r[i] for r in refs]
        ang = go.angle_of(g, xi[0]) if op == "exp" else go.angle_of(g, val[i]) if op == "log" else 0.0
        if op == "log":
            if math.pi - ang < (1e-6 if dt == "float64" else 2e-3):
                t.label("too close to pi")
                continue
            want = [np.linalg.inv(ref.num_jac("R%d" % ref.dof(g), val[i], lambda v: ref.exp(g, v), g))]
        else:
            want = [ref.num_jac(m, xi[k], lambda v, k=k: fr(*(xi[:k] + [v] + xi[k + 1:])), gout) for k, m in enumerate(ins)]
        tol = go.jac_tol(g, gop, dt, s * s if op in ("exp", "log", "compose") else s, ang)
        for k, J in enumerate(jac):
            need(tuple(J.shape) == (n, do, ref.dof(ins[k])) and J.dtype == DT[dt], f"functional {g}.{op}: Jacobian {k} is {J.dtype} {tuple(J.shape)}")
            close(np_(J)[i], want[k], tol, f"functional {g}.{op} Jacobian of operand {k}, element {i} (angle {ang:.4g})")


SUBS = [
    Sub("jacobians", *with_flags(case, check), 2400, shards=(8, 8)),
    Sub("nonempty", bad_case, check_bad, 100),
    Sub("functional", *with_flags(fun_case, fun_check), 800, shards=(2, 4)),
]
