import math

import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st

from props import p03
from vlib import gens, geomops as go, ref
from vlib.core import Skip, Sub
from vlib.th import DT, close, cls, make, mats, need, np_, with_flags

PROPERTY = "P04"
RULE = (
    "A case draws an operation (or a random program of several operations) on generated elements, contracts the result "
    "with a random cotangent, back-propagates, and compares the gradient along random tangent directions with central "
    "differences of an independent float64 reference; projections and tangent-mode optimiser steps are compared with "
    "their definition. Non-trivial: the derivative is not zero."
)
ASSUMPTIONS = [
    "logarithms closer to pi than 1e-5 (float64) / 1e-2 (float32) are skipped, as their derivative grows without bound",
    "gradients of returned Jacobians are compared with finite differences of the returned Jacobians themselves",
]


def direction(g, X, xi):
    """d/dh of the data of X exp(h xi) at 0"""
    if ref.is_vec(g):
        return np.array(xi, float)
    d = X @ ref.hat(g, xi)
    if g == "SO2":
        return d[:, 0]
    if g == "SE2":
        return np.array([d[0, 2], d[1, 2], d[0, 0], d[1, 0]])
    return d if g == "SO3" else d[:3, :]


def diff(g, a, b, h):
    """(data(a) - data(b)) / 2h"""
    return (ref.to_data(g, a) - ref.to_data(g, b)) / (2 * h)


def move(g, X, xi, h):
    return ref.compose(g, X, ref.exp(g, h * np.asarray(xi)))


# ------------------------------------------------------------------------ single operations
@st.composite
def case(draw):
    c = draw(p03.case())
    c["seed"] = draw(gens.seeds)
    c["jac"] = draw(st.booleans())
    return c


def log_angle(g, op, r):
    if ref.is_vec(g) or op not in ("log", "local"):
        return 0.0
    X = r[0] if op == "log" else ref.compose(g, ref.inv(g, r[0]), r[1])
    return go.rot_angle(g, X)


def check(c, t):
    g, op, dt = c["g"], c["op"], c["dtype"]
    args, refs, n = p03.build(c)
    t.label(g, op, dt)
    ins, gout = go.operands(g, op), go.out_manifold(g, op)
    for i in range(n):
        a = log_angle(g, op, [r[i] for r in refs])
        if math.pi - a < (1e-5 if dt == "float64" else 1e-2):
            raise Skip("close to pi")
    leaves = []
    wrapped = []
    for a in args:
        if isinstance(a, torch.Tensor):
            leaf = a.clone().requires_grad_(True)
            wrapped.append(leaf)
        else:
            leaf = a.tensor.clone().requires_grad_(True)
            wrapped.append(type(a)(tensor=leaf))
        leaves.append(leaf)
    out = go.tensor(go.call(g, op, wrapped, [] if c["jac"] else None, c["style"]))
    r = gens.rng(c["seed"])
    cot = r.normal(size=tuple(out.shape))
    grads = torch.autograd.grad((out * torch.tensor(cot, dtype=out.dtype)).sum(), leaves)
    f = go.ref_fn(g, op)
    h = 1e-5
    for k, (m, leaf, G) in enumerate(zip(ins, leaves, grads)):
        need(G.shape == leaf.shape and G.dtype == leaf.dtype, f"{g}.{op}: gradient {k} has shape {tuple(G.shape)}, {G.dtype}")
        need(torch.isfinite(G).all().item(), f"{g}.{op}: gradient {k} is not finite")
        b = leaf.shape[0]
        for j in range(b):
            elems = [j] if b == n else range(n)
            xi = r.normal(size=ref.dof(m))
            want, tol = 0.0, 0.0
            for i in elems:
                x = [z[i] for z in refs]

                def fk(v):
                    y = list(x)
                    y[k] = v
                    return f(*y)
                want += (cot[i] * (diff(gout, fk(move(m, x[k], xi, h)), fk(move(m, x[k], xi, -h)), h)).reshape(cot[i].shape)).sum() \
                    if gout != "SO2" or op != "theta" else 0.0
                if op == "theta":
                    a = [ref.log("SO2", fk(move(m, x[k], xi, s * h)))[0] for s in (1, -1)]
                    want += (cot[i] * ((a[0] - a[1] + math.pi) % (2 * math.pi) - math.pi) / (2 * h)).sum()
                s = max([1.0] + [abs(v) for z in x for v in np.ravel(z)])
                ang = go.angle_of(g, x[0]) if op == "exp" else log_angle(g, op, x)
                tol += go.jac_tol(g, op, dt, s * s if op in ("local", "exp", "log", "compose", "between") else s, ang) \
                    * (np.abs(cot[i]).sum() * np.abs(xi).sum()) * s
            got = (np_(G[j]) * direction(m, refs[k][elems[0]], xi)).sum()
            t.nontrivial(abs(want) > 1e-3)
            close(got, np.float64(want), tol, f"{g}.{op}: gradient of operand {k}, element {j} (jacobians requested: {c['jac']})")


# ---------------------------------------------------------------------- gradients of Jacobians
JOPS = [(g, op) for g in ref.LIE for op in go.ops_for(g) if not (op in ("theta", "xy"))]


@st.composite
def jcase(draw):
    g, op = draw(st.sampled_from(JOPS + [("SO3", "exp"), ("SE3", "exp"), ("SO3", "log"), ("SE3", "log"), ("SE3", "local")]))
    n = draw(st.integers(1, 3))
    return dict(g=g, op=op, n=n, seed=draw(gens.seeds), ang=draw(st.sampled_from([2.5, 1.0, 0.3, 0.05])))


def check_jac(c, t):
    g, op, n = c["g"], c["op"], c["n"]
    r = gens.rng(c["seed"])
    t.label(g, op)
    ins = go.operands(g, op)
    refs = []
    for k, m in enumerate(ins):
        row = []
        for _ in range(n):
            x = r.normal(size=ref.dof(m))
            if m == g or op == "exp":
                nr = {"SO2": 0, "SE2": 2, "SO3": 0, "SE3": 3}[g]
                x[nr:] *= c["ang"] * r.uniform(0.5, 1) / np.linalg.norm(x[nr:])
            row.append(ref.exp(g, x) if m == g and op != "exp" else x)
        refs.append(row)
    if op == "local":  # keep the relative rotation away from pi
        refs[1] = [ref.compose(g, a, b) for a, b in zip(*refs)]

    def run(vals):
        leaves = [torch.tensor(np.stack([ref.to_data(m, v) if m == g and op != "exp" else v for v in row]), dtype=torch.float64).requires_grad_(True)
                  for m, row in zip(ins, vals)]
        args = [cls(g)(tensor=x) if m == g and op != "exp" else x for m, x in zip(ins, leaves)]
        jac = []
        go.call(g, op, args, jac)
        return leaves, jac

    leaves, jac = run(refs)
    cots = [r.normal(size=tuple(J.shape)) for J in jac]
    val = sum((J * torch.tensor(w)).sum() for J, w in zip(jac, cots))
    if not val.requires_grad:
        grads = [None] * len(leaves)
    else:
        grads = torch.autograd.grad(val, leaves, allow_unused=True)
    h = 1e-5
    for k, m in enumerate(ins):
        mm = m if (m == g and op != "exp") else "R%d" % ref.dof(m)
        for i in range(n):
            xi = r.normal(size=ref.dof(m))
            vals = []
            for s in (h, -h):
                row = [list(z) for z in refs]
                row[k][i] = move(mm, row[k][i], xi, s)
                vals.append(sum((np_(J) * w).sum() for J, w in zip(run(row)[1], cots)))
            want = (vals[0] - vals[1]) / (2 * h)
            got = 0.0 if grads[k] is None else (np_(grads[k][i]) * direction(mm, refs[k][i], xi)).sum()
            t.nontrivial(abs(want) > 1e-3)
            close(got, np.float64(want), 2e-5 * (1 + abs(want)) * (1 + np.abs(xi).sum()), f"{g}.{op}: gradient of the Jacobians with respect to operand {k}")


# ------------------------------------------------------------------------- random programs
STEPS = ["compose", "between", "inverse", "retract", "relog"]
ENDS = ["local", "log", "from", "to", "data", "adjoint", "quat"]


@st.composite
def prog_case(draw):
    g = draw(st.sampled_from(ref.LIE))
    n = draw(st.integers(1, 3))
    end = draw(st.sampled_from(ENDS))
    return dict(g=g, n=n, seed=draw(gens.seeds), single=draw(st.lists(st.booleans(), min_size=3, max_size=3)), end=end,
                steps=draw(st.lists(st.tuples(st.sampled_from(STEPS), st.integers(0, 5), st.integers(0, 5)), min_size=1, max_size=5)),
                scale=draw(st.sampled_from([0.3, 1.0, 2.0])))


def quat_of(R):
    w = np.array(ref.log("SO3", R))
    a = np.linalg.norm(w)
    return np.concatenate([[math.cos(a / 2)], (0.5 if a < 1e-12 else math.sin(a / 2) / a) * w])


def check_prog(c, t):
    g, n = c["g"], c["n"]
    if c["end"] == "quat" and g not in ("SO3", "SE3"):
        raise Skip("no quaternion")
    r = gens.rng(c["seed"])
    t.label(g, c["end"], len(c["steps"]))
    b = [1 if s else n for s in c["single"]]
    d = ref.dof(g)
    base = [[ref.exp(g, r.normal(size=d) * c["scale"]) for _ in range(k)] for k in b]
    deltas = [[r.normal(size=d) * c["scale"] for _ in range(n)] for _ in range(3)]
    pts = [r.normal(size=go.ROT[g]) for _ in range(n)]
    if c["end"] in ("adjoint", "data", "quat", "log") or True:
        steps = [s for s in c["steps"]]

    class Pi(Exception):
        pass

    def lg(X):
        if math.pi - go.rot_angle(g, X) < 0.1:
            raise Pi()
        return ref.log(g, X)

    def refrun(vals, dl, pt, i):
        X = [v[i if len(v) == n else 0] for v in vals]
        for op, p, q in steps:
            a, e = X[p % len(X)], X[q % len(X)]
            if op == "compose":
                y = ref.compose(g, a, e)
            elif op == "between":
                y = ref.compose(g, ref.inv(g, a), e)
            elif op == "inverse":
                y = ref.inv(g, a)
            elif op == "retract":
                y = ref.compose(g, a, ref.exp(g, dl[q % 3][i]))
            else:
                y = ref.exp(g, 0.7 * lg(a))
            X.append(y)
        a, e = X[-1], X[-2]
        if c["end"] == "local":
            return lg(ref.compose(g, ref.inv(g, e), a))
        if c["end"] == "log":
            return lg(a)
        if c["end"] == "from":
            return ref.act(g, a, pt[i])
        if c["end"] == "to":
            return ref.act(g, ref.inv(g, a), pt[i])
        if c["end"] == "adjoint":
            return ref.adj(g, a)
        if c["end"] == "quat":
            lg(a)
            q = quat_of(a[:3, :3])
            return q if g == "SO3" else np.concatenate([a[:3, 3], q])
        return ref.to_data(g, a)

    try:
        want0 = [refrun(base, deltas, pts, i) for i in range(n)]
    except Pi:
        raise Skip("close to pi")
    leaves = [torch.tensor(np.stack([ref.to_data(g, x) for x in v])).requires_grad_(True) for v in base]
    dleaf = [torch.tensor(np.stack(x)).requires_grad_(True) for x in deltas]
    pleaf = torch.tensor(np.stack(pts)).requires_grad_(True)
    X = [cls(g)(tensor=v) for v in leaves]
    for op, p, q in steps:
        a, e = X[p % len(X)], X[q % len(X)]
        if op == "compose":
            y = a.compose(e)
        elif op == "between":
            y = a.between(e)
        elif op == "inverse":
            y = a.inverse()
        elif op == "retract":
            y = a.retract(dleaf[q % 3])
        else:
            y = cls(g).exp_map(0.7 * a.log_map())
        X.append(y)
    a, e = X[-1], X[-2]
    if c["end"] == "local":
        out = e.local(a)
    elif c["end"] == "log":
        out = a.log_map()
    elif c["end"] in ("from", "to"):
        out = go.tensor(go.call(g, c["end"], [a, pleaf]))
    elif c["end"] == "adjoint":
        out = a.adjoint()
    elif c["end"] == "quat":
        out = a.to_quaternion() if g == "SO3" else a.to_x_y_z_quaternion()
    else:
        out = a.tensor
    m = out.shape[0]
    s = max(1.0, max(np.abs(w).max() for w in want0))
    for i in range(m):
        close(out[i], np.asarray(want0[i]).reshape(tuple(out.shape[1:])), 1e-6 * s, f"{g}: value of the program, element {i}")
    if not out.requires_grad:
        raise Skip("constant program")
    cot = r.normal(size=tuple(out.shape))
    ins = leaves + dleaf + [pleaf]
    grads = torch.autograd.grad((out * torch.tensor(cot)).sum(), ins, allow_unused=True)
    xis = [r.normal(size=(len(v), d)) for v in base]
    dd = [r.normal(size=(n, d)) for _ in range(3)]
    dp = r.normal(size=(n, go.ROT[g]))
    got = 0.0
    for G, x in zip(grads, [np.stack([direction(g, X_, xi) for X_, xi in zip(v, z)]) for v, z in zip(base, xis)] + dd + [dp]):
        if G is not None:
            need(torch.isfinite(G).all().item(), f"{g}: gradient of a program is not finite")
            got += (np_(G) * x).sum()
    h = 1e-5
    want = 0.0
    for sg in (1, -1):
        vals = [[move(g, X_, xi, sg * h) for X_, xi in zip(v, z)] for v, z in zip(base, xis)]
        dl = [[x + sg * h * y for x, y in zip(u, w)] for u, w in zip(deltas, dd)]
        pt = [x + sg * h * y for x, y in zip(pts, dp)]
        try:
            want += sg * sum((cot[i] * np.asarray(refrun(vals, dl, pt, i)).reshape(cot[i].shape)).sum() for i in range(m)) / (2 * h)
        except Pi:
            raise Skip("close to pi")
    t.nontrivial(abs(want) > 1e-3)
    close(got, np.float64(want), 2e-5 * (1 + abs(want)) * s * s, f"{g}: gradient of a program of {len(steps)} operations ending in {c['end']}")


# -------------------------------------------------------------- projections of Euclidean gradients
@st.composite
def proj_case(draw):
    g = draw(st.sampled_from(ref.LIE * 3 + ["R3", "Point2"]))
    n = draw(st.integers(1, 4))
    return dict(g=g, n=n, x=draw(gens.batch(g, n)), seed=draw(gens.seeds), sparse=draw(st.booleans()), dtype=draw(gens.dtypes),
                lead=draw(st.lists(st.integers(1, 3), max_size=2)))


def check_proj(c, t):
    g, n, dt = c["g"], c["n"], c["dtype"]
    v = make(g, [ref.exp(g, x) for x in c["x"]], dt)
    r = gens.rng(c["seed"])
    item = tuple(v.shape[1:])
    shape = (n,) + tuple(c["lead"]) + item if c["sparse"] else tuple(c["lead"]) + (n,) + item
    E = r.normal(size=shape)
    E = torch.tensor(E, dtype=DT[dt])
    keep = E.clone()
    P = v.project(E, is_sparse=c["sparse"])
    need(torch.equal(E, keep), "project modified its argument")
    need(P.dtype == DT[dt], "project changed the dtype")
    t.label(g, "sparse" if c["sparse"] else "dense", len(c["lead"]))
    t.nontrivial(any(np.abs(np.array(x)).max() > 0 for x in c["x"]))
    En = np_(E)
    k = len(c["lead"])
    want = np.zeros(shape[:len(shape) - len(item)] + (ref.dof(g),))
    for i, X in enumerate(mats(g, v)):
        for a in range(ref.dof(g)):
            xi = np.zeros(ref.dof(g))
            xi[a] = 1
            D = direction(g, X, xi)
            if c["sparse"]:
                want[(i,) + (slice(None),) * k + (a,)] = (En[i] * D).reshape(En[i].shape[:k] + (-1,)).sum(-1)
            else:
                sl = En[(slice(None),) * k + (i,)]
                want[(slice(None),) * k + (i, a)] = (sl * D).reshape(sl.shape[:k] + (-1,)).sum(-1)
    close(P, want, (1e-12 if dt == "float64" else 1e-4) * (1 + np.abs(want).max()), f"{g}.project(is_sparse={c['sparse']})")


# --------------------------------------------------------------- optimiser steps on the manifold
@st.composite
def step_case(draw):
    g = draw(st.sampled_from(ref.LIE))
    return dict(g=g, x=draw(gens.batch(g, draw(st.integers(1, 3)))), seed=draw(gens.seeds),
                kind=draw(st.sampled_from(["sgd", "momentum", "addcdiv", "addcmul", "add", "off"])), lie=draw(st.booleans()),
                steps=draw(st.integers(1, 3)), lr=draw(st.sampled_from([0.01, 0.3, 1.0])))


def check_step(c, t):
    g, kind = c["g"], c["kind"]
    lie_api = c["lie"] and g in ("SO3", "SE3")
    r = gens.rng(c["seed"])
    v = make(g, [ref.exp(g, x) for x in c["x"]])
    n = len(c["x"])
    X = mats(g, v)
    t.label(g, kind, "lietensor" if lie_api else "theseus")
    t.nontrivial(True)
    A = [r.normal(size=tuple(v.shape)) for _ in range(c["steps"])]
    B = [r.uniform(0.5, 2, size=tuple(v.shape)) for _ in range(c["steps"])]

    def step(E):
        """the reference: retract by minus lr times the projection of the Euclidean direction"""
        for i in range(n):
            xi = np.array([(E[i] * direction(g, X[i], e)).sum() for e in np.eye(ref.dof(g))])
            X[i] = ref.compose(g, X[i], ref.exp(g, -c["lr"] * xi))

    if lie_api:
        import torchlie as lie
        if kind == "off":
            raise Skip("theseus only")
        p = lie.LieTensor(v.tensor.clone(), lie.SO3 if g == "SO3" else lie.SE3, requires_grad=True)
        opt = torch.optim.SGD([p], lr=c["lr"], momentum=0.5 if kind == "momentum" else 0.0, foreach=False)
        buf = None
        with torch.no_grad():
            mark = lie.lie_tensor._EuclideanGrad
            for a, d in zip(A, B):
                ta, tb = torch.tensor(a), torch.tensor(d)
                if kind in ("sgd", "momentum"):
                    # a loss linear in the data has the Euclidean gradient a
                    with torch.enable_grad():
                        opt.zero_grad()
                        (p._t * ta).sum().backward()
                    opt.step()
                    buf = a if buf is None or kind == "sgd" else 0.5 * buf + a
                    step(buf)
                elif kind == "add":
                    p.add_(mark(ta), alpha=-c["lr"])
                    step(a)
                elif kind == "addcdiv":
                    p.addcdiv_(mark(ta), tb, value=-c["lr"])
                    step(a / d)
                else:
                    p.addcmul_(mark(ta), tb, value=-c["lr"])
                    step(a * d)
        out = p._t
    else:
        p = th.LieGroupTensor(v)
        with torch.no_grad():
            ctx = th.set_lie_tangent_enabled(kind != "off")
            with ctx:
                buf = None
                opt = torch.optim.SGD([p], lr=c["lr"], momentum=0.5 if kind == "momentum" else 0.0, foreach=False)
                for a, d in zip(A, B):
                    ta, tb = torch.tensor(a), torch.tensor(d)
                    if kind in ("sgd", "momentum"):
                        p.grad = ta.clone()
                        opt.step()
                        buf = a if buf is None or kind == "sgd" else 0.5 * buf + a
                        step(buf)
                    elif kind in ("add", "off"):
                        p.add_(ta, alpha=-c["lr"])
                        if kind == "add":
                            step(a)
                    elif kind == "addcdiv":
                        p.addcdiv_(ta, tb, value=-c["lr"])
                        step(a / d)
                    else:
                        p.addcmul_(ta, tb, value=-c["lr"])
                        step(a * d)
        out = p.detach().as_subclass(torch.Tensor)
    if kind == "off":
        want = np_(v.tensor) if False else None
        base = np.stack([ref.to_data(g, ref.exp(g, x)) for x in c["x"]])
        want = base - c["lr"] * sum(A)
    else:
        want = np.stack([ref.to_data(g, x) for x in X])
    close(out, want, 2e-7 * (1 + np.abs(want).max()), f"{g}: {kind} step on the manifold")


# ------------------------------------------------------------ conversions with custom derivatives
@st.composite
def conv_case(draw):
    return dict(kind=draw(st.sampled_from(["quat_so3", "quat_se3", "to_quat", "to_quat_se3", "normalize"])),
                x=draw(gens.batch("SO3", draw(st.integers(1, 3)))), seed=draw(gens.seeds),
                noise=draw(st.sampled_from([0.0, 1e-3, 0.1])))


def check_conv(c, t):
    kind = c["kind"]
    r = gens.rng(c["seed"])
    X = [ref.exp("SO3", x) for x in c["x"]]
    n = len(X)
    t.label(kind)
    h = 1e-6
    if kind in ("quat_so3", "quat_se3"):
        q = np.stack([quat_of(R) for R in X]) * r.choice([-1.0, 1.0], size=(n, 1))
        if kind == "quat_se3":
            q = np.concatenate([r.normal(size=(n, 3)), q], 1)
        leaf = torch.tensor(q).requires_grad_(True)
        out = th.SO3.unit_quaternion_to_SO3(leaf).tensor if kind == "quat_so3" else th.SE3.x_y_z_unit_quaternion_to_SE3(leaf).tensor

        def f(y):  # directions of any kind: the quaternion is normalised
            z = y[-4:] / np.linalg.norm(y[-4:])
            R = Rq(z)
            return R if kind == "quat_so3" else np.concatenate([R, y[:3, None]], 1)
        base, dirs = q, r.normal(size=q.shape)
        moved = lambda i, s: q[i] + s * dirs[i]
    elif kind in ("to_quat", "to_quat_se3"):
        if any(math.pi - np.linalg.norm(x) < 0.05 for x in c["x"]):
            raise Skip("close to pi")
        xi = r.normal(size=(n, 3))
        T = r.normal(size=(n, 3))
        if kind == "to_quat":
            data = np.stack(X)
            leaf = torch.tensor(data).requires_grad_(True)
            out = th.SO3(tensor=leaf).to_quaternion()
            f = quat_of
        else:
            data = np.stack([np.concatenate([R, p[:, None]], 1) for R, p in zip(X, T)])
            leaf = torch.tensor(data).requires_grad_(True)
            out = th.SE3(tensor=leaf).to_x_y_z_quaternion()
            f = lambda M: np.concatenate([M[:, 3], quat_of(M[:, :3])])
        dt_ = r.normal(size=(n, 3))

        def moved(i, s):
            R = X[i] @ ref.exp("SO3", s * xi[i])
            return R if kind == "to_quat" else np.concatenate([R, (T[i] + s * dt_[i])[:, None]], 1)
        dirs = np.stack([(moved(i, 1e-6) - moved(i, -1e-6)) / 2e-6 for i in range(n)])
    else:
        data = np.stack(X) + c["noise"] * r.normal(size=(n, 3, 3))
        if any(np.linalg.svd(m)[1].min() < 0.3 or np.linalg.det(m) < 0 for m in data):
            raise Skip("far from a rotation")
        leaf = torch.tensor(data).requires_grad_(True)
        out = th.SO3.normalize(leaf)

        def f(m):
            u, _, vt = np.linalg.svd(m)
            return u @ np.diag([1, 1, np.linalg.det(u @ vt)]) @ vt
        dirs = r.normal(size=data.shape)
        moved = lambda i, s: data[i] + s * dirs[i]
    cot = r.normal(size=tuple(out.shape))
    G = torch.autograd.grad((out * torch.tensor(cot)).sum(), leaf)[0]
    need(torch.isfinite(G).all().item(), f"{kind}: gradient is not finite")
    t.nontrivial(any(np.abs(np.array(x)).max() > 0 for x in c["x"]))
    for i in range(n):
        want = (cot[i] * (f(moved(i, h)) - f(moved(i, -h))) / (2 * h)).sum()
        got = (np_(G[i]) * dirs[i]).sum()
        slack = 1e-6
        a = np.linalg.norm(c["x"][i])
        if kind.startswith("to_quat") and a < 1.2e-2:
            slack = 1e-4
        close(got, np.float64(want), slack * (1 + abs(want)) * (1 + np.abs(dirs[i]).sum()), f"{kind}: gradient, element {i} (angle {a:.4g})")


def Rq(q):
    w, x, y, z = q
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


SUBS = [
    Sub("operations", *with_flags(case, check), 1800, shards=(6, 8)),
    Sub("jacobians", *with_flags(jcase, check_jac), 300, shards=(2, 4)),
    Sub("programs", *with_flags(prog_case, check_prog), 600, shards=(4, 8)),
    Sub("project", proj_case, check_proj, 400, shards=(1, 4)),
    Sub("steps", step_case, check_step, 300, shards=(1, 4)),
    Sub("conversions", conv_case, check_conv, 400, shards=(1, 4)),
]
