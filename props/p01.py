import numpy as np
import torch
import theseus as th
from hypothesis import strategies as st

from vlib import gens, geomops, ref
from vlib.core import Sub
from vlib.th import DT, close, cls, elems, expect_raise, make, mats, need, scale_of

PROPERTY = "P01"
RULE = (
    "A case draws a group, dtype, batch sizes (equal, or one operand singleton), tangent vectors "
    "weighted to zero/tiny/near-pi angles and points; elements are built by an independent numpy "
    "reference. Histories mix use, updates and in-place writes, comparing the element with a new one. Non-trivial: batch elements are not all the identity."
)
ASSUMPTIONS = ["float32 tolerance 2e-5*scale, float64 tolerance 1e-11*scale"]
TOL = {"float64": 1e-11, "float32": 3e-5}


@st.composite
def ops_case(draw):
    g = draw(st.sampled_from(ref.GROUPS))
    b = draw(st.integers(1, 4))
    mix = draw(st.sampled_from(["same", "same", "first1", "second1"]))
    b1 = 1 if mix == "first1" else b
    b2 = 1 if mix == "second1" else b
    return dict(
        g=g, dtype=draw(gens.dtypes),
        x=draw(gens.batch(g, b1)), y=draw(gens.batch(g, b2)), z=draw(gens.batch(g, b1)),
        xi=draw(gens.vec(ref.dof(g), 1.0)),
    )


def bc(l, n):
    return l if len(l) == n else l * n


def _valid(g, v, dtype, b, what):
    need(type(v) is cls(g), f"{what}: returned {type(v).__name__} instead of {cls(g).__name__}")
    need(v.dtype == DT[dtype], f"{what}: dtype {v.dtype}")
    need(v.shape[0] == b, f"{what}: batch {v.shape[0]} expected {b}")
    if ref.is_vec(g):
        return
    for m in mats(g, v):
        n = {"SO2": 2, "SE2": 2, "SO3": 3, "SE3": 3}[g]
        R = m[:n, :n]
        close(R @ R.T, np.eye(n), 1e-5 if dtype == "float32" else 1e-12, f"{what}: rotation not orthonormal")
        need(np.linalg.det(R) > 0, f"{what}: reflection")


def check_ops(c, t):
    g, dt = c["g"], c["dtype"]
    X, Y, Z = elems(g, c["x"]), elems(g, c["y"]), elems(g, c["z"])
    x, y, z = make(g, X, dt), make(g, Y, dt), make(g, Z, dt)
    X, Y, Z = mats(g, x), mats(g, y), mats(g, z)  # as rounded to dtype
    before = [v.tensor.clone() for v in (x, y, z)]
    n = max(len(X), len(Y))
    tol = TOL[dt] * scale_of(*[np.stack(v) for v in (X, Y, Z)]) ** 2
    t.label(g, dt, "mixed" if len(X) != len(Y) else "same")
    t.nontrivial(any(any(v) for v in c["x"]))
    for v in c["x"]:
        gens.classify_tangent(g, v, t)

    def chk(v, want, what, b=n):
        _valid(g, v, dt, b, what)
        close(np.stack(mats(g, v)), np.stack(want), tol, what)

    xy = x.compose(y)
    chk(xy, [ref.compose(g, a, b) for a, b in zip(bc(X, n), bc(Y, n))], "compose")
    chk(x.inverse(), [ref.inv(g, a) for a in X], "inverse", len(X))
    chk(x.inverse().inverse(), X, "inverse of inverse", len(X))
    chk(x.between(y), [ref.compose(g, ref.inv(g, a), b) for a, b in zip(bc(X, n), bc(Y, n))], "between")
    chk(xy.compose(z), mats(g, x.compose(y.compose(z))), "associativity")
    ident = [ref.exp(g, np.zeros(ref.dof(g)))] * len(X)
    chk(x.compose(x.inverse()), ident, "x compose inverse", len(X))
    chk(x.inverse().compose(x), ident, "inverse compose x", len(X))
    # adjoint: value and conjugation
    A = x.adjoint()
    close(A, np.stack([ref.adj(g, a) for a in X]), tol, "adjoint")
    if not ref.is_vec(g):
        e = make(g, [ref.exp(g, np.array(c["xi"]) * 0.3)] * len(X), dt)
        Ax = [ref.exp(g, A[i].double().numpy() @ (np.array(c["xi"]) * 0.3)) for i in range(len(X))]
        chk(x.compose(e).compose(x.inverse()), Ax, "conjugation by adjoint", len(X))
    # module-level wrappers must agree with the methods
    chk(th.compose(x, y), mats(g, xy), "module-level compose")
    chk(th.inverse(x), mats(g, x.inverse()), "module-level inverse", len(X))
    chk(th.between(x, y), mats(g, x.between(y)), "module-level between")
    close(th.adjoint(x), A, tol, "module-level adjoint")
    for v, b0, nm in zip((x, y, z), before, "xyz"):
        need(torch.equal(v.tensor, b0), f"operand {nm} was modified")


@st.composite
def act_case(draw):
    g = draw(st.sampled_from(ref.LIE))
    b = draw(st.integers(1, 4))
    mix = draw(st.sampled_from(["same", "same", "g1", "p1"]))
    n = 2 if g in ("SO2", "SE2") else 3
    bg, bp = (1 if mix == "g1" else b), (1 if mix == "p1" else b)
    return dict(
        g=g, dtype=draw(gens.dtypes), x=draw(gens.batch(g, bg)), y=draw(gens.batch(g, bg)),
        p=draw(st.lists(gens.vec(n), min_size=bp, max_size=bp)),
        kind=draw(st.sampled_from(["point", "tensor"])),
    )


def check_act(c, t):
    g, dt = c["g"], c["dtype"]
    x, y = make(g, elems(g, c["x"]), dt), make(g, elems(g, c["y"]), dt)
    X, Y = mats(g, x), mats(g, y)
    pt = torch.tensor(c["p"], dtype=DT[dt])
    P = [r for r in pt.double().numpy()]
    n = len(P[0])
    pcls = th.Point2 if n == 2 else th.Point3
    p = pcls(tensor=pt.clone()) if c["kind"] == "point" else pt.clone()
    b = max(len(X), len(P))
    tol = TOL[dt] * scale_of(np.stack(X), np.stack(P)) ** 2
    t.label(g, dt, c["kind"], "mixed" if len(X) != len(P) else "same")
    t.nontrivial(any(any(v) for v in c["x"]) and any(any(v) for v in c["p"]))
    fwd = (lambda a, q: a.rotate(q)) if g in ("SO2", "SO3") else (lambda a, q: a.transform_from(q))
    bwd = (lambda a, q: a.unrotate(q)) if g in ("SO2", "SO3") else (lambda a, q: a.transform_to(q))
    f, w = fwd(x, p), bwd(x, p)
    for r in (f, w):
        need(isinstance(r, pcls), f"action returned {type(r).__name__}")
        need(r.dtype == DT[dt], "action changed the dtype")
    close(f.tensor, np.stack([ref.act(g, a, q) for a, q in zip(bc(X, b), bc(P, b))]), tol, "action on points")
    close(w.tensor, np.stack([ref.act(g, ref.inv(g, a), q) for a, q in zip(bc(X, b), bc(P, b))]), tol, "inverse action on points")
    close(bwd(x, f).tensor, np.stack(bc(P, b)), tol * 3, "inverse action undoes action")
    close(fwd(x.compose(y), p).tensor, fwd(x, fwd(y, p)).tensor, tol * 10, "action of a composition")
    need(torch.equal(p if c["kind"] == "tensor" else p.tensor, pt), "the points were modified")
    close(np.stack(mats(g, x)), np.stack(X), 0, "group element was modified")


# ------------------------------------------------------------- Euclidean variables as vectors
@st.composite
def vec_case(draw):
    g = draw(st.sampled_from(["R1", "R2", "R3", "R5", "Point2", "Point3"]))
    return dict(g=g, b=[draw(st.integers(0, 2)) > 0 for _ in range(2)], B=draw(st.integers(1, 4)), seed=draw(gens.seeds), dtype=draw(gens.dtypes),
                other=draw(st.sampled_from(["same", "vector"])), k=draw(st.integers(1, 4)), scale=draw(st.sampled_from([1e-3, 1.0, 1e4])), neg=draw(st.booleans()))


def check_vec(c, t):
    """arithmetic of Vector, Point2 and Point3 is componentwise and stays within the class"""
    g, dt = c["g"], DT[c["dtype"]]
    d = int(g[1:]) if g[0] == "R" else int(g[-1])
    C = {"Point2": th.Point2, "Point3": th.Point3}.get(g, th.Vector)
    r = gens.rng(c["seed"])
    na, nb = (c["B"] if f else 1 for f in c["b"])
    A, Bm = r.normal(size=(na, d)) * c["scale"], r.normal(size=(nb, d)) * c["scale"]
    ta, tb = torch.tensor(A, dtype=dt), torch.tensor(Bm, dtype=dt)
    A, Bm = ta.double().numpy(), tb.double().numpy()
    x = C(tensor=ta.clone())
    y = (th.Vector if c["other"] == "vector" else C)(tensor=tb.clone())
    tol = (1e-6 if dt == torch.float32 else 1e-14) * (1 + max(np.abs(A).max(), np.abs(Bm).max())) ** 2 * d
    t.label(g, c["dtype"])
    t.nontrivial(d > 1)

    def same(v, want, what, kind=C, tl=tol):
        need(type(v) is kind, f"{what}: {type(v).__name__}, expected {kind.__name__}")
        vt = v.tensor if isinstance(v, th.Vector) else v
        need(vt.dtype == dt, f"{what}: dtype")
        close(vt, want, tl, what)

    T = torch.Tensor
    same(x + y, A + Bm, "x + y")
    same(x - y, A - Bm, "x - y")
    same(-x, -A, "-x")
    same(x.abs(), np.abs(A), "abs")
    same(x * y, A * Bm, "x * y")
    same(x * tb, A * Bm, "x * tensor")
    same(tb * x, A * Bm, "tensor * x")
    s = torch.tensor(2.5, dtype=dt)
    same(x * s, A * 2.5, "x * scalar tensor")
    D = np.abs(Bm) + 0.5 * c["scale"]
    td = torch.tensor(D, dtype=dt)
    rel = (2e-6 if dt == torch.float32 else 1e-13) * (1 + np.abs(A / D).max())
    same(x / td, A / td.double().numpy(), "x / tensor", tl=rel)
    same(x / C(tensor=td), A / td.double().numpy(), "x / y", tl=rel)
    same(x.dot(y), (A * Bm).sum(1), "dot", T)
    same(x.inner(y), (A * Bm).sum(1), "inner", T)
    if na == nb:
        same(x.outer(y), A[:, :, None] * Bm[:, None, :], "outer", T)
        same(x.cat(y), np.concatenate([A, Bm], 1), "cat", th.Vector)
        same(x.cat([y, x]), np.concatenate([A, Bm, A], 1), "cat of a list", th.Vector)
        same(x.cat((y,)), np.concatenate([A, Bm], 1), "cat of a tuple", th.Vector)
    W = torch.tensor(r.normal(size=(na, d, c["k"])), dtype=dt)
    W_ = W.double().numpy()
    same(x @ W, np.einsum("bi,bij->bj", A, W_), "x @ matrices", T, tl=tol * 10)
    Wt = W.transpose(1, 2)
    same(x.__rmatmul__(Wt), np.einsum("bi,bij->bj", A, W_), "matrices @ x", T, tl=tol * 10)
    same(x.norm(dim=1), np.linalg.norm(A, axis=1), "norm of each element", T)
    same(x.norm(), np.linalg.norm(A), "norm", T, tl=tol * 4)
    same(x.to_matrix(), A, "to_matrix", T, tl=0)
    need(x.to_matrix().data_ptr() != x.tensor.data_ptr(), "to_matrix shares memory")
    need(x.allclose(C(tensor=ta.clone()), rtol=0, atol=0), "allclose with a copy")
    far = ta.clone()
    far[int(r.integers(0, na)), int(r.integers(0, d))] += 10 * (1 + c["scale"])
    need(not x.allclose(C(tensor=far)), "allclose with another value")
    if g.startswith("Point"):
        for i, f in enumerate("xyz"[:d]):
            close(getattr(x, f)(), A[:, i], 0, f"{f}()")
    for bad, what in ((lambda: x * 2.0, "x * float"), (lambda: x / 2.0, "x / float"), (lambda: x @ y, "x @ y"), (lambda: x @ tb, "x @ a tensor that is no batch of matrices")):
        expect_raise(bad, what, (ValueError, TypeError))
    need(torch.equal(x.tensor, ta) and torch.equal(y.tensor, tb), "an operand was modified")


@st.composite
def hist_case(draw):
    return dict(g=draw(st.sampled_from(ref.GROUPS)), dtype=draw(gens.dtypes), n=draw(st.integers(1, 4)), seed=draw(gens.seeds),
                ops=draw(st.lists(st.sampled_from(["item", "update", "mask", "slice", "same", "copy", "tensor", "use"]), min_size=1, max_size=6)))


def everything(g, v, p):
    """every value the element defines, including the derivatives"""
    out = {}
    for op in ("log", "inverse", "compose", "between", "local", "from", "to", "theta", "xy"):
        if op not in geomops.ops_for(g):
            continue
        for side in (0, 1):
            other = {0: [v, p["e"]], 1: [p["e"], v]}[side]
            if op in ("log", "inverse", "theta", "xy"):
                args = [v]
            elif op in ("from", "to"):
                args = [v, p["pt"]]
            else:
                args = other
            jac = []
            r = geomops.call(g, op, args, jac)
            out[f"{op}{side}"] = geomops.tensor(r)
            for i, j in enumerate(jac):
                out[f"{op}{side} Jacobian {i}"] = j
    out["adjoint"] = v.adjoint()
    out["retract"] = v.retract(p["d"]).tensor
    out["project"] = v.project(p["grad"])
    if hasattr(v, "to_matrix"):
        out["matrix"] = v.to_matrix()
    if g == "SE2":
        out["rotation"], out["translation"] = v.rotation.tensor, v.translation.tensor
    if g == "SE3":
        out["rotation"], out["translation"] = v.rotation().tensor, v.translation().tensor
    if g == "SO3":
        out["quaternion"] = v.to_quaternion()
    return out


def check_hist(c, t):
    """an element that was used before answers like a new one with the same data"""
    g, dt, n = c["g"], c["dtype"], c["n"]
    r = gens.rng(c["seed"])
    t.label(g, dt)

    def draw(k):
        return make(g, [ref.exp(g, r.normal(size=ref.dof(g))) for _ in range(k)], dt)

    v = draw(n)
    one = torch.randn(1, dtype=DT[dt]).new_tensor
    p = dict(e=draw(1), d=one(r.normal(size=(n, ref.dof(g)))), grad=one(r.normal(size=tuple(v.shape))),
             pt=one(r.normal(size=(n, geomops.ROT.get(g, 1)))))
    for i, op in enumerate(["use"] + c["ops"]):
        new = draw(n)
        k = int(r.integers(0, n))
        t.label(op)
        if op == "item":
            v[k] = new.tensor[k]
        elif op == "slice":
            v[k:] = new.tensor[k:]
        elif op == "update":
            v.update(new.tensor)
        elif op == "mask":
            v.update(new, batch_ignore_mask=torch.tensor(r.integers(0, 2, size=n).astype(bool)))
        elif op == "same":
            v.update(v.tensor)
        elif op == "tensor":
            v.tensor.copy_(new.tensor)
        elif op == "copy":
            v = v.copy()
        t.nontrivial(op in ("item", "slice", "tensor", "mask"))
        got = everything(g, v, p)
        fresh = type(v)(tensor=v.tensor.clone()) if g[0] != "R" else th.Vector(tensor=v.tensor.clone())
        want = everything(g, fresh, p)
        for m in want:
            need(torch.equal(got[m], want[m]), f"{m} of a used {g} element after {op} differs from a new element with the same data")


SUBS = [
    Sub("history", hist_case, check_hist, 300, shards=(2, 4)),
    Sub("vectors", vec_case, check_vec, 300, shards=(1, 2)),
    Sub("ops", ops_case, check_ops, 1200, shards=(4, 8)),
    Sub("action", act_case, check_act, 800, shards=(4, 8)),
]
