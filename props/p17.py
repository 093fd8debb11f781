import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st

from vlib import gens, problems as P, ref
from vlib.core import Skip, Sub
from vlib.th import DT, close, expect_raise, need, np_

PROPERTY = "P17"
RULE = (
    "A case draws a batch of linear systems (block-sparse Jacobian over several variables, conditioning from benign to "
    "1e5, optional exactly singular elements, damping none / scalar / per element, additive or ellipsoidal) and every "
    "available solver; steps and gradients are compared with a float64 numpy solution and its analytic adjoint. "
    "Non-trivial: two or more batch elements or variables."
)
ASSUMPTIONS = ["CUDA-only solvers (LU CUDA, BaSpaCho) are not available here"]

SOLVERS = ["chol", "lu", "chol_s", "lu_s", "cholmod"]


@st.composite
def case(draw):
    B = draw(st.integers(1, 4))
    dofs = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
    cfs = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.integers(1, min(2, len(dofs))))
        cfs.append(dict(v=draw(st.permutations(range(len(dofs))))[:k], m=draw(st.integers(1, 4))))
    return dict(B=B, dofs=dofs, cfs=cfs, dtype=draw(gens.dtypes), seed=draw(gens.seeds),
                solver=draw(st.sampled_from(SOLVERS)),
                damp=draw(st.sampled_from(["none", "none", "float", "tensor0", "tensor1", "tensorB"])),
                ell=draw(st.booleans()), eps=draw(st.sampled_from([1e-8, 1e-8, 0.0, 1e-3])),
                cond=draw(st.sampled_from([0, 0, 1, 3, 5])), sing=draw(st.sampled_from(["none", "none", "some", "all"])),
                grad=draw(st.booleans()), detach=draw(st.integers(0, 3)) == 0, wsc=draw(st.integers(0, 1)))


class _A:
    pass


def build(c):
    r = gens.rng(c["seed"])
    dt = DT[c["dtype"]]
    B = c["B"]
    names = [f"x{i}" for i in range(len(c["dofs"]))]
    starts = np.cumsum([0] + c["dofs"])
    n = int(starts[-1])
    colsc = 10.0 ** (-r.uniform(0, c["cond"], size=n)) if c["dtype"] == "float64" else 10.0 ** (-r.uniform(0, min(c["cond"], 1), size=n))
    xs = [th.Vector(tensor=torch.zeros(B, d, dtype=dt), name=m) for m, d in zip(names, c["dofs"])]
    # anchors make every system non-singular
    blocks = []
    cfs = [dict(v=[i], m=d) for i, d in enumerate(c["dofs"])] + c["cfs"]
    sing = np.zeros(B, bool)
    if c["sing"] != "none" and c["solver"].endswith("_s"):
        sing = np.ones(B, bool) if c["sing"] == "all" else r.integers(0, 2, size=B).astype(bool)
    scol = r.integers(0, n, size=B)
    obj = th.Objective(dtype=dt)
    leaves = []
    w = th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=dt), name="w"), name="W")
    for i, q in enumerate(cfs):
        d = sum(c["dofs"][k] for k in q["v"])
        A = r.normal(size=(B, q["m"], d))
        if i < len(names):
            A = A * 0.3 + np.eye(d) * 2
        cols = np.concatenate([np.arange(starts[k], starts[k + 1]) for k in q["v"]])
        A = A * colsc[cols]
        for b in range(B):
            if sing[b]:
                A[b][:, cols == scol[b]] = 0.0
        bb = r.normal(size=(B, q["m"]))
        tA, tb = torch.tensor(A, dtype=dt), torch.tensor(bb, dtype=dt)
        va, vb = th.Variable(tA.clone(), name=f"A{i}"), th.Variable(tb.clone(), name=f"b{i}")
        blocks.append((tA.double().numpy(), tb.double().numpy(), cols))
        obj.add(P.Lin([xs[k] for k in q["v"]], va, vb, w, name=f"cf{i}"))
        leaves.append((va, vb))
    return obj, blocks, leaves, sing, n, names, dt, r


def full(blocks, B, n):
    J = np.zeros((B, sum(b[1].shape[1] for b in blocks), n))
    rhs = np.zeros((B, J.shape[1]))
    k = 0
    for A, b, cols in blocks:
        m = b.shape[1]
        J[:, k : k + m, :][:, :, cols] = 0
        for i, cc in enumerate(cols):
            J[:, k : k + m, cc] += A[:, :, i]
        rhs[:, k : k + m] = b
        k += m
    return J, rhs


def solve_ref(J, b, lam, ell, eps):
    H = J.T @ J
    M = H + (np.diag(lam * np.diag(H) + eps) if ell else lam * np.eye(len(H))) if lam is not None else H
    return np.linalg.solve(M, J.T @ b), M


def check(c, t):
    obj, blocks, leaves, sing, n, names, dt, r = build(c)
    B = c["B"]
    order = [v for v in obj.optim_vars]
    need(order == names, "variable order")
    name = c["solver"]
    t.label(name, "damping " + c["damp"], c["dtype"])
    t.nontrivial(B > 1 or len(names) > 1)
    if sing.any():
        t.label("singular elements")
    S = {"chol": th.CholeskyDenseSolver, "lu": th.LUDenseSolver, "cholmod": th.CholmodSparseSolver}[name.split("_")[0]]
    solver = S(obj, **(dict(check_singular=True) if name.endswith("_s") else {}))
    grad = c["grad"]
    if grad:
        for a, b in leaves:
            a.update(a.tensor.requires_grad_(True))
            b.update(b.tensor.requires_grad_(True))
    obj.update()
    lam = None
    kw = {}
    tdamp = None
    if c["damp"] != "none":
        lam = np.exp(r.normal(size=B) - 1)
        if c["damp"] != "tensorB":
            lam[:] = lam[0]
        if c["damp"] == "float" or name == "cholmod":
            lam[:] = lam[0]
            kw = dict(damping=float(lam[0]))
        else:
            tdamp = torch.tensor(lam[:1] if c["damp"] != "tensorB" else lam, dtype=dt)
            if c["damp"] == "tensor0":
                tdamp = tdamp.view(())
            lam = np.broadcast_to(tdamp.double().numpy().reshape(-1), (B,)).copy()
            if grad:
                tdamp.requires_grad_(True)
            kw = dict(damping=tdamp)
        if name != "cholmod":
            kw.update(ellipsoidal_damping=c["ell"], damping_eps=c["eps"])
    ell = c["ell"] and name != "cholmod"
    eps = c["eps"] if ell else 0.0
    detach = c["detach"] and c["damp"] == "none"
    solver.linearization.linearize(_detach_hessian=detach)
    got = solver.solve(**kw)
    need(got.dtype == dt, f"{name}: step dtype {got.dtype}")
    need(tuple(got.shape) == (B, n), f"{name}: step shape {tuple(got.shape)}")
    J, b = full(blocks, B, n)
    u = 2e-7 if c["dtype"] == "float32" else 3e-16
    want, Ms = np.zeros((B, n)), []
    tol = np.zeros((B, n))
    for i in range(B):
        if sing[i]:
            Ms.append(None)
            continue
        want[i], M = solve_ref(J[i], b[i], None if lam is None else lam[i], ell, eps)
        Ms.append(M)
        k = np.linalg.cond(M)
        if k * u > 1e-2:
            raise Skip("ill-conditioned")
        tol[i] = 200 * u * k * (np.abs(want[i]).max() + np.abs(np.linalg.inv(M)).max() * (np.abs(J[i]).T @ np.abs(b[i])).max() / k) + 1e-300
    close(got, want, tol, f"{name} step (damping {c['damp']}, ellipsoidal {ell})")
    if not grad:
        return
    t.label("gradient")
    G = r.normal(size=(B, n))
    (got * torch.tensor(G, dtype=dt)).sum().backward()
    glam = np.zeros(B)
    for i in range(B):
        H = None if sing[i] else np.linalg.solve(Ms[i], G[i])
        k = 1 if sing[i] else np.linalg.cond(Ms[i])
        k0 = 0
        for (A, bb, cols), (va, vb) in zip(blocks, leaves):
            m = bb.shape[1]
            Ai = J[i][k0 : k0 + m]
            gA, gb = np.zeros((m, n)), np.zeros(m)
            if H is not None:
                x = want[i]
                gb = Ai @ H
                gA = np.outer(b[i][k0 : k0 + m], H)
                if not detach:
                    gA = gA - np.outer(Ai @ H, x) - np.outer(Ai @ x, H)
                    if ell and lam is not None:
                        gA = gA - 2 * lam[i] * Ai * (H * x)[None, :]
            gotA = np.zeros(gA[:, cols].shape) if va.tensor.grad is None else np_(va.tensor.grad[i])
            gotb = np.zeros(m) if vb.tensor.grad is None else np_(vb.tensor.grad[i])
            s = max(1e-300, np.abs(gA).max(), np.abs(gb).max(), 0 if H is None else np.abs(H).max() * (1 + np.abs(want[i]).max()))
            close(gotA, gA[:, cols], 1000 * u * k * s, f"{name} gradient wrt Jacobian, element {i}")
            close(gotb, gb, 1000 * u * k * s, f"{name} gradient wrt rhs, element {i}")
            k0 += m
        if tdamp is not None and H is not None:
            D = np.diag(J[i].T @ J[i]) if ell else np.ones(n)
            glam[i] = -(H * D * want[i]).sum()
    if tdamp is not None:
        g = np_(tdamp.grad).reshape(-1) if tdamp.grad is not None else np.zeros(tdamp.numel())
        w = glam if tdamp.numel() == B else np.array([glam.sum()])
        kk = max([1] + [np.linalg.cond(m) for m in Ms if m is not None])
        sc = max([1] + [np.abs(np.linalg.inv(m)).max() for m in Ms if m is not None])
        close(g, w, 2000 * u * kk * (1 + np.abs(glam).max() + sc), f"{name} gradient wrt damping")


SUBS = [Sub("solve", case, check, 2000, shards=(8, 8))]
