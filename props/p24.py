import numpy as np
import torch
from hypothesis import strategies as st
from scipy.sparse import csr_matrix
from theseus.optimizer import DenseLinearization, SparseLinearization
from theseus.optimizer.autograd.common import compute_A_grad
from theseus.optimizer.linear.utils import convert_to_alpha_beta_damping_tensors
from theseus.optimizer.linear_system import SparseStructure
from theseus.utils import mat_vec, random_sparse_binary_matrix, random_sparse_matrix, sparse_mtv, sparse_mv, split_into_param_sizes, tmat_vec

from vlib import gens
from vlib import problems as P
from vlib.core import Skip, Sub
from vlib.th import close, expect_raise, need, np_

PROPERTY = "P24"
RULE = (
    "A case draws a sparsity pattern (any shape, empty rows and columns, columns in any order inside a row, 32- or 64-bit "
    "indices), batched values and vectors (contiguous or strided, on the graph or not) and an upstream gradient, and compares "
    "products, transposed products, conversions, adjoint formulas and damping with dense numpy algebra per batch element; or "
    "an optimisation problem whose sparse linearisation is compared, with gradients, with the dense one. Non-trivial: batch "
    "of two or more and a pattern that is neither empty nor full."
)
ASSUMPTIONS = ["patterns list every entry once (as the linearisation builds them)", "double precision values, as the kernels require"]


@st.composite
def pattern(draw, max_r=7, max_c=7):
    m, n = draw(st.integers(1, max_r)), draw(st.integers(1, max_c))
    return dict(m=m, n=n, fill=draw(st.sampled_from([0.1, 0.3, 0.6, 1.0])), seed=draw(gens.seeds),
                order=draw(st.sampled_from(["sorted", "shuffled"])), idx=draw(st.sampled_from(["int32", "int64"])))


def make_pattern(p):
    r = gens.rng(p["seed"])
    mask = r.random((p["m"], p["n"])) < p["fill"]
    cols, ptr = [], [0]
    for i in range(p["m"]):
        c = np.flatnonzero(mask[i])
        if p["order"] == "shuffled":
            c = r.permutation(c)
        cols += [int(x) for x in c]
        ptr.append(len(cols))
    return np.array(cols, dtype=p["idx"]), np.array(ptr, dtype=p["idx"]), r


def dense(p, cols, ptr, val):
    A = np.zeros((val.shape[0], p["m"], p["n"]))
    for i in range(p["m"]):
        for k in range(ptr[i], ptr[i + 1]):
            A[:, i, cols[k]] = val[:, k]
    return A


def to_pattern(p, cols, ptr, G):
    out = np.zeros((G.shape[0], len(cols)))
    for i in range(p["m"]):
        for k in range(ptr[i], ptr[i + 1]):
            out[:, k] = G[:, i, cols[k]]
    return out


def layout(x, how):
    t = torch.tensor(x)
    if how == "strided":
        t = torch.stack([t, t + 1], -1)[..., 0]
    elif how == "transposed":
        t = torch.tensor(x.T.copy()).t()
    return t


@st.composite
def prod_case(draw):
    return dict(p=draw(pattern()), B=draw(st.integers(1, 4)), t=draw(st.booleans()), la=draw(st.sampled_from(["plain", "strided", "transposed"])),
                lv=draw(st.sampled_from(["plain", "strided", "transposed"])), ga=draw(st.booleans()), gv=draw(st.booleans()),
                lin=draw(st.booleans()), twice=draw(st.booleans()))


def prod_check(c, t):
    p, B = c["p"], c["B"]
    cols, ptr, r = make_pattern(p)
    m, n = p["m"], p["n"]
    nnz = len(cols)
    val = r.normal(size=(B, nnz))
    v = r.normal(size=(B, m if c["t"] else n))
    A = dense(p, cols, ptr, val)
    M = A.transpose(0, 2, 1) if c["t"] else A
    t.nontrivial(B > 1 and 0 < nnz < m * n)
    t.label("transposed" if c["t"] else "plain", p["order"], "empty rows" if (np.diff(ptr) == 0).any() else "all rows used")
    tc, tp = torch.tensor(cols), torch.tensor(ptr)
    ta, tv = layout(val, c["la"]), layout(v, c["lv"])
    keep = [x.clone() for x in (tc, tp, ta, tv)]
    want = np.einsum("bij,bj->bi", M, v)
    tol = 1e-14 * (1 + np.abs(A).max(initial=0)) * (1 + np.abs(v).max()) * (m + n)
    raw = (tmat_vec if c["t"] else mat_vec)(B, n, tp, tc, ta, tv)
    close(raw, want, tol, "product")
    need(raw.dtype == torch.float64, "dtype of the product")
    xa = ta.detach().requires_grad_(c["ga"])
    xv = tv.detach().requires_grad_(c["gv"])
    fn = sparse_mtv if c["t"] else sparse_mv
    out = fn(n, tp, tc, xa, xv)
    close(out, want, tol, "differentiable product")
    need(out.requires_grad == (c["ga"] or c["gv"]), "gradient tracking")
    if c["ga"] or c["gv"]:
        G = r.normal(size=want.shape)
        reps = 2 if c["twice"] else 1
        for _ in range(reps):
            (out * torch.tensor(G)).sum().backward(retain_graph=True)
        gA = np.einsum("bi,bj->bij", G, v)
        gA = to_pattern(p, cols, ptr, gA.transpose(0, 2, 1) if c["t"] else gA) * reps
        gv = np.einsum("bij,bi->bj", M, G) * reps
        if c["ga"]:
            close(xa.grad, gA, 4 * tol * (1 + np.abs(G).max()), "gradient with respect to the values")
        else:
            need(xa.grad is None, "gradient of values not asked for")
        if c["gv"]:
            close(xv.grad, gv, 4 * tol * (1 + np.abs(G).max()), "gradient with respect to the vector")
        else:
            need(xv.grad is None, "gradient of the vector not asked for")
    for x, k in zip((tc, tp, ta, tv), keep):
        need(torch.equal(x, k), "an input of the product was modified")
    # structure
    for dt in (np.float64, np.float32):
        ss = SparseStructure(cols, ptr, m, n, dtype=dt)
        for b in range(B):
            tb = torch.tensor(val[b])
            close(ss.csr_straight(tb).toarray(), A[b].astype(dt), 0, "matrix of the structure")
            close(ss.csc_transpose(tb).toarray(), A[b].T.astype(dt), 0, "transposed matrix of the structure")
            need(ss.csr_straight(tb).dtype == dt and ss.csc_transpose(tb).dtype == dt, "dtype of the structure")
        mk = ss.mock_csc_transpose().toarray()
        close(mk, (dense(p, cols, ptr, np.ones((1, nnz)))[0].T).astype(dt), 0, "mock of the pattern")


# -------------------------------------------- adjoint of the damped normal equations
@st.composite
def adj_case(draw):
    c = dict(p=draw(pattern(8, 4)), B=draw(st.integers(1, 3)), damp=draw(st.sampled_from(["none", "zero", "alpha", "both"])),
             detach=draw(st.integers(0, 3)) == 0)
    c["p"]["m"] = max(c["p"]["m"], c["p"]["n"] + 2)
    c["p"]["fill"] = max(c["p"]["fill"], 0.3)
    if c["damp"] in ("alpha", "both"):
        c["detach"] = False
    return c


def adj_check(c, t):
    """gradient with respect to the values of A of  G . ((1 + alpha) diag + beta)-damped solve, by its definition"""
    p, B = c["p"], c["B"]
    cols, ptr, r = make_pattern(p)
    m, n = p["m"], p["n"]
    val = r.normal(size=(B, len(cols)))
    A = dense(p, cols, ptr, val)
    b, G = r.normal(size=(B, m)), r.normal(size=(B, n))
    al = np.exp(r.normal(size=B)) if c["damp"] in ("alpha", "both") else np.zeros(B)
    if c["damp"] == "both" and B > 1:
        al[0] = 0.0
    be = np.full(B, 0.5) if c["damp"] != "alpha" else np.full(B, 0.1)

    def normal(X, i):
        H = X.T @ X
        return H + al[i] * np.diag(np.diag(H)) + be[i] * np.eye(n)

    x = np.stack([np.linalg.solve(normal(A[i], i), A[i].T @ b[i]) for i in range(B)])
    H = np.stack([np.linalg.solve(normal(A[i], i), G[i]) for i in range(B)])
    AH = np.einsum("bij,bj->bi", A, H)
    bAx = b - np.einsum("bij,bj->bi", A, x)
    T = torch.tensor
    ab = None if c["damp"] == "none" else (T(al), T(be))
    got = compute_A_grad(B, ptr, cols, T(b), T(x), T(bAx), T(H), T(AH), ab, T(val), T(cols), c["detach"])
    t.nontrivial(B > 1 and 0 < len(cols) < m * n)
    t.label("damping " + c["damp"], "detached" if c["detach"] else "full")
    want = np.zeros((B, m, n))
    e = 1e-6
    for i in range(B):
        for rr in range(m):
            for k in range(ptr[rr], ptr[rr + 1]):
                D = np.zeros((m, n))
                D[rr, cols[k]] = e
                if c["detach"]:
                    want[i, rr, cols[k]] = G[i] @ np.linalg.solve(normal(A[i], i), D.T @ b[i]) / e
                else:
                    f = [G[i] @ np.linalg.solve(normal(A[i] + s * D, i), (A[i] + s * D).T @ b[i]) for s in (1, -1)]
                    want[i, rr, cols[k]] = (f[0] - f[1]) / (2 * e)
    w = to_pattern(p, cols, ptr, want)
    close(got, w, 1e-6 * (1 + np.abs(w).max(initial=0)) * (1 + np.abs(A).max(initial=0)), "gradient with respect to the values of A")


@st.composite
def damp_case(draw):
    return dict(seed=draw(gens.seeds), B=draw(st.integers(1, 4)), kind=draw(st.sampled_from(["float", "0d", "1", "B", "2d"])),
                ell=draw(st.booleans()), eps=draw(st.sampled_from([0.0, 1e-8, 1e-3])), dt=draw(gens.dtypes))


def damp_check(c, t):
    dt = getattr(torch, c["dt"])
    B = c["B"]
    r = gens.rng(c["seed"])
    lam = np.exp(r.normal(size=B))
    if c["kind"] != "B":
        lam[:] = lam[0]
    x = {"float": float(lam[0]), "0d": torch.tensor(lam[0]), "1": torch.tensor(lam[:1]), "B": torch.tensor(lam),
         "2d": torch.tensor(lam)[:, None]}[c["kind"]]
    f = lambda: convert_to_alpha_beta_damping_tensors(x, c["eps"], c["ell"], B, torch.device("cpu"), dt)  # noqa: E731
    t.nontrivial(B > 1)
    t.label(c["kind"])
    if c["kind"] == "2d":
        expect_raise(f, "two-dimensional damping", ValueError)
        return
    a, b = f()
    rt = 1e-6 if c["dt"] == "float32" else 1e-15
    for got, w, nm in ((a, lam if c["ell"] else np.zeros(B), "multiplicative"), (b, np.full(B, c["eps"]) if c["ell"] else lam, "additive")):
        need(got.dtype == dt and got.is_contiguous() and got.untyped_storage().nbytes() >= B * got.element_size(),
             f"{nm} damping is not stored once per batch element")
        close(got, w, rt * (1 + lam.max()), f"{nm} damping")


# -------------------------------------------- sparse linearisation with gradients
@st.composite
def lin_case(draw):
    return dict(s=draw(P.spec(dtypes=st.just("float64"), robust=False)), seed=draw(gens.seeds))


def lin_check(c, t):
    p = P.Problem(c["s"])
    obj = p.build()
    r = gens.rng(c["seed"])
    leaves = [n for n in p.aux if not P.is_mat(p.groups[n]) and p.groups[n][0] in "WRP"]
    if p.near_pi(p.values) or not leaves:
        raise Skip("near pi, or no vector data to differentiate with respect to")
    n = leaves[int(r.integers(len(leaves)))]
    base = p.tensor(p.values[n])
    d = torch.tensor(r.normal(size=tuple(base.shape)))
    obj.update()
    B = p.batch(p.values)
    lins = [DenseLinearization(obj), SparseLinearization(obj)]
    N = lins[0].num_cols
    v, wa, wd, wb = (torch.tensor(r.normal(size=(B, k))) for k in (N, lins[0].num_rows, N, N))

    def scal(lin):
        obj.update()
        lin.linearize()
        return [(lin.Av(v) * wa).sum(), (lin.diagonal_scaling(v) * wd).sum(), (lin.Atb.squeeze(2) * wb).sum(), (lin.Av(v).square()).sum(),
                (lin.b * wa).sum()]

    t.nontrivial(len(p.opt) > 1 and B > 1)
    t.label(p.groups[n])
    out = []
    for lin in lins:
        leaf = base.clone().requires_grad_(True)
        p.V[n].update(leaf)
        vals = scal(lin)
        gs = []
        for x in vals:
            g = torch.autograd.grad(x, leaf, retain_graph=True, allow_unused=True)[0] if x.requires_grad else None
            gs.append(np.zeros(base.shape) if g is None else np_(g))
        out.append(([float(x) for x in vals], gs))
    fd = []
    for s in (1, -1):
        p.V[n].update(base + s * 1e-6 * d)
        fd.append([float(x) for x in scal(lins[1])])
    for k, nm in enumerate(["Av", "diagonal_scaling", "Atb", "|Av|^2", "b"]):
        sc = 1 + abs(out[0][0][k]) + np.abs(out[0][1][k]).max()
        close(out[1][0][k], out[0][0][k], 1e-11 * sc * 10, f"{nm}: sparse and dense values")
        close(out[1][1][k], out[0][1][k], 1e-10 * sc * 10, f"gradient of {nm}: sparse and dense")
        num = (fd[0][k] - fd[1][k]) / 2e-6
        close((out[1][1][k] * np_(d)).sum(), num, 1e-5 * (sc + abs(num)) + 1e-8 * max(1, abs(fd[0][k])), f"derivative of {nm}")


# -------------------------------------------- generators
@st.composite
def rand_case(draw):
    m = draw(st.integers(1, 12))
    return dict(seed=draw(gens.seeds), m=m, n=draw(st.integers(1, 12)), B=draw(st.integers(1, 3)), fill=draw(st.sampled_from([0.0, 0.2, 0.5, 1.0])),
                k=draw(st.integers(0, max(0, m - 1))), dt=draw(gens.dtypes), it=draw(st.sampled_from(["int32", "int64"])),
                total=draw(st.integers(0, 40)), lo=draw(st.integers(1, 5)), d=draw(st.integers(1, 5)))


def rand_check(c, t):
    m, n = c["m"], c["n"]
    gen = lambda: torch.Generator().manual_seed(c["seed"] % 2**31)  # noqa: E731
    S = random_sparse_binary_matrix(m, n, c["fill"], c["k"], gen())
    D = S.toarray()
    t.nontrivial(m > 1 and n > 1)
    need(S.shape == (m, n) and set(np.unique(D)) <= {0.0, 1.0} and S.nnz == int(D.sum()), "binary matrix")
    need(S.nnz >= int(c["fill"] * m * n) and D[-1].any(), "fill of the binary matrix, last row used")
    if m > 1:
        need((D.sum(0) >= c["k"]).all(), "entries per column")
    cols, ptr, val, skel = random_sparse_matrix(c["B"], m, n, c["fill"], c["k"], gen(), "cpu", getattr(torch, c["it"]), getattr(torch, c["dt"]))
    close(skel.toarray(), D, 0, "same pattern from the same generator")
    need(cols.dtype == ptr.dtype == getattr(torch, c["it"]) and val.dtype == getattr(torch, c["dt"]), "dtypes of the sparse matrix")
    need(tuple(val.shape) == (c["B"], len(cols)) and len(ptr) == m + 1, "shapes of the sparse matrix")
    X = csr_matrix((np.ones(len(cols)), cols.numpy(), ptr.numpy()), (m, n)).toarray()
    close(X, D, 0, "pattern of the sparse matrix")
    sizes = split_into_param_sizes(c["total"], c["lo"], c["lo"] + c["d"], gen())
    need(sum(sizes) == c["total"], "sizes add up")
    need(all(c["lo"] <= s < c["lo"] + c["d"] for s in sizes[:-1]) and all(s > 0 for s in sizes), "size of each block")


SUBS = [
    Sub("products", prod_case, prod_check, 2500, shards=(3, 4)),
    Sub("adjoint", adj_case, adj_check, 800, shards=(2, 2)),
    Sub("damping", damp_case, damp_check, 300, shards=(1, 1)),
    Sub("linearization", lin_case, lin_check, 400, shards=(2, 3)),
    Sub("generators", rand_case, rand_check, 300, shards=(1, 1)),
]
