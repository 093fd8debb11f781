import math

import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st
from theseus.third_party.lml import LML

from vlib import gens, problems as P, ref
from vlib.core import Skip, Sub, Violation
from vlib.th import DT, close, need, np_

PROPERTY = "P25"
RULE = (
    "LML cases draw a score matrix (ties, huge and tiny ranges, batch 0-dim or up to 5), k, tolerance and dtype and compare "
    "with a bisection solution in numpy, with the analytic and finite-difference derivative, and under shifts and "
    "permutations. DCEM cases draw vector problems and options; the points at which the error is evaluated are recorded "
    "and every mean is recomputed from them. Posterior samples drawn by the layer are whitened with the exact information matrix and their first two moments compared with the standard normal's. Non-trivial: more scores than k with distinct values / two or more elements."
)
ASSUMPTIONS = [
    "fewer than 1000 scores (the bracket of the root search assumes it)",
    "the solution is accurate to the tolerance eps of the root search",
]


# ------------------------------------------------------------------------- LML
@st.composite
def lml_case(draw):
    n = draw(st.integers(2, 40))
    return dict(n=n, k=draw(st.integers(1, n + 1)), B=draw(st.integers(0, 5)), dtype=draw(gens.dtypes),
                eps=draw(st.sampled_from([1e-4, 1e-3, 1e-6])), kind=draw(st.sampled_from(["normal", "ties", "wide", "tiny", "const"])),
                seed=draw(gens.seeds), shift=draw(st.integers(-50, 50)))


def sig(x):
    return np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))), np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))))


def solve_nu(x, k):
    lo, hi = -x.max() - 800.0, -x.min() + 800.0
    for _ in range(200):
        m = (lo + hi) / 2
        if sig(x + m).sum() < k:
            lo = m
        else:
            hi = m
    return (lo + hi) / 2


def scores(c):
    r = gens.rng(c["seed"])
    x = r.normal(size=(max(c["B"], 1), c["n"]))
    k = c["kind"]
    if k == "ties":
        x = np.round(x)
    elif k == "wide":
        x = x * 30
    elif k == "tiny":
        x = x * 1e-4
    elif k == "const":
        x = x * 0 + 1.5
    return x


def check_lml(c, t):
    dt = DT[c["dtype"]]
    f32 = c["dtype"] == "float32"
    x = torch.tensor(scores(c), dtype=dt)
    if c["B"] == 0:
        x = x[0]
    xin = x.clone().requires_grad_(True)
    n, k = c["n"], c["k"]
    y = LML(N=k, eps=c["eps"], verbose=-1)(xin)
    t.label(c["kind"], c["dtype"], "single" if c["B"] == 0 else "batch", "n<=k" if n <= k else "n>k")
    need(y.shape == x.shape and y.dtype == dt, "shape and dtype of the weights")
    Y, X = np_(y).reshape(-1, n), np_(x).reshape(-1, n)
    need(((Y >= 0) & (Y <= 1)).all(), "weights in [0, 1]")
    g = torch.tensor(gens.rng(c["seed"] + 1).normal(size=tuple(x.shape)), dtype=dt)
    (dx,) = torch.autograd.grad(y, xin, g)
    need(dx.shape == x.shape, f"gradient shape {tuple(dx.shape)}")
    D, G = np_(dx).reshape(-1, n), np_(g).reshape(-1, n)
    if n <= k:
        close(Y, np.ones_like(Y), 1e-4, "weights when everything is selected")
        close(D, np.zeros_like(D), 0.0, "gradient when everything is selected")
        return
    t.nontrivial(c["kind"] != "const")
    fe = 1e-5 if f32 else 1e-12
    tol = c["eps"] * 0.3 + fe * (1 + np.abs(X).max())
    for b in range(len(X)):
        nu = solve_nu(X[b], k)
        want = sig(X[b] + nu)
        h = want * (1 - want)
        # the root is known to eps (or to one representable step of the scores); each weight moves at most 1/4 of it
        flat = np.abs(want.sum() - k) > 1e-6
        close(Y[b], want, tol, f"weights of row {b}")
        need(abs(Y[b].sum() - k) <= n * tol or flat, f"weights of row {b} sum to {Y[b].sum()!r}, not {k}")
        o = np.argsort(X[b])
        need((np.diff(Y[b][o]) >= (-1e-6 if f32 else -1e-12)).all(), f"weights of row {b} are not monotone in the scores")
        if h.sum() > 1e-3:
            hy = Y[b] * (1 - Y[b])
            wantg = hy * (G[b] - (hy @ G[b]) / hy.sum())
            close(D[b], wantg, (1e-3 if f32 else 1e-8) * (1 + np.abs(G[b]).max()), f"gradient of row {b} (implicit function theorem)")
            if not f32:
                fd = np.zeros(n)
                for i in range(n):
                    e = np.zeros(n)
                    e[i] = 1e-5
                    yp = sig(X[b] + e + solve_nu(X[b] + e, k))
                    ym = sig(X[b] - e + solve_nu(X[b] - e, k))
                    fd[i] = G[b] @ (yp - ym) / 2e-5
                close(D[b], fd, 5 * tol * (1 + np.abs(G[b]).sum()) / min(1.0, h.sum()) + 1e-5, f"gradient of row {b} (finite differences)")
    # invariances
    s = float(c["shift"])
    y2 = np_(LML(N=k, eps=c["eps"], verbose=-1)(x + s)).reshape(-1, n)
    close(y2, Y, 2 * tol + fe * abs(s), "weights after shifting the scores")
    perm = gens.rng(c["seed"] + 2).permutation(n)
    y3 = np_(LML(N=k, eps=c["eps"], verbose=-1)(x[..., torch.tensor(perm)])).reshape(-1, n)
    close(y3, Y[:, perm], 1e-12 if not f32 else 1e-5, "weights of permuted scores")
    if c["B"] > 1:
        for b in range(c["B"]):
            one = np_(LML(N=k, eps=c["eps"], verbose=-1)(x[b: b + 1]))
            close(one[0], Y[b], 1e-12 if not f32 else 1e-5, f"row {b} alone vs. in the batch")


# ------------------------------------------------------------------------ DCEM
@st.composite
def dcem_case(draw):
    s = draw(P.spec(groups=P.VEC_G, anchored=True, robust=False, max_b=3, max_vars=2, max_cfs=3))
    ns = draw(st.integers(4, 25))
    return dict(s=s, ns=ns, ne=draw(st.integers(1, min(5, ns - 1))), T=draw(st.integers(1, 6)),
                temp=draw(st.sampled_from([1.0, 1.0, 5.0, 0.2, None])), norm=draw(st.booleans()),
                sigma=draw(st.sampled_from([1.0, 0.3, 2.0])), tol=draw(st.sampled_from(["zero", "default", "loose"])),
                seed=draw(gens.seeds), layer=draw(st.booleans()), grad=draw(st.booleans()),
                kwsig=draw(st.booleans()))


class Recorder(th.CostFunction):
    """A constant zero cost that records the values of the variables it is evaluated on."""

    def __init__(self, xs, w, log, name="recorder"):
        super().__init__(w, name=name)
        for i, x in enumerate(xs):
            setattr(self, f"x{i}_", x)
            self.register_optim_var(f"x{i}_")
        self.log = log

    def error(self):
        self.log.append({v.name: np_(v.tensor) for v in self.optim_vars})
        return torch.zeros_like(next(iter(self.optim_vars)).tensor[:, :1])

    def jacobians(self):
        raise NotImplementedError

    def dim(self):
        return 1

    def _copy_impl(self, new_name=None):
        raise NotImplementedError


TOL = {"zero": (0.0, 0.0), "default": (1e-6, 1e-4), "loose": (1e-3, 0.2)}


def run_dcem(c, p, vals, log=None, runs=1):
    """runs > 1: the same optimizer object is used again on the same inputs; returns the last run"""
    obj = p.build(values=vals)
    if log is not None:
        w = th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=p.dt), name="rw"), name="rweight")
        obj.add(Recorder([p.V[n] for n in p.opt], w, log))
    ab, rl = TOL[c["tol"]]
    opt = th.DCEM(obj, max_iterations=c["T"], n_sample=c["ns"], n_elite=c["ne"], temp=c["temp"], normalize=c["norm"],
                  init_sigma=1.0 if c["kwsig"] else c["sigma"], abs_err_tolerance=ab, rel_err_tolerance=rl)
    kw = dict(track_best_solution=True, track_err_history=True, track_state_history=True)
    seen = []
    if runs > 1:  # a callback changes nothing and sees the current state of every iteration

        def cb(optimizer, info, delta, it):
            with torch.no_grad():
                seen.append(it)
                h = info.state_history
                for v in optimizer.ordering:
                    need(torch.equal(h[v.name][..., it + 1], v.tensor), f"{v.name} seen by the callback of iteration {it + 1} is not the recorded one")

        kw["end_iter_callback"] = cb
    if c["kwsig"]:
        kw["init_sigma"] = c["sigma"]
    layer = th.TheseusLayer(opt, vectorize=True) if c["layer"] and log is None else None
    with torch.set_grad_enabled(c["grad"]):
        for _ in range(runs):
            torch.manual_seed(c["seed"] % 100003)
            if layer is not None:
                _, info = layer.forward({n: p.tensor(v) for n, v in vals.items()}, optimizer_kwargs=kw)
            else:
                obj.update({n: p.tensor(v) for n, v in vals.items() if n in p.opt})
                info = opt.optimize(**kw)
    return info, {n: np_(obj.optim_vars[n].tensor) for n in p.opt}, [v.name for v in opt.ordering]


def half_sq(p, vals):
    return 0.5 * (p.all_errors(vals) ** 2).sum(1)


def check_dcem(c, t):
    s = c["s"]
    p = P.Problem(s)
    B = p.batch(p.values)
    f32 = s["dtype"] == "float32"
    t.label("temp %s" % c["temp"], "normalize" if c["norm"] else "raw", s["dtype"], "tol " + c["tol"], "elite %d" % c["ne"])
    t.nontrivial(B > 1 or c["T"] > 1)
    log = []
    info, fin, order = run_dcem(c, p, p.values, log)
    info2, fin2, _ = run_dcem(c, p, p.values, runs=2)
    for n in fin:
        close(fin2[n], fin[n], 1e-4 if f32 else 1e-9, f"{n} of further runs with the same seed")
    # ---------------------------------------------------------------- bookkeeping
    H = np_(info.err_history)
    k = int(np.isfinite(H).any(0).sum())
    need(np.isfinite(H[:, :k]).all() and np.isinf(H[:, k:]).all(), "error history has holes")
    states = [{n: np_(info.state_history[n][..., i]) for n in order} for i in range(k)]
    ref_err = np.stack([half_sq(p, dict(p.values, **h)) for h in states], 1)
    rt = 1e-4 if f32 else 1e-9
    close(H[:, :k], ref_err, rt * (1 + ref_err), "recorded errors vs. errors at the recorded means")
    for n in order:
        need(np.array_equal(states[-1][n], fin[n]), f"final {n} is not the last recorded mean")
    status = [x.name for x in info.status]
    ab, rl = TOL[c["tol"]]
    if k - 1 < c["T"]:
        t.label("stopped early")
        need(all(x == "CONVERGED" for x in status), f"stopped early with {status}")
    for b in range(B):
        h = H[b, :k]
        i = int(np.argmin(h))
        need(np_(info.best_err)[b] == h[i], f"best_err[{b}] is not the smallest recorded error")
        need(int(info.best_iter[b]) == max(i - 1, 0), f"best_iter[{b}] = {int(info.best_iter[b])}, smallest error at {i}")
        for n in order:
            need(np.array_equal(np_(info.best_solution[n])[b], states[i][n][b]), f"best solution {n}[{b}]")
        ci = int(info.converged_iter[b])
        need((status[b] == "CONVERGED") == (ci >= 0), f"converged_iter {ci} with status {status[b]}")
        if status[b] == "CONVERGED":
            need(1 <= ci < k and (h[ci:] == h[ci]).all(), f"element {b} moved after converging at {ci}: {h.tolist()}")
    close(np_(info.last_err), H[:, k - 1], 0.0, "last_err")
    # ------------------------------------------------------- means from the samples
    if len(log) >= 1 + (k - 1) * (c["ns"] + 1):
        t.label("means recomputed")
        pos = 1
        sigma = np.full((B, sum(ref.dof(p.groups[n]) for n in order)), c["sigma"])
        cat = lambda d: np.concatenate([d[n] for n in order], 1)  # noqa: E731
        conv = np.zeros(B, bool)
        for i in range(k - 1):
            smp = log[pos: pos + c["ns"]]
            pos += c["ns"] + 1
            X = np.stack([cat(d) for d in smp], 1)  # B, ns, d
            mu = cat(states[i])
            if not conv.any():
                z = (X - mu[:, None]) / np.maximum(sigma[:, None], 1e-300)
                need((np.abs(z) <= 8).all(), f"samples of iteration {i + 1} are not drawn around the mean with the current deviation")
                need(np.abs(z).max() > 0.3, f"samples of iteration {i + 1} do not spread with the current deviation")
            f = np.stack([half_sq(p, dict(p.values, **d)) for d in smp], 1)
            new = np.zeros_like(mu)
            sg = np.zeros_like(mu)
            amb = False
            for b in range(B):
                if c["temp"] is None:
                    o = np.argsort(f[b])
                    w = np.zeros(c["ns"])
                    w[o[: c["ne"]]] = 1
                    amb |= bool(f[b][o[c["ne"]]] - f[b][o[c["ne"] - 1]] < (1e-4 if f32 else 1e-9))
                else:
                    q = (f[b] - f[b].mean()) / (f[b].std(ddof=1) + 1e-6) if c["norm"] else f[b]
                    q = -q * c["temp"]
                    w = np.exp(q - q.max()) / np.exp(q - q.max()).sum() if c["ne"] == 1 else sig(q + solve_nu(q, c["ne"]))
                new[b] = w @ X[b] / c["ne"]
                sg[b] = np.sqrt(w @ (X[b] - new[b]) ** 2 / c["ne"])
            if amb:
                t.label("ambiguous elite")
                break
            got = cat(states[i + 1])
            scale = 1 + np.abs(X).max()
            tol = (1e-2 if f32 else 1e-3) * scale
            want = np.where(conv[:, None], mu, new)
            close(got, want, tol, f"mean after iteration {i + 1}")
            if np.abs(new.sum()) > 0 and sg.min() < 1e-4:
                break
            sigma = sg * 1.001 + 1e-4
            for b in range(B):
                ci = int(info.converged_iter[b])
                conv[b] = status[b] == "CONVERGED" and i + 1 >= ci
    # ------------------------------------------------------------ batch independence
    if B > 1 and c["tol"] == "zero":
        r = gens.rng(c["seed"])
        j = int(r.integers(0, B))
        vals = {n: v.copy() for n, v in p.values.items()}
        for n in p.opt + p.aux:
            if vals[n].shape[0] == B and n[0] in "xt":
                vals[n][j] = p.draw(n, 1, rng=r)[0]
        _, fin3, _ = run_dcem(c, p, vals)
        for n in fin3:
            for b in range(B):
                if b != j:
                    close(fin3[n][b], fin2[n][b], 1e-4 if f32 else 1e-9, f"{n}[{b}] after changing the data of element {j}")


# ------------------------------------------------------------------------- samples around a solution
@st.composite
def samp_case(draw):
    nv = draw(st.integers(1, 3))
    return dict(dofs=draw(st.lists(st.integers(1, 3), min_size=nv, max_size=nv)), B=draw(st.integers(1, 3)), seed=draw(gens.seeds),
                temp=draw(st.sampled_from([1.0, 0.25, 3.0])), lu=draw(st.booleans()), dtype=draw(gens.dtypes), n=draw(st.sampled_from([1, 2, 4000, 4000])),
                solved=draw(st.booleans()), rev=draw(st.booleans()), point=draw(st.booleans()))


def check_samp(c, t):
    """TheseusLayer.compute_samples draws from N(x + delta, temperature (A^T A)^-1) of every batch element."""
    r, B, dt = gens.rng(c["seed"]), c["B"], DT[c["dtype"]]
    D = sum(c["dofs"])
    obj, xs, vals = th.Objective(dtype=dt), [], {}
    for i, d in enumerate(c["dofs"]):
        x = (th.Point2 if d == 2 else th.Point3)(name=f"x{i}", dtype=dt) if c["point"] and d > 1 else th.Vector(d, name=f"x{i}", dtype=dt)
        xs.append(x)
        vals[f"x{i}"] = torch.tensor(r.normal(size=(B, d)), dtype=dt)
    A = r.normal(size=(B, D + 2, D)) + 2 * np.eye(D + 2, D)
    b = r.normal(size=(B, D + 2))
    vals.update(A=torch.tensor(A, dtype=dt), b=torch.tensor(b, dtype=dt))
    obj.add(th.AutoDiffCostFunction(
        xs, lambda optim_vars, aux_vars: (
            aux_vars[0].tensor @ torch.cat([v.tensor for v in optim_vars], 1).unsqueeze(2)).squeeze(2) - aux_vars[1].tensor, D + 2,
        aux_vars=[th.Variable(torch.zeros(1, D + 2, D, dtype=dt), name="A"), th.Variable(torch.zeros(1, D + 2, dtype=dt), name="b")],
        cost_weight=th.ScaleCostWeight(torch.ones(1, 1, dtype=dt))))
    lk = {}
    if c["rev"]:
        ordering = th.VariableOrdering(obj, default_order=False)
        ordering.extend(list(reversed(xs)))
        lk["ordering"] = ordering
    opt = th.GaussNewton(obj, linear_solver_cls=th.LUDenseSolver if c["lu"] else th.CholeskyDenseSolver, linearization_kwargs=lk, max_iterations=1)
    layer = th.TheseusLayer(opt)
    t.label(f"{c['n']} samples", c["dtype"], "solved" if c["solved"] else "linearised")
    t.nontrivial(B > 1 or D > 1)
    if c["solved"]:
        layer.forward(vals)
    else:
        layer.objective.update(vals)
    solver = opt.linear_solver
    solver.linearization.linearize()
    order = [v.name for v in solver.linearization.ordering]
    at = {k: v.tensor.clone() for k, v in obj.optim_vars.items()}
    torch.manual_seed(c["seed"] % 10**6)
    out = layer.compute_samples(solver, n_samples=c["n"], temperature=c["temp"])
    need(layer.compute_samples(None) is None, "samples without a solver")
    for k, v in obj.optim_vars.items():
        need(torch.equal(v.tensor, at[k]), f"sampling moved {k}")
    need(tuple(out.shape) == (B, D, c["n"]) and out.dtype == dt, f"samples are {out.dtype} {tuple(out.shape)}")
    need(bool(torch.isfinite(out).all()), "samples are not finite")
    if c["n"] < 100:
        return
    cols = np.concatenate([np.arange(sum(c["dofs"][:int(n[1:])]), sum(c["dofs"][:int(n[1:]) + 1])) for n in order])
    N = c["n"]
    for e in range(B):
        H = A[e].T @ A[e]
        want = np.linalg.solve(H, A[e].T @ b[e])[cols]
        L = np.linalg.cholesky(H[np.ix_(cols, cols)] / c["temp"])
        z = (np_(out[e]).T - want) @ L
        slack = 5e-3 if c["dtype"] == "float32" else 1e-6
        m = np.abs(z.mean(0)) * math.sqrt(N)
        need(m.max() < 6.5 + slack * math.sqrt(N), f"mean of the whitened samples of element {e} is {z.mean(0)}, expected 0")
        P2 = z[:, :, None] * z[:, None, :]
        dev = np.abs(P2.mean(0) - np.eye(D)) / (P2.std(0) / math.sqrt(N) + slack / 10)
        need(dev.max() < 6.5, f"covariance of the whitened samples of element {e} is {P2.mean(0)}, expected the identity (temperature {c['temp']})")


SUBS = [
    Sub("lml", lml_case, check_lml, 300, shards=(2, 4)),
    Sub("dcem", dcem_case, check_dcem, 120, shards=(6, 8)),
    Sub("samples", samp_case, check_samp, 120, 1000),
]
