import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st

from vlib import gens, opt as O, problems as P, ref
from vlib.core import Skip, Sub, Violation
from vlib.th import close, need, np_

PROPERTY = "P21"
RULE = (
    "A case draws a well-posed problem (any manifold and cost mix, robust kernels, singleton and full auxiliary data, "
    "weights and radii included), solves it to convergence, and differentiates a random functional of the solution through "
    "every backward mode along a random direction of all auxiliary data. The reference is the implicit function theorem in "
    "numpy with finite-difference derivatives of the stationarity condition, including each mode's documented "
    "approximation (number of unrolled steps, Gauss-Newton Hessian, epsilon of direct loss minimisation). Non-trivial: the "
    "derivative is not negligible."
)
ASSUMPTIONS = [
    "implicit and direct loss minimisation use the Gauss-Newton Hessian: exact for zero residuals or linear problems, otherwise that approximation is the reference",
    "problems that do not converge to a gradient below 1e-7, ill-conditioned ones and those close to a Huber kink are skipped",
]


@st.composite
def case(draw):
    s = draw(P.spec(anchored=True, max_b=3, max_vars=3, max_cfs=4, dtypes=st.just("float64"), zero=False))
    s["scale"] = draw(st.sampled_from([0.1, 0.3, 0.5]))
    c = draw(O.config(opts=["gn", "gn", "lm"], max_T=4, tols=["zero"], steps=[1.0, 1.0, 0.5]))
    return dict(s=s, c=c, mode=draw(st.sampled_from(["unroll", "truncated", "implicit", "dlm"])),
                zero_res=draw(st.integers(0, 2)) == 0, extra=draw(st.integers(0, 3)), away=draw(st.booleans()))


def converge(p, vals):
    """minimiser by the code's own Gauss-Newton / LM in float64 (checked with the numpy gradient afterwards)"""
    obj = p.build(values=vals)
    opt = th.LevenbergMarquardt(obj, vectorize=False, max_iterations=40, abs_err_tolerance=1e-9, rel_err_tolerance=1e-6)
    obj.update()
    with torch.no_grad():
        opt.optimize(damping=1e-2, adaptive_damping=True)
        obj2 = p.build(values=O.with_state(p, vals, {n: np_(obj.optim_vars[n].tensor) for n in p.opt}))
        opt2 = th.GaussNewton(obj2, vectorize=False, max_iterations=14, abs_err_tolerance=0.0, rel_err_tolerance=0.0)
        obj2.update()
        opt2.optimize()
    return {n: np_(obj2.optim_vars[n].tensor) for n in p.opt}


def grad_at(p, vals, b, order):
    J, e = p.linear_system(vals, b, order)
    return J.T @ e, J


def move(p, vals, names, xis, h):
    out = dict(vals)
    for n in names:
        g = p.groups[n]
        if P.is_mat(g) or g[0] == "W" or ref.is_vec(g):
            out[n] = vals[n] + h * xis[n]
        else:
            out[n] = np.stack([ref.to_data(g, ref.compose(g, ref.from_data(g, vals[n][i]), ref.exp(g, h * xis[n][i])))
                               for i in range(len(vals[n]))])
    return out


def near_kink(p, vals):
    for i, c in enumerate(p.s["cfs"]):
        if not c["rob"] or c["rob"]["loss"] != "huber":
            continue
        for b in range(p.batch(vals)):
            e = (p.raw_error(i, vals, b) * p.weight(i, vals, b)) ** 2
            e = e if c["rob"]["flatten"] else np.array([e.sum()])
            r = np.exp(p.el(vals, f"r{i}", b)[0])
            if (np.abs(e - r) < 0.02 * (1 + r)).any():
                return True
    return False


def check(q, t):
    s, c = q["s"], dict(q["c"])
    p = P.Problem(s)
    mode = q["mode"]
    vals = {n: v.copy() for n, v in p.values.items()}
    B = p.batch(vals)
    if q["zero_res"]:
        # consistent data: every residual vanishes at the current variable values
        for i, k in enumerate(s["cfs"]):
            fix_target(p, vals, i, B)
    if p.near_pi(vals):
        raise Skip("near pi")
    try:
        sol = converge(p, vals)
    except RuntimeError:
        raise Skip("no convergence")
    vals = O.with_state(p, vals, {n: O.bexpand(a, B) for n, a in sol.items()})
    if not all(np.isfinite(v).all() for v in vals.values()) or p.near_pi(vals, 0.5) or near_kink(p, vals):
        raise Skip("near pi, kink or diverged")
    order = [v.name for v in th.VariableOrdering(p.build())] if hasattr(th, "VariableOrdering") else list(p.build().optim_vars)
    G = [grad_at(p, vals, b, order) for b in range(B)]
    if max(np.abs(g).max() for g, _ in G) > 1e-7:
        raise Skip("no convergence")
    conds = [np.linalg.cond(J.T @ J) for _, J in G]
    if max(conds) > 1e4:
        raise Skip("ill conditioned")
    r = gens.rng(s["seed"] + 3)
    aux = p.aux
    xis = {}
    for n in aux:
        g = p.groups[n]
        k = vals[n].shape[0]
        shape = vals[n].shape if (P.is_mat(g) or g[0] == "W" or ref.is_vec(g)) else (k, ref.dof(g))
        xis[n] = r.normal(size=shape) * (0.3 if n[0] in "wru" else 1.0)
    cot = {n: r.normal(size=(B,) + p.values[n].shape[1:]) for n in order}
    # ------------------------------------------------------------- reference derivative
    h = 1e-4
    vp, vm = move(p, vals, aux, xis, h), move(p, vals, aux, xis, -h)
    lam = c.get("damping", 0.0) if c["opt"] == "lm" else 0.0
    step = c["step"]
    T = c["T"] + q["extra"]
    # modes that only differentiate around the solution may start anywhere
    away = q.get("away", False) and mode in ("implicit", "dlm") and c["opt"] == "gn" and c["step"] == 1.0
    if away:
        T = 25
    k = {"unroll": T, "truncated": c["T"], "implicit": 1, "dlm": 1}[mode]
    if mode in ("implicit", "dlm"):
        lam, step = 0.0, 1.0
    want = exact = 0.0
    for b in range(B):
        g, J = G[b]
        H = J.T @ J
        Gt = (grad_at(p, vp, b, order)[0] - grad_at(p, vm, b, order)[0]) / (2 * h)
        Gx = np.zeros_like(H)
        col = 0
        for n in order:
            gr = p.groups[n]
            for d in range(ref.dof(gr)):
                z = {n: np.zeros((B, ref.dof(gr)))}
                z[n][b, d] = 1.0
                Gx[:, col] = (grad_at(p, move(p, vals, [n], z, h), b, order)[0] - grad_at(p, move(p, vals, [n], z, -h), b, order)[0]) / (2 * h)
                col += 1
        D = lam * np.diag(np.diag(H)) + (1e-8 if c.get("eps") is None else c["eps"]) * np.eye(len(H)) if c.get("ell") and lam else lam * np.eye(len(H))
        A = np.linalg.inv(H + D)
        M = np.eye(len(H)) - step * A @ Gx
        dx = np.zeros(len(H))
        for _ in range(k):
            dx = M @ dx - step * A @ Gt
        ex = -np.linalg.solve(Gx, Gt)
        col = 0
        for n in order:
            gr = p.groups[n]
            q_ = ref.dof(gr)
            x = ref.from_data(gr, vals[n][b])
            for v, isx in ((dx, 0), (ex, 1)):
                pl = ref.to_data(gr, ref.compose(gr, x, ref.exp(gr, 1e-5 * v[col:col + q_])))
                mi = ref.to_data(gr, ref.compose(gr, x, ref.exp(gr, -1e-5 * v[col:col + q_])))
                val = (cot[n][b] * (pl - mi)).sum() / 2e-5
                if isx:
                    exact += val
                else:
                    want += val
            col += q_
    size = sum(np.abs(x).sum() for x in cot.values())
    t.label(mode, c["opt"], c["ls"], "zero residual" if q["zero_res"] else "residual", "steps %d" % k)
    t.nontrivial(abs(want) > 1e-3)
    # ----------------------------------------------------------------------- the code
    obj = p.build(values=vals)
    opt = O.OPT[c["opt"]](obj, linear_solver_cls=O.LS[c["ls"]], vectorize=False, max_iterations=T,
                          step_size=c["step"], abs_err_tolerance=0.0, rel_err_tolerance=0.0)
    leaves = {n: p.tensor(vals[n]).requires_grad_(True) for n in aux}
    start = vals
    if away:
        z = {n: r.normal(size=(B, ref.dof(p.groups[n]))) * 0.4 for n in order}
        start = move(p, vals, order, z, 1.0)
    inp = {n: p.tensor(start[n]) for n in order}
    inp.update(leaves)
    kw = O.kwargs(dict(c, mode="unroll"))
    kw["backward_mode"] = mode
    eps = 1e-5
    if mode == "truncated":
        kw["backward_num_iterations"] = k
    if mode == "dlm":
        kw["dlm_epsilon"] = eps
    out, info = th.TheseusLayer(opt, vectorize=c["vec"]).forward(inp, optimizer_kwargs=kw)
    if away:
        if not all(np.allclose(np_(out[n]), vals[n], atol=(1e-9 if mode == "dlm" else 1e-6) * (1 + np.abs(vals[n]).max()), rtol=0) for n in order):
            raise Skip("start too far away")
        t.label("started away from the minimiser")
    for n in order:
        close(out[n], vals[n], 1e-6 * (1 + np.abs(vals[n]).max()), f"solution {n} in mode {mode} restarted at the minimiser")
    loss = sum((out[n] * p.tensor(cot[n])).sum() for n in order)
    names = list(leaves)
    gr = torch.autograd.grad(loss, [leaves[n] for n in names], allow_unused=True)
    dp, dm = move(p, vals, aux, xis, 1e-5), move(p, vals, aux, xis, -1e-5)
    got = 0.0
    for n, x in zip(names, gr):
        if x is not None:
            need(torch.isfinite(x).all().item(), f"gradient with respect to {n} is not finite")
            got += (np_(x) * (dp[n] - dm[n])).sum() / 2e-5
    scale = 1 + abs(want) + size
    tol = 2e-4 * scale * min(max(conds) / 10, 30)
    if mode == "dlm":
        tol += 3e-3 * scale
    if not abs(got - want) <= tol:
        raise Violation(f"directional derivative of the solution in mode {mode} ({c['opt']}, {c['ls']}, {k} steps): got {got!r}, expected {want!r} (exact derivative of the minimiser {exact!r}, tolerance {tol:.2g})")


def fix_target(p, vals, i, B):
    k = p.s["cfs"][i]
    tn = f"t{k['a'][-1]}"
    # only targets used once can be set freely
    uses = sum(tn in [f"t{a}" for a in z["a"]] for z in p.s["cfs"])
    if uses != 1:
        return
    full = []
    for b in range(vals[tn].shape[0]):
        x = [ref.from_data(p.groups[f"x{j}"], p.el(vals, f"x{j}", b)) for j in k["v"]]
        g = p.s["vars"][k["v"][0]]["g"]
        if k["kind"] == "local":
            y = x[0]
        elif k["kind"] == "between":
            y = ref.compose(g, ref.inv(g, x[0]), x[1])
        else:
            return
        full.append(ref.to_data(g, y))
    vals[tn] = np.stack(full)


# ------------------------------------------------------- forward does not depend on the mode
@st.composite
def fwd_case(draw):
    s = draw(P.spec(anchored=True, max_b=3, max_vars=3, max_cfs=4))
    c = draw(O.config(opts=["gn", "lm", "lma", "dog"], max_T=6, tols=["zero", "default"]))
    return dict(s=s, c=c, k=draw(st.integers(1, 8)), needs=draw(st.booleans()), repeat=draw(st.booleans()))


def check_fwd(q, t):
    s, c = q["s"], q["c"]
    p = P.Problem(s)
    if p.near_pi(p.values):
        raise Skip("near pi")
    t.label(c["opt"], c["ls"], s["dtype"])
    t.nontrivial(s["B"] > 1 or c["T"] > 1)
    res = {}
    obj = p.build()
    opt = O.make(c, obj, vectorize=False)
    layer = th.TheseusLayer(opt, vectorize=c["vec"])
    f32 = s["dtype"] == "float32"
    H = None
    for mode in ["unroll", "truncated", "dlm", "implicit", "nograd"]:
        kw = O.kwargs(dict(c, mode="unroll"))
        if mode != "nograd":
            kw["backward_mode"] = mode
        if mode == "truncated":
            kw["backward_num_iterations"] = q["k"]
        inp = O.input_tensors(p)
        if q["needs"]:
            for n in p.aux:
                inp[n].requires_grad_(True)
        with torch.set_grad_enabled(mode != "nograd"):
            out, info = layer.forward(inp, optimizer_kwargs=dict(kw, track_err_history=True))
        res[mode] = {n: np_(x) for n, x in out.items()}
        if mode == "unroll":
            H = np_(info.err_history)
    if not np.isfinite(H[:, 0]).all() or np.nanmax(np.where(np.isfinite(H), H, 0)) > 1e4 * (1 + H[:, 0].max()):
        raise Skip("diverged")
    conv = H[:, -1:].size and np.isinf(H[:, -1]).any()
    for mode in ["truncated", "dlm", "implicit", "nograd"]:
        if mode == "implicit" and not (c["opt"] == "gn" and c["step"] == 1.0):
            continue  # the last step is a full Gauss-Newton step by definition
        if mode in ("truncated", "implicit") and (c["tol"] != "zero" or c["opt"] in ("lma", "dog")):
            continue  # the gradient iterations are run after convergence too
        for n, x in res[mode].items():
            w = res["unroll"][n]
            close(x, w, (1e-4 if f32 else 1e-7) * (1 + np.abs(w).max()), f"{n} in mode {mode} vs. unroll")


SUBS = [
    Sub("derivative", case, check, 170, 3000, shards=(8, 8)),
    Sub("forward", fwd_case, check_fwd, 90, 1500, shards=(4, 6)),
]
