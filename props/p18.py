import math
import warnings

import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st

from vlib import gens, opt as O, problems as P, ref
from vlib.core import Skip, Sub, Violation
from vlib.th import close, need, np_

PROPERTY = "P18"
RULE = (
    "A case draws a batch of least-squares problems over generated mixes of manifolds, cost functions, weights and robust "
    "kernels, plus an optimiser (Gauss-Newton, Levenberg-Marquardt fixed or adaptive, Dogleg), linear solver and options. "
    "Every recorded iteration is compared with a numpy implementation of the same algorithm restarted from the recorded "
    "state; linear problems must reach the exact minimiser in one full step; adaptive variants must never increase an "
    "error or leave the trust region. Non-trivial: two or more batch elements or a robust / nonlinear cost."
)
ASSUMPTIONS = [
    "step acceptance decisions within 1e-3 of their threshold end the comparison of that trajectory",
    "problems whose residual rotations come within 0.3 rad of pi are skipped (discontinuous errors)",
    "CUDA-only linear solvers are not available here",
]


@st.composite
def linear_case(draw):
    s = draw(P.spec(groups=P.VEC_G, kinds=["local", "between", "lin"], anchored=True, robust=False, max_b=3, single_opt=True))
    c = draw(O.config(opts=["gn", "dog", "lm"], steps=[1.0, 1.0, 0.5, 0.25], tols=["default", "zero"]))
    if c["opt"] == "dog":
        c.update(tr=1e6, maxtr=1e7)
    if c["opt"] == "lm":
        c.update(damping=1e-12 if s["dtype"] == "float64" else 1e-9, ell=False)
    c["T"] = 1
    return dict(s=s, c=c, layer=draw(st.booleans()))


def names(p, obj):
    return [n for n in obj.optim_vars]


def check_linear(q, t):
    s, c = q["s"], q["c"]
    p = P.Problem(s)
    t.label(c["opt"], c["ls"], s["dtype"])
    t.nontrivial(s["B"] > 1 or len(s["cfs"]) > 2)
    info, fin, obj, opt = O.run(c, p, layer=q["layer"])
    order = [v.name for v in opt.ordering]
    B = p.batch(p.values)
    f32 = s["dtype"] == "float32"
    for b in range(B):
        J, e = p.linear_system(p.values, b, order)
        H = J.T @ J
        cond = np.linalg.cond(H)
        if cond > (1e4 if f32 else 1e10):
            raise Skip("ill conditioned")
        d = c["step"] * np.linalg.solve(H, -J.T @ e)
        k = 0
        for n in order:
            dof = ref.dof(p.groups[n])
            want = p.el(p.values, n, b) + d[k:k + dof]
            k += dof
            got = fin[n][b if fin[n].shape[0] > 1 else 0]
            tol = (3e-5 * max(1, cond / 10) if f32 else 1e-7) * (1 + np.abs(d).max() + np.abs(want).max())
            close(got, want, tol, f"{n}[{b}] after one {c['opt']} step of size {c['step']} on a linear problem")


@st.composite
def steps_case(draw):
    hard = draw(st.integers(0, 2)) == 0
    kw = dict(groups=P.VEC_G, kinds=["auto", "auto", "between"], hard=True) if hard else {}
    s = draw(P.spec(anchored=True, max_b=3, max_vars=3, max_cfs=4, dtypes=st.just("float64"), **kw))
    s["scale"] = draw(st.sampled_from([0.6, 1.5, 3.0] if hard else [0.3, 0.6, 1.0]))
    c = draw(O.config(opts=["lma", "dog"] if hard else None))
    return dict(s=s, c=c, layer=draw(st.booleans()))


def hist_states(info, p, order, t_):
    return {n: np_(info.state_history[n][..., t_]) for n in order}


def n_recorded(info, order):
    a = np_(info.err_history)
    fin = np.isfinite(a).any(0)
    need(fin[0], "error history has no initial entry")
    k = int(fin.sum())
    need(fin[:k].all(), "error history has holes")
    return k


def check_steps(q, t):
    s, c = q["s"], q["c"]
    p = P.Problem(s)
    if p.near_pi(p.values):
        raise Skip("near pi")
    t.label(c["opt"], c["ls"], "vectorized" if c["vec"] else "plain", "tol " + c["tol"])
    t.nontrivial(s["B"] > 1 or any(x["kind"] not in ("lin",) for x in s["cfs"]))
    info, fin, obj, opt = O.run(c, p, layer=q["layer"], track_err_history=True, track_state_history=True)
    order = [v.name for v in opt.ordering]
    B = p.batch(p.values)
    vals = {n: (O.bexpand(v, B) if n in order else v) for n, v in p.values.items()}
    sim = O.Sim(c, p, vals, order)
    k = n_recorded(info, order)
    n_ok = 0
    for i in range(k - 1):
        cur = hist_states(info, p, order, i)
        if p.near_pi(O.with_state(p, vals, cur)):
            raise Skip("near pi")
        if sim.conv.all():
            raise Violation(f"iteration {i + 1} ran although every element had converged")
        r = sim.step(cur)
        if r is None:
            t.label("ambiguous decision")
            return
        new, nerr = r
        got = hist_states(info, p, order, i + 1)
        for n in order:
            g = p.groups[n]
            for b in range(B):
                tol = 2e-5 * (1 + np.abs(new[n][b] - cur[n][b]).max() + np.abs(new[n][b]).max())
                close(got[n][b], new[n][b], tol, f"{n}[{b}] ({g}) after iteration {i + 1} of {c['opt']}")
        n_ok += 1
    if k - 1 < c["T"] and not sim.conv.all():
        raise Violation(f"stopped after {k - 1} of {c['T']} iterations without convergence (reference: {sim.conv.tolist()})")
    st_ = [x.name for x in info.status]
    for b in range(B):
        need(st_[b] == ("CONVERGED" if sim.conv[b] else "MAX_ITERATIONS"),
             f"status of element {b} is {st_[b]}, the reference {'converged' if sim.conv[b] else 'did not converge'}")
    t.label("all steps compared")


@st.composite
def mono_case(draw):
    s = draw(P.spec(anchored=draw(st.integers(0, 2)) > 0, max_b=4, max_vars=3, max_cfs=5))
    s["scale"] = draw(st.sampled_from([0.002, 0.05, 0.5, 1.0, 2.0]))
    c = draw(O.config(opts=["lma", "dog"], max_T=12))
    if c["opt"] == "dog":
        r = draw(st.sampled_from([0.001, 0.01, 0.1, 1.0]))
        c.update(tr=r, maxtr=r, mintr=min(c["mintr"], r))
    c["mode"] = draw(st.sampled_from(["unroll", "unroll", "truncated"]))
    if c["mode"] == "truncated":
        c["k"] = draw(st.integers(1, 4))
    return dict(s=s, c=c, layer=draw(st.booleans()), grad=draw(st.booleans()))


def check_mono(q, t):
    s, c = q["s"], q["c"]
    p = P.Problem(s)
    f32 = s["dtype"] == "float32"
    t.label(c["opt"], s["dtype"], "scale %g" % s["scale"])
    t.nontrivial(s["B"] > 1 or len(s["cfs"]) > 2)
    B = p.batch(p.values)
    try:
        info, fin, obj, opt = O.run(c, p, layer=q["layer"], grad=q["grad"], track_state_history=True)
    except RuntimeError as e:
        if "linear optimizer" in str(e):
            raise Skip("singular problem")
        raise
    if any(x.name == "FAIL" for x in info.status):
        raise Skip("singular problem")
    states = []
    for i in range(c["T"] + 1):
        h = {n: np_(info.state_history[n][..., i]) for n in fin}
        if all(np.isinf(a).all() for a in h.values()):
            break
        states.append(h)
    states.append({n: O.bexpand(a, B) for n, a in fin.items()})
    vals = p.values
    errs = []
    for st_ in states:
        for n, a in st_.items():
            g = p.groups[n]
            need(np.isfinite(a).all(), f"{n} is not finite")
            if not ref.is_vec(g):
                for b in range(a.shape[0]):
                    m = a[b]
                    R = {"SO2": lambda: np.array([[m[0], -m[1]], [m[1], m[0]]]),
                         "SE2": lambda: np.array([[m[2], -m[3]], [m[3], m[2]]]),
                         "SO3": lambda: m, "SE3": lambda: m[:, :3]}[g]()
                    close(R.T @ R, np.eye(len(R)), 1e-3 if f32 else 1e-9, f"{n}[{b}]: rotation part orthonormal")
                    need(np.linalg.det(R) > 0, f"{n}[{b}]: reflection")
        errs.append(O.half_sq(p, O.with_state(p, vals, {n: O.bexpand(a, B) for n, a in st_.items()})))
    for i in range(len(errs) - 1):
        inc = errs[i + 1] - errs[i]
        tol = (1e-3 if f32 else 1e-8) * errs[i] + (1e-7 if f32 else 1e-14)
        if (inc > tol).any():
            b = int(np.argmax(inc - tol))
            raise Violation(f"{c['opt']}: the error of element {b} grew from {errs[i][b]!r} to {errs[i + 1][b]!r} at iteration {i + 1}")
        if c["opt"] == "dog":
            for b in range(B):
                d2 = 0.0
                for n in fin:
                    g = p.groups[n]
                    x = ref.from_data(g, O.bexpand(states[i][n], B)[b])
                    y = ref.from_data(g, O.bexpand(states[i + 1][n], B)[b])
                    d2 += (ref.log(g, ref.compose(g, ref.inv(g, x), y)) ** 2).sum()
                lim = c["tr"] * (1 + (1e-3 if f32 else 1e-6)) + (3e-5 if f32 else 1e-9) * (
                    1 + max(np.abs(a).max() for a in states[i].values()))
                need(math.sqrt(d2) <= lim, f"element {b} moved {math.sqrt(d2)!r} in one iteration, trust region {c['tr']}")


@st.composite
def conv_case(draw):
    s = draw(P.spec(anchored=True, max_b=3, max_vars=3, max_cfs=4, dtypes=st.just("float64")))
    c = draw(O.config(opts=["gn", "lma", "dog"], steps=[1.0], tols=["default"]))
    c["T"] = 40
    if c["opt"] == "lma":
        c.update(acc=0.1, damping=1e-3, up=11.0, down=9.0)
    if c["opt"] == "dog":
        c.update(tr=0.5, sh=0.25, ex=0.75, shr=0.25, exr=2.0, acct=0.0, mintr=1e-5, maxtr=1e5)
    return dict(s=s, c=c)


def check_conv(q, t):
    s, c = q["s"], q["c"]
    p = P.Problem(s)
    t.label(c["opt"])
    info, fin, obj, opt = O.run(c, p, track_state_history=True, track_err_history=True)
    B = p.batch(p.values)
    vals = O.with_state(p, p.values, {n: O.bexpand(a, B) for n, a in fin.items()})
    if p.near_pi(vals):
        raise Skip("near pi")
    order = [v.name for v in opt.ordering]
    errs = O.half_sq(p, vals)
    hist = np_(info.err_history)
    for b in range(B):
        if info.status[b].name != "CONVERGED":
            t.label("not converged")
            continue
        # the step before convergence must have been an accepted one
        h = hist[b][np.isfinite(hist[b])]
        ci = int(info.converged_iter[b])
        if c["opt"] != "gn" and (ci < 1 or ci >= len(h) or h[ci] == h[ci - 1]) and errs[b] > 1e-10:
            t.label("converged on rejection")
            continue
        J, e = p.linear_system(vals, b, order)
        H = J.T @ J
        lam = np.linalg.eigvalsh(H)[-1]
        g = np.linalg.norm(J.T @ e)
        # decrease predicted by the quadratic model at the last point is bounded by the tolerances
        lim = math.sqrt(2 * (lam + 1) * (1e-10 * B + 1e-8 * errs[b]) * 100) + 1e-6
        t.label("converged")
        t.nontrivial()
        need(g <= lim * 10, f"element {b} reported converged with gradient norm {g!r} (limit {lim * 10:.3g}, error {errs[b]!r})")


@st.composite
def linopt_case(draw):
    s = draw(P.spec(anchored=draw(st.integers(0, 3)) > 0, max_b=3, max_vars=3, max_cfs=4, dtypes=st.just("float64")))
    s["scale"] = draw(st.sampled_from([0.05, 0.6]))
    return dict(s=s, ls=draw(st.sampled_from(sorted(O.LS))), vec=draw(st.booleans()), grad=draw(st.booleans()),
                layer=draw(st.booleans()), zero=draw(st.integers(0, 5)) == 0, runs=draw(st.integers(1, 2)))


def check_linopt(q, t):
    s = q["s"]
    p = P.Problem(s)
    vals = {n: v.copy() for n, v in p.values.items()}
    obj = p.build(values=vals)
    opt = th.LinearOptimizer(obj, O.LS[q["ls"]], vectorize=q["vec"] and not q["layer"])
    layer = th.TheseusLayer(opt, vectorize=q["vec"]) if q["layer"] else None
    order = [v.name for v in opt.linear_solver.linearization.ordering]
    t.label("linear optimizer", q["ls"])
    t.nontrivial(s["B"] > 1 or len(s["cfs"]) > 2)
    B = p.batch(vals)
    dofs = [ref.dof(p.groups[n]) for n in order]
    for i in range(q["runs"]):
        if p.near_pi(vals):
            raise Skip("near pi")
        want = {n: O.bexpand(vals[n], B).copy() for n in order}
        for b in range(B):
            J, e = p.linear_system(vals, b, order)
            H = J.T @ J
            if np.linalg.cond(H) > 1e8:
                raise Skip("ill conditioned")
            d, k = np.linalg.solve(H, -J.T @ e), 0
            for n, m in zip(order, dofs):
                want[n][b] = O.retract(p, n, want[n][b], d[k:k + m])
                k += m
        with torch.set_grad_enabled(q["grad"]):
            if layer:
                _, info = layer.forward(O.input_tensors(p, vals))
            else:
                obj.update(O.input_tensors(p, vals))
                info = opt.optimize()
        need([x.name for x in info.status] == ["CONVERGED"] * B, f"status {info.status}")
        for n in order:
            got = np_(obj.optim_vars[n].tensor)
            need(np.array_equal(got, np_(info.best_solution[n])), f"{n}: best solution is not the final value")
            for b in range(B):
                close(got[b], want[n][b], 2e-5 * (1 + np.abs(want[n][b]).max()), f"{n}[{b}] after run {i + 1} of the linear optimizer")
        for n in order:
            vals[n] = np_(obj.optim_vars[n].tensor).copy()
        for n in p.values:
            if n not in order and n in obj.aux_vars:
                need(np.array_equal(np_(obj.aux_vars[n].tensor), vals[n]), f"auxiliary variable {n} changed")
    # an unsolvable system: nothing moves and the failure is reported
    if q["zero"]:
        x = th.Vector(tensor=torch.full((B, 2), 0.3, dtype=torch.float64), name="x_sing")
        o2 = th.Objective(dtype=torch.float64)
        o2.add(th.AutoDiffCostFunction([x], lambda optim_vars, aux_vars: optim_vars[0].tensor[:, :1] * 1.0, 1,
                                       cost_weight=th.ScaleCostWeight(torch.ones(1, 1, dtype=torch.float64)), name="sing"))
        s2 = th.LinearOptimizer(o2, O.LS["chol" if q["ls"] == "lu" else q["ls"]])
        o2.update()
        try:
            with torch.set_grad_enabled(q["grad"]), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                info = s2.optimize()
        except RuntimeError as e:
            need(q["grad"] and "linear optimizer" in str(e), f"unexpected error {e}")
            failed = True
        else:
            failed = any(z.name == "FAIL" for z in info.status)
            need(failed != q["grad"] or not failed, "failure not raised")
            if not failed:
                need(q["ls"] == "cholmod", "a singular system reported as solved")
        t.label("singular")
        if failed:
            need((x.tensor == 0.3).all(), "variables moved although the system could not be solved")


SUBS = [
    Sub("linear", linear_case, check_linear, 200, shards=(2, 4)),
    Sub("steps", steps_case, check_steps, 220, shards=(6, 8)),
    Sub("monotone", mono_case, check_mono, 240, shards=(4, 8)),
    Sub("linopt", linopt_case, check_linopt, 160, shards=(2, 4)),
    Sub("converged", conv_case, check_conv, 120, shards=(2, 4)),
]
