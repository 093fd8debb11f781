import math

import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st

from vlib import gens, problems as P, ref
from vlib.core import Skip, Sub
from vlib.th import DT, close, need, np_

PROPERTY = "P15"
RULE = (
    "kernels: squared residuals from 0 to 1e12, radii from 1e-4 to 1e4. robust: problems whose cost functions are "
    "all robust (kernel, per-dimension or whole, scalar or batched radius, weights incl. zero), residual scales from "
    "tiny to large, values recomputed from formulas and gradients by finite differences. Used objects are compared with new ones that get the same data. Non-trivial: some residual "
    "beyond the radius (kernels) / batch or dimension above one (robust)."
)
ASSUMPTIONS = [
    "The radius kernels use is exp(log_radius); squared residuals within 1e-3 relative of the Huber / hinge switch are not differentiated.",
]
K = {"huber": th.HuberLoss, "welsch": th.WelschLoss, "hinge": th.core.robust_loss.HingeLoss, "gm": th.GemanMcClureLoss}


def value(k, x, r, mu=None):
    if k == "huber":
        return np.where(x > r, 2 * np.sqrt(r * x) - r, x)
    if k == "welsch":
        return -r * np.expm1(-x / r)
    if k == "hinge":
        return np.where(x > r, np.sqrt(x) - math.sqrt(r), 0.0)
    return mu * r * x / (mu * r + x)


def slope(k, x, r, mu=None):
    if k == "huber":
        return np.where(x > r, np.sqrt(r / np.maximum(x, r)), 1.0)
    if k == "welsch":
        return np.exp(-x / r)
    if k == "hinge":
        return np.where(x > r, 0.5 / np.sqrt(np.maximum(x, r)), 0.0)
    return (mu * r / (mu * r + x)) ** 2


@st.composite
def kernel_case(draw):
    k = draw(st.sampled_from(sorted(K)))
    lr = draw(st.integers(-90, 90)) / 10.0
    xs = []
    for _ in range(draw(st.integers(1, 6))):
        m = draw(st.integers(0, 3))
        if m == 0:
            xs.append(0.0)
        elif m == 1:
            xs.append(math.exp(lr) * (1 + draw(st.integers(-100, 100)) / 1000))
        else:
            xs.append(10.0 ** (draw(st.integers(-120, 120)) / 10))
    return dict(k=k, lr=lr, x=xs, mu=draw(st.sampled_from([1.0, 1.5, 10.0, 1e4])), dtype=draw(gens.dtypes),
                shape=draw(st.sampled_from(["(n,1)", "(1,n)", "rb"])))


def check_kernel(c, t):
    dt = DT[c["dtype"]]
    n = len(c["x"])
    x = torch.tensor(sorted(c["x"]), dtype=dt)
    x = x.view(1, -1) if c["shape"] == "(1,n)" else x.view(-1, 1)
    lr = torch.full((n if c["shape"] == "rb" else 1, 1), c["lr"], dtype=dt)
    mu = torch.full((1, 1), c["mu"], dtype=dt)
    args = (mu,) if c["k"] == "gm" else ()
    L = K[c["k"]]
    v, s = L.evaluate(x, lr, *args), L.linearize(x, lr, *args)
    xs = np_(x)
    r = math.exp(float(np_(lr)[0, 0]))
    t.label(c["k"])
    t.nontrivial((xs > r).any())
    need(v.shape == x.shape and s.shape == x.shape, "shape")
    need(v.dtype == dt and s.dtype == dt, "dtype")
    m = c["mu"] if c["k"] == "gm" else None
    eps = 1e-5 if dt == torch.float32 else 1e-13
    wv, ws = value(c["k"], xs, r, m), slope(c["k"], xs, r, m)
    sw = np.abs(xs - r) < 1e-5 * r if c["k"] == "hinge" else np.zeros_like(xs, bool)
    tv = eps * (np.abs(wv) + (r if c["k"] != "gm" else 0) + 1e-9) * 4 + 1e-9 * (eps > 1e-6) + 2e-10 * (c["k"] == "huber")
    close(np.where(sw, wv, np_(v)), wv, tv, f"{c['k']} value (squared residuals {xs.ravel()}, radius {r})")
    ts = 20 * eps * (1 + xs / r * ws) + 2e-10
    close(np.where(sw, ws, np_(s)), ws, ts, f"{c['k']} slope")
    f = np_(v).ravel()
    need((f >= 0).all(), f"{c['k']}: negative value")
    need((np.diff(f) >= -np.max(tv)).all(), f"{c['k']}: decreasing")
    need((np_(s) >= 0).all(), f"{c['k']}: negative slope")
    if c["k"] != "hinge":
        need((f <= xs.ravel() + tv.ravel()).all(), f"{c['k']}: above the quadratic")
        need((np_(s) <= 1 + 1e-6).all(), f"{c['k']}: slope above one")
    # slope is the derivative of the value (autograd)
    y = x.clone().requires_grad_(True)
    (g,) = torch.autograd.grad(L.evaluate(y, lr, *args).sum(), y)
    far = np.abs(xs - r) > 1e-3 * r
    far &= xs > 0
    close(np.where(far, np_(g), 0), np.where(far, np_(s), 0), 40 * eps * (1 + xs / r) + 2e-10, f"{c['k']}: slope vs derivative of the value")


@st.composite
def robust_case(draw):
    s = draw(P.spec(max_cfs=4, max_vars=3, robust=False, dtypes=st.just("float64"), zero=True,
                    groups=draw(st.sampled_from([["R1", "R2"], ["R3"], ["SE2"], ["SO3", "R2"], ["SE3"]]))))
    for cf in s["cfs"]:
        cf["rob"] = dict(loss=draw(st.sampled_from(["huber", "welsch", "gm", "hinge"])), r=draw(st.integers(-40, 30)) / 10.0,
                         flatten=int(draw(st.booleans())), rb=int(draw(st.integers(0, 3)) == 0))
    return dict(s=s, vec=draw(st.booleans()), seed=draw(gens.seeds), size=draw(st.sampled_from([1e-3, 0.3, 1.0, 1.0, 20.0])))


P.LOSSES["hinge"] = K["hinge"]


class Prob(P.Problem):
    def loss(self, i, sq, vals, b, slope_=False):
        c = self.s["cfs"][i]["rob"]
        r = math.exp(self.el(vals, f"r{i}", b)[0])
        mu = self.el(vals, f"u{i}", b)[0] if c["loss"] == "gm" else None
        return (slope if slope_ else value)(c["loss"], sq, r, mu)


def check_robust(c, t):
    p = Prob(c["s"])
    r = gens.rng(c["seed"])
    B = c["s"]["B"]
    for i, cf in enumerate(c["s"]["cfs"]):
        if cf["rob"]["rb"]:
            p.values[f"r{i}"] = p._round(cf["rob"]["r"] + 0.5 * r.normal(size=(B, 1)))
        t.label(cf["rob"]["loss"], "flat" if cf["rob"]["flatten"] else "whole")
    for n, g in p.groups.items():  # residual sizes
        if n[0] == "t" and ref.is_vec(g):
            p.values[n] = p._round(p.values[n] * c["size"])
    obj = p.build()
    vals = p.values
    if p.near_pi(vals):
        raise Skip("logarithm near pi")
    # Objective (and its vectorised containers) need a consistent batch
    if p.batch(vals) != max(v.shape[0] for n, v in vals.items()):
        raise Skip("batch")
    if c["vec"]:
        th.Vectorize(obj)
    obj.update()
    t.nontrivial(B > 1 or max(cf.dim() for cf in p.cfs) > 1)
    bs = p.batch(vals)
    want = p.all_errors(vals)
    err = obj.error()
    sl = p.row_slices()
    m = 1 + np.abs(want)
    close(np.broadcast_to(np_(err), want.shape), want, 2e-5 * m if False else 1e-7 * m, "robust error vector")
    for i, cf in enumerate(p.cfs):
        for b in range(bs):
            e = p.raw_error(i, vals, b) * p.weight(i, vals, b)
            rho = np.sum(p.loss(i, e**2, vals, b)) if c["s"]["cfs"][i]["rob"]["flatten"] else float(p.loss(i, (e**2).sum(), vals, b))
            got = np_(err)[b if err.shape[0] > 1 else 0, sl[i]]
            close((got**2).sum(), rho, 1e-7 * (1 + abs(rho)), f"squared norm of the robust error of cost function {i}")
    metric = obj.error_metric()
    close(np.broadcast_to(np_(metric), (bs,)), 0.5 * (want**2).sum(1), 1e-6 * (1 + (want**2).sum(1)), "objective metric")
    # gradient of the robust loss = J^T e of the rescaled system
    its = list(obj._get_jacobians_iter())
    # vectorised containers may come in another order: match by name of variables and weights
    for cf in its:
        js, e = cf.weighted_jacobians_error()
        name = cf.name if hasattr(cf, "name") else None
        cand = [i for i in range(len(p.cfs)) if p.cfs[i].name == name]
        if not cand:
            continue
        check_grad(p, cand[0], js, e, vals, bs)
    if c["vec"]:
        obj.disable_vectorization()
    for i, cf in enumerate(p.cfs):
        js, e = cf.weighted_jacobians_error()
        check_grad(p, i, js, e, vals, bs)

    # an objective whose data changed answers like a new one with the same data
    new = {n: p._round(v[::-1] * (1 + 0.1 * r.normal(size=(len(v), 1)))) if n[0] in "ruw" or ref.is_vec(p.groups.get(n, "SE3")) else v[::-1].copy()
           for n, v in vals.items() if r.integers(0, 2) and v.ndim == 2}
    vals2 = dict(vals, **new)
    p2 = Prob(c["s"])
    obj2 = p2.build(values=vals2)
    if c["vec"]:
        th.Vectorize(obj)
        th.Vectorize(obj2)
    obj.update({n: p.tensor(v) for n, v in new.items() if obj.has_optim_var(n) or n in obj.aux_vars})
    obj2.update()
    need(torch.equal(obj.error(), obj2.error()) and torch.equal(obj.error_metric(), obj2.error_metric()), "errors after changing the data of a used objective")
    for u, v in zip(p.cfs, p2.cfs):
        (j1, e1), (j2, e2) = u.weighted_jacobians_error(), v.weighted_jacobians_error()
        need(torch.equal(e1, e2) and all(map(torch.equal, j1, j2)), "Jacobians after changing the data of a used objective")


def check_grad(p, i, js, e, vals, bs):
    c = p.s["cfs"][i]
    flat = c["rob"]["flatten"]
    vs = list(dict.fromkeys(f"x{k}" for k in c["v"]))
    if len(vs) != len(c["v"]):
        return
    for b in range(bs):
        rr = math.exp(p.el(vals, f"r{i}", b)[0])

        def rho(n=None, x=None):
            q = p.raw_error(i, vals, b, {n: x} if n else None) * p.weight(i, vals, b)
            sq = q**2 if flat else np.array([(q**2).sum()])
            return 0.5 * np.sum(p.loss(i, sq, vals, b)), sq

        _, sq = rho()
        if (np.abs(sq - rr) < 1e-3 * rr).any() and c["rob"]["loss"] in ("huber", "hinge"):
            continue
        for n, j in zip(vs, js):
            g = p.groups[n]
            x = ref.from_data(g, p.el(vals, n, b))
            want = ref.num_jac(g, x, lambda y: np.array([rho(n, y)[0]]), "R1", 1e-5)[0]
            jb = np_(j)[b if j.shape[0] > 1 else 0]
            eb = np_(e)[b if e.shape[0] > 1 else 0]
            got = jb.T @ eb
            # 1e-5 finite-difference step: error grows with curvature ~ |J|^2 (and slope change over the step)
            q = (np.abs(jb).max() + 1) ** 2 * (1 + np.abs(eb).max())
            close(got, want, 2e-5 * q + 1e-5 * abs(rho()[0]), f"gradient of the {c['rob']['loss']} cost {i} wrt {n}")


SUBS = [
    Sub("kernels", kernel_case, check_kernel, 2000, shards=(2, 8)),
    Sub("robust", robust_case, check_robust, 800, shards=(6, 8)),
]
