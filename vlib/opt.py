"""Generated optimiser configurations, a runner, and a reference implementation of the four NLLS algorithms."""
import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st

from . import problems as P, ref
from .core import Skip
from .th import np_

OPT = {"gn": th.GaussNewton, "lm": th.LevenbergMarquardt, "lma": th.LevenbergMarquardt, "dog": th.Dogleg}
LS = {"chol": th.CholeskyDenseSolver, "lu": th.LUDenseSolver, "cholmod": th.CholmodSparseSolver}


@st.composite
def config(draw, opts=None, max_T=8, tols=None, steps=None, modes=None):
    o = draw(st.sampled_from(opts or sorted(OPT)))
    ls = draw(st.sampled_from(["chol", "chol", "lu", "cholmod"] if o in ("gn", "dog", "lm") else ["chol", "lu"]))
    c = dict(opt=o, ls=ls, vec=draw(st.booleans()), T=draw(st.integers(1, max_T)),
             step=draw(st.sampled_from(steps or [1.0, 1.0, 1.0, 0.5, 0.3])),
             tol=draw(st.sampled_from(tols or ["zero", "default", "default", "loose"])))
    if o in ("lm", "lma"):
        c["damping"] = draw(st.sampled_from([1e-3, 1e-4, 0.1, 1.0, 30.0]))
        c["ell"] = draw(st.booleans()) if ls != "cholmod" else False
        c["eps"] = draw(st.sampled_from([None, 1e-8, 1e-3])) if ls != "cholmod" else None
    if o == "lma":
        c["acc"] = draw(st.sampled_from([0.1, 0.1, 0.5, 0.9]))
        c["down"] = draw(st.sampled_from([9.0, 2.0, 50.0]))
        c["up"] = draw(st.sampled_from([11.0, 2.0, 4.0]))
    if o == "dog":
        c["tr"] = draw(st.sampled_from([0.5, 0.1, 2.0, 0.02, 100.0]))
        c["sh"], c["ex"] = draw(st.sampled_from([(0.25, 0.75), (0.5, 0.9), (0.05, 0.3)]))
        c["shr"] = draw(st.sampled_from([0.25, 0.5, 1.0]))
        c["exr"] = draw(st.sampled_from([2.0, 1.0, 4.0]))
        c["acct"] = draw(st.sampled_from([0.0, 0.0, 0.02]))
        c["maxtr"] = draw(st.sampled_from([1e5, 1e5, 0.7]))
        c["mintr"] = draw(st.sampled_from([1e-5, 1e-2]))
    c["mode"] = draw(st.sampled_from(modes or ["unroll"]))
    if c["mode"] == "truncated":
        c["k"] = draw(st.integers(1, max_T))
    return c


TOLS = {"zero": dict(abs_err_tolerance=0.0, rel_err_tolerance=0.0), "default": {},
        "loose": dict(abs_err_tolerance=1e-6, rel_err_tolerance=1e-2),
        "huge": dict(abs_err_tolerance=1e-3, rel_err_tolerance=0.3)}


def tolerances(c):
    d = TOLS[c["tol"]]
    return d.get("abs_err_tolerance", 1e-10), d.get("rel_err_tolerance", 1e-8)


def kwargs(c):
    kw = {}
    if c["opt"] in ("lm", "lma"):
        kw["damping"] = c["damping"]
        if c["ell"]:
            kw["ellipsoidal_damping"] = True
        if c["eps"] is not None:
            kw["damping_eps"] = c["eps"]
    if c["opt"] == "lma":
        kw.update(adaptive_damping=True, damping_accept=c["acc"], down_damping_ratio=c["down"], up_damping_ratio=c["up"])
    if c["opt"] == "dog":
        kw.update(trust_region_init=c["tr"], shrink_threshold=c["sh"], expand_threshold=c["ex"], shrink_ratio=c["shr"],
                  expand_ratio=c["exr"], accept_threshold=c["acct"], max_trust_region=c["maxtr"], min_trust_region=c["mintr"])
    if c["mode"] != "unroll":
        kw["backward_mode"] = c["mode"]
    if c["mode"] == "truncated":
        kw["backward_num_iterations"] = c["k"]
    return kw


def make(c, obj, vectorize=None):
    return OPT[c["opt"]](obj, linear_solver_cls=LS[c["ls"]], vectorize=c["vec"] if vectorize is None else vectorize,
                         max_iterations=c["T"], step_size=c["step"], **TOLS[c["tol"]])


def input_tensors(p, vals=None):
    return {n: p.tensor(v) for n, v in (vals or p.values).items()}


def run(c, p, vals=None, grad=False, layer=False, **track):
    """Fresh objective + optimiser on the given values; returns (info, final values, objective, optimizer)."""
    vals = vals or p.values
    obj = p.build(values=vals)
    opt = make(c, obj, vectorize=c["vec"] and not layer)
    kw = dict(kwargs(c), **track)
    with torch.set_grad_enabled(grad):
        if layer:
            _, info = th.TheseusLayer(opt, vectorize=c["vec"]).forward(input_tensors(p, vals), optimizer_kwargs=kw)
        else:
            obj.update()
            info = opt.optimize(**kw)
    fin = {n: np_(obj.optim_vars[n].tensor) for n in p.opt if n in obj.optim_vars}
    return info, fin, obj, opt


def with_state(p, vals, state):
    out = dict(vals)
    out.update(state)
    return out


def half_sq(p, vals):
    return 0.5 * (p.all_errors(vals) ** 2).sum(1)


def retract(p, n, a, d):
    g = p.groups[n]
    return ref.to_data(g, ref.compose(g, ref.from_data(g, a), ref.exp(g, d)))


def bexpand(a, B):
    return a if a.shape[0] == B else np.repeat(a, B, 0)


class Sim:
    """Reference batch optimiser; step(state) -> next recorded state given the current recorded one."""

    def __init__(self, c, p, vals, order):
        self.c, self.p, self.vals, self.order = c, p, vals, order
        self.B = p.batch(vals)
        self.dofs = [ref.dof(p.groups[n]) for n in order]
        self.lam = np.full(self.B, c.get("damping", 0.0))
        self.tr = np.full(self.B, c.get("tr", 0.0))
        self.att = np.zeros(self.B, int)
        self.conv = np.zeros(self.B, bool)
        self.ambiguous = False

    def delta(self, J, e, b):
        c = self.c
        g = -J.T @ e
        H = J.T @ J
        if c["opt"] == "gn":
            return np.linalg.solve(H, g), None
        if c["opt"] in ("lm", "lma"):
            ep = 1e-8 if c["eps"] is None else c["eps"]
            D = self.lam[b] * np.diag(H) + ep if c["ell"] else self.lam[b] * np.ones(len(H))
            return np.linalg.solve(H + np.diag(D), g), D - (ep if c["ell"] else 0)
        gn = np.linalg.solve(H, g)
        r = self.tr[b]
        if np.linalg.norm(gn) <= r:
            return gn, None
        cs = (g @ g) / (g @ H @ g) * g
        if np.linalg.norm(cs) >= r:
            return cs * r / np.linalg.norm(cs), None
        d = gn - cs
        A, Bq, C = d @ d, 2 * cs @ d, cs @ cs - r * r
        tau = (-Bq + np.sqrt(Bq * Bq - 4 * A * C)) / (2 * A)
        return cs + min(tau, 1.0) * d, None

    def near(self, x, thr):
        return abs(x - thr) <= 1e-3 * max(1.0, abs(thr)) or not np.isfinite(x)

    def step(self, state):
        """returns (new state, errs) for the next recorded iteration, or None when a decision is too close to call"""
        c, p, B = self.c, self.p, self.B
        vals = with_state(p, self.vals, state)
        err = half_sq(p, vals)
        sys_ = [p.linear_system(vals, b, self.order) for b in range(B)]
        if any(np.linalg.cond(J.T @ J) > 1e8 for J, _ in sys_):
            raise Skip("ill conditioned")
        while True:
            new = {n: state[n].copy() for n in self.order}
            dl = []
            for b in range(B):
                d, D = self.delta(*sys_[b], b)
                d = d * c["step"]
                dl.append((d, D))
                if not self.conv[b]:
                    k = 0
                    for n, q in zip(self.order, self.dofs):
                        new[n][b] = retract(p, n, state[n][b], d[k:k + q])
                        k += q
            nvals = with_state(p, self.vals, new)
            if p.near_pi(nvals):
                raise Skip("near pi")
            nerr = half_sq(p, nvals)
            rej = np.zeros(B, bool)
            if c["opt"] in ("lma", "dog"):
                for b in range(B):
                    if self.conv[b]:
                        continue
                    d, D = dl[b]
                    J, e = sys_[b]
                    if c["opt"] == "lma":
                        den = d @ (D * d - J.T @ e) / 2
                    else:
                        den = -(d @ (J.T @ e) + 0.5 * (J @ d) @ (J @ d))
                    num = err[b] - nerr[b]
                    if abs(num) < 1e-9 * (1 + err[b]) or abs(den) < 1e-9 * (1 + err[b]):
                        self.ambiguous = True
                        return None
                    rho = num / den
                    thr = [c["acc"]] if c["opt"] == "lma" else [c["acct"], c["sh"], c["ex"]]
                    if any(self.near(rho, q) for q in thr):
                        self.ambiguous = True
                        return None
                    if c["opt"] == "lma":
                        rej[b] = rho <= c["acc"]
                        self.lam[b] = np.clip(self.lam[b] * c["up"] if rej[b] else self.lam[b] / c["down"], 1e-7, 1e7)
                    else:
                        rej[b] = rho < c["acct"]
                        if rho < c["sh"]:
                            self.tr[b] *= c["shr"]
                        if rho > c["ex"]:
                            self.tr[b] *= c["exr"]
                        self.tr[b] = np.clip(self.tr[b], c["mintr"], c["maxtr"])
                for b in range(B):
                    if rej[b]:
                        for n in self.order:
                            new[n][b] = state[n][b]
                        nerr[b] = err[b]
                self.att = np.where(rej, self.att + 1, 0)
                retry = rej & (self.att < 3)
                if (rej | self.conv).all() and retry.any():
                    continue
                self.att = np.where(retry, self.att, 0)
            else:
                retry = rej
            break
        ab, rl = tolerances(c)
        dabs = np.abs(err - nerr)
        with np.errstate(all="ignore"):
            drel = dabs / err
        near = lambda x, thr: thr > 0 and 0.99 < x / thr < 1.01 if np.isfinite(x) else True  # noqa: E731
        if nerr.mean() < ab * 1.01:
            if nerr.mean() > ab * 0.99:
                self.ambiguous = True
                return None
            conv = np.ones(B, bool)
        else:
            for b in range(B):
                if not self.conv[b] and not rej[b] and (near(dabs[b], ab) or near(drel[b], rl) or dabs[b] < 1e-12 * (1 + err[b])):
                    self.ambiguous = True
                    return None
            with np.errstate(all="ignore"):
                conv = (dabs < ab) | (drel < rl)
        self.conv = conv & ~retry
        return new, nerr
