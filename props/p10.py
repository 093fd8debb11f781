import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st

from vlib import costs, gens
from vlib.core import Skip, Sub
from vlib.th import close, need, np_

PROPERTY = "P10"
RULE = (
    "A case draws a cost function class, manifold type, values (residuals from tiny to large), batch mix and "
    "weight; weighted and unweighted Jacobians are compared with central differences of the independent error "
    "formula along right perturbations. Non-trivial: a Lie-group variable or more than one variable."
)
ASSUMPTIONS = [
    "Kinks (hinge limits, cell borders, logarithm at pi) are skipped within a margin.",
    "MovingFrameBetween is checked on consistent measurements, where its error is near zero (see KNOWN_FINDINGS.txt).",
]


@st.composite
def case(draw):
    c = draw(costs.spec())
    return dict(c=c, consistent=draw(st.booleans()), grad=draw(st.booleans()))


def make_consistent(K):
    """measurement equal to the current relative pose (all variables expanded)"""
    B = K.batch()
    k = K.c["kind"]
    from vlib import ref

    m = []
    for b in range(B):
        e = K.el(K.vals, b)
        g = K.K.g
        if k == "moving":
            d = K.K.diff(e)
        elif k == "between":
            d = ref.compose(g, ref.inv(g, e["v0"]), e["v1"])
        else:
            d = e["var"]
        m.append(ref.to_data(g, d))
    K.vals["target" if k == "local" else "m"] = K.round(np.stack(m))


def check(case, t, moving_ok=False):
    K = costs.Cost(case["c"])
    kind = case["c"]["kind"]
    lie = any(g in ("SO2", "SE2", "SO3", "SE3") for _, g in K.K.optim)
    if kind in ("local", "between", "moving") and (case["consistent"] or (kind == "moving" and lie and not moving_ok)):
        make_consistent(K)
        t.label("consistent")
    if K.smooth() < 0.06:
        raise Skip("kink")
    t.label(kind, K.K.g)
    t.nontrivial(lie or len(K.optim) > 1)
    cf = K.build()
    with torch.set_grad_enabled(case["grad"]):
        js, err = cf.jacobians()
        wjs, werr = cf.weighted_jacobians_error()
        e2, w2 = cf.error(), cf.weighted_error()
    need(torch.equal(err, e2) and torch.equal(werr, w2), "error returned with the Jacobians differs from error()")
    need(len(js) == len(K.optim) and len(wjs) == len(K.optim), "number of Jacobians")
    B = K.batch()
    f32 = K.dt == torch.float32
    for j, wj, role in zip(js, wjs, K.optim):
        d = costs.ref.dof(K.specs[role])
        need(j.dtype == K.dt, f"{role}: dtype {j.dtype}")
        need(j.shape[1:] == (K.dim(), d) and j.shape[0] in (1, B), f"Jacobian of {role}: shape {tuple(j.shape)}, batch {B}")
        want = np.stack([K.jac(K.vals, b, role) for b in range(B)])
        m = max(1.0, float(np.abs(want).max()))
        tl = (2e-3 if f32 else 3e-6) * m
        close(np.broadcast_to(np_(j), want.shape), want, tl, f"{kind}({K.K.g}): Jacobian wrt {role}")
        if not f32:
            # the derivative of the error that the code itself computes
            v, eps = K.V[role], 1e-6 / max(1.0, K.c["scale"])
            orig, num = v.tensor, []
            for i in range(d):
                step = torch.zeros(orig.shape[0], d, dtype=K.dt)
                step[:, i] = eps
                plus, minus = v.retract(step).tensor, v.retract(-step).tensor
                v.update(plus)
                ep = np_(cf.error())
                v.update(minus)
                num.append((ep - np_(cf.error())) / (2 * eps))
                v.update(orig)
            own = np.stack(num, axis=-1)
            close(np.broadcast_to(np_(j), want.shape), np.broadcast_to(own, want.shape), 1e-4 * m,
                  f"{kind}({K.K.g}): Jacobian wrt {role} against differences of error()")
        BW = K.batch(weight=True)
        W = [K.wmat(K.vals, b) for b in range(BW)]
        ww = np.stack([W[b] @ want[b if B > 1 else 0] for b in range(BW)])
        wm = max(1.0, max(float(np.abs(x).max()) for x in W))
        need(wj.shape[0] in (1, BW), f"weighted Jacobian of {role}: shape {tuple(wj.shape)}, batch {BW}")
        close(np.broadcast_to(np_(wj), ww.shape), ww, 3 * tl * wm, f"{kind}({K.K.g}): weighted Jacobian wrt {role}")


def check_moving(case, t):
    """MovingFrameBetween on generic measurements (Lie groups): only probed, see FINDINGS."""
    check(case, t, moving_ok=True)


@st.composite
def moving_case(draw):
    """vector-space frames, where any measurement must give exact Jacobians"""
    c = draw(costs.spec(kinds=["moving"]))
    g = draw(st.sampled_from(["R1", "R2", "R3", "Point2", "Point3", "SO2"]))
    return dict(c=dict(c, g=g), consistent=False, grad=False)


SUBS = [
    Sub("jacobians", case, check, 1600, shards=(8, 8)),
    Sub("moving", moving_case, check_moving, 100, shards=(1, 2)),
]
FINDINGS = {
    "moving-frame-log": ("moving", dict(
        c=dict(kind="moving", g="SE3", dtype="float64", B=1, b=[1, 1, 1, 1, 1],
               w=dict(kind="none", b=0), seed=7, scale=0.8), consistent=False, grad=False)),
}
