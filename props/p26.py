import copy
import math

import numpy as np
import torch
from hypothesis import strategies as st
from theseus.optimizer import ManifoldGaussian, local_gaussian, retract_gaussian

from vlib import gens, ref
from vlib.core import Skip, Sub
from vlib.th import DT, cls, close, expect_raise, mats, need, np_

PROPERTY = "P26"
RULE = (
    "A case draws a manifold, batch sizes of the point, the mean and the precision (singleton or full), a precision matrix "
    "of any scale and conditioning, a relative displacement (tiny, generic, close to a half turn), and sends the Gaussian to "
    "the tangent space and back; or a joint Gaussian over several manifolds with a history of valid and invalid updates, "
    "copies and conversions checked against a numpy model. Non-trivial: a Lie group with more than one degree of freedom, "
    "or more than one variable."
)
ASSUMPTIONS = ["precisions are symmetric positive definite matrices", "displacements stay below a half turn, where the logarithm is unique"]
ALL = ["R1", "R2", "R4", "Point2", "Point3", "SO2", "SE2", "SO3", "SE3"]


def spd(r, n, lo=-1.0, hi=1.0):
    q, _ = np.linalg.qr(r.normal(size=(n, n)))
    m = (q * 10.0 ** r.uniform(lo, hi, size=n)) @ q.T
    return (m + m.T) / 2


def sym(t):
    return (t + t.transpose(-1, -2)) / 2


@st.composite
def trip_case(draw):
    return dict(g=draw(st.sampled_from(ALL)), dt=draw(gens.dtypes), B=draw(st.integers(1, 4)), bv=draw(st.booleans()), bm=draw(st.booleans()),
                seed=draw(gens.seeds), disp=draw(st.sampled_from(["zero", "tiny", "generic", "generic", "large"])),
                scale=draw(st.sampled_from([1e-4, 1.0, 1.0, 1e4, 1e6])), spread=draw(st.sampled_from([0.0, 0.5, 1.5])))


def displacement(c, r):
    g = c["g"]
    d = ref.dof(g)
    x = r.normal(size=d)
    if c["disp"] == "zero":
        return x * 0
    if c["disp"] == "tiny":
        return x * 10.0 ** -r.integers(2, 9)
    k = {"SO2": 0, "SE2": 2, "SO3": 0, "SE3": 3}.get(g)
    if k is not None:
        a = np.linalg.norm(x[k:])
        want = (2.9 if c["disp"] == "large" else r.uniform(0.05, 2.0))
        x[k:] *= want / a
    return x


def right_jac(g, x):
    """d exp at x, with respect to right perturbations of the result"""
    d = ref.dof(g)
    J = np.zeros((d, d))
    e = 1e-5
    X = ref.exp(g, x)
    for i in range(d):
        p = np.zeros(d)
        p[i] = e
        J[:, i] = (ref.log(g, ref.compose(g, ref.inv(g, X), ref.exp(g, x + p))) - ref.log(g, ref.compose(g, ref.inv(g, X), ref.exp(g, x - p)))) / (2 * e)
    return J


def trip_check(c, t):
    g, dt, B = c["g"], DT[c["dt"]], c["B"]
    f32 = c["dt"] == "float32"
    d = ref.dof(g)
    r = gens.rng(c["seed"])
    nv, nm = (B if c["bv"] else 1), (B if c["bm"] else 1)
    n = max(nv, nm)
    X = [ref.exp(g, r.normal(size=d)) for _ in range(nv)]
    if nv == 1 or nm == nv:
        M = [ref.compose(g, X[min(i, nv - 1)], ref.exp(g, displacement(c, r))) for i in range(nm)]
    else:  # one mean, several points
        M = [ref.exp(g, r.normal(size=d))]
        X = [ref.compose(g, M[0], ref.inv(g, ref.exp(g, displacement(c, r)))) for _ in range(nv)]
    L = np.stack([spd(r, d, -c["spread"], c["spread"]) * c["scale"] for _ in range(nm)])
    C = cls(g)
    v = C(tensor=torch.tensor(np.stack([ref.to_data(g, x) for x in X]), dtype=dt))
    m = C(tensor=torch.tensor(np.stack([ref.to_data(g, x) for x in M]), dtype=dt))
    prec = torch.tensor(L, dtype=dt)
    gauss = ManifoldGaussian([m], precision=prec)
    L = np_(prec)
    Xr, Mr = mats(g, v), mats(g, m)
    t.nontrivial(g in ref.LIE and d > 1)
    t.label(g, c["disp"], f"batches {min(nv, 2)}-{min(nm, 2)}")
    x = np.stack([ref.log(g, ref.compose(g, ref.inv(g, Xr[min(i, nv - 1)]), Mr[min(i, nm - 1)])) for i in range(n)])
    k = {"SO2": 0, "SE2": 2, "SO3": 0, "SE3": 3}.get(g)
    ang = 0.0 if k is None else max(np.linalg.norm(y[k:]) for y in x)
    small = 9.0 if k is None else min(np.linalg.norm(y[k:]) for y in x)
    if ang > math.pi - 0.1:
        raise Skip("half turn")
    keep = [v.tensor.clone(), m.tensor.clone(), prec.clone()]
    mean_tp, lam = local_gaussian(v, gauss)
    eta, lam2 = local_gaussian(v, gauss, return_mean=False)
    J = np.stack([right_jac(g, y) for y in x])
    want = np.einsum("nji,njk,nkl->nil", J, np.broadcast_to(L, (n, d, d)), J)
    sx = 1 + np.abs(x).max()
    ap = 3e-2 if f32 and small < 1.1e-2 else 1e-4 if small < 1.1e-2 else 0.0  # documented small-angle series
    rt = (2e-3 if f32 else 2e-8) + ap * 0.1
    close(mean_tp, x, ((2e-3 if small < 0.2 else 1e-4) if f32 else 1e-9 + 1e-5 * ap) * sx, "mean in the tangent space")
    close(lam, want, rt * np.abs(want).max() * sx**2, "precision in the tangent space")
    need(torch.equal(lam, lam2), "precision returned with the information vector")
    close(eta, np.einsum("nij,nj->ni", np_(lam), np_(mean_tp)), (1e-5 if f32 else 1e-13) * d * np.abs(want).max() * sx, "information vector")
    need(torch.allclose(lam, lam.transpose(1, 2), rtol=1e-5, atol=(1e-6 if f32 else 1e-13) * float(np.abs(want).max())), "symmetric precision")
    back = retract_gaussian(v, mean_tp, lam)
    need(len(back.mean) == 1 and type(back.mean[0]) is C and back.dof == d and back.dtype == dt, "Gaussian given back")
    tol_m = ((2e-3 if f32 else 1e-9) + 0.1 * ap) * (1 + np.abs(keep[1].double().numpy()).max()) * sx
    close(back.mean[0].tensor, np.broadcast_to(keep[1].double().numpy(), (n,) + keep[1].shape[1:]), tol_m, "mean after a round trip")
    close(back.precision, np.broadcast_to(L, (n, d, d)), (rt + 1e-3 * f32) * np.abs(L).max() * sx**4 * 10, "precision after a round trip")
    need(torch.allclose(back.precision, back.precision.transpose(1, 2), rtol=1e-5, atol=(1e-6 if f32 else 1e-13) * float(np.abs(L).max()) * sx**2),
         "symmetric precision after a round trip")
    for a, b in zip((v.tensor, m.tensor, prec), keep):
        need(torch.equal(a, b), "an input was modified")
    # the other way round: any tangent Gaussian is recovered from its retraction
    y = np.stack([displacement(c, r) for _ in range(nm)])
    S = torch.tensor(np.stack([spd(r, d, -c["spread"], c["spread"]) * c["scale"] for _ in range(nm)]), dtype=dt)
    ty = torch.tensor(y, dtype=dt)
    G2 = retract_gaussian(v, ty, S)
    m2, S2 = local_gaussian(v, G2)
    if n > 1 and nm > 1 and nv == 1 or nm == nv or nm == 1:
        close(m2, np.broadcast_to(np_(ty), (n, d)), ((5e-3 if f32 else 1e-8) + 0.1 * ap + (1e-2 if f32 and c["disp"] != "generic" else 0)) * (1 + np.abs(y).max()),
              "tangent mean after a round trip")
        sy = 1 + np.abs(y).max()
        ap2 = (3e-2 if f32 else 1e-4) if c["disp"] in ("tiny", "zero") else 0
        close(S2, np.broadcast_to(np_(S), (n, d, d)), (rt + 1e-2 * f32 + ap2) * np.abs(np_(S)).max() * sy**4 * 10, "tangent precision after a round trip")


# ------------------------------------------------------------ joint Gaussians
@st.composite
def joint_case(draw):
    return dict(gs=draw(st.lists(st.sampled_from(ALL), min_size=1, max_size=4)), dt=draw(gens.dtypes), B=draw(st.integers(1, 3)), seed=draw(gens.seeds),
                prec=draw(st.booleans()), scale=draw(st.sampled_from([1.0, 1e3])),
                ops=draw(st.lists(st.fixed_dictionaries(dict(op=st.sampled_from(
                    ["update", "inplace", "shape", "batch", "dtype", "asym", "length", "copy", "deepcopy", "to", "wrongvar", "meanshape"]), seed=gens.seeds)), max_size=6)))


def joint_check(c, t):
    gs, dt, B = c["gs"], DT[c["dt"]], c["B"]
    r = gens.rng(c["seed"])
    dof = sum(ref.dof(g) for g in gs)
    t.nontrivial(len(gs) > 1)

    def var(g, q, dt, n=B):
        return cls(g)(tensor=torch.tensor(np.stack([ref.to_data(g, ref.exp(g, q.normal(size=ref.dof(g)))) for _ in range(n)]), dtype=dt))

    def precision(q, dt, n=B, k=dof):
        return sym(torch.tensor(np.stack([spd(q, k) * c["scale"] for _ in range(n)]), dtype=dt))

    mean = [var(g, r, dt) for g in gs]
    prec = precision(r, dt) if c["prec"] else None
    G = ManifoldGaussian(mean, precision=prec, name="gg")
    state = dict(mean=[v.tensor.clone() for v in mean], prec=prec.clone() if c["prec"] else torch.eye(dof, dtype=dt).repeat(B, 1, 1))
    others = []

    def same(G, state, what):
        need(G.dof == dof and G.dtype == state["prec"].dtype, f"attributes {what}")
        for v, w in zip(G.mean, state["mean"]):
            need(v.dtype == w.dtype and torch.equal(v.tensor, w), f"mean {what}")
        need(G.precision.dtype == state["prec"].dtype and torch.equal(G.precision, state["prec"]), f"precision {what}")

    same(G, state, "after construction")
    for o in c["ops"]:
        q = gens.rng(o["seed"])
        op = o["op"]
        t.label(op)
        cur = G.dtype
        new_mean, new_prec = [var(g, q, cur) for g in gs], precision(q, cur)
        bad = None
        if op == "update":
            G.update(new_mean, new_prec)
            state = dict(mean=[v.tensor.clone() for v in new_mean], prec=new_prec.clone())
        elif op == "shape":
            bad = (new_mean, precision(q, cur, k=dof + 1))
        elif op == "batch":
            bad = (new_mean, precision(q, cur, n=B + 1))
        elif op == "dtype":
            bad = (new_mean, new_prec.to(torch.float32 if cur == torch.float64 else torch.float64))
        elif op == "asym":
            if dof == 1:
                continue
            i, j = q.permutation(dof)[:2]
            new_prec[int(q.integers(B)), int(i), int(j)] += 0.1 * c["scale"]
            bad = (new_mean, new_prec)
        elif op == "length":
            bad = (new_mean + [var("R1", q, cur)], new_prec) if o["seed"] % 2 else (new_mean[:-1], new_prec)
        elif op == "meanshape":
            k = int(q.integers(len(gs)))
            new_mean[k] = cls("R7")(tensor=torch.ones(B, 7, dtype=cur))
            bad = (new_mean, new_prec)
        elif op == "wrongvar":
            other = torch.float32 if cur == torch.float64 else torch.float64
            k = int(q.integers(len(gs)))
            new_mean[k] = var(gs[k], q, other)
            bad = (new_mean, new_prec)
        elif op in ("copy", "deepcopy"):
            cp = G.copy() if op == "copy" else copy.deepcopy(G)
            need(cp.name != G.name and all(a is not b for a, b in zip(cp.mean, G.mean)), "copy shares variables or its name")
            same(cp, state, "of a copy")
            others.append((cp, {k: [x.clone() for x in v] if k == "mean" else v.clone() for k, v in state.items()}))
            if o["seed"] % 2:
                G.update(new_mean, new_prec)
                state = dict(mean=[v.tensor.clone() for v in new_mean], prec=new_prec.clone())
        elif op == "inplace":
            # neither the copies nor what the copies were made of may change
            who = [(G, state)] + others
            X, S = who[int(q.integers(len(who)))]
            with torch.no_grad():
                X.precision.mul_(2.0)
                S["prec"].mul_(2.0)
                k = int(q.integers(len(gs)))
                if ref.is_vec(gs[k]):
                    X.mean[k].tensor.add_(1.0)
                    S["mean"][k].add_(1.0)
        elif op == "to":
            other = torch.float32 if cur == torch.float64 else torch.float64
            G.to(dtype=other)
            state = dict(mean=[x.to(other) for x in state["mean"]], prec=state["prec"].to(other))
            if other == torch.float64:
                # Lie groups may be normalised again in the finer precision
                for v, w in zip(G.mean, state["mean"]):
                    close(v.tensor, w, 3e-6, "mean after a conversion")
                state["mean"] = [v.tensor.clone() for v in G.mean]
        if bad is not None:
            expect_raise(lambda: G.update(*bad), f"update with invalid {op}", ValueError)
            same(G, state, f"after a rejected update ({op})")
        same(G, state, f"after {op}")
    for cp, s in others:
        same(cp, s, "of a copy, at the end")
    # conversions need one variable of the same class
    q = gens.rng(c["seed"] + 3)
    v = var(gs[0], q, G.dtype)
    if len(gs) > 1:
        expect_raise(lambda: local_gaussian(v, G), "Gaussian over several variables", ValueError)
    else:
        w = var("SO3" if gs[0] != "SO3" else "SE3", q, G.dtype)
        expect_raise(lambda: local_gaussian(w, G), "Gaussian of another manifold", ValueError)


SUBS = [
    Sub("round_trip", trip_case, trip_check, 1500, shards=(4, 4)),
    Sub("joint", joint_case, joint_check, 900, shards=(4, 4)),
]
