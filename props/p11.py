import copy

import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st

from vlib import costs, gens
from vlib.core import Skip, Sub
from vlib.th import close, need, np_

PROPERTY = "P11"
RULE = (
    "A case draws a cost function class, manifold type, values, batch mix (each variable singleton or full) and "
    "weight, then a history of updates, replaced auxiliary variables and copies. Errors are compared with "
    "independent numpy formulas. Non-trivial: the batch mix is not uniform or the history has a copy or update."
)
ASSUMPTIONS = ["Distance-field costs are compared with an independent bilinear interpolation (0 outside the grid)."]


@st.composite
def case(draw):
    c = draw(costs.spec())
    ops = draw(st.lists(st.tuples(st.sampled_from(["update", "update", "item", "copy", "swap", "rebatch"]), gens.seeds), max_size=4))
    return dict(c=c, ops=[list(o) for o in ops])


def tol(K, want):
    m = max(1.0, float(np.abs(want).max()))
    return (3e-4 if K.dt == torch.float32 else 1e-8) * m


def compare(K, cf, vals, what):
    # away from pi the logarithm is well conditioned; exactly at kinks one-sided values agree
    if K.smooth(vals) < 1e-2 and K.c["kind"] not in ("hinge", "coll", "contact"):
        raise Skip("logarithm near pi or point near the camera plane")
    if K.c["kind"] in ("coll", "contact"):
        # the field jumps to the boundary value at the border of the grid
        for b in range(K.batch(vals)):
            e = K.el(vals, b)
            p = K.K._pt(e)
            q = (p - e["origin"]) / e["cell"][0]
            R, C = e["sdf"].shape
            if min(abs(q[0]), abs(q[0] - C + 1), abs(q[1]), abs(q[1] - R + 1)) < 1e-4:
                raise Skip("border of the distance field")
    want = K.errors(vals)
    with torch.no_grad():
        got = cf.error()
        _, jerr = cf.jacobians()
        werr = cf.weighted_error()
    need(got.dtype == K.dt, f"{what}: dtype {got.dtype}")
    n = got.shape[0]
    need(n in (1, want.shape[0]), f"{what}: batch {n}, expected {want.shape[0]}")
    close(np.broadcast_to(np_(got), want.shape), want, tol(K, want), what + ": error")
    need(torch.equal(jerr, got), f"{what}: error returned with the Jacobians differs from error()")
    B = K.batch(vals, True)
    W = [K.wmat(vals, b) for b in range(B)]
    ww = np.stack([W[b] @ want[b if want.shape[0] > 1 else 0] for b in range(B)])
    close(np.broadcast_to(np_(werr), ww.shape), ww, 5 * tol(K, ww), what + ": weighted error")


def check(case, t):
    K = costs.Cost(case["c"])
    cf = K.build()
    vals = {n: v.copy() for n, v in K.vals.items()}
    t.label(case["c"]["kind"])
    need(cf.dim() == K.dim(), f"dim() is {cf.dim()}")
    if K.raw:
        t.label("arguments given as tensors")
    t.nontrivial(case["ops"] or len(set(case["c"]["b"])) > 1)
    compare(K, cf, vals, "initially")
    for i, (op, seed) in enumerate(case["ops"]):
        r = gens.rng(seed)
        what = f"op {i} ({op})"
        t.label(op)
        if op in ("update", "rebatch"):
            n = int(r.integers(1, 4))
            for m in list(vals):
                if m == "w":
                    continue
                if op == "rebatch":
                    k = n if (vals[m].shape[0] > 1 or r.integers(0, 2)) else 1
                elif r.integers(0, 2):
                    k = vals[m].shape[0]
                else:
                    continue
                vals[m] = K.draw(m, k, r)
                K.set(m, vals[m])
            if op == "rebatch" and "w" in vals and vals["w"].shape[0] > 1:
                vals["w"] = np.concatenate([vals["w"]] * n)[:n]
                K.set("w", vals["w"])
        elif op == "item":  # written in place, no update
            m = sorted(k for k in vals if k != "w")[int(r.integers(0, len([k for k in vals if k != "w"])))]
            j = int(r.integers(0, vals[m].shape[0]))
            vals[m] = vals[m].copy()
            vals[m][j] = K.draw(m, 1, r)[0]
            K.V[m][j] = torch.tensor(vals[m][j], dtype=K.dt).view(K.V[m].shape[1:])
        elif op == "swap":  # replace an auxiliary variable object
            aux = list(cf.aux_vars)
            if not aux or case["c"]["kind"] == "gp":
                continue
            j = int(r.integers(0, len(aux)))
            role = [m for m in K.V if K.V[m] is aux[j]]
            if not role:
                continue
            m = role[0]
            vals[m] = K.draw(m, vals[m].shape[0], r)
            new = K.var(m, vals)
            cf.set_aux_var_at(j, new)
            K.V[m] = new
        elif op == "copy":
            if r.integers(0, 3) == 0:
                cp, cp1, wt = copy.deepcopy([cf, cf, cf.weight])
                need(cp is cp1 and type(wt) is type(cf.weight) and wt is not cf.weight, f"{what}: deep copy of a list")
            else:
                cp = cf.copy(keep_variable_names=bool(r.integers(0, 2)))
            need(type(cp) is type(cf), f"{what}: copy is a {type(cp).__name__}, original a {type(cf).__name__}")
            need(cp.dim() == cf.dim(), "dimension of the copy")
            need([type(v) for v in cp.optim_vars] == [type(v) for v in cf.optim_vars], "variable types of the copy")
            mine = {id(v) for v in list(cf.optim_vars) + list(cf.aux_vars) + list(cf.weight.aux_vars)}
            for v in list(cp.optim_vars) + list(cp.aux_vars) + list(cp.weight.aux_vars):
                need(id(v) not in mine, f"{what}: variable {v.name} is shared with the copy")
            compare(K, cp, vals, what + ", the copy")
            # writing into the copy does not reach the original, and the reverse
            with torch.no_grad():
                before = cf.weighted_error().clone()
                for v in list(cp.optim_vars) + list(cp.aux_vars):
                    v.tensor.mul_(0.0)
                need(torch.equal(before, cf.weighted_error()), f"{what}: changing the copy changed the original")
            if r.integers(0, 2):
                cp2 = cf.copy()
                old = cf
                with torch.no_grad():
                    compare(K, cp2, vals, what + ", second copy")
                cf = cp2
                roles = {}
                for a, b in zip(list(old.optim_vars) + list(old.aux_vars) + list(old.weight.aux_vars),
                                list(cp2.optim_vars) + list(cp2.aux_vars) + list(cp2.weight.aux_vars)):
                    for m in K.V:
                        if K.V[m] is a:
                            roles.setdefault(m, []).append(b)
                if any(len({id(x) for x in v}) > 1 for v in roles.values()):
                    t.label("copy splits a shared variable")
                    break
                for m, v in roles.items():
                    K.V[m] = v[0]
        compare(K, cf, vals, what)


SUBS = [Sub("errors", case, check, 1600, shards=(8, 8))]
