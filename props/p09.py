import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st
from theseus.optimizer import DenseLinearization, SparseLinearization

from vlib import gens, problems as P, ref
from vlib.core import Skip, Sub
from vlib.th import close, need

PROPERTY = "P09"
RULE = (
    "A case draws a problem with several cost functions of few schemas (shared / distinct weights and auxiliary "
    "variables, singleton and full batches, zero weights, robust wrappers) built twice, plain and vectorised, and "
    "a history of updates, evaluations, retractions, linearisations and dtype conversions applied to both; every "
    "observation is compared. Non-trivial: some schema has at least two cost functions."
)
ASSUMPTIONS = []

OPS = ["update", "update", "error", "error_in", "error_up", "jac", "jac", "retract", "retract", "lin", "rebatch",
       "toggle", "revec", "buffer", "grad", "nograd", "to", "item", "each", "reach"]


@st.composite
def case(draw):
    s = draw(P.spec(single_opt=True, max_cfs=7, max_vars=4,
                    groups=draw(st.sampled_from([["R1", "R2"], ["R2"], ["SE2"], ["SO3", "R3"], ["SE3"], ["SO2", "R1"]])),
                    kinds=draw(st.sampled_from([P.KINDS, ["local"], ["local", "between"], ["auto"], ["lin"], ["auto2", "auto"]]))))
    ops = [dict(k=draw(st.sampled_from(OPS)), seed=draw(gens.seeds), frac=draw(st.integers(1, 4)), n=draw(st.integers(1, 4)))
           for _ in range(draw(st.integers(1, 7)))]
    return dict(s=s, ops=ops, fresh=draw(st.sampled_from([None, None, "error", "jac"])))


def same(a, b, dt, what, scale=1.0):
    need(a.dtype == b.dtype, f"{what}: dtype {b.dtype} when vectorised, {a.dtype} otherwise")
    a, b = a.detach(), b.detach()
    n = max(a.shape[0], b.shape[0])
    if a.shape[0] != n:
        a = a.expand((n,) + a.shape[1:])
    if b.shape[0] != n:
        b = b.expand((n,) + b.shape[1:])
    m = float(a.abs().max()) if a.numel() else 1.0
    close(b, a, (2e-5 if dt == torch.float32 else 1e-10) * max(1.0, m) * scale, f"{what}: vectorised vs plain")


def jacs(obj):
    out = []
    for cf in obj._get_jacobians_iter():
        js, e = cf.weighted_jacobians_error()
        out.append((list(js), e, [v.name for v in cf.optim_vars]))
    return out


def cmp_jacs(a, b, dt, what):
    for (j1, e1, n1), (j2, e2, n2) in zip(jacs(a), jacs(b)):
        need(n1 == n2, f"{what}: order of cost functions")
        need(len(j1) == len(j2), f"{what}: number of Jacobians")
        same(e1, e2, dt, what + " error")
        for x, y in zip(j1, j2):
            same(x, y, dt, what + " Jacobian", 10)


def cmp_vars(p, q, dt, what):
    for n in p.V:
        a, b = p.V[n].tensor, q.V[n].tensor
        same(a, b, dt, f"{what}: variable {n}", 10)


def check(c, t):
    p, q = P.Problem(c["s"]), P.Problem(c["s"])
    a, b = p.build(), q.build()
    th.Vectorize(b)
    dt = p.dt
    kinds = {}
    for cf in c["s"]["cfs"]:
        key = (cf["kind"], cf.get("f"), str(cf["rob"] and (cf["rob"]["loss"], cf["rob"]["flatten"])), cf["w"] is None)
        kinds[key] = kinds.get(key, 0) + 1
    t.nontrivial(max(kinds.values()) > 1)
    t.label(f"group size {min(3, max(kinds.values()))}")
    if c.get("fresh") == "error":  # before the first update() of the objective
        same(a.error(), b.error(), dt, "first error")
        same(a.error_metric(), b.error_metric(), dt, "first error metric", 10)
    elif c.get("fresh") == "jac":
        cmp_jacs(a, b, dt, "first Jacobians")
    a.update()
    b.update()
    vals = {n: v.copy() for n, v in p.values.items()}
    grad = True
    for i, op in enumerate(c["ops"]):
        r = gens.rng(op["seed"])
        k = op["k"]
        what = f"op {i} ({k})"
        t.label(k)
        bs = {n: p.V[n].shape[0] for n in p.V if n in vals}
        names = [n for n in vals if r.integers(0, 4) < op["frac"]]
        with torch.set_grad_enabled(grad):
            if k == "update" or k == "error_in" or k == "error_up":
                d = {n: p.draw(n, bs[n], rng=r) for n in names}
                g1 = {n: p.tensor(x, dt) for n, x in d.items()}
                g2 = {n: p.tensor(x, dt) for n, x in d.items()}
                if k == "update":
                    a.update(g1)
                    b.update(g2)
                else:
                    same(a.error(g1, also_update=k == "error_up"), b.error(g2, also_update=k == "error_up"), dt, what)
            elif k == "rebatch":
                d = {n: p.draw(n, op["n"], rng=r) for n in vals if bs[n] > 1 or r.integers(0, 2)}
                a.update({n: p.tensor(x, dt) for n, x in d.items()})
                b.update({n: p.tensor(x, dt) for n, x in d.items()})
            elif k == "each":  # updates bypassing the objective
                for n in names:
                    d = p.draw(n, bs[n], rng=r)
                    p.V[n].update(p.tensor(d, dt))
                    q.V[n].update(p.tensor(d, dt))
            elif k == "item":
                n = names[0] if names else "x0"
                d = p.tensor(p.draw(n, 1, rng=r), dt)
                for V in (p.V, q.V):
                    V[n].update(V[n].tensor.detach().clone())
                jacs(b)
                p.V[n][0] = d[0]
                q.V[n][0] = d[0]
            elif k == "buffer":  # the caller refills the tensors it passed before
                d = {n: (p.tensor(p.draw(n, bs[n], rng=r), dt), p.draw(n, bs[n], rng=r)) for n in names}
                g1 = {n: x.clone() for n, (x, _) in d.items()}
                g2 = {n: x.clone() for n, (x, _) in d.items()}
                a.update(g1)
                b.update(g2)
                cmp_jacs(a, b, dt, what + " before refilling")
                for n, (_, y) in d.items():
                    g1[n].copy_(p.tensor(y, dt))
                    g2[n].copy_(p.tensor(y, dt))
                if op["n"] % 2:
                    a.update(g1)
                    b.update(g2)
                else:
                    for n in d:
                        p.V[n].update(g1[n])
                        q.V[n].update(g2[n])
                cmp_jacs(a, b, dt, what)
            elif k == "reach":  # a new batch size, bypassing the objective
                for n in vals:
                    if bs[n] > 1 or r.integers(0, 2):
                        d = p.draw(n, op["n"], rng=r)
                        p.V[n].update(p.tensor(d, dt))
                        q.V[n].update(p.tensor(d, dt))
                if op["frac"] > 2:
                    cmp_jacs(a, b, dt, what)
            elif k == "jac":
                cmp_jacs(a, b, dt, what)
            elif k == "retract":
                ov = [n for n in p.opt]
                r.shuffle(ov)
                B = a.batch_size
                dof = sum(ref.dof(p.groups[n]) for n in ov)
                delta = torch.tensor(r.normal(size=(B, dof)) * 0.3, dtype=dt)
                mask = torch.tensor(r.integers(0, 2, size=B).astype(bool)) if op["frac"] > 1 else None
                force = op["n"] == 1
                a.retract_vars_sequence(delta, [p.V[n] for n in ov], ignore_mask=mask, force_update=force)
                b.retract_vars_sequence(delta, [q.V[n] for n in ov], ignore_mask=mask, force_update=force)
                cmp_vars(p, q, dt, what)
            elif k == "lin":
                L = DenseLinearization if op["n"] % 2 else SparseLinearization
                l1, l2 = L(a), L(b)
                l1.linearize()
                l2.linearize()
                need([v.name for v in l1.ordering] == [v.name for v in l2.ordering], "variable ordering")
                same(l1.b, l2.b, dt, what + " b", 10)
                same(l1.A if op["n"] % 2 else l1.A_val, l2.A if op["n"] % 2 else l2.A_val, dt, what + " A", 10)
            elif k == "toggle":
                if b.vectorized:
                    b.disable_vectorization()
                else:
                    th.Vectorize(b)
            elif k == "revec":
                th.Vectorize(b)
            elif k == "to":
                if op["n"] == 1:
                    dt = torch.float32 if dt == torch.float64 else torch.float64
                    a.to(dtype=dt)
                    b.to(dtype=dt)
            elif k in ("grad", "nograd"):
                grad = k == "grad"
            same(a.error(), b.error(), dt, what + ", error afterwards")
            a.update()
            b.update()
            need(a.batch_size == b.batch_size, f"{what}: batch size")
    cmp_vars(p, q, dt, "finally")


OPTS = [("gn", {}), ("lm", dict(damping=0.01)), ("lm", dict(damping=0.01, adaptive_damping=True)), ("dogleg", {})]


@st.composite
def solve_case(draw):
    s = draw(P.spec(max_cfs=5, max_vars=3, min_b=1, anchored=True, zero=True,
                    dtypes=st.just("float64"), single_opt=draw(st.booleans()),
                    groups=draw(st.sampled_from([["R1", "R2"], ["SE2"], ["SO3"], ["SE3"]]))))
    return dict(s=s, opt=draw(st.integers(0, 3)), solver=draw(st.integers(0, 2)), it=draw(st.integers(1, 4)),
                seed=draw(gens.seeds), single=draw(st.booleans()))


def check_solve(c, t):
    """A layer with vectorize=True gives what it gives with vectorize=False, for repeated calls."""
    out = []
    name, kw = OPTS[c["opt"]]
    t.label(name, c["solver"])
    t.nontrivial(len(c["s"]["cfs"]) > 1)
    for vec in (False, True):
        p = P.Problem(c["s"])
        obj = p.build()
        O = dict(gn=th.GaussNewton, lm=th.LevenbergMarquardt, dogleg=th.Dogleg)[name]
        S = [th.CholeskyDenseSolver, th.LUDenseSolver, th.CholmodSparseSolver][c["solver"] % (2 if kw.get("adaptive_damping") else 3)]
        opt = O(obj, linear_solver_cls=S, max_iterations=c["it"], step_size=1.0)
        layer = th.TheseusLayer(opt, vectorize=vec)
        r = gens.rng(c["seed"])
        res = []
        for call in range(2):
            inp = {}
            for n in p.values:
                if call == 0 or r.integers(0, 2):
                    inp[n] = p.tensor(p.draw(n, p.values[n].shape[0], rng=r) if call else p.values[n])
            with torch.no_grad():
                sol, info = layer.forward(inp, optimizer_kwargs=dict(track_err_history=True, **kw))
            res.append((sol, info))
        out.append(res)
    for call, ((s1, i1), (s2, i2)) in enumerate(zip(*out)):
        need(list(s1) == list(s2), "solution keys")
        if not torch.isfinite(i1.err_history).all():
            raise Skip("diverged")
        for n in s1:
            same(s1[n], s2[n], torch.float64, f"call {call}: solution {n}", 1e4)
        same(i1.err_history.T, i2.err_history.T, torch.float64, f"call {call}: error history", 1e6)


SUBS = [
    Sub("history", case, check, 1200, shards=(8, 8)),
    Sub("solve", solve_case, check_solve, 300, shards=(8, 8)),
]
