import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st
from theseus.optimizer import DenseLinearization, SparseLinearization, VariableOrdering

from vlib import gens, problems as P, ref
from vlib.core import Skip, Sub
from vlib.th import close, expect_raise, need, np_

PROPERTY = "P16"
RULE = (
    "A case draws a problem (several manifolds, cost kinds incl. ones with a variable in two slots, weights incl. zeros, robust wrappers, "
    "singleton and full batches), a variable ordering and a history of data updates; the dense and sparse linearisations are compared "
    "with stacked central-difference Jacobians of an independent numpy evaluation. Non-trivial: two or more variables."
)
ASSUMPTIONS = ["errors and weights are finite"]


@st.composite
def case(draw):
    rep = draw(st.integers(0, 3)) == 0
    s = draw(P.spec(single_opt=True, max_cfs=5, **(dict(repeat=True, robust=False, kinds=["between", "lin", "local"]) if rep else {})))
    return dict(s=s, order=draw(gens.seeds), vec=not rep and draw(st.booleans()), updates=draw(st.lists(gens.seeds, max_size=2)),
                detach=draw(st.booleans()), grad=draw(st.booleans()), how=draw(st.integers(0, 2)))


def dense_of(lin):
    if isinstance(lin, DenseLinearization):
        return np_(lin.A)
    ss = lin.structure()
    need(ss.num_rows == lin.num_rows and ss.num_cols == lin.num_cols, "sparse structure size")
    out, out_t = [], []
    for b in range(lin.A_val.shape[0]):
        v = lin.A_val[b].detach()
        out.append(ss.csr_straight(v).toarray())
        out_t.append(ss.csc_transpose(v).toarray().T)
    need(np.array_equal(np.stack(out), np.stack(out_t)), "transposed sparse view differs")
    m = ss.mock_csc_transpose()
    need(m.shape == (lin.num_cols, lin.num_rows), "mock transpose shape")
    if out:
        need(not np.any((m.toarray().T == 0) & (out[0] != 0)), "value outside of the sparse pattern")
    return np.stack(out).astype(float)


def check(c, t):
    p = P.Problem(c["s"])
    obj = p.build()
    if c["vec"]:
        th.Vectorize(obj)
    r = gens.rng(c["order"])
    names = list(p.opt)
    names = [v for v in obj.optim_vars]
    need(sorted(names) == sorted(p.opt), "optimisation variables of the objective")
    if c["how"]:
        r.shuffle(names)
        orders = []
        for _ in range(2):
            o = VariableOrdering(obj, default_order=False)
            if c["how"] == 1:
                o.extend([p.V[n] for n in names])
            else:
                for n in names:
                    o.append(p.V[n])
                if len(names) > 1:  # move the first to the end
                    o.remove(p.V[names[0]])
                    expect_raise(lambda: (SparseLinearization(obj, o)), "incomplete ordering", ValueError)
                    o.append(p.V[names[0]])
            orders.append(o)
        if c["how"] == 2 and len(names) > 1:
            names = names[1:] + names[:1]
        expect_raise(lambda: orders[0].append(p.V[names[0]]), "variable added twice to the order", ValueError)
    else:
        orders = [None, None]
    obj.update()
    lins = [DenseLinearization(obj, orders[0]), SparseLinearization(obj, orders[1])]
    t.nontrivial(len(names) > 1)
    t.label(f"{len(names)} variables")
    vals = {n: a.copy() for n, a in p.values.items()}
    f32 = c["s"]["dtype"] == "float32"
    for step in range(len(c["updates"]) + 1):
        if step:
            q = gens.rng(c["updates"][step - 1])
            d = {n: p.draw(n, a.shape[0], rng=q) for n, a in vals.items() if q.integers(0, 2)}
            vals.update(d)
            obj.update({n: p.tensor(a) for n, a in d.items()})
        if p.near_pi(vals):
            raise Skip("near pi")
        B = p.batch(vals)
        for lin in lins:
            nm = type(lin).__name__
            with torch.set_grad_enabled(c["grad"]):
                lin.linearize(_detach_hessian=c["detach"])
            need([v.name for v in lin.ordering] == names, f"{nm}: ordering")
            A = dense_of(lin)
            b = np_(lin.b)
            need(A.shape[0] == B and b.shape[0] == B, f"{nm}: batch")
            dofs = [ref.dof(p.groups[n]) for n in names]
            need(list(lin.var_dims) == dofs and list(lin.var_start_cols) == list(np.cumsum([0] + dofs)[:-1]),
                 f"{nm}: column layout")
            v = torch.tensor(gens.rng(c["order"] + step).normal(size=(B, lin.num_cols)), dtype=p.dt)
            Av, Dv, Atb = lin.Av(v), lin.diagonal_scaling(v), lin.Atb
            need(Av.dtype == Dv.dtype == Atb.dtype == lin.b.dtype == p.dt, f"{nm}: dtype")
            for q in range(B):
                J, e = p.linear_system(vals, q, names)
                sc = max(1, np.abs(J).max(), np.abs(e).max())
                tol = (3e-4 if f32 else 5e-7) * sc  # (closed forms switch to series at small angles)
                close(A[q], J, tol, f"{nm} Jacobian, element {q}")
                close(b[q], -e, tol, f"{nm} right-hand side, element {q}")
                Aq, bq = A[q], b[q]
                tol = (1e-5 if f32 else 1e-12) * sc * sc * max(J.shape)
                close(np_(Av)[q], Aq @ np_(v)[q], tol * 3, f"{nm}.Av, element {q}")
                close(np_(Atb)[q], (Aq.T @ bq)[:, None], tol, f"{nm}.Atb, element {q}")
                close(np_(Dv)[q], np_(v)[q] * (Aq**2).sum(0), tol * 3, f"{nm}.diagonal_scaling, element {q}")
                if lin is lins[0]:
                    close(np_(lin.AtA)[q], Aq.T @ Aq, tol, f"{nm}.AtA, element {q}")
                    close(np_(lin.hessian_approx())[q], Aq.T @ Aq, tol, f"{nm}.hessian_approx, element {q}")


SUBS = [Sub("system", case, check, 700, shards=(8, 8))]
