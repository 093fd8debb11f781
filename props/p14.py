import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st
from theseus.core.cost_function import masked_jacobians

from vlib import costs, gens
from vlib.core import Skip, Sub, Violation
from vlib.th import DT, close, need, np_

PROPERTY = "P14"
RULE = (
    "weights: a weight class, constructor form (float, list, tensors of every accepted rank, Variable), batch mix of "
    "weight and cost function, zero patterns and a history of updates and copies. masking: every shipped cost function "
    "with full-batch variables, random zero patterns or masks, NaN data planted in masked elements. reject: data that does not define a weight must raise. "
    "Non-trivial: batch above one, or a zero or masked element."
)
ASSUMPTIONS = ["Masked evaluation is defined for full-batch variables, as in vectorised containers."]


@st.composite
def weight_case(draw):
    kind = draw(st.sampled_from(["scale", "diag", "gp"]))
    form = draw(st.sampled_from({
        "scale": ["float", "0d", "1d", "2d", "var1d", "var2d"],
        "diag": ["list", "1d", "2d", "var1d", "var2d", "0d", "float"],
        "gp": ["2d/float", "2d/0d", "3d/1d", "2d/1d", "3d/float", "var/var", "var/1d", "3d1/var"],
    }[kind]))
    return dict(kind=kind, form=form, d=draw(st.integers(1, 3)), B=draw(st.integers(1, 3)), EB=draw(st.integers(1, 3)),
                dtype=draw(gens.dtypes), seed=draw(gens.seeds), zero=draw(st.integers(0, 3)),
                ops=draw(st.lists(st.sampled_from(["update", "copy", "grow"]), max_size=3)))


def build(c, r):
    """weight object, function giving the (B,k,k) matrices from current data, the variables"""
    kind, form, d, B = c["kind"], c["form"], c["d"], c["B"]
    dt = DT[c["dtype"]]

    def tt(a):
        return torch.tensor(a, dtype=dt)

    if kind == "scale":
        if form in ("float", "0d"):
            a = np.array([[1.7]])
        else:
            a = np.exp(r.normal(size=(B, 1)))
        if c["zero"] == 0:
            a[r.integers(0, len(a))] = 0
        arg = {"float": lambda: float(a[0, 0]), "0d": lambda: tt(a[0, 0]), "1d": lambda: tt(a[:, 0]), "2d": lambda: tt(a),
               "var1d": lambda: th.Variable(tt(a[:, 0]), name="s"), "var2d": lambda: th.Variable(tt(a), name="s")}[form]()
        return th.ScaleCostWeight(arg, name="w"), a
    if kind == "diag":
        if form in ("0d", "float"):  # a single entry
            c["d"] = d = 1
        a = np.exp(r.normal(size=(1 if form in ("list", "1d", "var1d", "0d", "float") else B, d)))
        if c["zero"] == 0:
            a[r.integers(0, len(a))] = 0
        elif c["zero"] == 1:
            a[r.integers(0, len(a)), r.integers(0, d)] = 0
        arg = {"0d": lambda: tt(a[0, 0]), "float": lambda: float(a[0, 0]), "list": lambda: [float(v) for v in a[0]], "1d": lambda: tt(a[0]), "2d": lambda: tt(a),
               "var1d": lambda: th.Variable(tt(a[0]), name="s"), "var2d": lambda: th.Variable(tt(a), name="s")}[form]()
        return th.DiagonalCostWeight(arg, name="w"), a
    q, s = form.split("/")
    L = r.normal(size=(B if q in ("3d", "var") else 1, d, d))
    Q = L @ L.transpose(0, 2, 1) + np.eye(d)
    t = np.exp(0.3 * r.normal(size=(B if s in ("1d", "var") else 1, 1)))
    if c["dtype"] == "float32":
        Q, t = np_(torch.tensor(Q).float()), np_(torch.tensor(t).float())
    qa = {"2d": lambda: tt(Q[0]), "3d": lambda: tt(Q), "3d1": lambda: tt(Q), "var": lambda: th.Variable(tt(Q), name="Q")}[q]()
    sa = {"float": lambda: float(t[0, 0]), "0d": lambda: tt(t[0, 0]), "1d": lambda: tt(t[:, 0]),
          "var": lambda: th.Variable(tt(t), name="dt")}[s]()
    return th.eb.GPCostWeight(qa, sa, name="w"), (Q, t)


def mat(kind, a, n):
    """(n,k,k) matrices for batch size n"""
    if kind == "gp":
        Q, t = a
        return np.stack([costs.gp_weight(Q[b if len(Q) > 1 else 0], t[b if len(t) > 1 else 0][0]) for b in range(n)])
    return np.stack([a[b if len(a) > 1 else 0] for b in range(n)])


def check_weight(c, t):
    with torch.set_grad_enabled(c["seed"] % 2 == 0):
        run_weight(c, t)


def run_weight(c, t):
    r = gens.rng(c["seed"])
    c = dict(c)
    float_form = c["form"] in ("float", "list") or c["form"].endswith("/float")
    if float_form:  # python floats take the default dtype
        c = dict(c, dtype="float32")
    w, a = build(c, r)
    kind, dt = c["kind"], DT[c["dtype"]]
    t.label(kind, c["form"])
    tl = 2e-4 if dt == torch.float32 else 1e-9
    for op in [None] + c["ops"]:
        if op in ("update", "grow"):
            n = int(r.integers(1, 4)) if op == "grow" else None
            vs = list(w.aux_vars)
            if kind == "gp":
                Q, s = a
                Q = np.repeat(Q[:1], n or len(Q), 0) * np.exp(r.normal(size=(n or len(Q), 1, 1)))
                s = np.exp(0.3 * r.normal(size=(n or len(s), 1)))
                Q, s = np_(torch.tensor(Q, dtype=dt)), np_(torch.tensor(s, dtype=dt))
                which = int(r.integers(0, 4)) if n is None else 0  # sometimes only one of the two changes
                Q, s = (a[0] if which == 1 else Q), (a[1] if which == 2 else s)
                if which != 1:
                    w.Qc_inv.update(torch.tensor(Q, dtype=dt))
                if which != 2:
                    w.dt.update(torch.tensor(s, dtype=dt))
                a = (Q, s)
            else:
                a = np.exp(r.normal(size=(n or len(a), a.shape[1])))
                if r.integers(0, 3) == 0:
                    a[r.integers(0, len(a))] = 0
                vs[0].update(torch.tensor(a, dtype=dt))
        elif op == "copy":
            w2 = w.copy(keep_variable_names=bool(r.integers(0, 2)))
            need(type(w2) is type(w), "type of the copy")
            with torch.no_grad():
                for v in w.aux_vars:
                    v.tensor = v.tensor.clone() * 0 + 1  # the original changes; the copy must not
            w = w2
        if kind == "gp":
            nb = max(len(a[0]), len(a[1]))
        else:
            nb = len(a)
        eb = c["EB"] if nb == 1 else int(r.choice([1, nb]))
        n = max(nb, eb)
        k = 2 * c["d"] if kind == "gp" else c["d"]
        t.nontrivial(n > 1 or c["zero"] < 2)
        e = r.normal(size=(eb, k))
        js = [r.normal(size=(eb, k, int(r.integers(1, 4)))) for _ in range(int(r.integers(1, 4)))]
        te, tj = torch.tensor(e, dtype=dt), [torch.tensor(j, dtype=dt) for j in js]
        M = mat(kind, a, n)
        M = M if kind == "gp" else np.stack([np.diag(m * np.ones(k)) for m in M])
        eb_ = np.stack([e[b if eb > 1 else 0] for b in range(n)])
        we = np.einsum("bij,bj->bi", M, eb_)
        s = max(1.0, np.abs(M).max())
        got = w.weight_error(te)
        close(np.broadcast_to(np_(got), we.shape), we, tl * s * 10, f"{kind} weighted error")
        gj, ge = w.weight_jacobians_and_error(tj, te)
        need(torch.equal(ge, got), "weighted error differs between the two methods")
        need(ge.dtype == dt and all(j.dtype == dt for j in gj), "dtype")
        need(len(gj) == len(js), "number of Jacobians")
        for x, j in zip(gj, js):
            jb = np.stack([j[b if eb > 1 else 0] for b in range(n)])
            wj = np.einsum("bij,bjk->bik", M, jb)
            close(np.broadcast_to(np_(x), wj.shape), wj, tl * s * 10, f"{kind} weighted Jacobian")
        need(np.array_equal(np_(te), np_(torch.tensor(e, dtype=dt))), "the given error was modified")
        z = w.is_zero()
        need(z.dtype == torch.bool and tuple(z.shape) == (nb,), f"is_zero: {z.dtype} {tuple(z.shape)}, weight batch {nb}")
        want = [False] * nb if kind == "gp" else [bool((x == 0).all()) for x in a]
        need(z.tolist() == want, f"is_zero {z.tolist()}, expected {want}")
        for b in range(nb):
            if want[b]:
                x = got[b if got.shape[0] > 1 else 0]
                need((x == 0).all(), "a zero weight gives a nonzero error")


@st.composite
def mask_case(draw):
    c = draw(costs.spec(kinds=[k for k in costs.KINDS if k != "gp"], weights=("scale", "diag")))
    n = len(c["b"])
    c["b"] = [1] * n
    c["w"]["b"] = 1
    return dict(c=c, zeros=draw(st.integers(0, 7)), mask=draw(st.integers(0, 7)), nan=draw(st.booleans()), grad=draw(st.booleans()))


def check_mask(case, t):
    c = case["c"]
    if c["kind"] == "reproj" and c["g"] == "nok":
        c = dict(c, g="k", b=[1] * 6)
    K = costs.Cost(c)
    B = c["B"]
    zero = [(case["zeros"] >> b) & 1 for b in range(B)]
    K.vals["w"][np.array(zero, bool)] = 0.0
    cf = K.build()
    t.label(c["kind"], f"zeros {sum(zero)}/{B}")
    t.nontrivial(B > 1 and sum(zero) > 0)
    with torch.set_grad_enabled(case["grad"]):
        j0, e0 = cf.weighted_jacobians_error()
        u0, ue0 = cf.jacobians()
        w0 = cf.weighted_error()
        need((w0[np.array(zero, bool)] == 0).all() and (e0[np.array(zero, bool)] == 0).all(), "zero weight, nonzero error")
        for j in j0:
            need((j[np.array(zero, bool)] == 0).all(), "zero weight, nonzero Jacobian")
        tensors = {n: v.tensor for n, v in K.V.items()}
        if case["nan"] and B > 1 and c["kind"] not in ("coll", "contact"):
            for n in K.V:  # data of elements with zero weight must not matter
                if n not in K.optim and n != "w" and n in K.roles:
                    x = K.V[n].tensor.clone()
                    x[np.array(zero, bool)] = float("nan")
                    K.V[n].tensor = x
        cf._supports_masking = True
        before = {n: v.tensor for n, v in K.V.items()}
        j1, e1 = cf.weighted_jacobians_error()
        for n, v in K.V.items():
            need(v.tensor is before[n], f"variable {n} not restored after masked evaluation")
        if B > 1:
            tl = (1e-5 if K.dt == torch.float32 else 1e-12)
            m = 1 + max(float(x.abs().max()) for x in j0 + [e0])
            close(e1, e0, tl * m, "masked weighted error")
            need(len(j1) == len(j0), "number of Jacobians")
            for x, y in zip(j1, j0):
                close(x, y, tl * m, "masked weighted Jacobian")
        cf._supports_masking = False
        for n, v in K.V.items():
            v.tensor = tensors[n]
        mask = torch.tensor([bool((case["mask"] >> b) & 1) for b in range(B)])
        jm, em = masked_jacobians(cf, mask)
        need(em.dtype == K.dt and em.shape == ue0.shape, "masked error shape / dtype")
        tl = (1e-5 if K.dt == torch.float32 else 1e-12)
        m = 1 + max(float(x.abs().max()) for x in u0 + [ue0])
        close(em, torch.where(mask.view(-1, 1), ue0, torch.zeros_like(ue0)), tl * m, "masked error")
        for x, y in zip(jm, u0):
            y = y.expand((B,) + y.shape[1:])
            close(x, torch.where(mask.view(-1, 1, 1), y, torch.zeros_like(y)), tl * m, "masked Jacobian")
        for n, v in K.V.items():
            need(v.tensor is tensors[n], f"variable {n} not restored after masked_jacobians")


@st.composite
def rej_case(draw):
    return dict(kind=draw(st.sampled_from(["gp_pd", "gp_dt", "gp_square", "gp_ndim", "gp_dt_ndim", "scale_2d", "diag_3d"])), d=draw(st.integers(1, 3)),
                B=draw(st.integers(1, 3)), dtype=draw(gens.dtypes), seed=draw(gens.seeds), var=draw(st.booleans()))


def check_rej(c, t):
    """weights that are not weights are refused; the same data made valid is accepted"""
    r, dt, d, B, k = gens.rng(c["seed"]), DT[c["dtype"]], c["d"], c["B"], c["kind"]
    t.label(k)
    t.nontrivial(B > 1 or d > 1)
    wrap = (lambda a: th.Variable(a)) if c["var"] else (lambda a: a)
    L = r.normal(size=(B, d, d))
    Q = torch.tensor(L @ L.transpose(0, 2, 1) + np.eye(d), dtype=dt)
    step = torch.tensor(np.exp(0.3 * r.normal(size=(B, 1))), dtype=dt)
    i = int(r.integers(0, B))
    if k.startswith("gp"):
        th.eb.GPCostWeight(wrap(Q.clone()), wrap(step.clone()))
        if k == "gp_pd":
            Q[i] -= torch.eye(d, dtype=dt) * (torch.linalg.eigvalsh(Q[i])[0] + float(r.choice([0.1, 3.0])))
        elif k == "gp_dt":
            step[i] = float(r.choice([0.0, -0.3]))
        elif k == "gp_square":
            Q = torch.cat([Q, Q[:, :1]], 1)
        elif k == "gp_ndim":
            Q = Q[None] if r.integers(0, 2) else Q[0, 0]
        else:
            step = torch.ones(2, 2, dtype=dt)
        make = lambda: th.eb.GPCostWeight(wrap(Q), wrap(step))  # noqa: E731
    elif k == "scale_2d":
        a = torch.ones(B + 1, d + 1, dtype=dt)
        make = lambda: th.ScaleCostWeight(wrap(a))  # noqa: E731
    else:
        a = torch.ones(B + 1, d + 1, 2, dtype=dt)
        make = lambda: th.DiagonalCostWeight(wrap(a))  # noqa: E731
    try:
        make()
    except ValueError:
        return
    raise Violation(f"{k}: an invalid weight was accepted")


SUBS = [
    Sub("weights", weight_case, check_weight, 1200, shards=(3, 8)),
    Sub("masking", mask_case, check_mask, 900, shards=(5, 8)),
    Sub("reject", rej_case, check_rej, 300),
]
