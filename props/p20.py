import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st

from vlib import gens, opt as O, problems as P, ref
from vlib.core import Skip, Sub, Violation
from vlib.th import close, need, np_

PROPERTY = "P20"
RULE = (
    "A case draws a batch of two to five problems sharing a structure (mixing singleton and per-element data), an optimiser, "
    "solver, options and backward mode (plus problems whose error is NaN outside a domain that long steps leave). The batch is solved together and every element is solved alone on its slice of the "
    "data: the sequences of distinct accepted states must agree, one may only stop earlier because the convergence criterion "
    "holds or an iteration limit counts rejected attempts; gradients of an element's solution must not depend on the others "
    "and equal those of the single solve. Non-trivial: two or more elements and at least one accepted step."
)
ASSUMPTIONS = [
    "the only documented coupling is the convergence test on the mean error and the iteration count of rejected steps, so states are compared as sequences",
    "elements whose error exceeds 1e6 times its initial value (divergence) are skipped",
]


@st.composite
def case(draw):
    hard = draw(st.booleans())
    kw = dict(groups=P.VEC_G, kinds=["auto", "auto", "between"], hard=True) if hard else {}
    s = draw(P.spec(anchored=True, min_b=2, max_b=5, max_vars=3, max_cfs=4, **kw,
                    dtypes=st.sampled_from(["float64", "float64", "float64", "float32"])))
    s["scale"] = draw(st.sampled_from([0.05, 0.3, 0.6, 1.2]))
    if hard:
        s["scale"] = draw(st.sampled_from([0.6, 1.5, 3.0]))
    c = draw(O.config(opts=["lma", "dog"] if hard else None, max_T=12 if hard else 8, tols=["zero", "default", "default", "loose"],
                      modes=["unroll", "unroll", "unroll", "truncated", "implicit"]))
    if c["opt"] in ("lma", "dog"):
        c["mode"] = "unroll"  # rejected steps count as iterations of the batch: the split would fall elsewhere alone
    return dict(s=s, c=c, layer=draw(st.booleans()), dup=draw(st.integers(0, 3)) == 0, mix=draw(st.booleans()))


def distinct(states, tol):
    out = [states[0]]
    for x in states[1:]:
        if max(np.abs(x[n] - out[-1][n]).max() for n in x) > tol:
            out.append(x)
    return out


def element_states(info, b, order, T):
    out = []
    for i in range(T + 1):
        h = {n: np_(info.state_history[n][b, ..., i]) for n in order}
        if any(np.isinf(a).any() for a in h.values()):
            break
        out.append(h)
    return out


def check(q, t):
    s, c = q["s"], q["c"]
    p = P.Problem(s)
    B = p.batch(p.values)
    if B < 2:
        raise Skip("single element")
    vals = {n: v.copy() for n, v in p.values.items()}
    r = gens.rng(s["seed"] + 5)
    if q["mix"]:  # make elements differ in difficulty: shrink some, so that they converge at different times
        for n in p.opt:
            g = p.groups[n]
            for b in range(vals[n].shape[0]):
                f = r.choice([0.01, 1.0, 2.0])
                x = ref.log(g, ref.from_data(g, vals[n][b])) * f
                if ref.is_vec(g) or np.abs(x).max() < 2.5:
                    vals[n][b] = p._round(ref.to_data(g, ref.exp(g, x)))
    if q["dup"]:
        for n in vals:
            if vals[n].shape[0] == B:
                vals[n][B - 1] = vals[n][0]
    if p.near_pi(vals):
        raise Skip("near pi")
    f32 = s["dtype"] == "float32"
    t.label(c["opt"], c["ls"], c["mode"], s["dtype"], "tol " + c["tol"], "layer" if q["layer"] else "optimizer")
    track = dict(track_state_history=True, track_err_history=True)
    info, fin, obj, opt = O.run(c, p, vals=vals, layer=q["layer"], **track)
    if any(x.name == "FAIL" for x in info.status):
        raise Skip("singular problem")
    order = list(fin)
    H = np_(info.err_history)
    tol = 2e-3 if f32 else 2e-6
    same = 1e-4 if f32 else 1e-7
    ab, rl = O.tolerances(c)
    for b in range(B):
        one = {n: (v[b: b + 1] if v.shape[0] > 1 else v) for n, v in vals.items()}
        i1, f1, o1, _ = O.run(c, p, vals=one, layer=q["layer"], **track)
        need(f1[order[0]].shape[0] == 1, "batch size of the single solve")
        S, A = element_states(info, b, order, c["T"]), element_states(i1, 0, order, c["T"])
        big = max(np.abs(a).max() for st_ in S + A for a in st_.values())
        if big > 1e4 or not np.isfinite(big):
            raise Skip("diverged")
        h, h1 = H[b][np.isfinite(H[b])], np_(i1.err_history)[0]
        h1 = h1[np.isfinite(h1)]
        if max(h.max(), h1.max()) > 1e4 * (1 + h[0]):
            raise Skip("diverged")
        if any(p.near_pi(dict(one, **{n: x[n][None] for n in order}), 0.1) for x in S + A):
            raise Skip("near pi")
        if c["opt"] in ("gn", "lm") and c["mode"] == "unroll" and c["tol"] == "zero":
            need(len(S) == len(A), f"element {b}: {len(S) - 1} iterations in the batch, {len(A) - 1} alone")
        dS, dA = distinct(S, same), distinct(A, same)
        t.nontrivial(len(dS) > 1)
        m = min(len(dS), len(dA))
        for i in range(m):
            for n in order:
                close(dS[i][n], dA[i][n], tol * (1 + np.abs(dA[i][n]).max()) * (1 + i), f"{n}: accepted state {i} of element {b} in the batch vs. alone")
        if len(dS) < len(dA) and c["mode"] == "unroll":
            if info.status[b].name == "CONVERGED":
                # why did the batched element stop?  the criterion must hold at its last change
                ci = int(info.converged_iter[b])
                d = abs(H[b, ci] - H[b, ci - 1])
                ok = np.nanmean(np.abs(H[:, ci])) < ab * 1.01 or (
                    d > 0 and (d < ab * 1.01 or d / abs(H[b, ci - 1]) < rl * 1.01))
                ok = ok or H[b, ci] - h1.min() < (1e-5 if f32 else 1e-9) * (1 + H[b, ci])  # nothing left to gain
                need(ok, f"element {b} stopped at iteration {ci} in the batch but makes progress alone: {H.tolist()} vs {h1.tolist()}")
                t.label("earlier in batch")
            else:
                need(c["opt"] in ("lma", "dog"), f"element {b} stopped with {info.status[b].name}")
        if len(dA) < len(dS):
            t.label("earlier alone")
            need(i1.status[0].name == "CONVERGED" or c["opt"] in ("lma", "dog"),
                 f"element {b} alone stopped with {i1.status[0].name} after {len(dA) - 1} steps, {len(dS) - 1} in the batch")


@st.composite
def grad_case(draw):
    s = draw(P.spec(anchored=True, min_b=2, max_b=4, max_vars=3, max_cfs=3, dtypes=st.just("float64")))
    s["scale"] = draw(st.sampled_from([0.3, 0.6]))
    c = draw(O.config(opts=["gn", "lm", "lma", "dog"], max_T=4, tols=["zero"], modes=["unroll", "unroll", "truncated", "implicit"]))
    if c["opt"] in ("lma", "dog"):
        c.update(ls="chol")
    return dict(s=s, c=c)


def run_grad(c, p, vals, cot):
    obj = p.build(values=vals)
    opt = O.make(c, obj, vectorize=False)
    leaves = {n: p.tensor(vals[n]).requires_grad_(True) for n in p.aux}
    inp = {n: p.tensor(vals[n]) for n in p.opt}
    inp.update(leaves)
    sol, info = th.TheseusLayer(opt, vectorize=c["vec"]).forward(
        inp, optimizer_kwargs=dict(O.kwargs(c), track_err_history=True))
    out = sum((sol[n] * cot[n]).sum() for n in sol)
    names = [n for n in leaves]
    if not out.requires_grad:
        return info, {n: np.zeros(leaves[n].shape) for n in names}, sol
    g = torch.autograd.grad(out, [leaves[n] for n in names], allow_unused=True)
    return info, {n: np_(x) if x is not None else np.zeros(leaves[n].shape) for n, x in zip(names, g)}, sol


def check_grad(q, t):
    s, c = q["s"], q["c"]
    p = P.Problem(s)
    B = p.batch(p.values)
    if B < 2 or p.near_pi(p.values):
        raise Skip("single element or near pi")
    r = gens.rng(s["seed"] + 9)
    cot = {n: torch.tensor(r.normal(size=(B,) + p.values[n].shape[1:]), dtype=p.dt) for n in p.opt}
    b = int(r.integers(0, B))
    cot_b = {n: torch.zeros_like(x) for n, x in cot.items()}
    for n in cot:
        cot_b[n][b] = cot[n][b]
    info, g, sol = run_grad(c, p, p.values, cot_b)
    t.label(c["opt"], c["ls"], c["mode"])
    for n, x in g.items():
        if x.shape[0] == B:
            for j in range(B):
                if j != b:
                    need((x[j] == 0).all(), f"solution of element {b} has a gradient with respect to {n}[{j}]: {x[j].tolist()}")
    one = {n: (v[b: b + 1] if v.shape[0] > 1 else v) for n, v in p.values.items()}
    i1, g1, sol1 = run_grad(c, p, one, {n: x[b: b + 1] for n, x in cot.items()})
    H, h1 = np_(info.err_history)[b], np_(i1.err_history)[0]
    if not np.isfinite(H).all() or not np.isfinite(h1).all() or max(H.max(), h1.max()) > 1e4 * (1 + H[0]):
        raise Skip("diverged")
    if c["opt"] in ("lma", "dog") and np.abs(H - h1).max() > 1e-9 * (1 + H.max()):
        t.label("different attempts")
        return
    for n in sol:
        a, d = np_(sol[n])[b], np_(sol1[n])[0]
        close(a, d, 1e-6 * (1 + np.abs(d).max()), f"solution {n}[{b}] in the batch vs. alone")
    big = max([1.0] + [np.abs(x).max() for x in g1.values()])
    t.nontrivial(big > 0)
    for n, x in g.items():
        got = x[b] if x.shape[0] == B else x[0]
        close(got, g1[n][0], 1e-5 * big, f"gradient with respect to {n} of the solution of element {b} in the batch vs. alone")


DOM = {
    "log": lambda x: x.log(),
    "sqrt": lambda x: x.sqrt() - 0.3,
    "logsq": lambda x: (x.log() + 0.5) * x.sqrt(),
    "inv": lambda x: 1.0 / x.sqrt() - 1.0,
}


@st.composite
def domain_case(draw):
    """errors that are NaN outside x > 0: long steps of some elements leave the domain and must only affect themselves"""
    n = draw(st.integers(1, 2))
    B = draw(st.integers(2, 4))
    c = draw(O.config(opts=["lma", "dog"], max_T=8, tols=["zero", "default"], steps=[1.0]))
    if c["opt"] == "lma":
        c["damping"] = draw(st.sampled_from([1e-3, 1e-4, 0.1]))
    else:
        c["tr"] = draw(st.sampled_from([0.5, 2.0, 100.0]))
    x0 = draw(st.lists(st.lists(st.sampled_from([0.1, 0.4, 0.9, 1.5, 2.5, 4.0, 8.0, 30.0]), min_size=n, max_size=n), min_size=B, max_size=B))
    return dict(n=n, c=c, fn=draw(st.sampled_from(sorted(DOM))), x0=x0, prior=draw(st.sampled_from([0.0, 0.05])))


def run_domain(q, x0):
    n, f = q["n"], DOM[q["fn"]]
    obj = th.Objective()
    x = th.Vector(tensor=torch.tensor(x0, dtype=torch.float64), name="x")
    obj = th.Objective(dtype=torch.float64)

    def err(optim_vars, aux_vars):
        return f(optim_vars[0].tensor)

    obj.add(th.AutoDiffCostFunction([x], err, n, name="dom", cost_weight=th.ScaleCostWeight(torch.ones(1, 1, dtype=torch.float64))))
    if q["prior"]:
        obj.add(th.Difference(x, th.Vector(tensor=torch.ones(1, n, dtype=torch.float64)),
                              th.ScaleCostWeight(torch.full((1, 1), q["prior"], dtype=torch.float64)), name="prior"))
    opt = O.make(q["c"], obj)
    obj.update()
    with torch.no_grad():
        info = opt.optimize(**dict(O.kwargs(q["c"]), track_state_history=True, track_err_history=True, track_best_solution=True))
    return info


def check_domain(q, t):
    info = run_domain(q, q["x0"])
    c = q["c"]
    T = c["T"]
    t.label(c["opt"], q["fn"])
    if any(x.name == "FAIL" for x in info.status):
        raise Skip("singular")
    nan = False
    for b in range(len(q["x0"])):
        i1 = run_domain(q, [q["x0"][b]])
        if i1.status[0].name == "FAIL":
            raise Skip("singular")
        S, A = element_states(info, b, ["x"], T), element_states(i1, 0, ["x"], T)
        need(all(np.isfinite(x["x"]).all() for x in S), f"element {b} left the domain of its error: {[x['x'].tolist() for x in S]}")
        h = np_(info.err_history)[b]
        need(not np.isnan(h).any(), f"error history of element {b} has NaNs: {h.tolist()}")
        dS, dA = distinct(S, 1e-9), distinct(A, 1e-9)
        nan = nan or len(dA) < len(A) - 1
        t.nontrivial(len(dA) > 1 and nan)
        for i in range(min(len(dS), len(dA))):
            close(dS[i]["x"], dA[i]["x"], 1e-7 * (1 + np.abs(dA[i]["x"]).max()) * (1 + i), f"accepted state {i} of element {b} in the batch vs. alone")


SUBS = [
    Sub("states", case, check, 320, shards=(8, 8)),
    Sub("domain", domain_case, check_domain, 300, shards=(2, 8)),
    Sub("gradients", grad_case, check_grad, 140, shards=(4, 8)),
]
