import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st
from theseus.optimizer.manifold_gaussian import ManifoldGaussian

from vlib import costs as C, gens, opt as O, problems as P, ref
from vlib.core import Skip, Sub
from vlib.th import DT, close, expect_raise, make, need, np_

PROPERTY = "P30"
RULE = (
    "A case draws an object (a variable of any kind, a Gaussian, a cost weight, any cost function incl. automatic "
    "differentiation in every mode, robust ones and maps, an objective, a layer with any optimiser and linear solver) and a "
    "history of conversions between float32 and float64 in every spelling of `to`, interleaved with evaluations, updates, "
    "copies, solves and backward passes, under either default dtype. After every conversion all tensors have the new dtype "
    "and the old values rounded; and every later result equals, in value and dtype, that of an object built in that dtype "
    "from the same numbers. Non-trivial: at least two conversions, or one between two evaluations."
)
ASSUMPTIONS = [
    "conversions are made by calling `to` of the object itself (torch does not forward Module.to of a parent module, "
    "nor .double(), to the tensors of a TheseusLayer, which are not module parameters)",
    "error functions given by the user build their constants in the dtype of their arguments",
]

SPELL = ["dtype", "kw", "device", "tensor", "device kw"]


def convert(obj, d, how):
    dt = DT[d]
    if how == "dtype":
        return obj.to(dt)
    if how == "kw":
        return obj.to(dtype=dt)
    if how == "device":
        return obj.to("cpu", dt)
    if how == "device kw":
        return obj.to(device=torch.device("cpu"), dtype=dt)
    return obj.to(torch.zeros(1, dtype=dt))


class default_dtype:
    def __init__(self, d):
        self.d = DT[d]

    def __enter__(self):
        self.prev = torch.get_default_dtype()
        torch.set_default_dtype(self.d)

    def __exit__(self, *a):
        torch.set_default_dtype(self.prev)


def tol(d, x=1.0):
    return (1e-5 if d == "float32" else 1e-12) * max(1.0, x)


def same(got, want, d, what, f=1.0):
    need(got.dtype == DT[d], f"{what}: dtype {got.dtype} after a conversion to {d}")
    need(got.shape == want.shape, f"{what}: shape {tuple(got.shape)}, natively {tuple(want.shape)}")
    m = float(want.detach().abs().max()) if want.numel() else 1.0
    close(got, want, f * tol(d, m), f"{what}, converted to {d} vs built in {d}")


def tensors_of(fn_or_var):
    """every variable an object reports"""
    out = {}

    def add(k, v):
        out[k] = v

    if isinstance(fn_or_var, th.Variable):
        add("itself", fn_or_var)
    elif isinstance(fn_or_var, th.Objective):
        for n, v in list(fn_or_var.optim_vars.items()) + list(fn_or_var.aux_vars.items()):
            add(n, v)
        for cf in fn_or_var.cost_functions.values():
            for n, v in tensors_of(cf).items():
                add(f"{cf.name}/{n}", v)
    else:
        for v in list(fn_or_var.optim_vars) + list(fn_or_var.aux_vars):
            add(v.name, v)
        if isinstance(fn_or_var, th.CostFunction):
            for v in fn_or_var.weight.aux_vars:
                add("weight/" + v.name, v)
        if isinstance(fn_or_var, th.RobustCostFunction):
            for n, v in tensors_of(fn_or_var.cost_function).items():
                add("inner/" + n, v)
    return out


def converted(obj, d, how, what):
    before = {n: (v, v.tensor.detach().clone()) for n, v in tensors_of(obj).items()}
    convert(obj, d, how)
    for n, (v, x) in before.items():
        need(v.dtype == DT[d], f"{what}: {n} is {v.dtype} after a conversion to {d}")
        need(torch.equal(v.tensor.detach(), x.to(DT[d])), f"{what}: value of {n} changed by a conversion to {d}")
    after = tensors_of(obj)
    need(set(after) == set(before), f"{what}: variables after a conversion")


# ------------------------------------------------------------------ variables and Gaussians
VARG = ["R1", "R3", "Point2", "Point3", "SO2", "SE2", "SO3", "SE3"]


@st.composite
def g_vars(draw):
    n = draw(st.integers(1, 3))
    kind = draw(st.sampled_from(["var", "var", "plain", "gauss"]))
    ops = [dict(op=draw(st.sampled_from(["to", "to", "update", "retract", "copy", "half", "grad", "item"])), d=draw(gens.dtypes),
                how=draw(st.sampled_from(SPELL)), sel=draw(gens.seeds)) for _ in range(draw(st.integers(2, 6)))]
    return dict(kind=kind, g=draw(st.sampled_from(VARG)), n=n, d=draw(gens.dtypes), ops=ops, seed=draw(gens.seeds),
                default=draw(st.sampled_from(["float32", "float64"])))


def c_vars(q, t):
    r = gens.rng(q["seed"])
    g, n, d = q["g"], q["n"], q["d"]
    n_to = 0
    with default_dtype(q["default"]):
        if q["kind"] == "plain":
            v = th.Variable(torch.tensor(r.normal(size=(n, 2, 2)), dtype=DT[d]))
        else:
            v = make(g, [ref.exp(g, 0.7 * r.normal(size=ref.dof(g))) for _ in range(n)], dtype=d)
        gauss = None
        if q["kind"] == "gauss":
            L = r.normal(size=(n, v.dof(), v.dof()))
            gauss = ManifoldGaussian([v], precision=torch.tensor(L @ L.transpose(0, 2, 1) + np.eye(v.dof()), dtype=DT[d]))
        cls_ = type(v)
        for o in q["ops"]:
            k = o["op"]
            r = gens.rng(o["sel"])
            x = v.tensor.detach().clone()
            if k == "to":
                n_to += 1
                t.label(f"to by {o['how']}")
                if gauss is not None:
                    pr = gauss.precision.clone()
                    convert(gauss, o["d"], o["how"])
                    need(gauss.precision.dtype == DT[o["d"]], "dtype of the precision")
                    need(torch.equal(gauss.precision, pr.to(DT[o["d"]])), "value of the precision")
                    need(gauss.dtype == DT[o["d"]] and gauss.mean[0] is v, "mean after a conversion")
                else:
                    convert(v, o["d"], o["how"])
                d = o["d"]
                need(v.dtype == DT[d], f"dtype {v.dtype} after a conversion to {d}")
                need(torch.equal(v.tensor.detach(), x.to(DT[d])), "value after a conversion")
                need(type(v) is cls_, "class after a conversion")
            elif k == "half":
                if q["kind"] == "plain":
                    continue
                expect_raise(lambda: convert_half(v, o["sel"]), "conversion to an unsupported dtype", ValueError)
                need(v.dtype == DT[d] and torch.equal(v.tensor, x), "variable after a refused conversion")
            elif k == "update":
                other = "float32" if d == "float64" else "float64"
                expect_raise(lambda: v.update(x.to(DT[other])), "update with another dtype", (ValueError, RuntimeError))
                y = make(g, [ref.exp(g, r.normal(size=ref.dof(g))) for _ in range(n)], dtype=d).tensor if q["kind"] != "plain" else torch.tensor(
                    r.normal(size=(n, 2, 2)), dtype=DT[d])
                v.update(y)
                need(v.dtype == DT[d] and torch.equal(v.tensor, y), "update after a conversion")
            elif k == "item":
                if q["kind"] == "plain":
                    v[0] = 1.5
                    need(v.dtype == DT[d] and bool((v.tensor[0] == 1.5).all()), "item assignment after a conversion")
            elif k == "copy":
                c = v.copy()
                need(c.dtype == DT[d] and torch.equal(c.tensor, x), "copy after a conversion")
                if gauss is not None:
                    gc = gauss.copy()
                    need(gc.precision.dtype == DT[d] and gc.dtype == DT[d], "copy of a Gaussian after a conversion")
            elif q["kind"] != "plain":
                delta = torch.tensor(0.5 * r.normal(size=(n, v.dof())), dtype=DT[d])
                nat = cls_(tensor=x.clone())
                if k == "retract":
                    same(v.retract(delta).tensor, nat.retract(delta).tensor, d, "retract")
                    same(v.local(nat.retract(delta)), nat.local(nat.retract(delta)), d, "local", 10)
                    if isinstance(v, th.LieGroup):
                        jl = []
                        same(v.log_map(jacobians=jl), nat.log_map(), d, "logarithm")
                        same(v.adjoint(), nat.adjoint(), d, "adjoint")
                        same(v.inverse().tensor, nat.inverse().tensor, d, "inverse")
                        need(jl[0].dtype == DT[d], "dtype of a Jacobian")
                else:
                    y = v.tensor.clone().requires_grad_(True)
                    v.update(y)
                    for dd in ("float32", "float64", d):
                        convert(v, dd, o["how"])
                    v.tensor.sum().backward()
                    need(y.grad is not None and bool((y.grad == 1).all()), "gradient through conversions")
                    v.update(y.detach())
    t.nontrivial(n_to >= 2)


def convert_half(v, sel):
    dt = [torch.float16, torch.bfloat16][sel % 2]
    return v.to(dt) if sel % 3 else v.to(device="cpu", dtype=dt)


# ------------------------------------------------------------------ cost functions and weights
@st.composite
def g_costs(draw):
    fast = draw(st.integers(0, 4)) == 0
    c = draw(C.spec(kinds=["local"] if fast else None))
    c["kind2"] = draw(st.sampled_from(["plain", "plain", "robust", "gnc"]))
    ops = [dict(op=draw(st.sampled_from(["to", "to", "to", "eval", "update", "copy", "weight to"])), d=draw(gens.dtypes),
                how=draw(st.sampled_from(SPELL)), sel=draw(gens.seeds)) for _ in range(draw(st.integers(2, 6)))]
    return dict(c=c, ops=ops, loss=draw(st.sampled_from(["huber", "welsch"])), fast=fast,
                default=draw(st.sampled_from(["float32", "float64"])))


def wrap(cf, q, dt):
    k = q["c"]["kind2"]
    if k == "plain":
        return cf
    rad = th.Variable(torch.full((1, 1), -0.3, dtype=dt), name="radius")
    if k == "robust":
        return th.RobustCostFunction(cf, P.LOSSES[q["loss"]], rad, name="rob")
    return th.GNCRobustCostFunction(cf, th.GemanMcClureLoss, rad, th.Variable(torch.full((1, 1), 1.7, dtype=dt), name="mu"), name="rob")


def c_costs(q, t):
    c = dict(q["c"])
    d = c["dtype"]
    n_to = n_eval = 0
    with default_dtype(q["default"]):
        p = C.Cost(c)
        cf = wrap(p.build(), q, DT[d])
        V = p.V
        fast = q["fast"] and c["kind"] == "local"
        try:
            if fast:
                t.label("approximate Jacobians")
                th.set_global_params({"fast_approx_local_jacobians": True})

            def evaluate(what):
                nonlocal n_eval
                n_eval += 1
                pn = C.Cost(dict(c, dtype=d))
                vals = {n: np_(v.tensor) for n, v in V.items()}
                nat = pn.build(vals={n: vals[n] for n in vals if n in pn.vals})
                nat = wrap(nat, q, DT[d])
                if c["kind2"] != "plain":
                    extra = {v.name: v for v in nat.aux_vars}
                    for v in cf.aux_vars:
                        if v.name in ("radius", "mu"):
                            extra[v.name].update(v.tensor.clone())
                same(cf.error(), nat.error(), d, f"{what}: error")
                same(cf.weighted_error(), nat.weighted_error(), d, f"{what}: weighted error")
                for nm in ("jacobians", "weighted_jacobians_error"):
                    J, e = getattr(cf, nm)()
                    Jn, en = getattr(nat, nm)()
                    same(e, en, d, f"{what}: error of {nm}")
                    for i, (a, b) in enumerate(zip(J, Jn)):
                        same(a, b, d, f"{what}: {nm} {i}")

            for o in q["ops"]:
                k = o["op"]
                r = gens.rng(o["sel"])
                if k == "to":
                    converted(cf, o["d"], o["how"], c["kind"])
                    d = o["d"]
                    n_to += 1
                elif k == "weight to":
                    converted(cf.weight, d, o["how"], "weight")
                elif k == "eval":
                    evaluate("evaluation")
                elif k == "update":
                    for n, v in V.items():
                        if n in p.vals and r.integers(0, 2):
                            a = p.draw(n, v.shape[0] if v.ndim else 1, r) if n != "w" else np_(v.tensor)
                            v.update(torch.tensor(a, dtype=DT[d]).view(v.shape))
                elif k == "copy" and c["kind2"] == "plain":
                    cp = cf.copy(keep_variable_names=True)
                    for n, v in tensors_of(cp).items():
                        need(v.dtype == DT[d], f"{n} of a copy")
                    same(cp.weighted_error(), cf.weighted_error(), d, "copy")
            evaluate("at the end")
        finally:
            if fast:
                th.set_global_params({"fast_approx_local_jacobians": False})
    t.label(f"cost {c['kind']}" + ("" if c["kind2"] == "plain" else " robust"))
    t.nontrivial(n_to >= 2 or (n_to >= 1 and n_eval >= 2))


# ------------------------------------------------------------------ automatic differentiation
@st.composite
def g_auto(draw):
    return dict(mode=draw(st.sampled_from(["dense", "loop_batch", "vmap"])), n=draw(st.integers(1, 3)),
                g=draw(st.sampled_from(["R2", "SO2", "SE2", "SO3", "SE3"])), h=draw(st.sampled_from(["R2", "SE2", "SO3", "plain"])),
                d=draw(gens.dtypes), default=draw(st.sampled_from(["float32", "float64"])), seed=draw(gens.seeds),
                learn=draw(st.booleans()),
                ops=[dict(op=draw(st.sampled_from(["to", "to", "eval", "copy", "update"])), d=draw(gens.dtypes),
                          how=draw(st.sampled_from(SPELL))) for _ in range(draw(st.integers(2, 5)))])


def auto_err(optim_vars, aux_vars):
    (x,) = optim_vars
    e = x.log_map() if isinstance(x, th.LieGroup) else x.tensor
    for a in aux_vars:
        e = e * (1 + 0.3 * torch.sin(a.tensor.flatten(1).sum(1, keepdim=True)))
    return e


def c_auto(q, t):
    d, n = q["d"], q["n"]
    r = gens.rng(q["seed"])
    n_to = 0

    def var(g, name, dt, x=None):
        if g == "plain":
            return th.Variable(torch.tensor(r.normal(size=(n, 2)), dtype=dt) if x is None else x, name=name)
        v = make(g, [ref.exp(g, 0.5 * r.normal(size=ref.dof(g))) for _ in range(n)], dtype=str(dt)[6:], name=name)
        if x is not None:
            v.update(x)
        return v

    def build(x, a, dt):
        w = th.ScaleCostWeight(th.Variable(torch.full((1, 1), 1.7, dtype=dt), name="w"))
        return th.AutoDiffCostFunction([x], auto_err, x.dof(), cost_weight=w, aux_vars=[a], autograd_mode=q["mode"], name="auto")

    with default_dtype(q["default"]):
        x, a = var(q["g"], "x", DT[d]), var(q["h"], "a", DT[d])
        cf = build(x, a, DT[d])

        def evaluate():
            xn, an = var(q["g"], "x", DT[d], x.tensor.clone()), var(q["h"], "a", DT[d], a.tensor.clone())
            nat = build(xn, an, DT[d])
            nat.weight.scale.update(cf.weight.scale.tensor.clone())
            J, e = cf.weighted_jacobians_error()
            Jn, en = nat.weighted_jacobians_error()
            same(e, en, d, "error")
            same(J[0], Jn[0], d, "Jacobian", 10)

        for o in q["ops"]:
            k = o["op"]
            if k == "to":
                n_to += 1
                converted(cf, o["d"], o["how"], "auto")
                d = o["d"]
            elif k == "eval":
                evaluate()
            elif k == "copy":
                cf = cf.copy(keep_variable_names=True)
                x, a = list(cf.optim_vars)[0], list(cf.aux_vars)[0]
            else:
                x.update(var(q["g"], None, DT[d]).tensor)
        evaluate()
    t.label(f"mode {q['mode']}")
    t.nontrivial(n_to >= 2)


# ------------------------------------------------------------------ objectives and layers
@st.composite
def g_layer(draw):
    s = draw(P.spec(max_b=3, max_vars=3, max_cfs=4, anchored=True, single_opt=draw(st.booleans())))
    c = draw(O.config(max_T=4, modes=["unroll", "unroll", "truncated", "implicit", "dlm"]))
    if draw(st.integers(0, 7)) == 0:
        c["opt"] = "dcem"
    ops = [dict(op=draw(st.sampled_from(["to", "to", "layer to", "error", "jac", "solve", "forward", "backward", "copy", "samples"])),
                d=draw(gens.dtypes), how=draw(st.sampled_from(SPELL)), sel=draw(gens.seeds)) for _ in range(draw(st.integers(2, 5)))]
    use = draw(st.sampled_from(["solve", "forward", "backward", "backward"]))
    other = {"float32": "float64", "float64": "float32"}[s["dtype"]]
    how = draw(st.sampled_from(SPELL))
    if draw(st.booleans()):  # used, converted, used again
        ops = [dict(op=use, d="", how="", sel=0), dict(op=draw(st.sampled_from(["to", "layer to"])), d=other, how=how, sel=0)] + ops
    ops.append(dict(op=use, d="", how="", sel=0))
    return dict(s=s, c=c, ops=ops, default=draw(st.sampled_from(["float32", "float64"])), layered=draw(st.booleans()))


def make_opt(c, obj, vectorize):
    if c["opt"] == "dcem":
        return th.DCEM(obj, max_iterations=c["T"], n_sample=20, n_elite=4, init_sigma=0.3, vectorize=vectorize, temp=[1.0, 0.0][c["T"] % 2] or None)
    return O.make(c, obj, vectorize=vectorize)


def c_layer(q, t):
    s, c = q["s"], q["c"]
    d = s["dtype"]
    if c["opt"] == "dcem" and any(v["g"] in ref.LIE or not v["b"] for v in s["vars"]):  # vectors of full batches only
        c = dict(c, opt="gn")
    dcem = c["opt"] == "dcem"
    kw = {} if dcem else O.kwargs(c)
    p = P.Problem(s)
    if p.near_pi(p.values):
        raise Skip("near pi")
    n_to = n_use = 0
    with default_dtype(q["default"]):
        obj = p.build()
        V = p.V
        opt = make_opt(c, obj, c["vec"] and not q["layered"])
        layer = th.TheseusLayer(opt, vectorize=c["vec"]) if q["layered"] else None
        obj.update()

        def native():
            pn = P.Problem(dict(s, dtype=d))
            on = pn.build(values={n: np_(v.tensor) for n, v in V.items()})
            un = [v for v in on.aux_vars.values() if v.name == "unit_w"]
            for v in un:
                v.update(obj.aux_vars["unit_w"].tensor.clone())
            qn = make_opt(c, on, c["vec"] and not q["layered"])
            ln = th.TheseusLayer(qn, vectorize=c["vec"]) if q["layered"] else None
            on.update()
            return pn, on, qn, ln

        def grads(o_, l_, P_):
            ins = {n: v.tensor.detach().clone() for n, v in P_.V.items()}
            leaf = [n for n in sorted(ins) if n[0] == "t"]
            for n in leaf:
                ins[n].requires_grad_(True)
            torch.manual_seed(q["s"]["seed"] % 1000)
            out, info = l_.forward(ins, optimizer_kwargs=dict(kw))
            k = 0.0
            for i, n in enumerate(sorted(out)):
                x = out[n].reshape(-1)
                k = k + (x * torch.cos(torch.arange(x.numel(), dtype=x.dtype) + i)).sum()
            if not k.requires_grad:  # e.g. hard sample selection, a rejected step
                return out, info, {n: None for n in leaf}
            g = torch.autograd.grad(k, [ins[n] for n in leaf], allow_unused=True)
            return out, info, dict(zip(leaf, g))

        for o in q["ops"]:
            k = o["op"]
            if k in ("to", "layer to"):
                n_to += 1
                target = layer if k == "layer to" and layer is not None else obj
                before = {n: (v, v.tensor.detach().clone()) for n, v in tensors_of(obj).items()}
                ret = convert(target, o["d"], o["how"])
                need(ret is target, "to returns the object")
                d = o["d"]
                for n, (v, x) in before.items():
                    need(v.dtype == DT[d], f"{n} is {v.dtype} after a conversion to {d}")
                    need(torch.equal(v.tensor.detach(), x.to(DT[d])), f"value of {n} changed by a conversion to {d}")
                need(obj.dtype == DT[d], "dtype of the objective")
                if layer is not None:
                    need(layer.dtype == DT[d], "dtype of the layer")
                continue
            n_use += 1
            pn, on, qn, ln = native()
            t.label(k)
            if k == "error":
                same(obj.error(), on.error(), d, "error")
                same(obj.error_metric(), on.error_metric(), d, "error metric")
            elif k == "jac":
                for a, b in zip(obj._get_jacobians_iter(), on._get_jacobians_iter()):
                    Ja, ea = a.weighted_jacobians_error()
                    Jb, eb = b.weighted_jacobians_error()
                    same(ea, eb, d, "error of a cost function")
                    for x, y in zip(Ja, Jb):
                        same(x, y, d, "Jacobian")
            elif k == "copy":
                oc = obj.copy()
                need(oc.dtype == DT[d], "dtype of a copy")
                oc.update()
                same(oc.error(), on.error(), d, "error of a copy")
            elif k == "samples":
                if dcem or layer is None or c["ls"] == "cholmod" or any(v["g"] in ref.LIE for v in s["vars"]):
                    continue
                obj.update()
                opt.linear_solver.linearization.linearize()
                delta = opt.linear_solver.solve()
                torch.manual_seed(0)
                z = layer.compute_samples(opt.linear_solver, n_samples=3, temperature=1e-12)
                B, nv = delta.shape
                need(tuple(z.shape) == (B, nv, 3), f"shape of samples {tuple(z.shape)}")
                need(z.dtype == DT[d], f"dtype of samples {z.dtype}")
                want = torch.cat([v.retract(dl).tensor.expand(B, -1) for v, dl in zip(
                    opt.linear_solver.linearization.ordering,
                    torch.split(delta, [v.dof() for v in opt.linear_solver.linearization.ordering], dim=1))], dim=1)
                m = float(want.abs().max())
                close(z, want.unsqueeze(2).expand(-1, -1, 3), 1e-4 * max(1.0, m), "samples of a cold distribution")
            elif k == "solve" and layer is None:
                with torch.no_grad():
                    k2 = {a: b for a, b in kw.items() if not a.startswith("backward")}
                    torch.manual_seed(q["s"]["seed"] % 1000)
                    info = opt.optimize(track_best_solution=True, track_err_history=True, track_state_history=True, **k2)
                    torch.manual_seed(q["s"]["seed"] % 1000)
                    inn = qn.optimize(track_best_solution=True, track_err_history=True, track_state_history=True, **k2)
                compare_info(info, inn, d)
                compare_vars(V, pn.V, p.opt, d)
            elif k in ("forward", "backward", "solve") and layer is not None:
                if k == "backward":
                    out, info, g = grads(obj, layer, p)
                    outn, inn, gn = grads(on, ln, pn)
                    for n in g:
                        need((g[n] is None) == (gn[n] is None), f"gradient of {n}")
                        if g[n] is not None:
                            same(g[n], gn[n], d, f"gradient of {n}", 1e3)
                else:
                    with torch.no_grad():
                        k2 = {a: b for a, b in kw.items() if not a.startswith("backward")}
                        torch.manual_seed(q["s"]["seed"] % 1000)
                        out, info = layer.forward({n: V[n].tensor.clone() for n in V}, optimizer_kwargs=dict(k2, track_err_history=True))
                        torch.manual_seed(q["s"]["seed"] % 1000)
                        outn, inn = ln.forward({n: pn.V[n].tensor.clone() for n in pn.V}, optimizer_kwargs=dict(k2, track_err_history=True))
                for n in out:
                    same(out[n], outn[n], d, f"solution {n}", 100)
                compare_info(info, inn, d)
                for n in V:  # outputs of one forward do not carry graphs into the next
                    V[n].update(V[n].tensor.detach())
    t.label(f"opt {c['opt']}")
    t.label("layer" if q["layered"] else "objective")
    t.nontrivial(n_to >= 2 or (n_to >= 1 and n_use >= 2))


def compare_vars(V, W, names, d):
    for n in names:
        same(V[n].tensor, W[n].tensor, d, f"solution {n}", 100)


def compare_info(a, b, d):
    need(list(a.status) == list(b.status), f"status {a.status}, natively {b.status}")
    for n in ("err_history", "best_err", "last_err"):
        x, y = getattr(a, n), getattr(b, n)
        need((x is None) == (y is None), n)
        if x is not None:
            same(x, y, d, n, 100)
    if a.best_solution is not None:
        for n in a.best_solution:
            same(a.best_solution[n], b.best_solution[n], d, f"best solution {n}", 100)
    if getattr(a, "state_history", None) is not None:
        for n in a.state_history:
            same(a.state_history[n], b.state_history[n], d, f"history of {n}", 100)


SUBS = [
    Sub("vars", g_vars, c_vars, 500, 6000),
    Sub("costs", g_costs, c_costs, 400, 6000, shards=(2, 6)),
    Sub("auto", g_auto, c_auto, 150, 3000),
    Sub("layer", g_layer, c_layer, 300, 5000, shards=(4, 8)),
]
