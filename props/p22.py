import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st

from vlib import gens, opt as O, problems as P
from vlib.core import Skip, Sub, Violation
from vlib.th import close, need, np_

PROPERTY = "P22"
RULE = (
    "A case draws a problem, an optimiser and a history of layer calls: full or partial inputs, changed optimiser options "
    "and backward modes, gradients on or off, a backward pass, inputs that make the linear system singular or NaN, rejected "
    "inputs, direct variable updates between calls, and a final structure change. After every call the outputs (and "
    "gradients) must equal those of a fresh layer given the complete current data; caller tensors and earlier outputs must "
    "be unmodified. Non-trivial: at least two successful calls on one layer."
)
ASSUMPTIONS = [
    "after a call that raised, the values of the optimisation variables are unspecified, so the next call provides them",
    "direct-loss minimisation never differentiates through the solves, so it reports failed ones instead of raising",
]

OPS = ["call", "call", "call", "call", "fail", "nan", "bad", "direct"]


@st.composite
def case(draw):
    s = draw(P.spec(max_b=3, max_vars=3, max_cfs=4, single_opt=draw(st.integers(0, 3)) == 0, zero=False,
                    anchored=draw(st.booleans()), hard=True))
    s["scale"] = draw(st.sampled_from([0.05, 0.3, 0.6]))
    modes = ["unroll", "unroll", "truncated", "implicit", "dlm"]
    cs = [draw(O.config(max_T=4, modes=modes))]
    for _ in range(draw(st.integers(0, 2))):
        c2 = draw(O.config(opts=[cs[0]["opt"]] if cs[0]["opt"] in ("gn", "dog") or cs[0]["ls"] == "cholmod" else ["lm", "lma"],
                           max_T=4, modes=modes))
        c2.update(ls=cs[0]["ls"], T=cs[0]["T"], tol=cs[0]["tol"], step=cs[0]["step"], vec=cs[0]["vec"])
        if c2["ls"] == "cholmod":
            c2.update(ell=False, eps=None)
        cs.append(c2)
    n = draw(st.integers(2, 5))
    ops = [dict(op="call" if i == 0 else draw(st.sampled_from(OPS)), sel=draw(gens.seeds), c=draw(st.integers(0, len(cs) - 1)),
                full=draw(st.integers(0, 2)) == 0, grad=draw(st.booleans()), back=draw(st.booleans()),
                lay=draw(st.integers(0, 4)), none=draw(st.integers(0, 5)) == 0, fresh=draw(st.integers(0, 2)) > 0)
           for i in range(n)]
    return dict(s=s, cs=cs, ops=ops, end=draw(st.sampled_from(["erase", "add", "both", "none"])))


def tensor(p, a, lay):
    x = p.tensor(a)
    if lay == 1 and x.shape[0] > 1:  # rows of a larger buffer
        return torch.stack([x, x], 1)[:, 0]
    if lay == 2 and x.ndim > 1:
        return x.transpose(0, -1).contiguous().transpose(0, -1)
    return x


def replica(x):
    """same values in the same memory layout, so that both layers round alike"""
    x = x.detach()
    return torch.empty(0, dtype=x.dtype).set_(x.untyped_storage().clone(), x.storage_offset(), x.shape, x.stride())


def layer_call(c, p, layer, inputs, grad, leaves):
    """(outputs, info, gradients or None)"""
    kw = O.kwargs(c)
    with torch.set_grad_enabled(grad):
        out, info = layer.forward(inputs, optimizer_kwargs=kw)
    grads = None
    if grad and leaves:
        k = 0.0
        for i, n in enumerate(sorted(out)):
            if out[n].requires_grad:
                d = out[n].reshape(-1)
                k = k + (d * torch.cos(torch.arange(d.numel(), dtype=d.dtype) + i)).sum()
        if torch.is_tensor(k):
            gs = torch.autograd.grad(k, list(leaves.values()), allow_unused=True, retain_graph=True)
            grads = {n: None if g is None else np_(g) for n, g in zip(leaves, gs)}
    return out, info, grads


def check(q, t):
    s, cs = q["s"], q["cs"]
    p = P.Problem(s)
    if p.near_pi(p.values):
        raise Skip("near pi")
    f32 = s["dtype"] == "float32"
    cur = {n: v.copy() for n, v in p.values.items()}
    obj = p.build(values=cur)
    V, cfs = p.V, p.cfs
    opt = O.make(cs[0], obj, vectorize=False)
    layer = th.TheseusLayer(opt, vectorize=cs[0]["vec"])
    watch = []  # (tensor, snapshot, version, what)

    def keep(x, what):
        watch.append((x, x.detach().clone(), x._version, what))

    def unmodified():
        for x, y, v, what in watch:
            need(x.shape == y.shape and bool(((x.detach() == y) | (x.isnan() & y.isnan())).all()), f"{what} was modified")
            need(x._version == v, f"{what} was written in place")

    known, good = True, 0  # known: the current values of the optimisation variables are known
    for step, o in enumerate(q["ops"]):
        r = gens.rng(o["sel"])
        c = cs[o["c"]]
        d = {}
        full = o["full"] or not known
        for n in p.groups:
            if n in p.opt and not known or full or (step and r.integers(0, 2)):
                d[n] = p.draw(n, cur[n].shape[0], rng=r) if o["fresh"] else p.values[n] if n in p.opt else cur[n]
        if o["op"] == "direct":
            # data of variables changed directly instead of through the inputs
            for n, a in d.items():
                if n in p.opt and not known:
                    continue
                x = tensor(p, a, o["lay"])
                keep(x, f"tensor given to {n}.update")
                (obj.optim_vars.get(n) or obj.aux_vars[n]).update(x)
                cur[n] = a
            continue
        if o["op"] == "bad" and d:
            n = sorted(d)[o["sel"] % len(d)]
            x = p.tensor(d[n])
            bad = x.to(torch.float32 if x.dtype == torch.float64 else torch.float64) if o["back"] else torch.cat([x, x], 1)
            inp = {k: p.tensor(a) for k, a in d.items()}
            inp[n] = bad
            try:
                with torch.set_grad_enabled(o["grad"]):
                    layer.forward(inp, optimizer_kwargs=O.kwargs(c))
            except Exception:
                pass
            else:
                raise Violation(f"inputs with wrong shape or dtype for {n} were accepted")
            # some inputs may have been taken: provide everything next time
            for k in p.groups:
                (obj.optim_vars.get(k) if k in p.opt else obj.aux_vars[k]).update(p.tensor(cur[k]))
            unmodified()
            t.label("rejected inputs")
            continue
        broken = None
        if o["op"] == "fail" and not any(x["w"] is None for x in s["cfs"]) and c["opt"] in ("gn", "dog"):
            broken = "fail"
            for n in p.groups:
                if n[0] == "w":
                    d[n] = np.zeros_like(cur[n])
        elif o["op"] == "nan":
            vs = [n for n in p.groups if n[0] == "t" and p.groups[n][0] == "R"]
            if vs:
                broken = "nan"
                n = vs[o["sel"] % len(vs)]
                d[n] = np.full_like(cur[n], np.nan)
        before = dict(cur)
        before.update(d)
        if broken != "nan" and p.near_pi(before):
            # not given to the layer: errors are discontinuous there
            continue
        if len({a.shape[0] for a in before.values()} - {1}) > 1:
            raise Skip("batch sizes")
        lay = o["lay"]
        leaves = {}
        inp = {}
        for n, a in d.items():
            x = tensor(p, a, lay)
            if o["grad"] and o["back"] and n[0] in "tw" and broken is None and r.integers(0, 2):
                x.requires_grad_(True)
                leaves[n] = x
            inp[n] = x
            keep(x, f"input {n}")
        inputs = None if not inp and o["none"] else inp
        # the same call on a fresh layer with all the data
        fobj = p.build(values=before)
        flayer = th.TheseusLayer(O.make(cs[0], fobj, vectorize=False), vectorize=cs[0]["vec"])
        finp, fleaves = {}, {}
        for n, a in before.items():
            finp[n] = replica(inp[n] if n in inp else V[n].tensor)
            if n in leaves:
                fleaves[n] = finp[n].requires_grad_(True)
        res = []
        for lay_, i_, l_ in ((layer, inputs, leaves), (flayer, finp, fleaves)):
            try:
                res.append(layer_call(c, p, lay_, i_, o["grad"], l_))
            except RuntimeError as e:
                if "linear optimizer" not in str(e):
                    raise
                res.append(None)
        names = list(inp)
        need(inputs is None or list(inputs) == names and all(inputs[n] is inp[n] for n in names), "the dict of inputs was changed")
        unmodified()
        for n in inp:
            if n in leaves:
                leaves[n].grad = None
        for n, a in d.items():
            cur[n] = a
        if (res[0] is None) != (res[1] is None):
            raise Violation(f"call {step}: the linear solver failed only {'on the used' if res[0] is None else 'on the fresh'} layer")
        if res[0] is None:
            need(o["grad"], "an error was raised without gradients")
            known = False
            t.label("failed solve raised")
        else:
            (out, info, g), (fout, finfo, fg) = res
            st1, st2 = [x.name for x in info.status], [x.name for x in finfo.status]
            need(sorted(out) == sorted(p.opt) == sorted(obj.optim_vars), "outputs must hold every optimisation variable")
            need(st1 == st2, f"call {step}: statuses {st1}, on a fresh layer {st2}")
            if broken == "fail":
                need(not o["grad"] or c["mode"] == "dlm", "a failed solve must raise when gradients are enabled")
                need(all(x == "FAIL" for x in st1), f"failed solve reported as {st1}")
                for n in out:
                    need(np.array_equal(np_(out[n]), before[n]), f"{n} changed by a failed solve")
                t.label("failed solve reported")
            for n in out:
                a, b = np_(out[n]), np_(fout[n])
                close(a, b, (1e-5 if f32 else 1e-11) * (1 + np.abs(b)), f"call {step}: {n}, compared to a fresh layer's")
                keep(out[n], f"output {n} of call {step}")
                cur[n] = a
            known = all(np.isfinite(a).all() for a in cur.values())
            if g is not None or fg is not None:
                need(g is not None and fg is not None and list(g) == list(fg), "gradients missing")
                for n in g:
                    if g[n] is None or fg[n] is None:
                        need((g[n] is None) == (fg[n] is None), f"gradient of {n} missing on one layer")
                        continue
                    sc = np.abs(fg[n]).max(initial=1.0)
                    close(g[n], fg[n], (1e-4 if f32 else 1e-9) * sc, f"call {step} ({c['mode']}): gradient of {n}, fresh layer")
                t.label("gradients " + c["mode"])
            if broken is None:
                good += 1
        unmodified()
        if broken:
            # back to usable data
            fix = {n: p.values[n] for n in p.groups if n[0] == "w" or not np.isfinite(cur[n]).all()}
            for n, a in fix.items():
                (obj.optim_vars.get(n) if n in p.opt else obj.aux_vars[n]).update(p.tensor(a))
                cur[n] = a
    t.label(cs[0]["opt"], "vec" if cs[0]["vec"] else "plain", s["dtype"])
    t.nontrivial(good > 1)
    if q["end"] == "none":
        return
    cf = cfs[0]
    if q["end"] in ("erase", "both"):
        obj.erase(cf.name)
    if q["end"] in ("add", "both"):
        v = V[p.opt[0]]
        w = th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=p.dt), name="new_w"), name="new_weight")
        obj.add(th.Difference(v, type(v)(tensor=v.tensor.clone(), name="new_t"), w, name="new_cf")
                if q["end"] == "add" else cf)
    snap = {n: v.tensor for n, v in V.items()}
    try:
        layer.forward({}, optimizer_kwargs={})
    except RuntimeError:
        pass
    else:
        raise Violation("a layer whose objective changed afterwards ran")
    need(all(V[n].tensor is x for n, x in snap.items()), "a refused call changed variables")


SUBS = [Sub("history", case, check, 500, shards=(8, 8))]
