import copy
import math

import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st

from vlib import costs, gens, ref
from vlib.core import Skip, Sub, Violation
from vlib.th import DT, cls, close, expect_raise, need, np_

PROPERTY = "P13"
RULE = (
    "A case draws 1-3 optimisation variables of any manifold, up to 3 auxiliary variables (manifolds, plain 2-D and 3-D "
    "tensors) with singleton or full batches, and an error function built from 1-4 random terms (local differences, "
    "logarithms, relative poses, transformed points, raw data, polynomials and sines, products of variables, matrix-vector "
    "products) mixed by constant matrices; the same function is written with numpy. One cost function per differentiation "
    "mode runs the same history of updates, copies, conversions and evaluations. Error and Jacobians are compared with the "
    "numpy function and its central differences along right perturbations, the modes with one another. The library's own Jacobian "
    "checkers must accept exact and reject wrong Jacobians. Non-trivial: a full "
    "batch mixed with a singleton one, or a Lie variable together with an auxiliary one."
)
ASSUMPTIONS = [
    "the error function is a pure batched function of the variables it is given and uses all of them",
    "logarithms are evaluated away from rotations by pi, where they are not differentiable",
]

GROUPS = ["R1", "R2", "R3", "Point2", "Point3", "SO2", "SE2", "SO3", "SE3"]
POINT_OF = {"SO2": "Point2", "SE2": "Point2", "SO3": "Point3", "SE3": "Point3"}
AUXK = ["SO2", "SE2", "SO3", "SE3", "R2", "Point3", "plain", "plain", "matrix"]


# -------------------------------------------------------------- error functions, twice
def term_dim(tm, G):
    k, a = tm["k"], tm["a"]
    g = G[a]
    if k in ("local", "log", "between", "revlocal"):
        return ref.dof(g)
    if k == "data":
        return int(np.prod(shape_of(g)))
    if k in ("act", "actinv"):
        return ref.dof(POINT_OF[g])
    if k in ("sin", "square", "id"):
        return int(np.prod(shape_of(g)))
    if k == "outer":
        return 1
    if k == "matvec":
        return 2
    raise AssertionError(k)


def shape_of(g):
    if g == "plain":
        return (2,)
    if g == "matrix":
        return (2, 3)
    if ref.is_vec(g):
        return (ref.dof(g),)
    return {"SO2": (2,), "SE2": (4,), "SO3": (3, 3), "SE3": (3, 4)}[g]


def is_plain(g):
    return g in ("plain", "matrix")


def term_th(tm, v):
    k, x = tm["k"], v[tm["a"]]
    y = v[tm["b"]] if tm.get("b") is not None else None
    if k == "local":
        return x.local(y)
    if k == "revlocal":
        return y.local(x)
    if k == "log":
        return x.log_map()
    if k == "between":
        return x.between(y).log_map()
    if k in ("data", "id"):
        return x.tensor.flatten(1)
    if k == "act":
        p = x.transform_from(y) if isinstance(x, (th.SE2, th.SE3)) else x.rotate(y)
        return p.tensor if isinstance(p, th.Variable) else p
    if k == "actinv":
        p = x.transform_to(y) if isinstance(x, (th.SE2, th.SE3)) else x.unrotate(y)
        return p.tensor if isinstance(p, th.Variable) else p
    if k == "sin":
        return x.tensor.flatten(1).sin()
    if k == "square":
        return x.tensor.flatten(1) ** 2
    if k == "outer":
        return x.tensor.flatten(1).sum(1, keepdim=True) * y.tensor.flatten(1).sum(1, keepdim=True)
    if k == "matvec":
        return (y.tensor @ x.tensor[..., None]).squeeze(-1)


def term_np(tm, v, G):
    k, g = tm["k"], G[tm["a"]]
    x = v[tm["a"]]
    y = v[tm["b"]] if tm.get("b") is not None else None

    def flat(z, gg):
        return (z if is_plain(gg) else ref.to_data(gg, z)).reshape(-1)

    if k == "local":
        return ref.log(g, ref.compose(g, ref.inv(g, x), y))
    if k == "revlocal":
        return ref.log(g, ref.compose(g, ref.inv(g, y), x))
    if k == "log":
        return ref.log(g, x)
    if k == "between":
        return ref.log(g, ref.compose(g, ref.inv(g, x), y))
    if k in ("data", "id"):
        return flat(x, g)
    if k == "act":
        return ref.act(g, x, y)
    if k == "actinv":
        return ref.act(g, ref.inv(g, x), y)
    if k == "sin":
        return np.sin(flat(x, g))
    if k == "square":
        return flat(x, g) ** 2
    if k == "outer":
        return np.array([flat(x, g).sum() * flat(y, G[tm["b"]]).sum()])
    if k == "matvec":
        return y @ x


def log_angle(tm, v, G):
    """rotation angle of a logarithm taken by the term (0 < angle < pi), or None"""
    if tm["k"] not in ("local", "revlocal", "log", "between"):
        return None
    g = G[tm["a"]]
    if g not in ref.LIE:
        return None
    xi = term_np(tm, v, G)
    return float(np.linalg.norm(xi[{"SO2": 0, "SE2": 2, "SO3": 0, "SE3": 3}[g]:]))


class Fn:
    """An error function in torch over variables and in numpy over matrices; roles are o0.., a0.."""

    def __init__(self, c):
        self.c = c
        self.G = {**{f"o{i}": g for i, g in enumerate(c["optim"])}, **{f"a{i}": g for i, g in enumerate(c["aux"])}}
        r = gens.rng(c["seed"] + 5)
        self.dim = c["dim"]
        self.M = [r.normal(size=(self.dim, term_dim(tm, self.G))) for tm in c["terms"]]
        self.no, self.na = len(c["optim"]), len(c["aux"])
        self.fail = False
        self.seen = []

    def mix(self, ys, prod, tanh):
        s = ys[0]
        for i, y in enumerate(ys[1:]):
            s = s * y if self.c["prod"] and i == 0 else s + y
        return tanh(s) if self.c["tanh"] else s

    def th(self, optim_vars, aux_vars):
        if self.fail:
            raise RuntimeError("error function failed on purpose")
        need(isinstance(optim_vars, tuple) and isinstance(aux_vars, tuple), "error function receives tuples of variables")
        need(len(optim_vars) == self.no and len(aux_vars) == self.na, "number of variables given to the error function")
        v = {**{f"o{i}": x for i, x in enumerate(optim_vars)}, **{f"a{i}": x for i, x in enumerate(aux_vars)}}
        for n, g in self.G.items():
            need(type(v[n]) is (th.Variable if is_plain(g) else cls(g)), f"type of variable {n} given to the error function")
        ys = [term_th(tm, v) @ torch.as_tensor(M.T, dtype=v["o0"].dtype) for tm, M in zip(self.c["terms"], self.M)]
        return self.mix(ys, None, torch.tanh)

    def np(self, v):
        ys = [self.M[i] @ term_np(tm, v, self.G) for i, tm in enumerate(self.c["terms"])]
        return self.mix(ys, None, np.tanh)


@st.composite
def fn_case(draw, groups=GROUPS, euclid=False):
    optim = draw(st.lists(st.sampled_from(groups), min_size=1, max_size=3))
    aux = draw(st.lists(st.sampled_from([a for a in AUXK if not euclid or is_plain(a) or ref.is_vec(a)]), max_size=3))
    G = {**{f"o{i}": g for i, g in enumerate(optim)}, **{f"a{i}": g for i, g in enumerate(aux)}}
    terms, used = [], set()

    def options(n):
        g = G[n]
        out = []
        if is_plain(g):
            return out
        out.append(("data", None))
        if g in ref.LIE:
            out.append(("log", None))
        else:
            out += [("sin", None), ("square", None)]
        for m, h in G.items():
            if m == n:
                continue
            if h == g:
                out += [("local", m), ("revlocal", m), ("between", m)]
            if POINT_OF.get(g) == h:
                out += [("act", m), ("actinv", m)] * 2
            if h == "matrix" and shape_of(g) == (3,):
                out.append(("matvec", m))
            out.append(("outer", m))
        return out

    for n in [x for x in G if x[0] == "o"]:
        if n in used and draw(st.booleans()):
            continue
        k, m = draw(st.sampled_from(options(n)))
        terms.append(dict(k=k, a=n, b=m))
        used |= {n, m}
    for n in G:
        if n not in used:  # every variable is used
            if n[0] == "o":
                terms.append(dict(k="data", a=n, b=None))
            else:
                terms.append(dict(k=draw(st.sampled_from(["outer"])), a="o0", b=n))
            used.add(n)
    terms = list(draw(st.permutations(terms)))
    B = draw(st.integers(1, 4))
    return dict(optim=optim, aux=aux, terms=terms, dim=draw(st.integers(1, 4)), prod=draw(st.integers(0, 3)) == 0,
                tanh=draw(st.integers(0, 3)) == 0, B=B, single=draw(st.lists(st.booleans(), min_size=6, max_size=6)),
                seed=draw(gens.seeds), scale=draw(st.sampled_from([0.3, 1.0, 1.0])), same=draw(st.integers(0, 7)) == 0)


def draw_values(f, c, seed, B, single):
    """values of every role: list of matrices / arrays per batch element (length 1 or B)"""
    r = gens.rng(seed)
    out, by_g = {}, {}
    for i, (n, g) in enumerate(f.G.items()):
        k = 1 if single[i] else B
        if is_plain(g):
            out[n] = [r.normal(size=shape_of(g)) for _ in range(k)]
        elif c["same"] and g in by_g and g in ref.LIE and len(by_g[g]) == k:
            out[n] = by_g[g]  # identical elements: logarithms at the identity
        else:
            out[n] = [ref.exp(g, r.normal(size=ref.dof(g)) * c["scale"]) for _ in range(k)]
            by_g[g] = out[n]
    return out


def at(vals, b):
    return {n: x[b if len(x) > 1 else 0] for n, x in vals.items()}


def tensor_of(g, xs, dt):
    return torch.tensor(np.stack([x if is_plain(g) else ref.to_data(g, x) for x in xs]), dtype=dt)


def usable(f, vals, B):
    lo, hi = math.inf, 0.0
    for b in range(B):
        v = at(vals, b)
        for tm in f.c["terms"]:
            a = log_angle(tm, v, f.G)
            if a is not None:
                lo, hi = min(lo, a), max(hi, a)
    return lo, hi


def reference(f, vals, B):
    E = np.stack([f.np(at(vals, b)) for b in range(B)])
    J = []
    eps = 1e-5
    for i in range(f.no):
        n = f"o{i}"
        g = f.G[n]
        d = ref.dof(g)
        Ji = np.zeros((B, f.dim, d))
        for b in range(B):
            v = at(vals, b)
            for k in range(d):
                x = np.zeros(d)
                x[k] = eps
                vp, vm = dict(v), dict(v)
                vp[n] = ref.compose(g, v[n], ref.exp(g, x))
                vm[n] = ref.compose(g, v[n], ref.exp(g, -x))
                Ji[b, :, k] = (f.np(vp) - f.np(vm)) / (2 * eps)
        J.append(Ji)
    return E, J


def make_vars(f, vals, dt):
    return {n: (th.Variable if is_plain(g) else cls(g))(tensor=tensor_of(g, vals[n], dt), name=n) for n, g in f.G.items()}


def make_cf(f, V, mode, opts, name):
    return th.AutoDiffCostFunction([V[f"o{i}"] for i in range(f.no)], f.th, f.dim, aux_vars=[V[f"a{i}"] for i in range(f.na)],
                                   cost_weight=th.ScaleCostWeight(th.Variable(torch.full((1, 1), 2.0, dtype=V["o0"].dtype), name=f"w_{name}")),
                                   autograd_mode=mode, name=name, **opts)


# ------------------------------------------------------------------- history
@st.composite
def hist_case(draw):
    euclid = draw(st.integers(0, 4)) == 0
    c = draw(fn_case(["R1", "R2", "R3", "Point2", "Point3"] if euclid else GROUPS, euclid))
    c["euclid"] = euclid
    c["ops"] = draw(st.lists(st.fixed_dictionaries(dict(
        op=st.sampled_from(["eval", "eval", "update", "update", "batch", "copy", "deepcopy", "keepcopy", "objcopy", "to", "fail",
                            "badshape"]),
        seed=gens.seeds, B=st.integers(1, 4), single=st.lists(st.booleans(), min_size=6, max_size=6),
        no_grad=st.booleans(), weighted=st.booleans())), max_size=4))
    c["dt"] = draw(st.sampled_from(["float64", "float64", "float64", "float32"]))
    c["modes"] = [dict(m="vmap", o={}), dict(m="dense", o=draw(opts_st(euclid))), dict(m="loop_batch", o=draw(opts_st(euclid)))]
    c["enum"] = draw(st.booleans())
    return c


@st.composite
def opts_st(draw, euclid):
    o = dict(autograd_create_graph=draw(st.booleans()))
    k = draw(st.integers(0, 4))
    if k == 1:
        o["autograd_vectorize"] = True
        o["autograd_strategy"] = "forward-mode" if euclid and draw(st.booleans()) and not o["autograd_create_graph"] else "reverse-mode"
    elif k == 2:
        o["autograd_strict"] = True
        o["autograd_create_graph"] = False
    return o


def hist_check(c, t):
    f = Fn(c)
    dt = DT[c["dt"]]
    B = c["B"]
    vals = draw_values(f, c, c["seed"], B, c["single"])
    Vs = []
    for m in c["modes"]:
        V = make_vars(f, vals, dt)
        mode = th.AutogradMode[m["m"].upper()] if c["enum"] else (m["m"] if c["seed"] % 2 else m["m"].upper())
        Vs.append((m["m"], V, make_cf(f, V, mode, m["o"], f"cf_{m['m']}"), m["o"]))
        if c["euclid"]:
            t.label("euclid")
    used = [g for g in f.G.values()]
    for tm in c["terms"]:
        t.label(tm["k"])
    t.label(c["dt"], "same" if c["same"] else "generic", *(o for m in c["modes"] for o in m["o"] if m["o"][o]))
    ops = [dict(op="eval", seed=c["seed"], B=B, single=c["single"], no_grad=False, weighted=False)] + c["ops"] + [
        dict(op="eval", seed=c["seed"], B=B, single=c["single"], no_grad=bool(c["seed"] % 2), weighted=True)]

    def evaluate(o):
        nb = max(len(x) for x in vals.values())
        lo, hi = usable(f, vals, nb)
        if hi > math.pi - 0.15:
            t.label("near pi: skipped")
            return
        sizes = {len(x) for x in vals.values()}
        t.nontrivial(len(sizes) > 1 or (any(g in ref.LIE for g in c["optim"]) and f.na > 0))
        E, J = reference(f, vals, nb)
        f32 = Vs[0][1]["o0"].dtype == torch.float32
        sz = 1 + max([np.abs(E).max()] + [np.abs(j).max() for j in J])
        big = 1 + max(np.abs(M).max() for M in f.M)
        small = lo < (0.2 if f32 else 6e-3)
        etol = (2e-3 if f32 and small else 2e-5 if f32 else 3e-7 if small else 1e-10) * sz * big
        jtol = (3e-2 if f32 and small else 3e-4 if f32 else 1e-4 if small else 2e-7) * sz * big
        first = None
        for name, V, cf, opts in Vs:
            before = {n: (v.tensor, v.tensor.clone()) for n, v in V.items()}
            with torch.set_grad_enabled(not o["no_grad"]):
                e0 = cf.error()
                js, e1 = cf.weighted_jacobians_error() if o["weighted"] else cf.jacobians()
            w = 2.0 if o["weighted"] else 1.0
            for n, v in V.items():
                need(v.tensor is before[n][0] and torch.equal(v.tensor, before[n][1]), f"{n} was modified by an evaluation ({name})")
            need(len(js) == f.no, f"number of Jacobians ({name})")
            need(e0.dtype == V["o0"].dtype and all(j.dtype == V["o0"].dtype for j in js), f"dtype of the results ({name})")
            close(e0, E, etol, f"error ({name})")
            close(e1, w * E, w * etol, f"error given with the Jacobians ({name})")
            for i, j in enumerate(js):
                close(j, w * J[i], w * jtol, f"Jacobian of o{i} ({name})")
            if first is None:
                first = [np_(j) for j in js]
            else:
                for i, j in enumerate(js):
                    close(j, first[i], w * ((2e-2 if small else 1e-4) if f32 else 1e-6 if small else 1e-9) * sz * big,
                          f"Jacobian of o{i}: {name} against vmap")

    def update(vals, Vs, only=None):
        for name, V, cf, _ in Vs:
            for n, g in f.G.items():
                V[n].update(tensor_of(g, vals[n], V[n].dtype))

    for o in ops:
        op = o["op"]
        t.label(op)
        if op == "eval":
            evaluate(o)
        elif op in ("update", "batch"):
            nb = o["B"] if op == "batch" else max(len(x) for x in vals.values())
            vals = draw_values(f, c, o["seed"], nb, o["single"])
            update(vals, Vs)
            evaluate(o)
        elif op in ("copy", "deepcopy", "keepcopy", "objcopy"):
            new = []
            for k, (name, V, cf, opts) in enumerate(Vs):
                if op == "objcopy":
                    obj = th.Objective(dtype=V["o0"].dtype)
                    obj.add(cf)
                    cp = next(iter(obj.copy().cost_functions.values()))
                else:
                    cp = cf.copy() if op == "copy" else copy.deepcopy(cf) if op == "deepcopy" else cf.copy(keep_variable_names=True)
                need(type(cp) is th.AutoDiffCostFunction and cp.dim() == cf.dim(), "type and dimension of a copy")
                nv = {**{f"o{i}": v for i, v in enumerate(cp.optim_vars)}, **{f"a{i}": v for i, v in enumerate(cp.aux_vars)}}
                if op == "keepcopy":
                    need([v.name for v in nv.values()] == [v.name for v in V.values()], "variable names kept by the copy")
                for n in V:
                    need(nv[n] is not V[n] and torch.equal(nv[n].tensor, V[n].tensor), f"copied variable {n}")
                    # moving the original must not move the copy
                    V[n].update(tensor_of(f.G[n], draw_values(f, c, o["seed"], 2, [True] * 6)[n], V[n].dtype))
                new.append((name, nv, cp, opts))
                # the copy keeps the mode: in modes other than vmap create_graph decides whether Jacobians carry gradients
                if any(v.tensor.shape[0] for v in nv.values()):
                    need(grads_flow(cp, nv) == grads_flow(cf, V), f"copy of a {name} cost function differs in gradients of its Jacobians")
            Vs[:] = new
            evaluate(o)
        elif op == "to":
            nd = torch.float32 if Vs[0][1]["o0"].dtype == torch.float64 else torch.float64
            for _, V, cf, _ in Vs:
                cf.to(dtype=nd)
                for n in V:
                    need(V[n].dtype == nd, f"{n} was not converted")
            if nd == torch.float64:  # values were rounded before
                update(vals, Vs)
            evaluate(o)
            if nd == torch.float32:  # back, with exact values
                for _, V, cf, _ in Vs:
                    cf.to(dtype=torch.float64)
                update(vals, Vs)
                evaluate(o)
        elif op == "fail":
            f.fail = True
            for name, V, cf, _ in Vs:
                before = {n: v.tensor for n, v in V.items()}
                expect_raise(cf.error, f"failing error function ({name})", RuntimeError)
                expect_raise(cf.jacobians, f"failing error function ({name}, Jacobians)", RuntimeError)
                need(all(V[n].tensor is before[n] for n in V), "variables changed by a failed evaluation")
            f.fail = False
            evaluate(o)
        elif op == "badshape":
            for name, V, cf, opts in Vs:
                bad = th.AutoDiffCostFunction([V[f"o{i}"] for i in range(f.no)], f.th, f.dim + 1,
                                              aux_vars=[V[f"a{i}"] for i in range(f.na)], autograd_mode=name, name="bad")
                expect_raise(bad.error, "error function of another dimension", ValueError)
                expect_raise(bad.jacobians, "error function of another dimension (Jacobians)", ValueError)


def grads_flow(cf, V):
    """whether the Jacobians carry gradients towards a leaf optimisation variable"""
    old = V["o0"].tensor
    V["o0"].update(old.detach().clone().requires_grad_(True))
    try:
        js, _ = cf.jacobians()
        return any(j.requires_grad for j in js)
    finally:
        V["o0"].update(old)


# ------------------------------------------------ gradients through the Jacobians
@st.composite
def thru_case(draw):
    c = draw(fn_case())
    c["mode"] = draw(st.sampled_from(["vmap", "dense", "loop_batch"]))
    c["same"] = False
    return c


def thru_check(c, t):
    f = Fn(c)
    vals = draw_values(f, c, c["seed"], c["B"], c["single"])
    nb = max(len(x) for x in vals.values())
    lo, hi = usable(f, vals, nb)
    if hi > math.pi - 0.2 or lo < 2e-2:
        raise Skip("near a singularity of a logarithm")
    V = make_vars(f, vals, torch.float64)
    cf = make_cf(f, V, c["mode"], {}, "cf")
    r = gens.rng(c["seed"] + 9)
    W = [torch.tensor(r.normal(size=(nb, f.dim, ref.dof(g)))) for g in c["optim"]]
    We = torch.tensor(r.normal(size=(nb, f.dim)))

    def scal():
        js, e = cf.jacobians()
        return sum((w * j).sum() for w, j in zip(W, js)) + (We * e).sum()

    names = [n for n, g in f.G.items() if is_plain(g) or ref.is_vec(g)]
    t.label(c["mode"])
    if not names:
        raise Skip("no Euclidean variable to differentiate with respect to")
    t.nontrivial(len(c["terms"]) > 1)
    n = names[int(r.integers(len(names)))]
    base = V[n].tensor.detach().clone()
    leaf = base.clone().requires_grad_(True)
    V[n].update(leaf)
    v = scal()
    if v.requires_grad:
        (g,) = torch.autograd.grad(v, leaf, allow_unused=True)
        g = torch.zeros_like(base) if g is None else g
    else:
        g = torch.zeros_like(base)
    d = torch.tensor(r.normal(size=base.shape))
    eps = 1e-5
    out = []
    for s in (1, -1):
        V[n].update(base + s * eps * d)
        out.append(float(scal()))
    num = (out[0] - out[1]) / (2 * eps)
    sc = 1 + abs(num) + max(abs(x) for x in out) + float((g.abs() * d.abs()).sum())
    close(float((g * d).sum()), num, 1e-6 * sc / min(1.0, lo) ** 2, f"derivative of error and Jacobians with respect to {n} ({c['mode']})")


# ------------------------------------------------ construction
@st.composite
def ctor_case(draw):
    return dict(seed=draw(gens.seeds), key=draw(st.sampled_from(["", "Dense", "loop", "batch", "vmap ", "None", "auto"])),
                g=draw(st.sampled_from(GROUPS)))


def ctor_check(c, t):
    f = Fn(dict(optim=[c["g"]], aux=["plain"], terms=[dict(k="data", a="o0", b=None), dict(k="outer", a="o0", b="a0")], dim=2,
                prod=False, tanh=False, seed=c["seed"], scale=1.0, same=False))
    vals = draw_values(f, f.c, c["seed"], 2, [False] * 2)
    V = make_vars(f, vals, torch.float64)
    t.nontrivial(True)
    kw = dict(aux_vars=[V["a0"]], cost_weight=th.ScaleCostWeight(torch.ones(1, 1, dtype=torch.float64)))
    expect_raise(lambda: th.AutoDiffCostFunction([], f.th, 2, **kw), "no optimisation variables", ValueError)
    if c["key"].upper() not in ("DENSE",):
        expect_raise(lambda: th.AutoDiffCostFunction([V["o0"]], f.th, 2, autograd_mode=c["key"], **kw), f"mode {c['key']!r}", ValueError)
    expect_raise(lambda: th.AutoDiffCostFunction([V["o0"]], f.th, 2, autograd_mode=3, **kw), "mode 3", ValueError)
    expect_raise(lambda: th.AutoDiffCostFunction([V["o0"], V["o0"]], f.th, 2, **kw), "a variable given twice")
    expect_raise(lambda: th.AutoDiffCostFunction([V["o0"]], f.th, 2, aux_vars=[V["o0"]], cost_weight=kw["cost_weight"]),
                 "a variable both optimised and auxiliary")
    E, J = reference(f, vals, 2)
    cf = th.AutoDiffCostFunction([V["o0"]], f.th, 2, **kw)
    need(cf.dim() == 2 and [v.name for v in cf.optim_vars] == ["o0"] and [v.name for v in cf.aux_vars] == ["a0"], "attributes")
    js, e = cf.jacobians()
    close(e, E, 1e-9 * (1 + np.abs(E).max()), "error with the default mode")
    close(js[0], J[0], 1e-6 * (1 + np.abs(J[0]).max()), "Jacobian with the default mode")


# ------------------------------------------------ the Jacobian checkers
class Wrong(th.CostFunction):
    """x^T-linear error A x + B y (vectors) with Jacobians off by a given matrix"""

    def __init__(self, x, y, A, B, dA, dB, w, name=None):
        super().__init__(w, name=name)
        self.x, self.y, self.A, self.B, self.dA, self.dB = x, y, A, B, dA, dB
        self.register_optim_vars(["x", "y"])
        self.register_aux_vars(["A", "B"])

    def error(self):
        return ((self.A.tensor @ self.x.tensor.unsqueeze(2)) + (self.B.tensor @ self.y.tensor.unsqueeze(2))).squeeze(2)

    def jacobians(self):
        e = self.error()
        return [(self.A.tensor + self.dA).expand(e.shape[0], -1, -1), (self.B.tensor + self.dB).expand(e.shape[0], -1, -1)], e

    def dim(self):
        return self.A.shape[1]

    def _copy_impl(self, new_name=None):
        return Wrong(self.x.copy(), self.y.copy(), self.A.copy(), self.B.copy(), self.dA, self.dB, self.weight.copy(), name=new_name)


@st.composite
def chk_case(draw):
    return dict(kind=draw(st.sampled_from(["linear", "linear", "library"])), seed=draw(gens.seeds), B=draw(st.integers(1, 3)), d=[draw(st.integers(1, 3)) for _ in range(3)],
                bad=draw(st.sampled_from([None, "x", "y"])), sign=draw(st.sampled_from([-1, 1])), tol=draw(st.sampled_from([1e-3, 1e-6, 0.1])), n=draw(st.integers(1, 3)),
                off=draw(st.sampled_from([0.3, 3.0, 100.0])), layer=draw(st.booleans()),
                c=draw(costs.spec(kinds=["local", "between", "dint"], dtypes=st.just("float64"))))


def chk_check(c, t):
    """check_jacobians accepts exact Jacobians, rejects an error beyond the tolerance in any single entry, and leaves all data alone"""
    import contextlib
    import io

    from theseus.utils import check_jacobians

    r = gens.rng(c["seed"])
    T = lambda *s: torch.tensor(r.normal(size=s))
    wrong = False
    if c["kind"] == "linear":
        m, dx, dy = c["d"]
        x, y = th.Vector(tensor=T(c["B"], dx), name="x"), th.Vector(tensor=T(c["B"], dy), name="y")
        A, B = th.Variable(T(c["B"], m, dx), name="A"), th.Variable(T(1, m, dy), name="B")
        dA, dB = torch.zeros(1, m, dx, dtype=torch.float64), torch.zeros(1, m, dy, dtype=torch.float64)
        if c["bad"]:
            D = dA if c["bad"] == "x" else dB
            D[0, int(r.integers(0, m)), int(r.integers(0, D.shape[2]))] = c["sign"] * c["off"] * c["tol"]
            wrong = c["off"] > 1
        cf = Wrong(x, y, A, B, dA, dB, th.ScaleCostWeight(torch.ones(1, 1, dtype=torch.float64)), name="cf")
        t.label("wrong" if wrong else "within tolerance" if c["bad"] else "exact")
        t.nontrivial(c["bad"] is not None)
    else:
        if c["tol"] < 1e-4 or c["c"]["g"] == "SO2":
            raise Skip("small angles are approximated; no SO2 sampling")
        cf = costs.Cost(c["c"]).build()
        t.label("library cost")
        t.nontrivial()
    keep = [(v, v.tensor, v.tensor.clone()) for v in list(cf.optim_vars) + list(cf.aux_vars)]
    torch.manual_seed(c["seed"] % 10**6)
    if c["layer"]:
        obj = th.Objective(dtype=torch.float64)
        obj.add(cf)
        obj.update()
        layer, out = th.TheseusLayer(th.GaussNewton(obj, linear_solver_cls=th.CholeskyDenseSolver)), io.StringIO()
        with contextlib.redirect_stdout(out):
            layer.verify_jacobians(num_checks=c["n"], tol=c["tol"])
        found = cf.name in out.getvalue() and "failed" in out.getvalue()
        need(found != ("successful" in out.getvalue()), f"verify_jacobians reports {out.getvalue()!r}")
    else:
        try:
            check_jacobians(cf, num_checks=c["n"], tol=c["tol"])
            found = False
        except RuntimeError:
            found = True
    need(found == wrong, f"Jacobian check of {'wrong' if wrong else 'right'} Jacobians ({type(cf).__name__}, largest deviation {c['off'] * c['tol'] if c['bad'] else 0}, "
         f"tolerance {c['tol']}) {'failed' if found else 'succeeded'}")
    for v, a, b in keep:
        need(v.tensor is a and torch.equal(a, b), f"checking Jacobians changed {v.name}")


# ------------------------------------------------- numerical helpers
@st.composite
def num_case(draw):
    n = draw(st.integers(1, 3))
    return dict(g=draw(st.sampled_from(["R2", "Point3", "SO2", "SE2", "SO3", "SE3"])), n=n, dt=draw(gens.dtypes), seed=draw(gens.seeds),
                op=draw(st.sampled_from(["compose", "inverse", "between", "act", "actinv", "vector"])), b=[draw(st.booleans()) for _ in range(2)],
                mag=draw(st.sampled_from([None, None, 1e-3, 3e-4])), dim=draw(st.integers(1, 3)))


def num_check(c, t):
    """numeric_jacobian and numeric_grad are the derivatives, gather_from_rows_cols the entries"""
    from theseus.utils import gather_from_rows_cols, numeric_grad, numeric_jacobian

    r = gens.rng(c["seed"])
    g, dt, op = c["g"], DT[c["dt"]], c["op"]
    if op in ("act", "actinv") and ref.is_vec(g):
        op = "compose"
    n = [c["n"] if b else 1 for b in c["b"]]
    B = max(n)
    tl = 1e-2 if dt == torch.float32 else 3e-6
    kw = {} if c["mag"] is None else dict(delta_mag=c["mag"])
    X = [[ref.exp(g, r.normal(size=ref.dof(g)) * 0.7) for _ in range(k)] for k in n]
    mk = lambda G, el: cls(G)(tensor=torch.tensor(np.stack([ref.to_data(G, m) for m in el]), dtype=dt))
    x, y = [mk(g, el) for el in X]
    keep = [v.tensor.clone() for v in (x, y)]
    J = []
    at = lambda el, i: el[i if len(el) > 1 else 0]
    if op == "compose":
        got = numeric_jacobian(lambda a: a[0].compose(a[1]), [x, y], **kw)
        x.compose(y, jacobians=J)
    elif op == "between":
        got = numeric_jacobian(lambda a: a[0].between(a[1]), [x, y], **kw)
        x.between(y, jacobians=J)
    elif op == "inverse":
        got = numeric_jacobian(lambda a: a[0].inverse(), [x], **kw)
        x.inverse(jacobian=J)
        B = n[0]
    elif op == "vector":  # a map to vectors of another dimension
        W = torch.tensor(r.normal(size=(c["dim"], ref.dof(g))), dtype=dt)
        z = mk(g, [m @ ref.exp(g, r.normal(size=ref.dof(g)) * 0.3) if not ref.is_vec(g) else m + 0.1 for m in X[0]])
        got = numeric_jacobian(lambda a: th.Vector(tensor=z.local(a[0]) @ W.T), [x], function_dim=c["dim"], **kw)
        lj = []
        z.local(x, jacobians=lj)
        J, B = [W @ lj[1]], n[0]
    else:
        G = POINT_OF[g]
        P_ = [r.normal(size=ref.dof(G)) for _ in range(n[1])]
        p = cls(G)(tensor=torch.tensor(np.stack(P_), dtype=dt))
        f = {"act": ["rotate", "transform_from"], "actinv": ["unrotate", "transform_to"]}[op][g in ("SE2", "SE3")]
        got = numeric_jacobian(lambda a: getattr(a[0], f)(a[1]), [x, p], function_dim=ref.dof(G), **kw)
        getattr(x, f)(p, jacobians=J)
    t.label(op, g)
    t.nontrivial(B > 1)
    need(len(got) == len(J), "number of numerical Jacobians")
    for k, (a, b) in enumerate(zip(got, J)):
        need(a.dtype == dt, "dtype of a numerical Jacobian")
        close(a, b.expand(B, -1, -1), tl * (1 + float(b.abs().max())), f"numeric_jacobian of {op}, argument {k}")
    for v, b0 in zip((x, y), keep):
        need(torch.equal(v.tensor, b0), "numeric_jacobian changed its argument")
    m = int(r.integers(1, 5))
    A, q = r.normal(size=(m, m)), r.normal(size=m)
    df = numeric_grad(lambda v: float(v @ A @ v + np.sin(v).sum()))
    close(df(q), (A + A.T) @ q + np.cos(q), 1e-6 * (1 + np.abs(A).sum()), "numeric_grad")
    h, w = int(r.integers(1, 5)), int(r.integers(1, 5))
    M = torch.tensor(r.normal(size=(n[0], h, w)), dtype=dt)
    nb = n[0] if n[0] > 1 else n[1]
    k = int(r.integers(1, 5))
    rows, cols = (torch.tensor(r.integers(0, s, size=(nb, k))) for s in (h, w))
    out = gather_from_rows_cols(M, rows, cols)
    close(out, np.array([[np_(M)[b if n[0] > 1 else 0, rows[b, j], cols[b, j]] for j in range(k)] for b in range(nb)]), 0, "gather_from_rows_cols")
    for what, i, s in (("row", 0, h), ("column", 1, w)):
        bad = [rows.clone(), cols.clone()]
        bad[i][0, 0] = s if r.integers(0, 2) else -1
        expect_raise(lambda: gather_from_rows_cols(M, *bad), f"{what} outside the matrix", AssertionError)


SUBS = [
    Sub("numeric", num_case, num_check, 150, shards=(1, 2)),
    Sub("history", hist_case, hist_check, 700, shards=(5, 6)),
    Sub("through", thru_case, thru_check, 500, shards=(2, 3)),
    Sub("construct", ctor_case, ctor_check, 60, shards=(1, 1)),
    Sub("checker", chk_case, chk_check, 200, shards=(1, 2)),
]
