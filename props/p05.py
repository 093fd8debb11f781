import itertools
import math

import numpy as np
import torch
import torchlie as lie
import torchlie.functional as lf
from hypothesis import strategies as st

from vlib import gens, geomops as go, ref
from vlib.core import Skip, Sub, Violation
from vlib.th import DT, close, expect_raise, need, np_, with_flags

PROPERTY = "P05"
RULE = (
    "A case draws a functional operation, arbitrary leading batch shapes with broadcasting between operands (rank 0 to 3, "
    "non-contiguous views included) and elements with branch-weighted angles. Values, Jacobians and gradients are compared, "
    "element by element, with the operation applied to each element alone and with an independent numpy reference; helper "
    "identities and the Lie tensor type (also its constructors, conversions and in-place updates) are compared with the functional API. Non-trivial: more than one element, or a "
    "rank-0 or broadcast batch."
)
ASSUMPTIONS = ["element-by-element results may differ by rounding only, except next to branch thresholds where a case is skipped"]
FN = {"SO3": lf.SO3, "SE3": lf.SE3}
UN = ["exp", "log", "adj", "inv", "hat", "vee", "lift", "project", "normalize", "quaternion_to_rotation"]
BIN = ["compose", "transform", "untransform"]
JAC = ["exp", "log", "inv", "compose", "transform", "untransform", "quaternion_to_rotation"]


def data(g, X):
    return X if g == "SO3" else X[:3]


def operand(r, g, kind, shape, scale):
    """one operand as a numpy array of the given batch shape"""
    n = int(np.prod(shape, dtype=int))
    d = ref.dof(g)
    el = []
    for _ in range(max(n, 1)):
        x = r.normal(size=d) * scale
        k = {"SO3": 0, "SE3": 3}[g]
        a = np.linalg.norm(x[k:])
        if a > 3.0 and kind != "tangent":
            x[k:] *= 3.0 / a
        u = r.uniform()
        if u < 0.15:
            x[k:] = 0
        elif u < 0.3:
            x[k:] *= 2e-3 / max(a, 1e-9)
        elif u < 0.4:
            x[k:] *= (math.pi - 1e-3) / max(a, 1e-9)
        if kind == "tangent":
            el.append(x)
        elif kind == "group":
            el.append(data(g, ref.exp(g, x)))
        elif kind == "hat":
            el.append(ref.hat(g, x))
        elif kind == "matrix":
            el.append(r.normal(size=data(g, ref.exp(g, x)).shape))
        elif kind == "nearly":
            el.append(data(g, ref.exp(g, x)) + 0.05 * r.normal(size=data(g, ref.exp(g, x)).shape))
        elif kind == "point":
            el.append(r.normal(size=3) * 3)
        else:
            q = r.normal(size=4)
            el.append(q / np.linalg.norm(q))
    el = np.stack(el)
    return el[:n].reshape(tuple(shape) + el.shape[1:])


def kinds(op):
    return {
        "exp": ["tangent"], "log": ["group"], "adj": ["group"], "inv": ["group"], "hat": ["tangent"], "vee": ["hat"],
        "lift": ["tangent"], "project": ["matrix"], "normalize": ["nearly"], "quaternion_to_rotation": ["quat"],
        "compose": ["group", "group"], "transform": ["group", "point"], "untransform": ["group", "point"],
    }[op]


def item_ndim(g, kind):
    return 1 if kind in ("tangent", "point", "quat") else 2


@st.composite
def shapes(draw, n):
    S = draw(st.lists(st.integers(1, 3), max_size=3))
    if draw(st.integers(0, 11)) == 0 and S:
        S[draw(st.integers(0, len(S) - 1))] = 0
    out = [S]
    for _ in range(n - 1):
        k = draw(st.integers(0, len(S)))
        out.append([draw(st.sampled_from([v, v, 1])) for v in S[k:]])
    if n == 2 and draw(st.booleans()):
        out.reverse()
    return out


def layout(x, how):
    """same values with another memory layout"""
    if how == 1 and x.ndim > 1:  # reversed dimension order in memory
        return x.permute(*reversed(range(x.ndim))).contiguous().permute(*reversed(range(x.ndim)))
    if how == 2:  # a slice of something larger
        y = torch.zeros(tuple(x.shape[:-1]) + (x.shape[-1] + 2,), dtype=x.dtype)
        y[..., 1:-1] = x
        return y[..., 1:-1]
    return x


@st.composite
def case(draw):
    g = draw(st.sampled_from(["SO3", "SE3"]))
    op = draw(st.sampled_from(BIN * 3 + UN))
    if op == "quaternion_to_rotation":
        g = "SO3"
    return dict(g=g, op=op, shapes=draw(shapes(len(kinds(op)))), seed=draw(gens.seeds), dtype=draw(gens.dtypes),
                scale=draw(st.sampled_from([0.3, 1.0, 2.0])), lay=draw(st.lists(st.integers(0, 2), min_size=2, max_size=2)))


def bindex(shape, idx):
    """index of a broadcast operand for the output index idx"""
    idx = idx[len(idx) - len(shape):]
    return tuple(0 if s == 1 else i for s, i in zip(shape, idx))


def reference(g, op, xs):
    M = lambda d: ref.from_data(g, d)
    if op == "exp":
        return data(g, ref.exp(g, xs[0]))
    if op == "log":
        return ref.log(g, M(xs[0]))
    if op == "adj":
        return ref.adj(g, M(xs[0]))
    if op == "inv":
        return data(g, ref.inv(g, M(xs[0])))
    if op == "hat":
        return ref.hat(g, xs[0])
    if op == "vee":
        return ref.vee(g, xs[0])
    if op == "compose":
        return data(g, M(xs[0]) @ M(xs[1]))
    if op == "transform":
        return ref.act(g, M(xs[0]), xs[1])
    if op == "untransform":
        return ref.act(g, ref.inv(g, M(xs[0])), xs[1])
    return None


def check(c, t):
    g, op, dt = c["g"], c["op"], c["dtype"]
    fn = getattr(FN[g], op)
    r = gens.rng(c["seed"])
    ks = kinds(op)
    arrs = [operand(r, g, k, s, c["scale"]) for k, s in zip(ks, c["shapes"])]
    args = [layout(torch.tensor(a, dtype=DT[dt]), l) for a, l in zip(arrs, c["lay"])]
    S = np.broadcast_shapes(*[tuple(s) for s in c["shapes"]])
    t.label(op, g, "rank %d" % len(S), "broadcast" if len({tuple(s) for s in c["shapes"]}) > 1 else "", "empty" if 0 in S else "")
    t.nontrivial(len(S) == 0 or np.prod(S) > 1)
    keep = [a.clone() for a in args]
    leaves = [a.detach().clone() if l != 1 else a.detach() for a, l in zip(args, c["lay"])]
    leaves = [a.requires_grad_(True) for a in leaves]
    plain = fn(*args)
    need(plain.dtype == DT[dt], f"{g}.{op}: dtype {plain.dtype}")
    need(tuple(plain.shape[:len(S)]) == S, f"{g}.{op}: batch shape {tuple(plain.shape)} for operand shapes {c['shapes']}")
    variants = {}
    if op in JAC:
        jl = []
        variants["jacobians="] = (fn(*args, jacobians=jl), jl)
        js, ret = getattr(FN[g], "j" + op)(*args)
        if op == "quaternion_to_rotation" and len(S) == 0:
            js, ret = [j.reshape(3, 4) for j in js], ret.reshape(3, 3)  # unbatched quaternions get a batch dimension
        variants["j" + op] = (ret, js)
    for k, a in zip(keep, args):
        need(torch.equal(k, a), f"{g}.{op} modified an operand")
    for n, (v, js) in variants.items():
        close(v, plain, 0 if dt == "float64" and op != "quaternion_to_rotation" else 1e-6, f"{g}.{op}: value with {n}")
        need(len(js) == len(args), f"{g}.{op}: {len(js)} Jacobians ({n})")
        for j in js:
            if op == "quaternion_to_rotation" and len(S) == 0 and j.ndim == 3:
                j = j[0]
            need(tuple(j.shape[:-2]) == S, f"{g}.{op}: Jacobian batch shape {tuple(j.shape)} for operand shapes {c['shapes']} ({n})")
    if 0 in S:
        return
    out = fn(*leaves)
    cot = torch.tensor(r.normal(size=tuple(out.shape)), dtype=DT[dt])
    grads = torch.autograd.grad((out * cot).sum(), leaves)
    acc = [torch.zeros_like(a) for a in args]
    s = 1 + max(float(a.abs().max()) for a in args) ** 2
    tol = (1e-9 if dt == "float64" else 2e-3) * s
    for idx in itertools.product(*[range(k) for k in S]):
        el = [a[bindex(sh, idx)].unsqueeze(0).clone().requires_grad_(True) for a, sh in zip(args, c["shapes"])]
        one = fn(*el)
        close(plain[idx], one[0], tol, f"{g}.{op} at {idx} of batch shape {S} vs. alone")
        want = reference(g, op, [np_(e[0]) for e in el])
        if want is not None and not (op == "log" and dt == "float32"):
            close(plain[idx], want, (1e-6 if dt == "float64" else 3e-3) * s, f"{g}.{op} at {idx} of batch shape {S} vs. reference")
        gr = torch.autograd.grad((one[0] * cot[idx]).sum(), el)
        for k in range(len(el)):
            acc[k][bindex(c["shapes"][k], idx)] += gr[k][0]
        if op in JAC:
            j1 = []
            fn(*[e.detach() for e in el], jacobians=j1)
            for n, (_, js) in variants.items():
                for k, (a, b) in enumerate(zip(js, j1)):
                    if op == "quaternion_to_rotation" and len(S) == 0 and a.ndim == 3:
                        a = a[0]
                    close(a[idx], b[0], tol * 10, f"{g}.{op}: Jacobian {k} at {idx} of batch shape {S} ({n}) vs. alone")
    for k in range(len(args)):
        gs = 1 + float(acc[k].abs().max())
        close(grads[k], acc[k], tol * gs * 10, f"{g}.{op}: gradient of operand {k} for operand shapes {c['shapes']} vs. element-wise sum")


# -------------------------------------------------------------------- gradient helper identities
@st.composite
def helper_case(draw):
    g = draw(st.sampled_from(["SO3", "SE3"]))
    return dict(g=g, op=draw(st.sampled_from(["lift", "left_act", "left_project", "hat"])), seed=draw(gens.seeds),
                batch=draw(st.lists(st.integers(1, 3), max_size=2)), outd=draw(st.lists(st.integers(1, 3), max_size=2)),
                cols=draw(st.integers(1, 5)), explicit=draw(st.booleans()), ones=draw(st.lists(st.booleans(), min_size=2, max_size=2)),
                lt=draw(st.booleans()))


def check_helper(c, t):
    g, op = c["g"], c["op"]
    fn = FN[g]
    r = gens.rng(c["seed"])
    S, D = tuple(c["batch"]), tuple(c["outd"])
    d = ref.dof(g)
    t.label(op, g, "rank %d+%d" % (len(S), len(D)))
    t.nontrivial(len(S) + len(D) > 0)
    if op == "lift":
        v = operand(r, g, "tangent", S, 1.0)
        M = operand(r, g, "matrix", S, 1.0)
        tv, tM = torch.tensor(v), torch.tensor(M)
        close((fn.lift(tv) * tM).sum((-1, -2)), (tv * fn.project(tM)).sum(-1), 1e-12 * 100, f"{g}: lift is not the adjoint of project")
        lt = lie.SO3 if g == "SO3" else lie.SE3
        close(lt.lift(tv), fn.lift(tv), 0, "ltype.lift")
        close(lt.project(tM), fn.project(tM), 0, "ltype.project")
        # projecting the data's tangent space basis at the identity
        for i in range(d):
            e = np.zeros(d)
            e[i] = 1
            D_ = data(g, ref.hat(g, e))
            close(fn.project(tM)[..., i], (M * D_).sum((-1, -2)), 1e-12 * 100, f"{g}.project component {i}")
        return
    if op == "hat":
        v = torch.tensor(operand(r, g, "tangent", S, 1.0))
        close(fn.vee(fn.hat(v)), v, 1e-15 * 10, f"{g}: vee(hat(v))")
        lt = lie.SO3 if g == "SO3" else lie.SE3
        close(lt.vee(lt.hat(v)), v, 1e-15 * 10, f"{g}: ltype.vee(ltype.hat(v))")
        return
    GS = tuple(1 if o and i < 2 else s for i, (s, o) in enumerate(itertools.zip_longest(S, c["ones"][:len(S)])))
    X = operand(r, g, "group", GS, 1.0)
    if op == "left_act":
        M = r.normal(size=S + D + (3, c["cols"]))
    else:
        M = r.normal(size=S + D + data(g, np.eye(3 if g == "SO3" else 4)).shape)
    leaves = [torch.tensor(X).requires_grad_(True), torch.tensor(M).requires_grad_(True)]
    kw = dict(dim_out=len(D)) if c["explicit"] else {}
    if c["lt"] and not c["explicit"]:
        lt = lie.from_tensor(leaves[0], lie.SO3 if g == "SO3" else lie.SE3)
        out = getattr(lt, op)(leaves[1])
    else:
        out = getattr(fn, op)(leaves[0], leaves[1], **kw)
    inv = lambda A: data(g, ref.inv(g, ref.from_data(g, A)))
    basis = [data(g, ref.hat(g, e)) for e in np.eye(d)]
    want = np.zeros(tuple(out.shape))
    need(tuple(out.shape[:len(S + D)]) == S + D, f"{g}.{op}: shape {tuple(out.shape)} for group {GS} and tensor {M.shape}")

    def value(A, m):
        if op == "left_act":
            return A[:3, :3] @ m
        # derivative of <m, A exp(xi)> with respect to xi
        return np.array([(m * data(g, ref.from_data(g, A) @ ref.hat(g, e))).sum() for e in np.eye(d)])
    for i in itertools.product(*[range(k) for k in S]):
        for j in itertools.product(*[range(k) for k in D]):
            want[i + j] = value(X[bindex(GS, i)], M[i + j])
    close(out, want, 1e-12 * 100, f"{g}.{op}: group batch {GS}, tensor batch {S}+{D}, dim_out {'given' if c['explicit'] else 'implied'}")
    cot = r.normal(size=want.shape)
    G = torch.autograd.grad((out * torch.tensor(cot)).sum(), leaves)
    dM = r.normal(size=M.shape)
    xi = r.normal(size=GS + (d,))
    w0 = w1 = 0.0
    h = 1e-6
    dX = np.zeros_like(X)
    for i in itertools.product(*[range(k) for k in S]):
        gi = bindex(GS, i)
        A = ref.from_data(g, X[gi])
        P, N = (data(g, A @ ref.exp(g, s * xi[gi])) for s in (h, -h))
        dX[gi] = data(g, A @ ref.hat(g, xi[gi]))
        for j in itertools.product(*[range(k) for k in D]):
            w0 += (cot[i + j] * (value(P, M[i + j]) - value(N, M[i + j]))).sum() / (2 * h)
            w1 += (cot[i + j] * value(X[gi], dM[i + j])).sum()
    close((np_(G[1]) * dM).sum(), np.float64(w1), 1e-9 * (1 + abs(w1)), f"{g}.{op}: gradient with respect to the tensor")
    close((np_(G[0]) * dX).sum(), np.float64(w0), 1e-6 * (1 + abs(w0) + np.abs(cot).sum()), f"{g}.{op}: gradient with respect to the group (batch {GS}, tensor {S}+{D})")


# ------------------------------------------------------------------------------ Lie tensor type
@st.composite
def lt_case(draw):
    g = draw(st.sampled_from(["SO3", "SE3"]))
    return dict(g=g, n=draw(st.integers(1, 4)), seed=draw(gens.seeds), dtype=draw(gens.dtypes), scale=draw(st.sampled_from([0.3, 1.0])),
                ops=draw(st.lists(st.tuples(st.integers(0, 13), st.integers(0, 4), st.integers(0, 4)), min_size=1, max_size=8)),
                module=draw(st.booleans()))


def check_lt(c, t):
    g, n, dt = c["g"], c["n"], DT[c["dtype"]]
    fn = FN[g]
    lt = lie.SO3 if g == "SO3" else lie.SE3
    r = gens.rng(c["seed"])
    raw = [torch.tensor(operand(r, g, "group", (n,), c["scale"]), dtype=dt) for _ in range(2)]
    X = [lt(raw[0]), lie.from_tensor(raw[1], lt)]
    M = [x.clone() for x in raw]
    t.label(g, c["dtype"])
    t.nontrivial(n > 1)
    tol = 1e-9 if c["dtype"] == "float64" else 1e-3
    call = lambda name, *a: (getattr(lie, name)(*a) if c["module"] and hasattr(lie, name) else getattr(a[0], name)(*a[1:]))
    for o, i, j in c["ops"]:
        i, j = i % len(X), j % len(X)
        x, m = X[i], M[i]
        y, k = X[j], M[j]
        pt = torch.tensor(r.normal(size=(n, 3)), dtype=dt)
        dv = torch.tensor(r.normal(size=(n, ref.dof(g))) * c["scale"], dtype=dt)
        new = None
        t.label("op %d" % o)
        if o == 0:
            new, raw_ = call("compose", x, y), fn.compose(m, k)
        elif o == 1:
            new, raw_ = x * y, fn.compose(m, k)
        elif o == 2:
            new, raw_ = call("inv", x), fn.inv(m)
        elif o == 3:
            new, raw_ = x.retract(dv), fn.compose(m, fn.exp(dv))
        elif o == 4:
            close(call("log", x), fn.log(m), 0, "LieTensor.log")
            js, v = call("jlog", x)
            j1 = []
            close(v, fn.log(m, jacobians=j1), 0, "jlog value")
            close(js[0], j1[0], 0, "jlog")
        elif o == 5:
            close(call("transform", x, pt), fn.transform(m, pt), 0, "transform")
            close(x @ pt, fn.transform(m, pt), 0, "@")
            js, v = call("jtransform", x, pt)
            w, v1 = fn.jtransform(m, pt)
            close(v, v1, 0, "jtransform value")
            [close(a, b, 0, "jtransform") for a, b in zip(js, w)]
        elif o == 6:
            close(call("untransform", x, pt), fn.untransform(m, pt), 0, "untransform")
            js, v = call("juntransform", x, pt)
            w, v1 = fn.juntransform(m, pt)
            close(v, v1, 0, "juntransform value")
            [close(a, b, 0, "juntransform") for a, b in zip(js, w)]
        elif o == 7:
            close(x.local(y), fn.log(fn.compose(fn.inv(m), k)), 0, "local")
            if c["module"]:
                close(lie.local(x, y), fn.log(fn.compose(fn.inv(m), k)), 0, "lie.local")
        elif o == 8:
            close(call("adj", x), fn.adj(m), 0, "adj")
            js, v = call("jinv", x)
            w, v1 = fn.jinv(m)
            close(v._t, v1, 0, "jinv value")
            close(js[0], w[0], 0, "jinv")
            js, v = call("jcompose", x, y)
            w, v1 = fn.jcompose(m, k)
            close(v._t, v1, tol, "jcompose value")
            [close(a, b, 0, "jcompose") for a, b in zip(js, w)]
        elif o == 9:
            new, raw_ = x.clone(), m.clone()
        elif o == 10:
            new, raw_ = lt.exp(dv), fn.exp(dv)
            js, v = lt.jexp(dv)
            w, v1 = fn.jexp(dv)
            close(v._t, v1, tol, "jexp value")
            close(js[0], w[0], 0, "jexp")
        elif o == 11:
            b = i % n
            z = x[b]
            need(isinstance(z, lie.LieTensor) and z.ltype == lt, "indexing a LieTensor gives a LieTensor")
            close(z._t, m[b:b + 1], 0, "indexing")
            z = torch.cat([x, y])
            need(isinstance(z, lie.LieTensor) and z.ltype == lt, "concatenating LieTensors gives a LieTensor")
            close(z._t, torch.cat([m, k]), 0, "torch.cat")
            z = x[b:]
            close(z._t, m[b:], 0, "slicing")
        elif o == 12:
            other = torch.float32 if dt == torch.float64 else torch.float64
            z = x.to(other)
            need(isinstance(z, lie.LieTensor) and z.dtype == other and z.ltype == lt, "LieTensor.to")
            close(z._t, m.to(other), 0, "LieTensor.to")
            z = x.new_lietensor(m.clone())
            need(isinstance(z, lie.LieTensor) and z.ltype == lt and z.dtype == dt, "new_lietensor")
            close(z._t, m, 0, "new_lietensor")
            need(tuple(x.shape) == tuple(m.shape) and x.ndim == m.ndim and x.dtype == dt, "shape, ndim and dtype of a LieTensor")
            with lie.as_euclidean():
                e = torch.add(x, x, alpha=2.0)
            need(not isinstance(e, lie.LieTensor), "Euclidean arithmetic gives a plain tensor")
            close(e, 3.0 * m, tol, "arithmetic as Euclidean tensor")
        else:
            expect_raise(lambda: x + y, "adding two LieTensors", NotImplementedError)
            expect_raise(lambda: x * m, "'*' with a plain tensor", TypeError)
            expect_raise(lambda: x @ y, "'@' with a LieTensor", TypeError)
            expect_raise(lambda: x.local(m), "local with a plain tensor", TypeError)
            oth = (lie.SE3 if g == "SO3" else lie.SO3).rand(n, dtype=dt)
            expect_raise(lambda: x.compose(oth), "composing different types", ValueError)
            expect_raise(lambda: x.local(oth), "local of different types", ValueError)
            expect_raise(lambda: x.set_(oth), "set_ with another type", RuntimeError)
            expect_raise(lambda: x.add_(m), "adding a plain tensor in place", RuntimeError)
            expect_raise(lambda: x.addcmul_(m, m, value=0.1), "addcmul_ with plain tensors", RuntimeError)
            expect_raise(lambda: x.addcdiv_(m, torch.ones_like(m), value=0.1), "addcdiv_ with plain tensors", RuntimeError)
        for a, b in zip(X, M):
            close(a._t, b, tol, "an operation changed another LieTensor")
        if new is not None:
            need(isinstance(new, lie.LieTensor) and new.ltype == lt, f"operation {o} returned {type(new).__name__}")
            need(new.dtype == dt, "operation changed the dtype")
            close(new._t, raw_, tol, f"LieTensor operation {o} vs. functional API")
            X.append(new)
            M.append(raw_.detach().clone())
    # gradients flow through the wrapper as through the raw tensors
    a, b = (m.clone().requires_grad_(True) for m in M[-2:])
    p, q = (m.clone().requires_grad_(True) for m in M[-2:])
    pt = torch.tensor(r.normal(size=(n, 3)), dtype=dt)
    w = torch.tensor(r.normal(size=(n, 3)), dtype=dt)
    u = lie.from_tensor(a, lt).compose(lie.from_tensor(b, lt).inv()).transform(pt)
    v = fn.transform(fn.compose(p, fn.inv(q)), pt)
    close(u, v, tol, "value of a LieTensor program")
    for k1, k2 in zip(torch.autograd.grad((u * w).sum(), [a, b]), torch.autograd.grad((v * w).sum(), [p, q])):
        close(k1.as_subclass(torch.Tensor), k2, tol * (1 + np.abs(np_(k2)).max()), "gradient through LieTensors")


# ------------------------------------------------------------------- making Lie tensors
@st.composite
def make_case(draw):
    return dict(g=draw(st.sampled_from(["SO3", "SE3"])), size=draw(st.lists(st.integers(1, 3), max_size=3)), seed=draw(gens.seeds), dtype=draw(gens.dtypes),
                to=draw(gens.dtypes), grad=draw(st.booleans()), cols=draw(st.integers(1, 3)))


def check_make(c, t):
    """identity, conversions, copies and module-level functions of Lie tensors"""
    g = c["g"]
    lt, fn = (lie.SO3, lf.SO3) if g == "SO3" else (lie.SE3, lf.SE3)
    dt, dt2 = DT[c["dtype"]], DT[c["to"]]
    S = tuple(c["size"])
    r = gens.rng(c["seed"])
    t.label(g, f"rank {len(S)}")
    t.nontrivial(len(S) > 0)
    I = np.broadcast_to(data(g, np.eye(3 if g == "SO3" else 4)), S + data(g, np.eye(3 if g == "SO3" else 4)).shape)
    for f, what in ((fn.identity, "functional identity"), (lt.identity, "identity")):
        i = f(*S, dtype=dt, requires_grad=c["grad"])
        need(i.dtype == dt and i.requires_grad == c["grad"] and i.is_leaf, f"{what}: dtype or requires_grad")
        i = (i._t if isinstance(i, lie.LieTensor) else i).detach()
        close(i, I, 0, what)
        i.view(-1, 3)[0].add_(1.0)  # each call gives data of its own
        j = f(*S, dtype=dt)
        close(j._t if isinstance(j, lie.LieTensor) else j, I, 0, what + " after changing the result of an earlier call")
    need(lt.identity(*S).dtype == torch.get_default_dtype(), "dtype of identity()")
    expect_raise(lambda: lt.identity(2.0), "identity of a float size", TypeError)
    m = torch.tensor(operand(r, g, "group", S, 1.0), dtype=dt)
    if S == ():
        m = m[None]
    m0 = m.clone()
    x = lie.from_tensor(m, lt)
    for f in (lie.as_lietensor, lie.cast):
        y = f(x, dtype=dt2)
        need(isinstance(y, lie.LieTensor) and y.ltype == lt and y.dtype == dt2, f"{f.__name__}: type or dtype")
        close(y._t, m.to(dt2), 0, f.__name__)
        y = f(m, ltype=lt, dtype=dt2)
        need(isinstance(y, lie.LieTensor) and y.ltype == lt and y.dtype == dt2, f"{f.__name__} of a tensor: type or dtype")
        close(y._t, m.to(dt2), 0, f"{f.__name__} of a tensor")
        expect_raise(lambda: f(m, dtype=dt), f"{f.__name__} of a tensor without a type", ValueError)
    for y, want, what in ((x.new_lietensor(m0.clone(), dtype=dt2), dt2, "another dtype"), (x.new_lietensor(x), dt, "a LieTensor"),
                          (x.new_lietensor(m0.tolist(), dtype=dt), dt, "nested lists"), (lt(m), dt, "calling the type")):
        need(isinstance(y, lie.LieTensor) and y.ltype == lt and y.dtype == want, f"new_lietensor of {what}: type or dtype")
        close(y._t, m.to(want), 0, f"new_lietensor of {what}")
    M = torch.tensor(r.normal(size=tuple(m.shape[:-2]) + (3, c["cols"])), dtype=dt)
    close(lie.left_act(x, M), fn.left_act(m, M), 0, "lie.left_act")
    P_ = torch.tensor(r.normal(size=tuple(m.shape)), dtype=dt)
    close(lie.left_project(x, P_), fn.left_project(m, P_), 0, "lie.left_project")
    dv = torch.tensor(r.normal(size=tuple(m.shape[:-2]) + (ref.dof(g),)), dtype=dt)
    z = x.retract(dv)
    need(isinstance(z, lie.LieTensor) and z.ltype == lt, "retract: type")
    close(z._t, fn.compose(m, fn.exp(dv)), 1e-5 if dt == torch.float32 else 1e-12, "retract")
    y = x.clone()
    need(isinstance(y, lie.LieTensor) and y.ltype == lt and y.dtype == dt, "clone of a LieTensor: type or dtype")
    close(y._t, m, 0, "clone of a LieTensor")
    y.set_(lie.from_tensor(fn.exp(dv), lt))
    need(torch.equal(m, m0) and torch.equal(x._t, m0), "the data given to a LieTensor were changed")


# ------------------------------------------------------------------- data of the wrong shape
WRONG = {
    "tangent": dict(SO3=[(2,), (4,), (6,), (3, 1)], SE3=[(5,), (3,), (7,), (6, 1)]),
    "group": dict(SO3=[(3, 4), (2, 2), (4, 4), (3, 1)], SE3=[(3, 3), (4, 4), (4, 3), (3, 5)]),
    "hat": dict(SO3=[(2, 2), (4, 4), (3, 4)], SE3=[(3, 4), (3, 3), (6, 6)]),
    "matrix": dict(SO3=[(2, 3), (4, 4), (3, 1)], SE3=[(3, 3), (4, 4)]),
    "nearly": dict(SO3=[(2, 3), (4, 4)], SE3=[(3, 3), (4, 4)]),
    "point": dict(SO3=[(2,), (4,), (3, 1)], SE3=[(2,), (4,), (3, 1)]),
    "quat": dict(SO3=[(3,), (5,), (4, 1)]),
}


@st.composite
def wrong_case(draw):
    g = draw(st.sampled_from(["SO3", "SE3"]))
    op = draw(st.sampled_from([o for o in UN + BIN if not (g == "SE3" and o == "quaternion_to_rotation")]))
    k = draw(st.integers(0, len(kinds(op)) - 1))
    return dict(g=g, op=op, k=k, item=list(draw(st.sampled_from(WRONG[kinds(op)[k]][g]))), lead=draw(st.lists(st.integers(2, 3), max_size=2)),
                jac=draw(st.booleans()), seed=draw(gens.seeds), dtype=draw(gens.dtypes))


def check_wrong(c, t):
    """items of the wrong shape are rejected by every operation, whatever the leading batch shape"""
    g, op = c["g"], c["op"]
    if not hasattr(FN[g], op):
        raise Skip("no such operation")
    f = getattr(FN[g], "j" + op if c["jac"] and op in JAC else op)
    r = gens.rng(c["seed"])
    ks = kinds(op)
    args = [operand(r, g, k, tuple(c["lead"]), 1.0) for k in ks]
    f(*[torch.tensor(a, dtype=DT[c["dtype"]]) for a in args])
    args[c["k"]] = r.normal(size=tuple(c["lead"]) + tuple(c["item"]))
    t.label(g, ks[c["k"]])
    t.nontrivial()
    expect_raise(lambda: f(*[torch.tensor(a, dtype=DT[c["dtype"]]) for a in args]),
                 f"{g}.{op} of a {ks[c['k']]} operand of shape {tuple(c['lead']) + tuple(c['item'])}", ValueError)


# ------------------------------------------------------------------- function transforms of torch
VOPS = ["exp", "log", "adj", "inv", "hat", "lift", "project", "normalize", "compose", "transform", "untransform", "left_act", "left_project"]


@st.composite
def vmap_case(draw):
    return dict(g=draw(st.sampled_from(["SO3", "SE3"])), op=draw(st.sampled_from(VOPS)), n=draw(st.integers(1, 4)), seed=draw(gens.seeds),
                inner=draw(st.booleans()), in1=draw(st.booleans()), scale=draw(st.sampled_from([0.3, 1.0, 2.0])))


def check_vmap(c, t):
    g, op, n = c["g"], c["op"], c["n"]
    fn = getattr(FN[g], op)
    r = gens.rng(c["seed"])
    ks = ["group", "matrix"] if op.startswith("left") else kinds(op)
    args = [torch.tensor(operand(r, g, k, (n,), c["scale"])) for k in ks]
    if c["inner"]:
        args = [a.unsqueeze(1) for a in args]
    t.label(g, op)
    t.nontrivial(n > 1)
    want = [fn(*[a[i] for a in args]) for i in range(n)]
    dims = [0] * len(args)
    vals = list(args)
    if c["in1"] and len(args) == 2:  # the second operand is shared by all elements
        vals[1], dims[1] = args[1][0], None
        want = [fn(args[0][i], args[1][0]) for i in range(n)]
    out = torch.vmap(fn, in_dims=tuple(dims))(*vals)
    close(out, torch.stack(want), 1e-12 * 1e3, f"vmap of {g}.{op}")
    if op == "normalize":
        return
    J = torch.vmap(torch.func.jacrev(fn, argnums=tuple(range(len(args)))), in_dims=tuple(dims))(*vals)
    for i in range(n):
        el = [(v[i] if d == 0 else v).clone().requires_grad_(True) for v, d in zip(vals, dims)]
        o = fn(*el)
        w = torch.tensor(r.normal(size=tuple(o.shape)))
        G = torch.autograd.grad((o * w).sum(), el)
        for k, x in enumerate(G):
            got = (J[k][i].reshape((o.numel(),) + tuple(x.shape)) * w.reshape((-1,) + (1,) * x.ndim)).sum(0)
            close(got, x, 1e-9 * (1 + float(x.abs().max())), f"vmap of the derivative of {g}.{op}, operand {k}")


SUBS = [
    Sub("shapes", *with_flags(case, check), 900, shards=(4, 8)),
    Sub("helpers", helper_case, check_helper, 400, shards=(2, 4)),
    Sub("make", make_case, check_make, 200, shards=(1, 2)),
    Sub("wrong", wrong_case, check_wrong, 300, shards=(1, 2)),
    Sub("vmap", vmap_case, check_vmap, 200, shards=(2, 4)),
    Sub("lietensor", *with_flags(lt_case, check_lt), 300, shards=(2, 4)),
]
