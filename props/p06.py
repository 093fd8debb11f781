import math
import warnings

import numpy as np
import theseus as th
import torch
import torchlie
import torchlie.functional as lieF
from hypothesis import strategies as st
from scipy.spatial.transform import Rotation

from theseus.geometry.lie_group_check import silence_internal_warnings

from vlib import gens, ref
from vlib.core import Sub, Violation
from vlib.th import DT, close, cls, expect_raise, mats, need, np_

PROPERTY = "P06"
RULE = (
    "A case draws a group, dtype, batch and either elements written in every public representation (compared with the numpy "
    "model and converted back), a corruption of known size of valid data (must be rejected, normalised to the closest "
    "element or accepted, depending on the check settings), a tangent vector for hat and vee with corruptions of the hat "
    "matrix, or a random-sampling request (validity, reproducibility and first two moments). Non-trivial: more than one element or a non-identity rotation."
)
ASSUMPTIONS = [
    "data within a third of the documented tolerance counts as valid, beyond three times it as invalid",
    "zero quaternions and rank-deficient matrices represent no rotation and are outside the domain",
]
LIE = ref.LIE
ROTN = {"SO2": 2, "SE2": 2, "SO3": 3, "SE3": 3}


def tol_(dt):
    return 2e-6 if dt == "float32" else 1e-12


def dquat(R):
    q = Rotation.from_matrix(R).as_quat()
    return np.array([q[3], q[0], q[1], q[2]])


# ---------------------------------------------------------------- representations
@st.composite
def rep_case(draw):
    g = draw(st.sampled_from(LIE))
    n = draw(st.integers(1, 4))
    xs = draw(gens.batch(g, n, beyond_pi=True))
    if g in ("SO3", "SE3") and draw(st.integers(0, 5)) == 0:  # where float32 quaternions switch formulas
        x = xs[0]
        a = math.sqrt(sum(v * v for v in x[-3:]))
        if a > 1e-3:
            k = (math.pi - 10.0 ** draw(st.sampled_from([-2.5, -2.3, -2.0, -1.9, -1.85, -1.6]))) / a
            xs = [list(x[:-3]) + [v * k for v in x[-3:]]] + list(xs[1:])
    return dict(g=g, dt=draw(gens.dtypes), x=xs, neg=draw(st.booleans()),
                k=draw(st.sampled_from([1.0, 1.0, 2.5, 1e-3, 300.0, -1.0])), style=draw(st.integers(0, 3)),
                named=draw(st.booleans()))


def rep_check(c, t):
    g, dt = c["g"], DT[c["dt"]]
    n = len(c["x"])
    f32 = c["dt"] == "float32"
    tol = tol_(c["dt"])
    X = [ref.exp(g, x) for x in c["x"]]
    for x in c["x"]:
        gens.classify_tangent(g, x, t)
    t.label(g, c["dt"], f"style {c['style']}")
    t.nontrivial(n > 1 or any(np.abs(m - np.eye(len(m))).max() > 1e-12 for m in X))
    kw = dict(name="some") if c["named"] else {}
    nr = ROTN[g]

    def el(v, what, X=X, tl=tol):
        need(type(v) is cls(g), f"{what}: type {type(v).__name__}")
        need(v.dtype == dt, f"{what}: dtype {v.dtype}")
        sc = np.array([np.abs(m).max() for m in X]).max()
        got = mats(g, v)
        need(len(got) == len(X), f"{what}: batch {len(got)}")
        for i, (a, b) in enumerate(zip(got, X)):
            close(a, b, tl * max(1, sc), f"{what}, element {i}")
        need(not c["named"] or v.name == "some", f"{what}: name")
        # valid data by the class's own definition
        for m in got:
            close(m[:nr, :nr] @ m[:nr, :nr].T, np.eye(nr), tl * 4, f"{what}: orthogonality")

    data = torch.tensor(np.stack([ref.to_data(g, m) for m in X]), dtype=dt)
    snap = data.clone()
    v = cls(g)(tensor=data, strict_checks=bool(c["style"] % 2), **kw)
    need(torch.equal(v.tensor, data) and torch.equal(data, snap), "valid data must be taken as given")
    el(v, "tensor=")
    M = v.to_matrix()
    for i, m in enumerate(X):
        close(M[i], m, tol * max(1, np.abs(m).max()), "to_matrix")
    th_ = np.array([[x[-1]] for x in c["x"]])
    ang = torch.tensor(th_, dtype=dt)
    angtol = 4e-6 if f32 else 1e-12
    if g == "SO2":
        a = ang if c["style"] % 2 else ang.view(-1)
        w = th.SO2(theta=a, **kw)
        if c["style"] >= 2:
            w = th.SO2(dtype=dt, **kw)
            w.update_from_angle(ang)
        el(w, "from angle", tl=max(tol, angtol))
        for y in (w.theta(), w.log_map()):
            d = np_(y) - th_
            close((d + math.pi) % (2 * math.pi) - math.pi, 0 * d, max(tol, angtol), "theta() of an angle")
        need((np.abs(np_(w.theta())) <= math.pi + 1e-6).all(), "theta range")
        cs, sn = w.to_cos_sin()
        close(np.stack([np_(cs), np_(sn)], 1), np.stack([ref.to_data(g, m) for m in X]), max(tol, angtol), "to_cos_sin")
    if g == "SE2":
        xyt = torch.tensor(np.stack([np.r_[m[:2, 2], a] for m, a in zip(X, th_)]), dtype=dt)
        w = th.SE2(x_y_theta=xyt, **kw)
        if c["style"] == 1:
            w = th.SE2(dtype=dt, **kw)
            w.update_from_x_y_theta(xyt)
        if c["style"] == 2:
            w = th.SE2(dtype=dt, **kw)
            w.update_from_rot_and_trans(th.SO2(theta=ang), th.Point2(tensor=xyt[:, :2]))
        el(w, "from x, y, theta", tl=max(tol, angtol))
        d = np_(w.theta()).reshape(n, 1) - th_
        close((d + math.pi) % (2 * math.pi) - math.pi, 0 * d, max(tol, angtol), "theta()")
        for y in (w.xy(), w.translation):
            need(isinstance(y, th.Point2) and torch.equal(y.tensor, xyt[:, :2]), "translation of the given data")
        need(isinstance(w.rotation, th.SO2), "rotation type")
        for i, m in enumerate(X):
            close(np_(w.rotation.to_matrix())[i], m[:2, :2], max(tol, angtol), "rotation")
    if g in ("SO3", "SE3"):
        q = np.stack([dquat(m[:3, :3]) for m in X])
        qs = q * c["k"]
        if g == "SO3":
            qt = torch.tensor(qs, dtype=dt)
            if n == 1 and c["style"] == 3:
                qt = qt[0]
            w = th.SO3(quaternion=qt, **kw)
            if c["style"] == 1:
                w = th.SO3(dtype=dt, **kw)
                w.update_from_unit_quaternion(qt)
            if c["style"] == 2:
                w = th.SO3.unit_quaternion_to_SO3(qt)
                w.name = "some"
            el(w, "from quaternion")
            got = v.to_quaternion()
            need(tuple(got.shape) == (n, 4), "quaternion shape")
            close(lieF.SO3.quaternion_to_rotation(qt.view(-1, 4)), np.stack(X), tol, "functional quaternion_to_rotation")
        else:
            p = np.stack([m[:3, 3] for m in X])
            xq = torch.tensor(np.concatenate([p, qs], 1), dtype=dt)
            if n == 1 and c["style"] == 3:
                xq = xq[0]
            w = th.SE3(x_y_z_quaternion=xq, **kw)
            if c["style"] == 1:
                w = th.SE3(dtype=dt, **kw)
                w.update_from_x_y_z_quaternion(xq)
            if c["style"] == 2:
                w = th.SE3(dtype=dt, **kw)
                w.update_from_rot_and_trans(th.SO3(quaternion=torch.tensor(qs, dtype=dt)), th.Point3(tensor=torch.tensor(p, dtype=dt)))
            el(w, "from position and quaternion")
            need(isinstance(v.rotation(), th.SO3) and torch.equal(v.rotation().tensor, data[:, :, :3]), "rotation()")
            need(isinstance(v.translation(), th.Point3) and torch.equal(v.translation().tensor, data[:, :, 3]), "translation()")
            got = v.to_x_y_z_quaternion()
            need(tuple(got.shape) == (n, 7), "pose vector shape")
            need(torch.equal(got[:, :3], data[:, :, 3]), "position of the pose vector")
            got = got[:, 3:]
        a = np_(got)
        s = np.sign((a * q).sum(1, keepdims=True))
        # w is a square root of the trace: near pi (w small) its relative error grows like rounding / w^2
        w2 = np.maximum(q[:, :1] ** 2, 1e-4 if f32 else 1e-14)
        qtol = 1e-4 + 6e-7 / w2 if f32 else 1e-7 + 1e-15 / w2
        close(a * s, q, qtol, "quaternion of the rotation, up to sign")
        for i in range(n):
            if f32 and 1.5e-3 < abs(q[i, 0]) < 8e-3:  # near pi, the axis comes from the largest column
                close(a[i] * s[i], q[i], 4e-4, "quaternion of a rotation close to pi")
                t.label("quaternion near pi")
        close(np.linalg.norm(a, axis=1), np.ones(n), qtol[:, 0], "unit quaternion")
        back = th.SO3(quaternion=got)
        for i in range(n):
            close(np_(back.tensor)[i], X[i][:3, :3], 4 * qtol[i], "rotation of the quaternion of a rotation")
    # copies and the two data spellings are exclusive
    two = {"SO2": "theta", "SE2": "x_y_theta", "SO3": "quaternion", "SE3": "x_y_z_quaternion"}[g]
    expect_raise(lambda: cls(g)(**{two: torch.ones(1, {"SO2": 1, "SE2": 3, "SO3": 4, "SE3": 7}[g], dtype=dt), "tensor": data}),
                 f"both {two} and tensor", ValueError)
    if g != "SE2":
        bad = torch.ones(n, {"SO2": 2, "SO3": 3, "SE3": 6}[g], dtype=dt)
        expect_raise(lambda: cls(g)(**{two: bad}), f"{two} of shape {tuple(bad.shape)}", ValueError)
    need(torch.equal(data, snap), "data modified")


# ---------------------------------------------------------------- validation
EPS = {"float64": {2: 4e-7, 3: 1e-6}, "float32": {2: 1e-5, 3: 4e-4}}


@st.composite
def valid_case(draw):
    g = draw(st.sampled_from(LIE + ["R3", "Point2", "Point3"]))
    n = draw(st.integers(1, 4))
    return dict(g=g, dt=draw(gens.dtypes), x=draw(gens.batch(g, n)), who=draw(st.integers(0, n - 1)),
                how=draw(st.sampled_from(["scale", "entry", "reflect", "noise", "shear"])), seed=draw(gens.seeds),
                size=draw(st.sampled_from([0.0, 0.2, 5.0, 1e2, 1e5])), shape=draw(st.integers(0, 3)))


def nearest(R):
    U, S, Vt = np.linalg.svd(R)
    d = np.ones(len(S))
    d[-1] = np.linalg.det(U @ Vt)
    gap = (S[-2] + d[-1] * S[-1])
    return U @ np.diag(d) @ Vt, gap


def project(g, m):
    """closest element in the rotation part (Frobenius), and how well defined it is"""
    nr = ROTN[g]
    out = m.copy()
    if nr == 2:
        v = m[:2, 0]
        k = np.linalg.norm(v)
        out[:2, :2] = np.array([[v[0], -v[1]], [v[1], v[0]]]) / max(k, 1e-300)
        return out, k
    out[:3, :3], gap = nearest(m[:3, :3])
    return out, gap


def valid_check(c, t):
    g, dt = c["g"], DT[c["dt"]]
    C = cls(g)
    n = len(c["x"])
    data = np.stack([ref.to_data(g, ref.exp(g, x)) for x in c["x"]])
    t.label(g, c["dt"])
    if ref.is_vec(g):
        d = torch.tensor(data, dtype=dt)
        v = C(tensor=d)
        need(torch.equal(v.tensor, d) and v.dtype == dt and v.dof() == d.shape[1], "vector data")
        bad = [d[0], d.unsqueeze(-1), torch.cat([d, d], 1), d[:, :-1]][c["shape"]]
        if c["shape"] == 0:
            need(torch.equal(C(tensor=bad).tensor, bad[None]), "a single vector becomes a batch of one")
            expect_raise(lambda: v.update(bad), "update with a single vector", ValueError)
        elif g == "R3" and c["shape"] >= 2:
            expect_raise(lambda: v.update(bad), f"update with shape {tuple(bad.shape)}", ValueError)
        else:
            expect_raise(lambda: C(tensor=bad), f"{g} from shape {tuple(bad.shape)}", ValueError)
            expect_raise(lambda: v.update(bad), f"update with shape {tuple(bad.shape)}", ValueError)
        need(torch.equal(v.tensor, d), "variable changed by a rejected update")
        t.nontrivial(n > 1)
        return
    nr = ROTN[g]
    r = gens.rng(c["seed"])
    eps = EPS[c["dt"]][nr]
    base = torch.tensor(data, dtype=dt).double().numpy()
    size = c["size"] * eps
    E = data[c["who"]]  # view
    rows = E[..., :3] if nr == 3 else (E if g == "SO2" else E[2:])
    if c["how"] == "scale" or nr == 2 and c["how"] in ("shear", "reflect"):
        rows *= 1 + size
    elif c["how"] == "entry":
        i = tuple(r.integers(0, k) for k in rows.shape)
        rows[i] += size * (1 if rows[i] >= 0 else -1)
    elif c["how"] == "reflect":
        if c["size"] > 0.5:
            rows *= -1
    elif c["how"] == "shear":
        S = np.eye(3)
        S[0, 1] = size
        rows[:] = rows @ S
    else:
        rows += r.normal(size=rows.shape) * size
    d = torch.tensor(data, dtype=dt)
    a = d.double().numpy()
    R = a[..., :3] if nr == 3 else (a if g == "SO2" else a[:, 2:])
    if nr == 2:
        viol = np.abs(np.linalg.norm(R, axis=1) - 1).max()
    else:
        viol = max(np.abs(R @ R.transpose(0, 2, 1) - np.eye(3)).max(), np.abs(np.linalg.det(R) - 1).max())
    state = "valid" if viol < eps / 3 else "invalid" if viol > 3 * eps else "unclear"
    t.label(f"{state} {c['how']}")
    if state == "unclear":
        return
    t.nontrivial(state == "invalid" or n > 1)
    snap = d.clone()
    for f in (lambda: C(tensor=d, disable_checks=True), lambda: _ctx(th.no_lie_group_check(silent=True), lambda: C(tensor=d)),
              lambda: _ctx(th.set_lie_group_check_enabled(False, silent=True), lambda: C(tensor=d, strict_checks=True))):
        need(torch.equal(f().tensor, snap), "with checks disabled data must be taken as given")

    def strict():
        return C(tensor=d, strict_checks=True)

    def lenient():
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            v = C(tensor=d)
        return v, [str(x.message) for x in w if "normalized" in str(x.message)]

    with th.enable_lie_group_check():
        if state == "valid":
            need(torch.equal(strict().tensor, snap), "valid data must be taken as given")
            v, w = lenient()
            need(torch.equal(v.tensor, snap) and not w, "valid data must be taken as given, without a warning")
        else:
            expect_raise(strict, f"invalid {g} data (violation {viol:.3g}) with strict checks", ValueError)
            try:
                P = [project(g, ref.from_data(g, x) if nr == 3 else _mat2(g, x)) for x in a]
            except np.linalg.LinAlgError:
                P = None
            if P and min(k for _, k in P) > 1e-2:
                v, w = lenient()
                need(len(w) == 1, "normalisation without a warning")
                tl = (1e-4 if c["dt"] == "float32" else 1e-9) / min(min(k for _, k in P), 1) * max(1, np.abs(a).max())
                got = mats(g, v)
                for i in range(n):
                    close(got[i], P[i][0], tl, f"closest valid element, element {i}")
                need(torch.equal(C.normalize(d), v.tensor), "normalisation and construction differ")
                close(C.normalize(v.tensor), v.tensor, tl, "normalising twice")
                with silence_internal_warnings():
                    need(not lenient()[1], "warning although silenced")
    need(torch.equal(d, snap), "data modified")
    # functional API
    if nr == 3:
        F = getattr(lieF, g)
        with lieF.enable_checks():
            for f in (lambda: F.check_group_tensor(d), lambda: F.log(d), lambda: F.inv(d), lambda: F.compose(d, d),
                      lambda: getattr(torchlie, g)(d)):
                if state == "valid":
                    f()
                else:
                    expect_raise(f, f"functional {g} accepts invalid data (violation {viol:.3g})", ValueError)
        F.check_group_tensor(d)
    # shapes
    bad = [d[0], d.unsqueeze(-1), torch.cat([d, d], -1), d[..., :-1]][c["shape"]]
    expect_raise(lambda: C(tensor=bad), f"{g} from shape {tuple(bad.shape)}", ValueError)
    expect_raise(lambda: C(tensor=bad, disable_checks=True), f"{g} from shape {tuple(bad.shape)}", ValueError)
    expect_raise(lambda: C.normalize(bad), f"{g}.normalize of shape {tuple(bad.shape)}", ValueError)
    expect_raise(lambda: C(tensor=torch.tensor(base).to(torch.float16)), "half precision data")
    if n == 1:
        z = torch.zeros(1, 2, dtype=dt)
        close(th.SO2.normalize(z), np.array([[1.0, 0]]), 0, "zero vector normalises to the identity")


def _mat2(g, x):
    v = x if g == "SO2" else x[2:]
    m = np.array([[v[0], -v[1]], [v[1], v[0]]])
    if g == "SO2":
        return m
    o = np.eye(3)
    o[:2, :2] = m
    o[:2, 2] = x[:2]
    return o


def _ctx(ctx, f):
    with ctx:
        return f()


# ---------------------------------------------------------------- hat and vee
@st.composite
def hat_case(draw):
    g = draw(st.sampled_from(LIE))
    n = draw(st.integers(1, 3))
    return dict(g=g, dt=draw(gens.dtypes), x=draw(gens.batch(g, n, beyond_pi=True)), seed=draw(gens.seeds),
                size=draw(st.sampled_from([1e-3, 0.1, 10.0])))


def hat_check(c, t):
    g, dt = c["g"], DT[c["dt"]]
    C = cls(g)
    n = len(c["x"])
    x = torch.tensor(c["x"], dtype=dt)
    xs = np_(x)
    t.label(g, c["dt"])
    t.nontrivial(np.abs(xs).max() > 0)
    H = C.hat(x)
    want = np.stack([ref.hat(g, v) for v in xs])
    need(H.dtype == dt, "hat dtype")
    close(H, want, 0, "hat")
    need(torch.equal(C.vee(H), x), "vee(hat(x)) == x")
    close(C.hat(C.vee(H)), want, 0, "hat(vee(H)) == H")
    F = getattr(lieF, g) if g in ("SO3", "SE3") else None
    if F:
        need(torch.equal(F.hat(x), H) and torch.equal(F.vee(H), x), "functional hat and vee")
        with lieF.enable_checks():
            need(torch.equal(F.vee(H), x), "functional vee of a valid hat matrix, with checks")
        xb = x.view(n, 1, -1).expand(n, 2, -1)
        close(F.vee(F.hat(xb)), xb, 0, "functional vee(hat(x))")
    # break one entry that is determined by the structure
    r = gens.rng(c["seed"])
    N = want.shape[-1]
    nr = ROTN[g]
    ent = [(i, j) for i in range(nr) for j in range(nr)]
    if g in ("SE2", "SE3"):
        ent += [(N - 1, j) for j in range(N)]
    i, j = ent[r.integers(0, len(ent))]
    B = H.clone()
    b = r.integers(0, n)
    B[b, i, j] += c["size"] * max(1.0, float(np.abs(xs).max())) * (1 if r.integers(0, 2) else -1)
    expect_raise(lambda: C.vee(B), f"{g}.vee of an invalid matrix (entry {i},{j})", ValueError)
    if F:
        with lieF.enable_checks():
            expect_raise(lambda: F.vee(B), f"functional {g}.vee of an invalid matrix (entry {i},{j})", ValueError)
    if g != "SO2":
        expect_raise(lambda: C.vee(H[..., :-1]), "vee of a wrong shape")


# ---------------------------------------------------------------- random sampling
@st.composite
def rand_case(draw):
    return dict(g=draw(st.sampled_from(LIE + ["R2", "Point2", "Point3"])), dt=draw(gens.dtypes), n=draw(st.integers(1, 6)),
                seed=draw(gens.seeds), fn=draw(st.sampled_from(["rand", "randn"])), grad=draw(st.booleans()),
                gen=draw(st.booleans()), shape=draw(st.lists(st.integers(1, 3), max_size=3)))


def rand_check(c, t):
    g, dt, n = c["g"], DT[c["dt"]], c["n"]
    C = cls(g)
    size = (n, 2) if g == "R2" else (n,)
    t.label(g, c["fn"], c["dt"])
    t.nontrivial(n > 1)

    def draw(f, size, seed):
        kw = dict(dtype=dt, requires_grad=c["grad"])
        if c["gen"]:
            state = torch.get_rng_state()
            kw["generator"] = torch.Generator().manual_seed(seed)
        else:
            torch.manual_seed(seed)
        v = f(*size, **kw)
        if c["gen"]:
            need(torch.equal(torch.get_rng_state(), state), "sampling with a generator used the global one")
        return v

    f = getattr(C, c["fn"])
    s = c["seed"] % 10**6
    v, w, u = draw(f, size, s), draw(f, size, s), draw(f, size, s + 1)
    need(type(v) is C and v.dtype == dt, "type and dtype")
    need(tuple(v.shape) == (n,) + tuple(C(dtype=dt).shape[1:] if g != "R2" else (2,)), f"shape {tuple(v.shape)}")
    need(v.tensor.requires_grad == c["grad"], "requires_grad")
    need(torch.equal(v.tensor, w.tensor), "same seed, different samples")
    need(not torch.equal(v.tensor, u.tensor), "different seeds, same samples")
    if n > 1:
        need(not torch.equal(v.tensor[0], v.tensor[1]), "batch elements are all the same")
    if ref.is_vec(g):
        if c["fn"] == "rand":
            need(bool(((v.tensor >= 0) & (v.tensor < 1)).all()), "uniform samples lie in [0, 1)")
        return

    def valid(A, what):
        nr = ROTN[g]
        for m in A:
            close(m[:nr, :nr] @ m[:nr, :nr].T, np.eye(nr), 1e-5 if c["dt"] == "float32" else 1e-12, what + ": orthogonality")
            need(np.linalg.det(m[:nr, :nr]) > 0, what + ": determinant")

    valid(mats(g, v), "random element")
    expect_raise(lambda: f(2, 3), "two-dimensional batch", ValueError)
    if g in ("SO3", "SE3"):
        for mod in (getattr(lieF, g), getattr(torchlie, g)):
            x = draw(getattr(mod, c["fn"]), c["shape"], s)
            x = x if type(x) is torch.Tensor else x._t
            need(tuple(x.shape[:-2]) == tuple(c["shape"]), "functional batch shape")
            need(x.dtype == dt and x.requires_grad == c["grad"], "functional dtype and requires_grad")
            y = x.detach().reshape((-1,) + x.shape[-2:])
            valid(mats(g, y), "functional random element")


@st.composite
def dist_case(draw):
    return dict(g=draw(st.sampled_from(LIE)), fn=draw(st.sampled_from(["rand", "rand", "randn"])), seed=draw(gens.seeds),
                fun=draw(st.booleans()), dt=draw(gens.dtypes))


def dist_check(c, t):
    """rand is uniform over rotations and the unit box, randn is unbiased in every direction: moments within 6.5 sigma."""
    g, fn, N = c["g"], c["fn"], 4000
    fun = c["fun"] and g in ("SO3", "SE3")
    t.label(g, fn, "functional" if fun else "class")
    t.nontrivial()
    gen = torch.Generator().manual_seed(c["seed"] % 10**6)
    if fun:
        x = getattr(getattr(lieF, g), fn)(N, generator=gen, dtype=DT[c["dt"]])
        x = x if type(x) is torch.Tensor else x._t
    else:
        x = getattr(cls(g), fn)(N, generator=gen, dtype=DT[c["dt"]])
    A = np.stack(mats(g, x))
    nr = ROTN[g]
    R, T = A[:, :nr, :nr], (A[:, :nr, nr] if A.shape[1] > nr else None)

    def mean(v, want, what):
        sd = v.std(axis=0) / math.sqrt(N) + 1e-9
        bad = np.abs(v.mean(axis=0) - want) / sd
        need(float(np.max(bad)) < 6.5, f"{g}.{fn}: {what} is {v.mean(axis=0)} over {N} samples, expected {want}")

    if fn == "rand":
        mean(R, 0.0, "mean rotation")
        F = R.reshape(N, -1)
        iu = np.triu_indices(nr * nr)
        prod = (F[:, :, None] * F[:, None, :])[:, iu[0], iu[1]]
        want = np.eye(nr * nr) / nr
        if nr == 2:  # cos and sin occur twice
            want[0, 3] = want[3, 0] = 0.5
            want[1, 2] = want[2, 1] = -0.5
        mean(prod, want[iu], "second moment of the rotation")
        if T is not None:
            need(T.min() >= 0 and T.max() <= 1, "uniform translations lie in [0, 1]")
            mean(T, 0.5, "mean translation")
            mean((T - 0.5) ** 2, 1 / 12, "variance of the translation")
    else:
        if nr == 2:
            mean(R[:, 1, 0], 0.0, "mean sine")
        else:
            for i in range(3):
                j = (i + 1) % 3
                mean(R[:, i, i] - R[:, j, j], 0.0, "difference of diagonal entries")
                mean(R[:, i, j], 0.0, "off-diagonal entry")
                mean(R[:, j, i], 0.0, "off-diagonal entry")
        if T is not None:
            mean(T, 0.0, "mean translation")
            mean(T**2, 1.0, "variance of the translation")
    if T is not None:
        mean((T - T.mean(0))[:, :, None] * (R[:, None, :, 0] - R[:, :, 0].mean(0)), 0.0, "covariance of translation and rotation")
        for i in range(T.shape[1]):
            j = (i + 1) % T.shape[1]
            mean((T[:, i] - T[:, i].mean()) * (T[:, j] - T[:, j].mean()), 0.0, "covariance of translations")


SUBS = [
    Sub("representations", rep_case, rep_check, 1200, shards=(2, 4)),
    Sub("validation", valid_case, valid_check, 1500, shards=(2, 4)),
    Sub("hat", hat_case, hat_check, 700, shards=(2, 4)),
    Sub("random", rand_case, rand_check, 500, shards=(1, 2)),
    Sub("distribution", dist_case, dist_check, 60, 400),
]
