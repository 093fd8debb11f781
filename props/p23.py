import math
import os
import tempfile
import warnings

import numpy as np
import theseus as th
import torch
import torchkin
from hypothesis import strategies as st
from torchkin import Robot, get_forward_kinematics_fns
from torchkin import joint as tkj

from vlib import gens, ref
from vlib.core import Sub, Violation
from vlib.th import DT, close, expect_raise, need, np_

PROPERTY = "P23"
RULE = (
    "A case draws a random robot: a tree of 1-9 links with fixed, revolute, continuous and prismatic joints, origins with or "
    "without translation and rotation, unit axes (or the default one), links and joints declared in any order; it is written "
    "to a URDF file and loaded. Joint values, precision, batch size and a selection of links (subset, permutation, "
    "duplicates, root, links behind fixed joints) are drawn too. Poses are compared with the product of joint transforms "
    "computed with numpy; Jacobians, first and second derivatives with numerical differentiation of that reference. "
    "Used objects are compared with new ones that get the same data. Non-trivial: at least two moving joints on one chain, or a moving joint behind a fixed one."
)
ASSUMPTIONS = ["joint axes are unit vectors, as the URDF format requires", "mimic joints and joint limits are not modelled"]

TYPES = ["fixed", "revolute", "revolute", "continuous", "prismatic"]


def rot(axis, a):
    return ref.exp("SO3", np.asarray(axis) * a)


def T(R, p):
    m = np.eye(4)
    m[:3, :3] = R
    m[:3, 3] = p
    return m


def rpy(v):
    r, p, y = v
    return rot([0, 0, 1], y) @ rot([0, 1, 0], p) @ rot([1, 0, 0], r)


@st.composite
def joint_spec(draw):
    k = draw(st.integers(0, 5))
    axis = None
    if k == 1:
        axis = draw(st.sampled_from([[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, 0, -1]]))
    elif k > 1:
        v = gens.rng(draw(gens.seeds)).normal(size=3)
        axis = [float(x) for x in v / np.linalg.norm(v)]
    o = draw(st.integers(0, 7))
    xyz = None if o in (0, 1) else draw(gens.vec(3, 1.0))
    rp = None if o in (0, 2) else [draw(st.sampled_from([0.0, math.pi / 2, -math.pi / 2, math.pi, 0.3, -2.1, 1e-3]))
                                   if draw(st.booleans()) else draw(gens.real(3.0)) for _ in range(3)]
    return dict(type=draw(st.sampled_from(TYPES)), axis=axis, xyz=xyz, rpy=rp)


@st.composite
def robot_spec(draw, max_links=9):
    n = draw(st.integers(1, max_links))
    joints = []
    for i in range(1, n):
        j = draw(joint_spec())
        j["parent"] = i - 1 if draw(st.booleans()) else draw(st.integers(0, i - 1))
        j["child"] = i
        joints.append(j)
    return dict(n=n, joints=joints, lorder=draw(st.permutations(list(range(n)))),
                jorder=draw(st.permutations(list(range(n - 1)))), mixed=draw(st.booleans()))


def fnum(v):
    return " ".join(repr(float(x)) for x in v)


def urdf_text(s, utype=None):
    links = [f'  <link name="link_{i}"/>' for i in s["lorder"]]
    joints = []
    for k in s["jorder"]:
        j = s["joints"][k]
        ty = j["type"] if utype is None or k != 0 else utype
        x = [f'  <joint name="joint_{k}" type="{ty}">', f'    <parent link="link_{j["parent"]}"/>',
             f'    <child link="link_{j["child"]}"/>']
        if j["xyz"] is not None or j["rpy"] is not None:
            a = (f' xyz="{fnum(j["xyz"])}"' if j["xyz"] is not None else "") + (
                f' rpy="{fnum(j["rpy"])}"' if j["rpy"] is not None else "")
            x.append(f"    <origin{a}/>")
        if j["axis"] is not None:
            x.append(f'    <axis xyz="{fnum(j["axis"])}"/>')
        if ty in ("revolute", "prismatic"):
            x.append('    <limit effort="1" velocity="1" lower="-9" upper="9"/>')
        x.append("  </joint>")
        joints.append("\n".join(x))
    body = joints + links if s["mixed"] else links + joints
    return '<?xml version="1.0"?>\n<robot name="rob">\n' + "\n".join(body) + "\n</robot>\n"


def with_file(text, fn):
    fd, path = tempfile.mkstemp(suffix=".urdf", prefix="verif_p23_")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(text)
        return fn(path)
    finally:
        os.unlink(path)


def load(s, dt):
    return with_file(urdf_text(s), lambda p: Robot.from_urdf_file(p, dtype=dt))


def moving(j):
    return j["type"] != "fixed"


def axis_of(j):
    return np.array([1.0, 0, 0] if j["axis"] is None else j["axis"], float)


def origin_of(j):
    return T(np.eye(3) if j["rpy"] is None else rpy(j["rpy"]), np.zeros(3) if j["xyz"] is None else np.array(j["xyz"], float))


def motion(j, a):
    if not moving(j):
        return np.eye(4)
    u = axis_of(j)
    if j["type"] == "prismatic":
        return T(np.eye(3), u * a)
    return T(rot(u, a), np.zeros(3))


def ref_fk(s, col, q):
    """poses of all links for one joint vector; col maps joint index -> column"""
    poses = [np.eye(4)]
    for k, j in enumerate(s["joints"]):
        poses.append(poses[j["parent"]] @ origin_of(j) @ motion(j, q[col[k]] if moving(j) else 0.0))
    return poses


def ref_spatial(s, col, dof, poses, link):
    J = np.zeros((6, dof))
    parent = {j["child"]: k for k, j in enumerate(s["joints"])}
    i = link
    while i in parent:
        k = parent[i]
        j = s["joints"][k]
        if moving(j):
            tw = np.zeros(6)
            tw[(0 if j["type"] == "prismatic" else 3):][:3] = axis_of(j)
            J[:, col[k]] = ref.adj("SE3", poses[i]) @ tw
        i = j["parent"]
    return J


def columns(robot, s):
    nm = [k for k, j in enumerate(s["joints"]) if moving(j)]
    need(robot.dof == len(nm), f"degrees of freedom: {robot.dof}, the robot has {len(nm)} moving joints")
    need(robot.num_joints == len(s["joints"]) and robot.num_links == s["n"], "number of joints or links")
    need(sorted(robot.joint_map) == sorted(f"joint_{k}" for k in range(len(s["joints"]))), "joint names")
    need(sorted(robot.link_map) == sorted(f"link_{k}" for k in range(s["n"])), "link names")
    ids = {k: robot.joint_map[f"joint_{k}"].id for k in range(len(s["joints"]))}
    need(sorted(ids[k] for k in nm) == list(range(len(nm))), "moving joints are numbered from 0 to dof - 1")
    need(sorted(ids.values()) == list(range(len(ids))), "joint ids are a permutation")
    need(all(robot.joints[ids[k]].name == f"joint_{k}" for k in ids), "joints listed by id")
    need([robot.links[ln.id].name for ln in robot.link_map.values()] == [ln.name for ln in robot.link_map.values()],
         "links listed by id")
    return ids


@st.composite
def fk_case(draw, max_links=9):
    s = draw(robot_spec(max_links))
    n = s["n"]
    sel = draw(st.one_of(st.none(), st.lists(st.integers(0, n - 1), min_size=1, max_size=5),
                         st.integers(0, n - 1).map(lambda i: [i]), st.just([n - 1])))
    return dict(s=s, sel=sel, dt=draw(gens.dtypes), B=draw(st.integers(1, 3)), scale=draw(st.sampled_from([0.0, 1e-3, 0.5, 1.0, 3.0, 8.0])),
                seed=draw(gens.seeds), strided=draw(st.booleans()))


def joints_values(c, dof):
    r = gens.rng(c["seed"])
    q = r.normal(size=(c["B"], dof)) * c["scale"]
    if dof and c["seed"] % 3 == 0:
        q[:, r.integers(dof)] = 0.0
    return q


def approx(c, q):
    """documented small-angle approximation of the rotation of each revolute joint (see P02)"""
    a = np.abs(q)
    return float(np.where(a < (5.1e-3 if c["dt"] == "float64" else 1.01e-2), a**3 / 6, 0.0).sum()) if a.size else 0.0


def chain_info(s):
    parent = {j["child"]: j for j in s["joints"]}
    two = behind = False
    for j in s["joints"]:
        if not moving(j):
            continue
        i = j["parent"]
        while i in parent:
            two |= moving(parent[i])
            behind |= not moving(parent[i])
            i = parent[i]["parent"]
    return two, behind


def names_of(sel):
    return None if sel is None else [f"link_{i}" for i in sel]


def fk_check(c, t):
    s, dt = c["s"], DT[c["dt"]]
    f32 = c["dt"] == "float32"
    robot = load(s, dt)
    col = columns(robot, s)
    dof, B = robot.dof, c["B"]
    need(robot.dtype == dt and robot.name == "rob", "robot attributes")
    two, behind = chain_info(s)
    t.nontrivial(two or behind)
    t.label(c["dt"], "all links" if c["sel"] is None else "selection", f"dof{min(dof, 4)}")
    sel = c["sel"]
    order = [int(ln.name[5:]) for ln in robot.get_links(names_of(sel))]
    if sel is not None:
        need(order == list(sel), "selected links in the requested order")
    fk, jb, js = get_forward_kinematics_fns(robot, names_of(sel))
    q = joints_values(c, dof)
    qt = torch.tensor(q, dtype=dt)
    if c["strided"] and dof:
        qt = torch.stack([qt, qt + 1], dim=-1).reshape(B, -1)[:, ::2]
    q = np_(qt)
    keep = qt.clone()
    P = [ref_fk(s, col, q[b]) for b in range(B)]
    size = 1 + max(np.abs(p).max() for Pb in P for p in Pb)
    tol = (4e-6 if f32 else 1e-13) * size * (3 + len(s["joints"])) * (1 + np.abs(q).max(initial=0)) + approx(c, q) * size
    want = [np.stack([P[b][i][:3] for b in range(B)]) for i in order]
    got = fk(qt)
    need(len(got) == len(order), "one pose per selected link")
    for i, g, w in zip(order, got, want):
        need(g.dtype == dt, "dtype of a pose")
        close(g, w, tol, f"pose of link_{i}")
    JS = [np.stack([ref_spatial(s, col, dof, P[b], i) for b in range(B)]) for i in order]
    for fn, what in ((js, "spatial"), (jb, "body")):
        jac, poses = fn(qt)
        need(len(jac) == len(poses) == len(order), "one Jacobian per selected link")
        for n, i in enumerate(order):
            close(poses[n], want[n], tol, f"pose of link_{i} given with the {what} Jacobian")
            J = JS[n] if what == "spatial" else np.stack([ref.adj("SE3", ref.inv("SE3", P[b][i])) @ JS[n][b] for b in range(B)])
            close(jac[n], J, 4 * tol * size, f"{what} Jacobian of link_{i}")
    need(torch.equal(qt, keep), "the joint values were modified")
    # functions that were used before answer like new ones, also when the joint values were overwritten in place
    again = qt.clone()
    fk(again)
    with torch.no_grad():
        for fn in (fk, jb, js):
            fn(again)
        again.copy_(0.5 * qt.flip(0) + 0.1)
        used = [list(fk(again))] + [sum(map(list, fn(again)), []) for fn in (jb, js)]
        fk2, jb2, js2 = get_forward_kinematics_fns(robot, names_of(sel))
        other = again.clone()
        new = [list(fk2(other))] + [sum(map(list, fn(other)), []) for fn in (jb2, js2)]
    for u, v in zip(sum(used, []), sum(new, [])):
        need(torch.equal(u, v), "kinematics functions used before give other values than new ones")
    # the analytic reference itself against numerical differentiation of the poses
    if dof:
        n = int(gens.rng(c["seed"] + 1).integers(len(order)))
        i, b, e = order[n], B - 1, 1e-5
        for k in range(dof):
            d = np.eye(dof)[k] * e
            A1, A0 = ref_fk(s, col, q[b] + d)[i], ref_fk(s, col, q[b] - d)[i]
            num = ref.vee("SE3", ((A1 - A0) / (2 * e)) @ np.linalg.inv(P[b][i]))
            close(JS[n][b][:, k], num, 1e-7 * size**2, "reference Jacobian against numerical differentiation")
    # batch elements are independent
    if B > 1:
        for b in range(B):
            for i, g, w in zip(order, fk(qt[b:b + 1].contiguous()), got):
                close(g[0], w[b], tol, f"pose of link_{i} alone and in a batch")
    # the result does not depend on the declaration order
    s2 = dict(s, lorder=list(range(s["n"])), jorder=list(range(s["n"] - 1)), mixed=False)
    r2 = load(s2, dt)
    col2 = columns(r2, s2)
    q2 = torch.zeros(B, dof, dtype=dt)
    for k, j in enumerate(s["joints"]):
        if moving(j):
            q2[:, col2[k]] = qt[:, col[k]]
    for i, g, w in zip(order, get_forward_kinematics_fns(r2, [f"link_{i}" for i in order])[0](q2), got):
        close(g, w, 2 * tol, f"pose of link_{i} with another declaration order")


# ------------------------------------------------------------ derivatives
@st.composite
def grad_case(draw):
    c = draw(fk_case(7))
    c["dt"] = "float64"
    c["what"] = draw(st.sampled_from(["fk", "fk", "fk", "body", "spatial"]))
    c["mode"] = draw(st.sampled_from(["autograd", "retain", "func", "jacobian", "vectorized"]))
    return c


def grad_check(c, t):
    s = c["s"]
    robot = load(s, torch.float64)
    col = columns(robot, s)
    dof, B = robot.dof, c["B"]
    order = [int(ln.name[5:]) for ln in robot.get_links(names_of(c["sel"]))]
    two, behind = chain_info(s)
    t.label(c["what"], c["mode"], "all links" if c["sel"] is None else "selection")
    if dof == 0:
        return
    t.nontrivial(two or behind)
    fk, jb, js = get_forward_kinematics_fns(robot, names_of(c["sel"]))
    q = joints_values(c, dof)
    r = gens.rng(c["seed"] + 7)
    W = [r.normal(size=(B, 3, 4)) * (r.random() < 0.8) for _ in order]
    WJ = [r.normal(size=(B, 6, dof)) for _ in order]
    Wt = [torch.tensor(w) for w in W]
    WJt = [torch.tensor(w) for w in WJ]

    def scal(x):  # code, summed over the batch
        if c["what"] == "fk":
            return sum((w * p).sum() for w, p in zip(Wt, fk(x)))
        jac, poses = (jb if c["what"] == "body" else js)(x)
        return sum((w * p).sum() for w, p in zip(Wt, poses)) + sum((w * p).sum() for w, p in zip(WJt, jac))

    def rscal(b, x):
        P = ref_fk(s, col, x)
        v = sum((W[n][b] * P[i][:3]).sum() for n, i in enumerate(order))
        if c["what"] != "fk":
            for n, i in enumerate(order):
                J = ref_spatial(s, col, dof, P, i)
                v += (WJ[n][b] * (J if c["what"] == "spatial" else ref.adj("SE3", ref.inv("SE3", P[i])) @ J)).sum()
        return v

    I = np.eye(dof)
    e1, e2 = 1e-5, 2e-4
    f0 = [rscal(b, q[b]) for b in range(B)]
    g_ref = np.stack([[(rscal(b, q[b] + e1 * I[k]) - rscal(b, q[b] - e1 * I[k])) / (2 * e1) for k in range(dof)] for b in range(B)])
    size = 1 + max(np.abs(g_ref).max(), np.abs(f0).max(), max(np.abs(p).max() for b in range(B) for p in ref_fk(s, col, q[b])) ** 2)
    ap = approx(c, q) * size * 24 * len(order) * B
    x = torch.tensor(q, requires_grad=True)
    mode = c["mode"]
    if mode in ("func", "vectorized") and c["what"] != "fk":
        mode = "autograd"
    second = True
    if mode == "func":
        close(torch.func.grad(scal)(x.detach()), g_ref, 2e-7 * size + ap, "gradient (functional)")
        Wb = [w for w in Wt]
        per = torch.vmap(torch.func.grad(lambda y, *ws: sum((w * p[0]).sum() for w, p in zip(ws, fk(y[None])))))(x.detach(), *Wb)
        close(per, g_ref, 2e-7 * size + ap, "gradient (vectorised over the batch)")
        pv = torch.vmap(lambda y: tuple(p[0] for p in fk(y[None])))(x.detach())
        for i, a, b in zip(order, pv, fk(x.detach())):
            close(a, b, 1e-12 * size, f"pose of link_{i} under vmap")
        second = False
    elif mode in ("jacobian", "vectorized"):
        def poses(y):
            return torch.stack([torch.as_tensor(p) for p in fk(y)]).sum(1)  # links x 3 x 4, summed over batch
        J = torch.autograd.functional.jacobian(poses, x.detach(), vectorize=mode == "vectorized")
        for n, i in enumerate(order):
            for b in range(B):
                num = np.stack([(ref_fk(s, col, q[b] + e1 * I[k])[i][:3] - ref_fk(s, col, q[b] - e1 * I[k])[i][:3]) / (2 * e1)
                                for k in range(dof)], -1)
                close(J[n, :, :, b], num, 2e-7 * size + ap, f"derivative of the pose of link_{i}")
        second = False
    else:
        v = scal(x)
        close(v, sum(f0), 1e-11 * size * B * len(order) * 12 + ap, "value")
        if not v.requires_grad:
            close(np.zeros_like(g_ref), g_ref, 2e-7 * size + ap, "gradient (value not connected to the joints)")
            second = False
        else:
            if mode == "retain":
                (g0,) = torch.autograd.grad(v, x, retain_graph=True)
                close(g0, g_ref, 2e-7 * size + ap, "gradient (first of two passes)")
            (g,) = torch.autograd.grad(v, x, create_graph=True)
            close(g, g_ref, 2e-7 * size + ap, "gradient")
    if second:
        d = r.normal(size=(B, dof))
        if g.requires_grad:
            (h,) = torch.autograd.grad((g * torch.tensor(d)).sum(), x, allow_unused=True)
            h = np.zeros((B, dof)) if h is None else np_(h)
        else:
            h = np.zeros((B, dof))
        H = np.zeros((B, dof))
        for b in range(B):
            for k in range(dof):
                # derivative along e_k of (grad . d): mixed second difference of the reference
                pp = rscal(b, q[b] + e2 * I[k] + e2 * d[b]) - rscal(b, q[b] + e2 * I[k] - e2 * d[b])
                mm = rscal(b, q[b] - e2 * I[k] + e2 * d[b]) - rscal(b, q[b] - e2 * I[k] - e2 * d[b])
                H[b, k] = (pp - mm) / (4 * e2 * e2)
        dd = 1 + np.abs(d).max() ** 3
        sc = size * dd * dof**3
        close(h, H, 3e-6 * sc, "second derivative")
        t.label("second derivative")


# ------------------------------------------------------------ embodied wrapper, errors, axis-aligned joints
@st.composite
def model_case(draw):
    c = draw(fk_case(6))
    c["vec"] = draw(st.booleans())
    c["body"] = draw(st.booleans())
    c["jac"] = draw(st.booleans())
    c["bad"] = draw(st.sampled_from(["floating", "planar"]))
    return c


def model_check(c, t):
    s, dt = c["s"], DT[c["dt"]]
    f32 = c["dt"] == "float32"
    m = with_file(urdf_text(s), lambda p: th.eb.UrdfRobotModel(p, dtype=dt, link_names=names_of(c["sel"])))
    col = columns(m.robot, s)
    dof, B = m.robot.dof, c["B"]
    two, behind = chain_info(s)
    t.nontrivial(two or behind)
    t.label("Vector" if c["vec"] else "tensor", "body" if c["body"] else "spatial")
    order = list(dict.fromkeys(range(s["n"]) if c["sel"] is None else c["sel"]))
    if dof:
        q = joints_values(c, dof)
        qt = torch.tensor(q, dtype=dt)
        q = np_(qt)
        P = [ref_fk(s, col, q[b]) for b in range(B)]
        size = 1 + max(np.abs(p).max() for Pb in P for p in Pb)
        tol = (4e-6 if f32 else 1e-13) * size * (3 + len(s["joints"])) * (1 + np.abs(q).max(initial=0)) + approx(c, q) * size
        inp = th.Vector(tensor=qt.clone()) if c["vec"] else qt
        jac = {} if c["jac"] else None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = m.forward_kinematics(inp, jacobians=jac, use_body_jacobians=c["body"])
        need(sorted(out) == sorted(f"link_{i}" for i in order), "names of the links given")
        for i in order:
            g = out[f"link_{i}"]
            need(isinstance(g, th.SE3) and g.dtype == dt, "type of a pose")
            close(g.tensor, np.stack([P[b][i][:3] for b in range(B)]), tol, f"pose of link_{i} by the model")
        if jac is not None:
            need(sorted(jac) == sorted(out), "names of the Jacobians given")
            for i in order:
                J = np.stack([ref_spatial(s, col, dof, P[b], i) for b in range(B)])
                if c["body"]:
                    J = np.stack([ref.adj("SE3", ref.inv("SE3", P[b][i])) @ J[b] for b in range(B)])
                close(jac[f"link_{i}"], J, 4 * tol * size, f"Jacobian of link_{i} by the model")
            expect_raise(lambda: m.forward_kinematics(inp, jacobians=jac), "Jacobian dictionary that is not empty", ValueError)
    fk, _, _ = get_forward_kinematics_fns(m.robot)
    bad = torch.zeros(2, dof + 1, dtype=dt)
    expect_raise(lambda: m.forward_kinematics(bad), "joint vector of the wrong size (model)", ValueError)
    expect_raise(lambda: fk(bad), "joint vector of the wrong size", ValueError)
    if s["joints"]:
        expect_raise(lambda: with_file(urdf_text(s, c["bad"]), lambda p: Robot.from_urdf_file(p, dtype=dt)),
                     f"unsupported joint type {c['bad']}", ValueError)
    # identity model
    v = torch.tensor(gens.rng(c["seed"]).normal(size=(B, 2)), dtype=dt)
    for cl in (th.Point2, th.Vector):
        st_ = th.eb.IdentityModel().forward_kinematics(cl(tensor=v))
        need(list(st_) == ["state"] and torch.equal(st_["state"].tensor, v), "identity model returns the state")


@st.composite
def joint_case(draw):
    o = draw(st.integers(0, 3))
    return dict(seed=draw(gens.seeds), kind=draw(st.sampled_from(["revolute", "prismatic"])), ax=draw(st.integers(0, 2)),
                dt=draw(gens.dtypes), B=draw(st.integers(1, 4)), origin=o != 0, scale=draw(st.sampled_from([0.0, 1e-4, 1.0, 5.0])))


def joint_check(c, t):
    dt, B = DT[c["dt"]], c["B"]
    r = gens.rng(c["seed"])
    O = ref.exp("SE3", r.normal(size=6))
    kw = dict(origin=torch.tensor(O[None, :3], dtype=dt)) if c["origin"] else dict(dtype=dt)
    if not c["origin"]:
        O = np.eye(4)
    rev = c["kind"] == "revolute"
    t.nontrivial(c["origin"] and c["scale"] > 0)
    t.label(c["kind"], "XYZ"[c["ax"]])
    special = getattr(tkj, ("Revolute" if rev else "Prismatic") + "Joint" + "XYZ"[c["ax"]])("j", **kw)
    e = np.eye(3)[c["ax"]]
    general = (tkj.RevoluteJoint if rev else tkj.PrismaticJoint)("j", torch.tensor(e, dtype=dt), **kw)
    a = torch.tensor(r.normal(size=B) * c["scale"], dtype=dt)
    an = np_(a)
    want = np.stack([(O @ (T(rot(e, x), np.zeros(3)) if rev else T(np.eye(3), e * x)))[:3] for x in an])
    tol = (3e-6 if c["dt"] == "float32" else 1e-13) * (1 + np.abs(want).max() + np.abs(an).max()) + approx(c, an)
    tw = np.zeros((6, 1))
    tw[(3 if rev else 0) + c["ax"]] = 1
    for j, what in ((special, "axis-aligned"), (general, "general")):
        need(j.dof == 1, "degrees of freedom of a joint")
        close(j.axis, tw, 0, f"twist axis of the {what} {c['kind']} joint")
        close(j.relative_pose(a), want, tol, f"pose of the {what} {c['kind']} joint")
        close(j.relative_pose(a.view(-1, 1)), want, tol, f"pose of the {what} {c['kind']} joint (column)")
        x = a.double().clone()
        for bad in (torch.zeros(2, 2, dtype=dt), torch.zeros(1, 2, 1, dtype=dt)):
            expect_raise(lambda: j.relative_pose(bad), f"{what} joint with an angle of shape {tuple(bad.shape)}")
        expect_raise(lambda: j.relative_pose(), f"{what} joint without an angle", ValueError)
    f = tkj.FixedJoint("f", **kw)
    need(f.dof == 0, "degrees of freedom of a fixed joint")
    close(f.relative_pose(), O[None, :3], 1e-6 if c["dt"] == "float32" else 1e-14, "pose of a fixed joint")
    expect_raise(lambda: f.relative_pose(a), "fixed joint with an angle", ValueError)
    expect_raise(lambda: type(general)("j", torch.ones(4, dtype=dt), **kw), "axis with four elements", ValueError)


SUBS = [
    Sub("poses", fk_case, fk_check, 900, shards=(3, 4)),
    Sub("derivatives", grad_case, grad_check, 700, shards=(3, 4)),
    Sub("model", model_case, model_check, 300, shards=(1, 2)),
    Sub("joints", joint_case, joint_check, 300, shards=(1, 1)),
]
