"""P27: problem datasets survive a save and load round trip; batches partition a dataset."""
import math
import os
import tempfile

import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st
from theseus.utils.examples.bundle_adjustment import data as ba
from theseus.utils.examples.pose_graph import dataset as pg

from vlib import gens, ref
from vlib.core import Sub
from vlib.th import DT, close, expect_raise, make, mats, need, np_

from props.p02 import exp_tol, log_tol

PROPERTY = "P27"
RULE = (
    "A case draws a problem (pose graph in 2D or 3D with one or several elements, or a bundle adjustment problem with or "
    "without ground truth), with rotations at and near 0 and pi, coordinates of many magnitudes, any edges (also "
    "repeated, backwards or self edges) and weights; or the text of a g2o file in any order of lines, with foreign tags, "
    "unnormalised quaternions and any number format. Files are compared with an independent parser of the format and with "
    "what the readers return. Non-trivial: at least two vertices and an edge, two cameras or points, or two batches."
)
ASSUMPTIONS = [
    "edges carry diagonal information: off-diagonal entries of the information matrices of a file are not represented",
    "the weight of an edge is shared by the elements of a dataset (as PoseGraphDataset treats it)",
    "files have no blank lines, 2D files no edges, edges have a weight, ground truth is loaded by load_bal_dataset, and "
    "synthetic bundle adjustment problems have two or more cameras (see KNOWN_FINDINGS.txt)",
]


def rot_tol(dt, R, both):
    """accuracy of the logarithm (and of the exponential) of P02 at a rotation"""
    a = float(np.linalg.norm(ref.log("SO3", R)))
    # entries of a rotation near pi determine its axis and angle to the root of the precision
    return (1e-3 if dt == "float32" and math.pi - a < 0.05 else 0) + 3 * (log_tol("SO3", dt, 1.0, a) + (exp_tol("SO3", "float64", 1.0, a) if both else 0))


class scratch:
    def __enter__(self):
        self.d = tempfile.TemporaryDirectory(prefix="p27_")
        return self.d.name

    def __exit__(self, *a):
        self.d.cleanup()


# ------------------------------------------------------------------ independent model
def quat_mat(q):
    """rotation of a quaternion x y z w of any norm"""
    x, y, z, w = np.asarray(q, float) / np.linalg.norm(q)
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
    ])


def hom(R, p):
    n = len(p)
    M = np.eye(n + 1)
    M[:n, :n], M[:n, n] = R, p
    return M


def parse_g2o(path):
    """vertices {id: 4x4 or 3x3}, edges [(i, j, matrix, information matrix)]"""
    V, E = {}, []
    for line in open(path):
        w = line.split()
        if not w:
            continue
        if w[0] == "VERTEX_SE3:QUAT":
            x = [float(a) for a in w[2:]]
            need(len(x) == 7, f"vertex line with {len(x)} numbers")
            V[int(w[1])] = hom(quat_mat(x[3:]), x[:3])
        elif w[0] == "EDGE_SE3:QUAT":
            x = [float(a) for a in w[3:]]
            need(len(x) == 28, f"edge line with {len(x)} numbers")
            info = np.zeros((6, 6))
            info[np.triu_indices(6)] = x[7:]
            E.append((int(w[1]), int(w[2]), hom(quat_mat(x[3:7]), x[:3]), info))
        else:
            need(False, f"tag {w[0]} in a 3D file")
    return V, E


# ------------------------------------------------------------------------- reading
NUM = ["{!r}", "{:.9g}", "{:.3f}", "{:.6e}", "{:+.5f}"]
FOREIGN = ["FIX 0", "# a comment", "VERTEX_XY 3 1.0 2.0", "PARAMS_SE3OFFSET 0 0 0 0 0 0 0 1", "VERTEX_SE3 0 1 2 3"]


@st.composite
def file_case(draw):
    dim = draw(st.sampled_from([3, 3, 2]))
    g = "SE3" if dim == 3 else "SE2"
    nv = draw(st.integers(0, 6))
    gaps = draw(st.booleans()) and draw(st.booleans())
    ids = draw(st.permutations(range(nv + (4 if gaps else 0))))[:nv]
    ne = draw(st.integers(0, 6)) if dim == 3 else 0
    top = draw(st.integers(0, 9)) if draw(st.integers(0, 3)) == 0 else max([nv - 1, *ids, 0])
    return dict(
        g=g, ids=list(ids), dtype=draw(st.sampled_from(["float64", "float64", "float32", None])),
        V=[draw(gens.tangent(g)) for _ in range(nv)],
        E=[[draw(st.integers(0, top)), draw(st.integers(0, top)), draw(gens.tangent(g))] for _ in range(ne)],
        fmt=draw(st.integers(0, len(NUM) - 1)), sep=draw(st.sampled_from([" ", "  ", "\t"])),
        foreign=draw(st.lists(st.integers(0, len(FOREIGN) - 1), max_size=3)),
        qscale=draw(st.sampled_from([1.0, 1.0, -1.0, 2.5, 1e-3])), eol=draw(st.booleans()), seed=draw(gens.seeds),
        load=draw(st.booleans()),
    )


def quat_of(R):
    """quaternion x y z w of a rotation, by the eigenvector of Bar-Itzhack's matrix"""
    K = np.array([
        [R[0, 0] - R[1, 1] - R[2, 2], 0, 0, 0],
        [R[1, 0] + R[0, 1], R[1, 1] - R[0, 0] - R[2, 2], 0, 0],
        [R[2, 0] + R[0, 2], R[2, 1] + R[1, 2], R[2, 2] - R[0, 0] - R[1, 1], 0],
        [R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1], R[0, 0] + R[1, 1] + R[2, 2]],
    ]) / 3
    return np.linalg.eigh(K + np.tril(K, -1).T)[1][:, -1]


def check_file(case, t, edges2d=(), blank=False):
    g, r = case["g"], gens.rng(case["seed"])
    d3 = g == "SE3"
    num = lambda xs: [NUM[case["fmt"]].format(float(x)) for x in xs]
    parse = lambda ws: np.array([float(w) for w in ws])
    lines, V, E = [], {}, []
    for k, x in zip(case["ids"], case["V"]):
        if d3:
            M = ref.exp(g, np.array(x))
            w = num(np.concatenate([M[:3, 3], case["qscale"] * quat_of(M[:3, :3])]))
            p = parse(w)
            if np.linalg.norm(p[3:]) < 1e-2 * abs(case["qscale"]):  # rounded away by the number format
                w[3:], p[3:] = ["0", "0", "0", "1"], [0, 0, 0, 1]
            V[k] = hom(quat_mat(p[3:]), p[:3])
            lines.append(["VERTEX_SE3:QUAT", str(k)] + w)
        else:
            w = num(x)
            p = parse(w)
            V[k] = hom(ref.rot2(p[2]), p[:2])
            lines.append(["VERTEX_SE2", str(k)] + w)
    for i, j, x in case["E"]:
        M = ref.exp(g, np.array(x))
        w = num(np.concatenate([M[:3, 3], case["qscale"] * quat_of(M[:3, :3])]))
        p = parse(w)
        if np.linalg.norm(p[3:]) < 1e-2 * abs(case["qscale"]):
            w[3:], p[3:] = ["0", "0", "0", "1"], [0, 0, 0, 1]
        A = r.normal(size=(6, 6)) * 10.0 ** r.integers(-2, 3)
        info = A @ A.T if r.integers(0, 2) else np.diag(np.diag(A) ** 2 * r.integers(0, 2, size=6))
        wi = num(info[np.triu_indices(6)])
        I = np.zeros((6, 6))
        I[np.triu_indices(6)] = parse(wi)
        E.append((i, j, hom(quat_mat(p[3:]), p[:3]), np.diag(I)))
        lines.append(["EDGE_SE3:QUAT", str(i), str(j)] + w + wi)
    for i, j, x in edges2d:
        w = num(list(x) + [4.0, 0, 0, 9.0, 0, 16.0])
        p = parse(w)
        E.append((i, j, hom(ref.rot2(p[2]), p[:2]), p[[3, 6, 8]]))
        lines.append(["EDGE_SE2", str(i), str(j)] + w)
    order = list(r.permutation(len(lines)))
    # edges keep their order in the file, vertices may come anywhere
    ne = iter([n for n in range(len(lines)) if lines[n][0].startswith("EDGE")])
    lines = [lines[next(ne)] if lines[n][0].startswith("EDGE") else lines[n] for n in order]
    for f in case["foreign"]:
        lines.insert(int(r.integers(0, len(lines) + 1)), FOREIGN[f].split(" "))
    if blank:
        lines.insert(len(lines) // 2, [""])
    dtype = None if case["dtype"] is None else DT[case["dtype"]]
    # without a dtype the file's numbers keep double precision
    want_dtype = torch.float64 if dtype is None else dtype
    tol = 1e-12 if want_dtype == torch.float64 else 2e-6
    with scratch() as d:
        path = os.path.join(d, "problem.g2o")
        with open(path, "w") as f:
            f.write("\n".join(case["sep"].join(w) for w in lines) + ("\n" if case["eol"] and lines else ""))
        n, verts, edges = (pg.read_3D_g2o_file if d3 else pg.read_2D_g2o_file)(path, dtype=dtype)
        same_batch = bool(verts or edges)
        if case["load"] and same_batch:
            some = th.SE3(tensor=torch.eye(3, 4).unsqueeze(0)) if d3 else th.SE2(x_y_theta=torch.zeros(1, 3))
            ds = pg.PoseGraphDataset([some], [])
            ds = (ds.load_3D_g2o_file if d3 else ds.load_2D_g2o_file)(path, dtype=dtype)
            need(len(ds.poses) == len(verts) and len(ds.edges) == len(edges), "dataset loaded from a file: sizes")
            for a, b in zip(ds.poses, verts):
                need(torch.equal(a.tensor, b.tensor), "dataset loaded from a file: poses")
            for a, b in zip(ds.edges, edges):
                need((a.i, a.j) == (b.i, b.j) and torch.equal(a.relative_pose.tensor, b.relative_pose.tensor)
                     and torch.equal(a.weight.diagonal.tensor, b.weight.diagonal.tensor), "dataset loaded from a file: edges")
    want_n = max([*V, *[e[0] for e in E], *[e[1] for e in E], 0]) + 1
    need(n == want_n, f"{n} vertices reported, the largest id is {want_n - 1}")
    need(len(verts) == len(V), f"{len(verts)} vertices read, the file has {len(V)}")
    need(len(edges) == len(E), f"{len(edges)} edges read, the file has {len(E)}")
    cls = th.SE3 if d3 else th.SE2
    for k, v in zip(sorted(V), verts):
        need(type(v) is cls and v.dtype == want_dtype and v.shape[0] == 1, f"vertex {k}: {type(v).__name__} {v.dtype} {v.shape}")
        need(v.name.endswith(f"__{k}"), f"vertex {k} is called {v.name}")
        close(mats(g, v)[0], V[k], tol * max(1, np.abs(V[k]).max()), f"vertex {k}")
    for m, (e, (i, j, M, diag)) in enumerate(zip(edges, E)):
        need((e.i, e.j) == (i, j), f"edge {m} joins {e.i},{e.j}, the file says {i},{j}")
        p = e.relative_pose
        need(type(p) is cls and p.dtype == want_dtype and p.shape[0] == 1, f"edge {m}: {type(p).__name__} {p.dtype} {p.shape}")
        close(mats(g, p)[0], M, tol * max(1, np.abs(M).max()), f"measurement of edge {m}")
        w = e.weight.diagonal.tensor
        need(w.dtype == want_dtype, f"weight of edge {m}: {w.dtype}")
        close(w, np.sqrt(diag)[None], tol * max(1, np.sqrt(diag).max()), f"weight of edge {m} (square root information)")
    need(len({v.name for v in verts}) == len(verts) and len({e.relative_pose.name for e in edges}) == len(edges), "names repeat")
    t.nontrivial(len(V) > 1 and (len(E) > 0 or not d3))
    t.label(g, "shuffled" if case["ids"] != sorted(case["ids"]) else "sorted")


def check_file_2d_edge(case, t):
    """only probed, see FINDINGS"""
    check_file(case, t, edges2d=[(0, 1, (0.5, -0.25, 0.75))])


def check_file_blank(case, t):
    """only probed, see FINDINGS"""
    check_file(case, t, blank=True)


# ------------------------------------------------------------------- pose graph datasets
@st.composite
def graph(draw, groups=("SE3",), max_d=4):
    g = draw(st.sampled_from(list(groups)))
    D = draw(st.integers(1, max_d))
    nv, ne = draw(st.integers(1, 4)), draw(st.integers(0, 5))
    sc = draw(st.sampled_from([1.0, 1.0, 1e3, 1e-3]))
    tan = lambda: [draw(gens.tangent(g)) for _ in range(D)]
    return dict(
        g=g, D=D, dtype=draw(st.sampled_from(["float64", "float64", "float32"])), V=[tan() for _ in range(nv)],
        E=[[draw(st.integers(0, nv - 1)), draw(st.integers(0, nv - 1)), tan()] for _ in range(ne)],
        gt=draw(st.booleans()), scale=sc, bs=draw(st.integers(1, 5)), seed=draw(gens.seeds),
    )


def build(c):
    r = gens.rng(c["seed"])
    g, dt = c["g"], DT[c["dtype"]]
    var = lambda xs, name: make(g, [ref.exp(g, np.array(x) * np.r_[np.full(len(x) - (3 if g == "SE3" else 1), c["scale"]),
                                                                 np.ones(3 if g == "SE3" else 1)]) for x in xs], c["dtype"], name)
    poses = [var(x, f"V{k}") for k, x in enumerate(c["V"])]
    gt = [var(x[::-1], f"GT{k}") for k, x in enumerate(c["V"])] if c["gt"] else None
    n = ref.dof(g)
    edges = []
    for k, (i, j, x) in enumerate(c["E"]):
        w = np.abs(r.normal(size=(1, n))) * 10.0 ** r.integers(-2, 4) * r.integers(0, 5, size=(1, n)).clip(0, 1)
        edges.append(pg.PoseGraphEdge(i, j, var(x, f"E{k}"), th.DiagonalCostWeight(th.Variable(torch.tensor(w, dtype=dt)), name=f"W{k}")))
    return poses, edges, gt


def check_write(case, t):
    poses, edges, gt = build(case)
    ds = pg.PoseGraphDataset(poses, edges, gt, batch_size=case["bs"])
    before = [v.tensor.clone() for v in poses] + [e.relative_pose.tensor.clone() for e in edges]
    eps = 1e-12 if case["dtype"] == "float64" else 5e-6
    with scratch() as d:
        ds.write_3D_g2o(os.path.join(d, "out"))
        need(sorted(os.listdir(d)) == sorted(f"out_{n}.g2o" for n in range(case["D"])), f"files written: {sorted(os.listdir(d))}")
        for n in range(case["D"]):
            path = os.path.join(d, f"out_{n}.g2o")
            V, E = parse_g2o(path)
            N, verts, es = pg.read_3D_g2o_file(path, dtype=DT[case["dtype"]])
            need(sorted(V) == list(range(len(poses))), f"vertex ids written: {sorted(V)}")
            need(len(E) == len(edges) and len(es) == len(edges) and len(verts) == len(poses), "number of lines written or read")
            need(N == len(poses), f"{N} vertices reported for {len(poses)}")
            for k, v in enumerate(poses):
                M = mats("SE3", v)[n]
                tl = eps * np.maximum(1, np.abs(M)) + rot_tol(case["dtype"], M[:3, :3], False)
                close(V[k], M, tl, f"vertex {k} of element {n} in the file")
                close(mats("SE3", verts[k])[0], M, tl, f"vertex {k} of element {n} after a round trip")
            for k, e in enumerate(edges):
                M = mats("SE3", e.relative_pose)[n]
                tl = eps * np.maximum(1, np.abs(M)) + rot_tol(case["dtype"], M[:3, :3], False)
                need(E[k][:2] == (e.i, e.j) == (es[k].i, es[k].j), f"edge {k}: written {E[k][:2]}, read {(es[k].i, es[k].j)}, was {(e.i, e.j)}")
                close(E[k][2], M, tl, f"measurement {k} of element {n} in the file")
                close(mats("SE3", es[k].relative_pose)[0], M, tl, f"measurement {k} of element {n} after a round trip")
                w = np_(e.weight.diagonal.tensor)[0]
                close(E[k][3], np.diag(w**2), eps * np.abs(w**2).max() + 1e-300, f"information of edge {k} in the file")
                close(es[k].weight.diagonal.tensor, w[None], eps * np.abs(w).max() + 1e-300, f"weight of edge {k} after a round trip")
    for a, b in zip(before, [v.tensor for v in poses] + [e.relative_pose.tensor for e in edges]):
        need(torch.equal(a, b), "writing changed the problem")
    t.nontrivial(len(poses) > 1 and len(edges) > 0)
    t.label(f"elements={case['D']}")


@st.composite
def batch_case(draw):
    c = draw(graph(("SE2", "SE3", "SE3"), 6))
    return dict(c, conv=draw(st.booleans()), bad=draw(st.integers(0, 3)))


def check_batches(case, t):
    g, D, bs = case["g"], case["D"], case["bs"]
    poses, edges, gt = build(case)
    ds = pg.PoseGraphDataset(poses, edges, gt, batch_size=bs)
    need(ds.dataset_size == D and ds.batch_size == bs, "dataset size")
    nb = math.ceil(D / bs)
    need(ds.num_batches == nb, f"{ds.num_batches} batches of {bs} for {D} elements")
    order = list(gens.rng(case["seed"]).permutation(nb))
    got = {}
    for k in order:
        b = got[k] = ds.get_batch_dataset(int(k))
        size = min(bs, D - k * bs)
        need(b.dataset_size == size and b.num_batches == 1 and len(b.poses) == len(poses) and len(b.edges) == len(edges), f"batch {k}: size")
        need((b.gt_poses is None) == (gt is None), f"batch {k}: ground truth")
        for e, f in zip(b.edges, edges):
            need((e.i, e.j) == (f.i, f.j), f"batch {k}: edge")
            need(torch.equal(e.weight.diagonal.tensor, f.weight.diagonal.tensor), f"batch {k}: weight of an edge")
            need(type(e.relative_pose) is type(f.relative_pose) and e.relative_pose.name != f.relative_pose.name, f"batch {k}: type or name")
    roles = [("pose", poses, lambda b: b.poses), ("measurement", [e.relative_pose for e in edges], lambda b: [e.relative_pose for e in b.edges])]
    if gt is not None:
        roles.append(("ground truth", gt, lambda b: b.gt_poses))
    for what, full, sel in roles:
        for n, v in enumerate(full):
            parts = [sel(got[k])[n] for k in range(nb)]
            need(all(type(p) is type(v) and p.dtype == v.dtype for p in parts), f"{what} {n}: type")
            need(torch.equal(torch.cat([p.tensor for p in parts]), v.tensor), f"{what} {n}: the batches do not partition the dataset")
    # the batches don't share memory with the dataset
    if nb:
        keep = [v.tensor.clone() for _, full, _ in roles for v in full]
        for what, full, sel in roles:
            for v in sel(got[0]):
                v.tensor.zero_()
        need(all(torch.equal(a, v.tensor) for a, v in zip(keep, [v for _, full, _ in roles for v in full])), "a batch shares memory with its dataset")
    expect_raise(lambda: ds.get_batch_dataset(nb), "a batch index past the end")
    if case["conv"]:
        old = [v.tensor.clone() for _, full, _ in roles for v in full] + [e.weight.diagonal.tensor.clone() for e in edges]
        other = torch.float32 if case["dtype"] == "float64" else torch.float64
        ds.to(dtype=other)
        new = [v.tensor for v in ds.poses] + [e.relative_pose.tensor for e in ds.edges]
        new += [v.tensor for v in (ds.gt_poses or [])] + [e.weight.diagonal.tensor for e in ds.edges]
        need(all(torch.equal(a.to(other), b) for a, b in zip(old, new)), "conversion of a dataset")
    # elements of different number are refused
    role = [r for r in roles if r[1]][case["bad"] % len([r for r in roles if r[1]])]
    total = sum(len(r[1]) for r in roles)
    if total > 1:
        v = role[1][0]
        v.tensor = torch.cat([v.tensor, v.tensor[:1]])
        expect_raise(lambda: pg.PoseGraphDataset(poses, edges, gt), f"a dataset where one {role[0]} has another number of elements", ValueError)
    t.nontrivial(nb > 1)
    t.label(g, f"batches={nb}")


# ----------------------------------------------------------------------- synthetic graphs
@st.composite
def syn_case(draw):
    return dict(
        n=draw(st.integers(1, 9)), D=draw(st.integers(1, 3)), bs=draw(st.integers(1, 3)), seed=draw(gens.seeds),
        tn=draw(st.sampled_from([0.05, 0.01, 0.5])), rn=draw(st.sampled_from([0.1, 0.02, 0.4])),
        ratio=draw(st.sampled_from([0.0, 0.2, 1.0, 1.0])), out=draw(st.sampled_from([0.0, 0.0, 0.5, 1.0])),
        maxc=draw(st.integers(1, 6)), dtype=draw(st.sampled_from(["float64", "float64", "float32"])),
    )


def check_synthetic(case, t):
    np.random.seed(case["seed"] % 2**32)
    torch.manual_seed(case["seed"])
    dt, D = DT[case["dtype"]], case["D"]
    ds, inl = pg.PoseGraphDataset.generate_synthetic_3D(
        case["n"], translation_noise=case["tn"], rotation_noise=case["rn"], loop_closure_ratio=case["ratio"],
        loop_closure_outlier_ratio=case["out"], max_num_loop_closures=case["maxc"], dataset_size=D, batch_size=case["bs"], dtype=dt)
    need(len(ds.poses) == len(ds.gt_poses) == case["n"] and len(inl) == len(ds.edges), "sizes")
    need(ds.dataset_size == D and ds.num_batches == math.ceil(D / case["bs"]), "batches")
    eps = 1e-9 if case["dtype"] == "float64" else 1e-4
    gt = [mats("SE3", v) for v in ds.gt_poses]
    bound = np.array([case["tn"]] * 3 + [case["rn"]] * 3)

    def within(M, what):
        for m in M:
            x = ref.log("SE3", m)
            need((np.abs(x) <= bound + eps).all(), f"{what}: noise {x} exceeds {bound}")

    for v in list(ds.poses) + list(ds.gt_poses) + [e.relative_pose for e in ds.edges]:
        need(v.shape[0] == D and v.dtype == dt, "shape or dtype")
        R = v.tensor[:, :, :3].double()
        close(R @ R.transpose(1, 2), np.broadcast_to(np.eye(3), (D, 3, 3)), eps, f"{v.name} is no rotation")
    names = [v.name for v in list(ds.poses) + list(ds.gt_poses) + [e.relative_pose for e in ds.edges]]
    need(len(set(names)) == len(names), "names repeat")
    chain, seen = [], set()
    for k, (e, ok) in enumerate(zip(ds.edges, inl)):
        need(0 <= e.i < e.j < case["n"], f"edge {e.i},{e.j}")
        need((e.i, e.j) not in seen, "repeated edge")
        seen.add((e.i, e.j))
        if e.j == e.i + 1:
            chain.append(e.j)
            need(ok, "an odometry edge is an outlier")
        if ok:
            rel = [np.linalg.solve(np.linalg.solve(a, b), m) for a, b, m in zip(gt[e.i], gt[e.j], mats("SE3", e.relative_pose))]
            within(rel, f"inlier edge {e.i},{e.j}")
        need(case["out"] > 0 or ok, "outlier with ratio 0")
        need(case["out"] < 1 or not ok or e.j == e.i + 1, "inlier with outlier ratio 1")
        close(e.weight.diagonal.tensor, (1 / bound)[None], 1e-5 / bound.min(), "weight")
    need(chain == list(range(1, case["n"])), f"odometry edges to {chain}")
    for k, v in enumerate(ds.poses):
        within([np.linalg.solve(a, b) for a, b in zip(gt[k], mats("SE3", v))], f"initial pose {k}")
    if case["ratio"] == 0:
        need(len(ds.edges) == case["n"] - 1, "loop closures with ratio 0")
    t.nontrivial(len(ds.edges) > case["n"] - 1)
    t.label(f"closures={min(3, len(ds.edges) - case['n'] + 1)}")


# ------------------------------------------------------------------------- bundle adjustment
@st.composite
def ba_case(draw):
    nc, npt = draw(st.integers(0, 4)), draw(st.integers(0, 5))
    no = draw(st.integers(0, 8)) if nc and npt else 0
    return dict(
        cams=[draw(gens.tangent("SE3")) for _ in range(nc)], npt=npt,
        obs=[[draw(st.integers(0, nc - 1)), draw(st.integers(0, npt - 1))] for _ in range(no)],
        gt=draw(st.booleans()), mag=draw(st.integers(-6, 6)), seed=draw(gens.seeds), dtype=draw(st.sampled_from(["float64"] * 3 + ["float32"])),
    )


def ba_problem(case, r, names=""):
    dt = DT[case["dtype"]]
    s = 10.0 ** case["mag"]
    cams = []
    for k, x in enumerate(case["cams"]):
        f = torch.tensor([[500 * r.random() + 1]], dtype=dt)
        k1, k2 = (torch.tensor([[v]], dtype=dt) for v in r.normal(size=2) * [0.1, 0.01] * r.integers(0, 2))
        pose = make("SE3", [ref.exp("SE3", np.array(x))], case["dtype"], f"{names}C{k}")
        cams.append(ba.Camera(pose, th.Vector(tensor=f), th.Vector(tensor=k1), th.Vector(tensor=k2)))
    pts = [th.Point3(tensor=torch.tensor(r.normal(size=(1, 3)) * s, dtype=dt), name=f"{names}P{k}") for k in range(case["npt"])]
    return cams, pts


def project(cam, X):
    """the BAL camera: p = R X + t, image = f (1 + k1 n + k2 n^2) q for q = -p_xy / p_z, n = |q|^2"""
    M, X = np_(cam.pose.tensor)[0], np_(X.tensor)[0]
    p = M[:, :3] @ X + M[:, 3]
    q = -p[:2] / p[2]
    n = q @ q
    return float(cam.focal_length.tensor) * (1 + float(cam.calib_k1.tensor) * n + float(cam.calib_k2.tensor) * n * n) * q, p[2]


def same_ba(got, want, what, eps):
    cams, pts, obs = got
    wc, wp, wo = want
    need((len(cams), len(pts), len(obs)) == (len(wc), len(wp), len(wo)), f"{what}: sizes {(len(cams), len(pts), len(obs))}, saved {(len(wc), len(wp), len(wo))}")
    for k, (a, b) in enumerate(zip(cams, wc)):
        A, B = np_(a.pose.tensor)[0], np_(b.pose.tensor)[0]
        close(A[:, :3], B[:, :3], eps + rot_tol("float64" if eps < 1e-9 else "float32", B[:, :3], True), f"{what}: rotation of camera {k}")
        close(A[:, 3], B[:, 3], 0.0, f"{what}: translation of camera {k}")
        for n in ("focal_length", "calib_k1", "calib_k2"):
            close(getattr(a, n).tensor, getattr(b, n).tensor, 0.0, f"{what}: {n} of camera {k}")
    for k, (a, b) in enumerate(zip(pts, wp)):
        close(a.tensor, b.tensor, 0.0, f"{what}: point {k}")
    for k, (a, b) in enumerate(zip(obs, wo)):
        need((a.camera_index, a.point_index) == (int(b.camera_index), int(b.point_index)), f"{what}: indices of observation {k}")
        close(a.image_feature_point.tensor, b.image_feature_point.tensor, 0.0, f"{what}: observation {k}")


def check_ba(case, t, gt_load=False):
    r = gens.rng(case["seed"])
    dt = DT[case["dtype"]]
    cams, pts = ba_problem(case, r)
    gcams, gpts = ba_problem(dict(case, cams=[list(np.array(x) * 0.9) for x in case["cams"]]), r, "G") if case["gt"] else (None, None)
    obs = [ba.Observation(i, j, th.Point2(tensor=torch.tensor(r.normal(size=(1, 2)) * 10.0 ** r.integers(-3, 4), dtype=dt)))
           for i, j in case["obs"]]
    ds = ba.BundleAdjustmentDataset(cams, pts, obs, gcams, gpts)
    eps = 1e-11 if case["dtype"] == "float64" else 5e-6
    with scratch() as d:
        path, gpath = os.path.join(d, "a.txt"), os.path.join(d, "gt.txt")
        ds.save_to_file(path, *([gpath] if case["gt"] else []))
        need(os.path.exists(gpath) == case["gt"], "ground truth file")
        sets = [("problem", path, (cams, pts, obs))] + ([("ground truth", gpath, (gcams, gpts, obs))] if case["gt"] else [])
        for what, p, want in sets:
            # the text: sizes, observations, nine numbers per camera (axis-angle, translation, f, k1, k2), three per point
            w = open(p).read().split()
            need([int(x) for x in w[:3]] == [len(cams), len(pts), len(obs)], f"{what}: header {w[:3]}")
            need(len(w) == 3 + 4 * len(obs) + 9 * len(cams) + 3 * len(pts), f"{what}: {len(w)} numbers")
            w = w[3:]
            for k, o in enumerate(obs):
                need([int(x) for x in w[4 * k:4 * k + 2]] == [o.camera_index, o.point_index], f"{what}: indices of observation {k} in the file")
                close(np.array([[float(x) for x in w[4 * k + 2:4 * k + 4]]]), o.image_feature_point.tensor, 1e-6 * abs(np_(o.image_feature_point.tensor)), f"{what}: observation {k} in the file")
            w = np.array([float(x) for x in w[4 * len(obs):]])
            for k, c in enumerate(want[0]):
                x = w[9 * k:9 * k + 9]
                M = np_(c.pose.tensor)[0]
                close(ref.exp("SO3", x[:3]), M[:, :3], eps + rot_tol(case["dtype"], M[:, :3], False), f"{what}: rotation of camera {k} in the file")
                close(x[3:], np.r_[M[:, 3], float(c.focal_length.tensor), float(c.calib_k1.tensor), float(c.calib_k2.tensor)], 1e-6 * np.abs(x[3:]), f"{what}: camera {k} in the file")
            for k, q in enumerate(want[1]):
                x = w[9 * len(cams) + 3 * k:][:3]
                close(x[None], q.tensor, 1e-6 * np.abs(x), f"{what}: point {k} in the file")
            # numbers of float32 problems are written in their shortest form: the same float32
            f32 = case["dtype"] == "float32"
            got = ba.BundleAdjustmentDataset.load_bal_dataset(p)
            need(all(c.pose.dtype == torch.float64 for c in got[0]) and all(q.dtype == torch.float64 for q in got[1]), f"{what}: dtype read")
            names = [v.name for c in got[0] for v in (c.pose, c.focal_length, c.calib_k1, c.calib_k2)] + [v.name for v in got[1]]
            names += [o.image_feature_point.name for o in got[2]]
            need(len(set(names)) == len(names), f"{what}: names repeat")
            if f32:
                for v in [v for c in got[0] for v in (c.pose, c.focal_length, c.calib_k1, c.calib_k2)] + got[1] + [o.image_feature_point for o in got[2]]:
                    v.to(torch.float32)
            same_ba(got, want, what, eps)
            for c, q in [(i, j) for i, j in case["obs"]]:
                a, z = project(want[0][c], want[1][q])
                if abs(z) > 1e-2 and np.abs(a).max() < 1e6:
                    tl = ((1e-9 if not f32 else 1e-3) + 1e3 * rot_tol(case["dtype"], np_(want[0][c].pose.tensor)[0, :, :3], True)) * max(1, np.abs(a).max()) / min(1, abs(z)) ** 2 * max(1, 10.0 ** case["mag"])
                    close(want[0][c].project_point(want[1][q]), a[None], tl, f"{what}: projection")
                    close(got[0][c].project_point(got[1][q]), a[None], tl, f"{what}: projection after a round trip")
        if gt_load and case["gt"]:
            back = ba.BundleAdjustmentDataset.load_from_file(path, gpath)
        else:
            back = ba.BundleAdjustmentDataset.load_from_file(path)
            need(back.gt_cameras is None and back.gt_points is None, "ground truth read from nowhere")
        if case["dtype"] == "float64":
            same_ba((back.cameras, back.points, back.observations), (cams, pts, obs), "dataset", eps)
            if gt_load and case["gt"]:
                same_ba((back.gt_cameras, back.gt_points, back.observations), (gcams, gpts, obs), "ground truth of the dataset", eps)
    for a, b in zip(cams, ba_problem(case, gens.rng(case["seed"]))[0]):
        need(torch.equal(a.pose.tensor, b.pose.tensor), "saving changed a camera")
    t.nontrivial(len(cams) > 1 or len(pts) > 1)
    t.label("with ground truth" if case["gt"] else "no ground truth", case["dtype"])


def check_ba_gt(case, t):
    """only probed, see FINDINGS"""
    check_ba(case, t, gt_load=True)


@st.composite
def ba_syn_case(draw):
    return dict(nc=draw(st.integers(2, 5)), npt=draw(st.integers(1, 25)), track=draw(st.integers(1, 7)),
                loc=draw(st.sampled_from([0.0, 0.1, 0.5])), feat=draw(st.sampled_from([0.0, 1.5])),
                pout=draw(st.sampled_from([0.0, 0.02, 1.0])), seed=draw(gens.seeds))


def check_ba_synthetic(case, t):
    torch.manual_seed(case["seed"])
    ds = ba.BundleAdjustmentDataset.generate_synthetic(
        case["nc"], case["npt"], case["track"], case["loc"], case["feat"], case["pout"], 70)
    need(len(ds.cameras) == len(ds.gt_cameras) == case["nc"] and len(ds.points) == len(ds.gt_points) == case["npt"], "sizes")
    for a, b in zip(ds.cameras, ds.gt_cameras):
        A, B = (ref.from_data("SE3", np_(x.pose.tensor)[0]) for x in (a, b))
        P = A @ np.linalg.inv(B)
        need(np.abs(P[:3, 3]).max() <= 0.2 + 1e-9, "perturbation of a camera's position")
        # half angles up to 0.1 degrees
        need(np.linalg.norm(ref.log("SO3", P[:3, :3])) <= 2 * math.radians(0.1) + 1e-7, "perturbation of a camera's rotation")
        for n in ("focal_length", "calib_k1", "calib_k2"):
            need(torch.equal(getattr(a, n).tensor, getattr(b, n).tensor), "calibration of a perturbed camera")
    for a, b in zip(ds.points, ds.gt_points):
        need(float((a.tensor - b.tensor).abs().max()) <= 0.2 + 1e-6, "perturbation of a point")
    seen = set()
    for o in ds.observations:
        i, j = int(o.camera_index), int(o.point_index)
        need(0 <= i < case["nc"] and 0 <= j < case["npt"], f"observation of point {j} by camera {i}")
        need((i, j) not in seen, "a camera observes a point twice")
        seen.add((i, j))
        a, z = project(ds.gt_cameras[i], ds.gt_points[j])
        err = np.abs(np_(o.image_feature_point.tensor)[0] - a).max()
        need(err <= case["feat"] + (70 if case["pout"] > 0 else 0) + 1e-4 * max(1, np.abs(a).max()), f"observation {err} off its projection")
    with scratch() as d:
        p, q = os.path.join(d, "a"), os.path.join(d, "b")
        ds.save_to_file(p, q)
        f = ba.BundleAdjustmentDataset.load_bal_dataset
        same_ba(f(p), (ds.cameras, ds.points, ds.observations), "synthetic problem", 1e-11)
        same_ba(f(q), (ds.gt_cameras, ds.gt_points, ds.observations), "synthetic ground truth", 1e-11)
    t.nontrivial(len(ds.observations) > 0)


@st.composite
def edge_case(draw):
    return dict(seed=draw(gens.seeds))


def check_no_weight(case, t):
    """only probed, see FINDINGS: the weight of an edge is optional"""
    p = lambda n: th.SE3(tensor=torch.eye(3, 4).unsqueeze(0), name=n)
    ds = pg.PoseGraphDataset([p("a"), p("b")], [pg.PoseGraphEdge(0, 1, p("m"))])
    need(ds.get_batch_dataset(0).edges[0].weight is None, "weight of an edge without one")
    t.nontrivial(True)


SUBS = [
    Sub("files", file_case, check_file, 700, shards=(3, 4)),
    Sub("write", graph, check_write, 400, shards=(3, 4)),
    Sub("batches", batch_case, check_batches, 500, shards=(2, 4)),
    Sub("synthetic", syn_case, check_synthetic, 100, shards=(2, 4)),
    Sub("ba", ba_case, check_ba, 500, shards=(2, 4)),
    Sub("ba synthetic", ba_syn_case, check_ba_synthetic, 80, shards=(2, 4)),
]
# checks of listed findings, run on their exact input only
PROBES = [
    Sub("files 2d edge", file_case, check_file_2d_edge, 1),
    Sub("files blank", file_case, check_file_blank, 1),
    Sub("ba load gt", ba_case, check_ba_gt, 1),
    Sub("ba one camera", ba_syn_case, check_ba_synthetic, 1),
    Sub("edge without weight", edge_case, check_no_weight, 1),
]
_file = dict(g="SE2", ids=[0, 1], dtype="float64", V=[[0.0, 0.0, 0.0], [1.0, 0.5, 0.25]], E=[], fmt=0, sep=" ", foreign=[],
             qscale=1.0, eol=True, seed=1, load=False)
FINDINGS = {
    "g2o-2d-edges": ("files 2d edge", _file),
    "g2o-blank-line": ("files blank", _file),
    "bal-ground-truth": ("ba load gt", dict(cams=[[0.1, 0.2, 0.3, 0.4, 0.5, 0.6], [0.5, 0.4, 0.3, 0.2, 0.1, 0.0]], npt=3,
                                           obs=[[0, 1], [1, 2]], gt=True, mag=0, seed=3, dtype="float64")),
    "bal-one-camera": ("ba one camera", dict(nc=1, npt=5, track=2, loc=0.1, feat=1.5, pout=0.0, seed=1)),
    "edge-without-weight": ("edge without weight", dict(seed=0)),
}
