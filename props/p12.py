import math

import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st

from vlib import gens
from vlib.core import Skip, Sub
from vlib.costs import sdf_query
from vlib.th import DT, close, expect_raise, need, np_

PROPERTY = "P12"
RULE = (
    "query: grids from 1x1 to 7x7, batches with their own grid / origin / cell size (each singleton or full), points "
    "inside, on nodes and cell borders, on the outer border and outside, argument forms (tensor, Variable, float). "
    "map: occupancy maps with any pattern except fully occupied, compared with brute-force distances. "
    "Used objects are compared with new ones that get the same data. Non-trivial: a batch above one, or a point outside or on a border / a map with both kinds of cells."
)
ASSUMPTIONS = [
    "Gradients are compared away from cell borders (1e-3 cells); values everywhere, outer border only on exactly representable grids.",
    "A map without occupied cells uses twice the largest map extent, a map without free cells is out of domain.",
]


@st.composite
def query_case(draw):
    return dict(B=draw(st.integers(1, 3)), R=draw(st.integers(1, 7)), C=draw(st.integers(1, 7)), P=draw(st.integers(1, 4)),
                b=[int(draw(st.integers(0, 2)) > 0) for _ in range(4)], dtype=draw(gens.dtypes), seed=draw(gens.seeds),
                exact=draw(st.booleans()), kinds=[draw(st.integers(0, 4)) for _ in range(4)],
                form=draw(st.integers(0, 3)), to=draw(st.integers(0, 5)) == 0, bv=draw(st.sampled_from([0.0, 0.0, 5.0])), upd=draw(st.booleans()))


def check_query(c, t):
    r = gens.rng(c["seed"])
    dt = DT[c["dtype"]]
    R, C, Pn = c["R"], c["C"], c["P"]
    n = [c["B"] if f else 1 for f in c["b"]]

    def rnd(a):
        return np_(torch.tensor(a, dtype=dt))

    def data():
        sdf = rnd(r.normal(size=(n[0], R, C)) * 2)
        if c["exact"]:
            org = r.integers(-8, 8, size=(n[1], 2)) / 4.0
            cell = 2.0 ** r.integers(-3, 2, size=(n[2], 1))
        else:
            org, cell = rnd(r.normal(size=(n[1], 2))), rnd(np.exp(r.normal(size=(n[2], 1)) * 0.5))
        return sdf, org, cell

    sdf, org, cell = data()
    form = c["form"]
    if form == 3 and n[2] == 1 and dt == torch.float32:
        cs = float(cell[0, 0])
    elif form == 2:
        cs = torch.tensor(cell[:, :1], dtype=dt)
    elif form == 1:
        cs = th.Variable(torch.tensor(cell[:, 0], dtype=dt))
    else:
        cs = th.Variable(torch.tensor(cell, dtype=dt))
    o = torch.tensor(org, dtype=dt)
    s = torch.tensor(sdf, dtype=dt)
    f = th.eb.SignedDistanceField2D(o if form % 2 else th.Point2(tensor=o), cs, s if form < 2 else th.Variable(s),
                                    sdf_boundary_value=c["bv"])
    if c["upd"]:
        sdf, org, cell = data()
        f.update_data(torch.tensor(org, dtype=dt), torch.tensor(sdf, dtype=dt), torch.tensor(cell, dtype=dt))
    if c.get("to"):  # there and back through float64 changes nothing
        f.to(dtype=torch.float64)
        need(all(v.dtype == torch.float64 for v in (f.origin, f.cell_size, f.sdf_data)), "dtype of the field after to()")
        f.to(dtype=dt)
        need(all(v.dtype == dt for v in (f.origin, f.cell_size, f.sdf_data)), "dtype of the field after to()")
    B = max(n)
    # points in cell coordinates per element
    uv = np.zeros((n[3], Pn, 2))
    for i in range(n[3]):
        for k in range(Pn):
            q = c["kinds"][k]
            if q == 0 or q == 1:
                uv[i, k] = r.random(2) * [max(C - 1, 0.5), max(R - 1, 0.5)]
            elif q == 2:  # node
                uv[i, k] = [r.integers(0, C), r.integers(0, R)]
            elif q == 3:  # one coordinate on a cell border
                uv[i, k] = r.random(2) * [max(C - 1, 0.5), max(R - 1, 0.5)]
                uv[i, k, r.integers(0, 2)] = r.integers(0, min(R, C))
            else:
                uv[i, k] = r.normal(size=2) * 3 + [r.choice([-3, C + 2]), r.choice([-3, R / 2, R + 2])]
    if c["exact"]:
        uv = np.round(uv * 8) / 8
    o_, c_ = (org[: 1 if n[1] == 1 or n[3] == 1 else None], cell[: 1 if n[2] == 1 or n[3] == 1 else None])
    pts = rnd(o_[:, None, :] + uv * c_[:, :, None]) if not (n[3] == 1) else rnd(org[:1, None, :] + uv * cell[:1, :, None])
    T = torch.tensor(pts.transpose(0, 2, 1), dtype=dt).requires_grad_(True)
    dist, jac = f.signed_distance(T)
    need(tuple(dist.shape) == (B, Pn) and tuple(jac.shape) == (B, Pn, 2), f"shapes {tuple(dist.shape)}, {tuple(jac.shape)}; batch {B}")
    need(dist.dtype == dt and jac.dtype == dt, "dtype")
    t.nontrivial(B > 1 or any(k > 1 for k in c["kinds"][:Pn]))
    g = torch.autograd.grad(dist.sum(), T)[0] if dist.requires_grad else torch.zeros_like(T)
    gsum = np.zeros((n[3], Pn, 2))
    smooth = np.ones((n[3], Pn), bool)
    eps = 2e-4 if dt == torch.float32 else 1e-9
    for b in range(B):
        for k in range(Pn):
            p = pts[b if n[3] > 1 else 0, k]
            S, O, L = sdf[b if n[0] > 1 else 0], org[b if n[1] > 1 else 0], cell[b if n[2] > 1 else 0][0]
            v, gr, kink = sdf_query(S, O, L, p, c["bv"])
            u = (p - O) / L
            edge = min(abs(u[0]), abs(u[0] - C + 1), abs(u[1]), abs(u[1] - R + 1))
            far = u[0] < 0 or u[1] < 0 or u[0] > C - 1 or u[1] > R - 1
            t.label("outside" if far else ("border" if kink < 1e-9 else "inside"))
            gsum[b if n[3] > 1 else 0, k] += gr
            if edge < 1e-4 and not c["exact"]:
                smooth[b if n[3] > 1 else 0, k] = False
                continue
            m = (1 + np.abs(S).max()) * (1 + np.abs(u).max())
            close(np_(dist)[b, k], v, eps * m, f"distance at {p} (cell coordinates {u}, grid {R}x{C})")
            if far:
                need(np_(dist)[b, k] == c["bv"] and (np_(jac)[b, k] == 0).all(), f"outside: {np_(dist)[b, k]}, gradient {np_(jac)[b, k]}")
            elif kink > 1e-3:
                close(np_(jac)[b, k], gr, 4 * eps * m / L, f"gradient at {p} (cell coordinates {u}, grid {R}x{C})")
            else:
                smooth[b if n[3] > 1 else 0, k] = False
    got = np_(g).transpose(0, 2, 1)
    m = (1 + np.abs(sdf).max()) * 20 / cell.min()
    close(np.where(smooth[..., None], got, 0), np.where(smooth[..., None], gsum, 0), 4 * eps * m * B, "derivative of the distance")
    # a field that was used before answers like a new one with the same data
    new = data()
    for v, x in zip((f.sdf_data, f.origin, f.cell_size), new):
        k = int(r.integers(0, 4))
        x = torch.tensor(x, dtype=dt).view(v.shape)
        if k == 0:
            v.update(x)
        elif k == 1:
            i = int(r.integers(0, v.shape[0]))
            v[i] = x[i]
    fresh = th.eb.SignedDistanceField2D(th.Point2(tensor=f.origin.tensor.clone()), th.Variable(f.cell_size.tensor.clone()),
                                        th.Variable(f.sdf_data.tensor.clone()), sdf_boundary_value=c["bv"])
    with torch.no_grad():
        for x, y, what in zip(f.signed_distance(T), fresh.signed_distance(T), ("distance", "gradient")):
            need(torch.equal(x, y), f"{what} of a field whose data changed differs from that of a new field")


@st.composite
def map_case(draw):
    R, C, B = draw(st.integers(1, 7)), draw(st.integers(1, 7)), draw(st.integers(1, 3))
    return dict(R=R, C=C, B=B, occ=[[draw(st.integers(0, 4)) for _ in range(R * C)] for _ in range(B)], thr=draw(st.sampled_from([0.75, 0.3, 0.5])),
                cb=draw(st.booleans()), dtype=draw(gens.dtypes), seed=draw(gens.seeds), dens=draw(st.integers(0, 3)), var=draw(st.booleans()))


def check_map(c, t):
    r = gens.rng(c["seed"])
    dt = DT[c["dtype"]]
    B, R, C = c["B"], c["R"], c["C"]
    occ = np.array(c["occ"], float).reshape(B, R, C) / 4.0
    if c["dens"] == 0:
        occ = np.where(occ < 1, 0, occ)
    th_ = c["thr"]
    for b in range(B):
        if (occ[b] > th_).all():
            occ[b].flat[r.integers(0, R * C)] = 0.0
    if (occ == th_).any():
        occ = np.where(occ == th_, occ, occ)
    cell = np_(torch.tensor(np.exp(r.normal(size=(B if c["cb"] else 1, 1)) * 0.5), dtype=dt))
    O = torch.tensor(occ, dtype=dt)
    f = th.eb.SignedDistanceField2D(torch.zeros(1, 2, dtype=dt), torch.tensor(cell, dtype=dt),
                                    occupancy_map=th.Variable(O) if c["var"] else O, occupancy_threshold=th_)
    got = np_(f.sdf_data.tensor)
    need(f.sdf_data.tensor.dtype == dt, f"dtype {f.sdf_data.tensor.dtype}")
    need(np.array_equal(np_(O), np_(torch.tensor(occ, dtype=dt))), "the map was modified")
    want = np.zeros((B, R, C))
    idx = np.array([(i, j) for i in range(R) for j in range(C)])
    for b in range(B):
        L = cell[b if c["cb"] else 0][0]
        o = occ[b].ravel() > th_
        t.nontrivial(o.any())
        t.label("obstacles" if o.any() else "free")
        D = np.sqrt(((idx[:, None] - idx[None]) ** 2).sum(-1))
        if not o.any():
            want[b] = 2 * L * max(R, C)
            continue
        d = np.where(o, -np.where(o[None, :], np.inf, D).min(1), np.where(o[None, :], D, np.inf).min(1))
        want[b] = d.reshape(R, C) * L
    close(got, want, (1e-5 if dt == torch.float32 else 1e-12) * (1 + np.abs(want)), "distance field of the map")


@st.composite
def bad_case(draw):
    return dict(k=draw(st.integers(0, 7)), R=draw(st.integers(2, 4)))


def check_bad(c, t):
    t.nontrivial()
    R = c["R"]
    S = th.eb.SignedDistanceField2D
    o, d, s = torch.zeros(1, 2), torch.zeros(1, R, R), 0.5
    bad = [
        lambda: S(o, s), lambda: S(o, s, d, occupancy_map=d), lambda: S(torch.zeros(1, 3), s, d), lambda: S([0.0, 0.0], s, d),
        lambda: S(o, "x", d), lambda: S(o, s, torch.zeros(R, R)), lambda: S(o, s, occupancy_map=torch.zeros(R, R)),
        lambda: S(o, th.Variable(torch.zeros(1, 2)), d),
    ][c["k"]]
    expect_raise(bad, f"invalid field arguments #{c['k']}", ValueError)


SUBS = [
    Sub("query", query_case, check_query, 4000, shards=(5, 8)),
    Sub("map", map_case, check_map, 800, shards=(2, 8)),
    Sub("invalid", bad_case, check_bad, 24, shards=(1, 1)),
]
