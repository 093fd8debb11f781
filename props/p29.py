import copy

import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st

from vlib import gens, problems as P, ref
from vlib.core import Skip, Sub, Violation
from vlib.th import DT, close, cls, need, np_

PROPERTY = "P29"
RULE = (
    "A case draws either a variable of any kind and a history of updates (tensor or variable as data, with and without "
    "masks, gradients on or off, wrong shapes and dtypes, copies, item assignment), masked updates of a whole objective, or "
    "a retraction of all variables with an ordering, a mask and vectorisation on or off. Values are compared with a numpy "
    "model; every tensor handed over or read out earlier must stay unmodified. Non-trivial: some batch elements masked and "
    "others not, or more than one variable retracted."
)
ASSUMPTIONS = ["Variable.update validates shape and dtype; group validity is validated at construction (P06)"]

KINDS = ["R1", "R3", "Point2", "Point3", "SO2", "SE2", "SO3", "SE3", "var2", "var3"]


def rand(kind, n, r, scale=1.0):
    if kind == "var2":
        return r.normal(size=(n, 3))
    if kind == "var3":
        return r.normal(size=(n, 2, 3))
    return np.stack([ref.to_data(kind, ref.exp(kind, r.normal(size=ref.dof(kind)) * scale)) for _ in range(n)])


def new(kind, t, name=None):
    return th.Variable(t, name=name) if kind.startswith("var") else cls(kind)(tensor=t, name=name)


class Watch:
    def __init__(self):
        self.w = []

    def __call__(self, t, what):
        self.w.append((t, t.detach().clone(), what))
        return t

    def check(self):
        for t, s, what in self.w:
            need(t.shape == s.shape and torch.equal(t.detach(), s), f"{what} was modified")


# ------------------------------------------------------------------- one variable
@st.composite
def var_case(draw):
    n = draw(st.integers(1, 4))
    ops = draw(st.lists(st.fixed_dictionaries(dict(
        op=st.sampled_from(["tensor", "var", "mask", "mask", "mask", "shape", "dtype", "item", "copy", "batch", "to"]),
        seed=gens.seeds, grad=st.booleans(), no_grad=st.booleans())), min_size=1, max_size=6))
    return dict(kind=draw(st.sampled_from(KINDS)), dt=draw(gens.dtypes), n=n, single=draw(st.integers(0, 3)) == 0, ops=ops,
                seed=draw(gens.seeds))


def var_check(c, t):
    kind, dt = c["kind"], DT[c["dt"]]
    other = torch.float32 if dt == torch.float64 else torch.float64
    n = c["n"]
    watch = Watch()
    x = torch.tensor(rand(kind, 1 if c["single"] else n, gens.rng(c["seed"])), dtype=dt)
    v = new(kind, x.clone(), "v")
    cur = x.numpy().copy()
    t.label(kind, c["dt"])
    copies = []
    for o in c["ops"]:
        r = gens.rng(o["seed"])
        watch(v.tensor, "the tensor held before an update")
        data = rand(kind, n, r)
        d = torch.tensor(data, dtype=dt)
        if o["grad"]:
            d.requires_grad_(True)
        t.label(o["op"])
        with torch.set_grad_enabled(not o["no_grad"]):
            if o["op"] == "tensor":
                v.update(watch(d, "data of an update"))
                need(v.tensor.requires_grad == (o["grad"]), "gradient history of the given tensor")
                cur = np_(d)
            elif o["op"] == "var":
                u = new(kind, watch(d, "data of an update"))
                v.update(u)
                cur = np_(d)
                need(torch.equal(u.tensor, d), "the variable given as data changed")
            elif o["op"] == "mask":
                m = torch.tensor(r.integers(0, 2, size=n).astype(bool))
                if cur.shape[0] not in (1, n):
                    continue
                ms = m.clone()
                v.update(watch(d, "data of a masked update"), batch_ignore_mask=m)
                need(torch.equal(m, ms), "mask modified")
                old = np.broadcast_to(cur, (n,) + cur.shape[1:])
                if m.any():
                    cur = np.where(m.numpy().reshape((-1,) + (1,) * (cur.ndim - 1)), old, np_(d))
                else:
                    cur = np_(d)
                t.nontrivial(bool(m.any()) and not bool(m.all()))
            elif o["op"] in ("shape", "dtype"):
                if o["op"] == "dtype":
                    bad = d.detach().to(other)
                else:
                    bad = [d[0], d.unsqueeze(-1), torch.cat([d, d], -1), d[..., :-1]][int(r.integers(0, 4))].detach()
                mask = torch.tensor(r.integers(0, 2, size=n).astype(bool)) if r.integers(0, 2) else None
                try:
                    v.update(bad, batch_ignore_mask=mask)
                except ValueError:
                    pass
                else:
                    raise Violation(f"update of a {tuple(v.shape)} {v.dtype} variable with {tuple(bad.shape)} {bad.dtype} data accepted")
            elif o["op"] == "item":
                if v.tensor.requires_grad:
                    continue
                i = int(r.integers(0, cur.shape[0]))
                watch.w = [w for w in watch.w if w[0].untyped_storage().data_ptr() != v.tensor.untyped_storage().data_ptr()]
                v[i] = d.detach()[0]
                cur = cur.copy()
                cur[i] = np_(d)[0]
                need(torch.equal(v[i], d.detach()[0]), "item read back")
            elif o["op"] == "copy":
                if r.integers(0, 3) == 0:
                    u, u2 = copy.deepcopy([v, v])
                    need(u is u2, "one variable deep-copied into two")
                else:
                    u = v.copy(new_name="u") if r.integers(0, 2) else v.copy()
                need(type(u) is type(v) and u.name == ("u" if u.name == "u" else "v_copy"), "copy: type or name")
                need(torch.equal(u.tensor, v.tensor) and u.dtype == v.dtype, "copy: value")
                need(u.tensor.untyped_storage().data_ptr() != v.tensor.untyped_storage().data_ptr(), "copy shares memory")
                copies.append((u, np_(u.tensor).copy()))
            elif o["op"] == "batch":  # a different batch size is fine for a variable alone
                k = int(r.integers(1, 5))
                d = torch.tensor(rand(kind, k, r), dtype=dt)
                v.update(watch(d, "data of an update"))
                cur = np_(d)
            elif o["op"] == "to":
                v.to(dtype=other)
                need(v.dtype == other, "to(dtype)")
                v.to(dtype=dt)
                cur = torch.tensor(cur, dtype=dt).to(other).to(dt).double().numpy()
        need(v.dtype == dt and v.name == "v", "dtype and name")
        need(v.shape == v.tensor.shape == torch.Size(cur.shape), f"shape {tuple(v.shape)}, expected {cur.shape}")
        need(np.array_equal(np_(v.tensor), cur.astype(np.float64)), f"value after {o['op']}")
        watch.check()
        for u, a in copies:
            need(np.array_equal(np_(u.tensor), a), "a copy changed with the original")


# ---------------------------------------------------------------- whole objectives
@st.composite
def obj_case(draw):
    s = draw(P.spec(max_b=4, max_vars=4, max_cfs=4, single_opt=draw(st.booleans())))
    return dict(s=s, vec=draw(st.booleans()), steps=draw(st.lists(st.fixed_dictionaries(dict(
        op=st.sampled_from(["retract", "retract", "update"]), seed=gens.seeds, mask=st.sampled_from(["none", "some", "some", "all", "zero"]),
        force=st.integers(0, 4).map(lambda k: k == 0), no_grad=st.booleans(), single=st.integers(0, 3).map(lambda k: k == 0),
        sub=st.integers(0, 3).map(lambda k: k == 0))), min_size=1, max_size=4)))


def obj_check(c, t):
    s = c["s"]
    p = P.Problem(s)
    f32 = s["dtype"] == "float32"
    cur = {n: v.copy() for n, v in p.values.items()}
    obj = p.build(values=cur)
    V = p.V
    obj.update()
    if c["vec"]:
        th.Vectorize(obj)
    t.label("vectorized" if c["vec"] else "plain", s["dtype"])
    watch = Watch()
    for o in c["steps"]:
        r = gens.rng(o["seed"])
        B = p.batch(cur)
        for n in p.opt:
            watch(V[n].tensor, f"the tensor held by {n} before")
        mask = None
        if o["mask"] != "none":
            m = {"some": r.integers(0, 2, size=B), "all": np.ones(B), "zero": np.zeros(B)}[o["mask"]].astype(bool)
            mask = torch.tensor(m)
        mk = np.zeros(B, bool) if mask is None else mask.numpy()
        with torch.set_grad_enabled(not o["no_grad"]):
            if o["op"] == "update":
                d = {n: p.draw(n, B if mask is not None else a.shape[0], rng=r) for n, a in cur.items() if r.integers(0, 2)}
                inp = {n: watch(p.tensor(a), f"input {n}") for n, a in d.items()}
                obj.update(inp, batch_ignore_mask=mask)
                for n, a in d.items():
                    old = np.broadcast_to(cur[n], a.shape) if a.shape[0] >= cur[n].shape[0] else cur[n]
                    cur[n] = np.where(mk.reshape((-1,) + (1,) * (a.ndim - 1)), old, a) if mk.any() else a
                for n in p.groups:
                    need(np.array_equal(np_(V[n].tensor), cur[n]), f"{n} after a masked update")
                t.nontrivial(mk.any() and not mk.all() and bool(d))
            else:
                names = list(r.permutation(p.opt))
                if o["sub"]:
                    names = names[: max(1, len(names) - 1)]
                nb = 1 if o["single"] and mask is None else B
                dofs = [ref.dof(p.groups[n]) for n in names]
                dl = torch.tensor(r.normal(size=(nb, sum(dofs))), dtype=p.dt)
                watch(dl, "the step")
                dn = np_(dl)
                before = {n: V[n].tensor for n in V}
                obj.retract_vars_sequence(dl, [V[n] for n in names], ignore_mask=mask, force_update=bool(o["force"]))
                k = 0
                for n, q in zip(names, dofs):
                    g = p.groups[n]
                    a = np.stack([ref.to_data(g, ref.compose(
                        g, ref.from_data(g, cur[n][b if cur[n].shape[0] > 1 else 0]), ref.exp(g, dn[b if nb > 1 else 0, k:k + q])))
                        for b in range(B)])
                    old = np.broadcast_to(cur[n], a.shape)
                    skip = mk & (not o["force"])
                    want = np.where(skip.reshape((-1,) + (1,) * (a.ndim - 1)), old, a)
                    got = np_(V[n].tensor)
                    need(got.shape[0] in (B, 1), f"batch size of {n}")
                    gotb = np.broadcast_to(got, want.shape)
                    sc = max(1, np.abs(want).max())
                    close(gotb, want, (2e-5 if f32 else 1e-9) * sc, f"{n} after retraction")
                    need(np.array_equal(gotb[skip], old[skip]), f"masked elements of {n} moved")
                    cur[n] = got.copy()
                    k += q
                for n in V:
                    if n not in names:
                        need(V[n].tensor is before[n], f"{n} is not part of the retraction but changed")
                t.nontrivial(len(names) > 1 or mk.any() and not mk.all())
        watch.check()
        # the objective sees the moved variables
        if not p.near_pi(cur) and all(np.isfinite(a).all() for a in cur.values()):
            with torch.no_grad():
                e = np_(obj.error())
            w = p.all_errors(cur)
            close(e, np.broadcast_to(w, e.shape) if w.shape[0] == 1 else w, (3e-4 if f32 else 1e-8) * (1 + np.abs(w).max()),
                  "objective error afterwards")


SUBS = [
    Sub("variable", var_case, var_check, 1500, shards=(3, 4)),
    Sub("objective", obj_case, obj_check, 900, shards=(5, 5)),
]
