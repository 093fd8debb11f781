import copy

import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st

from vlib import costs, gens, problems as P
from vlib.core import Skip, Sub
from vlib.th import close, expect_raise, need

PROPERTY = "P07"
RULE = (
    "A case draws a pool of cost functions sharing variables, weights and auxiliary variables (plain, autodiff, "
    "robust, Gaussian-process with a shared time step, weights whose variable is also used by a cost function) and "
    "a history of add / re-add / erase / copy / lookup / solver-construction operations; after each operation the "
    "objective is compared with a list-based model. Non-trivial: at least one erase or copy of a nonempty objective."
)
ASSUMPTIONS = ["After a rejected add the history ends: the objective's state is then unspecified (an existing test relies on the partial state)."]


@st.composite
def case(draw):
    s = draw(P.spec(max_cfs=6, max_vars=4, dtypes=st.just("float64"), groups=draw(st.sampled_from([["R1", "R2"], ["SE2", "R2"], ["SO3"]]))))
    extra = draw(st.lists(st.sampled_from(["gp", "gp2", "shareaw", "collide"]), max_size=2, unique=True))
    OPS = ["add"] * 7 + ["erase"] * 4 + ["copy", "copy", "switch", "lookup", "solver", "solver", "readd", "copy_layer"]
    END = ["clash_cf", "clash_var", "dtype", "dual"]
    ops = [(draw(st.sampled_from(OPS)), draw(gens.seeds)) for _ in range(draw(st.integers(3, 14)))]
    if draw(st.booleans()):
        ops.insert(draw(st.integers(0, len(ops))), ("erase_missing", 0))
    if draw(st.booleans()):
        ops.append((draw(st.sampled_from(END)), draw(gens.seeds)))
    return dict(s=s, extra=extra, vec=draw(st.integers(0, 3)) == 0, ops=[list(o) for o in ops])


def pool(c):
    p = P.Problem(c["s"])
    p.build()
    cfs = list(p.cfs)
    dt = p.dt
    r = gens.rng(c["s"]["seed"] + 1)

    def vec(n, name):
        return th.Vector(tensor=torch.tensor(r.normal(size=(1, n)), dtype=dt), name=name)

    for k in c["extra"]:
        if k in ("gp", "gp2"):
            d = th.Variable(torch.full((1, 1), 0.5, dtype=dt), name="dt_" + k)
            w = th.eb.GPCostWeight(th.Variable(torch.eye(2, dtype=dt)[None], name="Q_" + k), d, name="gpw_" + k)
            q, v = [vec(2, f"{k}q{i}") for i in range(3)], [vec(2, f"{k}v{i}") for i in range(3)]
            for i in range(2 if k == "gp2" else 1):
                cfs.append(th.eb.GPMotionModel(q[i], v[i], q[i + 1], v[i + 1], d, w, name=f"{k}{i}"))
        elif k == "shareaw":
            s = th.Variable(torch.full((1, 1), 1.5, dtype=dt), name="shared_scale")
            x = vec(1, "sx")
            w = th.ScaleCostWeight(s, name="shared_weight")
            cfs.append(th.AutoDiffCostFunction([x], f_shared, 1, cost_weight=w, aux_vars=[s], name="share"))
        elif k == "collide":
            x = th.Point2(tensor=torch.tensor(r.normal(size=(1, 2)), dtype=dt), name="cx")
            sdf = th.Variable(torch.tensor(r.normal(size=(1, 4, 4)), dtype=dt), name="sdf")
            o = th.Point2(tensor=torch.full((1, 2), -2.0, dtype=dt), name="so")
            cell = th.Variable(torch.ones(1, 1, dtype=dt), name="sc")
            eps = th.Variable(torch.ones(1, 1, dtype=dt), name="seps")
            w = th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=dt), name="scw"), name="scweight")
            cfs.append(th.eb.Collision2D(x, o, sdf, cell, eps, w, name="col0"))
            y = th.Point2(tensor=torch.tensor(r.normal(size=(1, 2)), dtype=dt), name="cy")
            cfs.append(th.eb.Collision2D(y, o, sdf, cell, eps, w, name="col1"))
    return p, cfs


def f_shared(optim_vars, aux_vars):
    return optim_vars[0].tensor - 2 * aux_vars[0].tensor


def names(it):
    return [v.name for v in it]


def ovars(cf):
    return list(dict.fromkeys(cf.optim_vars))


def avars(cf):
    return list(dict.fromkeys(list(cf.aux_vars)))


class Model:
    def __init__(self):
        self.cfs = []  # present, in order
        self.opt = []  # names, in order of continuous presence

    def add(self, cf):
        self.cfs.append(cf)
        for v in ovars(cf):
            if v.name not in self.opt:
                self.opt.append(v.name)

    def erase(self, cf):
        self.cfs.remove(cf)
        used = {v.name for f in self.cfs for v in f.optim_vars}
        self.opt = [n for n in self.opt if n in used]


def compare(obj, m, what):
    need(names(obj) == [c.name for c in m.cfs], f"{what}: cost functions {names(obj)}, expected {[c.name for c in m.cfs]}")
    need(all(a is b for a, b in zip(obj, m.cfs)), f"{what}: cost function objects")
    need(list(obj.optim_vars) == m.opt, f"{what}: optimisation variables {list(obj.optim_vars)}, expected {m.opt}")
    weights = list(dict.fromkeys(c.weight for c in m.cfs))
    aux = {}
    for f in m.cfs + weights:
        for v in f.aux_vars:
            aux[v.name] = v
    need(set(obj.aux_vars) == set(aux), f"{what}: auxiliary variables {sorted(obj.aux_vars)}, expected {sorted(aux)}")
    need(all(obj.aux_vars[n] is v for n, v in aux.items()), f"{what}: auxiliary variable objects")
    ov = {v.name: v for c in m.cfs for v in c.optim_vars}
    need(all(obj.optim_vars[n] is v for n, v in ov.items()), f"{what}: optimisation variable objects")
    need(obj.size() == (len(m.cfs), len(ov)) and obj.size_cost_functions() == len(m.cfs)
         and obj.size_variables() == len(ov) and obj.size_aux_vars() == len(aux), f"{what}: sizes")
    need(obj.dim() == sum(c.dim() for c in m.cfs), f"{what}: dim() {obj.dim()}")
    for n, v in ov.items():
        want = sorted(f.name for f in m.cfs for u in f.optim_vars if u is v)
        for key in (n, v):
            got = sorted(names(obj.get_functions_connected_to_optim_var(key)))
            need(got == want, f"{what}: functions of {n}: {got}, expected {want}")
    for n, v in aux.items():
        want = sorted(f.name for f in m.cfs + weights for u in f.aux_vars if u is v)
        for key in (n, v):
            got = sorted(names(obj.get_functions_connected_to_aux_var(key)))
            need(got == want, f"{what}: functions of {n}: {got}, expected {want}")


def lookups(obj, m, cfs, what):
    for c in cfs:
        need(obj.has_cost_function(c.name) == (c in m.cfs), f"{what}: has_cost_function({c.name})")
        need(obj.get_cost_function(c.name) is (c if c in m.cfs else None), f"{what}: get_cost_function({c.name})")
        for v in c.optim_vars:
            there = v.name in m.opt
            need(obj.has_optim_var(v.name) == there and (obj.get_optim_var(v.name) is v) == there, f"{what}: {v.name}")
            if not there:
                expect_raise(lambda: obj.get_functions_connected_to_optim_var(v.name), f"{what}: connections of absent {v.name}", ValueError)
                expect_raise(lambda: obj.get_functions_connected_to_optim_var(v), f"{what}: connections of absent {v.name}", ValueError)


def shape_of(obj):
    """structure by names"""
    return [
        (type(c).__name__, c.name, names(c.optim_vars), names(c.aux_vars), type(c.weight).__name__, c.weight.name,
         names(c.weight.aux_vars), c.dim()) for c in obj
    ]


def check_copy(obj, what, r, every=False):
    if r.integers(0, 4) == 0:  # the copy module goes through the same code and keeps identity
        cp, cp1 = copy.deepcopy([obj, obj])
        need(cp is cp1, f"{what}: one objective deep-copied into two")
    else:
        cp = obj.copy()
    need(shape_of(cp) == shape_of(obj), f"{what}: structure of the copy")
    need(set(cp.optim_vars) == set(obj.optim_vars) and set(cp.aux_vars) == set(obj.aux_vars), f"{what}: variables of the copy")
    need(cp.dtype == obj.dtype, f"{what}: dtype of the copy")
    a = [c.weight for c in obj]
    b = [c.weight for c in cp]
    need([a.index(x) for x in a] == [b.index(x) for x in b], f"{what}: sharing of weights in the copy")
    mine = {id(v) for v in list(obj.optim_vars.values()) + list(obj.aux_vars.values())}
    mine |= {id(c) for c in obj} | {id(w) for w in a}
    theirs = list(cp.optim_vars.values()) + list(cp.aux_vars.values()) + list(cp) + b
    need(not any(id(x) in mine for x in theirs), f"{what}: the copy shares an object with the original")
    if not obj.size()[0]:
        return cp
    before = obj.error()
    close(*torch.broadcast_tensors(cp.error(), before), 1e-12, f"{what}: error of the copy")
    # the copy responds to its own variables as the original would, and only the copy
    new = {}
    for n, v in list(obj.optim_vars.items()) + list(obj.aux_vars.items()):
        if r.integers(0, 2) and (every or n[0] in "xtwrsgcv" and n not in ("sdf",) and not n.startswith(("dt_", "so"))):
            if isinstance(v, th.LieGroup) and not isinstance(v, th.Vector):
                d = torch.tensor(r.normal(size=(v.shape[0], v.dof())) * 0.2, dtype=v.dtype)
                new[n] = v.retract(d).tensor
            else:
                new[n] = v.tensor * 1.25 + 0.01
    keep = {n: v.tensor for n, v in list(obj.optim_vars.items()) + list(obj.aux_vars.items())}
    want = obj.error(input_tensors={n: t.clone() for n, t in new.items()})
    cp.update({n: t.clone() for n, t in new.items()})
    close(*torch.broadcast_tensors(cp.error(), want), 1e-10, f"{what}: error of the copy after updating it")
    close(obj.error(), before, 1e-12, f"{what}: error of the original after updating the copy")
    obj.update()
    # linearised values follow too
    cp2 = [c.weighted_jacobians_error() for c in cp]
    obj.update(new)
    want2 = [c.weighted_jacobians_error() for c in obj]
    obj.update(keep)
    for (j1, e1), (j2, e2), c in zip(cp2, want2, obj):
        close(*torch.broadcast_tensors(e1, e2), 1e-10, f"{what}: rescaled error of the copy of {c.name}")
        for x, y in zip(j1, j2):
            close(*torch.broadcast_tensors(x, y), 1e-9, f"{what}: Jacobian of the copy of {c.name}")
    return cp


def check(c, t):
    p, cfs = pool(c)
    obj = th.Objective(dtype=p.dt)
    m = Model()
    solvers = []
    for i, (op, seed) in enumerate(c["ops"]):
        r = gens.rng(seed)
        what = f"op {i} ({op})"
        t.label(op)
        inside = [f for f in cfs if f in m.cfs]
        outside = [f for f in cfs if f not in m.cfs]
        if op == "add" and outside:
            f = outside[r.integers(0, len(outside))]
            obj.add(f)
            m.add(f)
            solvers = [(s, True) for s, _ in solvers]
        elif op == "erase" and inside:
            f = inside[r.integers(0, len(inside))]
            obj.erase(f.name)
            m.erase(f)
            t.nontrivial()
            solvers = [(s, True) for s, _ in solvers]
        elif op == "readd" and inside:
            obj.add(inside[r.integers(0, len(inside))])
        elif op == "erase_missing":
            obj.erase("no such cost function")
            solvers = [x for x in solvers if x[1]]  # refusing to run after this is allowed, not required
        elif op in ("copy", "switch"):
            check_copy(obj, what, r)
            t.nontrivial(len(m.cfs) > 0)
            if op == "switch":  # continue the history on a fresh copy
                cp = obj.copy()
                by = {f.name: f for f in cp}
                obj = cp
                m2 = Model()
                for f in cp:
                    m2.add(f)
                outs = [f for f in cfs if f.name not in by]
                shared = {v.name for f in cp for v in list(f.optim_vars) + list(f.aux_vars) + list(f.weight.aux_vars)}
                outs = [f for f in outs if not shared & {
                    v.name for v in list(f.optim_vars) + list(f.aux_vars) + list(f.weight.aux_vars)}]
                cfs = list(cp) + outs
                m = m2
                solvers = []
        elif op == "copy_layer" and inside:
            layer = th.TheseusLayer(th.GaussNewton(obj, max_iterations=1), vectorize=c["vec"])
            obj.disable_vectorization()
            del layer
        elif op == "lookup":
            lookups(obj, m, cfs, what)
        elif op == "solver" and inside:
            solvers.append((th.GaussNewton(obj, max_iterations=0), False))
        elif op == "clash_cf" and inside:
            f = inside[r.integers(0, len(inside))]
            g = th.Local(th.Vector(1, dtype=p.dt, name="fresh"), th.Vector(1, dtype=p.dt, name="fresh_t"),
                         th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=p.dt), name="fw")), name=f.name)
            expect_raise(lambda: obj.add(g), f"{what}: a different cost function with the same name", ValueError)
            compare(obj, m, what)
        elif op in ("clash_var", "dtype", "dual") and inside:
            f = inside[r.integers(0, len(inside))]
            v = list(f.optim_vars)[0]
            w = th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=p.dt), name="fw"))
            one = th.Vector(1, dtype=p.dt, name="fresh_t")
            if op == "clash_var":
                which = r.integers(0, 3)
                if which == 0:
                    bad = th.Local(th.Vector(1, dtype=p.dt, name=v.name), one, w, name="bad")
                elif which == 1:
                    bad = th.Local(one, th.Vector(1, dtype=p.dt, name=v.name), w, name="bad")
                else:
                    bad = th.Local(one, one.copy(new_name="o2"), th.ScaleCostWeight(
                        th.Variable(torch.ones(1, 1, dtype=p.dt), name=v.name)), name="bad")
            elif op == "dtype":
                if r.integers(0, 2):
                    bad = th.Local(th.Vector(1, dtype=torch.float32, name="f32"), one, w, name="bad")
                else:
                    bad = th.Local(th.Vector(1, dtype=p.dt, name="f64"), one,
                                   th.ScaleCostWeight(th.Variable(torch.ones(1, 1), name="w32")), name="bad")
            else:
                which = r.integers(0, 3)
                if which == 0:  # an optimisation variable as auxiliary data
                    bad = th.AutoDiffCostFunction([th.Vector(1, dtype=p.dt, name="fresh")], f_shared, 1, cost_weight=w,
                                                  aux_vars=[v], name="bad")
                elif which == 1:  # ... as weight data
                    bad = th.Local(one, one.copy(new_name="o2"), DiagOf(v), name="bad")
                else:  # auxiliary data as optimisation variable
                    ax = [a for a in f.aux_vars if isinstance(a, th.Vector)]
                    if not ax:
                        continue
                    bad = th.Local(ax[0], ax[0].copy(new_name="o2"), w, name="bad")
            expect_raise(lambda: obj.add(bad), f"{what}: {op} accepted", Exception)
            break
        compare(obj, m, what)
        for s, stale in solvers:
            if stale:
                expect_raise(lambda: s.optimize(), f"{what}: a solver built before a structural change still runs", RuntimeError)
            elif obj.size()[0]:
                obj.update()
                s.optimize()


class DiagOf(th.DiagonalCostWeight):
    """a weight using an existing variable whatever its shape"""

    def __init__(self, v):
        th.CostWeight.__init__(self)
        self.diagonal = v
        self.register_aux_vars(["diagonal"])


@st.composite
def lib_case(draw):
    return dict(c=draw(costs.spec(dtypes=st.just("float64"))), n=draw(st.integers(1, 3)), share=draw(st.integers(0, 255)), sharew=draw(st.booleans()),
                seed=draw(gens.seeds), wrap=draw(st.integers(0, 3)), vec=draw(st.booleans()))


def lib_check(c, t):
    """Several library cost functions sharing variables, weights or both: the objective, its copy and the copy's copy agree."""
    r, K = gens.rng(c["seed"]), costs.Cost(c["c"], flat=False)
    t.label(c["c"]["kind"], "shared weight" if c["sharew"] else "", "robust" if c["wrap"] == 0 else "", "vectorised" if c["vec"] else "")
    t.nontrivial(c["n"] > 1)
    obj, first = th.Objective(dtype=torch.float64), None
    for i in range(c["n"]):
        K.prefix = f"{i}_"
        K.build(name=f"unused{i}")
        V, W = K.V, K.W
        if first:
            for k, n in enumerate(sorted(V)):
                # sharing keeps the role: an optimisation variable stays one
                if c["share"] >> k & 1 and n in first and (n == "w" or n not in K.optim or any(m in K.optim and m != n for m in V)):
                    V[n] = first[n]
            if all(V[n] is first[n] for n in V):
                V[K.optim[0]] = K.var(K.optim[0])
            if c["sharew"]:
                W = firstW
            elif isinstance(W, th.eb.GPCostWeight):
                W = th.eb.GPCostWeight(V["w"], V["dt"])
            else:
                W = type(W)(V["w"])
        cf = K.K.build(V, W, f"cf{i}")
        if c["wrap"] == 0:
            cf = th.RobustCostFunction(cf, th.HuberLoss, th.Variable(torch.zeros(1, 1, dtype=torch.float64), name=f"rad{i}"), name=f"rcf{i}")
        obj.add(cf)
        if first is None:
            first, firstW = dict(V), W
    obj.update()
    if c["vec"]:
        th.Vectorize(obj)
    if c["n"] > 1 and any(K.K.smooth(K.el(K.vals, b)) < 1e-6 for b in range(K.batch())):
        raise Skip("next to a kink")
    cp = check_copy(obj, "copy", r, True)
    check_copy(cp, "copy of the copy", r, True)


SUBS = [
    Sub("history", case, check, 1200, shards=(8, 8)),
    Sub("library", lib_case, lib_check, 400, shards=(2, 4)),
]
