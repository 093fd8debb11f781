import contextlib
import io
import threading
import warnings

import numpy as np
import theseus as th
import torch
import torchlie as lie
import torchlie.functional as lieF
from hypothesis import strategies as st
from theseus.geometry.lie_group_check import silence_internal_warnings
from theseus.geometry.utils import LieGroupTensor

from vlib import gens, ref
from vlib.core import Sub, Violation
from vlib.th import cls, close, expect_raise, make, need, np_

PROPERTY = "P28"
RULE = (
    "scopes: a case is a random program of nested scopes (enabling, disabling and setting group checks, silencing internal "
    "warnings, enabling, disabling and setting tangent-gradient mode, torchlie checks, euclidean view), in which bodies "
    "raise at random points, errors are caught at random levels, context objects are used again after they were closed, "
    "library operations that switch modes internally run (and fail), and other threads run programs of their own. A stack "
    "model gives the mode in force; it is compared at every point with what the library does there: does an invalid matrix "
    "raise, warn or pass; does an in-place gradient step retract; does arithmetic on a LieTensor raise. masked, failures, "
    "params: likewise for masked variables, for errors raised inside cost functions and optimizers, and for global "
    "parameters. Non-trivial: at least two nested scopes and an exception (scopes), a failure or a rejected setting (others)."
)
ASSUMPTIONS = [
    "one context object is not entered a second time before it is closed, and set_lie_tangent_enabled, which also works as "
    "a plain function from its construction on, is used once per object (both as for torch's own mode classes)",
]

KINDS = ["enable", "no", "set", "quiet", "tangent", "notangent", "settangent", "liecheck", "eucl"]


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


# ------------------------------------------------------------------ observation
_BAD = torch.diag(torch.tensor([1.0, 1.0, 1.3], dtype=torch.float64))[None]
_GOOD = torch.eye(3, dtype=torch.float64)[None]


def rec(fn):
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("always")
        try:
            r = fn()
            err = None
        except Exception as e:  # noqa
            r, err = None, e
    return r, err, [str(x.message) for x in w]


def observe(m, where):
    """what the library does here, against the mode in force"""
    what = f"{where} (mode in force {m})"
    # group checks
    r, e, w = rec(lambda: th.SO3(tensor=_BAD.clone(), strict_checks=True))
    if m["check"]:
        need(isinstance(e, ValueError), f"an invalid matrix is rejected by strict checks: {what}")
    else:
        need(e is None, f"no check while checks are disabled, {e!r}: {what}")
        need(bool(torch.equal(r.tensor, _BAD)), f"data unchanged while checks are disabled: {what}")
        need(bool(w) == (not m["silent"]), f"warning about disabled checks, got {w}: {what}")
    r, e, w = rec(lambda: th.SO2(tensor=torch.tensor([[3.0, 4.0]], dtype=torch.float64)))
    need(e is None, f"{e!r}: {what}")
    n = float(r.tensor.norm())
    if m["check"]:
        need(abs(n - 1) < 1e-9, f"an invalid rotation is normalized: {what}")
        need(bool(w) == (not m["quiet"]), f"warning about the normalization, got {w}: {what}")
    else:
        need(n == 5.0, f"no normalization while checks are disabled: {what}")
    r, e, w = rec(lambda: th.SE3.vee(torch.ones(1, 4, 4, dtype=torch.float64)))
    need((e is not None) == (m["check"] or m["lie"]), f"invalid hat matrix, {e!r}: {what}")
    # tangent mode
    x = th.SO2(tensor=torch.tensor([[1.0, 0.0]], dtype=torch.float64), disable_checks=True)
    p = LieGroupTensor(x)
    with torch.no_grad():
        p.add_(torch.tensor([[0.0, 0.5]], dtype=torch.float64))
    want = np.array([[np.cos(0.5), np.sin(0.5)]]) if m["tangent"] else np.array([[1.0, 0.5]])
    close(torch.Tensor(p.detach()), want, 1e-12, f"in-place gradient step: {what}")
    # torchlie
    _, e, _ = rec(lambda: lieF.SO3.check_group_tensor(_BAD))
    need((e is not None) == m["lie"], f"torchlie group check, {e!r}: {what}")
    _, e, _ = rec(lambda: lieF.SE3.check_hat_tensor(torch.ones(1, 4, 4, dtype=torch.float64)))
    need((e is not None) == m["lie"], f"torchlie hat check, {e!r}: {what}")
    X = lie.LieTensor(_GOOD, lie.SO3)
    r, e, _ = rec(lambda: X + X)
    if m["eucl"]:
        need(e is None and type(r) is torch.Tensor and torch.equal(r, 2 * _GOOD), f"LieTensor sum, {e!r}: {what}")
    else:
        need(isinstance(e, NotImplementedError), f"sum of LieTensors outside as_euclidean, {e!r}: {what}")
    need(torch.is_grad_enabled() and torch.get_default_dtype() == torch.float32, f"torch modes: {what}")


DEFAULT = dict(check=True, silent=False, quiet=False, tangent=False, lie=False, eucl=False)


def inside(m, c):
    m = dict(m)
    k = c["kind"]
    if k in ("enable", "no", "set"):
        m["check"] = {"enable": True, "no": False, "set": c["mode"]}[k]
        m["silent"], m["quiet"] = c["silent"], c["quiet"]
    elif k == "quiet":
        m["quiet"] = True
    elif k in ("tangent", "notangent", "settangent"):
        m["tangent"] = {"tangent": True, "notangent": False, "settangent": c["mode"]}[k]
    elif k == "liecheck":
        m["lie"] = True
    elif k == "eucl":
        m["eucl"] = True
    return m


def context(c):
    k = c["kind"]
    kw = dict(silent=c["silent"], silence_internal_warnings=c["quiet"])
    with contextlib.redirect_stdout(io.StringIO()):
        return {
            "enable": lambda: th.enable_lie_group_check(**kw),
            "no": lambda: th.no_lie_group_check(**kw),
            "set": lambda: th.set_lie_group_check_enabled(c["mode"], **kw),
            "quiet": silence_internal_warnings,
            "tangent": th.enable_lie_tangent,
            "notangent": th.no_lie_tangent,
            "settangent": lambda: th.set_lie_tangent_enabled(c["mode"]),
            "liecheck": lieF.enable_checks,
            "eucl": lie.as_euclidean,
        }[k]()


# ------------------------------------------------------------------ library calls that switch modes
def op_checked(fail):
    rec(lambda: th.SO3(tensor=_BAD if fail else _GOOD, strict_checks=True))
    rec(lambda: th.SE3.vee(torch.ones(1, 4, 4) if fail else torch.zeros(1, 4, 4)))


def op_pose(fail):
    t = torch.zeros(1, 6 if fail else 7)
    t[0, 3] = 1
    rec(lambda: th.SE3(x_y_z_quaternion=t))
    rec(lambda: th.SE3.x_y_z_unit_quaternion_to_SE3(t))
    rec(lambda: th.SE3.rand(2))
    rec(lambda: th.SE2(x_y_theta=torch.zeros(1, 2 if fail else 3)))


def op_autodiff(fail, mode="vmap"):
    v = th.SO2(theta=torch.tensor([[0.3], [0.4]], dtype=torch.float64))

    def err(optim_vars, aux_vars):
        if fail:
            raise Boom("err_fn")
        return optim_vars[0].log_map()

    w = th.ScaleCostWeight(torch.ones(1, 1, dtype=torch.float64))
    c = th.AutoDiffCostFunction([v], err, 1, cost_weight=w, autograd_mode=mode)
    rec(c.jacobians)


def op_solve(fail):
    v = th.SO2(theta=torch.tensor([[0.3], [0.4]], dtype=torch.float64), name="v")
    tgt = th.SO2(theta=torch.tensor([[1.3], [0.4]], dtype=torch.float64), name="t")
    o = th.Objective(dtype=torch.float64)
    o.add(th.Difference(v, tgt, th.ScaleCostWeight(torch.ones(1, 1, dtype=torch.float64), )))
    opt = th.LevenbergMarquardt(o, max_iterations=3)
    o.update()

    def cb(*a):
        if fail:
            raise Boom("callback")

    rec(lambda: opt.optimize(end_iter_callback=cb))


def op_mask(fail):
    v = th.Vector(tensor=torch.ones(3, 2, dtype=torch.float64))
    m = torch.tensor([True, False, True][: 2 if fail else 3])

    def run():
        with th.masked_variables([v], m):
            pass

    rec(run)
    need(tuple(v.shape) == (3, 2), "variable unmasked")


OPS = {"checked": op_checked, "pose": op_pose, "autodiff": op_autodiff, "solve": op_solve, "mask": op_mask}


# ------------------------------------------------------------------ programs
REUSABLE = ("tangent", "notangent", "liecheck", "eucl")


def ctx_key(c):
    k = c["kind"]
    return (k,) + ({"set": (c["mode"], c["silent"], c["quiet"]), "settangent": (c["mode"],)}.get(k) or (
        (c["silent"], c["quiet"]) if k in ("enable", "no") else ()))


def execute(body, m, store, t, depth, trail):
    for i, nd in enumerate(body):
        k = nd["k"]
        where = f"{trail}[{i}]{k}"
        if k == "probe":
            observe(m, where)
        elif k == "raise":
            t.label("raise")
            store["raised"] = True
            raise (Stop if nd["base"] else Boom)(where)
        elif k == "make":  # a context object created here, to be entered elsewhere
            if nd["ctx"]["kind"] != "settangent":
                t.label("context made early")
                store.setdefault("closed", {})[ctx_key(nd["ctx"])] = context(nd["ctx"])
                observe(m, where)
        elif k == "op":
            if m["eucl"]:
                continue
            t.label(f"op {nd['op']}")
            OPS[nd["op"]](nd["fail"])
            observe(m, where)
        elif k == "thread":
            t.label("thread")
            out = []

            def work():
                try:
                    observe(DEFAULT, where + ": start of another thread")
                    execute(nd["body"], dict(DEFAULT), {}, t, depth, where)
                    observe(DEFAULT, where + ": end of another thread")
                except Violation as e:
                    out.append(e)
                except (Boom, Stop):
                    pass
                except BaseException as e:  # noqa
                    out.append(e)

            th_ = threading.Thread(target=work)
            th_.start()
            th_.join()
            if out:
                raise out[0]
            observe(m, where + ": after another thread")
        elif k == "scope":
            c = nd["ctx"]
            t.label(f"scope {c['kind']}")
            store["depth"] = max(store.get("depth", 0), depth + 1)

            def run():
                key = ctx_key(c)
                reusable = c["kind"] in REUSABLE
                if nd["reuse"] and key in store.get("closed", {}):
                    t.label("context made or used before")
                    ctx = store["closed"].pop(key)
                else:
                    ctx = context(c)
                try:
                    with ctx:
                        im = inside(m, c)
                        observe(im, where + " entered")
                        execute(nd["body"], im, store, t, depth + 1, where)
                        observe(im, where + " before exit")
                finally:
                    if reusable:
                        store.setdefault("closed", {})[key] = ctx

            if nd["catch"]:
                try:
                    run()
                except (Boom, Stop):
                    t.label("caught")
                observe(m, where + " left")
            else:
                try:
                    run()
                except (Boom, Stop):
                    observe(m, where + " left by an error")
                    raise
                observe(m, where + " left")


@st.composite
def g_ctx(draw, kinds):
    return {"kind": draw(st.sampled_from(kinds)), "mode": draw(st.booleans()), "silent": draw(st.booleans()),
            "quiet": draw(st.booleans())}


@st.composite
def g_body(draw, depth, kinds, thread=True):
    out = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(["scope", "scope", "scope", "scope", "make", "op", "raise", "thread"] if depth < 4
                                 else ["make", "op", "raise", "probe"]))
        if k == "scope":
            out.append({"k": k, "ctx": draw(g_ctx(kinds)), "catch": draw(st.sampled_from([True, True, False])),
                        "reuse": draw(st.booleans()), "body": draw(g_body(depth + 1, kinds, thread))})
        elif k == "make":
            out.append({"k": k, "ctx": draw(g_ctx(kinds))})
        elif k == "op":
            out.append({"k": k, "op": draw(st.sampled_from(sorted(OPS))), "fail": draw(st.booleans())})
        elif k == "raise":
            if depth and draw(st.booleans()):
                out.append({"k": k, "base": draw(st.booleans())})
                break
            out.append({"k": "probe"})
        elif k == "thread" and thread:
            out.append({"k": k, "body": draw(g_body(depth + 1, kinds, False))})
        else:
            out.append({"k": "probe"})
    return out


@st.composite
def g_scopes(draw):
    # few kinds per program, so that the same one is met again in another state
    kinds = draw(st.one_of(st.just(KINDS), st.lists(st.sampled_from(KINDS), min_size=1, max_size=3)))
    return draw(g_body(0, kinds))


def c_scopes(body, t):
    store = {}
    box = []

    def work():  # a fresh thread: a case must not see the modes another case left behind
        try:
            observe(DEFAULT, "start")
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    execute(body, dict(DEFAULT), store, t, 0, "")
                except (Boom, Stop):
                    pass
            observe(DEFAULT, "end")
        except BaseException as e:  # noqa
            box.append(e)

    w = threading.Thread(target=work)
    w.start()
    w.join()
    t.nontrivial(store.get("depth", 0) >= 2 and store.get("raised", False))
    if box:
        raise box[0]


# ------------------------------------------------------------------ masked variables
@st.composite
def g_masked(draw):
    n = draw(st.integers(1, 5))
    m = draw(st.integers(1, 4))
    gs = [draw(st.sampled_from(["R2", "SO2", "SE2", "SO3", "SE3", "Point3", "plain"])) for _ in range(m)]
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        steps.append({
            "mask": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
            "vars": sorted(draw(st.sets(st.integers(0, m - 1), min_size=1))),
            "wrong": draw(st.sampled_from([None, None, None, "mask", "var"])),
            "late": draw(st.booleans()),  # variables change between construction and entry
            "body": draw(st.sampled_from(["read", "update", "inplace", "raise", "nest", "nest raise"])),
            "again": draw(st.booleans()),
            "where": draw(st.integers(0, 3)),
        })
    return {"n": n, "groups": gs, "steps": steps, "seed": draw(gens.seeds)}


def c_masked(case, t):
    rng = gens.rng(case["seed"])
    n = case["n"]
    vs = []

    def values(g, k):
        if g == "plain":
            return torch.tensor(rng.normal(size=(k, 2, 2)))
        return make(g, [ref.exp(g, rng.normal(size=ref.dof(g))) for _ in range(k)]).tensor

    for i, g in enumerate(case["groups"]):
        d = values(g, n)
        vs.append(th.Variable(d, name=f"v{i}") if g == "plain" else cls(g)(tensor=d, name=f"v{i}"))
    now = [v.tensor.clone() for v in vs]

    def unchanged(what):
        for i, v in enumerate(vs):
            need(torch.equal(v.tensor, now[i]), f"value of variable {i} after {what}")

    trouble = False
    for s in case["steps"]:
        sel = [vs[i] for i in s["vars"]]
        mask = torch.tensor(s["mask"])
        if s["wrong"] == "mask":
            trouble = True
            mk = torch.cat([mask, mask[:1]])
            odd = list(sel)
        elif s["wrong"] == "var":
            trouble = True
            other = th.Vector(tensor=torch.zeros(n + 1, 1, dtype=torch.float64))
            odd = list(sel)
            odd.insert(s["where"] % (len(odd) + 1), other)
            mk = mask
        if s["wrong"]:
            t.label(f"wrong {s['wrong']}")

            def run():
                with th.masked_variables(odd, mk):
                    raise Stop()  # not reached

            try:
                expect_raise(run, "mask of another batch size")
            except Stop:
                raise Violation("mask of another batch size: no error was raised")
            unchanged("a refused mask")
            continue
        ctx = th.masked_variables(sel, mask)
        if s["late"]:
            t.label("update between construction and use")
            for i in s["vars"]:
                d = values(case["groups"][i], n)
                vs[i].update(d)
                now[i] = d.clone()
        for rep in range(2 if s["again"] else 1):
            if rep:
                t.label("context used again")
            caught = False
            try:
                with ctx:
                    for i, v in enumerate(vs):
                        want = now[i][mask] if i in s["vars"] else now[i]
                        need(torch.equal(v.tensor, want), f"value of variable {i} inside the mask")
                    t.label(f"body {s['body']}")
                    if s["body"] == "update":
                        for i in s["vars"]:
                            vs[i].update(values(case["groups"][i], int(rng.integers(1, 4))))
                    elif s["body"] == "inplace":
                        for i in s["vars"]:
                            vs[i].tensor.mul_(2.0)
                    elif s["body"] == "raise":
                        raise Boom()
                    elif s["body"].startswith("nest"):
                        k = int(mask.sum())
                        inner = torch.tensor(rng.random(k) < 0.5) if k else torch.zeros(0, dtype=torch.bool)
                        try:
                            with th.masked_variables(sel, inner):
                                for i in s["vars"]:
                                    need(torch.equal(vs[i].tensor, now[i][mask][inner]), "value inside nested masks")
                                if s["body"] == "nest raise":
                                    raise Stop()
                        finally:
                            for i in s["vars"]:
                                need(torch.equal(vs[i].tensor, now[i][mask]), "value after a nested mask")
            except (Boom, Stop):
                caught = True
            trouble = trouble or caught
            need(caught == (s["body"] in ("raise", "nest raise")), "errors of the body come out")
            unchanged("the masked scope")
    t.nontrivial(trouble)


# ------------------------------------------------------------------ failures inside evaluations and solves
@st.composite
def g_failures(draw):
    n = draw(st.integers(1, 3))
    return {
        "n": n,
        "mode": draw(st.sampled_from(["dense", "loop_batch", "vmap"])),
        "strategy": draw(st.sampled_from(["reverse-mode", "reverse-mode", "forward-mode"])),
        "optim": draw(st.lists(st.sampled_from(["R2", "SO2", "SE2", "SO3", "SE3"]), min_size=1, max_size=2)),
        "aux": draw(st.lists(st.sampled_from(["R2", "SO2", "SE3", "plain"]), max_size=2)),
        "fail_at": draw(st.integers(1, 6)),
        "kind": draw(st.sampled_from(["err_fn", "err_fn", "callback", "weight", "bad shape"])),
        "via": draw(st.sampled_from(["jacobians", "error", "solve", "layer", "masked"])),
        "optimizer": draw(st.sampled_from(["GaussNewton", "LevenbergMarquardt", "Dogleg"])),
        "backward": draw(st.sampled_from(["unroll", "implicit", "truncated"])),
        "vectorize": draw(st.booleans()),
        "quiet_before": draw(st.booleans()),
        "nograd": draw(st.booleans()),
        "seed": draw(gens.seeds),
    }


def c_failures(case, t):
    rng = gens.rng(case["seed"])
    n = case["n"]
    plain = not {"SO3", "SE3", "SE2"} & set(case["optim"] + case["aux"])  # no forward mode for their logarithms
    strategy = case["strategy"] if case["mode"] == "dense" and plain else "reverse-mode"

    def mk(g, name):
        if g == "plain":
            return th.Variable(torch.tensor(rng.normal(size=(n, 2))), name=name)
        return make(g, [ref.exp(g, 0.5 * rng.normal(size=ref.dof(g))) for _ in range(n)], name=name)

    ov = [mk(g, f"o{i}") for i, g in enumerate(case["optim"])]
    av = [mk(g, f"a{i}") for i, g in enumerate(case["aux"])]
    dim = sum(v.dof() for v in ov)
    st_ = {"armed": False, "calls": 0, "hit": False}

    def bang(kind):
        if st_["armed"] and case["kind"] == kind:
            st_["calls"] += 1
            if st_["calls"] >= case["fail_at"]:
                st_["hit"] = True
                raise Boom(kind)

    def err(optim_vars, aux_vars):
        bang("err_fn")
        s = 0.0
        for a in aux_vars:
            s = s + a.tensor.flatten(1).sum(1, keepdim=True)
        e = torch.cat([(v.log_map() if isinstance(v, th.LieGroup) else v.tensor) for v in optim_vars], dim=1) + 0.1 * s
        if st_["armed"] and case["kind"] == "bad shape":
            st_["hit"] = True
            return e[:, :-1].unsqueeze(-1)
        return e

    class W(th.ScaleCostWeight):
        def weight_error(self, error):
            bang("weight")
            return super().weight_error(error)

        def weight_jacobians_and_error(self, jacobians, error):
            bang("weight")
            return super().weight_jacobians_and_error(jacobians, error)

        def _copy_impl(self, new_name=None):
            return W(self.scale.copy(), name=new_name)

    weight = W(th.Variable(torch.ones(1, 1, dtype=torch.float64), name="w"))
    cf = th.AutoDiffCostFunction(ov, err, dim, cost_weight=weight, aux_vars=av, autograd_mode=case["mode"],
                                 autograd_create_graph=strategy == "reverse-mode", autograd_strategy=strategy, autograd_vectorize=strategy == "forward-mode", name="cf")
    o = th.Objective(dtype=torch.float64)
    o.add(cf)
    opt = getattr(th, case["optimizer"])(o, max_iterations=3, step_size=0.5, vectorize=case["vectorize"])
    layer = th.TheseusLayer(opt, vectorize=case["vectorize"])
    o.update()
    everything = ov + av + [weight.scale]
    vals = [v.tensor.clone() for v in everything]
    J0, e0 = cf.jacobians()

    def cb(optimizer, info, delta, it):
        bang("callback")

    def go():
        via = case["via"]
        if via == "jacobians":
            cf.weighted_jacobians_error()
        elif via == "error":
            cf.weighted_error()
            o.error()
        elif via == "masked":
            th.masked_jacobians(cf, torch.tensor([i != 1 for i in range(n)]))
        elif via == "solve":
            opt.optimize(end_iter_callback=cb, backward_mode=case["backward"])
        else:
            layer.forward({v.name: v.tensor for v in ov}, optimizer_kwargs=dict(end_iter_callback=cb, backward_mode=case["backward"]))

    st_["armed"] = True
    outer = contextlib.ExitStack()
    with outer:
        if case["quiet_before"]:
            outer.enter_context(silence_internal_warnings())
        if case["nograd"]:
            outer.enter_context(torch.no_grad())
        filters = list(warnings.filters)
        try:
            _, e, _ = rec(go)
        except BaseException:  # noqa
            raise
        need(torch.is_grad_enabled() == (not case["nograd"]), "gradient mode after a failure")
        need(list(warnings.filters) == filters, "warning filters after a failure")
        with torch.enable_grad():
            observe(dict(DEFAULT, quiet=case["quiet_before"]), "after a failure")
    st_["armed"] = False
    t.label(f"via {case['via']}")
    t.label(f"fails in {case['kind']}" if st_["hit"] else "no failure")
    t.nontrivial(st_["hit"])
    observe(DEFAULT, "at the end")
    if st_["hit"] and case["kind"] != "bad shape":
        need(e is not None, "the error of the user's function comes out")
    # values: only optimisation variables may have moved, and only by a solve
    for i, v in enumerate(everything):
        if i >= len(ov) or case["via"] in ("jacobians", "error", "masked"):
            need(torch.equal(v.tensor, vals[i]), f"value of {v.name} after a failure")
        need(v.shape == vals[i].shape, f"batch size of {v.name} after a failure")
        need(not torch.isnan(v.tensor).any(), f"value of {v.name} after a failure")
        v.update(vals[i])
    o.update()
    J1, e1 = cf.jacobians()
    close(e1, e0, 1e-12, "error after a failure")
    for a, b in zip(J1, J0):
        close(a, b, 1e-9, "Jacobians after a failure")
    e = o.error()
    close(e, e0, 1e-12, "objective error after a failure")


# ------------------------------------------------------------------ global parameters
TH_EPS = ["so2_norm_eps", "so2_matrix_eps", "se2_near_zero_eps", "so3_to_quaternion_sqrt_eps", "se2_d_near_zero_eps"]
LIE_EPS = ["so3_near_pi_eps", "so3_near_zero_eps", "so3_matrix_eps", "so3_quat_eps", "so3_hat_eps", "se3_hat_eps",
           "so3_d_near_zero_eps"]
BAD_KEYS = ["nope", "so3_matrix_eps", "reset", "get_eps", "so2_matrix_eps_float16", "_x", "__class__"]


@st.composite
def g_params(draw):
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(["th", "th", "lie", "lie", "reset th", "reset lie"]))
        op = {"k": k}
        if k in ("th", "lie"):
            ks = []
            for _ in range(draw(st.integers(1, 4))):
                bad = draw(st.integers(0, 7)) == 0
                if bad:
                    name = draw(st.sampled_from(BAD_KEYS + ["other"]))
                    if name == "other":
                        name = draw(st.sampled_from(LIE_EPS if k == "th" else TH_EPS)) + "_float64"
                else:
                    flags = ["fast_approx_local_jacobians"] if k == "th" else ["_allow_passthrough_ops", "_faster_log_maps"]
                    name = draw(st.sampled_from(flags + [f"{x}_{d}" for x in (TH_EPS if k == "th" else LIE_EPS) for d in ("float32", "float64")]))
                v = draw(st.booleans()) if "eps" not in name else 10.0 ** draw(st.integers(-12, -1))
                ks.append([name, v])
            op["opts"] = ks
        ops.append(op)
    return {"ops": ops, "seed": draw(gens.seeds)}


def c_params(case, t):
    from theseus.global_params import _THESEUS_GLOBAL_PARAMS as TG
    from torchlie.global_params import _TORCHLIE_GLOBAL_PARAMS as LG

    rng = gens.rng(case["seed"])
    TG.reset()
    lie.reset_global_params()
    # the flags have to come back, too
    names = {"th": [f"{x}_{d}" for x in TH_EPS for d in ("float32", "float64")] + ["fast_approx_local_jacobians"],
             "lie": [f"{x}_{d}" for x in LIE_EPS for d in ("float32", "float64")] + ["_allow_passthrough_ops", "_faster_log_maps"]}
    obj = {"th": TG, "lie": LG}
    default = {k: {n: getattr(obj[k], n) for n in names[k]} for k in names}
    for n in ("fast_approx_local_jacobians",):
        need(default["th"][n] is False, f"{n} after a reset")
    for n in ("_allow_passthrough_ops", "_faster_log_maps"):
        need(default["lie"][n] is False, f"{n} after a reset")
    model = {k: dict(v) for k, v in default.items()}
    extra = {k: set(dir(obj[k])) for k in obj}
    rejected = False

    def look(what):
        for k in names:
            for n in names[k]:
                need(getattr(obj[k], n) == model[k][n], f"{n} after {what}: {getattr(obj[k], n)!r}, expected {model[k][n]!r}")
            need(set(dir(obj[k])) == extra[k], f"parameters of {k} after {what}")
            need(callable(obj[k].reset) and callable(obj[k].get_eps), f"methods after {what}")
        for d in (torch.float32, torch.float64):
            ds = str(d)[6:]
            for n in TH_EPS:
                g, a = n[:-4].split("_", 1)
                need(TG.get_eps(g, a, d) == model["th"][f"{n}_{ds}"], f"get_eps {n} {ds} after {what}")
            for n in LIE_EPS:
                g, a = n[:-4].split("_", 1)
                need(LG.get_eps(g, a, d) == model["lie"][f"{n}_{ds}"], f"get_eps {n} {ds} after {what}")
                need(TG.get_eps(g, a, d) == model["lie"][f"{n}_{ds}"], f"theseus get_eps {n} {ds} after {what}")
        # effects: tolerances of the checks
        for d in ("float32", "float64"):
            dt = getattr(torch, d)
            for g, key, k in (("SO2", "so2_matrix_eps", "th"), ("SO3", "so3_matrix_eps", "lie")):
                eps = model[k][f"{key}_{d}"]
                if not 1e-7 < eps < 0.05 and d == "float32" or eps < 1e-14:
                    continue
                for f in (0.3, 3.0):
                    if eps * f < 1e-6 and d == "float32":
                        continue
                    if g == "SO2":
                        x = torch.tensor([[1 + f * eps, 0.0]], dtype=dt)
                        fn = lambda: th.SO2(tensor=x, strict_checks=True)
                    else:
                        x = torch.diag(torch.tensor([1.0, 1.0, 1 + f * eps / 2.0], dtype=dt))[None]
                        fn = lambda: th.SO3(tensor=x, strict_checks=True)
                        if f < 1:
                            x = torch.diag(torch.tensor([1.0, 1.0, 1 + f * eps / 3.0], dtype=dt))[None]
                        else:
                            x = torch.diag(torch.tensor([1.0, 1.0, 1 + f * eps], dtype=dt))[None]
                    _, e, _ = rec(fn)
                    need((e is not None) == (f > 1), f"{g} {d} check with tolerance {eps}, deviation {f}*eps, after {what}: {e!r}")
        # approximate local Jacobians switch
        v = make("SE2", [ref.exp("SE2", [0.3, -0.2, 0.7])])
        w = make("SE2", [ref.exp("SE2", [0.1, 0.4, -0.6])])
        J = []
        v.local(w, jacobians=J)
        cf = th.Local(v, w, th.ScaleCostWeight(torch.ones(1, 1, dtype=torch.float64)))
        (Jc,), _ = cf.jacobians()
        approx = bool(torch.equal(Jc, -torch.eye(3, dtype=torch.float64)[None])) or bool(torch.equal(Jc, torch.eye(3, dtype=torch.float64)[None]))
        need(approx == model["th"]["fast_approx_local_jacobians"], f"fast local Jacobians after {what}")

    try:
        look("the reset")
        for op in case["ops"]:
            k = op["k"]
            if k.startswith("reset"):
                k = k.split()[1]
                TG.reset() if k == "th" else lie.reset_global_params()
                model[k] = dict(default[k])
                t.label("reset")
                look(f"reset of {k}")
                continue
            opts = dict((n, v) for n, v in op["opts"])
            bad = [n for n in opts if n not in names[k]]
            fn = th.set_global_params if k == "th" else lie.set_global_params
            if bad:
                rejected = True
                t.label("rejected")
                expect_raise(lambda: fn(opts), f"unknown parameters {bad} for {k}", (ValueError, RuntimeError))
            else:
                fn(opts)
                model[k].update(opts)
            look(f"{k} {opts}")
    finally:
        TG.reset()
        lie.reset_global_params()
        # keep other cases independent should reset() not restore these
        LG._allow_passthrough_ops = False
        LG._faster_log_maps = False
    t.nontrivial(rejected)


SUBS = [
    Sub("scopes", g_scopes, c_scopes, 400, 6000, shards=(2, 6)),
    Sub("masked", g_masked, c_masked, 300, 5000),
    Sub("failures", g_failures, c_failures, 240, 4000, shards=(2, 6)),
    Sub("params", g_params, c_params, 200, 3000),
]
