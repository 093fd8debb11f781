"""Generic property-check runner: generated cases, oracle, shrinking, replay, evidence.

A property module (props/pXX.py) defines
    PROPERTY, RULE, ASSUMPTIONS, SUBS (list of Sub), optionally FINDINGS (dict).
A Sub couples a Hypothesis strategy yielding JSON-able cases with a deterministic
check(case, t) that raises Violation when the oracle disagrees with the code.
"""
import contextlib
import hashlib
import io
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True


class Violation(Exception):
    """The code under test broke the property on this case."""


class Skip(Exception):
    """The case is outside the property's domain (counted, never silent)."""


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, shards=(1, 4)):
        self.name = name
        self.strategy = strategy  # zero-argument callable (built lazily)
        self.check = check
        self.quick = quick  # examples in total, quick tier
        self.thorough = thorough or quick * 12
        self.shards = shards


class Trace:
    def __init__(self):
        self.labels = []
        self.is_nontrivial = False

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nontrivial(self, flag=True):
        self.is_nontrivial = self.is_nontrivial or bool(flag)


# --------------------------------------------------------------------------- deps
def ensure_deps():
    """Makes hypothesis importable (offline) without touching the sandbox's pythons."""
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    src = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    for deps in (os.path.join(VERIF, ".deps"), f"/tmp/.verif_deps_{os.getuid()}"):
        try:
            os.makedirs(deps, exist_ok=True)
            if os.path.isdir(os.path.join(src, "hypothesis")):
                for n in (
                    "hypothesis", "sortedcontainers", "attr", "attrs",
                    "_hypothesis_globals.py", "_hypothesis_ftz_detector.py",
                ):
                    d = os.path.join(deps, n)
                    if os.path.exists(os.path.join(src, n)) and not os.path.lexists(d):
                        with contextlib.suppress(FileExistsError):
                            os.symlink(os.path.join(src, n), d)
            else:
                import glob
                import zipfile

                for pat in ("hypothesis-6*cp312*.whl", "sortedcontainers*.whl"):
                    for w in glob.glob(os.path.join("/opt/veriftools/wheels", pat)):
                        zipfile.ZipFile(w).extractall(deps)
            if deps not in sys.path:
                sys.path.append(deps)
            import hypothesis  # noqa: F401

            return
        except (OSError, ImportError):
            continue
    raise RuntimeError("hypothesis is not available")


def setup_paths():
    for sub in ("torchkin", "torchlie", ""):
        p = os.path.join(REPO, sub) if sub else REPO
        sys.path.insert(0, p)
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ["CUDA_VISIBLE_DEVICES"] = ""


def load_code():
    setup_paths()
    import warnings

    warnings.simplefilter("ignore")
    import torch

    torch.set_num_threads(1)
    import theseus
    import torchkin
    import torchlie

    for m in (theseus, torchlie, torchkin):
        f = os.path.realpath(m.__file__)
        if not f.startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError(f"{m.__name__} imported from {f}, not from {REPO}")


def reset_state():
    """Resets the process-global state of the code under test before every case."""
    import warnings

    import numpy as np
    import torch

    warnings.simplefilter("ignore")
    torch.manual_seed(0)
    np.random.seed(0)
    torch.set_default_dtype(torch.float32)
    torch.set_grad_enabled(True)


# ------------------------------------------------------------------- classification
def classify_exception(exc):
    """'violation' if the innermost own frame is in the code under test, else 'error'."""
    if isinstance(exc, Violation):
        return "violation"
    repo = os.path.realpath(REPO) + os.sep
    verif = os.path.realpath(VERIF) + os.sep
    last = None
    tb = exc.__traceback__
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(repo):
            last = "violation"
        elif f.startswith(verif) and os.sep + ".deps" + os.sep not in f:
            last = "error"
        tb = tb.tb_next
    if isinstance(exc, (MemoryError, KeyboardInterrupt)):
        return "error"
    return last or "error"


def run_case(sub, case):
    """Returns (status, message, trace); status in ok, skip, violation, error."""
    t = Trace()
    reset_state()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            sub.check(case, t)
        return "ok", "", t
    except Skip as e:
        return "skip", str(e), t
    except Exception as e:  # noqa: BLE001 - classified below
        kind = classify_exception(e)
        msg = "".join(traceback.format_exception_only(type(e), e)).strip()
        if kind == "violation" and not isinstance(e, Violation):
            tail = traceback.format_tb(e.__traceback__)[-1].strip().replace("\n", " | ")
            msg = f"unexpected exception on a valid input: {msg} @ {tail}"
        elif kind == "error":
            msg = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        return kind, msg, t


def case_key(case):
    return hashlib.sha1(
        json.dumps(case, sort_keys=True, separators=(",", ":")).encode()
    ).hexdigest()


def case_size(case):
    return len(json.dumps(case))


def derive_seed(*parts):
    h = hashlib.sha256(":".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


# ------------------------------------------------------------------------- worker
def run_unit(prop, sub, shard, n, seed, budget_s, shrink_s):
    """Runs one shard of one sub-check in this process and returns a result dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings

    st = sub.strategy()
    res = dict(
        sub=sub.name, shard=shard, n=n, evaluations=0, skips=0, nontrivial=[],
        labels={}, samples=[], failure=None, error=None, wall=0.0, truncated=False,
    )
    keys = set()
    t0 = time.time()
    state = {"best": None, "fail_t": None, "seen": {}}

    class _Fail(Exception):
        pass

    def body(case):
        now = time.time()
        if res["error"] is not None:
            return
        if state["best"] is None and now - t0 > budget_s:
            res["truncated"] = True
            return
        k = case_key(case)
        if state["fail_t"] is not None and now - state["fail_t"] > shrink_s:
            if k == state["best"][0]:
                raise _Fail()
            return
        status, msg, t = run_case(sub, case)
        if state["best"] is None:
            res["evaluations"] += 1
            if status == "skip":
                res["skips"] += 1
            for lb in set(t.labels):
                res["labels"][lb] = res["labels"].get(lb, 0) + 1
            if status in ("ok", "violation") and t.is_nontrivial and k not in keys:
                keys.add(k)
                if len(res["samples"]) < 2 and len(keys) % 7 == 3:
                    res["samples"].append(_short(case))
                elif not res["samples"]:
                    res["samples"].append(_short(case))
        if status == "error":
            res["error"] = dict(message=msg, case=case)
            return
        if status == "violation":
            if state["fail_t"] is None:
                state["fail_t"] = now
            if state["best"] is None or case_size(case) <= state["best"][3]:
                state["best"] = (k, case, msg, case_size(case))
            raise _Fail()

    fn = given(st)(body)
    fn = settings(
        max_examples=n, database=None, deadline=None, derandomize=False,
        phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet,
        print_blob=False,
    )(fn)
    fn = hypothesis.seed(seed)(fn)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            fn()
    except _Fail:
        pass
    except BaseException as e:  # Flaky etc.; a recorded failing case still decides
        if state["best"] is None and res["error"] is None:
            res["error"] = dict(
                message="".join(
                    traceback.format_exception(type(e), e, e.__traceback__)
                ),
                case=None,
            )
    if state["best"] is not None:
        res["failure"] = dict(case=state["best"][1], message=state["best"][2])
    res["nontrivial"] = sorted(keys)
    res["wall"] = time.time() - t0
    return res


def _short(case, limit=700):
    s = json.dumps(case)
    return json.loads(s) if len(s) <= limit else s[:limit] + "...(truncated)"


def fork_call(fn, *args):
    """Runs fn in a forked child; returns (pid, path of its JSON result)."""
    import tempfile

    fd, path = tempfile.mkstemp(prefix="verif_unit_")
    os.close(fd)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            r = fn(*args)
            with open(path, "w") as f:
                json.dump(r, f)
        except BaseException:
            with contextlib.suppress(BaseException):
                with open(path, "w") as f:
                    json.dump({"crash": traceback.format_exc()}, f)
            code = 3
        finally:
            os._exit(code)
    return pid, path


def collect(path, status):
    try:
        with open(path) as f:
            r = json.load(f)
    except Exception:
        r = {"crash": f"worker ended with wait status {status} and no result"}
    with contextlib.suppress(OSError):
        os.unlink(path)
    return r


def run_pool(tasks, nproc):
    """tasks: list of (fn, args). Yields results in task order when all are done."""
    results = [None] * len(tasks)
    todo = list(range(len(tasks)))
    running = {}
    while todo or running:
        while todo and len(running) < nproc:
            i = todo.pop(0)
            pid, path = fork_call(tasks[i][0], *tasks[i][1])
            running[pid] = (i, path)
        pid, status = os.wait()
        if pid in running:
            i, path = running.pop(pid)
            results[i] = collect(path, status)
    return results


# ------------------------------------------------------------------ known findings
def read_findings(prop):
    """Lines 'finding: property=<id> key=<key> <what fails>' of this property."""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s key=" % prop):
                rest = line.split("key=", 1)[1]
                key, _, what = rest.partition(" ")
                out[key] = what
    return out


def run_probe(sub, case):
    status, msg, _ = run_case(sub, case)
    return dict(status=status, message=msg)


# ------------------------------------------------------------------------------ main
def main(prop, tier, seed, only=None, scale=1.0, nproc=None):
    import importlib

    t_start = time.time()
    ensure_deps()
    load_code()
    mod = importlib.import_module("props." + prop.lower())
    nproc = nproc or int(os.environ.get("VERIF_NPROC", "8"))
    ti = 0 if tier == "quick" else 1
    budget = float(os.environ.get("VERIF_BUDGET", "150" if ti == 0 else "1500"))
    shrink = 25.0 if ti == 0 else 120.0
    tasks, metas = [], []
    for sub in mod.SUBS:
        if only and sub.name not in only:
            continue
        n = max(1, int((sub.quick, sub.thorough)[ti] * scale))
        shards = min(sub.shards[ti] if ti else sub.shards[0], n)
        if ti:
            shards = max(shards, min(8, n // 50 or 1))
        for s in range(shards):
            k = n // shards + (1 if s < n % shards else 0)
            sd = derive_seed(seed, prop, sub.name, s)
            tasks.append((run_unit, (prop, sub, s, k, sd, budget, shrink)))
            metas.append((sub, s, k, sd))
    # listed findings are re-probed on their exact input on every run
    listed = read_findings(prop)
    probes = getattr(mod, "FINDINGS", {})
    probe_keys = list(probes)
    for key in probe_keys:
        sub_name, case = probes[key]
        sub = next(x for x in list(mod.SUBS) + getattr(mod, "PROBES", []) if x.name == sub_name)
        tasks.append((run_probe, (sub, case)))
    results = run_pool(tasks, nproc)
    unit_results = results[: len(metas)]
    probe_results = results[len(metas):]

    errors, violations = [], []
    evaluations = skips = 0
    nontrivial, labels, samples = set(), {}, []
    per_sub = {}
    truncated = False
    for (sub, s, k, sd), r in zip(metas, unit_results):
        if "crash" in r:
            errors.append((sub.name, s, r["crash"]))
            continue
        evaluations += r["evaluations"]
        skips += r["skips"]
        truncated = truncated or r["truncated"]
        nontrivial.update(sub.name + ":" + x for x in r["nontrivial"])
        d = per_sub.setdefault(
            sub.name, dict(evaluations=0, nontrivial=0, skipped=0, wall_s=0.0, labels={})
        )
        d["evaluations"] += r["evaluations"]
        d["nontrivial"] += len(r["nontrivial"])
        d["skipped"] += r["skips"]
        d["wall_s"] = round(d["wall_s"] + r["wall"], 2)
        for lb, c in r["labels"].items():
            d["labels"][lb] = d["labels"].get(lb, 0) + c
        for c in r["samples"][:1]:
            if len([1 for x in samples if x["sub"] == sub.name]) < 1:
                samples.append(dict(sub=sub.name, case=c))
        if r["error"]:
            errors.append((sub.name, s, r["error"]["message"] + "\ncase=" + json.dumps(r["error"]["case"])))
        if r["failure"]:
            violations.append((sub, s, k, sd, r["failure"]))

    lines, n_viol = [], 0
    for key, r in zip(probe_keys, probe_results):
        if "crash" in r or r["status"] == "error":
            errors.append((key, "probe", str(r)))
        elif r["status"] == "violation":
            if key in listed:
                lines.append(f"KNOWN-FINDING: property={prop} {listed[key]}")
            else:
                sub_name, case = probes[key]
                path = write_replay(prop, sub_name, case, r["message"], key)
                lines.append(f"VIOLATION property={prop} replay={path}")
                n_viol += 1

    # one replay file per failing sub-check, confirmed outside Hypothesis
    seen_subs = set()
    notes = []
    violations.sort(key=lambda v: case_size(v[4]["case"]))
    for sub, s, k, sd, fail in violations:
        if sub.name in seen_subs:
            continue
        seen_subs.add(sub.name)
        conf = run_pool([(run_probe, (sub, fail["case"]))], 1)[0]
        if conf.get("status") != "violation":
            # depends on earlier cases of the same run: repeat that run exactly
            again = run_pool([(run_unit, (prop, sub, s, k, sd, budget, shrink))], 1)[0]
            if not again.get("failure"):
                notes.append(f"{sub.name}: a failure did not reproduce: {fail['message']}")
                continue
            fail = dict(fail, history=dict(seed=sd, n=k, shard=s))
        path = write_replay(prop, sub.name, fail["case"], fail["message"], "", fail.get("history"))
        print(f"  [{sub.name}] {fail['message'][:1500]}")
        lines.append(f"VIOLATION property={prop} replay={path}")
        n_viol += 1

    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=len(nontrivial),
            rule=mod.RULE, samples=samples, skipped_out_of_domain=skips,
            per_subcheck=per_sub, truncated_by_time=truncated,
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t_start, 2), violations=n_viol,
    )
    if notes:
        ev["coverage"]["unreproduced"] = notes
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for ln in lines:
        print(ln)
    for n in notes:
        print("  note:", n[:500])
    if n_viol:
        print(f"{prop}: {n_viol} violation(s), {evaluations} cases, {ev['wall_s']}s")
        return 1
    if errors:
        for e in errors[:2]:
            print("CHECK-ERROR", e[0], e[1], e[2][-1800:], file=sys.stderr)
        return 2
    print(
        f"{prop}: ok, {evaluations} cases, {len(nontrivial)} distinct non-trivial, "
        f"{skips} skipped, {ev['wall_s']}s"
    )
    return 0


def write_replay(prop, sub, case, message, key="", history=None):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{sub}{'-' + key if key else ''}.json")
    with open(path, "w") as f:
        json.dump(
            dict(property=prop, sub=sub, case=case, message=message, history=history,
                 how="python run_check.py --replay <this file>"), f, indent=1)
    return path


def replay(path):
    import importlib

    ensure_deps()
    load_code()
    d = json.load(open(path))
    mod = importlib.import_module("props." + d["property"].lower())
    sub = next(x for x in list(mod.SUBS) + getattr(mod, "PROBES", []) if x.name == d["sub"])
    if d.get("history"):
        h = d["history"]
        r = run_unit(d["property"], sub, h["shard"], h["n"], h["seed"], 600, 5)
        bad = r["failure"] is not None
        msg = (r["failure"] or {}).get("message", "")
    else:
        status, msg, _ = run_case(sub, d["case"])
        bad = status == "violation"
        if status == "error":
            print(msg, file=sys.stderr)
            return 2
    print(msg)
    if bad:
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("replay: no violation")
    return 0
