"""Explorer engine: jobs, counters, comparisons, violations, evidence.

A property module (mc/props/cXX.py) provides

    TITLE, BOUNDS, ASSUMPTIONS      texts for the evidence
    jobs(tier) -> list of (name, x64, params)
    run(ctx, params)                explores one slice completely

Every job is one process.  A job enumerates its slice of the state space in full:
there is no sampling and no early stop; a slice that cannot be finished is a
violation (code under test hangs) and never silently dropped.
"""
import json
import os
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")
MAXV = 25  # violations kept per job (all are counted)


class Ctx:
    def __init__(self, prop, name, x64, params, tier):
        self.prop, self.job, self.x64, self.params, self.tier = prop, name, x64, params, tier
        self.eps = 2.0**-52 if x64 else 2.0**-23
        self.dtype = np.float64 if x64 else np.float32
        self.states = self.transitions = self.traces = 0
        self.nviol = 0
        self.viol = []
        self.samples = []
        self.margin = {}
        self.extra = {}
        known = json.load(open(KNOWN))["findings"] if os.path.exists(KNOWN) else []
        self.known = {k: f["id"] for f in known if f["property"] == prop for k in f["keys"]}
        self.known_hit = {}

    def late(self):
        """True once the time for this run is used up: the caller stops at a whole unit of the
        enumeration, and the evidence says that the exploration was cut short."""
        if time.time() < float(os.environ.get("MC_SOFT_DEADLINE", "inf")):
            return False
        self.extra["units cut short"] = self.extra.get("units cut short", 0) + 1
        return True

    # -- recording -------------------------------------------------------
    def count(self, states=0, transitions=0, traces=0):
        self.states += int(states)
        self.transitions += int(transitions)
        self.traces += int(traces)

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append({k: _js(v) for k, v in kw.items()})

    def fail(self, what, key=None, **info):
        key = key or what
        if key in self.known:
            self.known_hit[key] = self.known[key]
            return
        self.nviol += 1
        if len(self.viol) < MAXV:
            self.viol.append(dict(what=what, key=key, case={k: _js(v) for k, v in info.items()}))

    def check(self, cond, what, key=None, **info):
        self.transitions += 1
        if not bool(cond):
            self.fail(what, key, **info)

    def close(self, what, got, want, tol, keyf=None, **case):
        """|got - want| <= tol for every row; NaN never passes.  `case` values are
        arrays indexed by row (or constants) that identify the failing input."""
        got, want = np.asarray(got), np.asarray(want)
        tol = np.asarray(tol)
        if got.shape != np.broadcast_shapes(got.shape, want.shape):
            self.transitions += 1
            self.fail(what + ": shape", got=got.shape, want=want.shape, **_consts(case))
            return False
        with np.errstate(all="ignore"):
            err = np.abs(got.astype(np.longdouble) - want)
            ok = err <= tol
            same_inf = ~np.isfinite(np.asarray(want, np.longdouble)) & (got == want)
            ok = ok | same_inf
            ratio = np.where(np.isfinite(err) & (tol > 0), err / np.where(tol > 0, tol, 1), 0)
        self.transitions += int(np.prod(got.shape[:1])) if got.ndim else 1
        if ratio.size:
            m = float(np.max(np.where(ok, ratio, 0)))
            self.margin[what] = max(self.margin.get(what, 0.0), m)
        if ok.all():
            return True
        if got.ndim == 0:
            self.fail(what, key=keyf and keyf(()), got=got, want=want, tol=tol, **_consts(case))
            return False
        bad = np.argwhere(~ok)
        rows = np.unique(bad[:, 0])
        for r in rows:
            r = int(r)
            info = {
                k: (v[r] if isinstance(v, np.ndarray) and v.ndim and v.shape[0] == got.shape[0] else v)
                for k, v in case.items()
            }
            t = np.broadcast_to(tol, ok.shape)[r]
            self.fail(what, key=keyf and keyf(r), got=got[r], want=np.broadcast_to(want, ok.shape)[r], tol=t, **info)
        return False

    def result(self):
        return dict(
            job=self.job,
            x64=self.x64,
            states=self.states,
            transitions=self.transitions,
            traces=self.traces,
            nviol=self.nviol,
            viol=self.viol,
            samples=self.samples,
            margin=self.margin,
            extra=self.extra,
            known_hit=self.known_hit,
        )


def _consts(case):
    return {k: v for k, v in case.items()}


def _js(v):
    if isinstance(v, (str, int, bool)) or v is None:
        return v
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, (list, tuple)):
        return [_js(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _js(x) for k, x in v.items()}
    try:
        a = np.asarray(v)
        if a.dtype.kind in "fc":
            a = a.astype(np.complex128 if a.dtype.kind == "c" else np.float64)
        if a.size > 64:
            return f"array{a.shape} {a.ravel()[:8].tolist()}..."
        return a.tolist() if a.dtype.kind in "fiub" else str(v)
    except Exception:
        return repr(v)[:300]


# ------------------------------------------------------------------ worker side
def worker(prop, index, tier, out):
    import importlib

    mod = importlib.import_module("mc.props." + prop.lower())
    name, x64, params = mod.jobs(tier)[index]
    ctx = Ctx(prop, name, x64, params, tier)
    t = time.time()
    try:
        from mc import env

        env.load(x64)
        if not ctx.late():
            mod.run(ctx, params)
    except BaseException as ex:  # noqa: BLE001  any escape is an observable failure
        if isinstance(ex, KeyboardInterrupt):
            raise
        ctx.fail(
            "exception while exploring",
            key="exception",
            error=f"{type(ex).__name__}: {str(ex)[:500]}",
            trace=traceback.format_exc()[-3000:],
        )
    res = ctx.result()
    res["wall_s"] = time.time() - t
    with open(out, "w") as fh:
        json.dump(res, fh)


# ------------------------------------------------------------------ driver side
def run_property(prop, tier, only=None, verbose=False):
    import importlib

    t0 = time.time()
    mod = importlib.import_module("mc.props." + prop.lower())
    js = mod.jobs(tier)
    idx = [i for i in range(len(js)) if only is None or js[i][0] == only]
    limit = 780 if tier == "quick" else 6 * 3600
    deadline = t0 + limit
    soft = t0 + float(os.environ.get("MC_SOFT_LIMIT", limit * 0.72))
    scratch = tempfile.mkdtemp(prefix="mc_" + prop + "_")
    env = dict(os.environ)
    env.update(
        JAX_PLATFORMS="cpu",
        MC_SOFT_DEADLINE=str(soft),
        PYTHONDONTWRITEBYTECODE="1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        PYTHONPATH=VERIF,
        JAX_ENABLE_COMPILATION_CACHE="false",
        TF_CPP_MIN_LOG_LEVEL="3",
        PYTHONHASHSEED="0",
    )
    env.pop("JAX_ENABLE_X64", None)
    results = [None] * len(js)

    def one(i):
        out = os.path.join(scratch, f"{i}.json")
        cmd = [sys.executable, "-m", "mc.worker", prop, str(i), tier, out]
        p = subprocess.Popen(cmd, env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try:
            log, _ = p.communicate(timeout=max(5, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            log = "timeout"
        if os.path.exists(out):
            results[i] = json.load(open(out))
        else:
            what = "did not terminate" if log == "timeout" else "explorer process died"
            results[i] = dict(job=js[i][0], x64=js[i][1], states=0, transitions=0, traces=0, nviol=1,
                              viol=[dict(what=what, key=what, case=dict(log=log[-3000:]))],
                              samples=[], margin={}, extra={}, known_hit={}, wall_s=time.time() - t0)
        if verbose:
            r = results[i]
            print(f"  job {r['job']} x64={r['x64']} {r['wall_s']:.1f}s states={r['states']} transitions={r['transitions']} traces={r['traces']} viol={r['nviol']}", flush=True)

    with ThreadPoolExecutor(min(8, os.cpu_count() or 1)) as ex:
        list(ex.map(one, idx))
    res = [r for r in results if r]
    for f in os.listdir(scratch):
        os.remove(os.path.join(scratch, f))
    os.rmdir(scratch)
    nviol = sum(r["nviol"] for r in res)
    margin = {}
    extra = {}
    known = {}
    for r in res:
        for k, v in r["margin"].items():
            k = k + (" [f64]" if r["x64"] else " [f32]")
            margin[k] = max(margin.get(k, 0), round(v, 4))
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v if isinstance(v, (int, float)) else v
        known.update(r["known_hit"])
    ev = dict(
        property=prop,
        tier=tier,
        seed=int(os.environ.get("VERIF_SEED", "0") or 0),
        level="model_checking",
        coverage=dict(
            states=sum(r["states"] for r in res),
            transitions=sum(r["transitions"] for r in res),
            traces_validated_against_impl=sum(r["traces"] for r in res),
            samples=[s for r in res for s in r["samples"]][:8],
            exhaustive=len(res) == len(js) and nviol == 0 and not extra.get("units cut short"),
            bounds=mod.BOUNDS,
            jobs={f"{r['job']}": dict(states=r["states"], transitions=r["transitions"], traces=r["traces"], wall_s=round(r["wall_s"], 1)) for r in res},
            worst_error_over_tolerance=margin,
            known_findings_hit=sorted(known),
            **extra,
        ),
        assumptions=mod.ASSUMPTIONS,
        wall_s=round(time.time() - t0, 2),
        violations=nviol,
    )
    return ev, res, known


def main(argv):
    prop, tier = argv[0], (argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick"))
    verbose = os.environ.get("VERIF_VERBOSE") == "1"
    ev, res, known = run_property(prop, tier, verbose=verbose)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(path + ".tmp", path)
    if known:
        texts = {f["id"]: f["text"] for f in json.load(open(KNOWN))["findings"]}
        for fid in sorted(set(known.values())):
            print(f"KNOWN-FINDING: property={prop} {texts[fid]}")
    c = ev["coverage"]
    print(f"{prop} {tier}: states={c['states']} transitions={c['transitions']} traces={c['traces_validated_against_impl']} violations={ev['violations']} wall={ev['wall_s']}s")
    if verbose:
        for k, v in sorted(c["worst_error_over_tolerance"].items(), key=lambda kv: -kv[1])[:40]:
            print(f"    margin {v:8.4f}  {k}")
    if not ev["violations"]:
        return 0
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    n = 0
    seen = set()
    for r in res:
        for v in r["viol"]:
            sig = (r["job"], v["what"])
            if sig in seen or n >= 12:
                continue
            seen.add(sig)
            rp = os.path.join(rdir, f"{prop}-{n}.json")
            with open(rp, "w") as fh:
                json.dump(dict(property=prop, tier=tier, job=r["job"], x64=r["x64"], replay_cmd=f"cd {VERIF} && bash run.sh replay {rp}", **v), fh, indent=1)
            print(f"VIOLATION property={prop} replay={rp}")
            print("   ", r["job"], "|", v["what"], "|", json.dumps(v["case"])[:600])
            n += 1
    return 1


def replay(path):
    """Re-executes the slice of a recorded violation and reports whether it recurs."""
    d = json.load(open(path))
    ev, res, _ = run_property(d["property"], d["tier"], only=d["job"])
    hit = [v for r in res for v in r["viol"] if v["what"] == d["what"]]
    print(json.dumps(dict(recorded=d, now=hit[:3]), indent=1))
    print("REPRODUCED" if hit else "NOT REPRODUCED")
    return 1 if hit else 0
