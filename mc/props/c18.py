"""C18: concurrent calls under a controlled scheduler, stateless exploration with a preemption bound."""
import re
import sys
import threading

import numpy as np

BOUNDS = (
    "two concurrent calls: every function of the catalogue with itself on two different inputs, all schedules with at most 2 preemptions (3 in the thorough tier for short functions) at every source line "
    "of the library; predicates on many input pairs; every pair of different cheap functions with at most 1 (quick) / 2 (thorough) preemptions; 1 preemption at every bytecode instruction for every cheap function; three concurrent calls of "
    "14 representatives with at most 1 / 2 preemptions; solvers, universal functions, the transition matrix, the Kepler propagator and the numerical entry points while being traced, every schedule with at most 1 "
    "preemption at library lines (quick: at the first and the last execution of each source line), including the lines executed inside the array library's tracing; each schedule is one execution of the real code by real threads handed a baton"
)
ASSUMPTIONS = [
    "the array library itself is thread-safe: its internals run without preemption (memory-model effects do not exist under the interpreter lock)",
    "compiled code holds no Python state: for expensive functions the traced program is compared instead of its numerical value",
]
HEAVY = (("kepler", 4), ("dxdx0", 2), ("solve_kepler_uni", 1))
ROOT = "/astrodynx/"
SLOW = ("kepler_equ_uni", "solve_kepler_elps", "solve_kepler_hypb", "solve_kepler_uni", "ufunc0", "ufunc1", "ufunc2", "ufunc3", "ufunc4", "ufunc5", "dxdx0", "kepler")
REPS = ("kepler_equ_elps", "mean_anomaly_hypb", "orb_period", "eccentricity_vector", "rv2coe", "coe2rv", "lagrange_G", "C_func", "prpr0", "pass_perigee", "rp_islower_rmin", "j2_acc", "radius_islow", "rotmat3dy")


def jobs(tier):
    out = []
    for x in (False,) if tier == "quick" else (False, True):
        s = "f64" if x else "f32"
        out += [(f"same-{s}-{g}", x, dict(kind="same", part=(g, 8))) for g in range(8)]
        out += [(f"pairs-{s}-{g}", x, dict(kind="pairs", part=(g, 6))) for g in range(6)]
        out += [(f"opcodes-{s}-{g}", x, dict(kind="opcodes", part=(g, 4))) for g in range(4)]
        out += [(f"predicates-{s}-{g}", x, dict(kind="predicates", part=(g, 4))) for g in range(4)]
        out += [(f"three-{s}", x, dict(kind="three", part=(0, 1)))]
        heavy = [(f"traced-{nm}-{s}-{g}", x, dict(kind="heavy", name=nm, part=(g, n))) for nm, n in HEAVY for g in range(n)]
        out = heavy + out + [(f"traced-{s}-{g}", x, dict(kind="traced", part=(g, 6))) for g in range(6)]
    return out


class Stuck(Exception):
    pass


class Scheduler:
    """Runs the bodies as threads; exactly one holds the baton; hand-over only at scheduling points."""

    def __init__(self, bodies, prefix, opcodes=False, ends=None, horizon=200000):
        self.bodies, self.prefix, self.opcodes, self.ends, self.horizon = bodies, prefix, opcodes, ends, horizon
        n = len(bodies)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.result = [None] * n
        self.points = []  # (number of alternatives, running thread still enabled)
        self.choices = []
        self.trace = []
        self.all_done = threading.Event()
        self.bad = None

    def choose(self, cur):
        """cur: index of the running thread, or None when it has just finished / at the start."""
        en = [i for i in range(len(self.bodies)) if not self.done[i] and i != cur]
        if cur is not None:
            en = [cur] + en
        if len(en) <= 1:
            return en[0] if en else None
        k = len(self.choices)
        c = self.prefix[k] if k < len(self.prefix) else 0
        if c >= len(en):
            self.bad = f"divergence while replaying a prefix at point {k}"
            c = 0
        self.points.append((len(en), cur is not None))
        self.choices.append(c)
        if len(self.choices) > self.horizon:
            self.bad = "horizon exceeded"
        return en[c]

    def point(self, i):
        j = self.choose(i)
        if j != i:
            self.sem[j].release()
            self.sem[i].acquire()

    def main(self, i):
        self.sem[i].acquire()
        seen = {}

        def local(frame, event, arg):
            if event == "line" if not self.opcodes else event == "opcode":
                if self.ends is not None:
                    k = (frame.f_code.co_filename, frame.f_lineno)
                    seen[k] = m = seen.get(k, 0) + 1
                    if m != 1 and m != self.ends[i].get(k, 1):
                        return local
                sys.settrace(None)  # the scheduler itself is not traced
                self.point(i)
                sys.settrace(glob)
            return local

        def glob(frame, event, arg):
            if ROOT in frame.f_code.co_filename:
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None

        sys.settrace(glob)
        try:
            self.result[i] = self.bodies[i]()
        except BaseException as ex:  # noqa: BLE001
            self.result[i] = f"raises {type(ex).__name__}: {str(ex)[:200]}"
        finally:
            sys.settrace(None)
        self.done[i] = True
        j = self.choose(None)
        if j is None:
            self.all_done.set()
        else:
            self.sem[j].release()

    def run(self):
        ts = [threading.Thread(target=self.main, args=(i,), daemon=True) for i in range(len(self.bodies))]
        for t in ts:
            t.start()
        self.sem[self.choose(None)].release()
        if not self.all_done.wait(120):
            raise Stuck(f"no progress after {len(self.choices)} points")
        for t in ts:
            t.join()
        return self


def cost_before(points, choices, k):
    return sum(1 for (n, run), c in zip(points[:k], choices[:k]) if run and c)


def occurrences(body):
    """How often each source line of the library runs in the call alone."""
    n = {}

    def local(frame, event, arg):
        if event == "line":
            k = (frame.f_code.co_filename, frame.f_lineno)
            n[k] = n.get(k, 0) + 1
        return local

    sys.settrace(lambda frame, event, arg: local if ROOT in frame.f_code.co_filename else None)
    try:
        body()
    finally:
        sys.settrace(None)
    return n


def explore(ctx, name, bodies, want, bound, opcodes=False, ends=None, part=(0, 1)):
    """All schedules with at most `bound` preemptions."""
    stack = [[]]
    n = 0
    outcomes = set()
    longest = 0
    while stack:
        if ctx.late():
            break
        prefix = stack.pop()
        try:
            s = Scheduler(bodies, prefix, opcodes, ends).run()
        except Stuck as ex:
            ctx.fail("concurrent calls block each other", calls=name, schedule=prefix, error=str(ex))
            return
        n += 1
        longest = max(longest, len(s.choices))
        if s.bad:
            ctx.fail("schedule does not replay", calls=name, schedule=prefix, error=s.bad)
            continue
        if s.result != want:
            again = Scheduler(bodies, s.choices, opcodes, ends).run()
            ctx.fail(
                "a concurrent call returns something else than alone",
                calls=name, schedule=[(i, c) for i, c in enumerate(s.choices) if c], points=len(s.choices), got=[str(r)[:200] for r in s.result], alone=[str(r)[:200] for r in want], same_when_replayed=again.result == s.result,
            )
            outcomes.add(str(s.result)[:200])
            if ctx.nviol > 200:
                return
        for i in range(len(prefix), len(s.points)):
            m, run = s.points[i]
            if run and i % part[1] != part[0]:
                continue  # explored by another job
            c = cost_before(s.points, s.choices, i) + (1 if run else 0)
            if c <= bound:
                for alt in range(1, m):
                    stack.append(s.choices[:i] + [alt])
    ctx.count(states=n, transitions=n * longest, traces=n)
    ctx.extra["schedules"] = ctx.extra.get("schedules", 0) + n
    return longest


def val(r):
    import jax

    return [(str(np.asarray(z).dtype), np.asarray(z).shape, np.asarray(z).tobytes()) for z in jax.tree_util.tree_leaves(r)]


def bodies(ctx):
    """name -> (call on input A, call on input B), cheap eager functions; and traced ones."""
    import jax
    import jax.numpy as jnp
    import astrodynx as adx
    from astrodynx import diffeq
    from mc import catalog as cat
    from mc import dyn

    cheap, traced = {}, {}
    for f in cat.catalog(adx):
        v = f.values(ctx.dtype)
        args = [[jnp.asarray(a[i]) for a in v] for i in (1, 7, 4)]
        if f.name in SLOW:
            # different conics take different branches; the traced program must not depend on who else is tracing
            traced[f.name] = [lambda f=f, a=a, k=k: program(f.call, a, k) for k, a in enumerate(args)]
        else:
            cheap[f.name] = [lambda f=f, a=a: val(f.call(*a)) for a in args]
            if f.opt:
                cheap[f.name][1] = lambda f=f, a=args[1]: val(f.call(*a[: len(a) - f.opt]))
    P = adx.prop
    terms = diffeq.ODETerm(dyn.field(adx, ("point_mass_grav", "j2_acc")))
    X = jnp.asarray(np.array([1.0, 0.1, -0.2, 0.1, 1.05, 0.2], ctx.dtype))
    T = jnp.asarray(ctx.dtype(1.0))
    ev = diffeq.Event(adx.events.radius_islow)

    def entry(kind, mu, t, event):
        def call(x, m):
            a = {"mu": m, "J2": 0.01 * mu, "R_eq": 1.0, "rmin": 0.2}
            od = P.OrbDynx(terms, a, event)
            if kind == "to_final":
                return P.to_final(od, x, t).ys
            if kind == "fixed_steps":
                return P.fixed_steps(od, x, t, t / 4, max_steps=8).ys
            if kind == "custom_steps":
                return P.custom_steps(od, x, t, jnp.asarray([0.5, 1.0]) * t).ys
            if kind == "adaptive_steps":
                return P.adaptive_steps(od, x, t, max_steps=16).ys
            return P.cowell_method(od, x, t, diffeq.SaveAt(t1=True), max_steps=16).ys

        return lambda: program(call, [X, jnp.asarray(ctx.dtype(mu))], mu)

    for kind in ("to_final", "fixed_steps", "custom_steps", "adaptive_steps", "cowell_method"):
        traced[kind] = [entry(kind, 1.0, 1.0, None), entry(kind, 2.0, 2.0, ev), entry(kind, 3.0, -1.0, None)]
    return cheap, traced


HEX = re.compile(r"0x[0-9a-f]+")


def program(f, args, tag):
    """The traced program with its constants; `tag` scales a captured constant, so that two traces differ."""
    import jax

    j = jax.make_jaxpr(lambda *a: f(*a))(*args)
    return [tag, HEX.sub("", str(j)), [np.asarray(c).tobytes() for c in j.consts]]


def alone(bs):
    return [b() for b in bs]


def run(ctx, p):
    g, n = p["part"]
    q = ctx.tier == "quick"
    cheap, traced = bodies(ctx)
    kind = p["kind"]
    import jax.numpy as jnp  # noqa: F401

    names = sorted(cheap)
    if kind == "same":
        order = sorted(names, key=lambda s: (s in ("rv2coe", "coe2rv", "pvpr0", "prpr0", "prpv0", "pvpv0", "rp_islower_rmin"), s))
        for nm in order[g::n]:
            bs = cheap[nm][:2]
            want = alone(bs)
            alone(bs)
            m = explore(ctx, f"{nm} || {nm}", bs, want, 2)
            if not q and m and m < 30:
                explore(ctx, f"{nm} || {nm}", bs, want, 3)
            ctx.sample(calls=f"{nm} || {nm}", scheduling_points=m)
    elif kind == "pairs":
        pr = [(a, b) for i, a in enumerate(names) for b in names[i + 1 :]]
        want = {nm: [alone([x])[0] for x in cheap[nm][:2]] for nm in names}
        for a, b in pr[g::n]:
            explore(ctx, f"{a} || {b}", [cheap[a][0], cheap[b][1]], [want[a][0], want[b][1]], 1 if q else 2)
    elif kind == "opcodes":
        for nm in names[g::n]:
            bs = cheap[nm][:2]
            explore(ctx, f"{nm} || {nm} (instructions)", bs, alone(bs), 1, True)
    elif kind == "predicates":
        # results with few values: many input pairs, so that a mixed-up value changes the result
        from mc import catalog as cat
        import astrodynx as adx

        f = [f for f in cat.catalog(adx) if f.kinky][g]
        v = f.values(ctx.dtype)
        one = [lambda a=[jnp.asarray(x[i]) for x in v]: val(f.call(*a)) for i in range(cat.N)]
        want = alone(one)
        for i in range(cat.N):
            for j in range(cat.N):
                if i != j and want[i] != want[j] and (not q or (i - j) % cat.N in (1, 2, 5)):
                    explore(ctx, f"{f.name}[{i}] || {f.name}[{j}]", [one[i], one[j]], [want[i], want[j]], 1)
    elif kind == "three":
        for nm in REPS:
            bs = cheap[nm][:3]
            explore(ctx, f"{nm} x 3", bs, alone(bs), 1 if q else 2)
    else:
        order = sorted(set(traced) - {h for h, _ in HEAVY})
        if kind == "heavy":
            order, g, n, part = [p["name"]], 0, 1, p["part"]
        else:
            part = (0, 1)
        for nm in order[g::n]:
            bs = traced[nm][:2]
            want = alone(bs)
            if alone(bs) != want:
                ctx.extra["not comparable"] = ctx.extra.get("not comparable", 0) + 1
                ctx.fail("tracing alone is not reproducible", calls=nm)
                continue
            m = explore(ctx, f"{nm} || {nm} (traced)", bs, want, 1, ends=[occurrences(b) for b in bs] if q else None, part=part)
            ctx.sample(calls=f"{nm} || {nm} (traced)", scheduling_points=m)
