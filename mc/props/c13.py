"""C13: elementary rotations: angle lattice, group words, array shapes."""
import itertools

import numpy as np

from mc import ref

BOUNDS = (
    "reachable states of products of the 9 turns {x, y, z} x {90, -90, 180 deg}: closed at the 24 elements of the octahedral rotation group, every one of its 216 transitions "
    "executed from a product of library matrices; all words of quarter turns up to length 4 (quick) / 6 (thorough); every angle of a lattice over 12 decades of both signs and in steps of 0.013 up to 52 (thorough 520) "
    "and every pair for the addition law; array shapes up to rank 3; eager, jit, vmap; float32 and float64"
)
ASSUMPTIONS = ["the exact sine and cosine of the represented angle are taken from 80-bit arithmetic"]
LD = np.longdouble


def jobs(tier):
    out = []
    for x in (True, False):
        s = "f64" if x else "f32"
        for k in ("angles", "words", "shapes"):
            out.append((f"{k}-{s}", x, dict(kind=k)))
    return out


def run(ctx, p):
    globals()["run_" + p["kind"]](ctx, p)


def fns():
    import astrodynx as adx

    return [adx.utils.rotmat3dx, adx.utils.rotmat3dy, adx.utils.rotmat3dz]


def lattice(ctx):
    a = [0.0, 1e-12, 1e-7, 1e-4, 0.01, 0.3, 0.5, 1.0, 1.3, 2.0, 3.0, 4.0, 5.5, 7.0, 20.0, 100.0, 1000.0]
    a += [k * np.pi / 12 for k in range(1, 50)]
    if ctx.tier != "quick":
        a += [k / 64 for k in range(1, 700)]
    a = np.array(sorted(set(a) | {-x for x in a}), ctx.dtype)
    return a


def exact(axis, ang):
    """Right-handed rotation of vectors about an axis, from its definition on the basis."""
    ang = np.asarray(ang).astype(LD)
    # 80-bit reduction of the represented angle
    k = np.round(ang / (2 * ref.PI))
    w = ang - k * (2 * ref.PI)
    c, s = np.cos(w), np.sin(w)
    out = np.zeros(ang.shape + (3, 3), LD)
    u, v = (axis + 1) % 3, (axis + 2) % 3
    out[..., axis, axis] = 1
    out[..., u, u] = c  # e_u -> c e_u + s e_v
    out[..., v, u] = s
    out[..., v, v] = c
    out[..., u, v] = -s
    return out


def run_angles(ctx, p):
    import jax

    A = lattice(ctx)
    for ax, f in enumerate(fns()):
        nm = "xyz"[ax]
        want = exact(ax, A)
        for how, g in (("eager", f), ("jit", jax.jit(f)), ("vmap", jax.vmap(f)), ("one by one", lambda a: np.stack([np.asarray(f(t)) for t in a]))):
            B = A[::7] if how == "one by one" else A
            W = exact(ax, B)
            got = np.asarray(g(B))
            ctx.check(got.dtype == ctx.dtype, "precision of the angle", axis=nm, how=how, dtype=str(got.dtype))
            ctx.close(f"rotation about {nm}", got, W, 4 * ctx.eps, angle=B, how=how)
            ctx.count(states=len(B), traces=len(B))
        M = np.asarray(f(A)).astype(LD)
        T = np.swapaxes(M, -1, -2)
        ctx.close("orthogonal", T @ M, np.broadcast_to(np.eye(3, dtype=LD), M.shape), 8 * ctx.eps, angle=A, axis=nm)
        det = (M[:, 0] * ref.cross(M[:, 1], M[:, 2])).sum(-1)
        ctx.close("determinant one", det, np.ones(len(A), LD), 8 * ctx.eps, angle=A, axis=nm)
        ctx.close("opposite angle gives the transpose", np.asarray(f(-A)), T, 4 * ctx.eps, angle=A, axis=nm)
        e = np.eye(3, dtype=LD)[ax]
        ctx.close("axis fixed", M @ e, np.broadcast_to(e, (len(A), 3)), 0, angle=A, axis=nm)
        B = (np.arange(-4000 if ctx.tier == "quick" else -40000, 4000 if ctx.tier == "quick" else 40000) * 0.013 + 0.004).astype(ctx.dtype)
        ctx.close(f"rotation about {nm}, fine steps", np.asarray(jax.jit(f)(B)), exact(ax, B), 4 * ctx.eps, angle=B)
        ctx.count(states=len(B), traces=len(B))
        # addition over every pair whose sum the precision represents
        small = A[np.abs(A) <= 7]
        a, b = [z.ravel() for z in np.meshgrid(small, small, indexing="ij")]
        s = (a.astype(LD) + b.astype(LD)).astype(ctx.dtype)
        Ma, Mb, Ms = [np.asarray(f(z)).astype(LD) for z in (a, b, s)]
        ctx.close("angles add", Ma @ Mb, Ms, 24 * ctx.eps, a=a, b=b, axis=nm)
        ctx.close("angles add (other order)", Mb @ Ma, Ms, 24 * ctx.eps, a=a, b=b, axis=nm)
        ctx.count(states=len(a), traces=len(a))
        ctx.sample(axis=nm, pairs=len(a))


def gens(ctx):
    out = []
    for ax, f in enumerate(fns()):
        for t in (1, -1, 2):
            ang = ctx.dtype(t) * ctx.dtype(np.pi / 2)
            out.append(("xyz"[ax] + {1: "+", -1: "-", 2: "2"}[t], np.asarray(f(ang)), np.rint(exact(ax, ang)).astype(int)))
    return out


def run_words(ctx, p):
    G = gens(ctx)
    # explicit-state search over the exact group; each state keeps the library product that reached it
    start = tuple(np.eye(3, dtype=int).ravel())
    seen = {start: np.eye(3, dtype=LD)}
    todo = [start]
    edges = 0
    while todo:
        s = todo.pop(0)
        S = np.array(s).reshape(3, 3)
        for nm, M, I in G:
            t = tuple((I @ S).ravel())
            got = M.astype(LD) @ seen[s]
            ctx.close("product of turns equals the group element", got, np.array(t, LD).reshape(3, 3), 64 * ctx.eps, state=str(s), turn=nm)
            edges += 1
            if t not in seen:
                seen[t] = got
                todo.append(t)
    ctx.check(len(seen) == 24 and edges == 216, "the quarter turns generate the 24 rotations", n=len(seen), edges=edges)
    ctx.count(states=len(seen), transitions=edges, traces=edges)
    ctx.extra["group_elements"] = len(seen)
    Q = [g for g in G if not g[0].endswith("2")]
    depth = 4 if ctx.tier == "quick" else 6
    P, W = np.eye(3, dtype=LD)[None], np.eye(3, dtype=int)[None]
    for d in range(1, depth + 1):
        P = np.concatenate([M.astype(LD) @ P for _, M, _ in Q])
        W = np.concatenate([I @ W for _, _, I in Q])
        ctx.close("word of quarter turns", P, W.astype(LD), 16 * d * ctx.eps, depth=d, index=np.arange(len(P)))
        ctx.count(states=len(P), traces=len(P))


def run_shapes(ctx, p):
    import jax
    import jax.numpy as jnp

    for shape in [(), (1,), (3,), (2, 2), (3, 3), (1, 4), (4, 1), (2, 3, 2), (3, 1, 3), (0,), (2, 0)]:
        n = int(np.prod(shape, dtype=int))
        a = (np.arange(n, dtype=float).reshape(shape) * 0.7 - 1.1).astype(ctx.dtype)
        for ax, f in enumerate(fns()):
            for how, g in (("numpy", lambda z: f(z)), ("jax", lambda z: f(jnp.asarray(z))), ("jit", lambda z: jax.jit(f)(z))):
                got = np.asarray(g(a))
                ctx.check(got.shape == shape + (3, 3), "array of angles gives the array of matrices", shape=str(shape), got_shape=str(got.shape), axis="xyz"[ax], how=how)
                if got.shape == shape + (3, 3) and n:
                    ctx.close("each matrix belongs to its angle", got.reshape(-1, 3, 3), exact(ax, a).reshape(-1, 3, 3), 4 * ctx.eps, angle=a.ravel(), axis="xyz"[ax], how=how)
                ctx.count(states=max(n, 1), traces=1)
    # plain Python angles
    for ax, f in enumerate(fns()):
        for t in (0.0, 0.25, -1.0, 3.0, np.pi / 2, 1, 0, -2):
            ctx.close("Python number as angle", np.asarray(f(t)), exact(ax, np.array(t)), 6 * ctx.eps, angle=t, axis="xyz"[ax])
        # derivative of the rotation is the generator times the rotation
        K = np.zeros((3, 3), LD)
        u, v = (ax + 1) % 3, (ax + 2) % 3
        K[v, u], K[u, v] = 1, -1
        for t in (-2.0, -0.5, 0.0, 0.7, 1.6, 3.0):
            t = ctx.dtype(t)
            ctx.close("derivative of the rotation", np.asarray(jax.jacfwd(f)(jnp.asarray(t))), K @ exact(ax, t), 6 * ctx.eps, angle=float(t), axis="xyz"[ax])
            ctx.count(states=1, traces=1)
