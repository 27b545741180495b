"""Batched evaluation of catalogue functions and a measured rounding bound, for metamorphic relations."""
import numpy as np

LD = np.longdouble
CHUNK = 2048


class Batch:
    """Evaluates one function on many argument tuples with a single compilation."""

    def __init__(self, call, chunk=CHUNK):
        import jax

        self.f = jax.jit(jax.vmap(lambda *a: jax.tree_util.tree_leaves(call(*a))))
        self.chunk = chunk
        self.n = 0

    def __call__(self, args):
        n = len(args[0])
        outs = []
        for k in range(0, n, self.chunk):
            part = [a[k : k + self.chunk] for a in args]
            m = len(part[0])
            if m < self.chunk:
                part = [np.concatenate([a, np.repeat(a[:1], self.chunk - m, 0)]) for a in part]
            outs.append([np.asarray(o)[:m] for o in self.f(*part)])
        self.n += n
        return [np.concatenate([o[i] for o in outs]) for i in range(len(outs[0]))]


def tuples(values, shifts):
    """Latin-square style tuples: argument k of row i with shift s takes value (i + s k) mod N."""
    n = len(values[0])
    i = np.arange(n)
    return [np.concatenate([v[(i + s * k) % n] for s in shifts]) for k, v in enumerate(values)]


def size(o):
    """Magnitude of an output per row: the norm over its components, broadcast back."""
    o = np.abs(np.asarray(o).astype(LD))
    if o.ndim == 1:
        return o
    m = np.sqrt((o * o).sum(tuple(range(1, o.ndim)), keepdims=True))
    return np.broadcast_to(m, o.shape)


def spread(f, args, eps, skip=(), diff=lambda a, b: np.abs(a.astype(LD) - b), scale=None):
    """Per output component: magnitude plus the measured amplification of relative changes of every
    argument component, in units of eps (a rounding bound of a backward stable evaluation)."""
    base = f(args)
    out = [size(o) if o.dtype.kind == "f" else None for o in base]
    h = {np.dtype(np.float64): 2.0**-24, np.dtype(np.float32): 2.0**-10}
    for k, a in enumerate(args):
        if k in skip:
            continue
        hh = h[a.dtype]
        comps = [()] if a.ndim == 1 else [(j,) for j in range(a.shape[1])]
        for c in comps:
            b = a.copy()
            nrm = np.abs(a) if a.ndim == 1 else np.sqrt((a * a).sum(-1))
            if scale and k in scale:
                nrm = nrm + scale[k]
            sl = (slice(None),) + c
            b[sl] = a[sl] + (hh * nrm).astype(a.dtype)
            got = f([b if i == k else z for i, z in enumerate(args)])
            for i, (g, o) in enumerate(zip(got, base)):
                if out[i] is not None:
                    d = diff(g, o) / hh
                    out[i] = out[i] + size(d) if g.ndim > 1 else out[i] + d
    return base, out
