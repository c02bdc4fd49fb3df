"""shared: tracing a sampler of appletree/randgen.py under the contracts of jax.random"""
import numpy as np
import jax.numpy as jnp
import z3

F32, I32 = np.float32, np.int32

# how the parameters' shapes and the shape argument are chosen (N, K symbolic)
VARIANTS = {
    "scalars, shape (N,)": (lambda k, N, K: (), lambda N, K: (N,), lambda N, K: (N,)),
    "arrays (N,), no shape": (lambda k, N, K: (N,), lambda N, K: (), lambda N, K: (N,)),
    "scalars, no shape": (lambda k, N, K: (), lambda N, K: (), lambda N, K: ()),
    "arrays (N,1) and (K,), no shape": (lambda k, N, K: (N, 1) if k == 0 else (K,), lambda N, K: (), lambda N, K: (N, K)),
    "arrays (K,), shape (N,K)": (lambda k, N, K: (K,), lambda N, K: (N, K), lambda N, K: (N, K)),
}


class Run:
    pass


def setup(env, label):
    from vc import jx
    dims = jx.Dims(env, ["N", "K"])
    it = jx.Interp(env, dims, label=label)
    return dims, it


def run_sampler(env, it, dims, name, kinds, variant, args=None, extra=(), label=None, fixed=None):
    """kinds: list of (parameter name, 'f'|'i'); args: arrays to reuse; fixed: {position: constant}"""
    from vc import jx
    from vc.smt import num
    from vc.util import repo_fn
    f = repo_fn("appletree.randgen", name)
    psh, ssh, osh = VARIANTS[variant]
    N, K = dims["N"], dims["K"]
    shapes = [psh(k, N, K) for k in range(len(kinds))]
    if len(kinds) == 1 and variant.startswith("arrays (N,1)"):
        shapes = [(N, K)]
    fixed = fixed or {}
    shape = ssh(N, K)
    free = [k for k in range(len(kinds)) if k not in fixed]

    def call(key, *a):
        full, a = [], list(a)
        for k in range(len(kinds)):
            full.append(fixed[k] if k in fixed else a.pop(0))
        # broadcasting must still produce the same shape when a parameter is fixed
        full = [(x if x is None or k not in fixed else jnp.full(shapes[k], x)) for k, x in enumerate(full)]
        return f(key, *full, *extra, shape) if not callable(shape) else None
    dt = {"f": F32, "i": I32}
    cj, osd = jx.trace(call, [jx.SDS((2,), np.uint32)] + [jx.SDS(shapes[k], dt[kinds[k][1]]) for k in free])
    key = it.key_array("key")
    if args is None:
        args = {k: it.sym_array(kinds[k][0], shapes[k], dt[kinds[k][1]]) for k in range(len(kinds))}
    log0 = list(env.keylog)
    env.keylog = []
    outs = it.run(cj, [key] + [args[k] for k in free])
    r = Run()
    r.log, env.keylog = env.keylog, log0 + env.keylog
    r.args, r.shapes = args, shapes
    r.tuple_ok = len(outs) == 2
    if not r.tuple_ok:
        env.fail("%s returns the key and the sample" % name, "%d results" % len(outs))
        raise jx.Unsupported("result structure")
    r.key, r.out = outs
    r.want_shape = dims.shape(osh(N, K))
    idx = tuple(env.__dict__.setdefault("ridx", [env.int("n"), env.int("k")])[:len(r.want_shape)])
    r.idx = idx
    r.rng = [z3.And(i >= 0, i < num(d)) for i, d in zip(idx, r.want_shape)]
    r.shape_ok = len(r.out.shape) == len(r.want_shape) and all(z3.eq(z3.simplify(num(a)), z3.simplify(num(b))) for a, b in zip(r.out.shape, r.want_shape))
    if r.shape_ok:
        r.el = r.out(idx)

        def at(k):
            a = args[k]
            off = len(idx) - len(a.shape)
            ix = tuple(0 if isinstance(d, int) and d == 1 else idx[off + j] for j, d in enumerate(a.shape))
            return num(a(ix).v)
        r.p = [at(k) if k not in fixed else None for k in range(len(kinds))]
    return r


def callee_pres(env, hyps):
    seen = set()
    for nm, g in env.__dict__.pop("callee_pres", []):
        if (nm, g.get_id()) in seen:
            continue
        seen.add((nm, g.get_id()))
        env.prove("pre of jax.random." + nm, g, hyps, kind="callee-pre")
