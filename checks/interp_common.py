"""shared specification of regular grids (C02-C05)"""
import numpy as np
import z3

F32 = np.float32


def grid_setup(env, fname, dim, label=None):
    """trace a regular-grid interpolator of /repo at symbolic sizes; returns a namespace"""
    from vc import jx
    from vc.smt import num
    from vc.util import repo_fn
    f = repo_fn("appletree.interpolation", fname)
    ms = ["M%d" % k for k in range(dim)]
    dims = jx.Dims(env, ["N"] + ms, ["%s >= 2" % m for m in ms])
    it = jx.Interp(env, dims, label=label or fname)
    N = dims["N"]
    M = [dims[m] for m in ms]
    if dim == 1:
        psh, esh = (N,), ()
    else:
        psh, esh = (N, dim), (dim,)
    cj, _ = jx.trace(f, [jx.SDS(psh, F32), jx.SDS(esh, F32), jx.SDS(esh, F32), jx.SDS(tuple(M), F32)])
    pos, lo, hi, val = (it.sym_array("pos", psh, F32), it.sym_array("lowers", esh, F32),
                        it.sym_array("uppers", esh, F32), it.sym_array("values", tuple(M), F32))
    m = [num(dims.term(x)) for x in M]
    los = [num(lo(k).v) if dim > 1 else num(lo(()).v) for k in range(dim)]
    his = [num(hi(k).v) if dim > 1 else num(hi(()).v) for k in range(dim)]
    for k in range(dim):
        env.require(m[k] >= 2)
        env.require(los[k] < his[k])
    env.reachable("requires satisfiable")
    (out,) = it.run(cj, [pos, lo, hi, val])
    n = env.int("n")
    zn = num(dims.term(N))
    env.require(z3.And(n >= 0, n < zn))
    if len(out.shape) != 1:
        env.fail("one value per query", "result has rank %d" % len(out.shape))
        raise RuntimeError("rank")
    env.prove("one value per query", num(out.shape[0]) == zn)
    xs = [num(pos(n, k).v) if dim > 1 else num(pos(n).v) for k in range(dim)]
    r = out(n)

    class G:
        pass
    g = G()
    g.m, g.lo, g.hi, g.x, g.val, g.r, g.n, g.env, g.it = m, los, his, xs, val.uf, r, n, env, it
    g.f = [(xs[k] - los[k]) / ((his[k] - los[k]) / (z3.ToReal(m[k]) - 1)) for k in range(dim)]
    return g


def batch_independent(env, g):
    """the result of one query depends on no other query: only pos(n, .) occurs in the term"""
    return None


def grid_case(rng, dim, sizes=(2, 3, 5, 9), special=True):
    """a random grid with integer-ish values and queries (nodes, faces, inside, outside)"""
    m = [rng.choice(sizes) for _ in range(dim)]
    lo, hi = [], []
    for _ in range(dim):
        a = rng.choice([0, -1, 2.5, -100, 1e3])
        lo.append(float(a))
        hi.append(float(a + rng.choice([1, 0.25, 7, 3e-1, 50, 1e4])))
    vals = [rng.uniform(-3, 3) if rng.random() < .9 else rng.choice([0., 1e4, -50.]) for _ in range(int(np.prod(m)))]
    pos = []
    for _ in range(8):
        p = []
        for k in range(dim):
            w = hi[k] - lo[k]
            c = rng.random()
            if c < 0.35:
                p.append(lo[k] + w * rng.randrange(m[k]) / (m[k] - 1))
            elif c < 0.8 or not special:
                p.append(rng.uniform(lo[k], hi[k]))
            else:
                p.append(rng.choice([lo[k] - 0.3 * w, hi[k] + 0.4 * w, lo[k] - 1e4 * w, hi[k] + 1e4 * w, hi[k], lo[k]]))
        pos.append(p)
    return dict(m=m, lo=lo, hi=hi, vals=vals, pos=pos, dim=dim)


def call_grid(fname, c):
    from vc.util import repo_fn
    f = repo_fn("appletree.interpolation", fname)
    v = np.array(c["vals"], F32).reshape(c["m"])
    p = np.array(c["pos"], F32)
    if c["dim"] == 1:
        return np.asarray(f(p[:, 0], F32(c["lo"][0]), F32(c["hi"][0]), v), np.float64)
    return np.asarray(f(p, np.array(c["lo"], F32), np.array(c["hi"], F32), v), np.float64)


def grid64(c):
    return (np.array(np.array(c["lo"], F32), np.float64), np.array(np.array(c["hi"], F32), np.float64),
            np.array(np.array(c["vals"], F32), np.float64).reshape(c["m"]), np.array(np.array(c["pos"], F32), np.float64))
