"""C02: linear interpolation is exact multilinear interpolation, clamped outside."""
import itertools

import numpy as np
import z3

from vc.harness import Unit
from checks.interp_common import F32, call_grid, grid64, grid_case, grid_setup

ASSUMPTIONS = ["grids have at least two nodes per axis and lower < upper (requires)",
               "1D point maps: strictly increasing coordinates (requires)"]


def _clip(x, lo, hi):
    return z3.If(x < lo, lo, z3.If(x > hi, hi, x))


def _grid(dim, fname):
    def run(env):
        g = grid_setup(env, fname, dim)
        one = z3.RealVal(1)
        cell, t = [], []
        for k in range(dim):
            last = z3.ToReal(g.m[k]) - 1
            fx = _clip(g.f[k], z3.RealVal(0), last)
            i = z3.ToInt(fx)
            i = z3.If(i > g.m[k] - 2, g.m[k] - 2, i)
            cell.append(i)
            t.append(fx - z3.ToReal(i))
        spec = z3.RealVal(0)
        corners = []
        for b in itertools.product((0, 1), repeat=dim):
            w = one
            for k in range(dim):
                w = w * (t[k] if b[k] else one - t[k])
            c = g.val(*[cell[k] + b[k] for k in range(dim)])
            corners.append(c)
            spec = spec + w * c
        env.prove("well defined", g.r.wd if not isinstance(g.r.wd, bool) else z3.BoolVal(g.r.wd))
        multilinear(env, g.r.v, spec, cell, t, g, dim)
        for k in range(dim):
            env.prove("lemma: the cell of axis %d lies in the grid" % k, z3.And(cell[k] >= 0, cell[k] + 1 < g.m[k]), kind="lemma")
            env.prove("lemma: offset %d in [0, 1]" % k, z3.And(t[k] >= 0, t[k] <= 1), kind="lemma")
        # with weights in [0, 1] summing to one the result never leaves the range of the corners
        ts = [z3.Real("t%d" % k) for k in range(dim)]
        vs = [z3.Real("v%d" % k) for k in range(2 ** dim)]
        lo, hi = z3.Reals("vlo vhi")
        tot = z3.RealVal(0)
        hy = [z3.And(x >= 0, x <= 1) for x in ts] + [z3.And(v >= lo, v <= hi) for v in vs]
        ws = []
        for n, b in enumerate(itertools.product((0, 1), repeat=dim)):
            w = one
            for k in range(dim):
                w = w * (ts[k] if b[k] else one - ts[k])
            ws.append(w)
            env.prove("lemma: corner weight %d >= 0" % n, w >= 0, hy[:dim], kind="lemma")
        env.prove("lemma: corner weights sum to one", z3.Sum(ws) == 1, kind="lemma")
    return run


def multilinear(env, got, spec, cell, t, g, dim):
    env.prove("value = multilinear combination of the corners of the clamped query's cell", got == spec)


def _lin1d(env):
    from vc import jx
    from vc.smt import num
    from vc.util import repo_fn
    dims = jx.Dims(env, ["N", "M"], ["M >= 2"])
    it = jx.Interp(env, dims, label="map_interpolator_linear_1d")
    N, M = dims["N"], dims["M"]
    cj, _ = jx.trace(repo_fn("appletree.interpolation", "map_interpolator_linear_1d"),
                     [jx.SDS((N,), F32), jx.SDS((M,), F32), jx.SDS((M,), F32)])
    pos, xp, fp = it.sym_array("pos", (N,), F32), it.sym_array("coord", (M,), F32), it.sym_array("values", (M,), F32)
    m = num(dims.term(M))
    env.require(m >= 2)
    env.require_increasing(xp.uf, m)
    env.reachable("requires satisfiable")
    (out,) = it.run(cj, [pos, xp, fp])
    n, k = env.int("n"), env.int("k")
    env.require(z3.And(n >= 0, n < num(dims.term(N))))
    env.prove("one value per query", num(out.shape[0]) == num(dims.term(N)))
    x, r = num(pos(n).v), out(n)
    env.prove("well defined", num(r.wd) if isinstance(r.wd, bool) else r.wd)
    env.prove("below the first point: first value", num(r.v) == fp.uf(0), [x <= xp.uf(0)])
    env.prove("above the last point: last value", num(r.v) == fp.uf(m - 1), [x >= xp.uf(m - 1)])
    a, b = xp.uf(k), xp.uf(k + 1)
    hy = [k >= 0, k + 1 < m, a <= x, x < b]
    env.prove("inside cell k: linear between its ends",
              num(r.v) == fp.uf(k) + (fp.uf(k + 1) - fp.uf(k)) * (x - a) / (b - a), hy)


def units():
    p = "appletree/interpolation.py:"
    b, t = "map_interpolator_regular_binning_bilinear_2d", "map_interpolator_regular_binning_trilinear_3d"
    return [Unit("map_interpolator_linear_1d", [p + "map_interpolator_linear_1d"], _lin1d),
            Unit(b, [p + b], _grid(2, b)), Unit(t, [p + t], _grid(3, t))]


# ------------------------------------------------------------------ the contract on the real code
def cases(rng, tier):
    while True:
        c = grid_case(rng, rng.choice([2, 3]))
        c["kind"] = "grid%d" % c["dim"]
        yield c
        m = rng.choice([2, 3, 8])
        x = np.cumsum([rng.choice([0.01, 1, 2.5, 30]) for _ in range(m)]) - rng.choice([0, 5, 100])
        yield dict(kind="1d", x=x.tolist(), vals=[rng.uniform(-5, 5) for _ in range(m)],
                   pos=[rng.choice([float(rng.choice(list(x))), rng.uniform(x[0] - 1, x[-1] + 1), -1e5, 1e5]) for _ in range(8)])


def run_case(c):
    if c["kind"] == "1d":
        from vc.util import repo_fn
        x, v, p = (np.array(c[k], F32) for k in ("x", "vals", "pos"))
        if np.any(np.diff(x) <= 0):
            return None
        got = np.asarray(repo_fn("appletree.interpolation", "map_interpolator_linear_1d")(p, x, v), np.float64)
        want = np.interp(p.astype(float), x.astype(float), v.astype(float))
        sc = np.abs(v).max() + 1e-6
        tol = 1e-4 * sc * max(1, np.abs(x).max() / np.diff(x).min() * 1e-2)
    else:
        got = call_grid("map_interpolator_regular_binning_bilinear_2d" if c["dim"] == 2 else
                        "map_interpolator_regular_binning_trilinear_3d", c)
        lo, hi, v, p = grid64(c)
        want, sc = [], np.abs(v).max() + 1e-6
        for q in p:
            f = np.clip((q - lo) / (hi - lo) * (np.array(c["m"]) - 1), 0, np.array(c["m"]) - 1)
            i = np.minimum(np.floor(f).astype(int), np.array(c["m"]) - 2)
            t = f - i
            s = 0.
            for b in itertools.product((0, 1), repeat=c["dim"]):
                s += np.prod([t[k] if b[k] else 1 - t[k] for k in range(c["dim"])]) * v[tuple(i[k] + b[k] for k in range(c["dim"]))]
            want.append(s)
        want = np.array(want)
        tol = sc * 2e-5 * max(c["m"]) * (1 + max(max(abs(a), abs(b)) / (b - a) for a, b in zip(c["lo"], c["hi"])) * 1e-2)
    if got.shape != want.shape:
        return "shape %s, expected %s" % (got.shape, want.shape)
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        k = int(np.argmax(bad))
        return "query %s: value %r, multilinear interpolation gives %r" % (c["pos"][k], got[k], want[k])
    return None
