"""C03: inverse-distance interpolation is a finite convex combination of neighbours."""
import itertools

import numpy as np
import z3

from vc.harness import Unit
from checks.interp_common import F32, call_grid, grid64, grid_case, grid_setup

ASSUMPTIONS = [
    "grids have at least two nodes per axis and lower < upper; 1D coordinates are non-decreasing (requires)",
    "distances are below the largest float32 (requires)",
    "k of the k-nearest-neighbour variant is enumerated (1..4), dimension 1..3; sizes are symbolic",
    "finiteness at the nodes is a statement about float32 overflow: the obligations treat numbers as reals, so it is decided by the concrete cross-check (every node of every generated grid)",
]
TINY = z3.RealVal(str(int(1))) / z3.RealVal(str(2 ** 126))
TOP = z3.RealVal(str((2 ** 24 - 1) * 2 ** 104))


def _wsum(vals, ds):
    return z3.Sum([v / d for v, d in zip(vals, ds)]) / z3.Sum([1 / d for d in ds])


def _convex_lemma(env, n):
    """positive distances: the inverse-distance mean lies within the range of the values"""
    vs, ws = [z3.Real("v%d" % k) for k in range(n)], [z3.Real("w%d" % k) for k in range(n)]
    lo, hi = z3.Reals("vlo vhi")
    hy = [w > 0 for w in ws] + [z3.And(lo <= v, v <= hi) for v in vs]
    # sum w v - lo sum w = sum w (v - lo) with non-negative terms
    for k in range(n):
        env.prove("lemma: term %d keeps the weighted mean in range" % k,
                  z3.And(ws[k] * (vs[k] - lo) >= 0, ws[k] * (hi - vs[k]) >= 0), hy, kind="lemma")
    a, b = z3.Real("num"), z3.Real("den")
    env.prove("lemma: numerator identity", z3.Sum([w * v for w, v in zip(ws, vs)]) - lo * z3.Sum(ws)
              == z3.Sum([w * (v - lo) for w, v in zip(ws, vs)]), kind="lemma")
    env.prove("lemma: dividing by the positive total keeps the range",
              z3.Implies(z3.And(b > 0, a - lo * b >= 0, hi * b - a >= 0), z3.And(a / b >= lo, a / b <= hi)), kind="lemma")


def _sqrt(env, x):
    s = z3.Function("math_sqrt", z3.RealSort(), z3.RealSort())(x)
    env.fact(z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)))
    return s


def _grid(dim, fname):
    def run(env):
        g = grid_setup(env, fname, dim)
        step = [(g.hi[k] - g.lo[k]) / (z3.ToReal(g.m[k]) - 1) for k in range(dim)]
        inside = [z3.And(g.f[k] >= 0, g.f[k] <= z3.ToReal(g.m[k]) - 1) for k in range(dim)]
        strict = [g.f[k] < z3.ToReal(g.m[k]) - 1 for k in range(dim)]

        def formula(cell, clampidx):
            vals, ds, near = [], [], []
            for b in itertools.product((0, 1), repeat=dim):
                i = [cell[k] + b[k] for k in range(dim)]
                j = [z3.If(i[k] > g.m[k] - 1, g.m[k] - 1, i[k]) for k in range(dim)] if clampidx else i
                vals.append(g.val(*j))
                d = _sqrt(env, z3.Sum([(g.lo[k] + step[k] * z3.ToReal(i[k]) - g.x[k]) * (g.lo[k] + step[k] * z3.ToReal(i[k]) - g.x[k])
                                       for k in range(dim)]))
                near.append(d <= TOP)
                ds.append(z3.If(d < TINY, TINY, d))
            return _wsum(vals, ds), near
        cell = [z3.ToInt(g.f[k]) for k in range(dim)]
        spec, near = formula(cell, False)
        env.prove("well defined inside the map", z3.BoolVal(True) if g.r.wd is True else g.r.wd, inside + near)
        env.prove("strictly inside: mean of the cell's corners weighted by inverse distance", g.r.v == spec, inside + strict + near)
        # upper faces: any cell touching the query, values of the nodes of that face
        spec2, near2 = formula(cell, True)
        nm = "on an upper face: a convex combination of corner values"
        o = env.attempt(nm, g.r.v == spec2, inside + near2)
        if o.status != "proved":
            cell3 = [z3.If(c > g.m[k] - 2, g.m[k] - 2, c) for k, c in enumerate(cell)]
            spec3, near3 = formula(cell3, False)
            o3 = env.attempt(nm, g.r.v == spec3, inside + near3)
            o = o3 if o3.status == "proved" else o
        if o.status == "refuted":
            # other conventions on the face are possible: not decided here
            o.status, o.reason = "open", "counter-model over abstracted face convention"
        env.record(o)
        _convex_lemma(env, 2 ** dim)
        for k in range(dim):
            env.prove("lemma: the cell of axis %d lies in the grid" % k, z3.And(cell[k] >= 0, cell[k] + 1 < g.m[k]),
                      [inside[k], strict[k]], kind="lemma")
    return run


def _curve(env):
    from vc import jx
    from vc.smt import num
    from vc.util import repo_fn
    dims = jx.Dims(env, ["N", "M"])
    it = jx.Interp(env, dims, label="curve_interpolator")
    N, M = dims["N"], dims["M"]
    cj, _ = jx.trace(repo_fn("appletree.interpolation", "curve_interpolator"),
                     [jx.SDS((N,), F32), jx.SDS((M,), F32), jx.SDS((M,), F32)])
    pos, xp, fp = it.sym_array("pos", (N,), F32), it.sym_array("coord", (M,), F32), it.sym_array("values", (M,), F32)
    m = num(dims.term(M))
    env.require_increasing(xp.uf, m, strict=False)
    env.reachable("requires satisfiable")
    (out,) = it.run(cj, [pos, xp, fp])
    _curve_post(env, out, num(dims.term(N)), m, lambda n: num(pos(n).v), lambda k: xp.uf(k), lambda k: fp.uf(k))


def _curve_post(env, out, N, m, x, xp, fp, strict=False):
    from vc.smt import num
    n, k = env.int("n"), env.int("k")
    env.require(z3.And(n >= 0, n < N))
    env.prove("one value per query", num(out.shape[0]) == N if len(out.shape) == 1 else False)
    q, r = x(n), out(n)
    env.prove("well defined", num(r.wd))
    env.prove("below the first node: its value", num(r.v) == fp(0), [q < xp(0)])
    env.prove("above the last node: its value", num(r.v) == fp(m - 1), [q > xp(m - 1)])
    a, b = xp(k), xp(k + 1)
    inv = (fp(k) / (q - a) + fp(k + 1) / (b - q)) / (1 / (q - a) + 1 / (b - q))
    env.prove("strictly between nodes k and k+1: their mean weighted by inverse distance", num(r.v) == inv,
              [k >= 0, k + 1 < m, a < q, q < b])
    env.prove("at a node whose coordinate is unique: its value", num(r.v) == fp(k),
              [k >= 0, k < m, xp(k) == q, z3.Implies(k > 0, xp(k - 1) < q), z3.Implies(k + 1 < m, q < xp(k + 1))])
    t, va, vb, lo, hi = z3.Reals("t va vb vlo vhi")
    env.prove("lemma: mean of two values with positive weights stays between them",
              z3.And(lo <= va + t * (vb - va), va + t * (vb - va) <= hi),
              [t >= 0, t <= 1, lo <= va, va <= hi, lo <= vb, vb <= hi], kind="lemma")


def _reg1d(edge_shape):
    def run(env):
        from vc import jx
        from vc.smt import num
        from vc.util import repo_fn
        dims = jx.Dims(env, ["N", "M"], ["M >= 2"])
        it = jx.Interp(env, dims, label="map_interpolator_regular_binning_1d")
        N, M = dims["N"], dims["M"]
        cj, _ = jx.trace(repo_fn("appletree.interpolation", "map_interpolator_regular_binning_1d"),
                         [jx.SDS((N,), F32), jx.SDS(edge_shape, F32), jx.SDS(edge_shape, F32), jx.SDS((M,), F32)])
        pos, lo, hi, fp = (it.sym_array("pos", (N,), F32), it.sym_array("lower", edge_shape, F32),
                           it.sym_array("upper", edge_shape, F32), it.sym_array("values", (M,), F32))
        m = num(dims.term(M))
        z = (0,) * len(edge_shape)
        l, h = num(lo(z).v), num(hi(z).v)
        env.require(m >= 2)
        env.require(l < h)
        env.reachable("requires satisfiable")
        (out,) = it.run(cj, [pos, lo, hi, fp])
        _curve_post(env, out, num(dims.term(N)), m, lambda n: num(pos(n).v),
                    lambda k: l + z3.ToReal(k if z3.is_expr(k) else z3.IntVal(k)) * (h - l) / (z3.ToReal(m) - 1), lambda k: fp.uf(k))
    return run


def _knn(k, d):
    def run(env):
        from vc import jx
        from vc.smt import num
        from vc.util import repo_fn
        dims = jx.Dims(env, ["N", "M"], ["M >= %d" % k])
        it = jx.Interp(env, dims, label="map_interpolator_knn")
        N, M = dims["N"], dims["M"]
        f = repo_fn("appletree.interpolation", "map_interpolator_knn")
        cj, _ = jx.trace(lambda p, r, v: f(p, r, v, k), [jx.SDS((N, d), F32), jx.SDS((M, d), F32), jx.SDS((M,), F32)])
        pos, ref, val = it.sym_array("pos", (N, d), F32), it.sym_array("ref", (M, d), F32), it.sym_array("values", (M,), F32)
        m = num(dims.term(M))
        env.require(m >= k)
        env.reachable("requires satisfiable")
        (out,) = it.run(cj, [pos, ref, val])
        n, q = env.int("n"), env.int("q")
        env.require(z3.And(n >= 0, n < num(dims.term(N))))
        env.prove("one value per query", num(out.shape[0]) == num(dims.term(N)) if len(out.shape) == 1 else False)
        r = out(n)
        top = it.topk_positions((n,), k)
        if top is None:
            raise jx.Unsupported("neighbours are not selected with lax.top_k")
        d2 = lambda j: z3.Sum([(pos.uf(n, c) - ref.uf(j, c)) * (pos.uf(n, c) - ref.uf(j, c)) for c in range(d)])  # noqa: E731
        floor = z3.Q(1, 10 ** 6)
        from fractions import Fraction
        floor = num(Fraction(float(F32(1e-6))))
        ds = []
        for p in top:
            s = _sqrt(env, d2(p))
            ds.append(z3.If(s < floor, floor, s))
        env.prove("well defined", num(r.wd))
        env.prove("the %d neighbours are different points of the map" % k,
                  z3.And(*[z3.And(p >= 0, p < m) for p in top], *([z3.Distinct(*top)] if k > 1 else [])))
        env.prove("no other point is nearer", z3.And([d2(p) <= d2(q) for p in top]), [q >= 0, q < m] + [q != p for p in top])
        env.prove("mean of the %d nearest points weighted by inverse distance" % k, num(r.v) == _wsum([val.uf(p) for p in top], ds))
        _convex_lemma(env, k)
    return run


def units():
    p = "appletree/interpolation.py:"
    us = [Unit("curve_interpolator", [p + "curve_interpolator"], _curve),
          Unit("map_interpolator_regular_binning_1d, scalar edges", [p + "map_interpolator_regular_binning_1d", p + "curve_interpolator"], _reg1d(())),
          Unit("map_interpolator_regular_binning_1d, edges of shape (1,)", [p + "map_interpolator_regular_binning_1d", p + "curve_interpolator"], _reg1d((1,)))]
    for k, d in ((1, 2), (2, 1), (3, 2), (4, 3), (3, 3)):
        us.append(Unit("map_interpolator_knn k=%d in %dD" % (k, d), [p + "map_interpolator_knn", p + "_L2_dist2"], _knn(k, d)))
    for d in (2, 3):
        b = "map_interpolator_regular_binning_%dd" % d
        us.append(Unit(b, [p + b], _grid(d, b)))
    return us


# ------------------------------------------------------------------ the contract on the real code
def cases(rng, tier):
    while True:
        c = grid_case(rng, rng.choice([2, 3]))
        if rng.random() < .4:
            c["vals"] = [rng.choice([0., 5., 1e4, -3e5, 1e6]) for _ in c["vals"]]
        c["kind"] = "grid%d" % c["dim"]
        yield c
        c = grid_case(rng, 1)
        c["kind"] = "reg1d"
        c["shape1"] = rng.random() < .5
        yield c
        m = rng.choice([1, 2, 3, 8])
        x = np.cumsum([rng.choice([0.25, 1, 2.5, 30, 0.]) for _ in range(m)]) - rng.choice([0, 5, 100])
        yield dict(kind="1d", x=x.tolist(), vals=[rng.uniform(-5, 5) for _ in range(m)],
                   pos=[rng.choice([float(rng.choice(list(x))), rng.uniform(x[0] - 1, x[-1] + 1), -1e5, 1e5]) for _ in range(8)])
        d, k = rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 4])
        m = rng.choice([4, 5, 9])
        ref = [[rng.uniform(-3, 3) for _ in range(d)] for _ in range(m)]
        yield dict(kind="knn", k=k, ref=ref, vals=[rng.choice([rng.uniform(-5, 5), 1e5]) for _ in range(m)],
                   pos=[rng.choice([ref[rng.randrange(m)], [rng.uniform(-4, 4) for _ in range(d)]]) for _ in range(6)])


def run_case(c):
    from vc.util import repo_fn
    if c["kind"] == "knn":
        ref, v, p = (np.array(c[k], F32) for k in ("ref", "vals", "pos"))
        got = np.asarray(repo_fn("appletree.interpolation", "map_interpolator_knn")(p, ref, v, c["k"]), np.float64)
        d = np.sqrt(((p.astype(float)[:, None] - ref.astype(float)[None]) ** 2).sum(-1))
        if got.shape != (len(p),):
            return "shape %s" % (got.shape,)
        for n in range(len(p)):
            o = np.argsort(d[n])[:c["k"]]
            if c["k"] < len(ref) and np.sort(d[n])[c["k"]] - np.sort(d[n])[c["k"] - 1] < 1e-4:
                continue
            w = 1 / np.clip(d[n][o], 1e-6, None)
            want = (w * v[o]).sum() / w.sum()
            near, spread = d[n][o[0]], np.abs(v[o] - v[o[0]])
            tol = 2e-3 * (np.abs(v[o]).max() + 1)
            # float32 distances are obtained from squares: their absolute error is about this
            err = 3e-3 * (1 + np.abs(p[n]).max())
            if near < 30 * err:
                if near > 0:
                    if not np.isfinite(got[n]) or not v[o].min() - tol <= got[n] <= v[o].max() + tol:
                        return "query %s: value %r outside the range of its neighbours' values" % (c["pos"][n], got[n])
                    continue
                want = v[o[0]]
                tol += (spread[1:] * err / np.maximum(d[n][o[1:]], err)).sum()
            if near > 0:
                tol += 5 * err / near * spread.max()
            if not np.isfinite(got[n]) or abs(got[n] - want) > tol:
                return "query %s: value %r, the %d nearest points give %r" % (c["pos"][n], got[n], c["k"], want)
        return None
    if c["kind"] in ("1d", "reg1d"):
        if c["kind"] == "1d":
            x, v, p = (np.array(c[k], F32) for k in ("x", "vals", "pos"))
            if np.any(np.diff(x) < 0):
                return None
            got = np.asarray(repo_fn("appletree.interpolation", "curve_interpolator")(p, x, v), np.float64)
        else:
            v, p = np.array(c["vals"], F32), np.array(c["pos"], F32)[:, 0]
            lo, hi = np.array(c["lo"], F32), np.array(c["hi"], F32)
            if not c["shape1"]:
                lo, hi = lo[0], hi[0]
            got = np.asarray(repo_fn("appletree.interpolation", "map_interpolator_regular_binning_1d")(p, lo, hi, v), np.float64)
            x = np.linspace(c["lo"][0], c["hi"][0], len(v))
        if got.shape != (len(p),):
            return "shape %s for %d queries" % (got.shape, len(p))
        x, v, p = x.astype(float), v.astype(float), p.astype(float)
        want = np.interp(p, x, v)
        w = np.max(np.diff(x)) if len(x) > 1 else 1.
        for n in range(len(p)):
            near = np.abs(x - p[n]) < 1e-5 * (np.abs(x).max() + 1)
            if not np.isfinite(got[n]):
                return "query %r: value %r" % (p[n], got[n])
            if near.sum() > 1:
                vs = v[np.abs(x - p[n]) <= w + 1e-4]
                if not (vs.min() - 1e-3 <= got[n] <= vs.max() + 1e-3):
                    return "query %r: value %r outside the range of its neighbours" % (p[n], got[n])
                continue
            pos = np.diff(x)[np.diff(x) > 0]
            tol = (np.abs(v).max() + 1e-6) * 1e-4 * (1 + np.abs(x).max() / (pos.min() if len(pos) else 1) * 1e-1)
            if abs(got[n] - want[n]) > tol:
                return "query %r: value %r, inverse-distance mean of the bracketing nodes %r" % (p[n], got[n], want[n])
        return None
    got = call_grid("map_interpolator_regular_binning_%dd" % c["dim"], c)
    lo, hi, v, p = grid64(c)
    m = np.array(c["m"])
    step = (hi - lo) / (m - 1)
    if got.shape != (len(p),):
        return "shape %s for %d queries" % (got.shape, len(p))
    for n, q in enumerate(p):
        f = (q - lo) / step
        if np.any(f < 0) or np.any(f > m - 1):
            continue
        i = np.minimum(np.floor(f).astype(int), m - 2)
        cs = [tuple(i[k] + b[k] for k in range(c["dim"])) for b in itertools.product((0, 1), repeat=c["dim"])]
        vs = np.array([v[x] for x in cs])
        eps = 2e-5 * (1 + np.abs(np.array([lo, hi])).max() / step.min() * 1e-1)
        if not np.isfinite(got[n]):
            return "query %s inside the map: value %r" % (q.tolist(), got[n])
        edge = np.any(np.abs(f - np.round(f)) < eps)
        if edge:
            # float rounding may pick either neighbouring cell
            r = [range(int(max(0, np.floor(f[k] - 1e-3) - (f[k] - np.floor(f[k]) < eps))), int(min(m[k] - 1, np.ceil(f[k] + 1e-3) + 0)) + 1) for k in range(c["dim"])]
            vs2 = np.array([v[x] for x in itertools.product(*r)])
        else:
            vs2 = vs
        tol = 1e-4 * (np.abs(vs2).max() + 1e-6)
        if not (vs2.min() - tol <= got[n] <= vs2.max() + tol):
            return "query %s: value %r outside the range of its corner values [%r, %r]" % (q.tolist(), got[n], vs2.min(), vs2.max())
        if np.all(np.abs(f - np.round(f)) < 1e-12):
            node = v[tuple(np.round(f).astype(int))]
            pf = np.array(c["pos"][n], F32)
            if np.all(pf == lo.astype(F32) + step.astype(F32) * np.round(f).astype(F32)) and np.all(np.round(f) < m - 1) \
                    and np.array_equal(np.floor((pf - lo.astype(F32)) / step.astype(F32)), np.round(f)) and abs(got[n] - node) > tol:
                return "query at node %s: value %r, node value %r" % (q.tolist(), got[n], node)
        if not edge:
            d = np.array([np.linalg.norm((np.array(x) * step + lo) - q) for x in cs])
            want = (vs / d).sum() / (1 / d).sum()
            if abs(got[n] - want) > 1e-2 * (np.abs(vs).max() + 1e-6) * (1 + eps / 1e-4):
                return "query %s: value %r, inverse-distance mean of the corners %r" % (q.tolist(), got[n], want)
    return None
