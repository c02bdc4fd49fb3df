"""C04: nearest-neighbour interpolation returns the value of a nearest node."""
import itertools

import numpy as np
import z3

from vc.harness import Unit
from checks.interp_common import F32, call_grid, grid64, grid_case, grid_setup

ASSUMPTIONS = ["grids have at least two nodes per axis and lower < upper (requires)",
               "a query exactly half-way between two nodes may take either value"]


def _abs(x):
    return z3.If(x < 0, -x, x)


def _grid(dim, fname):
    def run(env):
        g = grid_setup(env, fname, dim)
        step = [(g.hi[k] - g.lo[k]) / (z3.ToReal(g.m[k]) - 1) for k in range(dim)]
        cell, off = [], []
        F = []
        for k in range(dim):
            # grid coordinate of the query, as a number (the ring identity below ties it to the code's terms)
            f = env.real("f%d" % k)
            env.fact(f == g.f[k])
            F.append(f)
            last = z3.ToReal(g.m[k]) - 1
            fx = z3.If(f < 0, z3.RealVal(0), z3.If(f > last, last, f))
            i = z3.ToInt(fx)
            i = z3.If(i > g.m[k] - 2, g.m[k] - 2, i)
            cell.append(i)
            off.append(fx - z3.ToReal(i))
        # contract of argmin at the two nodes around the query, restated in grid coordinates
        s, a, b = z3.Reals("step a b")
        env.prove("lemma: scaling by a positive step keeps the order of distances", z3.Implies(z3.And(s > 0, s * a <= s * b), a <= b), kind="lemma")
        for r, m, at, ismin in list(g.it.argext):
            ks = [k for k in range(dim) if z3.eq(z3.simplify(z3.IntVal(m) if isinstance(m, int) else m), z3.simplify(g.m[k]))]
            if len(ks) != 1 or not ismin:
                continue
            k = ks[0]
            ok = True
            js = [r, cell[k], cell[k] + 1]
            for n, j in enumerate(js):
                jj = z3.Int(env.name("j"))
                o = env.attempt("lemma: |x - node j| = step * |f - j| on axis %d" % k, at(jj).v == step[k] * _abs(g.f[k] - z3.ToReal(jj)))
                if n == 0:
                    env.record(o)
                ok = ok and o.status == "proved"
                break
            if ok:
                for j in js[1:]:
                    env.fact(z3.Implies(z3.And(j >= 0, j < g.m[k]), _abs(F[k] - z3.ToReal(r)) <= _abs(F[k] - z3.ToReal(j))))
        env.prove("well defined", z3.BoolVal(True) if g.r.wd is True else g.r.wd)
        opts = []
        for b in itertools.product((0, 1), repeat=dim):
            allowed = [(off[k] >= z3.Q(1, 2)) if b[k] else (off[k] <= z3.Q(1, 2)) for k in range(dim)]
            opts.append(z3.And(g.r.v == g.val(*[cell[k] + b[k] for k in range(dim)]), *allowed))
        env.prove("the value is that of a node nearest along each axis", z3.Or(*opts))
        for k in range(dim):
            env.prove("lemma: the two nodes of axis %d are in the grid" % k, z3.And(cell[k] >= 0, cell[k] + 1 < g.m[k]), kind="lemma")
            j = env.int("other")
            t = off[k]
            env.prove("lemma: no node of axis %d is nearer than the nearer of the two" % k,
                      z3.If(t <= z3.Q(1, 2), _abs(F[k] - z3.ToReal(cell[k])) <= _abs(F[k] - z3.ToReal(j)), True),
                      [j >= 0, j < g.m[k]], kind="lemma")
            env.prove("lemma: no node of axis %d is nearer than the nearer of the two (upper)" % k,
                      z3.If(t >= z3.Q(1, 2), _abs(F[k] - z3.ToReal(cell[k] + 1)) <= _abs(F[k] - z3.ToReal(j)), True),
                      [j >= 0, j < g.m[k]], kind="lemma")
    return run


def _nn1d(env):
    from vc import jx
    from vc.smt import num
    from vc.util import repo_fn
    dims = jx.Dims(env, ["N", "M"], ["M >= 1"])
    it = jx.Interp(env, dims, label="map_interpolator_nearest_neighbor_1d")
    N, M = dims["N"], dims["M"]
    cj, _ = jx.trace(repo_fn("appletree.interpolation", "map_interpolator_nearest_neighbor_1d"),
                     [jx.SDS((N,), F32), jx.SDS((M,), F32), jx.SDS((M,), F32)])
    pos, xp, fp = it.sym_array("pos", (N,), F32), it.sym_array("coord", (M,), F32), it.sym_array("values", (M,), F32)
    m = num(dims.term(M))
    env.require(m >= 1)
    env.reachable("requires satisfiable")
    (out,) = it.run(cj, [pos, xp, fp])
    n, k = env.int("n"), env.int("k")
    env.require(z3.And(n >= 0, n < num(dims.term(N))))
    env.prove("one value per query", num(out.shape[0]) == num(dims.term(N)) if len(out.shape) == 1 else False)
    x, r = num(pos(n).v), out(n)
    it.instantiate_argext([k])
    env.prove("well defined", num(r.wd))
    d = lambda j: _abs(x - xp.uf(j))  # noqa: E731
    j = z3.Int(env.name("j"))
    hy = [k >= 0, k < m, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m, j != k), d(k) < d(j)), patterns=[xp.uf(j)])]
    for w, _, _, _ in it.argext:
        hy.append(z3.Implies(z3.And(w >= 0, w < m, w != k), d(k) < d(w)))
    env.prove("the value of the nearest point", num(r.v) == fp.uf(k), hy)
    if len(it.argext) == 1:
        w = it.argext[0][0]
        env.prove("with ties: the value of a point no other point is nearer than",
                  z3.And(num(r.v) == fp.uf(w), w >= 0, w < m, z3.Implies(z3.And(k >= 0, k < m), d(w) <= d(k))))


def units():
    p = "appletree/interpolation.py:"
    us = [Unit("map_interpolator_nearest_neighbor_1d", [p + "map_interpolator_nearest_neighbor_1d", p + "find_nearest_indices"], _nn1d)]
    for d in (2, 3):
        b = "map_interpolator_regular_binning_nearest_neighbor_%dd" % d
        us.append(Unit(b, [p + b, p + "find_nearest_indices"], _grid(d, b)))
    return us


# ------------------------------------------------------------------ the contract on the real code
def cases(rng, tier):
    while True:
        c = grid_case(rng, rng.choice([2, 3]))
        c["kind"] = "grid%d" % c["dim"]
        yield c
        m = rng.choice([1, 2, 3, 8])
        x = np.cumsum([rng.choice([0.01, 1, 2.5, 30]) for _ in range(m)]) - rng.choice([0, 5, 100])
        if rng.random() < .5:
            rng.shuffle(x)
        yield dict(kind="1d", x=x.tolist(), vals=[rng.uniform(-5, 5) for _ in range(m)],
                   pos=[rng.choice([float(rng.choice(list(x))), rng.uniform(x.min() - 1, x.max() + 1), -1e5, 1e5]) for _ in range(8)])


def run_case(c):
    if c["kind"] == "1d":
        from vc.util import repo_fn
        x, v, p = (np.array(c[k], F32) for k in ("x", "vals", "pos"))
        got = np.asarray(repo_fn("appletree.interpolation", "map_interpolator_nearest_neighbor_1d")(p, x, v), np.float64)
        axes, p = [x.astype(float)], p.astype(float)[:, None]
    else:
        got = call_grid("map_interpolator_regular_binning_nearest_neighbor_%dd" % c["dim"], c)
        lo, hi, v, p = grid64(c)
        axes = [np.linspace(lo[k], hi[k], c["m"][k]) for k in range(c["dim"])]
    if got.shape != (len(p),):
        return "shape %s for %d queries" % (got.shape, len(p))
    v = np.asarray(v, np.float64)
    for n, q in enumerate(p):
        near = []
        for k, a in enumerate(axes):
            d = np.abs(a - q[k])
            near.append(np.nonzero(d <= d.min() + 3e-6 * (np.abs(a).max() + abs(q[k])))[0])
        ok = {float(v[i]) for i in itertools.product(*near)}
        if float(got[n]) not in ok:
            return "query %s: value %r, nearest node(s) hold %s" % (np.array(q).tolist(), got[n], sorted(ok)[:4])
    return None
