"""C01: irregular-binning histograms."""
import numpy as np
import z3

from vc.harness import Unit
from vc.util import repo_fn, jitted

ASSUMPTIONS = ["edges are strictly increasing (requires)",
               "the number of events and of bins is at least one"]


def _run_1d(env, n="N", m="M"):
    from vc import jx
    from vc.smt import num
    f = repo_fn("appletree.hist", "make_hist_irreg_bin_1d")
    names = [d for d in (n, m) if isinstance(d, str)]
    dims = jx.Dims(env, names, ["M >= 2"] if m == "M" else [])
    N, M = (dims[d] if isinstance(d, str) else d for d in (n, m))
    it = jx.Interp(env, dims, label="make_hist_irreg_bin_1d")
    cj, _ = jx.trace(f, [jx.SDS((N,), np.float32), jx.SDS((M,), np.float32), jx.SDS((N,), np.float32)])
    s, e, w = (it.sym_array("sample", (N,), np.float32), it.sym_array("edges", (M,), np.float32),
               it.sym_array("weights", (N,), np.float32))
    zm = num(dims.term(M))
    env.require(zm >= 2)
    env.require_increasing(e.uf, zm)
    env.reachable("requires satisfiable")
    (h,) = it.run(cj, [s, e, w])
    env.prove("shape: one value per bin", num(h.shape[0]) == zm - 1 if len(h.shape) == 1 else False)
    b = env.int("b")
    rng = z3.And(b >= 0, b < zm - 1)
    got = h(b)
    spec = env.sum(dims.term(N), lambda i: z3.If(z3.And(e.uf(num(b)) < s.uf(num(i)), s.uf(num(i)) <= e.uf(b + 1)),
                                                 w.uf(num(i)), z3.RealVal(0)))
    env.prove("well defined", num(got.wd), [rng])
    env.prove("content of bin b = sum of the weights with edge_b < x <= edge_b+1", num(got.v) == spec, [rng])


def _run_2d(env):
    from vc import jx
    from vc.smt import num
    f = repo_fn("appletree.hist", "make_hist_irreg_bin_2d")
    dims = jx.Dims(env, ["N", "M", "K"], ["M >= 2", "K >= 2"])
    N, M, K = dims["N"], dims["M"], dims["K"]
    it = jx.Interp(env, dims, label="make_hist_irreg_bin_2d")
    f32 = np.float32
    cj, _ = jx.trace(f, [jx.SDS((N, 2), f32), jx.SDS((M,), f32), jx.SDS((M - 1, K), f32), jx.SDS((N,), f32)])
    s, ex, ey, w = (it.sym_array("sample", (N, 2), f32), it.sym_array("xedges", (M,), f32),
                    it.sym_array("yedges", (M - 1, K), f32), it.sym_array("weights", (N,), f32))
    zm, zk = num(dims.term(M)), num(dims.term(K))
    env.require(zm >= 2)
    env.require(zk >= 2)
    env.require_increasing(ex.uf, zm)
    env.require_increasing(ey.uf, zk, rows=(zm - 1,))
    env.reachable("requires satisfiable")
    (h,) = it.run(cj, [s, ex, ey, w])
    env.prove("shape: one value per bin", z3.And(num(h.shape[0]) == zm - 1, num(h.shape[1]) == zk - 1)
              if len(h.shape) == 2 else False)
    a, b = env.int("a"), env.int("b")
    rng = z3.And(a >= 0, a < zm - 1, b >= 0, b < zk - 1)
    got = h(a, b)

    def body(i):
        i = num(i)
        x, y = s.uf(i, 0), s.uf(i, 1)
        return z3.If(z3.And(ex.uf(a) < x, x <= ex.uf(a + 1), ey.uf(a, b) < y, y <= ey.uf(a, b + 1)), w.uf(i), z3.RealVal(0))
    env.prove("well defined", num(got.wd), [rng])
    env.prove("content of bin (a, b) = sum of the weights inside it", num(got.v) == env.sum(dims.term(N), body), [rng])


def units():
    h = "appletree/hist.py:"
    return [Unit("make_hist_irreg_bin_1d", [h + "make_hist_irreg_bin_1d"], _run_1d),
            Unit("make_hist_irreg_bin_2d", [h + "make_hist_irreg_bin_2d"], _run_2d)]


# ------------------------------------------------------------------ the contract on the real code
def cases(rng, tier):
    sizes = [(1, 2), (1, 3), (7, 4), (40, 2), (40, 6), (200, 9)]
    while True:
        for n, m in sizes:
            step = rng.choice([1, 0.25, 1e-3, 1e3, 1e-3])
            off = rng.choice([0, -3, 1000, -1e5])
            e = np.cumsum([rng.randint(1, 5) for _ in range(m)]) * step + off

            def pick(edges):
                c = rng.random()
                if c < 0.4:
                    return float(rng.choice(list(edges)))
                if c < 0.8:
                    return float(rng.uniform(edges[0], edges[-1]))
                return float(rng.choice([edges[0] - step, edges[-1] + step, -1e30, 1e30, edges[0] - 1e9, edges[-1] + 1e9]))
            if rng.random() < 0.5:
                yield dict(kind="1d", edges=e.tolist(), sample=[pick(e) for _ in range(n)],
                           weights=[rng.randint(-4, 9) for _ in range(n)])
            else:
                k = rng.choice([2, 3, 6])
                ey = (np.cumsum([[rng.randint(1, 5) for _ in range(k)] for _ in range(m - 1)], axis=1) * 0.5
                      + np.array([[rng.randint(-9, 9)] for _ in range(m - 1)]))
                sm = []
                for _ in range(n):
                    x = pick(e)
                    row = ey[rng.randrange(m - 1)]
                    c = rng.random()
                    y = float(rng.choice(list(row))) if c < 0.5 else float(rng.uniform(row[0] - 1, row[-1] + 1)) if c < 0.9 else rng.choice([-1e20, 1e20])
                    sm.append([x, y])
                yield dict(kind="2d", edges=e.tolist(), edges_y=ey.tolist(), sample=sm,
                           weights=[rng.randint(-4, 9) for _ in range(n)])


def run_case(c):
    f32 = np.float32
    ex, w = np.array(c["edges"], f32), np.array(c["weights"], f32)
    s = np.array(c["sample"], f32)
    if np.any(np.diff(ex) <= 0):
        return None
    if c["kind"] == "1d":
        h = np.asarray(repo_fn("appletree.hist", "make_hist_irreg_bin_1d")(s, ex, w))
        want = np.array([w[(s > ex[b]) & (s <= ex[b + 1])].sum() for b in range(len(ex) - 1)], f32)
    else:
        ey = np.array(c["edges_y"], f32)
        h = np.asarray(repo_fn("appletree.hist", "make_hist_irreg_bin_2d")(s, ex, ey, w))
        want = np.zeros((len(ex) - 1, ey.shape[1] - 1), f32)
        for a in range(len(ex) - 1):
            for b in range(ey.shape[1] - 1):
                m = (s[:, 0] > ex[a]) & (s[:, 0] <= ex[a + 1]) & (s[:, 1] > ey[a, b]) & (s[:, 1] <= ey[a, b + 1])
                want[a, b] = w[m].sum()
    if h.shape != want.shape:
        return "shape %s, expected %s" % (h.shape, want.shape)
    if not np.array_equal(h, want):
        bad = np.argwhere(h != want)[0].tolist()
        return "bin %s holds %s, the weights inside it sum to %s" % (bad, h[tuple(bad)], want[tuple(bad)])
    return None
