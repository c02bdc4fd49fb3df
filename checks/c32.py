"""C32: every sampler is a transformation of base draws that carries their distribution into the declared one."""
import itertools
import math

import numpy as np
import z3

from vc.harness import Unit
from checks.rand_common import F32, I32, VARIANTS, run_sampler, setup

ASSUMPTIONS = [
    "the draws of jax.random (numpy.random for TwoHalfNorm.rvs) have the distribution they are named after, with the parameters they are given, and draws with different keys are independent (assumed contracts)",
    "textbook identities between distributions: location and scale, Gamma-Poisson mixture, total progeny of a Poisson branching process, (a|Z0|+Z1)/sqrt(1+a^2), mixture of two half normals, a binomial counts uniform draws below p",
    "generalized_poisson: partial correctness of its loop; binomial_hybrid: exact branch (number of trials up to the threshold) only, the normal approximation above it is not covered",
    "parameters are in the domain of the distribution (requires)", "floating point arithmetic as real arithmetic",
]


def _b(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def _real(x):
    return x if z3.is_real(x) else z3.ToReal(x)


class Draws:
    """the base draws a sampler made, at the index of one of its values"""

    def __init__(self, env, it, start, idx, shape):
        from vc import jx
        self.all = []
        for d in env.__dict__.get("draw_info", [])[start:]:
            if not (len(d["shape"]) == len(shape) and all(z3.eq(z3.simplify(jx.num(a)), z3.simplify(jx.num(b))) for a, b in zip(d["shape"], shape))):
                raise jx.Unsupported("draw of shape %s" % (d["shape"],))
            ix = [jx.num(i) for i in idx] or [z3.IntVal(0)]
            ps = [_real(jx.num(p.v)) if not isinstance(p.v, jx.Inf) else None for p in d["params"](idx)]
            self.all.append((d["dist"], d["fn"](*ix), ps, d["key"]))

    def take(self, *kinds):
        from vc import jx
        if sorted(d[0] for d in self.all) != sorted(kinds):
            raise jx.Unsupported("draws %s instead of %s" % ([d[0] for d in self.all], list(kinds)))
        out, rest = [], list(self.all)
        for k in kinds:
            d = next(x for x in rest if x[0] == k)
            rest.remove(d)
            out.append(d)
        return out

    def independent(self, env):
        keys = [str(d[3]) for d in self.all]
        env.check("base draws are made with different keys", len(set(keys)) == len(keys), "%r" % (keys,))


def some(env, name, goals, hyps):
    """one of the alternative goals is proved (for all inputs); the first is the one reported"""
    for g in goals[1:]:
        if env.prove(name, goals[0], hyps, record=False).status == "proved":
            break
        if env.prove(name, g, hyps, record=False).status == "proved":
            env.prove(name, g, hyps)
            return
    env.prove(name, goals[0], hyps)


S = {}


def spec(name, kinds, extra=()):
    def deco(f):
        S[name] = (kinds, extra, f)
        return f
    return deco


@spec("uniform", [("vmin", "f"), ("vmax", "f")])
def _uniform(env, r, d, h):
    lo, hi = r.p
    (u,) = d.take("uniform")
    some(env, "lower limit plus the width times a unit draw", [r.el.v == lo + (hi - lo) * u[1], r.el.v == hi - (hi - lo) * u[1]], h + [lo <= hi])


@spec("normal", [("mean", "f"), ("std", "f")])
def _normal(env, r, d, h):
    m, s = r.p
    (z,) = d.take("normal")
    some(env, "mean plus std times a standard normal draw", [r.el.v == m + s * z[1], r.el.v == m - s * z[1]], h)


@spec("truncate_normal", [("mean", "f"), ("std", "f"), ("vmin", "f"), ("vmax", "f")])
def _trunc(env, r, d, h):
    m, s, lo, hi = r.p
    (z,) = d.take("normal")
    c = lambda v: z3.If(v < lo, lo, z3.If(v > hi, hi, v))     # noqa: E731
    some(env, "mean plus std times a standard normal draw, moved to the limit outside of the limits", [r.el.v == c(m + s * z[1]), r.el.v == c(m - s * z[1])], h + [lo <= hi])


@spec("skewnormal", [("a", "f"), ("loc", "f"), ("scale", "f")])
def _skew(env, r, d, h):
    a, loc, sc = r.p
    x, y = d.take("normal", "normal")
    t = z3.Real("root")
    ab = lambda v: z3.If(v < 0, -v, v)      # noqa: E731
    g = []
    for (p, q), s in itertools.product(((x[1], y[1]), (y[1], x[1])), (1, -1)):
        g.append((r.el.v - loc) * t == sc * (a * ab(p) + s * q))
    some(env, "loc + scale * (a |z0| + z1) / sqrt(1 + a^2)", g, h + [t > 0, t * t == 1 + a * a])


@spec("bernoulli", [("p", "f")])
def _bern(env, r, d, h):
    (p,) = r.p
    (b,) = d.take("bernoulli")
    env.prove("the value is the draw", _real(r.el.v) == z3.If(b[1], z3.RealVal(1), z3.RealVal(0)), h)
    env.prove("drawn with the given probability", b[2][0] == p, h + [p >= 0, p <= 1])


@spec("binomial", [("p", "f"), ("n", "i")])
def _binom(env, r, d, h):
    p, n = r.p
    (b,) = d.take("binomial")
    h = h + [p >= 0, p <= 1, n >= 0]
    env.prove("the value is the draw", _real(r.el.v) == _real(b[1]), h)
    env.prove("drawn with the given number of trials", b[2][0] == _real(n), h)
    env.prove("drawn with the given probability", b[2][1] == p, h)


@spec("poisson", [("lam", "f")])
def _pois(env, r, d, h):
    (lam,) = r.p
    (b,) = d.take("poisson")
    env.prove("the value is the draw", _real(r.el.v) == _real(b[1]), h + [lam >= 0])
    env.prove("drawn with the given expectation", b[2][0] == lam, h + [lam >= 0])


@spec("gamma", [("alpha", "f"), ("beta", "f")])
def _gamma(env, r, d, h):
    a, b = r.p
    (g,) = d.take("gamma")
    h = h + [a > 0, b > 0]
    env.prove("a standard draw divided by the rate", r.el.v * b == g[1], h)
    env.prove("drawn with the given shape", g[2][0] == a, h)


@spec("negative_binomial", [("p", "f"), ("n", "f")])
def _nb(env, r, d, h):
    p, n = r.p
    g, b = d.take("gamma", "poisson")
    h = h + [p > 0, p < 1, n > 0]
    env.prove("the value is the Poisson draw", _real(r.el.v) == _real(b[1]), h)
    env.prove("Gamma draw of the number of successes", g[2][0] == n, h)
    env.prove("Poisson expectation is the Gamma variate of rate p/(1-p)", b[2][0] * p == g[1] * (1 - p), h)


@spec("twohalfnorm", [("mu", "f"), ("sigma_pos", "f"), ("sigma_neg", "f")])
def _thn(env, r, d, h):
    _two_halves(env, r.el.v, r.p, d, h)


def _two_halves(env, v, p, d, h):
    mu, sp, sn = p
    z, u = d.take("normal", "uniform")
    h = h + [sp > 0, sn > 0]
    ab = z3.If(z[1] < 0, -z[1], z[1])
    up = u[1] * (sp + sn) < sp
    low = (1 - u[1]) * (sp + sn) < sp
    lowe = (1 - u[1]) * (sp + sn) <= sp
    upe = u[1] * (sp + sn) <= sp
    some(env, "the upper side with probability sigma_pos/(sigma_pos+sigma_neg), |z| of its widths away from mu",
         [v == mu + z3.If(c, sp * ab, -sn * ab) for c in (up, low, lowe, upe)], h)


def _unit(name, variant):
    kinds, extra, f = S[name]

    def run(env):
        dims, it = setup(env, name)
        env.reachable("requires satisfiable")
        r = run_sampler(env, it, dims, name, kinds, variant, extra=extra)
        if not r.shape_ok:
            from vc.jx import Unsupported
            raise Unsupported("shape of the result")      # a violation of C08
        d = Draws(env, it, 0, r.idx, r.want_shape)
        d.independent(env)
        f(env, r, d, r.rng)
    return run


def _gp(variant):
    def run(env):
        from vc import jx
        from vc.jx import num
        from checks.c08 import _assume_params
        kinds = [("lam", "f"), ("eta", "f")]
        dims, it = setup(env, "generalized_poisson")
        it.loop_inv = lambda k, v: v >= 0
        _assume_params(env, it, "generalized_poisson")
        env.reachable("requires satisfiable")
        r = run_sampler(env, it, dims, "generalized_poisson", kinds, variant)
        if not r.shape_ok or len(env.__dict__.get("loops", [])) != 1:
            raise jx.Unsupported("not one loop")
        L = env.loops[0]
        d = Draws(env, it, 0, r.idx, r.want_shape)
        d.independent(env)
        one, two = d.take("poisson", "poisson")
        slots = [k for k, key in enumerate(L["keys"]) if not key]
        if any(len(L["init"][k].shape) != len(r.idx) for k in slots) or len(slots) != 2:
            raise jx.Unsupported("state of the loop")
        lam, eta = r.p
        at = lambda arrs, k: _real(num(arrs[k](r.idx).v))       # noqa: E731
        h = r.rng

        def goals(o, t):
            """o: slot of the last generation, t: slot of the total"""
            gen, tot = at(L["head"], o), at(L["head"], t)
            return [("first generation has expectation lam (1 - eta)", one[2][0] == lam * (1 - eta)),
                    ("the first generation is drawn", at(L["init"], o) == _real(one[1])),
                    ("the total starts with the first generation", at(L["init"], t) == _real(one[1])),
                    ("the next generation has expectation eta times the last one", two[2][0] == eta * gen),
                    ("the next generation is drawn", at(L["new"], o) == _real(two[1])),
                    ("the total grows by the next generation", at(L["new"], t) == tot + _real(two[1])),
                    ("ends only when the last generation is empty", z3.Implies(z3.Not(_b(L["cond"]()(()).v)), gen <= 0)),
                    ("the value is the total", _real(r.el.v) == at(L["end"], t))]
        pick = slots
        if env.prove("x", goals(*slots)[-1][1], h, record=False).status != "proved":
            pick = slots[::-1]
        for nm, g in goals(*pick):
            env.prove(nm, g, h)
    return run


def _hybrid(variant):
    def run(env):
        from vc import jx
        from vc.jx import num
        from vc.util import repo_fn
        dims = jx.Dims(env, ["N", "K", "T"])
        it = jx.Interp(env, dims, label="binomial_hybrid")
        f = repo_fn("appletree.randgen", "binomial_hybrid")
        N, T = dims["N"], dims["T"]
        psh, ssh, osh = VARIANTS[variant]
        sh = psh(0, N, None)
        cj, _ = jx.trace(lambda k, p, n: f(k, p, n, ssh(N, None), T), [jx.SDS((2,), np.uint32), jx.SDS(sh, F32), jx.SDS(sh, I32)])
        p, n = it.sym_array("p", sh, F32), it.sym_array("n", sh, I32)
        env.reachable("requires satisfiable")
        key, out = it.run(cj, [it.key_array("key"), p, n])
        if len(out.shape) != 1:
            raise jx.Unsupported("shape of the result")
        i = env.int("n")
        e = out((i,))
        ix = (i,) if sh else ()
        pv, nv = num(p(ix).v), num(n(ix).v)
        us = [d for d in env.draw_info if d["dist"] == "uniform"]
        t = num(dims.term(T))
        if len(us) != 1 or len(us[0]["shape"]) != 2 or not z3.eq(z3.simplify(num(us[0]["shape"][1])), z3.simplify(t)):
            raise jx.Unsupported("uniform draws")
        h = [i >= 0, i < num(dims.term(N)), pv >= 0, pv <= 1, nv >= 0, nv <= t]
        u = lambda k: us[0]["fn"](i, num(k))       # noqa: E731
        k = env.int("k")
        # sums occurring in the value: the one over the uniform draws
        from vc.smt import consts_of
        sums = [env.sums[c] for c in consts_of([e.v]) if c in env.sums]
        sums = [A for A in sums if z3.eq(z3.simplify(num(A.n)), z3.simplify(t))]
        if len(sums) != 1:
            raise jx.Unsupported("sums %d" % len(sums))
        A = sums[0]
        v, tot = _real(e.v), _real(A.const)
        env.prove("up to the threshold the value is the sum over the trials", v == tot, h + [pv > 0, pv < 1, nv >= 1])
        some(env, "no success without trials", [v == 0, v == tot], h + [nv == 0])
        some(env, "no success with probability zero", [v == 0, v == tot], h + [pv == 0])
        some(env, "all trials succeed with probability one", [v == z3.ToReal(nv), v == tot], h + [pv == 1, nv >= 1])
        body = _real(num(A.body(k)))
        one = lambda c: body == z3.If(c, z3.RealVal(1), z3.RealVal(0))     # noqa: E731
        hk = h + [k >= 0, k < t]
        some(env, "a trial counts when its draw is below p and it is one of the first n",
             [one(z3.And(k < nv, u(k) < pv)), one(z3.And(k < nv, u(k) <= pv)), one(z3.And(k < nv, 1 - u(k) < pv)), one(z3.And(k < nv, 1 - u(k) <= pv))], hk)
    return run


def _vec(env):
    from vc import jx
    from vc.jx import num
    from vc.util import repo_fn
    dims = jx.Dims(env, ["N"])
    it = jx.Interp(env, dims, label="uniform_key_vectorized")
    N = dims["N"]
    cj, _ = jx.trace(repo_fn("appletree.randgen", "uniform_key_vectorized"), [jx.SDS((N, 2), np.uint32)])
    keys = it.sym_array("keys", (N, 2), np.uint32)
    env.reachable("requires satisfiable")
    (out,) = it.run(cj, [keys])
    i = env.int("n")
    h = [i >= 0, i < num(dims.term(N))]
    ds = env.__dict__.get("draw_info", [])
    if len(ds) != 1 or ds[0]["dist"] != "uniform" or len(ds[0]["shape"]) != 1 or len(out.shape) != 1:
        raise jx.Unsupported("draws")
    v, u = out((i,)).v, ds[0]["fn"](i)
    some(env, "one unit uniform draw per key", [v == u, v == 1 - u], h)


def _rvs(variant):
    def run(env):
        from vc import jx
        from vc.hostnp import extract
        from vc.smt import num
        from vc.util import repo_fn
        dims = jx.Dims(env, ["N"])
        it = jx.Interp(env, dims, label="TwoHalfNorm.rvs")
        f = extract(repo_fn("appletree.randgen", "TwoHalfNorm.rvs"))
        size = None if variant == "no size" else (dims["N"],)
        cj, _ = jx.trace(lambda mu, sp, sn: f(mu, sp, sn, size), [jx.SDS((), F32)] * 3)
        a = [it.sym_array(x, (), F32) for x in ("mu", "sigma_pos", "sigma_neg")]
        env.reachable("requires satisfiable")
        (out,) = it.run(cj, a)
        want = () if size is None else (num(dims.term(dims["N"])),)
        if len(out.shape) != len(want):
            raise jx.Unsupported("shape of the result")
        i = env.int("n")
        idx = (i,) if want else ()
        d = Draws(env, it, 0, idx, want)
        d.independent(env)
        _two_halves(env, out(idx).v, [x(()).v for x in a], d, [i >= 0, i < want[0]] if want else [])
    return run


def units():
    p = "appletree/randgen.py:"
    us = []
    for v in VARIANTS:
        for name in S:
            us.append(Unit("%s (%s)" % (name, v), [p + name], _unit(name, v)))
        us.append(Unit("generalized_poisson (%s)" % v, [p + "generalized_poisson"], _gp(v)))
    for v in ("scalars, shape (N,)", "arrays (N,), no shape"):
        us.append(Unit("binomial_hybrid (%s)" % v, [p + "binomial_hybrid"], _hybrid(v)))
    us.append(Unit("uniform_key_vectorized", [p + "uniform_key_vectorized"], _vec))
    for v in ("size (N,)", "no size"):
        us.append(Unit("TwoHalfNorm.rvs (%s)" % v, [p + "TwoHalfNorm.rvs"], _rvs(v)))
    return us


# ------------------------------------------------------------------ the contract on the real code
M = 60000


def _cdf(nm, a):
    """the declared distribution function"""
    from scipy import stats
    if nm == "uniform":
        return stats.uniform(a[0], a[1] - a[0])
    if nm in ("normal", "truncate_normal"):
        return stats.norm(a[0], a[1])
    if nm == "skewnormal":
        return stats.skewnorm(a[0], a[1], a[2])
    if nm == "gamma":
        return stats.gamma(a[0], scale=1 / a[1])
    if nm == "bernoulli":
        return stats.bernoulli(a[0])
    if nm in ("binomial", "binomial_hybrid"):
        return stats.binom(a[1], a[0])
    if nm == "poisson":
        return stats.poisson(a[0])
    if nm == "negative_binomial":
        return stats.nbinom(a[1], a[0])


def declared(nm, a, x):
    """P(X <= x) for the values x"""
    if nm in ("twohalfnorm", "rvs"):
        from scipy.stats import norm
        mu, sp, sn = a
        lo = 2 * sn / (sp + sn) * norm.cdf(np.minimum(x - mu, 0) / sn)
        return lo + sp / (sp + sn) * (2 * norm.cdf(np.maximum(x - mu, 0) / sp) - 1)
    if nm == "generalized_poisson":
        lam, eta = a
        th = lam * (1 - eta)
        k = np.arange(int(max(x.max(), 0)) + 1)
        lg = np.array([math.lgamma(j + 1) for j in k])
        pm = np.exp(np.log(th) + (k - 1) * np.log(th + k * eta) - th - k * eta - lg)
        return np.cumsum(pm)[np.maximum(x, 0).astype(int)]
    return _cdf(nm, a).cdf(x)


DOM = {
    "uniform": lambda g: (lambda a: [a, a + g.choice([.5, 1., 30.])])(g.uniform(-5, 5)),
    "normal": lambda g: [g.uniform(-3, 3), g.choice([.1, 1., 30.])],
    "truncate_normal": lambda g: (lambda m, s: [m, s, m - s * g.uniform(0.1, 2), m + s * g.uniform(0.1, 2)])(g.uniform(-3, 3), g.choice([.1, 1., 30.])),
    "skewnormal": lambda g: [g.choice([-4., -1., 0., .5, 3.]), g.uniform(-3, 3), g.choice([.1, 1., 30.])],
    "bernoulli": lambda g: [g.uniform(0, 1)],
    "binomial": lambda g: [g.choice([g.uniform(0, 1), .01, .997, .5]), g.choice([1, 2, 7, 40, 129, 1000])],
    "binomial_hybrid": lambda g: [g.choice([g.uniform(0, 1), .01, .997, .5]), g.choice([1, 2, 7, 40, 127, 128])],
    "poisson": lambda g: [g.choice([.1, 1., 3., 9.9, 10.5, 50., 1e3])],
    "gamma": lambda g: [g.choice([.3, 1., 2.5, 20.]), g.choice([.1, 1., 20.])],
    "negative_binomial": lambda g: [g.choice([.1, .5, .9]), g.choice([1., 3.5, 20.])],
    "generalized_poisson": lambda g: [g.choice([.1, 3., 50., 400.]), g.choice([0.01, .3, .8])],
    "twohalfnorm": lambda g: [g.uniform(-3, 3), g.choice([.1, 1., 3.]), g.choice([.1, 1., 3.])],
}


def cases(rng, tier):
    names = sorted(DOM)
    while True:
        for nm in names:
            rows = [DOM[nm](rng) for _ in range(2)]
            yield dict(kind=nm, variant=rng.choice(["shape", "rows", "rows"]), rows=rows, key=rng.randrange(10 ** 6))
        yield dict(kind="rvs", variant="shape", rows=[DOM["twohalfnorm"](rng)], key=rng.randrange(10 ** 6))
        yield dict(kind="keys", rows=[[0., 1.]], key=rng.randrange(10 ** 6))


def distance(nm, a, x):
    """largest difference between the empirical and the declared distribution function"""
    x = np.sort(np.asarray(x, np.float64))
    n = len(x)
    if nm in ("bernoulli", "binomial", "binomial_hybrid", "poisson", "negative_binomial", "generalized_poisson"):
        v, c = np.unique(x, return_counts=True)
        up = np.cumsum(c) / n
        lo = np.concatenate([[0], up[:-1]])
        return max(np.max(np.abs(up - declared(nm, a, v))), np.max(np.abs(lo - declared(nm, a, v - 1) * (v > 0))))
    if nm == "truncate_normal":
        d = _cdf(nm, a)
        tol = 1e-5 * (1 + abs(a[0]) + a[1])
        inside = x[(x > a[2] + tol) & (x < a[3] - tol)]
        if len(inside) == 0:
            return 1.0
        lo = np.mean(x <= a[2] + tol)
        emp = lo + (np.arange(len(inside)) + 0.5) / n
        return max(abs(lo - d.cdf(a[2])), abs(np.mean(x >= a[3] - tol) - d.sf(a[3])), np.max(np.abs(emp - d.cdf(inside))))
    F = declared(nm, a, x)
    k = np.arange(n)
    return max(np.max(np.abs((k + 1) / n - F)), np.max(np.abs(k / n - F)))


def run_case(c):
    import jax
    from vc.util import repo_fn
    nm, rows = c["kind"], c["rows"]
    key = jax.random.PRNGKey(c["key"])
    if nm == "rvs":
        np.random.seed(c["key"])
        r = np.asarray(repo_fn("appletree.randgen", "TwoHalfNorm.rvs")(*rows[0], size=M))[None]
    elif nm == "keys":
        r = np.asarray(repo_fn("appletree.randgen", "uniform_key_vectorized")(jax.random.split(key, M)))[None]
        nm = "uniform"
    else:
        f = repo_fn("appletree.randgen", nm)
        isint = nm in ("binomial", "binomial_hybrid")
        dt = [I32 if isint and j == 1 else F32 for j in range(len(rows[0]))]
        if c["variant"] == "shape":
            rows = rows[:1]
            _, r = f(key, *[d(x) for d, x in zip(dt, rows[0])], shape=(M,))
            r = np.asarray(r)[None]
        else:
            _, r = f(key, *[np.broadcast_to(np.array(x, d)[:, None], (2, M)) for d, x in zip(dt, zip(*rows))])
            r = np.asarray(r)
    if r.shape != (len(rows), M):
        return None     # C08
    for a, x in zip(rows, r):
        d = distance(nm, a, x)
        if not d * math.sqrt(M) <= 3.6 + 0.15:
            return "%s%r: the distribution function of %d draws is off by %.4f" % (c["kind"], tuple(a), M, d)
    parts = [(x[::2][:M // 2], x[1::2][:M // 2]) for x in r] + ([(r[0], r[1])] if len(r) == 2 else [])
    for x, y in parts:
        if np.std(x) > 0 and np.std(y) > 0:
            rho = np.corrcoef(x, y)[0, 1]
            if abs(rho) * math.sqrt(len(x)) > 12:
                return "%s%r: draws are correlated (%.4f)" % (c["kind"], rows, rho)
    return None
