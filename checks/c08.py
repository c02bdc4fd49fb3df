"""C08: samplers stay in their support, honour the shape, and scale as declared."""
import numpy as np
import z3

from vc.harness import Unit
from checks.rand_common import F32, I32, VARIANTS, callee_pres, run_sampler, setup

ASSUMPTIONS = [
    "jax.random.{uniform,normal,poisson,gamma,bernoulli,binomial} by contract: support of the distribution and determinism in the key",
    "parameters are in the domain of the distribution (requires): lower <= upper, std and widths > 0, 0 <= p <= 1, n a non-negative integer, lam >= 0, 0 <= eta < 1, alpha, beta > 0",
    "the loop of generalized_poisson is proved partially correct; its termination (with probability one) is not an obligation",
    "asserts of TwoHalfNorm.rvs are dropped by the extraction and used as requires",
]
R = z3.ToReal


def _real(x):
    return x if z3.is_real(x) else z3.ToReal(x)


S = {}


def spec(name, kinds, extra=()):
    def deco(f):
        S[name] = (kinds, extra, f)
        return f
    return deco


@spec("uniform", [("vmin", "f"), ("vmax", "f")])
def _uniform(env, r, again):
    lo, hi = r.p
    env.prove("between its limits", z3.And(lo <= r.el.v, r.el.v <= hi), r.rng + [lo <= hi])
    env.prove("well defined", r.el.wd, r.rng + [lo <= hi])


@spec("normal", [("mean", "f"), ("std", "f")])
def _normal(env, r, again):
    m, s = r.p
    q = again({0: F32(0), 1: F32(1)})
    env.prove("mean + std * standard variate", r.el.v == m + s * q.el.v, r.rng)
    env.prove("well defined", r.el.wd, r.rng)


@spec("truncate_normal", [("mean", "f"), ("std", "f"), ("vmin", "f"), ("vmax", "f")])
def _trunc(env, r, again):
    m, s, lo, hi = r.p
    env.prove("between the truncation limits", z3.And(lo <= r.el.v, r.el.v <= hi), r.rng + [lo <= hi])
    q = again({0: F32(0), 1: F32(1)})
    lo2, hi2 = lo, hi
    env.prove("inside: mean + std * standard variate", r.el.v == m + s * q.el.v,
              r.rng + [lo < r.el.v, r.el.v < hi, lo2 < q.el.v, q.el.v < hi2])
    q3 = again({3: None})
    env.prove("without upper limit: not below the lower one", q3.el.v >= lo, r.rng)
    q4 = again({2: None})
    env.prove("without lower limit: not above the upper one", q4.el.v <= hi, r.rng)
    env.prove("well defined", z3.And(_b(r.el.wd), _b(q3.el.wd), _b(q4.el.wd)), r.rng)


def _b(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


@spec("skewnormal", [("a", "f"), ("loc", "f"), ("scale", "f")])
def _skew(env, r, again):
    a, loc, sc = r.p
    q = again({1: F32(0), 2: F32(1)})
    env.prove("loc + scale * standard variate", r.el.v == loc + sc * q.el.v, r.rng)
    env.prove("well defined", r.el.wd, r.rng)


@spec("bernoulli", [("p", "f")])
def _bern(env, r, again):
    (p,) = r.p
    env.prove("0 or 1", z3.Or(r.el.v == 0, r.el.v == 1), r.rng)
    env.prove("0 for probability 0", r.el.v == 0, r.rng + [p == 0])
    env.prove("1 for probability 1", r.el.v == 1, r.rng + [p == 1])
    _isint(env, r)


def _isint(env, r):
    from vc.jx import kind
    env.check("integer valued", kind(r.out.dtype) in "iu", "dtype %s" % r.out.dtype)


def _binom(env, r, again):
    p, n = r.p
    h = r.rng + [p >= 0, p <= 1, n >= 0]
    v = _real(r.el.v)
    env.prove("between 0 and n", z3.And(v >= 0, v <= _real(n)), h)
    env.prove("0 for probability 0", v == 0, h + [p == 0])
    env.prove("n for probability 1", v == _real(n), h + [p == 1])
    env.prove("0 for no trials", v == 0, h + [n == 0])
    _isint(env, r)
    env.prove("well defined", r.el.wd, h)
    callee_pres(env, h)


S["binomial"] = ([("p", "f"), ("n", "i")], (), _binom)


@spec("poisson", [("lam", "f")])
def _pois(env, r, again):
    (lam,) = r.p
    h = r.rng + [lam >= 0]
    env.prove("not negative", r.el.v >= 0, h)
    env.prove("0 for expectation 0", r.el.v == 0, h + [lam == 0])
    _isint(env, r)
    env.prove("well defined", r.el.wd, h)
    callee_pres(env, h)


@spec("gamma", [("alpha", "f"), ("beta", "f")])
def _gamma(env, r, again):
    a, b = r.p
    h = r.rng + [a > 0, b > 0]
    env.prove("not negative", r.el.v >= 0, h)
    q = again({1: F32(1)})
    env.prove("rate enters as 1/beta * standard variate", r.el.v * b == q.el.v, h)
    env.prove("well defined", r.el.wd, h)
    callee_pres(env, h)


@spec("negative_binomial", [("p", "f"), ("n", "f")])
def _nb(env, r, again):
    p, n = r.p
    h = r.rng + [p > 0, p < 1, n > 0]
    env.prove("not negative", r.el.v >= 0, h)
    _isint(env, r)
    env.prove("well defined", r.el.wd, h)
    callee_pres(env, h)


@spec("generalized_poisson", [("lam", "f"), ("eta", "f")])
def _gp(env, r, again):
    lam, eta = r.p
    h = r.rng
    env.prove("not negative", r.el.v >= 0, h)
    _isint(env, r)


@spec("twohalfnorm", [("mu", "f"), ("sigma_pos", "f"), ("sigma_neg", "f")])
def _thn(env, r, again):
    mu, sp, sn = r.p
    h = r.rng + [sp > 0, sn > 0]
    q = again({0: F32(0)})
    env.prove("location enters additively", r.el.v == mu + q.el.v, h)
    env.prove("well defined", r.el.wd, h)
    draws = [x for x in r.log if x[1] not in ("split", "fold_in")]
    keys = {x[0] for x in draws}
    env.check("side and magnitude are drawn with different keys", len(draws) >= 2 and len(keys) == len(draws), "draws %r" % (draws,))
    kinds = sorted(x[1] for x in draws)
    if kinds == ["normal", "uniform"]:
        names = {d: n for d, n in env.draw_sites[:2]}
        ix = [i for i in r.idx] or [z3.IntVal(0)]
        z = z3.Function(names["normal"], *([z3.IntSort()] * len(ix)), z3.RealSort())(*ix)
        a = z3.If(z < 0, -z, z)
        env.prove("mu + sigma_pos*|z| or mu - sigma_neg*|z|", z3.Or(r.el.v == mu + sp * a, r.el.v == mu - sn * a), h)
        # scaling both widths leaves the side unchanged and scales the offset
        u = z3.Function(names["uniform"], *([z3.IntSort()] * len(ix)), z3.RealSort())(*ix)
        env.prove("the upper side with probability sigma_pos/(sigma_pos+sigma_neg)",
                  r.el.v == mu + z3.If(u * (sp + sn) < sp, sp * a, -sn * a), h)


def _unit(name, variant):
    kinds, extra, f = S[name]

    def run(env):
        dims, it = setup(env, name)
        if name == "generalized_poisson":
            it.loop_inv = lambda k, v: v >= 0
            _assume_params(env, it, name)
        env.reachable("requires satisfiable")
        r = run_sampler(env, it, dims, name, kinds, variant, extra=extra)
        env.check("shape: %s" % variant, r.shape_ok, "shape %s instead of %s" % (r.out.shape, r.want_shape))
        if not r.shape_ok:
            return

        def again(fixed):
            q = run_sampler(env, it, dims, name, kinds, _nofix(variant), args=r.args, extra=extra, fixed=fixed)
            if not q.shape_ok:
                from vc.jx import Unsupported
                raise Unsupported("shape when a parameter is a constant")
            return q
        f(env, r, again)
    return run


def _nofix(v):
    return v


def _assume_params(env, it, name):
    """generalized_poisson: every element of lam is >= 0 and of eta in [0, 1) (facts on access)"""
    orig = it.sym_array

    def sym(nm, shape, dt):
        from vc.jx import Arr, El
        a = orig(nm, shape, dt)

        def fn(idx):
            e = a(idx)
            env.fact(e.v >= 0)
            if nm == "eta":
                env.fact(e.v < 1)
            return e
        return Arr(a.shape, a.dtype, fn)
    it.sym_array = sym


def _gp_run(variant):
    base = _unit("generalized_poisson", variant)

    def run(env):
        base(env)
        callee_pres(env, [])
    return run


def _hybrid(variant):
    def run(env):
        from vc import jx
        from vc.smt import num
        from vc.util import repo_fn
        dims = jx.Dims(env, ["N", "K", "T"])
        it = jx.Interp(env, dims, label="binomial_hybrid")
        f = repo_fn("appletree.randgen", "binomial_hybrid")
        N, T = dims["N"], dims["T"]
        psh, ssh, osh = VARIANTS[variant]
        sh = psh(0, N, None)
        cj, _ = jx.trace(lambda k, p, n: f(k, p, n, ssh(N, None), T), [jx.SDS((2,), np.uint32), jx.SDS(sh, F32), jx.SDS(sh, I32)])
        p, n = it.sym_array("p", sh, F32), it.sym_array("n", sh, I32)
        env.reachable("requires satisfiable")
        key, out = it.run(cj, [it.key_array("key"), p, n])
        env.check("shape: %s" % variant, len(out.shape) == 1, "shape %s" % (out.shape,))
        i = env.int("n")
        e = out((i,))
        ix = (i,) if sh else ()
        pv, nv = num(p(ix).v), num(n(ix).v)
        h = [i >= 0, i < num(dims.term(N)), pv >= 0, pv <= 1, nv >= 0]
        env.sum_invariant("the number of successes among the first k trials is at most min(k, n)",
                          lambda k, s: z3.And(s >= 0, s <= k, s <= nv), h)
        v = _real(e.v)
        env.prove("between 0 and n", z3.And(v >= 0, v <= R(nv)), h)
        env.prove("0 for probability 0", v == 0, h + [pv == 0])
        env.prove("n for probability 1", v == R(nv), h + [pv == 1])
        env.prove("0 for no trials", v == 0, h + [nv == 0])
        from vc.jx import kind
        env.check("integer valued", kind(out.dtype) in "iu", "dtype %s" % out.dtype)
        env.prove("well defined", _b(e.wd), h)
    return run


def _vec(env):
    from vc import jx
    from vc.smt import num
    from vc.util import repo_fn
    dims = jx.Dims(env, ["N"])
    it = jx.Interp(env, dims, label="uniform_key_vectorized")
    N = dims["N"]
    cj, _ = jx.trace(repo_fn("appletree.randgen", "uniform_key_vectorized"), [jx.SDS((N, 2), np.uint32)])
    keys = it.sym_array("keys", (N, 2), np.uint32)
    env.reachable("requires satisfiable")
    (out,) = it.run(cj, [keys])
    i = env.int("n")
    h = [i >= 0, i < num(dims.term(N))]
    env.check("one value per key", len(out.shape) == 1 and z3.eq(z3.simplify(num(out.shape[0])), z3.simplify(num(dims.term(N)))), "shape %s" % (out.shape,))
    e = out((i,))
    env.prove("in [0, 1)", z3.And(e.v >= 0, e.v < 1), h)


def _rvs(variant):
    def run(env):
        from vc import jx
        from vc.hostnp import extract
        from vc.smt import num
        from vc.util import repo_fn
        dims = jx.Dims(env, ["N"])
        it = jx.Interp(env, dims, label="TwoHalfNorm.rvs")
        f = extract(repo_fn("appletree.randgen", "TwoHalfNorm.rvs"))
        size = None if variant == "no size" else (dims["N"],)
        cj, _ = jx.trace(lambda mu, sp, sn: f(mu, sp, sn, size), [jx.SDS((), F32)] * 3)
        a = [it.sym_array(x, (), F32) for x in ("mu", "sigma_pos", "sigma_neg")]
        mu, sp, sn = (x(()).v for x in a)
        env.require(z3.And(sp > 0, sn > 0))
        env.reachable("requires satisfiable")
        (out,) = it.run(cj, a)
        want = () if size is None else (num(dims.term(dims["N"])),)
        env.check("shape", len(out.shape) == len(want), "shape %s" % (out.shape,))
        i = env.int("n")
        idx = (i,) if want else ()
        h = [i >= 0, i < want[0]] if want else []
        e = out(idx)
        sites = dict(env.draw_sites)
        if sorted(d for d, _ in env.draw_sites) != ["normal", "uniform"]:
            raise jx.Unsupported("draws %s" % (env.draw_sites,))
        ix = list(idx) or [z3.IntVal(0)]
        fn = lambda d: z3.Function(sites[d], z3.IntSort(), z3.RealSort())(*ix)  # noqa: E731
        z, u = fn("normal"), fn("uniform")
        ab = z3.If(z < 0, -z, z)
        env.prove("the upper side with probability sigma_pos/(sigma_pos+sigma_neg), |z| widths away from mu",
                  e.v == mu + z3.If(u * (sp + sn) < sp, sp * ab, -sn * ab), h)
        env.prove("well defined", _b(e.wd), h)
        draws = [x[0] for x in env.keylog]
        env.check("side and magnitude are separate draws", len(set(draws)) == 2, "%r" % (draws,))
    return run


def units():
    p = "appletree/randgen.py:"
    us = []
    for name in S:
        for v in VARIANTS:
            if name == "generalized_poisson":
                us.append(Unit("%s (%s)" % (name, v), [p + name], _gp_run(v)))
            else:
                us.append(Unit("%s (%s)" % (name, v), [p + name], _unit(name, v)))
    for v in ("scalars, shape (N,)", "arrays (N,), no shape"):
        us.append(Unit("binomial_hybrid (%s)" % v, [p + "binomial_hybrid"], _hybrid(v)))
    us.append(Unit("uniform_key_vectorized", [p + "uniform_key_vectorized"], _vec))
    for v in ("size (N,)", "no size"):
        us.append(Unit("TwoHalfNorm.rvs (%s)" % v, [p + "TwoHalfNorm.rvs"], _rvs(v)))
    return us


# ------------------------------------------------------------------ the contract on the real code
DOM = {
    "uniform": lambda g: [g.choice([0., -3., 5.]), None],
    "normal": lambda g: [g.uniform(-3, 3), g.choice([.1, 1., 30.])],
    "truncate_normal": lambda g: [g.uniform(-3, 3), g.choice([.1, 1., 30.]), None, None],
    "skewnormal": lambda g: [g.uniform(-4, 4), g.uniform(-3, 3), g.choice([.1, 1., 30.])],
    "bernoulli": lambda g: [g.choice([0., 1., .3, .99])],
    "binomial": lambda g: [g.choice([0., 1., .3, .99, 1e-4, .5]), g.choice([0, 1, 2, 7, 100, 129, 5000])],
    "binomial_hybrid": lambda g: [g.choice([0., 1., .3, .99, 1e-4, .5]), g.choice([0, 1, 2, 7, 100, 128, 129, 5000])],
    "poisson": lambda g: [g.choice([0., .1, 3., 1e4])],
    "gamma": lambda g: [g.choice([.1, 1., 20.]), g.choice([.1, 1., 20.])],
    "negative_binomial": lambda g: [g.choice([.1, .5, .9]), g.choice([1., 3.5, 20.])],
    "generalized_poisson": lambda g: [g.choice([0., .1, 3., 50.]), g.choice([0., .3, .8])],
    "twohalfnorm": lambda g: [g.uniform(-3, 3), g.choice([.1, 1., 30.]), g.choice([.1, 1., 30.])],
}


def cases(rng, tier):
    names = sorted(DOM)
    while True:
        for nm in names:
            v = rng.choice(["shape", "arrays", "scalar", "outer", "tile"])
            n, k = rng.choice([1, 4, 7]), rng.choice([1, 3])

            def one():
                x = DOM[nm](rng)
                if nm == "uniform":
                    x[1] = x[0] + rng.choice([0.5, 1., 20.])
                if nm == "truncate_normal":
                    x[2] = x[0] - rng.choice([.1, 2.])
                    x[3] = x[2] + rng.choice([.5, 5.])
                return x
            rows = [one() for _ in range(max(n * k, 1))]
            yield dict(kind=nm, variant=v, n=n, k=k, rows=rows if v == "arrays" else [rows[0]], key=rng.randrange(10 ** 6))
        yield dict(kind="rvs", n=rng.choice([None, 5]), mu=rng.uniform(-2, 2), sp=rng.choice([.1, 3.]), sn=rng.choice([.1, 3.]), key=rng.randrange(10 ** 6))


def run_case(c):
    import jax
    from vc.util import repo_fn
    nm = c["kind"]
    if nm == "rvs":
        np.random.seed(c["key"] % 2 ** 31)
        r = np.asarray(repo_fn("appletree.randgen", "TwoHalfNorm.rvs")(c["mu"], c["sp"], c["sn"], c["n"] and (c["n"], 50)))
        if r.shape != (() if c["n"] is None else (c["n"], 50)) or not np.all(np.isfinite(r)):
            return "TwoHalfNorm.rvs: shape %s, finite %s" % (r.shape, np.all(np.isfinite(r)))
        if c["n"] and np.all(r == r.ravel()[0]):
            return "TwoHalfNorm.rvs: all values equal"
        return None
    f = repo_fn("appletree.randgen", nm)
    key = jax.random.PRNGKey(c["key"])
    isint = nm == "binomial" or nm == "binomial_hybrid"
    n, k = c["n"], c["k"]
    cols = list(zip(*c["rows"]))
    dt = [I32 if (isint and j == 1) else F32 for j in range(len(cols))]
    v = c["variant"]
    if v == "shape":
        a, shape, want = [d(x[0]) for d, x in zip(dt, cols)], (n,), (n,)
    elif v == "scalar":
        a, shape, want = [d(x[0]) for d, x in zip(dt, cols)], (), ()
    elif v == "arrays":
        a, shape, want = [np.array(x, d) for d, x in zip(dt, cols)], (), (len(c["rows"]),)
    elif v == "outer":
        a = [np.full((n, 1) if j == 0 else (k,), x[0], d) for j, (d, x) in enumerate(zip(dt, cols))]
        if len(a) == 1:
            a = [np.full((n, k), cols[0][0], dt[0])]
        shape, want = (), (n, k)
    else:
        a, shape, want = [np.full((k,), x[0], d) for d, x in zip(dt, cols)], (n, k), (n, k)
    key2, r = f(key, *a, shape=shape)
    r = np.asarray(r)
    if r.shape != want:
        return "%s: shape %s, expected %s" % (nm, r.shape, want)
    if not np.all(np.isfinite(r)):
        return "%s%s: value %s" % (nm, tuple(a), r)
    b = [np.broadcast_to(np.asarray(x, np.float64), want) for x in a]
    r = r.astype(np.float64)
    bad = None
    if nm == "uniform":
        bad = (r < b[0] - 1e-5) | (r > b[1] + 1e-5)
    elif nm == "truncate_normal":
        bad = (r < b[2] - 1e-6) | (r > b[3] + 1e-6)
    elif nm in ("normal", "skewnormal"):
        j = 0 if nm == "normal" else 1
        a0 = list(a)
        a0[j], a0[j + 1] = np.zeros_like(a[j]), np.ones_like(a[j + 1])
        _, z = f(key, *a0, shape=shape)
        bad = np.abs(r - (b[j] + b[j + 1] * np.asarray(z))) > 1e-4 * (1 + np.abs(r))
    elif nm == "bernoulli":
        bad = ~((r == 0) | (r == 1)) | ((b[0] == 0) & (r != 0)) | ((b[0] == 1) & (r != 1))
    elif isint:
        bad = (r < 0) | (r > b[1]) | (r != np.round(r)) | ((b[0] == 0) & (r != 0)) | ((b[0] == 1) & (r != b[1]))
    elif nm in ("poisson", "negative_binomial", "generalized_poisson"):
        bad = (r < 0) | (r != np.round(r)) | ((b[0] == 0) & (r != 0))
    elif nm == "gamma":
        bad = r < 0
    elif nm == "twohalfnorm":
        a0 = [np.zeros_like(a[0])] + a[1:]
        _, z = f(key, *a0, shape=shape)
        bad = np.abs(r - (b[0] + np.asarray(z))) > 1e-4 * (1 + np.abs(r) + np.abs(b[0]))
        if not bad.any() and v == "shape":
            big = 4000
            _, z = f(key, F32(0), F32(1), F32(1), shape=(big,))
            z = np.asarray(z)
            up = z > 0
            # side and magnitude are independent: similar magnitudes on both sides
            if abs(np.mean(np.abs(z[up])) - np.mean(np.abs(z[~up]))) > 0.15:
                return "twohalfnorm: mean magnitude %.3f above and %.3f below the mode with equal widths" % (np.mean(np.abs(z[up])), np.mean(np.abs(z[~up])))
            _, z = f(key, F32(0), F32(3), F32(1), shape=(big,))
            fr = np.mean(np.asarray(z) > 0)
            if abs(fr - .75) > .05:
                return "twohalfnorm(0, 3, 1): fraction above the mode %.3f, expected 0.75" % fr
    if bad is not None and np.any(bad):
        j = int(np.argmax(np.ravel(bad)))
        return "%s%s: value %r outside its contract" % (nm, tuple(float(np.ravel(x)[j]) for x in b), float(np.ravel(r)[j]))
    return None
