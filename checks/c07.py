"""C07: a probability density map is converted into its normalised cumulative."""
import json
import os
import random
import shutil
import tempfile

import numpy as np
import z3

from vc import nd
from vc import pysym as P
from vc import smt
from vc.harness import Unit
from checks import context_common as X
from checks import c05

N, R, B, I, OPQ = X.N, X.R, X.B, X.I, X.OPQ
ASSUMPTIONS = ["coordinates strictly increasing, at least two; densities non-negative with positive integral (requires)", "arithmetic on reals; x / x == 1 also holds in floating point",
               "load_json returns the content of the file; the interpolators by their own contracts (C02-C04)"]
XX, YY = z3.Function("coordinate", I, R), z3.Function("density", I, R)
M_ = z3.Int("number_of_points")
T = z3.Function("trapezoid", I, R)      # spec: running integral, T(j) up to point j + 1
K = z3.Int("k")


def inc(j):
    return (XX(j + 1) - XX(j)) * (YY(j) + YY(j + 1)) / 2


def tdef(j):
    """T(j) by its definition"""
    return z3.And(z3.Implies(j == 0, T(j) == inc(j)), z3.Implies(j > 0, T(j) == T(j - 1) + inc(j)))


def ut():
    return __import__("appletree.utils", fromlist=["x"])


def requires(env):
    env.require(M_ >= 2)
    env.require_increasing(XX, M_)
    j = z3.Int("rj")
    env.require(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < M_), YY(j) >= 0), patterns=[YY(j)]))
    env.require(T(M_ - 2) > 0)


def equal(env, tag, p):
    """induction: each running sum of the code is the trapezoid integral; returns facts at an index"""
    out = []
    for c, _, n, body in getattr(p.run, "cumsums", []) if hasattr(p, "run") else p.state["cumsums"]:
        cdef = lambda j, c=c, body=body: z3.And(z3.Implies(j == 0, c(j) == body(j)), z3.Implies(j > 0, c(j) == c(j - 1) + body(j)))     # noqa: E731
        o0 = env.prove("one interval less than points" + tag, smt.num(n) == M_ - 1, p.hyps)
        o1 = env.prove("lemma: running sum = trapezoid integral, first" + tag, c(z3.IntVal(0)) == T(z3.IntVal(0)), p.hyps + [cdef(z3.IntVal(0)), tdef(z3.IntVal(0))], kind="loop-init")
        o2 = env.prove("lemma: running sum = trapezoid integral, next" + tag, c(K + 1) == T(K + 1), p.hyps + [K >= 0, K + 1 < M_ - 1, c(K) == T(K), cdef(K + 1), tdef(K + 1)], kind="loop-step")
        if o0.status == o1.status == o2.status == "proved":
            out.append(lambda j, c=c: z3.Implies(z3.And(j >= 0, j < M_ - 1), c(j) == T(j)))
    return lambda *js: [f(j) for f in out for j in js]


def lemmas(env):
    """properties of the trapezoid integral itself"""
    j, k = z3.Ints("j k")
    env.prove("lemma: increments are not negative", inc(k) >= 0, [k >= 0, k + 1 < M_], kind="lemma")
    up = env.prove("lemma: T grows", T(k) <= T(k + 1), [k >= 0, k + 2 < M_, tdef(k + 1), inc(k + 1) >= 0], kind="loop-step")
    pos = env.prove("lemma: T(0) is not negative", T(z3.IntVal(0)) >= 0, [tdef(z3.IntVal(0)), inc(z3.IntVal(0)) >= 0], kind="loop-init")
    env.prove("lemma: T(j) <= T(k) for j <= k (induction over k)", T(j) <= T(k + 1), [j >= 0, j <= k, T(j) <= T(k), T(k) <= T(k + 1)], kind="loop-step")
    if up.status == pos.status == "proved":
        return lambda j: [z3.Implies(z3.And(j >= 0, j < M_ - 1), z3.And(T(j) >= 0, T(j) <= T(M_ - 2))), z3.Implies(z3.And(j >= 0, j + 2 < M_), T(j) <= T(j + 1))]
    return lambda j: []


def points(it, f):
    return it.run.cell(P.MList.of_seq(P.SSeq(M_, lambda j: P.SNum(f(smt.num(j))))))


def _cumulative(whole):
    name = "integrate_midpoint" if whole else "cumulative_integrate_midpoint"

    def run(env):
        requires(env)
        con = dict(X.contracts())
        con.update(nd.contracts())

        def body(it):
            it.state = {}
            it.run.fact(M_ >= 2)
            r = it.call(getattr(ut(), name), [points(it, XX), points(it, YY)])
            it.state["r"], it.state["cumsums"] = r, it.run.__dict__.get("cumsums", [])
        j = z3.Int("j")
        for n, p in enumerate(P.explore(env, body, con)):
            tag = " [%s, path %d]" % (name, n)
            env.check("evaluated" + tag, p.kind != "raise", repr(p.value))
            if p.kind == "raise":
                continue
            facts = equal(env, tag, p)
            r = p.state["r"]
            if whole:
                v = P.anum(r)
                env.prove("the integral" + tag, z3.And(v.finite, v.z == T(M_ - 2)), p.hyps + facts(M_ - 2))
                continue
            ok = isinstance(r, tuple) and len(r) == 2 and all(nd.is_nd(v) and len(v.info["shape"]) == 1 for v in r)
            env.check("midpoints and running integral" + tag, ok, repr(r))
            if not ok:
                continue
            hy = p.hyps + [j >= 0, j < M_ - 1]
            for what, v, want in (("midpoints", r[0], (XX(j) + XX(j + 1)) / 2), ("running integral", r[1], T(j))):
                env.prove("one per interval: " + what + tag, smt.num(v.info["shape"][0]) == M_ - 1, p.hyps)
                e = P.anum(v.info["elem"](j))
                env.prove(what + tag, z3.And(e.finite, e.z == want), hy + facts(j))
    return run


def _build(env):
    """what the interpolation of a map built from a density gets"""
    requires(env)
    low = lemmas(env)
    NQ = z3.Int("number_of_queries")
    for method in ("IDW", "NN", "LERP"):
        def data(it):
            return it.run.cell(P.MDict([("coordinate_type", "point"), ("coordinate_name", "pdf"), ("coordinate_system", points(it, XX)), ("map", points(it, YY))]))
        con = c05.contracts(data)
        for f in (ut().integrate_midpoint, ut().cumulative_integrate_midpoint):
            con.pop(f)

        def body(it):
            it.state = s = dict(loaded=[], converted=[], calls=[])
            run = it.run
            run.fact(z3.And(M_ >= 2, NQ >= 0))
            c = run.cell(P.MDict([], cls=c05.share().RecordingDict))
            it.setattr(c, "accessed_keys", run.cell(P.MSet()))
            run.contracts[("global", "_cached_configs")] = c
            inst = c05.instance(it, c05.cfg().Map, False, dict(method=method))
            it.call(it.getattr(inst, "build"), [], dict(llh_name=P.SStr(c05.LLH)))
            it.call(it.getattr(inst, "apply"), [nd.arr([NQ], lambda a: P.SNum(c05.POS(a, 0)))])
            s["cumsums"] = run.__dict__.get("cumsums", [])
        j = z3.Int("j")
        for n, p in enumerate(P.explore(env, body, con)):
            tag = " [%s, path %d]" % (method, n)
            env.check("a density is accepted" + tag, p.kind != "raise", repr(p.value))
            if p.kind == "raise":
                continue
            calls = p.state["calls"]
            ok = len(calls) == 1 and len(calls[0][1]) == 3 and all(nd.is_nd(v) and len(v.info["shape"]) == 1 for v in calls[0][1])
            env.check("one interpolation of values over coordinates" + tag, ok, repr(calls))
            if not ok:
                continue
            facts = equal(env, tag, p)
            _, cdf, val = calls[0][1]
            hy = p.hyps + [j >= 0, j < M_ - 1] + facts(j, j + 1, M_ - 2) + low(j)
            c, v, c1, last = P.anum(cdf.info["elem"](j)), P.anum(val.info["elem"](j)), P.anum(cdf.info["elem"](j + 1)), P.anum(cdf.info["elem"](M_ - 2))
            env.prove("as many coordinates as intervals" + tag, z3.And(smt.num(cdf.info["shape"][0]) == M_ - 1, smt.num(val.info["shape"][0]) == M_ - 1), p.hyps)
            env.prove("coordinates: running integral over the total" + tag, z3.And(c.finite, c.z * T(M_ - 2) == T(j)), hy)
            env.prove("values: midpoints of the original coordinates" + tag, z3.And(v.finite, v.z == (XX(j) + XX(j + 1)) / 2), hy)
            env.prove("the values lie inside the original range" + tag, z3.And(v.z >= XX(0), v.z <= XX(M_ - 1)), hy + [XX(0) <= XX(j), XX(j + 1) <= XX(M_ - 1), XX(j) < XX(j + 1)])
            env.prove("coordinates do not decrease" + tag, c.z <= c1.z, hy + [j + 1 < M_ - 1])
            env.prove("coordinates lie in [0, 1]" + tag, z3.And(c.z >= 0, c.z <= 1), hy)
            env.prove("the last coordinate is 1" + tag, last.z == 1, hy)
    env.prove("lemma: increasing coordinates, first and last", z3.And(XX(0) <= XX(K), XX(K) <= XX(M_ - 1)), [K >= 0, K < M_], kind="lemma")


def units():
    u, c = "appletree/utils.py:", "appletree/config.py:Map."
    return [Unit("cumulative_integrate_midpoint", [u + "cumulative_integrate_midpoint"], _cumulative(False)),
            Unit("integrate_midpoint", [u + "integrate_midpoint", u + "cumulative_integrate_midpoint"], _cumulative(True)),
            Unit("Map: density", [c + "build", c + "build_point", c + "pdf_to_cdf", c + "map_point", u + "integrate_midpoint", u + "cumulative_integrate_midpoint"], _build)]


# ---------------------------------------------------------------- concrete
def cases(rng, tier):
    while True:
        yield dict(kind="utils", seed=rng.randrange(1 << 30))
        yield dict(kind="map", seed=rng.randrange(1 << 30))


def _density(rng):
    n = rng.choice([2, 2, 3, 4, 7, 20])
    x = np.cumsum([rng.choice([1e-3, 0.2, 1.0, 50.0]) for _ in range(n)]) + rng.choice([0, -30.0, 1e3])
    while True:
        y = np.array([rng.choice([0.0, rng.random(), rng.random() * 100]) for _ in range(n)])
        if y.sum() > 0:
            return x, y


def _spec(x, y):
    t, out = 0.0, []
    for a, b, p, q in zip(x[:-1], x[1:], y[:-1], y[1:]):
        t += (b - a) * (p + q) / 2
        out.append(t)
    return (x[1:] + x[:-1]) / 2, np.array(out)


def run_case(c):
    rng = random.Random(c["seed"])
    x, y = _density(rng)
    mid, cum = _spec(x, y)
    tol = 1e-9 * cum[-1]
    if c["kind"] == "utils":
        form = rng.choice([list, tuple, np.array])
        gm, gc = ut().cumulative_integrate_midpoint(form(x.tolist()), form(y.tolist()))
        if len(gm) != len(mid) or len(gc) != len(cum) or np.any(np.abs(gm - mid) > 1e-9 * (1 + np.abs(mid))) or np.any(np.abs(gc - cum) > tol):
            return "cumulative integral of %r over %r is %r at %r" % (y.tolist(), x.tolist(), list(gc), list(gm))
        got = ut().integrate_midpoint(form(x.tolist()), form(y.tolist()))
        return "integral of %r over %r is %r instead of %r" % (y.tolist(), x.tolist(), got, cum[-1]) if abs(got - cum[-1]) > tol else None
    tmp = tempfile.mkdtemp(prefix="vc_c07_")
    cwd = os.getcwd()
    import appletree as apt
    apt.clear_cache()
    try:
        os.chdir(tmp)
        with X.Quiet():
            return _c_map(rng, x, y, mid, cum)
    finally:
        os.chdir(cwd)
        apt.clear_cache()
        shutil.rmtree(tmp, True)


def _c_map(rng, x, y, mid, cum):
    what = "density %r over %r" % (y.tolist(), x.tolist())
    m = c05._build(dict(coordinate_type="point", coordinate_name="pdf", coordinate_system=x.tolist(), map=y.tolist()), rng.choice(["LERP", "NN"]))
    cdf, val = np.asarray(getattr(m, "coordinate_system", cum / cum[-1]), float), np.asarray(getattr(m, "map", mid), float)
    f32 = lambda v: 3e-7 * (1 + np.abs(v))      # noqa: E731
    if len(cdf) != len(cum) or np.any(np.abs(cdf - cum / cum[-1]) > f32(1.0)) or np.any(np.abs(val - mid) > f32(mid)):
        return "%s becomes %r at %r" % (what, val.tolist(), cdf.tolist())
    if np.any(np.diff(cdf) < 0) or cdf[0] < 0 or cdf[-1] != 1.0:
        return "%s: coordinates %r do not increase to 1" % (what, cdf.tolist())
    u = np.array([0.0, 1.0, rng.random(), rng.random(), rng.random() ** 6], np.float32)
    got = np.asarray(m.apply(u), float)
    if not np.all((got >= x[0] - f32(x[0])) & (got <= x[-1] + f32(x[-1]))):
        return "%s: random numbers %r are mapped to %r" % (what, u.tolist(), got.tolist())
    return None
