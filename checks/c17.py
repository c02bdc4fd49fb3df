"""C17: the likelihood is the Poisson likelihood of the summed components."""
import math

import numpy as np
import z3

from vc import pysym as P
from vc import smt
from vc.harness import Unit
from vc.models import bind, real
from checks import like_common as L

ASSUMPTIONS = [L.ALIAS_REQ, "a component is either simulated or fixed; its simulate_hist returns a histogram with the bins of the likelihood (C16)",
               "floating point sums as sums over the reals (with infinities and NaN tracked)"]
N, R, B, I = L.N, L.R, L.B, L.I


def _inst(it, n=None):
    s = {}
    L.instance(it, s, n)
    it.state = s
    return s


def _hist_paths(n):
    def body(it):
        s = _inst(it, n)
        pars = L.parameters(it)
        s["pars"], s["pars0"] = pars, pars.content
        f = it.getattr(s["inst"], "_simulate_model_hist")
        r = it.call(f, [P.SOpq(L.KEY0, "key"), P.SNum(L.BATCH), pars])
        s["comps0"] = s["components"].content
        if n is None:
            s["seq"] = it.keyseq(s["components"])
        return r
    return body


def _split(r):
    if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], P.SOpq) and isinstance(r[1], P.SArr)):
        return None
    return r


def _model_hist(env):
    for a, p in enumerate(P.explore(env, _hist_paths(None), L.contracts())):
        tag = " [path %d]" % a
        s = p.state
        s["obl"].prove(env, p, tag)
        if p.kind == "raise":
            env.prove("no exception" + tag, z3.BoolVal(False), p.hyps)
            continue
        r = _split(p.value)
        env.check("a key and a histogram are returned" + tag, r is not None, repr(p.value))
        if r is None:
            continue
        key, hist = r
        n, name = smt.num(s["seq"].n), lambda i: s["seq"].elem(i).z
        env.prove("the histogram has the bins of the data histogram" + tag, smt.num(hist.n) == L.NB, p.hyps)
        # the key sequence K: K(0) is the given key, K(i+1) the key returned by component i (fixed ones leave it)
        recs = [x for x in p.run.recurrences.values() if isinstance(x["init"], P.SOpq)]
        if len(recs) != 1:
            raise P.Unsupported("no single threaded key")
        rec = recs[0]
        K = lambda i: rec["at"](smt.num(i)).z
        i = env.int("i")
        env.prove("key threading: the first component gets the given key" + tag, rec["init"].z == L.KEY0, p.hyps, kind="loop-init")
        env.prove("key threading: each simulated component gets the key its predecessor returned" + tag,
                  rec["step"](i).z == z3.If(L.SIM(name(i)), L.NEXT(name(i), K(i)), K(i)), p.hyps + [i >= 0, i < n], kind="loop-step")
        env.prove("the last key is returned" + tag, key.z == K(n), p.hyps)
        b = env.int("b")
        v = P.anum(hist.elem(b))
        tot = env.sum(n, lambda j: z3.If(L.SIM(name(j)), L.HS(name(j), K(j), b), L.HF(name(j), b)))
        env.prove("every bin is the sum over all components, each counted once" + tag, P.zreal(v.z) == tot, p.hyps + [b >= 0, b < L.NB])
        env.prove("no infinities or NaN are introduced" + tag, v.finite, p.hyps)
        env.check("the caller's parameters are not modified" + tag, s["pars"].content == s["pars0"], "written")


def _model_hist_n(n):
    def run(env):
        for a, p in enumerate(P.explore(env, _hist_paths(n), L.contracts())):
            tag = " [%d components, path %d]" % (n, a)
            s = p.state
            s["obl"].prove(env, p, tag)
            if p.kind == "raise":
                env.prove("no exception" + tag, z3.BoolVal(False), p.hyps)
                continue
            r = _split(p.value)
            env.check("a key and a histogram are returned" + tag, r is not None, repr(p.value))
            if r is None:
                continue
            b = env.int("b")
            K, tot = L.KEY0, z3.RealVal(0)
            for x in s["names"]:
                tot = tot + z3.If(L.SIM(x), L.HS(x, K, b), L.HF(x, b))
                K = z3.If(L.SIM(x), L.NEXT(x, K), K)
            env.prove("the key is threaded through the components and returned" + tag, r[0].z == K, p.hyps)
            env.prove("every bin is the sum over all components" + tag, P.zreal(P.anum(r[1].elem(b)).z) == tot, p.hyps + [b >= 0, b < L.NB])
    return run


def _bounded(env):
    for n in (0, 1, 2, 3):
        _model_hist_n(n)(env)


# ---------------------------------------------------------------- the Poisson likelihood
M, MN, MP, MM = z3.Function("model", I, R), z3.Function("model_nan", I, B), z3.Function("model_pinf", I, B), z3.Function("model_ninf", I, B)
KEY1 = z3.Const("key1", L.OPQ)


def _llh(env):
    cls = L.mod().Likelihood
    sim = vars(cls).get("_simulate_model_hist")
    if sim is None:
        raise P.Unsupported("_simulate_model_hist not found")

    def c_sim(it, a, k):
        s = it.state
        b = bind(["self", "key", "batch_size", "parameters"], a, k)
        s["obl"].add(it, "the model is simulated with the given key", b["key"].z == L.KEY0)
        s["obl"].add(it, "the model is simulated with the given batch size", P.anum(b["batch_size"]).z == L.BATCH)
        it.run.log.append(("model", (), {}, None))
        return (P.SOpq(KEY1, "key"), P.SArr(L.NB, lambda j: P.SNum(M(smt.num(j)), MN(smt.num(j)), MP(smt.num(j)), MM(smt.num(j)))))

    def body(it):
        s = _inst(it)
        run = it.run
        j = z3.Int("fl!j")
        run.fact(z3.ForAll([j], z3.And(z3.Not(z3.And(MN(j), MP(j))), z3.Not(z3.And(MN(j), MM(j))), z3.Not(z3.And(MP(j), MM(j)))),
                           patterns=[z3.MultiPattern(MN(j), MP(j), MM(j))]))
        run.fact(z3.ForAll([j], L.DATA(j) >= 0, patterns=[L.DATA(j)]))
        return it.call(it.getattr(s["inst"], "get_log_likelihood"), [P.SOpq(L.KEY0, "key"), P.SNum(L.BATCH), L.parameters(it)])
    con = dict(L.contracts())
    con[sim] = c_sim
    LOG = None
    for a, p in enumerate(P.explore(env, body, con)):
        tag = " [path %d]" % a
        s = p.state
        s["obl"].prove(env, p, tag)
        if p.kind == "raise":
            env.prove("no exception" + tag, z3.BoolVal(False), p.hyps)
            continue
        env.check("the model is simulated exactly once" + tag, sum(e[0] == "model" for e in p.run.log) == 1, "log %s" % [e[0] for e in p.run.log])
        r = p.value
        env.check("a key and a number are returned" + tag, isinstance(r, tuple) and len(r) == 2, repr(r))
        env.prove("the key of the simulation is returned" + tag, r[0].z == KEY1, p.hyps)
        v = P.anum(r[1])
        env.prove("never NaN nor +infinity" + tag, P.znot(P.zor(v.nan, v.pinf)), p.hyps)
        b, q = env.int("b"), env.int("q")
        bad = lambda x: z3.Or(MN(x), MP(x), MM(x), M(x) <= 0)
        env.prove("minus infinity if a bin is zero, negative, infinite or not a number" + tag, v.ninf, p.hyps + [b >= 0, b < L.NB, bad(b)])
        good = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < L.NB), z3.Not(bad(q))))
        env.prove("finite if every bin is positive and finite" + tag, v.finite, p.hyps + [good])
        log = P.mlog
        tot = env.sum(L.NB, lambda j: L.DATA(j) * log(M(j)) - M(j))
        env.prove("sum over the bins of n*log(m) - m" + tag, P.zreal(v.z) == tot, p.hyps + [good])


def units():
    p = "appletree/likelihood.py:"
    return [Unit("Likelihood._simulate_model_hist", [p + "Likelihood._simulate_model_hist", p + "need_replacing_alias", p + "Likelihood.replace_alias"],
                 _model_hist, fallbacks=[_bounded], fallback_bounds=["at most 3 components"]),
            Unit("Likelihood.get_log_likelihood", [p + "Likelihood.get_log_likelihood"], _llh)]


# ---------------------------------------------------------------- concrete side
def cases(rng, tier):
    while True:
        rows = [[rng.uniform(0.1, 8.9), rng.uniform(0.1, 8.9)] for _ in range(rng.choice([1, 4, 12]))]
        nc = rng.randint(0, 4)
        comps = []
        for j in range(nc):
            h = [rng.choice([0.0, 1.0, 2.5, rng.uniform(0, 10)]) for _ in range(4)]
            if rng.random() < 0.12:
                h[rng.randint(0, 3)] = rng.choice([-1.0, -20.0, "nan", "inf", "-inf"])
            comps.append([rng.choice(["sim", "fixed"]), "c%d" % (7 * j % 5), h])
        yield dict(rows=rows, comps=comps, key=rng.randint(0, 1000), batch=rng.choice([1, 10, 1000]), pars={"a": rng.random(), "b": rng.random()})


def run_case(case):
    import warnings
    warnings.simplefilter("ignore")
    l = L.make_likelihood(case["rows"])
    shape = np.shape(l.data_hist)
    calls = []
    comps = [(k, n, [float(x) for x in h]) for k, n, h in case["comps"]]
    l.components = L.stub_components(comps, calls, shape)
    pars = dict(case["pars"])
    key, llh = l.get_log_likelihood(case["key"], case["batch"], pars)
    if pars != case["pars"]:
        return "the caller's parameters were modified"
    if [c[0] for c in calls] != [c[1] for c in comps]:
        return "components simulated: %s" % [c[0] for c in calls]
    k = case["key"]
    m = np.zeros(4)
    for (kind, n, h), c in zip(comps, calls):
        if kind == "sim":
            if c[1] != k or c[2] != case["batch"]:
                return "component %s got key %r and batch size %r instead of %r and %r" % (n, c[1], c[2], k, case["batch"])
            k += 1
        if c[3] != case["pars"]:
            return "component %s got parameters %r" % (n, c[3])
        m = m + np.array(h)
    if key != k:
        return "returned key %r instead of %r" % (key, k)
    n = np.asarray(l.data_hist, dtype=float).ravel()
    if np.any(~(m > 0)) or np.any(~np.isfinite(m)):
        want = -math.inf
        if llh != want:
            return "log likelihood %r for the model %s" % (llh, m)
    else:
        want = float(np.sum(n * np.log(m) - m))
        if not abs(llh - want) <= 1e-5 * (1 + abs(want) + np.sum(np.abs(m))):
            return "log likelihood %r instead of %r" % (llh, want)
    k2, hist = l._simulate_model_hist(case["key"], case["batch"], dict(case["pars"])) if hasattr(l, "_simulate_model_hist") else (k, m)
    if k2 != k or not np.allclose(np.asarray(hist, dtype=float).ravel(), m, rtol=1e-5, atol=1e-5, equal_nan=True):
        return "model histogram %s instead of %s" % (hist, m)
    return None
