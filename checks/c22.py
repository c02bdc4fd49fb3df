"""C22: the log posterior is the log prior plus all log likelihoods."""
import math
import random

import numpy as np
import z3

from vc import pysym as P
from vc import smt
from vc.harness import Unit
from vc.models import bind, real
from vc.util import repo_fn
from checks import context_common as X
from checks.like_common import Obl

N, R, B, I, OPQ = X.N, X.R, X.B, X.I, X.OPQ
ASSUMPTIONS = ["contract of Likelihood.get_log_likelihood: returns a key and a number that is finite or minus infinity (C17, C24)",
               "contract of Parameter: set_parameter stores the given values, log_prior and get_all_parameter read them (C19, C21); "
               "the log prior is finite, minus infinity or not a number",
               "numbers as reals (with infinities and NaN tracked)"]
LD = z3.Function("likelihood_dom", N, B)
LV, LM = z3.Function("llh", N, OPQ, R), z3.Function("llh_is_minus_inf", N, OPQ, B)
NK = z3.Function("llh_next_key", N, OPQ, OPQ)
PRIOR, PN, PM = z3.Real("log_prior"), z3.Bool("log_prior_nan"), z3.Bool("log_prior_minus_inf")
BATCH, REP = z3.Int("batch_size"), z3.Int("repeat_times")
PD, PV = z3.Function("given_dom", N, B), z3.Function("given_val", N, R)
CURRENT = z3.Const("all_current_values", OPQ)


class Lik:
    def __init__(self, s):
        self.s = s

    def is_none(self, it, o):
        return False

    def isinstance(self, it, o, c):
        return False

    def getattr(self, it, o, name):
        s = self.s
        if name == "get_log_likelihood":
            def f(it, a, k):
                b = bind(["key", "batch_size", "parameters"], a, k)
                s["obl"].add(it, "likelihoods get the requested batch size", P.zreal(P.anum(b["batch_size"]).z) == z3.ToReal(BATCH))
                p = b["parameters"]
                ok = isinstance(p, P.SOpq) and p.kind == "current"
                s["obl"].add(it, "likelihoods are evaluated at the current values of the parameter store", (p.z == CURRENT) if ok else False)
                s["obl"].add(it, "the given parameters were stored before", bool(s["set"]))
                key = b["key"]
                if not isinstance(key, P.SOpq) or key.kind != "key":
                    raise P.Unsupported("key")
                s["obl"].add(it, "nothing is simulated when the log prior is not finite", z3.Not(z3.Or(PN, PM)))
                return (P.SOpq(NK(o.z, key.z), "key"), P.SNum(LV(o.z, key.z), P.FALSE, P.FALSE, LM(o.z, key.z)))
            return P.Contract(f, name)
        if name == "name":
            return P.SStr(o.z)
        return P._MISSING


class Par:
    """contract of the parameter store"""

    def __init__(self, s):
        self.s = s

    def is_none(self, it, o):
        return False

    def isinstance(self, it, o, c):
        return c is X.par_cls()

    def getattr(self, it, o, name):
        s = self.s
        if name == "set_parameter":
            def f(it, a, k):
                b = bind(["keys", ("vals", None)], a, k)
                q = s["q"]
                d = b["keys"]
                if b["vals"] is not None or not isinstance(d, P.MDict):
                    raise P.Unsupported("set_parameter called in another way")
                h = it.zb(it.contains(P.SStr(q), d))
                s["obl"].add(it, "exactly the given parameters are stored", h == PD(q))
                if it.run.feasible(h):
                    sub = list(it.run.pc)
                    it.run.pc.append(h)
                    try:
                        s["obl"].add(it, "the given values are stored", real(it.getitem(d, P.SStr(q))) == PV(q))
                    finally:
                        it.run.pc[:] = sub
                if it.run.idx:
                    raise P.Unsupported("parameters stored in a loop")
                s["set"] = True
            return P.Contract(f, name)
        if name == "log_prior":
            s["obl"].add(it, "the prior is that of the given parameters", bool(s["set"]))
            return P.SNum(PRIOR, PN, P.FALSE, PM)
        if name == "get_all_parameter":
            return P.Contract(lambda it, a, k: P.SOpq(CURRENT, "current"), name)
        return P._MISSING


def _c_key(it, a, k):
    b = bind([("seed", None)], a, k)
    if b["seed"] is not None:
        raise P.Unsupported("seed")
    return P.SOpq(it.run.fresh("start_key", OPQ), "key")


def _mean(it, a, k):
    return it.models[np.mean](it, *a, **k)


def _inst(it, n):
    s = dict(obl=Obl(), set=False, q=z3.Const("q", N))
    it.state = s
    run = it.run
    run.fact(z3.Not(z3.And(PN, PM)))
    model = Lik(s)
    if n is None:
        s["ls"] = run.cell(P.MDict(base=P.SymBase(lambda k: LD(k), lambda k: P.SObj(model, k.z))))
    else:
        s["names"] = [z3.Const("llh%d" % j, N) for j in range(n)]
        if n > 1:
            run.fact(z3.Distinct(*s["names"]))
        s["ls"] = run.cell(P.MDict([(P.SStr(x), P.SObj(model, x)) for x in s["names"]]))
    s["inst"] = X.instance(it, s["ls"], P.SObj(Par(s), z3.Const("store", N)))
    s["pars"] = run.cell(P.MDict(base=P.SymBase(lambda k: PD(k), lambda k: P.SNum(PV(k.z)))))
    return s


def _body(n, rep):
    """rep: None for any number above one, 1 for at most one, or a number"""
    def body(it):
        s = _inst(it, n)
        run = it.run
        if rep is None:
            run.fact(REP > 1)
            r = P.SNum(REP)
        elif rep == 1:
            run.fact(REP <= 1)
            r = P.SNum(REP)
        else:
            r = rep
        v = it.call(it.getattr(s["inst"], "log_posterior"), [s["pars"], P.SNum(BATCH), r])
        if n is None:
            s["seq"] = it.keyseq(s["ls"])
        return v
    return body


def _con():
    con = dict(X.contracts())
    con[repo_fn("appletree.randgen", "get_key")] = _c_key
    return con


def _common(env, p, tag):
    """returns the log posterior if the prior is finite on this path"""
    s = p.state
    s["obl"].prove(env, p, tag)
    if p.kind == "raise":
        env.prove("no exception" + tag, z3.BoolVal(False), p.hyps)
        return None
    r = p.value
    ok = isinstance(r, tuple) and len(r) == 2 and P.is_num(r[0]) and P.is_num(r[1])
    env.check("the posterior and the prior are returned" + tag, ok, repr(r))
    if not ok:
        return None
    env.check("the given parameters are stored" + tag, s["set"], "set_parameter is not called")
    post, prior = P.anum(r[0]), P.anum(r[1])
    env.prove("the log prior itself is returned" + tag,
              z3.And(prior.nan == PN, prior.ninf == PM, P.znot(prior.pinf), z3.Implies(prior.finite, P.zreal(prior.z) == PRIOR)), p.hyps)
    bad = z3.Or(PN, PM)
    env.prove("posterior is minus infinity when the prior is not finite" + tag, post.ninf, p.hyps + [bad])
    return post


def _any_likelihoods(rep):
    def run(env):
        np_ = 0
        for a, p in enumerate(P.explore(env, _body(None, rep), _con())):
            tag = " [path %d]" % a
            s = p.state
            post = _common(env, p, tag)
            if post is None:
                continue
            good = [z3.Not(PN), z3.Not(PM)]
            hy = list(p.hyps) + good
            if smt.solve_z3(hy, 2000)[0] == "unsat":
                continue
            np_ += 1
            n, name = smt.num(s["seq"].n), lambda i: s["seq"].elem(i).z
            used = _decls(p, P.zreal(post.z), env)
            recs = [x for nm, x in p.run.recurrences.items() if isinstance(x["init"], P.SOpq) and nm in used]
            if len(recs) != 1:
                raise P.Unsupported("no single threaded key")
            rec = recs[0]
            j = env.int("j")
            K = lambda i: rec["at"](smt.num(i)).z
            rng = [j >= 0, j < n]
            env.prove("key threading: every likelihood gets the key its predecessor returned" + tag,
                      rec["step"](j).z == NK(name(j), K(j)), hy + rng, kind="loop-step")
            env.prove("key threading: the first likelihood gets the fresh key" + tag, K(0) == rec["init"].z, hy, kind="loop-init")
            if rep == 1:
                tot = env.sum(n, lambda i: LV(name(i), K(i)))
                none = z3.ForAll([j], z3.Implies(z3.And(*rng), z3.Not(LM(name(j), K(j)))))
                env.prove("the sum of all log likelihoods plus the log prior" + tag, P.zreal(post.z) == tot + PRIOR, hy + [none])
                env.prove("finite if every log likelihood is" + tag, post.finite, hy + [none])
                env.prove("minus infinity if one log likelihood is" + tag, post.ninf, hy + rng + [LM(name(j), K(j))])
                continue
            # repeated: the inner sum is a function S(r) of the repetition
            S = [x for nm, x in p.run.nested.items() if nm in used and len(x["idx"]) == 1]
            r = env.int("r")
            if len(S) != 1:
                raise P.Unsupported("inner sum not found")
            cand = S[0]
            ix = cand["idx"][0]
            Kr = lambda i: z3.substitute(rec["at"](smt.num(i)).z, (ix, r))
            rr = [r >= 0, r < REP]
            body = z3.substitute(cand["body"], (ix, r), (cand["i"], j))
            env.prove("inner sum: over all likelihoods" + tag, z3.substitute(smt.num(cand["n"]), (ix, r)) == n, hy + rr)
            env.prove("inner sum: the log likelihood of each at its own key" + tag, body == LV(name(j), Kr(j)), hy + rr + rng)
            env.check("a fresh key in every repetition" + tag, ix.decl().name() in smt.consts_of([rec["init"].z]), "the key is the same in all repetitions")
            none = z3.ForAll([r, j], z3.Implies(z3.And(*(rr + rng)), z3.Not(LM(name(j), Kr(j)))))
            tot = env.sum(z3.If(REP >= 0, REP, 0), lambda q: cand["decl"](q) + PRIOR)
            env.prove("mean over the repetitions of the sum of all log likelihoods plus the log prior" + tag,
                      P.zreal(post.z) * z3.ToReal(REP) == tot, hy + [none])
            env.prove("finite if every log likelihood is" + tag, post.finite, hy + [none])
            env.prove("minus infinity if one log likelihood is" + tag, post.ninf, hy + rr + rng + [LM(name(j), Kr(j))])
        env.check("a path with finite prior exists", np_ > 0, "none")
    return run


def _decls(p, e, env):
    """function symbols reachable from the term through the summands of sums"""
    out, st, seen = set(), [e], set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            if nm not in out:
                out.add(nm)
                if nm in env.sums:
                    st.append(smt.num(env.sums[nm].body(z3.Int("dc!k"))))
                if nm in p.run.nested:
                    st.append(p.run.nested[nm]["body"])
        st.extend(e.children())
    return out


def _bounded(nl, rep):
    def run(env):
        for n in nl:
            for a, p in enumerate(P.explore(env, _body(n, rep), _con())):
                tag = " [%d likelihoods, %s, path %d]" % (n, rep, a)
                post = _common(env, p, tag)
                if post is None:
                    continue
                hy = list(p.hyps) + [z3.Not(PN), z3.Not(PM)]
                if smt.solve_z3(hy, 2000)[0] == "unsat":
                    continue
                keys = sorted({x for x in _fresh_keys(P.zreal(post.z))}, key=str) if n else []
                if n and len(keys) != rep:
                    raise P.Unsupported("start keys of the repetitions")
                tot, anym = z3.RealVal(0), []
                for k in keys:
                    K = k
                    for x in p.state["names"]:
                        tot = tot + LV(x, K)
                        anym.append(LM(x, K))
                        K = NK(x, K)
                env.prove("mean of the sums of all log likelihoods plus the log prior" + tag,
                          P.zreal(post.z) == tot / rep + PRIOR, hy + [z3.Not(m) for m in anym])
                env.prove("minus infinity if one log likelihood is" + tag, post.ninf, hy + [z3.Or(*anym)] if anym else hy + [z3.BoolVal(False)])
    return run


def _fresh_keys(e):
    return [c for nm, c in smt.consts_of([e]).items() if nm.startswith("start_key")]


def units():
    f = ["appletree/context.py:Context.log_posterior"]
    return [Unit("Context.log_posterior, one repetition", f, _any_likelihoods(1), fallbacks=[_bounded((0, 1, 2, 3), 1)], fallback_bounds=["at most 3 likelihoods"]),
            Unit("Context.log_posterior, repeated", f, _any_likelihoods(None),
                 fallbacks=[lambda env: [_bounded((0, 1, 2), r)(env) for r in (2, 3)]], fallback_bounds=["at most 2 likelihoods, 2 or 3 repetitions"])]


# ---------------------------------------------------------------- concrete side
def cases(rng, tier):
    while True:
        nl = rng.randint(0, 4)
        yield dict(llh=[rng.choice([rng.uniform(-50, 5), 0.0, 3.5, "-inf" if rng.random() < 0.3 else 1.0]) for _ in range(nl)], rep=rng.choice([1, 1, 2, 3, 0]),
                   val=rng.choice([0.5, 0.0, 1.0, 1.5, -2.0, 0.9, "nan" if rng.random() < 0.3 else 0.1]), b=rng.uniform(-1, 1), batch=rng.choice([1, 7, 1000]), seed=rng.randint(0, 999),
                   odd=[rng.randint(0, nl - 1), rng.randint(1, 3), rng.choice(["nan", "-inf"])] if nl and rng.random() < 0.3 else None)


def run_case(c):
    cfg = {"a": dict(prior_type="norm", prior_args=dict(mean=0.3, std=0.2), allowed_range=[0, 1], init_mean=0.5, init_std=0.1),
           "b": dict(prior_type="free", prior_args={}, allowed_range=[-1, 1], init_mean=0.0, init_std=0.1),
           "f": dict(prior_type="fixed", prior_args=dict(val=4.0), allowed_range=[0, 10], init_mean=None, init_std=None)}
    with X.Quiet():
        t = X.cls()(dict(likelihoods={}, configs={}, par_config={}), par_config=cfg)
    calls = []

    class L:
        def __init__(self, i, v):
            self.i, self.v, self.name, self.n = i, float(v), "l%d" % i, 0

        def get_log_likelihood(self, key, batch_size, parameters):
            calls.append((self.i, key, batch_size, dict(parameters)))
            self.n += 1
            return key + 1000, value(self.i, self.v, self.n)

    def value(i, v, n):
        odd = c.get("odd")
        return float(odd[2]) if odd and odd[:2] == [i, n] else v + n * 0.5
    for i, v in enumerate(c["llh"]):
        t.likelihoods["l%d" % i] = L(i, v)
    a = float(c["val"])
    given = {"a": a, "b": c["b"]}
    rg = __import__("appletree.randgen", fromlist=["x"])
    old, made = rg.get_key, []

    def gk(*args, **kw):
        made.append(len(made) * 10 ** 7 + c["seed"])
        return made[-1]
    rg.get_key = gk
    try:
        with X.Quiet():
            np.seterr(all="ignore")
            post, prior = t.log_posterior(given, c["batch"], c["rep"])
    finally:
        rg.get_key = old
    if given != {"a": a, "b": c["b"]} and not math.isnan(a):
        return "the given parameters were modified"
    out = not 0 <= a <= 1 and not math.isnan(a)
    want = -math.inf if out else -(a - 0.3) ** 2 / (2 * 0.04)
    if not (prior == want or abs(prior - want) < 1e-6 or (math.isnan(want) and not math.isfinite(prior))):
        return "log prior %r instead of %r" % (prior, want)
    if not math.isfinite(prior):
        if calls:
            return "simulated although the log prior is %r" % prior
        return None if post == -math.inf else "posterior %r with log prior %r" % (post, prior)
    reps = max(c["rep"], 1)
    n = len(c["llh"])
    if [x[0] for x in calls] != list(range(n)) * reps:
        return "likelihoods evaluated: %s for %d repetitions" % ([x[0] for x in calls], reps)
    if len(made) != reps:
        return "%d fresh keys for %d repetitions" % (len(made), reps)
    for q, (i, key, batch, pars) in enumerate(calls):
        if batch != c["batch"] or pars != {"a": a, "b": c["b"], "f": 4.0}:
            return "evaluated at %s with batch size %s" % (pars, batch)
        if key != made[q // n] + 1000 * i:
            return "likelihood %d of repetition %d got key %s" % (i, q // n, key)
    vals = [sum(value(i, float(v), r + 1) for i, v in enumerate(c["llh"])) + prior for r in range(reps)]
    w = float(np.mean(vals))
    if not (post == w or abs(post - w) < 1e-6 * (1 + abs(w)) or (math.isnan(w) and math.isnan(post))):
        return "log posterior %r instead of %r" % (post, w)
    return None
