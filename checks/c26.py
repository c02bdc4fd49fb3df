"""C26: post-fit parameters come from the chain and keep fixed parameters."""
import os
import shutil
import tempfile

import emcee
import numpy as np
import z3

from vc import pysym as P
from vc import smt
from vc.harness import Unit
from vc.models import bind, real
from checks import context_common as X
from checks.c25 import par

N, R, B, I, OPQ = X.N, X.R, X.B, X.I, X.OPQ
ASSUMPTIONS = ["emcee: get_log_prob/get_chain(flat=True) return the log probabilities and the samples in the same order; the chain has at least one sample",
               "emcee: ndarray_to_list_of_dicts names the entries of a sample by the sampler's parameter_names; these are the fitted parameters in the sampler's order",
               "numpy: argmax is the index of a largest entry, randint(n) an index below n, median(axis=0) the per-column median (its value is abstract)"]
VER = z3.IntSort()
NS = z3.Function("n_samples", I, I)
LOGP = z3.Function("logp", I, I, R)
CH = z3.Function("chain", I, I, I, R)
MED = z3.Function("median_of_parameter", I, I, R)
FIT, POS = z3.Function("fitted", N, B), z3.Function("position_in_sample", N, I)
PD, PV = z3.Function("current_dom", N, B), z3.Function("current_val", N, R)
ND = z3.Int("n_fitted")


class Row:
    """one sample: an array of parameter values"""

    def __init__(self, f, label):
        self.f, self.label = f, label


class Chain:
    """the flat chain of a given version of the sampler"""

    def __init__(self, ver):
        self.ver = ver

    def is_none(self, it, o):
        return False

    def isinstance(self, it, o, c):
        return c is np.ndarray

    def length(self, it, o):
        return P.SNum(NS(z3.IntVal(self.ver)))

    def deepcopy(self, it, o):
        return o

    def getitem(self, it, o, k):
        if isinstance(k, tuple) and len(k) == 2 and k[1] == slice(None, None, None):
            k = k[0]
        if isinstance(k, (int, P.SNum)):
            z = P.anum(k).z
            n = NS(z3.IntVal(self.ver))
            z = z3.If(z < 0, z + n, z)
            if not it.run.truth(z3.And(z >= 0, z < n)):
                raise P.PyRaise(P.Exc(IndexError, ("index",)))
            r = P.SArr(ND, lambda d: P.SNum(CH(self.ver, z, smt.num(d))))
            r.row = (self.ver, "sample", z)
            return r
        raise P.Unsupported("chain[%r]" % (k,))

    def setitem(self, it, o, k, v):
        it.run.log.append(("chain written", (), {}, None))

    def getattr(self, it, o, name):
        if name == "shape":
            return (P.SNum(NS(z3.IntVal(self.ver))), P.SNum(ND))
        if name in ("sort", "fill", "resize", "itemset"):
            it.run.log.append(("chain written", (), {}, None))
            return P.Contract(lambda it, a, k: None, name)
        return P._MISSING


class Names:
    """parameter_names of the sampler: fitted name -> position"""

    def is_none(self, it, o):
        return False


NAMES = Names()


class Sampler:
    def __init__(self, s):
        self.s = s

    def is_none(self, it, o):
        return False

    def isinstance(self, it, o, c):
        return c is emcee.EnsembleSampler

    def getattr(self, it, o, name):
        s = self.s
        v = s["ver"]
        if name == "parameter_names":
            return s["names"]
        if name in ("get_log_prob", "get_chain"):
            def f(it, a, k):
                b = bind([("flat", False), ("thin", 1), ("discard", 0)], a, k)
                if b["thin"] != 1 or b["discard"] != 0:
                    raise P.Unsupported("thinned chain")
                if not b["flat"]:
                    s["obl"].append("the chain is not flattened")
                    return P.SObj(_Shape(s), z3.Const("chain3", OPQ))
                if name == "get_chain":
                    return P.SObj(Chain(v), z3.Const("flat_chain", OPQ))
                r = P.SArr(NS(z3.IntVal(v)), lambda j: P.SNum(LOGP(v, smt.num(j))))
                return r
            return P.Contract(f, name)
        if name in ("flatchain", "flatlnprobability"):
            return P.SObj(Chain(v), z3.Const("flat_chain", OPQ)) if name == "flatchain" else \
                P.SArr(NS(z3.IntVal(v)), lambda j: P.SNum(LOGP(v, smt.num(j))))
        if name == "run_mcmc":
            def f(it, a, k):
                s["ver"] += 1
                return P.SObj(NAMES, z3.Const("state", OPQ))
            return P.Contract(f, name)
        if name == "backend":
            return P.SObj(NAMES, z3.Const("backend", OPQ))
        return P._MISSING


class _Shape:
    """the unflattened chain, of which only the shape is read"""

    def __init__(self, s):
        self.s = s

    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        if name == "shape":
            return (P.SNum(z3.Int("n_steps")), P.SNum(z3.Int("n_walkers")), P.SNum(ND))
        return P._MISSING

    def getitem(self, it, o, k):
        return P.SObj(self, z3.Const("positions", OPQ))


class Par:
    def __init__(self, s):
        self.s = s

    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        s = self.s
        if name == "get_all_parameter":
            return P.Contract(lambda it, a, k: s["store"], name)
        if name == "parameter_fit":
            return P.SObj(NAMES, z3.Const("fitted_names", OPQ))
        if name == "parameter_fit_array":
            return P.SArr(ND, lambda j: P.SNum(z3.Real("fit_value")))
        return P._MISSING

    def setattr(self, it, o, name, v):
        it.run.log.append(("store written", (), {}, None))


def _argmax(it, a, k):
    b = bind(["a", ("axis", None)], a, k)
    x = b["a"]
    if not isinstance(x, P.SArr) or b["axis"] is not None:
        raise P.Unsupported("argmax of %r" % (x,))
    n = smt.num(x.n)
    if not it.run.truth(n > 0):
        raise P.PyRaise(P.Exc(ValueError, ("empty",)))
    t = it.run.fresh("argmax", I)
    j = z3.Int(it.run.env.name("j"))
    it.run.fact(z3.And(t >= 0, t < n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), real(x.elem(j)) <= real(x.elem(t))))))
    return P.SNum(t)


def _randint(it, a, k):
    b = bind(["low", ("high", None), ("size", None)], a, k)
    if b["size"] is not None:
        raise P.Unsupported("randint with a size")
    lo, hi = (0, b["low"]) if b["high"] is None else (b["low"], b["high"])
    lo, hi = P.anum(lo).z, P.anum(hi).z
    if not it.run.truth(smt.num(lo) < smt.num(hi)):
        raise P.PyRaise(P.Exc(ValueError, ("low >= high",)))
    t = it.run.fresh("randint", I)
    it.run.fact(z3.And(t >= lo, t < hi))
    return P.SNum(t)


def _median(it, a, k):
    b = bind(["a", ("axis", None)], a, k)
    x = b["a"]
    if isinstance(x, P.SObj) and isinstance(x.model, Chain) and b["axis"] == 0:
        v = x.model.ver
        r = P.SArr(ND, lambda d: P.SNum(MED(v, smt.num(d))))
        r.row = (v, "median", None)
        return r
    raise P.Unsupported("median")


def _to_dicts(it, a, k):
    b = bind(["x", "key_map"], a, k)
    s = it.state
    km = b["key_map"]
    if km is not s["names"]:
        s["obl"].append("samples are named by something else than the sampler's parameter names")
    x = b["x"]
    rows = x.concrete() if isinstance(x, P.MList) else None
    if rows is None or not all(isinstance(r, P.SArr) for r in rows):
        raise P.Unsupported("samples to dictionaries")
    out = [it.run.cell(P.MDict(base=P.SymBase(lambda q: FIT(q), lambda q, r=r: r.elem(POS(q.z))))) for r in rows]
    return it.run.cell(P.MList(out))


def _con():
    con = dict(X.contracts())
    con[np.argmax] = _argmax
    con[np.random.randint] = _randint
    con[np.median] = _median
    con[emcee.ensemble.ndarray_to_list_of_dicts] = _to_dicts

    def sampler(it, a, k):
        s = it.state
        s["made"] += 1
        pn = k.get("parameter_names")
        if not (isinstance(pn, P.SObj) and str(pn.z) == "fitted_names"):
            s["obl"].append("the sampler's names are not the fitted parameters")
        return P.SObj(s["sampler"], z3.Const("sampler", OPQ))
    con[emcee.EnsembleSampler] = sampler
    return con


def _inst(it):
    run = it.run
    s = dict(ver=0, obl=[], made=0, names=P.SObj(NAMES, z3.Const("names", OPQ)), q=z3.Const("q", N))
    it.state = s
    q = z3.Const("k", N)
    run.fact(z3.ForAll([q], z3.Implies(FIT(q), z3.And(POS(q) >= 0, POS(q) < ND)), patterns=[POS(q)]))
    v = z3.Int("v")
    run.fact(z3.ForAll([v], NS(v) > 0, patterns=[NS(v)]))
    s["store"] = run.cell(P.MDict(base=P.SymBase(lambda k: PD(k), lambda k: P.SNum(PV(k.z)))))
    s["store0"] = s["store"].content
    s["sampler"] = Sampler(s)
    s["inst"] = X.instance(it, run.cell(P.MDict()), P.SObj(Par(s), z3.Const("par_manager", OPQ)),
                           dict(sampler=P.SObj(s["sampler"], z3.Const("sampler", OPQ)), backend_h5=None))
    s["inst"].content = {k: v for k, v in s["inst"].content.items()}
    return s


def _read(it, s, r):
    q = P.SStr(s["q"])
    s["has"] = it.zb(it.contains(q, r))
    s["alias"] = r is s["store"]
    if it.run.truth(s["has"]):
        s["v"] = it.getitem(r, q)


def _judge(env, p, tag, which):
    s = p.state
    if p.kind == "raise":
        env.prove("no exception" + tag, z3.BoolVal(False), p.hyps)
        return
    q, v = s["q"], s["ver"]
    env.check("samples and names belong together" + tag, not s["obl"], "; ".join(s["obl"]))
    env.check("the parameter store is not modified" + tag, s["store"].content == s["store0"] and not s["alias"] and not p.run.log,
              "the store or the chain is written or handed out")
    env.prove("all current and all fitted parameters are returned, no others" + tag, s["has"] == z3.Or(PD(q), FIT(q)), p.hyps)
    if "v" not in s:
        return
    x = P.anum(s["v"])
    env.prove("a parameter that is not fitted has its current value" + tag, P.zreal(x.z) == PV(q), p.hyps + [z3.Not(FIT(q))])
    f = p.hyps + [FIT(q)]
    if which == "median":
        env.prove("a fitted parameter has its median" + tag, P.zreal(x.z) == MED(v, POS(q)), f)
        return
    # the sample is identified by a second fitted name that is not constrained
    ts = [c for nm, c in smt.consts_of([P.zreal(x.z)]).items() if nm.startswith("argmax" if which == "mpe" else "randint")]
    if not ts:
        env.prove("a fitted parameter has the value of the selected sample" + tag, z3.BoolVal(False), f)
        return
    t = ts[0]
    env.prove("the selected sample is in the chain" + tag, z3.And(t >= 0, t < NS(v)), f)
    env.prove("a fitted parameter has its value in the selected sample" + tag, P.zreal(x.z) == CH(v, t, POS(q)), f)
    if which == "mpe":
        j = env.int("j")
        env.prove("no sample has a higher log probability" + tag, LOGP(v, j) <= LOGP(v, t), f + [j >= 0, j < NS(v)])


def _post(which):
    def run(env):
        def body(it):
            s = _inst(it)
            _read(it, s, it.call(it.getattr(s["inst"], "get_post_parameters"), [which]))
        for a, p in enumerate(P.explore(env, body, _con())):
            _judge(env, p, " [path %d]" % a, which)
    return run


def _default(env):
    def body(it):
        s = _inst(it)
        _read(it, s, it.call(it.getattr(s["inst"], "get_post_parameters"), []))
    for a, p in enumerate(P.explore(env, body, _con())):
        _judge(env, p, " [path %d]" % a, "mpe")


def _other(env):
    def body(it):
        s = _inst(it)
        w = z3.Const("which", N)
        for l in ("mpe", "random", "median"):
            it.run.fact(w != it.run.lit(l))
        return it.call(it.getattr(s["inst"], "get_post_parameters"), [P.SStr(w)])
    for a, p in enumerate(P.explore(env, body, _con())):
        env.check("any other request is an error [path %d]" % a, p.kind == "raise", "%r is returned" % (p.value,))
        env.check("nothing is modified [path %d]" % a, p.state["store"].content == p.state["store0"] and not p.run.log, "written")


def _history(which):
    """an estimate, more sampling, and another estimate"""
    def run(env):
        def body(it):
            s = _inst(it)
            it.call(it.getattr(s["inst"], "get_post_parameters"), [which])
            it.call(it.getattr(s["inst"], "continue_fitting"), [])
            s["again"] = s["ver"]
            _read(it, s, it.call(it.getattr(s["inst"], "get_post_parameters"), [which]))
        for a, p in enumerate(P.explore(env, body, _con())):
            tag = " [path %d]" % a
            if p.kind != "raise":
                env.check("the fit is continued" + tag, p.state.get("again") == 1, "version %s" % p.state.get("again"))
            p.state["obl"] = [o for o in p.state["obl"] if "flattened" not in o]
            _judge(env, p, tag, which)
    return run


def units():
    f = "appletree/context.py:Context."
    us = [Unit("get_post_parameters(%s)" % w, [f + "get_post_parameters"], _post(w)) for w in ("mpe", "random", "median")]
    us += [Unit("get_post_parameters()", [f + "get_post_parameters"], _default), Unit("get_post_parameters(other)", [f + "get_post_parameters"], _other)]
    us += [Unit("estimate, continue_fitting, estimate (%s)" % w, [f + "get_post_parameters", f + "continue_fitting", f + "pre_fitting", f + "_set_backend"], _history(w))
           for w in ("mpe", "median", "random")]
    return us


# ---------------------------------------------------------------- concrete side
def cases(rng, tier):
    k = 0
    while True:
        k += 1
        nf = rng.randint(1, 4)
        names = ["p%d" % i for i in range(6)]
        rng.shuffle(names)
        yield dict(names=names[:nf], fixed=names[nf:], real=k % 25 == 1, steps=rng.randint(1, 6), walkers=2 * nf + 2 * rng.randint(1, 3),
                   ops=[rng.choice(["mpe", "median", "random", "default", "other"]) for _ in range(3)], seed=rng.randint(0, 10 ** 6), ties=rng.random() < 0.3)


class Fake:
    """a sampler with a given chain"""

    def __init__(self, names, chain, logp):
        self.parameter_names = {n: i for i, n in enumerate(names)}
        self.chain, self.logp = chain, logp
        self.iteration = chain.shape[0]

    def get_chain(self, flat=False, **k):
        c = self.chain
        return c.reshape(-1, c.shape[-1]) if flat else c

    def get_log_prob(self, flat=False, **k):
        return self.logp.reshape(-1) if flat else self.logp


class Quad:
    name = "q"

    def get_log_likelihood(self, key, batch_size, parameters):
        return key, -sum((float(v) - 0.7) ** 2 for v in parameters.values())


def run_case(c):
    cfg = {n: par(0.5 + i) for i, n in enumerate(c["names"])}
    cfg.update({n: par(3.0 + i, fixed=True) for i, n in enumerate(c["fixed"])})
    np.random.seed(c["seed"])
    nr = np.random.default_rng(c["seed"])
    inst = dict(likelihoods={}, configs={}, par_config={})
    d = None
    if c["real"]:
        d = tempfile.mkdtemp(prefix="vc_fit_")
        inst["backend_h5"] = os.path.join(d, "fit.h5")
    try:
        with X.Quiet():
            t = X.cls()(inst, par_config=cfg)
        return _run(c, cfg, t, nr)
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)


def _run(c, cfg, t, nr):
    t.needed_parameters = set(cfg)
    t.likelihoods["q"] = Quad()
    fit = sorted(c["names"])

    def check():
        ch, lp = np.array(t.sampler.get_chain(flat=True)), np.array(t.sampler.get_log_prob(flat=True))
        for w in c["ops"]:
            store = dict(t.par_manager.get_all_parameter())
            if w == "other":
                try:
                    t.get_post_parameters("mean")
                except Exception:
                    continue
                return "an unknown estimate is returned"
            r = t.get_post_parameters() if w == "default" else t.get_post_parameters(w)
            if set(r) != set(cfg):
                return "parameters %s" % sorted(r)
            for n in c["fixed"]:
                if r[n] != store[n]:
                    return "fixed parameter %s is %r instead of %r" % (n, r[n], store[n])
            row = np.array([r[n] for n in fit])
            if w in ("mpe", "default"):
                if not any(np.array_equal(row, x) for x in ch[lp == lp.max()]):
                    return "the estimate %s is not a sample with the highest log probability %s" % (row, ch[lp.argmax()])
            elif w == "median":
                if not np.allclose(row, np.median(ch, axis=0), rtol=1e-12, atol=0):
                    return "the estimate %s is not the median" % row
            elif not any(np.array_equal(row, x) for x in ch):
                return "the estimate %s is no sample of the chain" % row
            r[fit[0]] = 1e9
            if t.par_manager.get_all_parameter() != store:
                return "the parameter store was modified"
            if not np.array_equal(ch, t.sampler.get_chain(flat=True)) or not np.array_equal(lp, t.sampler.get_log_prob(flat=True)):
                return "the chain was modified"
        return None
    if c["real"]:
        import contextlib
        import io
        with X.Quiet(), contextlib.redirect_stderr(io.StringIO()):
            t.fitting(nwalkers=c["walkers"], iteration=c["steps"], batch_size=10)
            r = check()
            if r:
                return r
            t.continue_fitting(iteration=c["steps"] + 3, batch_size=10)
            r = check()
        return r and "after continue_fitting: " + r
    ch = nr.normal(size=(c["steps"], c["walkers"], len(fit)))
    lp = nr.normal(size=ch.shape[:2])
    if c["ties"]:
        lp = np.round(lp)
        lp[0, 0] = -np.inf
    t.sampler = Fake(fit, ch, lp)
    return check()
