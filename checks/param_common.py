"""Symbolic set-up for appletree.parameter.Parameter: a configuration of any size, any names."""
import numpy as np
import z3

from vc import pysym as P
from vc.harness import ContractBroken
from vc.models import Record, bind, real
from vc.util import repo_fn

TYPES = ("norm", "twohalfnorm", "uniform", "free", "fixed")
N, R, B = P.Name, z3.RealSort(), z3.BoolSort()
F = {k: z3.Function("cfg_" + k, N, R) for k in
     ("mean", "std", "mu", "sigma_pos", "sigma_neg", "lower", "upper", "init_mean", "init_std", "lo", "hi", "val")}
PTYPE = z3.Function("cfg_prior_type", N, N)
CFG = z3.Function("cfg_dom", N, B)
SP, SN = z3.Function("solved_sigma_pos", R, R, R), z3.Function("solved_sigma_neg", R, R, R)
DRAW = {k: z3.Function("draw_" + k, R, R, *([R] if k == "thn" else []), z3.IntSort(), R) for k in ("normal", "uniform", "thn")}
LOGPDF = z3.Function("two_half_normal_logpdf", R, R, R, R, R)


def num(f):
    return lambda k: P.SNum(F[f](k))


ARGS = Record({f: num(f) for f in ("mean", "std", "mu", "sigma_pos", "sigma_neg", "lower", "upper", "val")}, "prior_args")
SETTING = Record({
    "prior_type": lambda k: P.SStr(PTYPE(k)),
    "prior_args": lambda k: P.SObj(ARGS, k),
    "allowed_range": lambda k: (P.SNum(F["lo"](k)), P.SNum(F["hi"](k))),
    "init_mean": num("init_mean"), "init_std": num("init_std"),
    "unit": lambda k: P.Text(), "doc": lambda k: P.Text()}, "setting",
)


def config(it):
    """the symbolic configuration dictionary, with its requires"""
    run = it.run
    d = run.cell(P.MDict(base=P.SymBase(lambda k: CFG(k), lambda k: P.SObj(SETTING, k.z))))
    k = z3.Const("cfg!k", N)
    run.fact(z3.ForAll([k], z3.Implies(CFG(k), z3.Or(*[PTYPE(k) == run.lit(t) for t in TYPES])), patterns=[PTYPE(k)]))
    run.fact(z3.ForAll([k], F["lo"](k) <= F["hi"](k), patterns=[z3.MultiPattern(F["lo"](k), F["hi"](k))]))
    run.fact(z3.ForAll([k], F["std"](k) > 0, patterns=[F["std"](k)]))
    return d


# ---------------------------------------------------------------- contracts of what Parameter calls
def draws(log):
    return [e for e in log if e[0] == "draw"]


def noise(run):
    return run.fresh("variate", z3.IntSort())


def _draw(run, kind, *args):
    u = noise(run)
    v = P.SNum(DRAW[kind](*[real(a) for a in args], u))
    run.log.append(("draw", (kind,), {}, P.SNum(u)))
    return v


def c_normal(it, a, k):
    b = bind([("loc", 0.0), ("scale", 1.0), ("size", None)], a, k)
    if b["size"] is not None:
        raise P.Unsupported("normal with a size")
    return _draw(it.run, "normal", b["loc"], b["scale"])


def c_uniform(it, a, k):
    b = bind([("low", 0.0), ("high", 1.0), ("size", None)], a, k)
    if b["size"] is not None:
        raise P.Unsupported("uniform with a size")
    return _draw(it.run, "uniform", b["low"], b["high"])


def c_thn_rvs(it, a, k):
    b = bind([("mu", 0), ("sigma_pos", 1), ("sigma_neg", 1), ("size", None)], a, k)
    if b["size"] is not None:
        raise P.Unsupported("two half normal with a size")
    return _draw(it.run, "thn", b["mu"], b["sigma_pos"], b["sigma_neg"])


def c_thn_logpdf(it, a, k):
    b = bind(["x", ("mu", 0), ("sigma_pos", 1), ("sigma_neg", 1)], a, k)
    x = P.anum(b["x"])
    v = LOGPDF(*[real(b[n]) for n in ("x", "mu", "sigma_pos", "sigma_neg")])
    # outside of the reals the log density is minus infinity
    return P.SNum(v, x.nan, P.FALSE, P.zor(x.pinf, x.ninf))


def c_sigmas(it, a, k):
    e = bind(["errors"], a, k)["errors"]
    kind, items = it.iterate(e)
    if kind != "c" or len(items) != 2:
        raise P.Unsupported("errors of unexpected form")
    p, n = real(items[0]), real(items[1])
    it.run.fact(z3.And(SP(p, n) > 0, SN(p, n) > 0))
    return (P.SNum(SP(p, n)), P.SNum(SN(p, n)))


def contracts():
    rg = __import__("appletree.randgen", fromlist=["x"])
    out = {np.random.normal: c_normal, np.random.uniform: c_uniform, np.random.seed: lambda it, a, k: None,
           rg.TwoHalfNorm.rvs: c_thn_rvs, rg.TwoHalfNorm.logpdf: c_thn_logpdf,
           repo_fn("appletree.utils", "errors_to_two_half_norm_sigmas"): c_sigmas}
    return out


TRUSTED = ["numpy.random.normal / uniform and TwoHalfNorm.rvs: a draw with the given location and width (and its own variate)",
           "errors_to_two_half_norm_sigmas: positive widths that depend only on the errors (property C33)",
           "TwoHalfNorm.logpdf: contract, proved under C24"]


# ---------------------------------------------------------------- instances
def cls():
    return repo_fn("appletree.parameter", "Parameter")


def roles():
    """names of the attributes of Parameter by the role they play, found on a real instance"""
    cfg = {"a": dict(prior_type="fixed", prior_args={"val": 3.5}),
           "b": dict(prior_type="uniform", prior_args={"lower": 1.0, "upper": 2.0}, allowed_range=[1.0, 2.0], init_mean=1.5, init_std=0.1),
           "c": dict(prior_type="free", prior_args={}, allowed_range=[-2.0, -1.0], init_mean=-1.5, init_std=0.1)}
    p = cls()(cfg)
    out = {}
    for k, v in vars(p).items():
        if v == cfg:
            out[k] = "config"
        elif isinstance(v, dict) and set(v) == set(cfg):
            out[k] = "values"
        elif isinstance(v, (set, list, frozenset)) and set(v) == {"b", "c"}:
            out[k] = "fit"
        elif isinstance(v, (set, list, frozenset)) and set(v) == {"a"}:
            out[k] = "fixed"
        else:
            raise P.Unsupported("attribute %s of Parameter has no known role" % k)
    return out


VAL, VP, VN = z3.Function("value", N, R), z3.Function("value_pinf", N, B), z3.Function("value_ninf", N, B)


def instance(it, infinite=False):
    """an arbitrary state of a Parameter object satisfying its class invariant"""
    run = it.run
    cfg = config(it)
    k = z3.Const("inv!k", N)
    lit = run.lit("fixed")
    fit = lambda z: P.zand(CFG(z), PTYPE(z) != lit)
    fixed = lambda z: P.zand(CFG(z), PTYPE(z) == lit)
    if infinite:
        run.fact(z3.ForAll([k], z3.Not(z3.And(VP(k), VN(k))), patterns=[z3.MultiPattern(VP(k), VN(k))]))
        val = lambda z: P.SNum(VAL(z.z), P.FALSE, VP(z.z), VN(z.z))
    else:
        val = lambda z: P.SNum(VAL(z.z))
    attrs, r = {}, roles()
    for a, role in r.items():
        if role == "config":
            attrs[a] = cfg
        elif role == "values":
            attrs[a] = run.cell(P.MDict(base=P.SymBase(lambda z: CFG(z), val)))
            values = attrs[a]
        else:
            attrs[a] = run.cell(P.MSet(base=P.SymBase(fit if role == "fit" else fixed)))
            if role == "fit":
                fitset = attrs[a]
    inst = run.cell(P.Inst(cls(), attrs))
    try:
        return dict(inst=inst, cfg=cfg, values=values, fit=fitset, roles=r)
    except UnboundLocalError:
        raise P.Unsupported("Parameter does not keep its values and its fitted names")


# ---------------------------------------------------------------- concrete side
def random_config(rng, n=None, kinds=TYPES):
    n = rng.randint(1, 6) if n is None else n
    names = rng.sample(["w_er", "g2", "a", "b_rate", "z9", "_x", "Zeta", "alpha", "rate", "field", "tau", "eps_sigma"], n)
    cfg = {}
    for nm in names:
        t = rng.choice(kinds)
        c = round(rng.uniform(-5, 5), 2)
        lo, hi = c - rng.choice([0.0, 0.5, 2.0, 10.0]), c + rng.choice([0.25, 1.0, 10.0])
        s = dict(prior_type=t, prior_args={}, allowed_range=[lo, hi], init_mean=c, init_std=rng.choice([0.1, 1.0, 5.0]), unit="1", doc="")
        if t == "norm":
            s["prior_args"] = dict(mean=c + rng.choice([0, 0.3]), std=rng.choice([0.2, 1.0, 4.0]))
        elif t == "twohalfnorm":
            e = rng.choice([(0.3, 0.4), (1.0, 1.0), (2.0, 1.5), (0.11, 0.1)])
            s["prior_args"] = dict(mu=c + rng.choice([0, 0.2]), sigma_pos=e[0], sigma_neg=e[1])
        elif t == "uniform":
            w = hi - lo     # the limits of the prior need not be those of the allowed range
            s["prior_args"] = dict(lower=lo + w * rng.choice([0.0, 0.0, -0.5, 0.25]), upper=hi + w * rng.choice([0.0, 0.0, 0.5, -0.25]))
        elif t == "fixed":
            s["prior_args"] = dict(val=rng.choice([c, 0, 7, -1.5]))
            if rng.random() < 0.5:
                for k in ("allowed_range", "init_mean", "init_std"):
                    s.pop(k)
        cfg[nm] = s
    return cfg


def oracle_sigmas(ep, en):
    """widths of the two half normal, solved independently of the repository"""
    from scipy.optimize import fsolve
    from scipy.special import erf
    p = 0.31731050786291415 / 2

    def f(x):
        return [x[0] / (x[0] + x[1]) * (1 - erf(ep / x[0] / np.sqrt(2))) - p, x[1] / (x[0] + x[1]) * (1 - erf(en / x[1] / np.sqrt(2))) - p]
    return fsolve(f, [ep, en], xtol=1e-12)


def oracle_logpdf(x, mu, sp, sn):
    s = sp if x >= mu else sn
    return -(x - mu) ** 2 / 2 / s ** 2 + np.log(2 / (sp + sn) / np.sqrt(2 * np.pi))
