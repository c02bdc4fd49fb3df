"""C20: sampled parameters respect fixed values and allowed ranges."""
import copy
import math

import numpy as np
import z3

from vc import pysym as P
from vc.harness import Unit
from checks import param_common as C

ASSUMPTIONS = C.TRUSTED + ["numbers of the configuration are finite, lower limit <= upper limit (requires)",
                           "a prior type is one of norm, twohalfnorm, uniform, free, fixed (requires)"]
F = C.F


def _clip(x, lo, hi):
    return z3.If(x < lo, lo, z3.If(x > hi, hi, x))


def _posts(env, p, tag, prior):
    """the value of an arbitrary configured name k0 after sampling"""
    s, hy = p.state, p.hyps
    k0, L = s["k0"], s["lits"]
    v = P.anum(s["v"])
    env.reachable("path reachable" + tag, [f for f in hy if not z3.is_quantifier(f)])
    x = P.zreal(v.z)
    t = C.PTYPE(k0)
    env.prove("value is finite" + tag, v.finite, hy)
    env.prove("fixed: the configured value" + tag, x == F["val"](k0), hy + [t == L["fixed"]])
    env.prove("not fixed: inside the allowed range" + tag, z3.And(x >= F["lo"](k0), x <= F["hi"](k0)), hy + [t != L["fixed"]])
    us = [(e[1][0], P.anum(e[3]).z) for e in C.draws(p.run.log)]
    it_ix = s["index"]

    def drawn(kind, *args):
        alts = []
        for k, u in us:
            if k == kind:
                ix = [a for a in u.children()]
                u0 = z3.substitute(u, *[(a, it_ix) for a in ix if z3.is_const(a)]) if ix else u
                alts.append(x == _clip(C.DRAW[kind](*args, u0), F["lo"](k0), F["hi"](k0)))
        return z3.Or(*alts) if alts else z3.BoolVal(False)
    init = ("normal", F["init_mean"](k0), F["init_std"](k0))
    cases = {"norm": ("normal", F["mean"](k0), F["std"](k0)) if prior else init,
             "twohalfnorm": ("thn", F["mu"](k0), C.SP(F["sigma_pos"](k0), F["sigma_neg"](k0)), C.SN(F["sigma_pos"](k0), F["sigma_neg"](k0))) if prior else init,
             "uniform": ("uniform", F["lower"](k0), F["upper"](k0)) if prior else init,
             "free": init}
    for ty, d in cases.items():
        env.prove("%s: a draw with the declared location and width, clipped to the range%s" % (ty, tag), drawn(*d), hy + [t == L[ty]])


def _common(it, s):
    run = it.run
    s["lits"] = {t: run.lit(t) for t in C.TYPES}
    s["k0"] = z3.Const("k0", P.Name)
    run.fact(C.CFG(s["k0"]))


def _after(it, s):
    run, k0 = it.run, P.SStr(s["k0"])
    inst = s["inst"]
    vals = it.call(it.getattr(inst, "get_all_parameter"))
    s["has"] = it.zb(it.contains(k0, vals))
    s["v"] = it.getitem(vals, k0)
    s["other"] = z3.Const("other", P.Name)
    s["has_other"] = it.zb(it.contains(P.SStr(s["other"]), vals))
    # position of k0 in the enumeration the loop used
    s["index"] = it.run.fresh("pos", z3.IntSort())
    for l in run.loops:
        ix = l["seq"].index
        if ix is not None:
            s["index"] = ix(k0)


def _sample(name, prior):
    def run(env):
        def body(it):
            s = C.instance(it)
            it.state = s
            _common(it, s)
            s["cfg0"], s["fit0"] = s["cfg"].content, s["fit"].content
            it.call(it.getattr(s["inst"], name))
            _after(it, s)
        paths = P.explore(env, body, C.contracts())
        for j, p in enumerate(paths):
            tag = " [path %d]" % j
            env.check("no exception" + tag, p.kind == "return", "raises %s" % (p.value,))
            if p.kind != "return":
                continue
            s = p.state
            env.prove("every configured parameter has a value" + tag, s["has"], p.hyps)
            env.prove("no other parameter appears" + tag, s["has_other"] == C.CFG(s["other"]), p.hyps)
            _posts(env, p, tag, prior)
            env.check("configuration and fitted names unchanged" + tag, s["cfg"].content is s["cfg0"] and s["fit"].content is s["fit0"]
                      or _same_store(s), "written")
        if not paths:
            env.fail("returns", "no path")
        env.trusted |= set(C.TRUSTED)
    return run


def _same_store(s):
    return not s["cfg"].content[1] and not s["fit"].content[1]


def _init(env):
    def body(it):
        cfg = C.config(it)
        s = dict(cfg=cfg, cfg0=cfg.content)
        it.state = s
        _common(it, s)
        s["inst"] = it.call(C.cls(), [cfg])
        _after(it, s)
        fit = it.getattr(s["inst"], "parameter_fit")
        k, items = it.iterate(fit)
        s["fit"] = items
        s["fit_has"] = it.zb(it.contains(P.SStr(s["other"]), fit))
    paths = P.explore(env, body, C.contracts())
    for j, p in enumerate(paths):
        tag = " [path %d]" % j
        env.check("no exception" + tag, p.kind == "return", "raises %s" % (p.value,))
        if p.kind != "return":
            continue
        s = p.state
        env.prove("every configured parameter has a value" + tag, s["has"], p.hyps)
        env.prove("no other parameter appears" + tag, s["has_other"] == C.CFG(s["other"]), p.hyps)
        _posts(env, p, tag, True)
        o = s["other"]
        env.prove("fitted parameters are exactly the configured parameters that are not fixed" + tag,
                  s["fit_has"] == z3.And(C.CFG(o), C.PTYPE(o) != s["lits"]["fixed"]), p.hyps)
        a, b = env.int("a"), env.int("b")
        hy = p.hyps + [a >= 0, a < b, b < s["fit"].n]
        env.prove("fitted parameters are in sorted order" + tag, P._lt(s["fit"].elem(a).z, s["fit"].elem(b).z), hy)
        env.check("the caller's configuration is not modified" + tag, s["cfg"].content is s["cfg0"], "the dictionary passed by the caller is written")
    if not paths:
        env.fail("returns", "no path")
    env.trusted |= set(C.TRUSTED)


def units():
    p = "appletree/parameter.py:Parameter."
    return [Unit("Parameter.__init__", [p + "__init__", p + "init_parameter", p + "sample_prior", p + "parameter_fit", p + "get_all_parameter"], _init),
            Unit("Parameter.sample_prior", [p + "sample_prior"], _sample("sample_prior", True)),
            Unit("Parameter.sample_init", [p + "sample_init"], _sample("sample_init", False))]


# ---------------------------------------------------------------- concrete side
def cases(rng, tier):
    while True:
        cfg = C.random_config(rng)
        dist = rng.random() < 0.05
        if dist:
            for s in cfg.values():
                if s["prior_type"] != "fixed":
                    s["allowed_range"] = [-1e3, 1e3]
        yield dict(config=cfg, op=rng.choice(["init", "sample_prior", "sample_init"]), dist=dist, seed=rng.randint(0, 10 ** 6), reps=3)


def _expected(s, op):
    """(location, standard deviation) of the distribution before clipping"""
    a, t = s["prior_args"], s["prior_type"]
    if op == "sample_init" or t == "free":
        return s["init_mean"], s["init_std"]
    if t == "norm":
        return a["mean"], a["std"]
    if t == "uniform":
        return (a["lower"] + a["upper"]) / 2, (a["upper"] - a["lower"]) / math.sqrt(12)
    sp, sn = C.oracle_sigmas(a["sigma_pos"], a["sigma_neg"])
    m = math.sqrt(2 / math.pi) * (sp - sn)
    var = (1 - 2 / math.pi) * (sp - sn) ** 2 + sp * sn
    return a["mu"] + m, math.sqrt(var)


def run_case(case):
    np.random.seed(case["seed"])
    cfg, op = case["config"], case["op"]
    mine = copy.deepcopy(cfg)
    p = C.cls()(mine)
    draws = {k: [] for k in cfg}
    for r in range(150 if case["dist"] else case["reps"]):
        if op == "init" and not case["dist"]:
            p = C.cls()(mine)
        elif op == "sample_init":
            p.sample_init()
        else:
            p.sample_prior()
        vals = p.get_all_parameter()
        if set(vals) != set(cfg):
            return "parameters %s instead of %s" % (sorted(vals), sorted(cfg))
        for k, s in cfg.items():
            v = float(vals[k])
            if s["prior_type"] == "fixed":
                if v != s["prior_args"]["val"]:
                    return "fixed parameter %s is %r instead of %r" % (k, v, s["prior_args"]["val"])
            elif not s["allowed_range"][0] <= v <= s["allowed_range"][1]:
                return "parameter %s = %r outside of %s" % (k, v, s["allowed_range"])
            draws[k].append(v)
    fit = sorted(k for k, s in cfg.items() if s["prior_type"] != "fixed")
    if list(p.parameter_fit) != fit:
        return "fitted parameters %s instead of %s" % (p.parameter_fit, fit)
    if mine != cfg:
        return "the caller's configuration was modified"
    if case["dist"]:
        for k, s in cfg.items():
            if s["prior_type"] == "fixed":
                continue
            m, sd = _expected(s, op if op == "sample_init" else "prior")
            d = np.array(draws[k])
            n = len(d)
            if sd == 0 or (op == "sample_init" and s["prior_type"] == "uniform"):
                continue
            if abs(d.mean() - m) > 7 * sd / math.sqrt(n):
                return "%s (%s, %s): mean %g of %d draws, declared %g +- %g" % (k, s["prior_type"], op, d.mean(), n, m, sd)
            if not 0.6 < d.std() / sd < 1.5:
                return "%s (%s, %s): width %g of %d draws, declared %g" % (k, s["prior_type"], op, d.std(), n, sd)
    return None
