"""C19: the log prior is minus infinity outside of the allowed ranges and the declared sum inside."""
import math

import numpy as np
import z3

from vc import pysym as P
from vc.harness import Unit
from checks import param_common as C

ASSUMPTIONS = C.TRUSTED + ["numbers of the configuration are finite, lower limit <= upper limit, std > 0 (requires)",
                           "floating point arithmetic as real arithmetic with infinities"]
F = C.F


def _log_prior(env):
    st = {}

    def body(it):
        s = C.instance(it, infinite=True)
        s["fixed"] = it.run.lit("fixed")
        s["lits"] = {t: it.run.lit(t) for t in C.TYPES}
        it.state = s
        v = it.getattr(s["inst"], "log_prior")
        s["values_after"] = s["values"].content
        s["seq"] = it.make_seq(lambda k: P.zand(C.CFG(k), C.PTYPE(k) != s["fixed"]), "fitted")
        return v
    paths = P.explore(env, body, C.contracts())
    if not paths:
        env.fail("log_prior returns", "no path")
    for p in paths:
        env.check("no exception [path %d]" % paths.index(p), p.kind == "return", "raises %s" % (p.value,))
        if p.kind != "return":
            continue
        tag = " [path %d]" % paths.index(p)
        s, hy = p.state, p.hyps
        v = P.anum(p.value)
        n, key = s["seq"].n, lambda i: s["seq"].elem(i).z
        L = s["lits"]
        val = lambda k: P.SNum(C.VAL(k), P.FALSE, C.VP(k), C.VN(k))
        out = lambda k: P.zor(P.ncmp("<", val(k), P.SNum(F["lo"](k))), P.ncmp(">", val(k), P.SNum(F["hi"](k))))
        x = lambda k: C.VAL(k)
        term = lambda k: z3.If(C.PTYPE(k) == L["norm"], -((x(k) - F["mean"](k)) * (x(k) - F["mean"](k))) / (2 * F["std"](k) * F["std"](k)),
                        z3.If(C.PTYPE(k) == L["twohalfnorm"],
                              C.LOGPDF(x(k), F["mu"](k), C.SP(F["sigma_pos"](k), F["sigma_neg"](k)), C.SN(F["sigma_pos"](k), F["sigma_neg"](k))),
                              z3.RealVal(0)))
        total = env.sum(n, lambda i: term(key(i)))
        k0 = z3.Const("k0", P.Name)
        fitted = lambda k: z3.And(C.CFG(k), C.PTYPE(k) != s["fixed"])
        env.reachable("requires satisfiable" + tag, [f for f in hy if not z3.is_quantifier(f)])
        env.prove("never NaN nor +infinity" + tag, P.znot(P.zor(v.nan, v.pinf)), hy)
        env.prove("minus infinity if a fitted parameter is out of range" + tag, v.ninf, hy + [fitted(k0), out(k0)])
        q = z3.Const("q", P.Name)
        allin = z3.ForAll([q], z3.Implies(fitted(q), z3.Not(out(q))))
        env.prove("not minus infinity if all fitted parameters are in range (bounds included)" + tag, P.znot(v.ninf), hy + [allin])
        env.prove("in range: the sum of the declared terms of the fitted parameters" + tag, P.zreal(v.z) == total, hy + [allin])
        env.prove("the values are not changed" + tag, z3.BoolVal(True)) if s["values"].content is s["values_after"] and not s["values"].content[1] else \
            env.fail("the values are not changed" + tag, "the value store is written")
    env.trusted |= set(C.TRUSTED)


def units():
    p = "appletree/parameter.py:Parameter."
    return [Unit("log_prior", [p + "log_prior"], _log_prior)]


# ---------------------------------------------------------------- concrete side
def cases(rng, tier):
    while True:
        cfg = C.random_config(rng)
        vals = {}
        for nm, s in cfg.items():
            if s["prior_type"] == "fixed":
                if rng.random() < 0.3:
                    vals[nm] = rng.choice([1e9, -1e9, 0.0])
                continue
            lo, hi = s["allowed_range"]
            mode = rng.random()
            vals[nm] = (lo if mode < 0.1 else hi if mode < 0.2 else lo - 1e-6 if mode < 0.23 else hi + 1e-6 if mode < 0.26
                        else rng.choice([float("inf"), float("-inf")]) if mode < 0.28 else lo + rng.random() * (hi - lo))
        yield dict(config=cfg, values=vals, order=rng.randint(0, 1))


def run_case(case):
    cfg, vals = case["config"], case["values"]
    p = C.cls()({k: dict(v) for k, v in cfg.items()})
    if vals:
        ks = sorted(vals, reverse=bool(case["order"]))
        p.set_parameter(ks, [vals[k] for k in ks])
    before = dict(p.get_all_parameter())
    got = float(p.log_prior)
    want, inside = 0.0, True
    for k, s in cfg.items():
        if s["prior_type"] == "fixed":
            continue
        x, a = vals[k], s["prior_args"]
        if not s["allowed_range"][0] <= x <= s["allowed_range"][1]:
            inside = False
        elif s["prior_type"] == "norm":
            want += -(x - a["mean"]) ** 2 / 2 / a["std"] ** 2
        elif s["prior_type"] == "twohalfnorm":
            want += C.oracle_logpdf(x, a["mu"], *C.oracle_sigmas(a["sigma_pos"], a["sigma_neg"]))
    if not inside:
        if got != -math.inf:
            return "log prior %r although a fitted parameter is out of range" % got
    elif not abs(got - want) <= 1e-6 * (1 + abs(want)):
        return "log prior %r instead of %r" % (got, want)
    if dict(p.get_all_parameter()) != before:
        return "evaluating the log prior changed the parameters"
    return None
