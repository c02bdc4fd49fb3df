"""C33: the solved two-half-normal widths reproduce the quoted errors."""
import math

import numpy as np
import z3

from vc import nd
from vc import pysym as P
from vc.harness import Unit
from vc.models import bind
from vc.util import repo_fn

R, B = z3.RealSort(), z3.BoolSort()
ASSUMPTIONS = ["scipy.optimize.root: if it reports success, the equations it was given hold at the point it returns (assumed contract; the convergence criterion of the real solver is a tolerance)",
               "erf is odd, increasing, zero at zero and strictly between -1 and 1; chi2.cdf(k*k, 1) = erf(k/sqrt(2)) (assumed contracts)",
               "both quoted errors are positive and finite (requires)", "floating point arithmetic as real arithmetic with infinities"]
ERF, SQRT, CHI = z3.Function("erf", R, R), z3.Function("square_root", R, R), z3.Function("chi2_cdf", R, R, R)
EP, EN, XP, XN = z3.Reals("error_above error_below solved_first solved_second")
OK = z3.Bool("solver_converges")


def ut():
    return __import__("appletree.utils", fromlist=["x"])


def one(it, f, v):
    """elementwise on a number or an array"""
    return nd.elementwise(it, f, v) if isinstance(v, P.SObj) else f(v)


def erf_facts(run, z):
    e = ERF(z)
    run.fact(z3.And(e > -1, e < 1, z3.Implies(z > 0, e > 0), z3.Implies(z < 0, e < 0), z3.Implies(z == 0, e == 0), ERF(-z) == -e))


def c_erf(it, a, k):
    def f(v):
        v = P.anum(v)
        z = P.zreal(v.z)
        erf_facts(it.run, z)
        it.state["erf"].append(z)
        return P.SNum(z3.If(v.pinf, z3.RealVal(1), z3.If(v.ninf, z3.RealVal(-1), ERF(z))), v.nan)
    return one(it, f, a[0])


def c_erfc(it, a, k):
    v = c_erf(it, a, k)
    return one(it, lambda x: P.nbin("-", 1, x), v)


def c_sqrt(it, a, k):
    v = P.anum(a[0])
    z = P.zreal(v.z)
    if not v.plain or not it.run.entails(z >= 0):
        raise P.Unsupported("square root of %s" % z)
    s = SQRT(z)
    it.run.fact(z3.And(s >= 0, s * s == z))
    return P.SNum(s)


class Dist:
    """scipy.stats.chi2 / norm"""

    def __init__(self, kind):
        self.kind = kind

    def getattr(self, it, o, name):
        if name not in ("cdf", "sf"):
            return P._MISSING
        return P.Contract(lambda it, a, k: self.cdf(it, name, a, k), name)

    def cdf(self, it, name, a, k):
        root2 = c_sqrt(it, [2], {})
        if self.kind == "chi2":
            b = bind(["x", "df"], a, k)
            if not isinstance(b["x"], (int, float)) or b["df"] != 1 or b["x"] < 0 or math.sqrt(b["x"]) != int(math.sqrt(b["x"])):
                raise P.Unsupported("chi2 with %r" % (b,))
            p = c_erf(it, [P.nbin("/", int(math.sqrt(b["x"])), root2)], {})
        else:
            b = bind(["x"], a, k)
            p = P.nbin("/", P.nbin("+", 1, c_erf(it, [P.nbin("/", b["x"], root2)], {})), 2)
        return p if name == "cdf" else P.nbin("-", 1, p)


class Solution:
    """what scipy.optimize.root returns"""

    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        if name == "success":
            return P.SBool(OK)
        if name == "x":
            return nd.lift([P.SNum(XP), P.SNum(XN)], it)
        return P._MISSING

    def getitem(self, it, o, key):
        return self.getattr(it, o, key)


def c_root(it, a, k):
    b = bind(["fun", "x0", ("args", ()), ("method", "hybr"), ("jac", None), ("tol", None), ("callback", None), ("options", None)], a, k)
    if b["callback"] is not None or b["jac"] not in (None, False) or b["tol"] is not None or b["options"] is not None:
        raise P.Unsupported("root with %r" % ({x: b[x] for x in ("jac", "tol", "callback", "options")},))
    x0 = it.iterate(b["x0"])
    if x0[0] != "c" or len(x0[1]) != 2:
        raise P.Unsupported("system of another size")
    args = b["args"]
    if not isinstance(args, tuple):
        args = (args,)
    sol = P.SObj(Solution(), None)
    kind, eq = it.iterate(it.call(b["fun"], [it.getattr(sol, "x")] + list(args), {}))
    if kind != "c":
        raise P.Unsupported("system of symbolic size")
    it.state["equations"] = len(eq)
    for e in eq:
        e = P.anum(e)
        it.run.fact(z3.Implies(OK, z3.And(e.finite, P.zreal(e.z) == 0)))
    return sol


def contracts():
    from scipy import special, stats, optimize
    m = {special.erf: c_erf, special.erfc: c_erfc, optimize.root: c_root, np.sqrt: c_sqrt, math.sqrt: c_sqrt, math.erf: c_erf, math.erfc: c_erfc}
    full = nd.contracts()
    full.update(m)
    m = full
    m[("object", id(stats.chi2))] = P.SObj(Dist("chi2"), None)
    m[("object", id(stats.norm))] = P.SObj(Dist("norm"), None)
    return m


def _solve(form):
    def run(env):
        def body(it):
            it.state = dict(erf=[])
            it.run.fact(z3.And(EP > 0, EN > 0))
            e = [P.SNum(EP), P.SNum(EN)]
            e = tuple(e) if form == "tuple" else it.run.cell(P.MList(e))
            it.state["calls"] = []
            r = it.call(ut().errors_to_two_half_norm_sigmas, [e], {})
            kind, items = it.iterate(r)
            it.state["n"] = (kind, len(items))
            it.state["x"] = [P.anum(v) for v in items]
        n = 0
        for p in P.explore(env, body, contracts()):
            tag = " [%s, path %d]" % (form, n)
            n += 1
            hy = p.hyps + list(p.run.facts)
            if p.kind == "raise":
                env.prove("refused only if the solver does not converge" + tag, z3.Not(OK), hy)
                continue
            env.check("two widths" + tag, p.state["n"] == ("c", 2), repr(p.state["n"]))
            if p.state["n"] != ("c", 2):
                continue
            env.reachable("a solution exists" + tag, [f for f in hy if not z3.is_quantifier(f)])
            env.prove("the solver converged" + tag, OK, hy)
            sp, sn = p.state["x"]
            env.prove("the widths are numbers" + tag, z3.And(sp.finite, sn.finite), hy)
            sp, sn = P.zreal(sp.z), P.zreal(sn.z)
            r2 = SQRT(z3.RealVal(2))
            # the argument of every erf the code uses, identified with those of the definition
            root2 = [r2 > 0, r2 * r2 == 2]
            env.prove("square root" + tag, z3.And(*root2), hy)
            spec = [EP / sp / r2, EN / sn / r2, 1 / r2]
            tail = (1 - ERF(1 / r2)) / 2        # one-sided probability beyond one standard deviation, 15.87 %
            env.prove("widths are positive" + tag, z3.And(sp > 0, sn > 0), hy)
            pos = [sp > 0, sn > 0, EP > 0, EN > 0] + root2
            same = []
            for u in p.state["erf"]:
                for v in spec:
                    o = env.prove("same", u == v, pos, record=False)
                    if o.status == "proved":
                        same.append(ERF(u) == ERF(v))
            # probability beyond +e of two half normals with a common mode: 2 s+/(s+ + s-) (1 - Phi(e/s+)), Phi(t) = (1 + erf(t/sqrt 2))/2
            env.prove("16 percent of the probability lies beyond the upper error" + tag, sp / (sp + sn) * (1 - ERF(spec[0])) == tail, hy + pos + same)
            env.prove("16 percent of the probability lies beyond the lower error" + tag, sn / (sp + sn) * (1 - ERF(spec[1])) == tail, hy + pos + same)
        if not n:
            env.fail("widths are returned", "no path")
    return run


def units():
    f = "appletree/utils.py:errors_to_two_half_norm_sigmas"
    return [Unit("errors_to_two_half_norm_sigmas, errors as a %s" % form, [f], _solve(form)) for form in ("tuple", "list")]


# ---------------------------------------------------------------- concrete side
def cases(rng, tier):
    while True:
        a = 10 ** rng.uniform(-4, 4)
        r = 1.0 if rng.random() < 0.15 else 10 ** rng.choice([rng.uniform(-0.5, 0.5), rng.uniform(-1.3, 1.3), rng.uniform(-4, 4), rng.uniform(-13, 13)])
        yield dict(errors=[a, a * r], form=rng.choice(["list", "tuple", "array"]))


def run_case(c):
    from scipy.stats import norm
    e = dict(list=list, tuple=tuple, array=np.array)[c["form"]](c["errors"])
    keep = list(c["errors"])
    try:
        s = ut().errors_to_two_half_norm_sigmas(e)
    except AssertionError:
        if keep[0] == keep[1]:
            return "no widths for equal errors %r" % keep
        return None
    if len(s) != 2 or not np.all(np.isfinite(s)) or min(s) <= 0:
        return "widths %r for errors %r" % (list(s), keep)
    sp, sn = float(s[0]), float(s[1])
    up, lo = 2 * sp / (sp + sn) * norm.sf(keep[0] / sp), 2 * sn / (sp + sn) * norm.sf(keep[1] / sn)
    if abs(up - norm.sf(1)) > 1e-5 or abs(lo - norm.sf(1)) > 1e-5:
        return "probability %.6f beyond the upper and %.6f beyond the lower error of %r" % (up, lo, keep)
    if list(map(float, e)) != keep:
        return "the errors were changed"
    return None
