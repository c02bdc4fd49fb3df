"""C24: the literature likelihood is the efficiency-weighted log density."""
import math
import random

import numpy as np
import z3

from vc import nd
from vc import pysym as P
from vc import smt
from vc.harness import Unit
from vc.models import bind
from checks import context_common as X
from checks import like_common as L

N, R, B, I, OPQ = X.N, X.R, X.B, X.I, X.OPQ
ASSUMPTIONS = ["energies are finite, yields finite or NaN, efficiencies finite, widths positive (requires)",
               "scipy's interp1d is linear interpolation, its values between positive values are positive; scipy's norm.logpdf is the normal log density (assumed contracts)",
               "np.sum adds up all elements; its NaN and infinities follow the elements (assumed contract)", "log is a function (uninterpreted)"]
EN, Y, EFF = z3.Function("energy", I, R), z3.Function("yield", I, R), z3.Function("efficiency", I, R)
YNAN = z3.Function("yield_is_nan", I, B)
MU, SP, SN = z3.Function("mu", I, R), z3.Function("sigma_pos", I, R), z3.Function("sigma_neg", I, R)
COL = {c: z3.Function("band_" + c, I, R) for c in ("x", "y", "yerr_upper", "yerr_lower")}
IN = {c: z3.Function("interpolated_" + c, R, R) for c in ("y", "yerr_upper", "yerr_lower")}
LO, HI = z3.Real("band_low"), z3.Real("band_high")
NL = z3.Function("normal_logpdf", R, R, R, R)
NP, NBAND, BATCH = z3.Int("number_of_points"), z3.Int("band_points"), z3.Int("batch_size")
TOT = (z3.Real("total"), z3.Bool("total_is_nan"), z3.Bool("total_is_inf"), z3.Bool("total_is_minus_inf"))
SQ2PI = z3.RealVal("2.50662827463100050241576528481104525300698674060993831663")
TYPES = {"twohalfnorm": ("mu", "sigma_pos", "sigma_neg"), "norm": ("loc", "scale"), "band": ("x", "y", "yerr_upper", "yerr_lower")}


def rg():
    return __import__("appletree.randgen", fromlist=["x"])


def values(shape, f):
    return nd.arr(shape, lambda *i: f(*[smt.num(x) for x in i]))


def points(rank, f):
    """an array with one entry per point: of shape (n,) or (1, n)"""
    return values([NP] if rank == 1 else [1, NP], lambda *i: f(i[-1]))


def yields(rank):
    return points(rank, lambda j: P.SNum(Y(j), YNAN(j)))


def arg(it, kind, c):
    """a distribution parameter: a number or one number per point"""
    f = {"mu": MU, "loc": MU, "sigma_pos": SP, "scale": SP, "sigma_neg": SN}[c]
    return P.SNum(f(z3.IntVal(0))) if kind == "number" else values([NP], lambda j: P.SNum(f(j)))


def at(kind, j):
    return z3.IntVal(0) if kind == "number" else j


class Interp:
    """contract of interp1d: interpolation inside of the range of x, the fill value outside"""

    def is_none(self, it, o):
        return False

    def call(self, it, o, a, k):
        b = bind(["x"], a, k)
        g = o.info

        def one(v):
            v = P.anum(v)
            x = P.zreal(v.z)
            out = P.zor(x < LO, x > HI)
            z = IN[g["col"]](x)
            it.run.fact(P.zor(out, z > 0)) if g["col"] != "y" else None
            if g["fill"] == "nan":
                return P.SNum(z, P.zor(v.nan, out))
            if g["fill"] == "extrapolate":
                return P.SNum(z, v.nan)
            return P.SNum(z3.If(out, z3.RealVal(repr(float(g["fill"]))), z), v.nan)
        return nd.elementwise(it, one, b["x"])


INTERP = Interp()


def _interp(it, a, k):
    b = bind(["x", "y", ("kind", "linear"), ("axis", -1), ("copy", True), ("bounds_error", None), ("fill_value", float("nan")), ("assume_sorted", False)], a, k)
    fill, be = b["fill_value"], b["bounds_error"]
    isnan = isinstance(fill, float) and math.isnan(fill)
    if b["kind"] != "linear" or b["axis"] not in (-1, 0) or be is not False and fill != "extrapolate" or not (isinstance(fill, (int, float)) or fill == "extrapolate"):
        raise P.Unsupported("interp1d with %r" % ({x: b[x] for x in b if x not in ("x", "y")},))

    def column(v):
        v = nd.lift(v)
        z = P.anum(v.info["elem"](z3.Int("probe!c"))).z
        return next((c for c in COL if z3.eq(z, COL[c](z3.Int("probe!c")))), None)
    cx, cy = column(b["x"]), column(b["y"])
    it.state.setdefault("interp", []).append((cx, cy))
    if cx != "x" or cy in ("x", None):
        raise P.Unsupported("interpolation of %s over %s" % (cy, cx))
    return P.SObj(INTERP, None, col=cy, fill="nan" if isnan else fill)


class Normal:
    """scipy.stats.norm"""

    def getattr(self, it, o, name):
        if name == "logpdf":
            return P.Contract(self.logpdf, name)
        return P._MISSING

    def logpdf(self, it, a, k):
        b = bind(["x", ("loc", 0), ("scale", 1)], a, k)

        def one(x, loc, scale):
            x, loc, scale = P.anum(x), P.anum(loc), P.anum(scale)
            return P.SNum(NL(P.zreal(x.z), P.zreal(loc.z), P.zreal(scale.z)), P.zor(x.nan, loc.nan, scale.nan))
        return nd.elementwise(it, one, b["x"], b["loc"], b["scale"])


def _sum(it, a, k):
    if len(a) > 1 or k:
        raise P.Unsupported("sum along an axis")
    it.state.setdefault("summed", []).append(nd.lift(a[0], it))
    return P.SNum(*TOT)


def contracts():
    from scipy import stats
    m = X.contracts()
    m.update(nd.contracts())
    m[np.sum] = _sum
    m[rg().interp1d] = _interp
    m[("object", id(stats.norm))] = P.SObj(Normal(), None)
    return m


def facts(it):
    run = it.run
    j = z3.Int("f!j")
    run.fact(z3.And(NP >= 1, NBAND >= 2, LO <= HI, BATCH >= 1, z3.AtMost(TOT[1], TOT[2], TOT[3], 1)))
    for f in (SP, SN):
        run.fact(z3.ForAll([j], f(j) > 0, patterns=[f(j)]))


# ------------------------------------------------------------------ densities
def logs(e):
    """the arguments of the logarithms in a term"""
    out, todo, seen = [], [e], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().eq(P.mlog(z3.RealVal(1)).decl()):
            if not any(z3.eq(t, x) for x in out):
                out.append(t)
        todo += t.children()
    return out


def prove_density(env, tag, e, hy, y, ynan, mu, sp, sn, dead=None, times=None):
    """the flagged number e is the log density of the two half normals at y (times a factor); minus infinity where dead"""
    ls = logs(z3.simplify(e.z))
    live = hy + ([z3.Not(dead)] if dead is not None else [])
    ok = len(ls) == 1
    env.check("one normalisation per point" + tag, ok, "the density has %d logarithms" % len(ls))
    if not ok:
        return
    x = ls[0].children()[0]
    env.prove("normalisation is positive" + tag, x > 0, live)
    c = z3.Real("normalisation")
    env.prove("both halves together integrate to one" + tag, z3.And(c * (sp + sn) * SQ2PI < 2 + z3.RealVal("1e-9"), c * (sp + sn) * SQ2PI > 2 - z3.RealVal("1e-9")), live + [c == x, sp > 0, sn > 0])
    s = z3.If(y < mu, sn, sp)
    w = ls[0] - (y - mu) * (y - mu) / (2 * s * s)
    f = times if times is not None else z3.RealVal(1)
    env.prove("density of a finite value" + tag, z3.Implies(z3.Not(ynan), z3.And(e.finite, e.z == f * w)), live + [sp > 0, sn > 0])
    env.prove("density of a NaN value" + tag, z3.Implies(ynan, e.nan), live)
    if dead is not None:
        if times is None:
            env.prove("no density outside of the band" + tag, e.ninf, hy + [dead])
        else:
            env.prove("outside of the band: minus infinity times the efficiency" + tag,
                      z3.And(z3.Implies(f > 0, e.ninf), z3.Implies(f < 0, e.pinf), z3.Implies(f == 0, e.nan)), hy + [dead])


def _static(rank, kind):
    def run(env):
        def body(it):
            it.state = {}
            facts(it)
            f = it.getattr(rg().TwoHalfNorm, "logpdf")
            it.state["r"] = it.call(f, [], dict(x=yields(rank), **{c: arg(it, kind, c) for c in TYPES["twohalfnorm"]}))
        for n, p in enumerate(P.explore(env, body, contracts())):
            tag = " [shape %s, %s, path %d]" % ("(n,)" if rank == 1 else "(1, n)", kind, n)
            if not shaped(env, tag, p, p.state.get("r"), rank):
                continue
            j = z3.Int("j")
            e = P.anum(p.state["r"].info["elem"](*([j] if rank == 1 else [z3.IntVal(0), j])))
            a = at(kind, j)
            prove_density(env, tag, e, p.hyps + [j >= 0, j < NP] + list(p.run.facts), Y(j), YNAN(j), MU(a), SP(a), SN(a))
    return run


def shaped(env, tag, p, r, rank):
    env.check("a density is returned" + tag, p.kind != "raise", repr(p.value))
    if p.kind == "raise":
        return False
    want = [NP] if rank == 1 else [1, NP]
    ok = nd.is_nd(r) and len(r.info["shape"]) == rank and all(nd._same(a, b) for a, b in zip(r.info["shape"], want))
    env.check("one value per point" + tag, ok, repr(getattr(r, "info", r)))
    return ok


def band_args():
    return {c: values([NBAND], lambda j, c=c: P.SNum(COL[c](j))) for c in TYPES["band"]}


def _band(rank):
    def run(env):
        def body(it):
            it.state = {}
            facts(it)
            b = it.call(rg().BandTwoHalfNorm, [], band_args())
            it.state["r"] = it.call(it.getattr(b, "logpdf"), [], dict(x=points(rank, lambda j: P.SNum(EN(j))), y=yields(rank)))
        for n, p in enumerate(P.explore(env, body, contracts())):
            tag = " [shape %s, path %d]" % ("(n,)" if rank == 1 else "(1, n)", n)
            if not shaped(env, tag, p, p.state.get("r"), rank):
                continue
            j = z3.Int("j")
            e = P.anum(p.state["r"].info["elem"](*([j] if rank == 1 else [z3.IntVal(0), j])))
            x = EN(j)
            prove_density(env, tag, e, p.hyps + [j >= 0, j < NP] + list(p.run.facts), Y(j), YNAN(j), IN["y"](x), IN["yerr_upper"](x), IN["yerr_lower"](x), dead=z3.Or(x < LO, x > HI))
    return run


# ----------------------------------------------------------------- likelihood
def new(it, vt, kind, bins_on=("energy", "ly"), **over):
    cls = L.mod().LikelihoodLit
    names = TYPES.get(vt, TYPES["norm"])
    ba = band_args()
    vals = [ba[c] if vt == "band" else arg(it, kind, c) for c in names]
    if "order" in over:
        names, vals = names[::-1], vals[::-1]
        over.pop("order")
    cfg = dict(bins_on=it.run.cell(P.MList(list(bins_on))) if isinstance(bins_on, tuple) else bins_on, variable_type=vt,
               logpdf_args=it.run.cell(P.MList([it.run.cell(P.MList(list(names))), it.run.cell(P.MList(vals))])))
    cfg.update(over)
    return it.call(cls, [], dict(name="vc_lit", **cfg))


class Comp:
    def is_none(self, it, o):
        return False

    def isinstance(self, it, o, c):
        m = L.comp_mod()
        cs = c if isinstance(c, tuple) else (c,)
        return any(x in (m.Component, m.ComponentSim, object) for x in cs)

    def getattr(self, it, o, name):
        if name == "simulate":
            def f(it, a, k):
                b = bind(["key", "batch_size", "parameters"], a, k)
                it.state["asked"].append(b)
                r = it.state["rank"]
                return (P.SOpq(z3.Const("key2", OPQ)), it.run.cell(P.MList([points(r, lambda j: P.SNum(EN(j))), yields(r), points(r, lambda j: P.SNum(EFF(j)))])))
            return P.Contract(f, name)
        if name == "needed_parameters":
            return it.run.cell(P.MSet())
        if name in ("deduce", "compile"):
            return P.Contract(lambda it, a, k: None, name)
        return P._MISSING

    def setattr(self, it, o, name, v):
        pass


COMP = Comp()


def register(it, inst, name="comp"):
    it.call(it.getattr(inst, "register_component"), [P.Contract(lambda it, a, k: P.SObj(COMP, None), "component class"), name])


def _lit(vt, rank, kind):
    def run(env):
        PD, PV = z3.Function("par_dom", N, B), z3.Function("par_val", N, R)

        def body(it):
            it.state = s = dict(asked=[], rank=rank)
            facts(it)
            inst = new(it, vt, kind, **(dict(order=True) if kind == "numbers" else {}))
            register(it, inst)
            pars = it.run.cell(P.MDict(base=P.SymBase(lambda k: PD(k), lambda k: P.SNum(PV(k.z)))))
            s["key"] = P.SOpq(z3.Const("key", OPQ))
            s["r"] = it.call(it.getattr(inst, "get_log_likelihood"), [s["key"], P.SNum(BATCH), pars])
            q = z3.Const("q", N)
            s["has"], s["val"] = [], []
            for b in s["asked"]:
                h = it.zb(it.has(b["parameters"], P.SStr(q)))
                s["has"].append(h)
                if it.run.truth(z3.And(h, PD(q))):
                    s["val"].append(P.anum(it.getitem(b["parameters"], P.SStr(q))).z)
        q = z3.Const("q", N)
        for n, p in enumerate(P.explore(env, body, contracts())):
            tag = " [%s, shape %s, %s, path %d]" % (vt, "(n,)" if rank == 1 else "(1, n)", kind, n)
            s = p.state
            env.check("a likelihood is returned" + tag, p.kind != "raise" and isinstance(s.get("r"), tuple) and len(s["r"]) == 2, repr(p.value))
            if p.kind == "raise":
                continue
            a = s["asked"]
            env.check("simulated once with the given key" + tag, len(a) == 1 and isinstance(a[0]["key"], P.SOpq) and z3.eq(a[0]["key"].z, s["key"].z), repr(a))
            env.prove("with one event" + tag, P.zreal(P.anum(a[0]["batch_size"]).z) == 1, p.hyps)
            env.prove("with exactly the given parameters" + tag, z3.And(s["has"][0] == PD(q), *[v == PV(q) for v in s["val"]]), p.hyps)
            key, v = s["r"]
            env.check("the new key is returned" + tag, isinstance(key, P.SOpq) and z3.eq(key.z, z3.Const("key2", OPQ)), repr(key))
            sm = s.get("summed", [])
            env.check("one sum over all points" + tag, len(sm) == 1 and len(sm[0].info["shape"]) == rank and all(nd._same(x, y) for x, y in zip(sm[0].info["shape"], [NP] if rank == 1 else [1, NP])), repr([x.info["shape"] for x in sm]))
            if len(sm) != 1:
                continue
            v = P.anum(v)
            env.prove("a NaN sum is minus infinity" + tag, z3.Implies(TOT[1], z3.And(v.ninf, z3.Not(v.nan))), p.hyps)
            env.prove("any other sum is returned" + tag, z3.Implies(z3.Not(TOT[1]), z3.And(z3.Not(v.nan), v.pinf == TOT[2], v.ninf == TOT[3], z3.Implies(v.finite, P.zreal(v.z) == TOT[0]))), p.hyps)
            j = z3.Int("j")
            e = P.anum(sm[0].info["elem"](*([j] if rank == 1 else [z3.IntVal(0), j])))
            hy = p.hyps + [j >= 0, j < NP] + list(p.run.facts)
            x, w = EN(j), at(kind, j)
            if vt == "norm":
                env.prove("efficiency times the normal log density" + tag, z3.Implies(z3.Not(YNAN(j)), z3.And(e.finite, P.zreal(e.z) == EFF(j) * NL(Y(j), MU(w), SP(w)))), hy)
                env.prove("density of a NaN value" + tag, z3.Implies(YNAN(j), e.nan), hy)
            elif vt == "twohalfnorm":
                prove_density(env, tag, e, hy, Y(j), YNAN(j), MU(w), SP(w), SN(w), times=EFF(j))
            else:
                prove_density(env, tag, e, hy, Y(j), YNAN(j), IN["y"](x), IN["yerr_upper"](x), IN["yerr_lower"](x), dead=z3.Or(x < LO, x > HI), times=EFF(j))
    return run


def _refused(env):
    other = z3.Const("other_word", N)

    def expect(what, body, raises):
        for n, p in enumerate(P.explore(env, body, contracts())):
            env.check("%s: %s [path %d]" % (what, "refused" if raises else "accepted", n), (p.kind == "raise") == raises, repr(p.value))

    def word(it):
        it.state = dict(asked=[], rank=1)
        for x in TYPES:
            it.run.fact(other != it.run.name(x))
        new(it, P.SStr(other), "numbers")
    expect("another distribution", word, True)

    def dim(it):
        it.state = dict(asked=[], rank=1)
        d = z3.Int("dimensions")
        it.run.fact(z3.And(d >= 0, d != 2))
        obs = z3.Function("observable_name", I, N)
        new(it, "norm", "numbers", bins_on=seq(it, d, obs))
    expect("any number of observables but two", dim, True)
    for vt in TYPES:
        for k in (0, 1, 2):
            def body(it):
                it.state = dict(asked=[], rank=1)
                facts(it)
                inst = new(it, vt, "numbers")
                for q in range(k):
                    register(it, inst, "comp%d" % q)
            expect("%s with %d components" % (vt, k), body, k > 1)

        def empty(it):
            it.state = dict(asked=[], rank=1)
            facts(it)
            inst = new(it, vt, "numbers")
            it.call(it.getattr(inst, "get_log_likelihood"), [P.SOpq(z3.Const("key", OPQ)), P.SNum(BATCH), it.run.cell(P.MDict())])
        expect("%s evaluated without component" % vt, empty, True)


def seq(it, n, f):
    return it.run.cell(P.MList.of_seq(P.SSeq(n, lambda j: P.SStr(f(smt.num(j))))))


def _many(*runs):
    def run(env):
        for r in runs:
            r(env)
    return run


def units():
    r, l = "appletree/randgen.py:", "appletree/likelihood.py:LikelihoodLit."
    lit = [l + "__init__", l + "_sanity_check", l + "register_component", l + "get_log_likelihood", l + "_simulate_yields"]
    out = []
    for k in (1, 2):
        sh = "(n,)" if k == 1 else "(1, n)"
        for a in ("number", "numbers"):
            out += [Unit("LikelihoodLit, normal, shape %s, %s" % (sh, a), lit, _lit("norm", k, a)),
                    Unit("LikelihoodLit, two half normals, shape %s, %s" % (sh, a), lit + [r + "TwoHalfNorm.logpdf"], _lit("twohalfnorm", k, a))]
        out.append(Unit("LikelihoodLit, band, shape %s" % sh, lit + [r + "BandTwoHalfNorm.__init__", r + "BandTwoHalfNorm.logpdf", r + "TwoHalfNorm.logpdf"], _lit("band", k, "numbers")))
    return out + [Unit("TwoHalfNorm.logpdf", [r + "TwoHalfNorm.logpdf"], _many(*[_static(k, a) for k in (1, 2) for a in ("number", "numbers")])),
            Unit("BandTwoHalfNorm", [r + "BandTwoHalfNorm.__init__", r + "BandTwoHalfNorm.logpdf", r + "TwoHalfNorm.logpdf"], _many(_band(1), _band(2))),
            Unit("LikelihoodLit refuses", lit, _refused)]


# ------------------------------------------------------------------- concrete
def cases(rng, tier):
    k = 0
    while True:
        k += 1
        n = rng.choice([1, 2, 5])
        vt = ("norm", "twohalfnorm", "band", "pdf", "refuse")[k % 5] if k % 25 else "refuse"
        wide = rng.random() < 0.5
        num = lambda lo, hi: round(rng.uniform(lo, hi), 3)      # noqa: E731
        if vt == "pdf":
            yield dict(kind="pdf", args=[num(-5, 5), num(0.05, 4), num(0.05, 4)])
            continue
        if vt == "refuse":
            yield dict(kind="refuse", vt=rng.choice(["norm", "twohalfnorm", "band"]), what=rng.choice(["type", "dim1", "dim3", "two", "none"]))
            continue
        m = rng.randint(2, 5)
        xs = sorted({num(0, 20) for _ in range(m)})
        if len(xs) < 2:
            continue
        c = dict(kind="lit", vt=vt, wide=wide, batch=rng.choice([1, 1, 7]), order=rng.random() < 0.5)
        if vt == "band":
            c["args"] = dict(x=xs, y=[num(1, 9) for _ in xs], yerr_upper=[num(0.1, 3) for _ in xs], yerr_lower=[num(0.1, 3) for _ in xs])
            inside = rng.random() < 0.7
            c["energy"] = [rng.choice([xs[0], xs[-1], num(xs[0], xs[-1])]) if inside else rng.choice([xs[0] - 0.5, xs[-1] + 0.5, num(-5, 30)]) for _ in range(n)]
        else:
            one = rng.random() < 0.4
            v = lambda lo, hi: num(lo, hi) if one else [num(lo, hi) for _ in range(n)]      # noqa: E731
            c["args"] = {q: v(1, 9) if q in ("mu", "loc") else v(0.1, 3) for q in TYPES[vt]}
            c["energy"] = [num(0, 20) for _ in range(n)]
        c["yields"] = [float("nan") if rng.random() < 0.05 else num(0, 12) for _ in range(n)]
        c["eff"] = [rng.choice([1.0, 0.5, 0.0, 1.0]) for _ in range(n)]
        yield c


def _component(out, seen):
    m = L.comp_mod()

    class Sim(m.ComponentSim):
        def deduce(self, *a, **k):
            pass

        def compile(self):
            pass

        def simulate(self, key, batch_size, parameters):
            seen.append((key, batch_size, dict(parameters)))
            return "next", [np.array(o) for o in out]
    return Sim


def two_half(y, mu, sp, sn):
    s = sn if y < mu else sp
    return math.log(2 / (math.sqrt(2 * math.pi) * (sp + sn))) - 0.5 * ((y - mu) / s) ** 2


def run_case(c):
    with X.Quiet():
        return _case(c)


def _case(c):
    if c["kind"] == "pdf":
        mu, sp, sn = c["args"]
        out = 0.0
        for lo, hi in ((mu - 12 * sn, mu), (mu, mu + 12 * sp)):
            x = np.linspace(lo, hi, 4001)
            f = np.exp(rg().TwoHalfNorm.logpdf(x=x, mu=mu, sigma_pos=sp, sigma_neg=sn))
            out += float(np.sum((f[1:] + f[:-1]) / 2) * (x[1] - x[0]))
        return None if abs(out - 1) < 1e-4 else "the density of mode %g, widths %g and %g integrates to %g" % (mu, sp, sn, out)
    if c["kind"] == "refuse":
        return _refuse(c)
    n = len(c["energy"])
    sh = (1, n) if c["wide"] else (n,)
    out = [np.array(c[q], float).reshape(sh) for q in ("energy", "yields", "eff")]
    names = list(c["args"])
    if c["order"]:
        names = names[::-1]
    l = L.mod().LikelihoodLit(name="vc_lit", bins_on=["energy", "ly"], variable_type=c["vt"], logpdf_args=[names, [c["args"][q] for q in names]])
    seen = []
    l.register_component(_component(out, seen), "one")
    key, v = l.get_log_likelihood("key", c["batch"], {"a": 1.5, "one_rate": 2.0})
    if seen != [("key", 1, {"a": 1.5, "one_rate": 2.0})] or key != "next":
        return "simulated with %r, key %r returned" % (seen, key)
    tot = 0.0
    for j in range(n):
        y, e = c["yields"][j], c["energy"][j]
        a = {q: (v_[j] if isinstance(v_, list) and c["vt"] != "band" else v_) for q, v_ in c["args"].items()}
        if c["vt"] == "band":
            if e < a["x"][0] or e > a["x"][-1]:
                w = -math.inf
            else:
                p = [float(np.interp(e, a["x"], a[q])) for q in ("y", "yerr_upper", "yerr_lower")]
                w = two_half(y, *p)
        elif c["vt"] == "norm":
            w = -0.5 * ((y - a["loc"]) / a["scale"]) ** 2 - math.log(a["scale"] * math.sqrt(2 * math.pi))
        else:
            w = two_half(y, a["mu"], a["sigma_pos"], a["sigma_neg"])
        tot += w * c["eff"][j]
    if math.isnan(tot):
        tot = -math.inf
    if not (v == tot or (math.isfinite(tot) and abs(v - tot) <= 1e-7 * max(1, abs(tot)))):
        return "log likelihood %r, the efficiency-weighted log density is %r" % (v, tot)
    return None


def _refuse(c):
    args = dict(norm=dict(loc=[1.0], scale=[1.0]), twohalfnorm=dict(mu=[1.0], sigma_pos=[1.0], sigma_neg=[2.0]), band=dict(x=[0.0, 9.0], y=[1.0, 2.0], yerr_upper=[1.0, 1.0], yerr_lower=[1.0, 1.0]))[c["vt"]]
    on = dict(dim1=["energy"], dim3=["energy", "ly", "qy"]).get(c["what"], ["energy", "ly"])
    vt = "lognorm" if c["what"] == "type" else c["vt"]
    ok, what = False, ""
    sim = _component([np.ones(1)] * 3, [])
    try:
        l = L.mod().LikelihoodLit(name="vc_lit", bins_on=on, variable_type=vt, logpdf_args=[list(args), list(args.values())])
        if c["what"] == "none":
            l.get_log_likelihood("key", 1, {})
        if c["what"] == "two":
            l.register_component(sim, "one")
            ok = True
            l.register_component(sim, "two")
    except Exception as e:
        if c["what"] == "two" and not ok:
            return "the first component was refused: %r" % e
        return None
    return "%s was accepted" % dict(type="another distribution", dim1="one observable", dim3="three observables", two="a second component", none="evaluation without component")[c["what"]]
