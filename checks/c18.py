"""C18: parameter aliases rename exactly what they declare."""
import copy
import inspect

import numpy as np
import z3

from vc import pysym as P
from vc import smt
from vc.harness import Unit
from vc.models import bind, real
from vc.util import repo_fn
from checks import like_common as L

ASSUMPTIONS = [L.ALIAS_REQ, "a component is either simulated or fixed"]
N, R, B, I = L.N, L.R, L.B, L.I
NEED0 = z3.Function("needed_union", N, B)


def _inst(it, n=None, **kw):
    s = dict(kw)
    L.instance(it, s, n)
    it.state = s
    return s


# ---------------------------------------------------------------- replace_alias
def _replace(env):
    def body(it):
        s = _inst(it)
        pars = L.parameters(it)
        s["pars"], s["pars0"], s["alias0"] = pars, pars.content, s["alias"].content
        r = it.call(it.getattr(s["inst"], "replace_alias"), [pars])
        h = it.zb(it.contains(P.SStr(s["q"]), r))
        s["h"] = h
        s["fresh"] = r is not pars
        if it.run.truth(h):
            s["v"] = it.getitem(r, P.SStr(s["q"]))
        return r
    for a, p in enumerate(P.explore(env, body, L.contracts())):
        tag = " [path %d]" % a
        s, q = p.state, p.state["q"]
        if p.kind == "raise":
            env.prove("no exception" + tag, z3.BoolVal(False), p.hyps)
            continue
        env.check("the caller's dictionary is not modified" + tag, s["fresh"] and s["pars"].content == s["pars0"], "written")
        env.check("the alias table is not modified" + tag, s["alias"].content == s["alias0"], "written")
        env.prove("an alias name that was given is not seen any more" + tag, z3.Not(s["h"]), p.hyps + [L.AD(q), L.PD(q)])
        env.prove("exactly the renamed names are seen" + tag, s["h"] == s["has"](q), p.hyps)
        if "v" in s:
            x = real(s["v"])
            al = z3.Const("al", N)
            env.prove("under an aliased name: the value given under the alias" + tag, x == L.PV(al), p.hyps + [L.AD(al), L.PD(al), L.AT(al) == q])
            env.prove("every other parameter keeps its value" + tag, x == s["val"](q), p.hyps)


# ---------------------------------------------------------------- every evaluation applies the renaming
def evaluations(cls):
    """the public evaluations: methods of the class that take parameters"""
    out = []
    for nm in dir(cls):
        f = inspect.getattr_static(cls, nm)
        if nm.startswith("__") or not callable(f) or nm == "replace_alias":
            continue
        g = getattr(f, "__closure__", None)
        inner = [c.cell_contents for c in g or () if inspect.isfunction(c.cell_contents)]
        for h in [f] + inner:
            try:
                if "parameters" in inspect.signature(h).parameters:
                    out.append((nm, list(inspect.signature(h).parameters)))
                    break
            except (TypeError, ValueError):
                pass
    return out


def _weighted(s):
    def f(it, o, a, k):
        sim, b = s["model"].call_args(it, o, a, k)
        L.params_ok(it, s, b["parameters"], "simulate_weighted_data")
        r = P.SObj(OPAQUE, z3.Const("weighted", N))
        if sim:
            return (P.SOpq(L.NEXT(o.z, b["key"].z), "key"), r)
        return r
    return f


class _Opaque:
    """data whose content plays no role"""

    def iterate(self, it, o):
        return "c", []

    def isinstance(self, it, o, c):
        return False

    def getattr(self, it, o, name):
        return P._MISSING


OPAQUE = _Opaque()
Y = z3.Function("yield_data", I, I, R)
NL = z3.Function("n_points", I)
LP = z3.Function("logpdf", I, R)


def _simulate(s):
    def f(it, o, a, k):
        b = bind(["key", "batch_size", "parameters"], a, k)
        L.params_ok(it, s, b["parameters"], "simulate")
        n = z3.Int("n_points")
        it.run.fact(n >= 0)
        return (P.SOpq(L.NEXT(o.z, b["key"].z), "key"),
                it.run.cell(P.MList([P.SArr(n, lambda j, i=i: P.SNum(Y(i, smt.num(j)))) for i in range(3)])))
    return f


def _args(it, s, names):
    out = []
    for nm in names:
        if nm == "self":
            continue
        if nm == "key":
            out.append(P.SOpq(L.KEY0, "key"))
        elif nm == "batch_size":
            out.append(P.SNum(L.BATCH))
        elif nm == "parameters":
            out.append(s["pars"])
        else:
            raise P.Unsupported("argument %s of an evaluation" % nm)
    return out


def _evaluation(cls_name, nm, params, ncomp=None):
    def run(env):
        con = dict(L.contracts())
        con[np.hstack] = lambda it, a, k: P.SObj(OPAQUE, z3.Const("stacked", N))
        con[repo_fn("appletree.randgen", "get_key")] = lambda it, a, k: P.SOpq(z3.Const("fresh_key", L.OPQ), "key")

        def body(it):
            s = {}
            it.state = s
            if cls_name == "Likelihood":
                L.instance(it, s, ncomp)
            else:
                L.lit_instance(it, s, logpdf=P.Contract(lambda it, a, k: P.SArr(a[0].n, lambda j: P.SNum(LP(smt.num(j)))), "logpdf"))
            s["weighted"], s["simulate"] = _weighted(s), _simulate(s)
            s["batch"] = L.BATCH
            s["pars"] = L.parameters(it)
            s["pars0"] = s["pars"].content
            return it.call(it.getattr(s["inst"], nm), _args(it, s, params))
        n = 0
        for a, p in enumerate(P.explore(env, body, con)):
            tag = " [path %d]" % a
            s = p.state
            s["obl"].prove(env, p, tag)
            n += len(s["obl"].items)
            env.check("the caller's parameters are not modified" + tag, s["pars"].content == s["pars0"], "written")
            if p.kind == "raise" and not (isinstance(p.value, P.Exc) and p.value.cls is ValueError):
                env.prove("no exception" + tag, z3.BoolVal(False), p.hyps)
        env.check("the evaluation hands parameters to its components", n > 0, "no component is evaluated")
    return run


# ---------------------------------------------------------------- reported parameters
class _CompClass:
    def call(self, it, o, a, k):
        it.state["created"] = dict(k)
        if a:
            raise P.Unsupported("positional arguments for the component class")
        return P.SObj(it.state["model"], o.z)

    def getattr(self, it, o, name):
        return P._MISSING

    def is_none(self, it, o):
        return False


def target(k):
    """facts are added by the caller: k is the declared target of some alias"""
    return z3.Function("is_target", N, B)(k)


TSRC = z3.Function("alias_naming", N, N)


def _target_facts(run):
    k = z3.Const("tg!k", N)
    run.fact(z3.ForAll([k], z3.Implies(target(k), z3.And(L.AD(TSRC(k)), L.AT(TSRC(k)) == k)), patterns=[target(k)]))
    run.fact(z3.ForAll([k], z3.Implies(L.AD(k), target(L.AT(k))), patterns=[L.AT(k)]))


def reported(U):
    return lambda k: z3.Or(z3.And(U(k), z3.Not(target(k))), z3.And(L.AD(k), U(L.AT(k))))


def _register(env):
    C0 = z3.Const("new_component", N)

    def body(it):
        s = dict(need0=lambda k: reported(NEED0)(k))
        it.state = s
        L.instance(it, s)
        _target_facts(it.run)
        s["comps0"] = s["components"].content
        nm = z3.Const("new_name", N)
        s["nm"] = nm
        it.call(it.getattr(s["inst"], "register_component"), [P.SObj(_CompClass(), C0), P.SStr(nm)])
        need = it.getattr(s["inst"], "needed_parameters")
        s["after"] = it.zb(it.contains(P.SStr(s["q"]), need))
        s["in"] = it.zb(it.contains(P.SStr(s["q"]), s["components"]))
    for a, p in enumerate(P.explore(env, body, L.contracts())):
        tag = " [path %d]" % a
        s, q = p.state, p.state["q"]
        nm = s["nm"]
        if p.kind == "raise":
            env.prove("refused only for an existing name" + tag, L.CD(nm), p.hyps)
            continue
        env.prove("an existing name is refused" + tag, z3.Not(L.CD(nm)), p.hyps)
        U1 = lambda k: z3.Or(NEED0(k), L.NEED(C0, k))
        env.prove("reported: the needs of all components, the alias replacing the aliased name exactly when it is needed" + tag,
                  s["after"] == reported(U1)(q), p.hyps)
        env.prove("the component is registered under its name, others stay" + tag, s["in"] == z3.Or(L.CD(q), q == nm), p.hyps)


def units():
    p = "appletree/likelihood.py:"
    us = [Unit("Likelihood.replace_alias", [p + "Likelihood.replace_alias"], _replace),
          Unit("Likelihood.register_component", [p + "Likelihood.register_component"], _register)]
    for cn in ("Likelihood", "LikelihoodLit"):
        cls = getattr(L.mod(), cn)
        for nm, params in evaluations(cls):
            if cn == "LikelihoodLit" and inspect.getattr_static(cls, nm) is inspect.getattr_static(L.mod().Likelihood, nm, None):
                continue
            us.append(Unit("%s.%s" % (cn, nm), [p + "%s.%s" % (cn, nm), p + "need_replacing_alias", p + "Likelihood.replace_alias"],
                           _evaluation(cn, nm, params), fallbacks=[_evaluation(cn, nm, params, 2)] if cn == "Likelihood" else [],
                           fallback_bounds=["two components"] if cn == "Likelihood" else []))
    return us


# ---------------------------------------------------------------- concrete side
POOL = ["a", "b", "c", "d", "rate_x", "e_sigma"]


def cases(rng, tier):
    while True:
        pool = POOL[:]
        rng.shuffle(pool)
        na = rng.randint(0, 3)
        alias = {"al%d" % i if rng.random() < 0.8 else pool[-1 - i]: pool[i] for i in range(na)}
        names = [x for x in pool if rng.random() < 0.7 or x not in alias.values()]
        if len(set(alias) | set(alias.values())) != 2 * na:
            continue
        pars = {n: rng.choice([0.0, 1.0, rng.uniform(-5, 5)]) for n in names}
        pars.update({k: rng.uniform(-5, 5) for k in alias if rng.random() < 0.85})
        yield dict(lit=rng.random() < 0.3, alias=list(alias.items()), pars=pars,
                   comps=[[rng.choice(["sim", "fixed"]), [x for x in pool if rng.random() < 0.4]] for _ in range(rng.randint(1, 3))])


def run_case(case):
    import warnings
    warnings.simplefilter("ignore")
    alias = dict(map(tuple, case["alias"]))
    pars = case["pars"]
    want = {k: v for k, v in pars.items() if k not in alias}
    want.update({v: pars[k] for k, v in alias.items() if k in pars})
    calls = []
    m = L.comp_mod()
    lit = case["lit"]
    rows = [[1.0, 2.0], [3.0, 4.0], [5.0, 1.0], [8.0, 8.0]]
    l = (mod_lit(dict(alias)) if lit else L.make_likelihood(rows, alias=dict(alias)))
    h = [[1.0, 2.0, 3.0, 4.0]]

    def stub(kind, need, tag):
        base = L.stub_components([(kind, tag, (h[0] if not lit else [[1.0, 2.0], [1.5, 1.0], [1.0, 1.0]]))], calls,
                                 (4,) if lit else np.shape(l.data_hist))[tag]

        class C(type(base)):
            def __init__(self, *a, **k):
                self.__dict__.update(base.__dict__)
                self.needed_parameters = set(need)

            def deduce(self, *a, **k):
                pass

            def compile(self):
                pass

            def _compile(self):
                pass

            def set_binning(self, *a, **k):
                pass
        return C
    comps = case["comps"][:1] if lit else case["comps"]
    kinds = []
    for i, (kind, need) in enumerate(comps):
        if lit:
            kind = "sim"
        kinds.append(kind)
        c = stub(kind, need, "c%d" % i)
        l.register_component(c, "c%d" % i, **({"file_name": None} if kind == "fixed" else {}))
    union = set().union(*[set(n) for _, n in comps])
    rep = {x for x in union if x not in alias.values()} | {k for k, v in alias.items() if v in union}
    if set(l.needed_parameters) != rep:
        return "reported as needed: %s instead of %s" % (sorted(l.needed_parameters), sorted(rep))
    for c in l.components.values():
        if isinstance(c, m.ComponentSim) and not lit:
            c.h = h[0]
    for nm, params in evaluations(type(l)):
        del calls[:]
        given = copy.deepcopy(pars)
        for n, c in l.components.items():
            c.h = [[1.0, 2.0], [1.5, 1.0], [1.0, 1.0]] if lit or "weighted" in nm else h[0]
        args = {"key": 3, "batch_size": 5, "parameters": given}
        if any(p not in args and p != "self" for p in params):
            continue
        if lit and inspect.getattr_static(L.mod().LikelihoodLit, nm) is inspect.getattr_static(L.mod().Likelihood, nm, None):
            continue  # these need a data histogram, which a literature likelihood has not
        kw = {p: args[p] for p in params if p != "self"}
        f = getattr(l, nm)
        f(**kw) if len(case["pars"]) % 2 else f(*kw.values())
        if given != pars:
            return "%s modified the caller's parameters" % nm
        if not calls:
            return "%s evaluated no component" % nm
        for c in calls:
            if c[3] != want:
                return "%s: component %s sees %s instead of %s" % (nm, c[0], c[3], want)
    return None


def mod_lit(alias):
    return L.mod().LikelihoodLit(name="vc_lit", bins_on=["energy", "ly"], variable_type="norm",
                                 logpdf_args=[["loc", "scale"], [[1.0, 2.0], [2.0, 1.0]]], parameter_alias=alias)
