"""Symbolic set-up for appletree.likelihood.Likelihood: any number of components, bins, parameters and aliases."""
import os
import tempfile

import numpy as np
import z3

from vc import pysym as P
from vc import smt
from vc.models import bind, real
from vc.util import repo_fn

N, R, B, I = P.Name, z3.RealSort(), z3.BoolSort(), z3.IntSort()
OPQ = P.Opq
PD, PV = z3.Function("par_dom", N, B), z3.Function("par_val", N, R)
AD, AT = z3.Function("alias_dom", N, B), z3.Function("alias_target", N, N)
CD = z3.Function("component_dom", N, B)
SIM, FIX = z3.Function("is_sim", N, B), z3.Function("is_fixed", N, B)
NEXT = z3.Function("next_key", N, OPQ, OPQ)
HS = z3.Function("sim_hist", N, OPQ, I, R)
HF = z3.Function("fixed_hist", N, I, R)
NEED = z3.Function("needed_by", N, N, B)
KEY0 = z3.Const("key0", OPQ)
BATCH = z3.Int("batch_size")
NB = z3.Int("n_bins")
DATA = z3.Function("data_hist", I, R)


def mod():
    return __import__("appletree.likelihood", fromlist=["x"])


def comp_mod():
    return __import__("appletree.component", fromlist=["x"])


class Obl:
    """obligations met while a path is explored (preconditions of callees)"""

    def __init__(self):
        self.items, self.seen = [], set()

    def add(self, it, name, goal):
        run = it.run
        hy = list(run.pc)
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        key = (name, goal.sexpr(), tuple(h.get_id() for h in hy))
        if key not in self.seen:
            self.seen.add(key)
            self.items.append((name, goal, hy))

    def prove(self, env, p, tag):
        for name, goal, hy in self.items:
            env.prove(name + tag, goal, list(p.run.facts) + hy, kind="callee-pre")


def renamed(run):
    """(membership, value) of a name after the declared renaming, and the facts that define it"""
    src, isT = z3.Function("alias_of", N, N), z3.Function("is_active_target", N, B)
    k = z3.Const("rn!k", N)
    run.fact(z3.ForAll([k], z3.Implies(isT(k), z3.And(AD(src(k)), PD(src(k)), AT(src(k)) == k)), patterns=[isT(k)]))
    run.fact(z3.ForAll([k], z3.Implies(z3.And(AD(k), PD(k)), z3.And(isT(AT(k)), src(AT(k)) == k)), patterns=[AT(k)]))
    has = lambda x: z3.Or(isT(x), z3.And(PD(x), z3.Not(AD(x))))
    val = lambda x: z3.If(isT(x), PV(src(x)), PV(x))
    return has, val


def parameters(it):
    run = it.run
    return run.cell(P.MDict(base=P.SymBase(lambda k: PD(k), lambda k: P.SNum(PV(k.z)))))


def aliases(it):
    run = it.run
    a, b = z3.Const("al!a", N), z3.Const("al!b", N)
    run.fact(z3.ForAll([a, b], z3.Implies(z3.And(AD(a), AD(b), a != b), AT(a) != AT(b)), patterns=[z3.MultiPattern(AT(a), AT(b))]))
    run.fact(z3.ForAll([a], z3.Implies(AD(a), z3.Not(AD(AT(a)))), patterns=[AT(a)]))
    return run.cell(P.MDict(base=P.SymBase(lambda k: AD(k), lambda k: P.SStr(AT(k.z)))))


ALIAS_REQ = "alias names are distinct from aliased names and no two aliases declare the same name (requires)"


def params_ok(it, s, params, what):
    """obligation: the parameters passed to a component are the user's after the declared renaming"""
    run = it.run
    q = s["q"]
    h = it.zb(it.contains(P.SStr(q), params))
    s["obl"].add(it, "%s sees exactly the renamed names" % what, h == s["has"](q))
    if run.entails(h) or run.feasible(h):
        sub = list(run.pc)
        run.pc.append(h)
        try:
            v = it.getitem(params, P.SStr(q))
            s["obl"].add(it, "%s sees the user's value under the renamed name" % what, real(v) == s["val"](q))
        finally:
            run.pc[:] = sub


class Comp:
    """contract of a component"""

    def __init__(self, s):
        self.s = s

    def isinstance(self, it, o, c):
        m = comp_mod()
        cs = c if isinstance(c, tuple) else (c,)
        z = P.FALSE
        for x in cs:
            z = P.zor(z, P.TRUE if x in (m.Component, object) else SIM(o.z) if x is m.ComponentSim else FIX(o.z) if x is m.ComponentFixed else P.FALSE)
        return z

    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        s = self.s
        if name == "simulate_hist":
            return P.Contract(lambda it, a, k: self.sim_hist(it, o, a, k), name)
        if name == "simulate_weighted_data" and "weighted" in s:
            return P.Contract(lambda it, a, k: s["weighted"](it, o, a, k), name)
        if name == "simulate" and "simulate" in s:
            return P.Contract(lambda it, a, k: s["simulate"](it, o, a, k), name)
        if name == "needed_parameters":
            return it.run.cell(P.MSet(base=P.SymBase(lambda k: NEED(o.z, k))))
        if name == "name":
            return P.SStr(o.z)
        if name in ("deduce", "compile"):
            def f(it, a, k):
                it.run.log.append((name, (o,) + tuple(a), {}, None))
            return P.Contract(f, name)
        if name == "set_binning":
            return P.Contract(lambda it, a, k: None, name)
        return P._MISSING

    def setattr(self, it, o, name, v):
        it.run.log.append(("set", (o, name), {}, v))

    def call_args(self, it, o, a, k):
        """(key, batch, parameters) of a call; decides between the two kinds of component"""
        if it.run.truth(SIM(o.z)):
            b = bind(["key", "batch_size", "parameters"], a, k)
            s = self.s
            s["obl"].add(it, "simulated component gets the requested batch size", P.zreal(P.anum(b["batch_size"]).z) == P.zreal(s.get("batch", BATCH)))
            return True, b
        if a and len(a) > 1:
            a = a[:1]
        return False, bind(["parameters"], a, {x: y for x, y in k.items() if x == "parameters"})

    def sim_hist(self, it, o, a, k):
        s = self.s
        sim, b = self.call_args(it, o, a, k)
        params_ok(it, s, b["parameters"], "simulate_hist")
        if sim:
            key = b["key"]
            if not isinstance(key, P.SOpq):
                raise P.Unsupported("key")
            return (P.SOpq(NEXT(o.z, key.z), "key"), P.SArr(NB, lambda j: P.SNum(HS(o.z, key.z, smt.num(j)))))
        return P.SArr(NB, lambda j: P.SNum(HF(o.z, smt.num(j))))


_REAL = {}


def real_instance():
    """a real Likelihood built from a tiny data file; its attributes are used where they play no role"""
    if "l" in _REAL:
        return _REAL["l"]
    d = tempfile.mkdtemp(prefix="vc_llh_")
    try:
        f = os.path.join(d, "d.csv")
        with open(f, "w") as g:
            g.write("cs1,cs2\n1,2\n3,4\n2,5\n")
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _REAL["l"] = mod().Likelihood(name="vc_probe", data_file_name=f, bins_type="irreg", bins_on=["cs1", "cs2"],
                                          bins=[[0.0, 2.0, 9.0], [[0.0, 3.0, 9.0], [0.0, 4.0, 9.0]]],
                                          x_clip=[0, 9], y_clip=[0, 9], parameter_alias={"alias_x": "target_y"})
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    return _REAL["l"]


def instance(it, s, ncomp=None):
    """an arbitrary registered likelihood: s gets inst, components, alias, has/val (renaming), obl"""
    run = it.run
    l = real_instance()
    attrs = {}
    seen = set()
    s["obl"] = Obl()
    s["q"] = z3.Const("q", N)
    s["has"], s["val"] = renamed(run)
    s["alias"] = aliases(it)
    model = Comp(s)
    s["model"] = model
    k = z3.Const("lk!k", N)
    run.fact(z3.ForAll([k], SIM(k) != FIX(k), patterns=[SIM(k)]))
    run.fact(NB >= 0)
    if ncomp is None:
        s["components"] = run.cell(P.MDict(base=P.SymBase(lambda k: CD(k), lambda k: P.SObj(model, k.z))))
    else:
        nm = [z3.Const("comp%d" % j, N) for j in range(ncomp)]
        s["names"] = nm
        if ncomp > 1:
            run.fact(z3.Distinct(*nm))
        s["components"] = run.cell(P.MDict([(P.SStr(x), P.SObj(model, x)) for x in nm]))
    for a, v in vars(l).items():
        if isinstance(v, dict) and v == {"alias_x": "target_y"}:
            attrs[a] = s["alias"]
            seen.add("alias")
        elif a == "components":
            attrs[a] = s["components"]
            seen.add("components")
        elif a == "needed_parameters":
            s["needed"] = run.cell(P.MSet(base=P.SymBase(lambda k: s["need0"](k)))) if "need0" in s else run.cell(P.MSet())
            attrs[a] = s["needed"]
        elif a == "data_hist":
            attrs[a] = P.SArr(NB, lambda j: P.SNum(DATA(smt.num(j))))
        elif "alias_x" in repr(v) or "target_y" in repr(v):
            attrs[a] = P.Poison("attribute %s of Likelihood" % a)
        else:
            attrs[a] = v
    if seen != {"alias", "components"}:
        raise P.Unsupported("Likelihood keeps no alias table or no components")
    s["inst"] = run.cell(P.Inst(mod().Likelihood, attrs))
    return s


def real_lit():
    if "lit" not in _REAL:
        _REAL["lit"] = mod().LikelihoodLit(name="vc_probe_lit", bins_on=["energy", "ly"], variable_type="norm",
                                           logpdf_args=[["loc", "scale"], [[1.0], [2.0]]], parameter_alias={"alias_x": "target_y"})
    return _REAL["lit"]


def lit_instance(it, s, logpdf=None):
    """a literature likelihood with its one registered component"""
    run = it.run
    l = real_lit()
    s["obl"] = Obl()
    s["q"] = z3.Const("q", N)
    s["has"], s["val"] = renamed(run)
    s["alias"] = aliases(it)
    s["model"] = Comp(s)
    c0 = z3.Const("the_component", N)
    s["c0"] = c0
    run.fact(SIM(c0))
    run.fact(z3.Not(FIX(c0)))
    s["components"] = run.cell(P.MDict([(P.SStr(c0), P.SObj(s["model"], c0))]))
    attrs, seen = {}, set()
    probe = dict(vars(l))
    # attributes set by register_component
    extra = _lit_registered()
    for a, v in list(probe.items()) + [(a, v) for a, v in extra.items() if a not in probe]:
        if isinstance(v, dict) and v == {"alias_x": "target_y"}:
            attrs[a] = s["alias"]
            seen.add(a)
        elif a == "components":
            attrs[a] = s["components"]
        elif a == "logpdf" and logpdf is not None:
            attrs[a] = logpdf
        elif isinstance(v, str) and v == "vc_only_component":
            attrs[a] = P.SStr(c0)
        elif "alias_x" in repr(v) or "target_y" in repr(v):
            attrs[a] = P.Poison("attribute %s of LikelihoodLit" % a)
        else:
            attrs[a] = v
    if not seen:
        raise P.Unsupported("no alias table")
    s["inst"] = run.cell(P.Inst(mod().LikelihoodLit, attrs))
    return s


def _lit_registered():
    """attributes register_component adds to a literature likelihood, found on a real one with a stub component"""
    m = comp_mod()

    class Stub(m.Component):
        def __init__(self, **k):
            self.needed_parameters = set()

        def deduce(self, **k):
            pass
    l = mod().LikelihoodLit(name="vc_probe_lit2", bins_on=["energy", "ly"], variable_type="norm",
                            logpdf_args=[["loc", "scale"], [[1.0], [2.0]]], parameter_alias={})
    before = set(vars(l))
    l.register_component(Stub, "vc_only_component")
    return {a: v for a, v in vars(l).items() if a not in before}


def contracts():
    import warnings
    return {warnings.warn: lambda it, a, k: None}


# ---------------------------------------------------------------- concrete side
def make_likelihood(rows, name="vc_llh", alias=None, bins=None, cls=None, **kw):
    """a real likelihood over the given data rows (irregular 2D binning)"""
    import shutil
    import warnings
    d = tempfile.mkdtemp(prefix="vc_llh_")
    try:
        f = os.path.join(d, "d.csv")
        with open(f, "w") as g:
            g.write("cs1,cs2\n" + "".join("%r,%r\n" % (float(a), float(b)) for a, b in rows))
        cfg = dict(data_file_name=f, bins_type="irreg", bins_on=["cs1", "cs2"],
                   bins=bins or [[0.0, 2.0, 9.0], [[0.0, 3.0, 9.0], [0.0, 4.0, 9.0]]], x_clip=[0, 9], y_clip=[0, 9])
        cfg.update(kw)
        if alias is not None:
            cfg["parameter_alias"] = alias
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return (cls or mod().Likelihood)(name=name, **cfg)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def stub_components(spec, calls, shape):
    """spec: list of (kind, name, histogram values); the calls are logged"""
    m = comp_mod()

    class Sim(m.ComponentSim):
        def __init__(self, name, h):
            self.name, self.h, self.needed_parameters = name, h, set()
            self.rate_name = name + "_rate"

        def simulate_hist(self, key, batch_size, parameters):
            calls.append((self.name, key, batch_size, dict(parameters)))
            return key + 1, np.array(self.h, dtype=float).reshape(shape)

        def simulate_weighted_data(self, key, batch_size, parameters):
            calls.append((self.name, key, batch_size, dict(parameters)))
            return key + 1, [np.array(x, dtype=float) for x in self.h]

        def simulate(self, key, batch_size, parameters):
            calls.append((self.name, key, batch_size, dict(parameters)))
            return key + 1, [np.array(x, dtype=float) for x in self.h]

    class Fixed(m.ComponentFixed):
        def __init__(self, name, h):
            self.name, self.h, self.needed_parameters = name, h, set()
            self.rate_name = name + "_rate"

        def simulate_hist(self, parameters, *a, **k):
            calls.append((self.name, None, None, dict(parameters)))
            return np.array(self.h, dtype=float).reshape(shape)

        def simulate_weighted_data(self, parameters, *a, **k):
            calls.append((self.name, None, None, dict(parameters)))
            return [np.array(x, dtype=float) for x in self.h]
    return {n: (Sim if kind == "sim" else Fixed)(n, h) for kind, n, h in spec}
