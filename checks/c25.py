"""C25: the context manages exactly the parameters its likelihoods need."""
import copy
import os
import shutil
import tempfile

import z3

from vc import pysym as P
from vc import smt
from vc.harness import Unit
from vc.util import repo_fn
from checks import context_common as X

N, R, B, I, OPQ = X.N, X.R, X.B, X.I, X.OPQ
ASSUMPTIONS = ["no parameter is both copied from and copied to, and no two likelihoods copy to the same parameter (requires)",
               "Likelihood.needed_parameters is the set of parameters its components need (C18)"]
CD = z3.Function("config_dom", N, B)
CV = z3.Function("config_of", N, OPQ)
NEED0 = z3.Function("needed_before", N, B)
NEEDL = z3.Function("needed_by_likelihood", N, N, B)
PROV = z3.Function("provided", N, B)


class Cfg:
    """the configuration of one parameter (opaque)"""

    def is_none(self, it, o):
        return False

    def isinstance(self, it, o, c):
        return c is dict

    def deepcopy(self, it, o):
        return o

    def setitem(self, it, o, k, v):
        raise P.Unsupported("write to a parameter's configuration")


CFG = Cfg()


class Lk:
    """configuration of one likelihood: its copied parameters and its components"""

    def __init__(self, run, j):
        self.D, self.T = z3.Function("copy_dom%d" % j, N, B), z3.Function("copy_from%d" % j, N, N)
        self.C = z3.Function("component%d" % j, N, B)
        self.IS, self.W = z3.Function("is_source%d" % j, N, B), z3.Function("copied_to%d" % j, N, N)
        k = z3.Const("k", N)
        run.fact(z3.ForAll([k], z3.Implies(self.D(k), self.IS(self.T(k))), patterns=[self.T(k)]))
        run.fact(z3.ForAll([k], z3.Implies(self.IS(k), z3.And(self.D(self.W(k)), self.T(self.W(k)) == k)), patterns=[self.IS(k)]))
        run.fact(z3.ForAll([k], z3.Implies(self.IS(k), CD(k)), patterns=[self.IS(k)]))
        self.cfg = run.cell(P.MDict([
            ("copy_parameters", run.cell(P.MDict(base=P.SymBase(lambda x: self.D(x), lambda x: P.SStr(self.T(x.z)))))),
            ("components", run.cell(P.MDict(base=P.SymBase(lambda x: self.C(x), lambda x: P.SObj(CFG, z3.Const("component_config", OPQ))))))]))


def _update(n):
    def run(env):
        def body(it):
            s = {}
            it.state = s
            run = it.run
            s["lk"] = lk = [Lk(run, j) for j in range(n)]
            k = z3.Const("k", N)
            for a in lk:
                for b in lk:
                    run.fact(z3.ForAll([k], z3.Not(z3.And(a.D(k), b.IS(k))), patterns=[a.D(k)]))
                    run.fact(z3.ForAll([k], z3.Not(z3.And(a.D(k), b.IS(k))), patterns=[b.IS(k)]))
                    if a is not b:
                        run.fact(z3.ForAll([k], z3.Not(z3.And(a.D(k), b.D(k))), patterns=[a.D(k)]))
            names = [z3.Const("lk%d" % j, N) for j in range(n)]
            if n > 1:
                run.fact(z3.Distinct(*names))
            q = s["q"] = z3.Const("q", N)
            pc = run.cell(P.MDict(base=P.SymBase(lambda x: CD(x), lambda x: P.SObj(CFG, CV(x.z)))))
            inst = X.instance(it, run.cell(P.MDict()), P.SObj(CFG, z3.Const("store", OPQ)), dict(par_config=pc))
            lks = run.cell(P.MDict([(P.SStr(a), x.cfg) for a, x in zip(names, lk)]))
            r = it.call(it.getattr(inst, "update_parameter_config"), [lks])
            fin = it.getattr(inst, "par_config")
            s["has"] = it.zb(it.contains(P.SStr(q), fin))
            s["need"] = it.zb(it.contains(P.SStr(q), r))
            s["rate"] = [run.exists(it.keyseq(x.cfg.content[1][1][2]).n,
                                    lambda i, x=x: run.name(it.cat([it.keyseq(x.cfg.content[1][1][2]).elem(i), "_rate"])) == q) for x in lk]
            if run.feasible(s["has"]):
                sub = list(run.pc)
                run.pc.append(s["has"])
                s["v"] = it.getitem(fin, P.SStr(q))
                s["vpc"] = list(run.pc)
                run.pc[:] = sub
            return r
        for a, p in enumerate(P.explore(env, body, X.contracts())):
            tag = " [%d likelihoods, path %d]" % (n, a)
            s = p.state
            if p.kind == "raise":
                env.prove("no exception" + tag, z3.BoolVal(False), p.hyps)
                continue
            q, lk = s["q"], s["lk"]
            T = z3.Or(*[x.D(q) for x in lk]) if lk else z3.BoolVal(False)
            S = z3.Or(*[x.IS(q) for x in lk]) if lk else z3.BoolVal(False)
            RT = z3.Or(*s["rate"]) if lk else z3.BoolVal(False)
            env.prove("copied parameters are configured" + tag, s["has"], p.hyps + [T])
            env.prove("a source that is not a component's rate is dropped" + tag, z3.Not(s["has"]), p.hyps + [S, z3.Not(RT)])
            env.prove("every other configured parameter stays" + tag, s["has"], p.hyps + [CD(q), z3.Or(z3.Not(S), RT)])
            env.prove("no other parameter appears" + tag, z3.Or(CD(q), T), p.hyps + [s["has"]])
            if "v" in s:
                v = s["v"]
                env.check("the stored configuration is one of the given ones" + tag, isinstance(v, P.SObj), repr(v))
                if isinstance(v, P.SObj):
                    hv = list(p.run.facts) + s["vpc"]
                    for x in lk:
                        env.prove("a copied parameter gets the configuration it is copied from" + tag, v.z == CV(x.T(q)), hv + [x.D(q)])
                    env.prove("other parameters keep their configuration" + tag, v.z == CV(q), hv + [z3.Not(T)])
            env.prove("the copied parameters are reported as needed" + tag, s["need"] == T, p.hyps)
    return run


LKD = z3.Function("given_likelihood", N, B)
GD, GT = z3.Function("copied", N, N, B), z3.Function("copied_from", N, N, N)
GC = z3.Function("component_of", N, N, B)
GS, GL, GW = z3.Function("source", N, B), z3.Function("source_in", N, N), z3.Function("source_of", N, N)
GTGT, GTL = z3.Function("target", N, B), z3.Function("target_in", N, N)


class LkCfg(Cfg):
    """configuration of any of the likelihoods"""

    def getitem(self, it, o, k):
        run, l = it.run, o.z
        if k == "copy_parameters":
            return run.cell(P.MDict(base=P.SymBase(lambda x: GD(l, x), lambda x: P.SStr(GT(l, x.z)))))
        if k == "components":
            return run.cell(P.MDict(base=P.SymBase(lambda x: GC(l, x), lambda x: P.SObj(CFG, z3.Const("component_config", OPQ)))))
        raise P.Unsupported("entry %s of a likelihood" % k)


LKCFG = LkCfg()


def _update_any(env):
    """any number of likelihoods, each with any number of copied parameters and components"""
    def body(it):
        s = {}
        it.state = s
        run = it.run
        k, l, m = z3.Consts("k l m", N)
        fa = lambda vs, f, *p: run.fact(z3.ForAll(vs, f, patterns=list(p)))     # noqa: E731
        # sources and targets, by what they are
        fa([l, k], z3.Implies(z3.And(LKD(l), GD(l, k)), z3.And(GS(GT(l, k)), GTGT(k), GTL(k) == l)), GD(l, k))
        fa([k], z3.Implies(GS(k), z3.And(LKD(GL(k)), GD(GL(k), GW(k)), GT(GL(k), GW(k)) == k)), GS(k))
        fa([k], z3.Implies(GTGT(k), z3.And(LKD(GTL(k)), GD(GTL(k), k))), GTGT(k))       # targets are unique (requires)
        fa([k], z3.Implies(GS(k), z3.And(CD(k), z3.Not(GTGT(k)))), GS(k))               # sources are configured, no target is a source (requires)
        q = s["q"] = z3.Const("q", N)
        pc = run.cell(P.MDict(base=P.SymBase(lambda x: CD(x), lambda x: P.SObj(CFG, CV(x.z)))))
        inst = X.instance(it, run.cell(P.MDict()), P.SObj(CFG, z3.Const("store", OPQ)), dict(par_config=pc))
        lks = run.cell(P.MDict(base=P.SymBase(lambda x: LKD(x), lambda x: P.SObj(LKCFG, x.z))))
        r = it.call(it.getattr(inst, "update_parameter_config"), [lks])
        fin = it.getattr(inst, "par_config")
        s["has"] = it.zb(it.contains(P.SStr(q), fin))
        s["need"] = it.zb(it.contains(P.SStr(q), r))
        s["rate"] = lambda l, c: z3.And(LKD(l), GC(l, c), run.name(it.cat([P.SStr(c), "_rate"])) == q)
        if run.feasible(s["has"]):
            sub = list(run.pc)
            run.pc.append(s["has"])
            s["v"] = it.getitem(fin, P.SStr(q))
            s["vpc"] = list(run.pc)
            run.pc[:] = sub
        return r
    for a, p in enumerate(P.explore(env, body, X.contracts())):
        tag = " [any likelihoods, path %d]" % a
        s = p.state
        if p.kind == "raise":
            env.prove("no exception" + tag, z3.BoolVal(False), p.hyps)
            continue
        q = s["q"]
        l, c, l0, c0 = z3.Consts("l c l0 c0", N)
        israte = z3.Exists([l, c], s["rate"](l, c))
        hy = list(p.run.facts) + p.hyps
        env.prove("copied parameters are configured" + tag, s["has"], hy + [GTGT(q)])
        env.prove("a source that is not a component's rate is dropped" + tag, z3.Not(s["has"]), hy + [GS(q), z3.Not(israte)])
        env.prove("a source that is a component's rate stays" + tag, s["has"], hy + [GS(q), z3.Not(GTGT(q)), s["rate"](l0, c0)])
        env.prove("every other configured parameter stays" + tag, s["has"], hy + [CD(q), z3.Not(GS(q))])
        env.prove("no other parameter appears" + tag, z3.Or(CD(q), GTGT(q)), hy + [s["has"]])
        if "v" in s:
            v = s["v"]
            env.check("the stored configuration is one of the given ones" + tag, isinstance(v, P.SObj), repr(v))
            if isinstance(v, P.SObj):
                hv = list(p.run.facts) + s["vpc"]
                env.prove("a copied parameter gets the configuration it is copied from" + tag, v.z == CV(GT(GTL(q), q)), hv + [GTGT(q)])
                env.prove("other parameters keep their configuration" + tag, v.z == CV(q), hv + [z3.Not(GTGT(q))])
        env.prove("the copied parameters are reported as needed" + tag, s["need"] == GTGT(q), hy)


class LikM:
    def __init__(self, s):
        self.s = s

    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        s = self.s
        if name == "register_component":
            def f(it, a, k):
                s["reg"].append((a, k))
                s["registered"] = True
            return P.Contract(f, name)
        if name == "needed_parameters":
            return it.run.cell(P.MSet(base=P.SymBase((lambda k: NEEDL(o.z, k)) if s["registered"] else (lambda k: z3.Function("needed_too_early", N, B)(k)))))
        return P._MISSING


LD = z3.Function("likelihood_dom", N, B)


def _register(env):
    def body(it):
        run = it.run
        s = dict(reg=[], registered=False, q=z3.Const("q", N), l=z3.Const("llh", N), c=z3.Const("comp", N), cls=P.SObj(CFG, z3.Const("component_class", OPQ)))
        it.state = s
        model = LikM(s)
        ls = run.cell(P.MDict(base=P.SymBase(lambda k: LD(k), lambda k: P.SObj(model, k.z))))
        need = run.cell(P.MSet(base=P.SymBase(lambda k: NEED0(k))))
        inst = X.instance(it, ls, P.SObj(CFG, z3.Const("store", OPQ)), dict(needed_parameters=need))
        run.fact(LD(s["l"]))
        it.call(it.getattr(inst, "register_component"), [P.SStr(s["l"]), s["cls"], P.SStr(s["c"])])
        s["after"] = it.zb(it.contains(P.SStr(s["q"]), it.getattr(inst, "needed_parameters")))
    for a, p in enumerate(P.explore(env, body, X.contracts())):
        tag = " [path %d]" % a
        s = p.state
        if p.kind == "raise":
            env.prove("no exception" + tag, z3.BoolVal(False), p.hyps)
            continue
        ok = len(s["reg"]) == 1
        env.check("the component is registered once with its likelihood" + tag, ok, "%d registrations" % len(s["reg"]))
        if ok:
            a, k = s["reg"][0]
            v = list(a) + list(k.values())
            env.check("the given class is registered" + tag, any(x is s["cls"] for x in v), repr(v))
            env.check("under the given name" + tag, any(isinstance(x, P.SStr) and z3.eq(x.z, s["c"]) for x in v), repr(v))
        env.prove("needed: what was needed before and what the likelihood needs now" + tag,
                  s["after"] == z3.Or(NEED0(s["q"]), NEEDL(s["l"], s["q"])), p.hyps)


class ParM:
    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        if name == "get_all_parameter":
            return P.Contract(lambda it, a, k: it.run.cell(P.MDict(base=P.SymBase(lambda x: PROV(x), lambda x: P.SNum(z3.Function("value", N, R)(x.z))))), name)
        raise P.PyRaise(P.Exc(AssertionError, ("vc: the fit has started",)))


def _sanity(method, args):
    def run(env):
        def body(it):
            run = it.run
            s = dict(q=z3.Const("q", N))
            it.state = s
            need = run.cell(P.MSet(base=P.SymBase(lambda k: NEED0(k))))
            inst = X.instance(it, run.cell(P.MDict()), P.SObj(ParM(), z3.Const("store", OPQ)), dict(needed_parameters=need))
            if method == "fitting":
                run.fact(z3.Int("nwalkers") > 0)
                it.call(it.getattr(inst, method), [P.SNum(z3.Int("nwalkers")), P.SNum(z3.Int("iterations"))])
            else:
                it.call(it.getattr(inst, method), [])
        k = z3.Const("k", N)
        good = z3.ForAll([k], z3.Implies(PROV(k), NEED0(k)), patterns=[PROV(k)])
        refused = 0
        for a, p in enumerate(P.explore(env, body, X.contracts())):
            tag = " [path %d]" % a
            s = p.state
            started = p.kind == "raise" and isinstance(p.value, P.Exc) and p.value.cls is AssertionError and "vc: the fit has started" in map(str, p.value.args)
            if p.kind == "raise" and not started:
                env.prove("refused only if some configured parameter is not needed" + tag, z3.BoolVal(False), p.hyps + [good])
                ok = isinstance(p.value, P.Exc) and issubclass(p.value.cls, RuntimeError)
                env.check("refused with an error" + tag, ok, repr(p.value))
                refused += 1
            else:
                env.prove("accepted only if every configured parameter is needed" + tag, NEED0(s["q"]), p.hyps + [PROV(s["q"])])
        env.check("a configured parameter that nobody needs is refused", refused > 0, "never refused")
    return run


def units():
    p = "appletree/context.py:Context."
    return [Unit("Context.update_parameter_config", [p + "update_parameter_config"], _update_any,
                 fallbacks=[lambda env: [_update(n)(env) for n in (0, 1, 2)]],
                 fallback_bounds=["at most 2 likelihoods (each with any number of copies and components)"]),
            Unit("Context.register_component", [p + "register_component"], _register),
            Unit("Context._sanity_check", [p + "_sanity_check"], _sanity("_sanity_check", [])),
            Unit("Context.fitting", [p + "fitting", p + "_sanity_check"], _sanity("fitting", []))]


# ---------------------------------------------------------------- concrete side
_D = {}


def data_file():
    if "f" not in _D:
        import atexit
        d = tempfile.mkdtemp(prefix="vc_ctx_")
        atexit.register(shutil.rmtree, d, True)
        _D["f"] = os.path.join(d, "d.csv")
        with open(_D["f"], "w") as g:
            g.write("cs1,cs2\n1.0,2.0\n3.0,4.0\n")
    return _D["f"]


def stub_class(need):
    base = repo_fn("appletree.component", "ComponentSim")

    class VcStub(base):
        def __init__(self, name=None, llh_name=None, **k):
            self.name, self.llh_name = name, llh_name
            self.needed_parameters = set()

        def deduce(self, *a, **k):
            self.needed_parameters = set(need) | {self.rate_name}

        def compile(self):
            pass

        def _compile(self):
            pass
    return VcStub


def llh_config(copies, comps):
    return dict(data_file_name=data_file(), bins_type="irreg", bins_on=["cs1", "cs2"], bins=[[0.0, 2.0, 9.0], [[0.0, 3.0, 9.0], [0.0, 4.0, 9.0]]],
                x_clip=[0, 9], y_clip=[0, 9], copy_parameters=copies, components=comps)


def par(v, fixed=False):
    return dict(prior_type="fixed" if fixed else "uniform", prior_args=dict(val=v) if fixed else dict(lower=v - 1, upper=v + 1), allowed_range=[v - 1, v + 1],
                init_mean=None if fixed else v, init_std=None if fixed else 0.1, unit="1", doc="")


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        base = ["p%d" % i for i in range(rng.randint(0, 4))]
        nl = rng.randint(0, 3)
        comps = [["c%d%d" % (j, i) for i in range(rng.randint(0, 2))] for j in range(nl)]
        shared = ["rate_src"] * (rng.random() < 0.7)
        srcs = shared + [c + "_rate" for cs in comps for c in cs if rng.random() < 0.3] + base[:1] * (rng.random() < 0.3)
        llh = []
        for j in range(nl):
            cp = {}
            for i, c in enumerate(comps[j]):
                if srcs and rng.random() < 0.6 and c + "_rate" not in srcs:
                    cp[c + "_rate"] = rng.choice(srcs)
            if srcs and rng.random() < 0.3:
                cp["x%d" % j] = rng.choice(srcs)
            llh.append([cp, [[c, [b for b in base if rng.random() < 0.5]] for c in comps[j]]])
        yield dict(base=base, srcs=sorted(set(srcs)), llh=llh, fit=rng.random() < 0.3)


class _Stop(Exception):
    pass


def run_case(c):
    import appletree as apt
    cfg = {b: par(float(i)) for i, b in enumerate(c["base"])}
    for i, s in enumerate(c["srcs"]):
        cfg.setdefault(s, par(10.0 + i, fixed=i % 2 == 1))
    targets = {k for cp, _ in c["llh"] for k in cp}
    for cp, comps in c["llh"]:
        for n, _ in comps:
            if n + "_rate" not in targets:
                cfg.setdefault(n + "_rate", par(30.0))
    inst = dict(likelihoods={}, configs={}, par_config={})
    made = []
    try:
        for j, (cp, comps) in enumerate(c["llh"]):
            cc = {}
            for n, need in comps:
                nm = "VcStub_%s" % n
                setattr(apt.components, nm, stub_class(need))
                made.append(nm)
                cc[n] = nm if len(n) % 2 else dict(component_cls=nm)
            inst["likelihoods"]["l%d" % j] = llh_config(dict(cp), cc)
        mine = copy.deepcopy(cfg)
        with X.Quiet():
            t = apt.Context(inst, par_config=mine)
    finally:
        for nm in made:
            delattr(apt.components, nm)
    if mine != cfg:
        return "the caller's configuration was modified"
    rates = {n + "_rate" for _, comps in c["llh"] for n, _ in comps}
    want = copy.deepcopy(cfg)
    srcs = set()
    for cp, _ in c["llh"]:
        for k, v in cp.items():
            want[k] = cfg[v]
            srcs.add(v)
    for v in srcs - rates:
        want.pop(v)
    if dict(t.par_config) != want:
        return "configured parameters %s instead of %s" % (sorted(t.par_config), sorted(want)) if set(t.par_config) != set(want) else \
            "configurations differ: %s" % [k for k in want if t.par_config[k] != want[k]]
    need = set(targets) | rates | {b for _, comps in c["llh"] for _, nd in comps for b in nd}
    if set(t.needed_parameters) != need:
        return "needed %s instead of %s" % (sorted(t.needed_parameters), sorted(need))
    if set(t.par_manager.get_all_parameter()) != set(want):
        return "parameter store has %s" % sorted(t.par_manager.get_all_parameter())

    def stop(*a, **k):
        raise _Stop()
    t.pre_fitting = stop
    bad = not set(want) <= need
    try:
        with X.Quiet():
            t.fitting(nwalkers=4, iteration=1) if c["fit"] else t._sanity_check() if hasattr(t, "_sanity_check") else None
    except _Stop:
        if bad:
            return "the fit started although %s are not needed" % sorted(set(want) - need)
    except RuntimeError:
        if not bad:
            return "refused although all parameters are needed"
    else:
        if bad:
            return "accepted although %s are not needed" % sorted(set(want) - need)
    return None
