"""contracts of the bundled simulation steps (appletree/plugins), shared by C09-C13

Every step is verified on its own: its inputs satisfy the listed facts (requires), its outputs must
satisfy the listed facts (ensures).  A fact names variables of the simulation; every variable has one
provider, so a fact established by its provider holds for the rest of the simulation.  For each bundled
component it is checked that every fact a step requires is ensured by a step of the same component.
"""
import importlib
import inspect

import numpy as np
import jax.numpy as jnp
import z3

F32, I32 = np.float32, np.int32
MODULES = ["common", "er_microphys", "lyqy", "detector", "reconstruction", "efficiency", "nestv2", "er_nestv2"]
COUNTS = {"num_quanta", "num_ion", "num_photon", "num_electron", "num_s1_phd", "num_s1_pe", "num_electron_drifted",
          "Ni", "Nex", "Nq"}
COMPONENTS = ["ERBand", "ERPeak", "ERBandNestV2", "ERPeakNestV2", "NR", "MonoEnergiesYields", "BandEnergiesYields"]

ASSUMPTIONS = [
    "jax.random by contract (supports of the distributions, determinism in the key); numbers are reals, numpy's float32 rounding is not modelled",
    "maps are uninterpreted functions of the position handed to them (their interpolation is C02-C07); values of maps that are efficiencies, lifetimes or gains satisfy the requires listed per step",
    "parameters satisfy the listed requires (physical domain): w, w-like scales, gains and densities positive, probabilities in [0, 1], Fano factors not negative",
]

# ---------------------------------------------------------------- facts over simulation variables
FACTS = {}


def fact(name, *vs):
    def deco(f):
        FACTS[name] = (vs, f)
        return f
    return deco


def _ge0(v):
    FACTS["%s >= 0" % v] = ((v,), lambda e: [(e[v], ">=", 0)])


def _gt0(v):
    FACTS["%s > 0" % v] = ((v,), lambda e: [(e[v], ">", 0)])


def _unit(v):
    FACTS["0 <= %s <= 1" % v] = ((v,), lambda e: [(e[v], ">=", 0), (e[v], "<=", 1)])


def _le(a, b):
    FACTS["%s <= %s" % (a, b)] = ((a, b), lambda e: [(e[a], "<=", e[b])])


def _int(v):
    FACTS["%s integer" % v] = ((v,), lambda e: [(e[v], "int", None)])


for _v in ("energy", "num_quanta", "num_ion", "num_photon", "num_electron", "num_s1_phd", "num_s1_pe", "num_electron_drifted",
           "num_s2_pe", "Ni", "Nex", "Nq", "light_yield", "charge_yield", "_Nq", "_Nph", "_Ne", "nex_ni_ratio", "recomb_std",
           "field", "fano_nq", "Variance", "omega", "rec_r", "elecFrac"):
    _ge0(_v)
for _v in ("energy", "field", "ThomasImel", "drift_survive_prob", "alf"):
    _gt0(_v)
for _v in ("recomb", "drift_survive_prob", "acc_s1_recon_eff", "cut_acc_s1", "cut_acc_s2", "acc_s2_threshold", "eff", "alf", "recombProb"):
    _unit(_v)
for _a, _b in (("num_ion", "num_quanta"), ("num_electron", "num_ion"), ("num_electron", "num_quanta"), ("num_electron", "Ni"), ("Nex", "num_photon"),
               ("num_s1_phd", "num_photon"), ("num_s1_phd", "num_s1_pe"), ("num_electron_drifted", "num_electron"), ("Ni", "Nq"), ("Nex", "Nq")):
    _le(_a, _b)
for _v in sorted(COUNTS) + ["num_s2_pe"]:
    _int(_v)
FACTS["num_s1_pe <= 2 num_s1_phd"] = (("num_s1_pe", "num_s1_phd"), lambda e: [(e["num_s1_pe"], "<=", 2 * e["num_s1_phd"])])
FACTS["num_photon + num_electron == num_quanta"] = (("num_photon", "num_electron", "num_quanta"), lambda e: [(e["num_photon"] + e["num_electron"], "==", e["num_quanta"])])
FACTS["num_photon + num_electron == Nq"] = (("num_photon", "num_electron", "Nq"), lambda e: [(e["num_photon"] + e["num_electron"], "==", e["Nq"])])
FACTS["num_photon + num_electron >= Nq"] = (("num_photon", "num_electron", "Nq"), lambda e: [(e["num_photon"] + e["num_electron"], ">=", e["Nq"])])
FACTS["Ni + Nex == Nq"] = (("Ni", "Nex", "Nq"), lambda e: [(e["Ni"] + e["Nex"], "==", e["Nq"])])
FACTS["eff is the product of the acceptances"] = (("eff", "acc_s2_threshold", "acc_s1_recon_eff", "cut_acc_s1", "cut_acc_s2"), lambda e: [
    (e["eff"], "==", e["acc_s2_threshold"] * e["acc_s1_recon_eff"] * e["cut_acc_s1"] * e["cut_acc_s2"])])
FACTS["rec_r^2 == rec_x^2 + rec_y^2"] = (("rec_r", "rec_x", "rec_y"), lambda e: [(e["rec_r"] * e["rec_r"], "==", e["rec_x"] * e["rec_x"] + e["rec_y"] * e["rec_y"])])
FACTS["cs1 == s1_area / s1_correction"] = (("cs1", "s1_area", "s1_correction"), lambda e: [(e["cs1"] * e["s1_correction"], "==", e["s1_area"])])
FACTS["cs2 == s2_area / s2_correction / drift_survive_prob"] = (("cs2", "s2_area", "s2_correction", "drift_survive_prob"), lambda e: [
    (e["cs2"] * e["s2_correction"] * e["drift_survive_prob"], "==", e["s2_area"])])
FACTS["s1_correction != 0"] = (("s1_correction",), lambda e: [(e["s1_correction"], "!=", 0)])
FACTS["s2_correction != 0"] = (("s2_correction",), lambda e: [(e["s2_correction"], "!=", 0)])
FACTS["s2_lce >= 0"] = (("s2_lce",), lambda e: [(e["s2_lce"], ">=", 0)])
FACTS["_Nph + _Ne > 0"] = (("_Nph", "_Ne"), lambda e: [(e["_Nph"] + e["_Ne"], ">", 0)])
FACTS["no exciton or quanta deficit"] = ((), lambda e: [])
FACTS["rec_z == z"] = (("rec_z", "z"), lambda e: [(e["rec_z"], "==", e["z"])])


class Spec:
    """contract of one step: facts required/ensured, requires on parameters and maps, extra obligations"""

    def __init__(self, module, cls, prop, req=(), ens=(), par=(), maps=None, extra=None, wd=True, variants=None, hyp=None, dims2=False, doms=None):
        self.hyp = hyp
        self.module, self.cls, self.prop = module, cls, prop
        self.req, self.ens, self.par, self.maps = list(req), list(ens), list(par), maps or {}
        self.extra, self.wd, self.dims2, self.doms = extra, wd, dims2, doms or {}

    @property
    def name(self):
        return "%s.%s" % (self.module, self.cls)

    @property
    def path(self):
        return "appletree/plugins/%s.py:%s" % (self.module, self.cls)


SPECS = []


def spec(*a, **k):
    s = Spec(*a, **k)
    SPECS.append(s)
    return s


def find(module, cls):
    for s in SPECS:
        if (s.module, s.cls) == (module, cls):
            return s
    return None


# ---------------------------------------------------------------- tracing a step
def _register_map_prim():
    from vc import jx
    if hasattr(jx, "map_p"):
        return jx.map_p
    p = jx._new_prim("vc_map")

    @p.def_abstract_eval
    def _abs(pos, *extra, name, which):
        from jax import core as c
        sh = tuple(pos.shape[:-1]) if len(pos.shape) == 2 and which != "same" else tuple(pos.shape)
        return jx._core.ShapedArray(sh, np.dtype("float32"))

    def ev(self, eqn, ins):
        name = eqn.params["name"]
        shape, dt = self.oshape(eqn)
        pos, extra = ins[0], ins[1:]
        d = 1
        multi = pos.rank > len(shape)
        if multi:
            d = pos.shape[-1]
            if not isinstance(d, int):
                raise jx.Unsupported("map of symbolic dimension")
        f = z3.Function("map_%s" % name, *([z3.RealSort()] * d), z3.RealSort())
        req = self.__dict__.get("map_req", {}).get(name)

        def fn(idx):
            els = [pos(tuple(idx) + (j,)) for j in range(d)] if multi else [pos(tuple(idx))]
            t = f(*[jx.toreal(jx.num(e.v)) if not jx.isnum(e.v) else z3.RealVal(str(e.v)) for e in els])
            if req is not None:
                self.env.fact(req(t))
            return jx.El(t, jx.band(*[e.wd for e in els]))
        return jx.Arr(shape, dt, fn)
    jx.Interp.p_vc_map = ev
    jx.map_p = p
    return p


class MapStub:
    def __init__(self, name):
        self.name = name

    def apply(self, pos):
        pos = jnp.asarray(pos)
        if pos.dtype.kind != "f":
            pos = pos.astype("float32")
        return _register_map_prim().bind(pos, name=self.name, which="same" if pos.ndim == 1 else "rows")


class SigmaStub(MapStub):
    def apply(self, pos, parameters):
        return MapStub.apply(self, pos)


class ConstStub:
    def __init__(self, v):
        self.value = v


class SetStub:
    def __init__(self, value, vol):
        self.value, self.set_volume = value, vol


def plugin_class(module, cls):
    from vc.util import repo_fn
    return repo_fn("appletree.plugins." + module, cls)


def all_plugins():
    """every simulation step defined in the bundled plugin modules"""
    from appletree.plugin import Plugin
    import appletree.plugins as P
    import pkgutil
    out = []
    for m in pkgutil.iter_modules(P.__path__):
        mod = importlib.import_module("appletree.plugins." + m.name)
        for n, c in sorted(vars(mod).items()):
            if inspect.isclass(c) and issubclass(c, Plugin) and c is not Plugin and c.__module__ == mod.__name__:
                out.append((m.name, n, c))
    return out


class Run:
    pass


def _traced(call, pnames, consts, nset, arrs, shp, K):
    from vc import jx
    return jx.trace(call, [jx.SDS((2,), np.uint32), [jx.SDS((), F32)] * len(pnames), [jx.SDS((), F32)] * len(consts),
                           [jx.SDS((K,), F32)] * nset, [jx.SDS(shp, dtype_of(d)) for d in arrs]])


def dtype_of(v):
    return I32 if v in COUNTS else F32


def run_plugin(env, module, cls, flags=None, inputs=None, label=None, spec=None, two_d=False, it=None, dims=None, shared=None):
    """traces cls.simulate and evaluates it symbolically; `shared` = an earlier run (same constants, parameters)"""
    from vc import jx
    from vc.smt import num
    from appletree import config as C
    klass = plugin_class(module, cls)
    if dims is None:
        dims = jx.Dims(env, ["N", "K"])
        it = jx.Interp(env, dims, label=label or cls)
    N, K = dims["N"], dims["K"]
    it.map_req = dict(it.__dict__.get("map_req", {}))
    if spec is not None:
        it.map_req.update(spec.maps)
    flags = dict(flags or {})
    consts, sets, stubs = [], [], {}
    for cn, c in klass.takes_config.items():
        if isinstance(c, C.SigmaMap):
            stubs[cn] = SigmaStub(cn)
        elif isinstance(c, C.Map):
            stubs[cn] = MapStub(cn)
        elif isinstance(c, C.ConstantSet):
            sets.append((cn, list(c.default[0])))
        elif isinstance(c, C.Constant):
            if isinstance(c.default, bool) or c.type is bool:
                stubs[cn] = ConstStub(flags[cn] if cn in flags else bool(c.default))
            elif isinstance(c.default, (int, float)) and not isinstance(c.default, bool):
                consts.append(cn)
            else:
                stubs[cn] = ConstStub(c.default)
        else:
            raise jx.Unsupported("configuration option of type %s" % type(c).__name__)
    pnames = list(klass.parameters)
    deps = list(klass.depends_on)
    shp = (N, K) if two_d else (N,)
    arrs = [d for d in deps if d != "batch_size"]

    def call(key, params, cvals, svals, ins):
        plug = klass.__new__(klass)
        plug.llh_name = None
        for k, v in stubs.items():
            setattr(plug, k, v)
        for k, v in zip(consts, cvals):
            setattr(plug, k, ConstStub(v))
        j = 0
        for k, names in sets:
            setattr(plug, k, SetStub({n: svals[j + i] for i, n in enumerate(names)}, K))
            j += len(names)
        a = {d: x for d, x in zip(arrs, ins)}
        a["batch_size"] = N
        return plug.simulate(key, dict(zip(pnames, params)), *[a[d] for d in deps])
    nset = sum(len(n) for _, n in sets)
    from vc.harness import ContractBroken
    try:
        cj, osd = _traced(call, pnames, consts, nset, arrs, shp, K)
    except KeyError as e:
        if e.args and isinstance(e.args[0], str) and e.args[0] not in pnames:
            raise ContractBroken("reads only the parameters it declares", "parameter %s is read but not declared" % e)
        raise
    r = Run()
    r.dims, r.it, r.klass = dims, it, klass
    if shared is not None:
        r.params, r.consts, r.sets, r.key = shared.params, shared.consts, shared.sets, shared.key
    else:
        r.params = {p: it.sym_array("p_" + p, (), F32) for p in pnames}
        r.consts = {c: it.sym_array("c_" + c, (), F32) for c in consts}
        r.sets = [it.sym_array("set_" + n, (K,), F32) for _, ns in sets for n in ns]
        r.key = it.key_array("key")
    r.setnames = [n for _, ns in sets for n in ns]
    r.inputs = dict(inputs or {})
    for d in arrs:
        if d not in r.inputs:
            r.inputs[d] = it.sym_array(d, shp, dtype_of(d))
    r.in_facts = []
    env.keylog = []
    nsite = len(getattr(env, "draw_sites", []))
    outs = it.run(cj, [r.key] + [r.params[p] for p in pnames] + [r.consts[c] for c in consts] + r.sets + [r.inputs[d] for d in arrs])
    r.sites = getattr(env, "draw_sites", [])[nsite:]
    r.log = env.keylog
    r.key_out = outs[0]
    r.provides = list(klass.provides) if not isinstance(klass.provides, str) else [klass.provides]
    env.check("returns the key and one value per provided variable", len(outs) == 1 + len(r.provides),
              "%d values for %s" % (len(outs) - 1, r.provides))
    if len(outs) != 1 + len(r.provides):
        raise jx.Unsupported("number of results")
    r.outs = dict(zip(r.provides, outs[1:]))
    r.shape = dims.shape(shp)
    r.two_d = two_d
    return r


def elements(env, r, shape=None, dual=False):
    """values of all variables at one arbitrary event"""
    from vc.smt import num
    from vc import jx
    shape = r.shape if shape is None else shape
    names = "nk"
    if not hasattr(env, "ev_idx"):
        env.ev_idx = [env.int("n"), env.int("k")]
    idx = tuple(env.ev_idx[:len(shape)])
    e, wds = {}, []
    for d, a in r.inputs.items():
        if a.rank == len(idx):
            e[d] = num(a(idx).v)
        elif a.rank < len(idx):
            e[d] = num(a(idx[:a.rank]).v)
    r.in_names = set(e)
    for o, a in r.outs.items():
        el = a(idx)
        e[o] = el
    r.idx = idx
    r.rng = [z3.And(i >= 0, i < num(d)) for i, d in zip(idx, shape)]
    r.el = {k: v for k, v in e.items() if not z3.is_expr(v)}
    r.v = {k: (v if z3.is_expr(v) else (num(v.v) if not isinstance(v.v, jx.Inf) else v.v)) for k, v in e.items()}
    r.pv = {p: num(a(()).v) for p, a in r.params.items()}
    r.cv = {c: num(a(()).v) for c, a in r.consts.items()}
    return r


def _re(x):
    if isinstance(x, (int, float)):
        return z3.RealVal(x)
    return x if z3.is_real(x) else z3.ToReal(x)


def zfact(name, v):
    """the fact as a formula over the values v"""
    vs, f = FACTS[name]
    out = []
    for a, op, b in f(v):
        if op == "int":
            if not z3.is_int(a):
                out.append(_isint(a))
            continue
        a, b = (a, b) if isinstance(b, int) else (_re(a), _re(b))
        out.append({">=": lambda: a >= b, ">": lambda: a > b, "<=": lambda: a <= b, "==": lambda: a == b, "!=": lambda: a != b}[op]())
    return z3.And(*out) if out else z3.BoolVal(True)


def _isint(a):
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL:
        return z3.BoolVal(True)
    return z3.IsInt(a)


def param_reqs(s, r):
    """requires on parameters: list of lambdas over dict-like parameter values"""
    out = []
    for p in s.par:
        try:
            out.append(p(r.cv if getattr(p, "const", False) else r.pv))
        except KeyError:
            continue        # the step does not use that parameter any more: nothing to require
    return out


def verify(env, s, flags=None, two_d=False):
    """all obligations of one step against its contract"""
    from checks.rand_common import callee_pres
    from vc import jx
    r = run_plugin(env, s.module, s.cls, flags=flags, spec=s, two_d=two_d)
    elements(env, r)
    env.check("one value per event", all(tuple(str(x) for x in a.shape) == tuple(str(x) for x in r.shape) for a in r.outs.values()) or s.dims2,
              "shapes %s for %s" % ({k: a.shape for k, a in r.outs.items()}, r.shape), kind="post")
    for k in r.outs:
        if isinstance(r.v[k], jx.Inf):
            env.fail("%s is finite" % k, "infinite")
            return r
    miss = [f for f in s.req if not all(x in r.in_names for x in FACTS[f][0])]
    hyps = list(r.rng) + [zfact(f, r.v) for f in s.req if f not in miss]
    hyps += param_reqs(s, r)
    if s.hyp is not None:
        hyps += s.hyp(r)
    env.reachable("requires satisfiable", hyps)
    r.hyps = hyps
    for f in s.ens:
        missing = [x for x in FACTS[f][0] if x not in r.v]
        if missing:
            env.fail(f, "%s is neither provided nor an input any more" % missing, "structural")
            continue
        env.prove(f, zfact(f, r.v), hyps)
    if s.wd:
        for k, el in r.el.items():
            if el.wd is not True:
                env.prove("%s is well defined" % k, el.wd if not isinstance(el.wd, bool) else z3.BoolVal(el.wd), hyps, kind="wd")
    if s.extra:
        s.extra(env, s, r)
    callee_pres(env, hyps)
    return r


def unit_for(s, **kw):
    from vc.harness import Unit
    name = s.name + ("" if not kw else " (%s)" % ", ".join("%s" % (v if k != "flags" else v) for k, v in kw.items()))
    return Unit(name, [s.path], lambda env: verify(env, s, **kw))


# ---------------------------------------------------------------- facts are established upstream
def component_registry(cname):
    """{variable: step class} of a freshly built bundled component, without reading any file"""
    from vc.util import repo_fn
    cls = repo_fn("appletree.components", cname)
    return cls()._plugin_class_registry if hasattr(cls(), "_plugin_class_registry") else cls().registry


def provider_unit(props):
    """every fact required by a step of these properties is ensured by its component"""
    from vc.harness import Unit

    def run(env):
        for cname in COMPONENTS:
            reg = component_registry(cname)
            classes = []
            for c in reg.values():
                if c not in classes:
                    classes.append(c)
            avail = {}
            for c in classes:
                s = find(c.__module__.split(".")[-1], c.__name__)
                if s is not None:
                    # only what the step still provides in this component counts
                    for f in s.ens:
                        vs = FACTS[f][0]
                        if all(v not in c.provides or reg.get(v) is c for v in vs):
                            avail[f] = c.__name__
            for c in classes:
                s = find(c.__module__.split(".")[-1], c.__name__)
                if s is None:
                    if any(reg.get(v) is c for v in c.provides):
                        env.check("%s: every step has a contract" % cname, False, "%s has none" % c.__name__, kind="structural")
                    continue
                if s.prop not in props or not any(reg.get(v) is c for v in c.provides):
                    continue
                for f in s.req:
                    vs = FACTS[f][0]
                    if not all(v in reg for v in vs):
                        continue       # the step is not part of any workflow of this component
                    env.check("%s: '%s' required by %s is ensured upstream" % (cname, f, s.cls), f in avail or f in UNPROVIDED,
                              "no step of %s ensures it" % cname, kind="structural")
    return Unit("facts required by a step are ensured upstream", ["appletree/components:" + ", ".join(COMPONENTS)], run)


UNPROVIDED = {}


def acceptance_unit():
    """the event weight of every bundled component takes every acceptance provided in it"""
    from vc.harness import Unit

    def run(env):
        for cname in COMPONENTS:
            reg = component_registry(cname)
            c = reg.get("eff")
            env.check("%s: a step provides eff" % cname, c is not None, "none", kind="structural")
            accs = sorted(v for v in reg if v.startswith(("acc_", "cut_acc_")))
            if c is not None and accs:
                miss = [a for a in accs if a not in c.depends_on]
                env.check("%s: the weight takes all acceptances" % cname, not miss, "%s are not part of the weight" % miss, kind="structural")
    return Unit("the event weight takes every acceptance of its component", ["appletree/components:" + ", ".join(COMPONENTS)], run)
