A = "appletree/"
CF, CO, LI, PA, CX, SH, UT, RG = A + "config.py", A + "component.py", A + "likelihood.py", A + "parameter.py", A + "context.py", A + "share.py", A + "utils.py", A + "randgen.py"

QUIET = """
import contextlib, io, json
"""
PLUG = """
import json
import appletree as apt, appletree.plugins
from appletree.plugin import Plugin
from appletree.component import ComponentSim
import jax.numpy as jnp


def step(name, dep, prov, pars=(), body=None, **kw):
    ns = dict(depends_on=list(dep), provides=list(prov), parameters=tuple(pars), **kw)
    src = "def simulate(self, key, parameters, %s):\\n    return body(key, parameters, %s)\\n" % (", ".join(dep), ", ".join(dep))
    g = dict(body=body or (lambda key, p, *a: (key,) + tuple(jnp.ones(3) for _ in prov)))
    exec(src, g)
    ns["simulate"] = g["simulate"]
    c = type(name, (Plugin,), ns)
    setattr(appletree.plugins, name, c)
    return c


class Comp(ComponentSim):
    norm_type = "on_pdf"
    add_eps_to_hist = False
"""
LIK = """
import os, tempfile
import appletree as apt
from appletree.component import ComponentSim, ComponentFixed
from appletree.likelihood import Likelihood
import jax, jax.numpy as jnp
tmp = tempfile.TemporaryDirectory()
data = os.path.join(tmp.name, "d.csv")
open(data, "w").write("cs1,cs2\\n1.0,1.0\\n1.5,3.0\\n3.0,2.0\\n")


def make(**kw):
    cfg = dict(data_file_name=data, bins_type="irreg", bins_on=["cs1", "cs2"], bins=[[0., 2., 4.], [[0., 2., 4.], [0., 3., 5.]]], x_clip=[0, 4], y_clip=[0, 5])
    cfg.update(kw)
    return Likelihood(name="llh", **cfg)


class Stub(ComponentSim):
    norm_type = "on_pdf"
    add_eps_to_hist = False
    needs = ()

    def deduce(self, *a, **k):
        self.needed_parameters = set(self.needs) | {self.rate_name}

    def compile(self):
        pass
"""
PARS = """
from appletree.parameter import Parameter


def par(kind, args, lo=-1.0, hi=1.0, mean=0.0, std=0.5):
    return dict(prior_type=kind, prior_args=args, allowed_range=[lo, hi], init_mean=mean, init_std=std, unit="1", doc="")
"""
CTX = """
import copy
from appletree.context import Context
from appletree.parameter import Parameter


def par(v):
    return dict(prior_type="uniform", prior_args=dict(lower=v - 1.0, upper=v + 1.0), allowed_range=[v - 1.0, v + 1.0], init_mean=v, init_std=0.1, unit="1", doc="")


def context(pars):
    c = Context.__new__(Context)
    c.par_config = copy.deepcopy(pars)
    c.likelihoods, c.needed_parameters, c.backend_h5 = {}, set(), None
    return c
"""
SEEDS = {
    "c05-upperlog": dict(property="C05", edits=[(CF, "        for a in coord_arrays:\n", "        for a in coord_arrays[:1]:\n")],
        needs="a grid map whose upper limit on a logarithmic axis is not positive", breaks="non-positive upper coordinates on a logarithmic axis are accepted",
        demo="""
import json, os
from appletree.config import Map
d = tempfile.TemporaryDirectory()
f = os.path.join(d.name, "m.json")
json.dump(dict(coordinate_type=["regbin", "log_regbin"], coordinate_name=["x", "y"], coordinate_lowers=[0.0, 1.0], coordinate_uppers=[1.0, 0.0], map=[[1.0, 2.0], [3.0, 4.0]]), open(f, "w"))
m = Map(name="vc_seed", default=f, method="LERP")
try:
    m.build()
except ValueError:
    sys.exit(0)
raise AssertionError("accepted")
"""),
    "c05-logfloor": dict(property="C05", edits=[(CF, "jnp.clip(safe_pos, FLOAT_POS_MIN, FLOAT_POS_MAX)", "jnp.clip(safe_pos, 1e-3, FLOAT_POS_MAX)")],
        needs="a logarithmic map that reaches below 1e-3 in its coordinate", breaks="positions below 1e-3 on a logarithmic axis are moved to 1e-3",
        demo="""
import json, os
from appletree.config import Map
d = tempfile.TemporaryDirectory()
f = os.path.join(d.name, "m.json")
json.dump(dict(coordinate_type="log_point", coordinate_name="x", coordinate_system=[1e-5, 1e-4, 1e-1], map=[1.0, 2.0, 5.0]), open(f, "w"))
m = Map(name="vc_seed", default=f, method="LERP")
m.build()
v = np.asarray(m.apply(np.array([1e-4, 1e-2])))
assert np.allclose(v, [2.0, 4.0], atol=1e-3), v
"""),
    "c06-saturate": dict(property="C06", edits=[(CF, "        add_neg = (median - lower) * sigma\n", "        add_neg = (median - lower) * jnp.maximum(sigma, -1.0)\n")],
        needs="a scaler below -1", breaks="the map never goes below its lower band",
        demo="""
import json, os
from appletree.config import SigmaMap
d = tempfile.TemporaryDirectory()
fs = []
for n, v in (("m", 2.0), ("l", 1.0), ("u", 4.0)):
    fs.append(os.path.join(d.name, n + ".json"))
    json.dump(dict(coordinate_type="point", coordinate_name="x", coordinate_system=[0.0, 1.0], map=[v, v]), open(fs[-1], "w"))
m = SigmaMap(name="vc_seed", default=fs + ["s"], method="LERP")
m.build("llh")
for s, w in ((0.0, 2.0), (1.0, 4.0), (-1.0, 1.0), (-1.5, 0.5)):
    r = float(np.asarray(m.apply(np.array([0.5]), dict(s=s)))[0])
    assert abs(r - w) < 1e-4, (s, r)
"""),
    "c07-smallnorm": dict(property="C07", edits=[(CF, "        norm = integrate_midpoint(x, pdf)\n", "        norm = max(integrate_midpoint(x, pdf), 1e-3)\n")],
        needs="a density whose integral is below 1e-3", breaks="densities with a small integral are not normalised",
        demo="""
from appletree.config import Map
m = Map(name="vc_seed", default="x")
x, c = m.pdf_to_cdf(np.array([0.0, 1.0, 2.0]), np.array([1e-5, 2e-5, 3e-5]))
assert abs(c[-1] - 1) < 1e-6, c
"""),
    "c14-staleparam": dict(property="C14", edits=[(CO, "                required_parameter = config.required_parameter(self.llh_name)\n",
        "                required_parameter = config.required_parameter(config.llh_name or self.llh_name)\n")],
        needs="two likelihoods that share a step whose uncertainty map is configured per likelihood, the first one built before the second is deduced",
        breaks="the parameters of the uncertainty maps are those of the likelihood built first",
        demo=PLUG + """
from appletree.config import SigmaMap, takes_config
d = tempfile.TemporaryDirectory()
f = os.path.join(d.name, "m.json")
json.dump(dict(coordinate_type="point", coordinate_name="x", coordinate_system=[0.0, 1.0], map=[1.0, 1.0]), open(f, "w"))
S = step("VcSeedStep", ["batch_size"], ["eff"])
takes_config(SigmaMap(name="vc_seed_map", default=[f, f, f, "s"], method="LERP"))(S)
apt.set_global_config({"vc_seed_map": {"one": [f, f, f, "s_one"], "two": [f, f, f, "s_two"]}})
out = []
for n in ("one", "two"):
    c = Comp(name="c", llh_name=n)
    c.rate_name = "rate"
    c.register(S)
    c.deduce(data_names=["eff"])
    c.compile()
    out.append(set(c.needed_parameters))
assert out == [{"rate", "s_one"}, {"rate", "s_two"}], out
"""),
    "c14-firstprovide": dict(property="C14", edits=[(CO, "            if plugin.__name__ in already_seen:\n                continue\n            self.worksheet", "            if plugin.provides[0] in already_seen:\n                continue\n            self.worksheet"),
        (CO, "            already_seen.append(plugin.__name__)\n            self.needed_parameters |=", "            already_seen.append(plugin.provides[0])\n            self.needed_parameters |=")],
        needs="a step that replaces only the first observable of a step with several observables, both being used", breaks="one of the two steps is missing in the workflow",
        demo=PLUG + """
a = step("VcSeedA", ["batch_size"], ["x", "y"], ["pa"])
b = step("VcSeedB", ["batch_size"], ["x"], ["pb"])
e = step("VcSeedE", ["x", "y"], ["eff"])
c = Comp(name="c", llh_name="one")
c.register([a, b, e])
c.deduce(data_names=["x", "y"])
assert {w[0] for w in c.worksheet} == {"VcSeedA", "VcSeedB", "VcSeedE"}, c.worksheet
assert c.needed_parameters == {"pa", "pb"}, c.needed_parameters
"""),
    "c16-smallsum": dict(property="C16", edits=[(CO, "            normalization_factor = 1 / jnp.sum(hist) * parameters[self.rate_name]\n", "            normalization_factor = 1 / jnp.maximum(jnp.sum(hist), 1.0) * parameters[self.rate_name]\n")],
        needs="an unnormalised histogram with a total content below one", breaks="the histogram does not sum to the rate",
        demo=LIK + """
c = Stub(name="c", llh_name="l", bins=[np.array([0., 1., 2.]), np.array([[0., 1., 2.], [0., 1., 2.]])], bins_type="irreg")
c.rate_name = "r"
c.simulate = lambda key, n, p: (key, [jnp.array([0.5, 1.5]), jnp.array([0.5, 1.5]), jnp.array([0.1, 0.2])])
k, h = c.simulate_hist(None, 2, dict(r=30.0))
assert abs(float(np.sum(h)) - 30.0) < 1e-3, h
"""),
    "c17-samekey": dict(property="C17", edits=[(LI, "                key, _hist = component.simulate_hist(key, batch_size, parameters)\n", "                new_key, _hist = component.simulate_hist(key, batch_size, parameters)\n"),
        (LI, "            hist += _hist\n        return key, hist\n", "            hist += _hist\n            if component_name == list(self.components)[-1] and isinstance(component, ComponentSim):\n                key = new_key\n        return key, hist\n")],
        needs="a likelihood with at least two simulated components", breaks="all components but the last are simulated with the same random key",
        demo=LIK + """
keys = []


def sim(self, key, n, p):
    keys.append(key)
    return key + 1, np.ones((2, 2))


Stub.simulate_hist = sim
l = make()
l.register_component(Stub, "a")
l.register_component(Stub, "b")
l._simulate_model_hist(1, 10, dict(a_rate=1.0, b_rate=1.0))
assert keys == [1, 2], keys
"""),
    "c18-bothgiven": dict(property="C18", edits=[(LI, "            if k in _parameters:\n", "            if k in _parameters and v not in _parameters:\n")],
        needs="parameters that contain both the alias and the aliased name", breaks="the value of the alias is ignored and the alias name reaches the simulation",
        demo=LIK + """
l = make(parameter_alias={"al": "x"})
r = l.replace_alias(dict(al=1.0, x=2.0, y=3.0))
assert r == dict(x=1.0, y=3.0), r
"""),
    "c19-upperbound": dict(property="C19", edits=[(PA, "val > setting[\"allowed_range\"][1]:\n", "val >= setting[\"allowed_range\"][1]:\n")],
        needs="a fitted parameter exactly at its upper bound", breaks="the upper bound itself is excluded",
        demo=PARS + """
p = Parameter(dict(a=par("uniform", dict(lower=-1.0, upper=1.0))))
p.set_parameter("a", 1.0)
assert p.log_prior == 0, p.log_prior
"""),
    "c20-uniformclip": dict(property="C20", edits=[(PA, "                val = np.random.uniform(**kwargs)\n                self._parameter_dict[par_name] = np.clip(val, *setting[\"allowed_range\"])\n",
        "                val = np.random.uniform(**kwargs)\n                self._parameter_dict[par_name] = val\n")],
        needs="a uniform prior that is wider than the allowed range", breaks="sampled values can lie outside of the allowed range",
        demo=PARS + """
p = Parameter(dict(a=par("uniform", dict(lower=-9.0, upper=9.0))))
for s in range(50):
    p.init_parameter(seed=s)
    assert -1 <= p["a"] <= 1, p["a"]
"""),
    "c21-partial": dict(property="C21", edits=[(PA, "            assert len(keys) == len(vals), \"keys must have the same length as vals!\"\n", "            assert len(keys) >= len(vals), \"keys must have the same length as vals!\"\n")],
        needs="a list of more names than values", breaks="lists of different length are accepted and set in part",
        demo=PARS + """
p = Parameter(dict(a=par("uniform", dict(lower=-1.0, upper=1.0)), b=par("uniform", dict(lower=-1.0, upper=1.0))))
old = dict(p.get_all_parameter())
try:
    p.set_parameter(["a", "b"], [0.25])
except AssertionError:
    assert dict(p.get_all_parameter()) == old
    sys.exit(0)
raise AssertionError("accepted")
"""),
    "c21-sorted": dict(property="C21", edits=[(PA, "            return np.array([self._parameter_dict[key] for key in keys])\n", "            return np.array([self._parameter_dict[key] for key in sorted(keys)])\n")],
        needs="reading a list of names that is not sorted", breaks="values are returned in the order of the sorted names",
        demo=PARS + """
p = Parameter(dict(a=par("uniform", dict(lower=-1.0, upper=1.0)), b=par("uniform", dict(lower=-1.0, upper=1.0))))
p.set_parameter(dict(a=0.25, b=-0.5))
assert list(p.get_parameter(["b", "a"])) == [-0.5, 0.25]
"""),
    "c22-nanprior": dict(property="C22", edits=[(CX, "        if not np.isfinite(log_prior):\n", "        if np.isneginf(log_prior):\n")],
        needs="a prior that is not a number (a fitted parameter with a normal prior set to NaN)", breaks="the posterior is not minus infinity and a simulation is run for it",
        demo=CTX + """
c = context({})
n = dict(prior_type="norm", prior_args=dict(mean=0.0, std=1.0), allowed_range=[-1.0, 1.0], init_mean=0.0, init_std=0.1, unit="1", doc="")
c.par_manager = Parameter(dict(a=n))


class L:
    def get_log_likelihood(self, key, batch_size, parameters):
        raise AssertionError("simulated")


c.likelihoods = dict(l=L())
r = c.log_posterior(dict(a=float("nan")))
assert r[0] == -np.inf, r
"""),
    "c23-nodefault": dict(property="C23", edits=[(CF, "            _configs = self.get_default()\n            # Update values to sharing dictionary\n            _cached_configs[self.name] = _configs\n", "            _configs = self.get_default()\n")],
        needs="two uncertainty maps of the same name with different defaults", breaks="the default used first is not what the later user sees",
        demo="""
import json
from appletree.config import SigmaMap
d = tempfile.TemporaryDirectory()
fs = []
for v in (1.0, 2.0):
    fs.append(os.path.join(d.name, "m%d.json" % v))
    json.dump(dict(coordinate_type="point", coordinate_name="x", coordinate_system=[0.0, 1.0], map=[v, v]), open(fs[-1], "w"))
a = SigmaMap(name="vc_seed", default=fs[0], method="LERP")
b = SigmaMap(name="vc_seed", default=fs[1], method="LERP")
a.build("llh")
assert b.get_configs("llh") == fs[0], b.get_configs("llh")
"""),
    "c24-bandwidth": dict(property="C24", edits=[(RG, "        logpdf = np.where(np.isnan(mu), -np.inf, logpdf)\n", "        logpdf = np.where(np.isnan(mu) & (x > np.max(self.x)), -np.inf, logpdf)\n")],
        needs="a simulated energy below the first energy of the band", breaks="points below the band have a density",
        demo="""
from appletree.randgen import BandTwoHalfNorm
b = BandTwoHalfNorm(np.array([1.0, 2.0]), np.array([3.0, 4.0]), np.array([1.0, 1.0]), np.array([1.0, 1.0]))
v = b.logpdf(x=np.array([0.5, 1.5, 2.5]), y=np.array([1.0, 3.5, 4.0]))
assert np.isneginf(v[0]) and np.isneginf(v[2]) and np.isfinite(v[1]), v
"""),
    "c25-lastrates": dict(property="C25", edits=[(CX, "            for k in likelihood[\"components\"].keys():\n                needed_rate_parameters.append(k + \"_rate\")\n", "            needed_rate_parameters = [k + \"_rate\" for k in likelihood[\"components\"].keys()]\n")],
        needs="several likelihoods, one copying from the rate of a component of an earlier one", breaks="the rate of a component is dropped because it is also a source",
        demo=CTX + """
c = context(dict(a_rate=par(1.0), b_rate=par(2.0)))
n = c.update_parameter_config(dict(one=dict(copy_parameters={}, components=dict(a=None)), two=dict(copy_parameters={"b_rate": "a_rate"}, components=dict(b=None))))
assert set(c.par_config) == {"a_rate", "b_rate"}, c.par_config
assert c.par_config["b_rate"]["init_mean"] == 1.0 and n == {"b_rate"}
"""),
    "c26-store": dict(property="C26", edits=[(CX, "        parameters = copy.deepcopy(self.par_manager.get_all_parameter())\n        parameters.update(_parameters)\n", "        parameters = self.par_manager.get_all_parameter()\n        parameters.update(_parameters)\n")],
        needs="reading the parameter store after asking for post-fit parameters", breaks="the parameter store is overwritten by the estimate",
        demo=CTX + """
c = context({})
c.par_manager = Parameter(dict(a=par(1.0), b=par(2.0)))


class S:
    parameter_names = {"a": 0, "b": 1}

    def get_log_prob(self, flat=False):
        return np.array([0.0, 2.0])

    def get_chain(self, flat=False):
        return np.array([[1.5, 2.5], [1.25, 2.25]])


c.sampler = S()
c.par_manager.set_parameter(dict(a=1.0, b=2.0))
old = dict(c.par_manager.get_all_parameter())
r = c.get_post_parameters()
assert r == dict(a=1.25, b=2.25), r
assert dict(c.par_manager.get_all_parameter()) == old
"""),
    "c27-lastrow": dict(property="C27", edits=[(CO, "            mask &= result[i] < np.array(self.bins[i]).max()\n", "            mask &= result[i] < np.array(self.bins[i]).ravel()[-1]\n")],
        needs="2D bins whose last x bin does not have the outermost y edge", breaks="events between the last row's edge and the outermost edge are dropped",
        demo=LIK + """
c = Stub(name="c", llh_name="l", bins=[np.array([0., 1., 2.]), np.array([[0., 1., 5.], [0., 1., 2.]])], bins_type="irreg")
r = c._clip([np.array([0.5, 0.5]), np.array([0.5, 4.0]), np.array([0.5, 0.25])])
assert [list(x) for x in r] == [[0.5, 0.5], [0.5, 4.0], [0.5, 0.25]], r
"""),
    "c28-replaced": dict(property="C28", edits=[(CO, "        for plugin in self._plugin_class_registry.values():\n            if plugin in already_seen:\n", "        for plugin in list(self._plugin_class_registry.values())[:-1]:\n            if plugin in already_seen:\n")],
        needs="a step that replaces an observable registered earlier, in conflict with the step registered last before it", breaks="different defaults of one option are accepted",
        demo=PLUG + """
from appletree.config import Constant, takes_config
a = step("VcSeedA", ["batch_size"], ["x"])
b = step("VcSeedB", ["batch_size"], ["y"])
r = step("VcSeedR", ["batch_size"], ["x"])
takes_config(Constant(name="vc_seed_opt", default=1.0))(b)
takes_config(Constant(name="vc_seed_opt", default=2.0))(r)
c = Comp(name="c", llh_name="one")
c.register([a, b])
try:
    c.register(r)
except ValueError:
    sys.exit(0)
raise AssertionError("accepted")
"""),
    "c29-folder": dict(property="C29", edits=[(UT, "    if os.path.isfile(fname):\n        return fname\n", "    if os.path.exists(fname):\n        return fname\n")],
        needs="a folder of the working directory that has the name of a file bundled with the package", breaks="a folder is returned in place of the file",
        demo="""
from appletree.utils import get_file_path
import appletree
p = os.path.dirname(appletree.__file__)
name = sorted(os.listdir(os.path.join(p, "maps")))[0]
want = get_file_path(name)
with tempfile.TemporaryDirectory() as d:
    os.mkdir(os.path.join(d, name))
    os.chdir(d)
    got = get_file_path(name)
    os.chdir("/")
assert str(got) == str(want), got
"""),
    "c30-edge": dict(property="C30", edits=[(LI, "            mask &= self.data[:, 1] < config[\"y_clip\"][1]\n", "            mask &= self.data[:, 1] <= config[\"y_clip\"][1]\n")],
        needs="a data row exactly at the upper end of the region in the second observable", breaks="the row at the edge is part of the data",
        demo=LIK + """
l = make(y_clip=[0, 3])
assert sorted(l.data[:, 1]) == [1.0, 2.0], l.data
"""),
    "c31-basename": dict(property="C31", edits=[(CX, "        tree.backend_h5 = backend_h5_file_name\n", "        tree.backend_h5 = instruct.get(\"backend_h5\") or backend_h5_file_name\n")],
        needs="a backend file that was renamed after the fit", breaks="the old file name is attached as backend",
        demo="""
import json, h5py
from appletree.context import Context
d = tempfile.TemporaryDirectory()
f = os.path.join(d.name, "new.h5")
with h5py.File(f, "w") as g:
    m = g.create_group("mcmc")
    m.attrs["instruct"] = json.dumps(dict(backend_h5="/nonexistent/old.h5"))
    m.attrs["nwalkers"] = 6
    m.attrs["batch_size"] = 10


class C(Context):
    def __init__(self, instruct, par_config=None):
        self.instruct, self.backend_h5 = instruct, instruct.get("backend_h5")

    def pre_fitting(self, *a, **k):
        self.args = a, k


c = C.from_backend(f)
assert c.backend_h5 == f, c.backend_h5
"""),
}
