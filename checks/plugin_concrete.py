"""the contracts of the simulation steps executed on the real steps (search for failing inputs, cross-check)"""
import glob
import json
import os
import random

import numpy as np

from checks.plugin_common import COUNTS, FACTS, SPECS, COMPONENTS, find

_CACHE = {}
RANGES = {  # requires on variables of the simulation: (low, high) of the generated values
    "energy": (0.05, 25.0), "x": (-60, 60), "y": (-60, 60), "z": (-140, 0), "field": (15, 300), "recomb_std": (0, 0.1), "recomb": (0, 1),
    "light_yield": (0.0, 40), "charge_yield": (0.0, 40), "_Nq": (0, 1500), "_Nph": (1, 700), "_Ne": (1, 700), "ThomasImel": (0.005, 0.3),
    "nex_ni_ratio": (0.02, 1.2), "elecFrac": (0, 1), "recombProb": (0, 1), "fano_nq": (0, 2), "alf": (0, 1), "rec_mean": (0, 1), "recomb_mean": (0, 1),
    "Variance": (0, 100), "omega": (0, 0.5), "s1_lce": (0, 2), "s2_lce": (0, 2), "drift_survive_prob": (0.05, 1), "num_s2_pe": (0, 20000),
    "s1_area": (-3, 300), "s2_area": (-50, 12000), "rec_x": (-65, 65), "rec_y": (-65, 65), "rec_z": (-140, 0), "rec_r": (0, 66),
    "s1_correction": (0.4, 1.6), "s2_correction": (0.4, 1.6), "acc_s2_threshold": (0, 1), "acc_s1_recon_eff": (0, 1), "cut_acc_s1": (0, 1), "cut_acc_s2": (0, 1),
    "energy_center": (0.1, 90), "eff": (0, 1), "rec_r_": (0, 1), "skewness": (-3, 3),
}
DEFAULT_RANGE = (0.05, 1.0)
N = 193


def default_parameters():
    if "par" not in _CACHE:
        import appletree
        out = {}
        for f in sorted(glob.glob(os.path.join(os.path.dirname(appletree.__file__), "parameters", "*.json"))):
            for k, v in json.load(open(f)).items():
                x = v["prior_args"].get("val", v.get("init_mean"))
                if x is None:
                    x = v["prior_args"].get("mean", v["prior_args"].get("mu", 0.5))
                out.setdefault(k, float(x))
        _CACHE["par"] = out
    return _CACHE["par"]


def plugin(module, cls, flags):
    k = (module, cls, json.dumps(flags, sort_keys=True))
    if k not in _CACHE:
        import appletree as apt
        from vc.util import repo_fn
        apt.clear_cache()
        apt.set_global_config({o: v for o, v in flags.items() if o != "scale"})
        p = repo_fn("appletree.plugins." + module, cls)("llh")
        if flags.get("scale"):
            for n, c in vars(p).items():
                for m in (c, getattr(c, "median", None), getattr(c, "lower", None), getattr(c, "upper", None)):
                    if type(m).__name__ == "Map" and hasattr(m, "map"):
                        m.map = m.map * flags["scale"][0] + flags["scale"][1]
        _CACHE[k] = p
    return _CACHE[k]


def sigma_pars(klass):
    import appletree.config as C
    return [n + "_sigma" for n, c in klass.takes_config.items() if isinstance(c, C.SigmaMap)]


def par_ok(s, vals, const):
    import z3
    for p in s.par:
        if bool(getattr(p, "const", False)) != const:
            continue
        try:
            r = p({k: z3.RealVal(repr(float(v))) for k, v in vals.items()})
        except KeyError:
            continue
        if not z3.is_true(z3.simplify(r)):
            return False
    return True


def gen_inputs(rng, deps, two_d=None):
    nr = np.random.default_rng(rng.randrange(1 << 30))
    e = {}
    for d in deps:
        shape = (N,) if two_d is None else (N, two_d)
        if d in COUNTS:
            v = nr.integers(0, 900, shape) * (nr.random(shape) < 0.9)
            if rng.random() < 0.3:
                v = nr.integers(0, 4, shape)
            e[d] = v.astype(np.int32)
        else:
            lo, hi = RANGES.get(d, DEFAULT_RANGE)
            v = nr.uniform(lo, hi, shape)
            if lo <= 0 <= hi:
                v = np.where(nr.random(shape) < 0.05, 0.0, v)
            if d in ("x", "y", "rec_x", "rec_y") and rng.random() < 0.5:
                v = v / 2
            e[d] = v.astype(np.float32)
    # relations between inputs established upstream
    if "light_yield" in e and "charge_yield" in e:
        e["charge_yield"] = np.where(e["light_yield"] + e["charge_yield"] > 0, e["charge_yield"], np.float32(1))
    if "Nq" in e:
        for k in ("Ni", "Nex"):
            if k in e:
                e[k] = np.minimum(e[k], e["Nq"])
        if "Ni" in e and "Nex" in e:
            e["Nex"] = e["Nq"] - e["Ni"]
    elif "Ni" in e and "Nex" in e:
        e["Nq"] = e["Ni"] + e["Nex"]
    if "num_quanta" in e and "num_ion" in e:
        e["num_ion"] = np.minimum(e["num_ion"], e["num_quanta"])
    return e


def holds(name, v, scale=1e-4):
    vs, f = FACTS[name]
    if not all(x in v for x in vs):
        return True
    for a, op, b in f({k: np.asarray(x).astype(np.float64) for k, x in v.items()}):
        if op == "int":
            ok = np.abs(a - np.round(a)) < 1e-6
        else:
            tol = scale * np.maximum(1.0, np.abs(np.broadcast_to(b, np.shape(a))))
            if op in (">=", "<=", ">") and np.all(np.equal(b, 0)):
                tol = 0.0
            elif op in (">=", "<=") and all(x in COUNTS for x in vs):
                tol = 0.0
            elif op in (">=", "<="):
                tol = 1e-6 * np.maximum(1.0, np.abs(np.asarray(b)))
            ok = {">=": lambda: a >= b - tol, ">": lambda: a > b, "<=": lambda: a <= b + tol, "==": lambda: np.abs(a - b) <= tol, "!=": lambda: a != b}[op]()
        if not np.all(ok):
            return False
    return True


def close(a, b, rel=2e-4, ab=1e-5):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= rel * np.abs(b) + ab * (1 + np.max(np.abs(b), initial=0))))


def gapply(m, *xs):
    x = np.stack([np.asarray(t, np.float32) for t in xs]).T if len(xs) > 1 else np.asarray(xs[0], np.float32)
    return np.asarray(m.apply(x))


def sapply(m, par, *xs):
    x = np.stack([np.asarray(t, np.float32) for t in xs]).T if len(xs) > 1 else np.asarray(xs[0], np.float32)
    lo, md, up = [np.asarray(t.apply(x), np.float64) for t in (m.lower, m.median, m.upper)]
    r = m.required_parameter()
    s = 1.0 if r is None else par[r]
    return md + s * ((up - md) if s > 0 else (md - lo))


def amap(p, n, par, *xs):
    m = getattr(p, n)
    return sapply(m, par, *xs) if type(m).__name__ == "SigmaMap" else gapply(m, *xs)


X = {}


def extra(cls):
    def deco(f):
        X[cls] = f
        return f
    return deco


@extra("UniformEnergySpectra")
def _(p, i, o, par, fl):
    lo, hi = p.lower_energy.value, p.upper_energy.value
    if not (np.all(o["energy"] >= np.float32(lo)) and np.all(o["energy"] <= np.float32(hi))):
        return "energy outside [%g, %g]" % (lo, hi)
    if np.unique(o["energy"]).size < N // 2 or abs(np.mean(o["energy"]) - (lo + hi) / 2) > 0.2 * (hi - lo):
        return "energies are not spread uniformly between the limits"


@extra("FixedEnergySpectra")
def _(p, i, o, par, fl):
    m = np.asarray(p.energy_spectrum.map)
    if o["energy"].min() < m.min() * 0.999 or o["energy"].max() > m.max() * 1.001:
        return "energy is no value of the spectrum map"


@extra("MonoEnergySpectra")
def _(p, i, o, par, fl):
    if not np.all(o["energy"] == np.float32(p.mono_energy.value)):
        return "energy differs from the configured one"


@extra("PositionSpectra")
def _(p, i, o, par, fl):
    r2 = o["x"].astype(float) ** 2 + o["y"].astype(float) ** 2
    R = p.r_max.value
    if np.any(r2 > R * R * 1.00001):
        return "position outside the radius"
    if np.any(o["z"] < np.float32(p.z_min.value)) or np.any(o["z"] > np.float32(p.z_max.value)):
        return "position outside the depth limits"
    u = r2 / (R * R)
    if abs(u.mean() - 0.5) > 0.15 or abs((u < 0.25).mean() - 0.25) > 0.15:
        return "positions are not uniform in area (mean of r^2/r_max^2 is %.3f)" % u.mean()
    if abs(np.mean(np.sign(o["x"]))) > 0.4 or abs(np.mean(np.sign(o["y"]))) > 0.4:
        return "angles do not cover the full turn"


@extra("MonoEnergiesSpectra")
def _(p, i, o, par, fl):
    mu = p.energy_twohalfnorm.value["mu"] if hasattr(p, "energy_twohalfnorm") else None
    if mu is not None and not close(o["energy_center"], np.broadcast_to(mu, o["energy_center"].shape)):
        return "the recorded centre is not the configured one"


@extra("UniformEnergiesSpectra")
def _(p, i, o, par, fl):
    lo, hi = p.clip_lower_energy.value, p.clip_upper_energy.value
    if not (np.all(o["energy"] >= np.float32(lo)) and np.all(o["energy"] <= np.float32(hi))):
        return "energy outside [%g, %g]" % (lo, hi)


@extra("EField")
def _(p, i, o, par, fl):
    if p.efield_position_dependence.value:
        want = gapply(p.efield_map, np.sqrt(i["x"] ** 2 + i["y"] ** 2), i["z"])
    else:
        want = np.full(i["x"].shape, par["field"])
    if not close(o["field"], want):
        return "the field is not the configured one"


@extra("S1LCE")
def _(p, i, o, par, fl):
    if not close(o["s1_lce"], amap(p, "s1_lce", par, i["x"], i["y"], i["z"])):
        return "s1_lce is not the map at (x, y, z)"


@extra("S2LCE")
def _(p, i, o, par, fl):
    if not close(o["s2_lce"], amap(p, "s2_lce", par, i["x"], i["y"])):
        return "s2_lce is not the map at (x, y)"


@extra("DriftLoss")
def _(p, i, o, par, fl):
    import jax
    key = fl["key"]
    _, o2 = p.simulate(key, par, np.asarray(i["z"] * np.float32(1.5)))
    z = np.abs(i["z"])
    o2, o1 = np.asarray(o2), np.asarray(o["drift_survive_prob"])
    if np.any(o2[z > 1] >= o1[z > 1]) or np.any(o1[z == 0] != 1):
        return "survival probability does not decrease with the drift distance"


@extra("S2PE")
def _(p, i, o, par, fl):
    if np.any(o["num_s2_pe"][i["num_electron_drifted"] == 0] != 0):
        return "signal without drifted electron"


@extra("PositionRecon")
def _(p, i, o, par, fl):
    if not np.array_equal(np.asarray(o["rec_z"]), i["z"]):
        return "rec_z is not the depth"
    sd = amap(p, "posrec_reso", par, i["num_electron_drifted"]) / np.sqrt(2)
    a, b = (o["rec_x"] - i["x"]) / sd, (o["rec_y"] - i["y"]) / sd
    if np.max(np.abs(np.r_[a, b])) > 7 or not 0.75 < np.std(a) < 1.3 or not 0.75 < np.std(b) < 1.3 or abs(np.corrcoef(a, b)[0, 1]) > 0.5:
        return "the reconstructed position is not smeared as declared"


def _areax(var, n, bias, smear):
    def f(p, i, o, par, fl):
        c = i[n].astype(np.float64)
        b, s = amap(p, bias, par, c), amap(p, smear, par, c)
        z0 = c == 0
        if np.any(np.abs(o[var][z0]) > 1e-6):
            return "%s of an empty signal is not zero" % var
        u = (o[var][~z0] / c[~z0] - 1 - b[~z0]) / np.maximum(np.abs(s[~z0]), 1e-6)
        ok = np.abs(s[~z0]) > 1e-5
        u = u[ok]
        if u.size > 100 and (np.max(np.abs(u)) > 7 or not 0.7 < np.std(u) < 1.4 or abs(np.mean(u)) > 0.5):
            return "%s is not the count times one plus the sampled bias (mean %.2f, std %.2f of the standardised bias)" % (var, np.mean(u), np.std(u))
    return f


X["S1"] = _areax("s1_area", "num_s1_pe", "s1_bias_3f", "s1_smear_3f")
X["S2"] = _areax("s2_area", "num_s2_pe", "s2_bias", "s2_smear")


@extra("S1Correction")
def _(p, i, o, par, fl):
    if not close(o["s1_correction"], amap(p, "s1_correction", par, i["rec_x"], i["rec_y"], i["rec_z"])):
        return "s1_correction is not the map at the reconstructed position"


@extra("S2Correction")
def _(p, i, o, par, fl):
    if not close(o["s2_correction"], amap(p, "s2_correction", par, i["rec_x"], i["rec_y"])):
        return "s2_correction is not the map at the reconstructed position"


@extra("S2Threshold")
def _(p, i, o, par, fl):
    if not np.array_equal(np.asarray(o["acc_s2_threshold"]), (i["s2_area"] > np.float32(par["s2_threshold"])).astype(np.float32)):
        return "the acceptance is not 1 exactly above the threshold"


def _clipx(var, name, arg):
    def f(p, i, o, par, fl):
        m = amap(p, name, par, i[arg])
        inside = (m >= 0) & (m <= 1)
        if not close(np.asarray(o[var])[inside], m[inside], ab=1e-4):
            return "%s is not the map's value" % var
    return f


X["S1ReconEff"] = _clipx("acc_s1_recon_eff", "s1_eff_3f", "num_s1_phd")
X["S1CutAccept"] = _clipx("cut_acc_s1", "s1_cut_acc", "s1_area")
X["S2CutAccept"] = _clipx("cut_acc_s2", "s2_cut_acc", "s2_area")


@extra("MonoEnergiesClipEff")
def _(p, i, o, par, fl):
    lo, hi = p.clip_lower_energy.value, p.clip_upper_energy.value
    want = ((i["energy_center"] >= np.float32(lo)) & (i["energy_center"] <= np.float32(hi))).astype(float)
    if not np.array_equal(np.asarray(o["eff"], float), want):
        return "the weight is not 1 exactly inside the energy window"


@extra("BandEnergiesClipEff")
def _(p, i, o, par, fl):
    if not np.all(np.asarray(o["eff"]) == 1):
        return "the weight is not 1"


FLAGS = {
    "EField": [{}, {"efield_position_dependence": 1}],
    "UniformEnergySpectra": [{}, {"lower_energy": 0.5, "upper_energy": 0.6}, {"lower_energy": 20.0, "upper_energy": 90.0}],
    "MonoEnergySpectra": [{}, {"mono_energy": 41.5}],
    "PositionSpectra": [{}, {"z_min": -50.0, "z_max": -49.0, "r_max": 3.0}, {"z_min": -10.0, "z_max": 30.0, "r_max": 70.0}],
    "MonoEnergiesClipEff": [{}, {"clip_lower_energy": 5.0, "clip_upper_energy": 30.0}],
    "UniformEnergiesSpectra": [{}, {"clip_lower_energy": 5.0, "clip_upper_energy": 30.0}],
    **{c: [{}, {"scale": [3.0, -1.0]}, {"scale": [-1.0, 0.3]}, {"scale": [0.5, 0.9]}] for c in ("S1ReconEff", "S1CutAccept", "S2CutAccept")},
    "S1": [{}, {"scale": [1.0, 0.05]}], "S2": [{}, {"scale": [1.0, 0.05]}],
    "S1Correction": [{}], "S1LCE": [{}],
}
TWO_D = {"MonoEnergiesClipEff"}
SKIP2 = {}


def cases(rng, tier, prop):
    specs = [s for s in SPECS if s.prop == prop]
    # units with undecided obligations come first
    focus = json.loads(os.environ.get("VC_FOCUS", "[]"))
    first = [s for s in specs if any(s.cls in f for f in focus)]
    for r in range(400 if first else 0):
        for s in first:
            fl = FLAGS.get(s.cls, [{}])
            yield dict(kind=s.cls, module=s.module, cls=s.cls, flags=rng.choice(fl), seed=rng.randrange(1 << 30), wild=r % 3)
    rnd = 0
    while True:
        for s in specs:
            fl = FLAGS.get(s.cls, [{}])
            yield dict(kind=s.cls, module=s.module, cls=s.cls, flags=fl[rnd % len(fl)] if rnd < 2 else rng.choice(fl),
                       seed=rng.randrange(1 << 30), wild=rnd % 3)
        if rnd >= 2:
            c = COMPONENTS[rnd % len(COMPONENTS)]
            yield dict(kind="component " + c, component=c, prop=prop, seed=rng.randrange(1 << 30), wild=rnd % 3)
        rnd += 1


def gen_par(rng, s, names, wild):
    base = default_parameters()
    for _ in range(60):
        par = {}
        for n in names:
            b = base.get(n, 0.5)
            if n.endswith("_sigma") and n != "elife_sigma":
                par[n] = rng.uniform(-3, 3) if wild < 2 else rng.choice([-60.0, -1.0, 0.0, 1.0, 60.0, 7.0])
            elif n == "elife_sigma":
                par[n] = rng.uniform(-0.9, 0.9)
            elif wild == 0:
                par[n] = b
            else:
                par[n] = b * rng.uniform(0.6, 1.6) if wild == 1 or rng.random() < 0.6 else b * rng.choice([0.0, 1.0, 0.3, 3.0])
        if s is None or par_ok(s, par, False):
            return par
    return None


def run_case(c):
    import jax
    from vc.harness import SkipCase
    rng = random.Random(c["seed"])
    if "component" in c:
        return run_component(c, rng)
    s = find(c["module"], c["cls"])
    p = plugin(c["module"], c["cls"], c["flags"])
    par = gen_par(rng, s, list(p.parameters) + sigma_pars(p), c["wild"])
    if par is None:
        raise SkipCase()
    arrs = [d for d in p.depends_on if d != "batch_size"]
    i = gen_inputs(rng, arrs, 2 if s.cls in TWO_D else None)
    key = jax.random.PRNGKey(rng.randrange(1 << 30))
    if s.cls == "S2PE":
        par["g2"] = min(par["g2"], 0.5 * par["gas_gain"])
    if s.cls == "DriftLoss" and rng.random() < 0.4:
        i["z"] = -i["z"]       # the drift distance is the size of the depth, whatever the sign convention
    args = [N if d == "batch_size" else i[d] for d in p.depends_on]
    res = p.simulate(key, par, *args)
    return judge(s, p, i, res, par, key)


def judge(s, p, i, res, par, key):
    prov = [p.provides] if isinstance(p.provides, str) else list(p.provides)
    if len(res) != 1 + len(prov):
        return "%s returns %d values for %s" % (s.cls, len(res), prov)
    o = {k: np.asarray(v) for k, v in zip(prov, res[1:])}
    n = next(iter(i.values())).shape[0] if i else N
    for k, v in o.items():
        if v.shape[:1] != (n,):
            return "%s: %s has shape %s for %d events" % (s.cls, k, v.shape, n)
        if s.wd and not np.all(np.isfinite(v)):
            return "%s: %s is not finite (parameters %s)" % (s.cls, k, par)
    allv = dict(i)
    allv.update(o)
    for f in s.req:
        if not holds(f, i):
            from vc.harness import SkipCase
            raise SkipCase()
    for f in s.ens:
        if not holds(f, allv):
            return "%s: %s does not hold (parameters %s)" % (s.cls, f, par)
    if s.cls in X:
        r = X[s.cls](p, i, o, par, dict(key=key))
        if r:
            return "%s: %s (parameters %s)" % (s.cls, r, par)
    return None


def component_plugins(cname):
    k = ("comp", cname)
    if k not in _CACHE:
        import appletree as apt
        apt.clear_cache()
        comp = getattr(apt.components, cname)(name=cname, llh_name="llh", bins=None, bins_type=None)
        want = {"MonoEnergiesYields": ["light_yield", "charge_yield", "energy_center"], "BandEnergiesYields": ["light_yield", "charge_yield"]}.get(cname, ["cs1", "cs2", "rec_r", "rec_z"])
        comp.deduce(data_names=want)
        ps = []
        for w in comp.worksheet:
            ps.append(getattr(apt.plugins, w[0])("llh"))
        _CACHE[k] = ps
    return _CACHE[k]


def run_component(c, rng):
    """all steps of a bundled component one after the other, every ensured fact on the final state"""
    import jax
    from vc.harness import SkipCase
    cname = c["component"]
    ps = component_plugins(cname)
    n = 1 if cname == "MonoEnergiesYields" else N       # its field has one value per event, its energies several
    names = sorted({x for p in ps for x in list(p.parameters) + sigma_pars(p)})
    par = gen_par(rng, None, names, min(c["wild"], 1))
    par["p_dpe"] = min(par.get("p_dpe", 0.2), 1.0)
    for p in ps:
        s = find(type(p).__module__.split(".")[-1], type(p).__name__)
        if s is not None and not par_ok(s, par, False):
            raise SkipCase()
    key = jax.random.PRNGKey(rng.randrange(1 << 30))
    st = {}
    ofprop = [j for j, p in enumerate(ps) for s in [find(type(p).__module__.split(".")[-1], type(p).__name__)] if s is not None and s.prop == c["prop"]]
    for p in ps[:max(ofprop, default=-1) + 1]:
        k0 = key
        ins = {d: st[d] for d in p.depends_on if d != "batch_size"}
        res = p.simulate(key, par, *[n if d == "batch_size" else st[d] for d in p.depends_on])
        key = res[0]
        s = find(type(p).__module__.split(".")[-1], type(p).__name__)
        prov = [p.provides] if isinstance(p.provides, str) else list(p.provides)
        st.update({k: np.asarray(v) for k, v in zip(prov, res[1:])})
        if s is None or s.prop != c["prop"]:
            continue
        if s.dims2 or cname == "MonoEnergiesYields":
            for f in s.ens:
                if not holds(f, st):
                    return "%s in %s: %s does not hold (parameters %s)" % (s.cls, cname, f, par)
            continue
        for f in s.req:
            if not holds(f, ins):
                # numbers are float32 in the real run: a required fact may fail by rounding
                break
        else:
            r = judge(s, p, ins or {}, res, par, k0)
            if r:
                return "%s (inside %s)" % (r, cname)
    return None
