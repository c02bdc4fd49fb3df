"""the contract of every bundled simulation step"""
import z3

from checks.plugin_common import FACTS, _re, spec, run_plugin, elements, zfact

pos = lambda *ns: [lambda p, n=n: p[n] > 0 for n in ns]        # noqa: E731
nn = lambda *ns: [lambda p, n=n: p[n] >= 0 for n in ns]        # noqa: E731
prob = lambda n: [lambda p: z3.And(p[n] >= 0, p[n] <= 1)]      # noqa: E731
FACTS["light_yield + charge_yield > 0"] = (("light_yield", "charge_yield"), lambda e: [(e["light_yield"] + e["charge_yield"], ">", 0)])


def uf(name, *args):
    args = [_re(a) for a in args]
    return z3.Function("map_" + name, *([z3.RealSort()] * len(args)), z3.RealSort())(*args)


def site(env, r, dist, n):
    from vc.jx import Unsupported
    s = [x for x in r.sites if x[0] == dist]
    if len(s) != n or len(r.sites) != n:
        raise Unsupported("draws %s" % (r.sites,))
    return [z3.Function(nm, *([z3.IntSort()] * len(r.idx)), z3.RealSort())(*r.idx) for _, nm in s]


# ------------------------------------------------------------------ C13 generators
def _window(lo, hi):
    def ex(env, s, r):
        env.prove("energy between the configured limits", z3.And(r.v["energy"] >= r.cv[lo], r.v["energy"] <= r.cv[hi]), r.hyps + [r.cv[lo] <= r.cv[hi]])
    return ex


class C:
    """requires on configured constants, as parameter requires"""

    def __init__(self, f):
        self.f = f


def _creq(f):
    f.const = True
    return f


spec("common", "UniformEnergySpectra", "C13", ens=["energy >= 0", "energy > 0"], extra=_window("lower_energy", "upper_energy"),
     par=[_creq(lambda c: z3.And(c["lower_energy"] > 0, c["lower_energy"] <= c["upper_energy"]))])


def _fixed(env, s, r):
    (u,) = site(env, r, "uniform", 1)
    env.prove("a value of the energy spectrum map at a uniform random number in [0, 1)",
              z3.And(r.v["energy"] == uf("energy_spectrum", u), u >= 0, u < 1), r.hyps)


spec("common", "FixedEnergySpectra", "C13", ens=["energy >= 0", "energy > 0"], extra=_fixed, maps={"energy_spectrum": lambda t: t > 0})


def _mono(env, s, r):
    env.prove("the configured energy", r.v["energy"] == r.cv["mono_energy"], r.hyps)


spec("common", "MonoEnergySpectra", "C13", ens=["energy >= 0", "energy > 0"], extra=_mono, par=[_creq(lambda c: c["mono_energy"] > 0)])


def _position(env, s, r):
    x, y, z, c = r.v["x"], r.v["y"], r.v["z"], r.cv
    env.prove("z between the configured depths", z3.And(z >= c["z_min"], z <= c["z_max"]), r.hyps)
    env.prove("inside the configured radius", x * x + y * y <= c["r_max"] * c["r_max"], r.hyps)
    us = site(env, r, "uniform", 3)
    R2 = c["r_max"] * c["r_max"]
    best = None
    for k, u in enumerate(us):
        o = env.attempt("squared radius is r_max^2 times a uniform number (uniform in area)", x * x + y * y == R2 * u, r.hyps)
        best = o if best is None or o.status == "proved" else best
        if o.status == "proved":
            others = [w for j, w in enumerate(us) if j != k]
            b2 = None
            for j, w in enumerate(others):
                o2 = env.attempt("depth is z_min + (z_max - z_min) times another uniform number", z == c["z_min"] + (c["z_max"] - c["z_min"]) * w, r.hyps)
                b2 = o2 if b2 is None or o2.status == "proved" else b2
                if o2.status == "proved":
                    ang = others[1 - j]
                    cs, sn = z3.Function("math_cos", z3.RealSort(), z3.RealSort()), z3.Function("math_sin", z3.RealSort(), z3.RealSort())
                    sites = [a for a in _args_of("math_cos", [x, y])]
                    if len(sites) == 1:
                        a = sites[0]
                        import math
                        t = z3.Real("two_pi")
                        env.prove("the angle is the third uniform number times a full turn",
                                  z3.And(a >= ang * z3.RealVal("6.2831"), a <= ang * z3.RealVal("6.2832"),
                                         x * x == R2 * u * cs(a) * cs(a), y * y == R2 * u * sn(a) * sn(a)), r.hyps + list(env.facts))
                    break
            env.record(b2)
            break
    env.record(best)


def _args_of(fn, exprs):
    seen, out, stack = set(), [], list(exprs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().name() == fn and e.num_args() == 1:
                out.append(e.arg(0))
            stack.extend(e.children())
    return out


spec("common", "PositionSpectra", "C13", extra=_position, par=[_creq(lambda c: z3.And(c["z_min"] <= c["z_max"], c["r_max"] >= 0))])


def _mes(env, s, r):
    k = r.idx[-1]
    mu = r.sets[r.setnames.index("mu")]((k,)).v
    env.prove("the recorded centre is the configured one", r.v["energy_center"] == mu, r.hyps)


spec("nestv2", "MonoEnergiesSpectra", "C13", ens=["energy >= 0"], extra=_mes, wd=False)
spec("nestv2", "UniformEnergiesSpectra", "C13", ens=["energy >= 0"], extra=_window("clip_lower_energy", "clip_upper_energy"),
     par=[_creq(lambda c: z3.And(c["clip_lower_energy"] >= 0, c["clip_lower_energy"] <= c["clip_upper_energy"]))])

# ------------------------------------------------------------------ C10 microphysics
spec("er_microphys", "Quanta", "C10", req=["energy >= 0"], ens=["num_quanta >= 0", "num_quanta integer"], par=pos("w") + nn("fano"))
spec("er_microphys", "IonizationER", "C10", req=["num_quanta >= 0", "num_quanta integer"],
     ens=["num_ion >= 0", "num_ion integer", "num_ion <= num_quanta"], par=nn("nex_ni_ratio"))
spec("er_microphys", "mTI", "C10", req=["energy >= 0", "field > 0"], par=pos("w", "py1", "py4") + nn("nex_ni_ratio", "py0"))
spec("er_microphys", "RecombFluct", "C10", req=["energy >= 0"], ens=["recomb_std >= 0"], par=pos("rf1"))
spec("er_microphys", "TrueRecombER", "C10", req=["recomb_std >= 0"], ens=["0 <= recomb <= 1"])
spec("er_microphys", "RecombinationER", "C10",
     req=["num_quanta integer", "num_ion integer", "num_ion >= 0", "num_ion <= num_quanta", "0 <= recomb <= 1"],
     ens=["num_electron >= 0", "num_electron integer", "num_electron <= num_ion", "num_photon >= 0", "num_photon integer",
          "num_photon + num_electron == num_quanta"])

spec("lyqy", "LightYield", "C10", ens=["light_yield >= 0"])
spec("lyqy", "NumberPhoton", "C10", req=["energy >= 0", "light_yield >= 0"], ens=["num_photon >= 0", "num_photon integer"])
spec("lyqy", "ChargeYield", "C10", ens=["charge_yield >= 0"])
spec("lyqy", "NumberElectron", "C10", req=["energy >= 0", "charge_yield >= 0"], ens=["num_electron >= 0", "num_electron integer"])

spec("nestv2", "TotalQuanta", "C10", req=["energy >= 0"], ens=["_Nq >= 0"], par=nn("alpha") + pos("beta"))
spec("nestv2", "ThomasImelBox", "C10", req=["energy >= 0", "field > 0"], ens=["ThomasImel > 0"], par=pos("gamma", "liquid_xe_density"))
spec("nestv2", "QyNR", "C10", req=["energy >= 0", "ThomasImel > 0"], ens=["charge_yield >= 0"], par=pos("epsilon", "zeta", "eta"))
spec("nestv2", "LyNR", "C10", req=["energy >= 0"], ens=["light_yield >= 0"], par=pos("theta", "iota"), wd=False)
spec("nestv2", "MeanNphNe", "C10", req=["energy >= 0", "light_yield >= 0", "charge_yield >= 0"], ens=["_Nph >= 0", "_Ne >= 0"])
spec("nestv2", "MeanExcitonIon", "C10", req=["ThomasImel > 0", "_Nph >= 0", "_Ne >= 0"], wd=False)
spec("nestv2", "TrueExcitonIonNR", "C10", req=["_Nph >= 0", "_Ne >= 0", "nex_ni_ratio >= 0", "0 <= alf <= 1"],
     ens=["Ni >= 0", "Ni integer", "Nex >= 0", "Nex integer", "Nq integer", "Nq >= 0", "Ni + Nex == Nq"], par=nn("fano_ni", "fano_nex"))
spec("nestv2", "OmegaNR", "C10", req=["0 <= recombProb <= 1", "Ni >= 0", "Ni integer"], ens=["Variance >= 0"],
     par=[lambda p: p["omega"] != 0])
spec("nestv2", "TruePhotonElectronNR", "C10", req=["0 <= recombProb <= 1", "Variance >= 0", "Ni >= 0", "Ni integer", "Nex >= 0", "Nex integer", "Ni + Nex == Nq"],
     ens=["num_electron >= 0", "num_electron integer", "num_electron <= Ni", "num_photon integer", "num_photon >= 0",
          "Nex <= num_photon", "num_photon + num_electron >= Nq"], wd=False)

spec("er_nestv2", "ExcitonIonRatioER", "C10", req=["energy >= 0"], ens=["nex_ni_ratio >= 0", "0 <= alf <= 1"], par=pos("liquid_xe_density"))
spec("er_nestv2", "QyER", "C10", req=["energy >= 0", "nex_ni_ratio >= 0", "field > 0"], ens=["charge_yield >= 0"],
     par=pos("w", "liquid_xe_density"), wd=False)
spec("er_nestv2", "LyER", "C10", req=["charge_yield >= 0"], ens=["light_yield >= 0", "light_yield + charge_yield > 0"], par=pos("w"))
spec("er_nestv2", "MeanNphNeER", "C10", req=["energy > 0", "light_yield >= 0", "charge_yield >= 0", "light_yield + charge_yield > 0"],
     ens=["_Nph >= 0", "_Ne >= 0", "_Nph + _Ne > 0"])
spec("er_nestv2", "MeanExcitonIonER", "C10", req=["nex_ni_ratio >= 0", "_Nph >= 0", "_Ne >= 0", "_Nph + _Ne > 0"],
     ens=["elecFrac >= 0", "0 <= recombProb <= 1"])
spec("er_nestv2", "FanoFactorER", "C10", req=["_Nph >= 0", "_Ne >= 0", "field > 0"], ens=["fano_nq >= 0"], par=pos("liquid_xe_density"))
spec("er_nestv2", "TrueExcitonIonER", "C10", req=["_Nph >= 0", "_Ne >= 0", "fano_nq >= 0", "0 <= alf <= 1"],
     ens=["Nq >= 0", "Nq integer", "Ni >= 0", "Ni integer", "Ni <= Nq", "Nex >= 0", "Nex integer", "Ni + Nex == Nq"])
spec("er_nestv2", "OmegaER", "C10", req=["0 <= recombProb <= 1", "Ni >= 0", "Ni integer", "field > 0"], ens=["omega >= 0", "Variance >= 0"],
     par=[lambda p: p["omega_er"] != 0])
spec("er_nestv2", "TruePhotonElectronER", "C10", req=["0 <= recombProb <= 1", "Variance >= 0", "Ni >= 0", "Ni integer", "Ni <= Nq", "Nq integer"],
     ens=["num_electron >= 0", "num_electron integer", "num_electron <= Ni", "num_photon >= 0", "num_photon integer", "num_photon + num_electron == Nq"])

# ------------------------------------------------------------------ C12 detector


def _map_is(var, name, *args):
    def ex(env, s, r):
        env.prove("%s is the map at (%s)" % (var, ", ".join(args)), r.v[var] == uf(name, *[r.v[a] for a in args]), r.hyps)
    return ex


def _efield(env, s, r):
    fld = r.v["field"]
    if r.it.__dict__.get("posdep"):
        rr = z3.Function("math_sqrt", z3.RealSort(), z3.RealSort())(r.v["x"] * r.v["x"] + r.v["y"] * r.v["y"])
        env.prove("the field map at (r, z)", fld == uf("efield_map", rr, r.v["z"]), r.hyps)


spec("detector", "EField", "C12", ens=["field > 0", "field >= 0"], par=pos("field"), maps={"efield_map": lambda t: t > 0})
spec("detector", "S1LCE", "C12", extra=_map_is("s1_lce", "s1_lce", "x", "y", "z"))
spec("detector", "S2LCE", "C12", ens=["s2_lce >= 0"], extra=_map_is("s2_lce", "s2_lce", "x", "y"), maps={"s2_lce": lambda t: t >= 0})
spec("detector", "PhotonDetection", "C12", req=["num_photon >= 0", "num_photon integer"],
     ens=["num_s1_phd >= 0", "num_s1_phd integer", "num_s1_phd <= num_photon"], par=prob("p_dpe"))
spec("detector", "S1PE", "C12", req=["num_s1_phd >= 0", "num_s1_phd integer"],
     ens=["num_s1_pe >= 0", "num_s1_pe integer", "num_s1_phd <= num_s1_pe", "num_s1_pe <= 2 num_s1_phd"], par=prob("p_dpe"))


def _drift(env, s, r):
    # a second run of the same step with the same keys and other depths
    r2 = run_plugin(env, s.module, s.cls, spec=s, it=r.it, dims=r.dims, shared=r)
    elements(env, r2)
    # the exponential is strictly increasing (instances)
    a1, a2 = _args_of("math_exp", [r.v["drift_survive_prob"]]), _args_of("math_exp", [r2.v["drift_survive_prob"]])
    e = z3.Function("math_exp", z3.RealSort(), z3.RealSort())
    mono = [z3.Implies(a < b, e(a) < e(b)) for a in a1 for b in a2] + [z3.Implies(a == b, e(a) == e(b)) for a in a1 for b in a2] + \
        [z3.Implies(b < a, e(b) < e(a)) for a in a1 for b in a2]
    z1, z2 = r.v["z"], r2.v["z"]
    ab = lambda t: z3.If(t >= 0, t, -t)  # noqa: E731
    env.prove("survival probability decreases with the drift distance", r.v["drift_survive_prob"] > r2.v["drift_survive_prob"],
              r.hyps + mono + [ab(z1) < ab(z2)])
    env.prove("no drift: the electron survives", r.v["drift_survive_prob"] == 1, r.hyps + [z1 == 0])


spec("detector", "DriftLoss", "C12", ens=["drift_survive_prob > 0", "0 <= drift_survive_prob <= 1"], maps={"elife": lambda t: t > 0},
     par=pos("drift_velocity") + [lambda p: p["elife_sigma"] > -1], extra=_drift)
spec("detector", "ElectronDrifted", "C12", req=["num_electron >= 0", "num_electron integer", "0 <= drift_survive_prob <= 1"],
     ens=["num_electron_drifted >= 0", "num_electron_drifted integer", "num_electron_drifted <= num_electron"])


def _s2pe(env, s, r):
    env.prove("no drifted electron: no signal", r.v["num_s2_pe"] == 0, r.hyps + [r.v["num_electron_drifted"] == 0])


def _extraction(r):
    """requires: g2 <= gas_gain * relative gas gain (the extraction efficiency is a probability)"""
    return [r.pv["g2"] <= r.pv["gas_gain"] * uf("gas_gain_relative", r.v["x"], r.v["y"])] if {"g2", "gas_gain"} <= set(r.pv) else []


spec("detector", "S2PE", "C12", req=["num_electron_drifted >= 0", "num_electron_drifted integer", "s2_lce >= 0"],
     ens=["num_s2_pe >= 0", "num_s2_pe integer"], par=nn("g2") + pos("gas_gain") + prob("p_dpe"),
     maps={"gas_gain_relative": lambda t: t > 0}, extra=_s2pe, hyp=_extraction)


def _recon(env, s, r):
    env.prove("rec_z is the true depth", r.v["rec_z"] == r.v["z"], r.hyps)
    z = site(env, r, "normal", 2)
    sd = uf("posrec_reso", r.v["num_electron_drifted"])
    dx, dy = r.v["rec_x"] - r.v["x"], r.v["rec_y"] - r.v["y"]
    rt2 = None
    for nm, (a, b) in (("", (z[0], z[1])), ("", (z[1], z[0]))):
        o = env.attempt("the displacements of x and y are independent normal draws of the same width, half the resolution squared each",
                        z3.And(2 * dx * dx <= z3.RealVal("1.00001") * sd * sd * a * a, 2 * dx * dx >= z3.RealVal("0.99999") * sd * sd * a * a,
                               dx * b == dy * a), r.hyps)
        rt2 = o if rt2 is None or o.status == "proved" else rt2
        if o.status == "proved":
            break
    env.record(rt2)


spec("reconstruction", "PositionRecon", "C12", req=["num_electron_drifted >= 0"], ens=["rec_r >= 0", "rec_r^2 == rec_x^2 + rec_y^2"],
     maps={"posrec_reso": lambda t: t >= 0}, extra=_recon)


def _area(var, n, bias, smear):
    def ex(env, s, r):
        (z,) = site(env, r, "normal", 1)
        c = _re(r.v[n])
        env.prove("%s is the photo-electron count times one plus the bias drawn from its maps" % var,
                  r.v[var] == c * (1 + uf(bias, c) + uf(smear, c) * z), r.hyps)
    return ex


spec("reconstruction", "S1", "C12", extra=_area("s1_area", "num_s1_pe", "s1_bias_3f", "s1_smear_3f"), maps={"s1_smear_3f": lambda t: t >= 0})
spec("reconstruction", "S2", "C12", extra=_area("s2_area", "num_s2_pe", "s2_bias", "s2_smear"), maps={"s2_smear": lambda t: t >= 0})
spec("reconstruction", "S1Correction", "C12", ens=["s1_correction != 0"], maps={"s1_correction": lambda t: t > 0},
     extra=_map_is("s1_correction", "s1_correction", "rec_x", "rec_y", "rec_z"))
spec("reconstruction", "S2Correction", "C12", ens=["s2_correction != 0"], maps={"s2_correction": lambda t: t > 0},
     extra=_map_is("s2_correction", "s2_correction", "rec_x", "rec_y"))
spec("reconstruction", "cS1", "C12", req=["s1_correction != 0"], ens=["cs1 == s1_area / s1_correction"])
spec("reconstruction", "cS2", "C12", req=["s2_correction != 0", "drift_survive_prob > 0"], ens=["cs2 == s2_area / s2_correction / drift_survive_prob"])

# ------------------------------------------------------------------ C11 efficiencies


def _thr(env, s, r):
    a, t = r.v["s2_area"], r.pv["s2_threshold"]
    env.prove("1 strictly above the threshold, 0 otherwise", r.v["acc_s2_threshold"] == z3.If(a > t, z3.RealVal(1), z3.RealVal(0)), r.hyps)


def _clipped(var, name, arg):
    def ex(env, s, r):
        m = uf(name, r.v[arg])
        env.prove("the map value wherever that lies between 0 and 1", r.v[var] == m, r.hyps + [m >= 0, m <= 1])
    return ex


spec("efficiency", "S2Threshold", "C11", ens=["0 <= acc_s2_threshold <= 1"], extra=_thr)
spec("efficiency", "S1ReconEff", "C11", ens=["0 <= acc_s1_recon_eff <= 1"], extra=_clipped("acc_s1_recon_eff", "s1_eff_3f", "num_s1_phd"))
spec("efficiency", "S1CutAccept", "C11", ens=["0 <= cut_acc_s1 <= 1"], extra=_clipped("cut_acc_s1", "s1_cut_acc", "s1_area"))
spec("efficiency", "S2CutAccept", "C11", ens=["0 <= cut_acc_s2 <= 1"], extra=_clipped("cut_acc_s2", "s2_cut_acc", "s2_area"))
spec("efficiency", "Eff", "C11", req=["0 <= acc_s2_threshold <= 1", "0 <= acc_s1_recon_eff <= 1", "0 <= cut_acc_s1 <= 1", "0 <= cut_acc_s2 <= 1"],
     ens=["0 <= eff <= 1", "eff is the product of the acceptances"])


def _win(env, s, r):
    e, lo, hi = r.v["energy_center"], r.cv["clip_lower_energy"], r.cv["clip_upper_energy"]
    env.prove("1 inside the configured energy window, 0 otherwise", r.v["eff"] == z3.If(z3.And(e >= lo, e <= hi), z3.RealVal(1), z3.RealVal(0)), r.hyps)


def _one(env, s, r):
    env.prove("1 (all generated energies lie inside the window)", r.v["eff"] == 1, r.hyps)


spec("nestv2", "MonoEnergiesClipEff", "C11", ens=["0 <= eff <= 1"], extra=_win)
spec("nestv2", "BandEnergiesClipEff", "C11", ens=["0 <= eff <= 1"], extra=_one)
spec("er_nestv2", "BandEnergiesClipEff", "C11", ens=["0 <= eff <= 1"], extra=_one)
