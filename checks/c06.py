"""C06: a map with uncertainty interpolates between its median and its bands."""
import json
import os
import random
import shutil
import tempfile

import numpy as np
import z3

from vc import pysym as P
from vc.harness import Unit
from checks import context_common as X
from checks.c23 import NAME, LLH, FC, FD, cfg, share, files, entry, instance, sub_names

N, R, B, I, OPQ = X.N, X.R, X.B, X.I, X.OPQ
ASSUMPTIONS = ["Map.apply is a function of file, method and position (C02-C05)", "the options of the three maps are not configured themselves (that case: SigmaMap.build)",
               "the value of the scaler is a finite number"]
OTHER = z3.Const("another_likelihood", N)
FO = z3.Function("file_of_another_likelihood", I, N)
VAL = z3.Function("map_value", N, I, R)      # (file, position)
PAR = z3.Function("parameter", N, R)
HAS = z3.Function("has_parameter", N, B)
LEN = z3.Int("number_of_positions")


class Part:
    """a map made for a file, given by its values at the asked positions"""

    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        if name == "apply":
            def f(it, a, k):
                args = list(a) + list(k.values())
                it.state["asked"].append(args)
                d = o.info["kw"]["default"]
                return P.SArr(LEN, lambda j: P.SNum(VAL(d.z, j)))
            return P.Contract(f, name)
        if name == "name":
            return o.info["kw"]["name"]
        if name == "build":
            return P.Contract(lambda it, a, k: None, name)
        return P._MISSING


class Positions:
    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        return P._MISSING


SHAPES = (3, 4, "str")


def forms():
    """(configured: None | shape | (dictionary, shape of this likelihood, shape of the other), default)"""
    r = [(None, s) for s in SHAPES] + [(s, d) for s in SHAPES for d in SHAPES + (None,)]
    return r + [(("dict", s, o), "str") for s in SHAPES for o in SHAPES]


def setup(it, form, attribute):
    conf, dflt = form
    run = it.run
    run.fact(LLH != OTHER)
    items = []
    if isinstance(conf, tuple):
        d = run.cell(P.MDict([(P.SStr(OTHER), files(it, FO, conf[2])), (P.SStr(LLH), files(it, FC, conf[1]))]))
        items = [(P.SStr(NAME), d)]
    elif conf is not None:
        items = [(P.SStr(NAME), files(it, FC, conf))]
    cc = run.cell(P.MDict(items, cls=share().RecordingDict))
    it.setattr(cc, "accessed_keys", run.cell(P.MSet()))
    run.contracts[("global", "_cached_configs")] = cc
    inst = instance(it, cfg().SigmaMap, dflt is None, dict(method="IDW"))
    if dflt is not None:
        it.setattr(inst, "default", files(it, FD, dflt))
    if attribute:
        it.setattr(inst, "llh_name", P.SStr(LLH))
    return inst


def effective(form):
    conf, dflt = form
    return (dflt, FD) if conf is None else (conf[1] if isinstance(conf, tuple) else conf, FC)


def scaler(it, form):
    shape, f = effective(form)
    if shape == "str":
        return None
    return entry(f, 4, 3) if shape == 4 else it.run.name(it.cat([P.SStr(NAME), "_sigma"]))


def _required(attribute):
    def run(env):
        for form in forms():
            if isinstance(form[0], tuple) and attribute == "nothing":
                continue

            def body(it):
                it.state = {}
                inst = setup(it, form, attribute != "argument")
                it.state["want"] = scaler(it, form)
                it.state["r"] = it.call(it.getattr(inst, "required_parameter"), [], dict(llh_name=P.SStr(LLH)) if attribute == "argument" else {})
            for n, p in enumerate(P.explore(env, body, X.contracts())):
                tag = " [configured %s, default %s, likelihood by %s, path %d]" % (form[0], form[1], attribute, n)
                env.check("answered" + tag, p.kind != "raise", repr(p.value))
                if p.kind == "raise":
                    continue
                r, w = p.state["r"], p.state["want"]
                if w is None:
                    env.check("a single file needs no parameter" + tag, r is None, repr(r))
                else:
                    env.prove("the fourth entry, else the name followed by _sigma" + tag, r.z == w if isinstance(r, P.SStr) else z3.BoolVal(False), p.hyps)
    return run


def _apply(env):
    """building the map and evaluating it"""
    con = dict(X.contracts())

    def make(it, a, k):
        if a or not isinstance(k.get("default"), P.SStr):
            raise P.Unsupported("Map(%r, %r)" % (a, k))
        return P.SObj(Part(), it.run.fresh("map", OPQ), kw=dict(k))
    con[cfg().Map] = make
    for form in forms():
        def body(it):
            it.state = s = dict(asked=[])
            it.run.fact(z3.Distinct(NAME, *sub_names(it)))
            inst = setup(it, form, False)
            it.call(it.getattr(inst, "build"), [], dict(llh_name=P.SStr(LLH)))
            s["want"] = w = scaler(it, form)
            if w is not None:
                it.run.fact(HAS(w))
            it.run.fact(LEN >= 0)
            s["pos"] = pos = P.SObj(Positions(), z3.Const("positions", OPQ))
            pars = it.run.cell(P.MDict(base=P.SymBase(lambda k: HAS(k), lambda k: P.SNum(PAR(k.z)))))
            before = pars.content
            r = it.call(it.getattr(inst, "apply"), [pos, pars])
            s["same"] = pars.content is before or pars.content == before
            s["r"] = r
        for n, p in enumerate(P.explore(env, body, con)):
            tag = " [configured %s, default %s, path %d]" % (form[0], form[1], n)
            s = p.state
            env.check("evaluated" + tag, p.kind != "raise", repr(p.value))
            if p.kind == "raise":
                continue
            env.check("all maps at the given positions" + tag, all(len(a) == 1 and a[0] is s["pos"] for a in s["asked"]), repr(s["asked"]))
            env.check("the parameters are not modified" + tag, s["same"], "written")
            r = s["r"]
            env.check("one value per position" + tag, isinstance(r, P.SArr), repr(r))
            if not isinstance(r, P.SArr):
                continue
            j = z3.Int("j")
            v = r.elem(j)
            shape, f = effective(form)
            m, lo, up = (VAL(entry(f, shape, k), j) for k in range(3))
            hy = p.hyps + [j >= 0, j < LEN]
            env.prove("one value per position" + tag, z3.And(r.n == LEN, v.fin() if callable(getattr(v, "fin", None)) else z3.Not(z3.Or(v.nan, v.pinf, v.ninf))), hy)
            if s["want"] is None:
                env.prove("a single file: the value of that map" + tag, v.z == m, hy)
                continue
            sg = PAR(s["want"])
            env.prove("positive scaler: towards the upper map" + tag, v.z == m + sg * (up - m), hy + [sg > 0])
            env.prove("otherwise: towards the lower map" + tag, v.z == m + sg * (m - lo), hy + [sg <= 0])
            env.prove("0, +1 and -1: median, upper and lower map" + tag, z3.And(z3.Implies(sg == 0, v.z == m), z3.Implies(sg == 1, v.z == up), z3.Implies(sg == -1, v.z == lo)), hy)


def _many(*runs):
    def run(env):
        for r in runs:
            r(env)
    return run


def units():
    from checks import c23
    c = "appletree/config.py:"
    bld = [u for u in c23.units() if u.name in ("SigmaMap.build", "SigmaMap.get_configs")]
    return [Unit("SigmaMap.required_parameter", [c + "SigmaMap.required_parameter", c + "SigmaMap.get_configs"], _many(_required("attribute"), _required("argument"))),
            Unit("SigmaMap.apply", [c + "SigmaMap.apply", c + "SigmaMap.required_parameter", c + "SigmaMap.get_configs"], _apply)] + bld


# ---------------------------------------------------------------- concrete
def cases(rng, tier):
    while True:
        yield dict(kind="point", seed=rng.randrange(1 << 30))
        yield dict(kind="grid", seed=rng.randrange(1 << 30))


def _write(rng, name, kind):
    r = lambda: round(rng.uniform(-3, 3), 2)        # noqa: E731
    if kind == "point":
        x = np.cumsum([rng.choice([0.5, 1, 3]) for _ in range(3)]).tolist()
        json.dump(dict(coordinate_type="point", coordinate_name="z", coordinate_system=x, map=[r() for _ in x]), open(name, "w"))
    else:
        json.dump(dict(coordinate_type="regbin", coordinate_name=["x", "y"], coordinate_lowers=[0.0, 0.0], coordinate_uppers=[2.0, 3.0], map=[[r() for _ in range(4)] for _ in range(3)]), open(name, "w"))


def run_case(c):
    rng = random.Random(c["seed"])
    tmp = tempfile.mkdtemp(prefix="vc_c06_")
    cwd = os.getcwd()
    import appletree as apt
    apt.clear_cache()
    try:
        os.chdir(tmp)
        for j in range(7):
            _write(rng, "m%d.json" % j, c["kind"])
        with X.Quiet():
            return _session(rng, c["kind"])
    finally:
        os.chdir(cwd)
        apt.clear_cache()
        shutil.rmtree(tmp, True)


def _spec(rng):
    r = rng.random()
    f = ["m%d.json" % j for j in rng.sample(range(7), 3)]
    return f[0] if r < 0.3 else f if r < 0.6 else f + [rng.choice(["scaler", "mp_sigma", "t"])]


def _session(rng, kind):
    cf = cfg()
    method = rng.choice(["IDW", "NN", "LERP"])
    llhs = ["er", "nr"]
    default = _spec(rng)
    conf = rng.choice([None, _spec(rng), {l: _spec(rng) for l in llhs}])
    if conf is not None:
        share()._cached_configs.update({"mp": conf})
    pos = np.array([[rng.uniform(-1, 5) for _ in range(1 if kind == "point" else 2)] for _ in range(4)], np.float32)
    pos = pos[:, 0] if kind == "point" else pos

    def value(f, k):
        m = cf.Map(method=method, name="single_%d" % k, default=f)
        m.build(llh_name=None)
        return np.asarray(m.apply(pos), float)
    built = []
    for llh in rng.sample(llhs, rng.randrange(1, 3)):
        o = cf.SigmaMap(method=method, name="mp", default=default)
        o.taken_by = "Step"
        o.build(llh_name=llh)
        built.append((llh, o))
    for n, (llh, o) in enumerate(built):
        want = default if conf is None else conf[llh] if isinstance(conf, dict) else conf
        fs = want if isinstance(want, list) else [want] * 3
        med, lo, up = (value(f, 10 * n + k) for k, f in enumerate(fs[:3]))
        req = None if isinstance(want, str) else want[3] if len(want) == 4 else "mp_sigma"
        if o.required_parameter() != req or o.required_parameter(llh) != req:
            return "%r (default %r) requires %r for %s" % (conf, default, o.required_parameter(llh), llh)
        for s in (0.0, 1.0, -1.0, rng.uniform(-3, 3), rng.choice([1e-3, -1e-3])):
            pars = {x: rng.uniform(-9, 9) for x in ("scaler", "mp_sigma", "t", "unrelated")}
            if req is not None:
                pars[req] = s
            got = np.asarray(o.apply(pos, pars), float)
            exp = med if req is None else med + s * (up - med) if s > 0 else med + s * (med - lo)
            if got.shape != exp.shape or not np.all(np.abs(got - exp) <= 1e-4 * (1 + np.abs(exp) + abs(s) * (np.abs(up) + np.abs(lo) + np.abs(med)))):
                return "map %r of %s at scaler %r is %r instead of %r" % (want, llh, pars.get(req), got, exp)
    return None
