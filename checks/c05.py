"""C05: map files are interpolated as their file declares."""
import itertools
import json
import os
import random
import shutil
import tempfile

import numpy as np
import z3

from vc import nd
from vc import pysym as P
from vc import smt
from vc.harness import Unit
from vc.models import bind
from vc.util import repo_fn
from checks import context_common as X
from checks.c23 import NAME, LLH, cfg, share, instance

N, R, B, I, OPQ = X.N, X.R, X.B, X.I, X.OPQ
ASSUMPTIONS = ["load_json returns the content of the file or raises", "the option is resolved to a file name (C23) and the file name to a path (C29)",
               "the interpolators by their own contracts (C02-C04); the conversion of a density by its own (C07)",
               "coordinates and queries are finite; a logarithmic coordinate lies in the positive range of single precision"]
POINT = dict(IDW="curve_interpolator", NN="map_interpolator_nearest_neighbor_1d", LERP="map_interpolator_linear_1d")
GRID = {(1, "IDW"): "map_interpolator_regular_binning_1d", (2, "IDW"): "map_interpolator_regular_binning_2d", (2, "LERP"): "map_interpolator_regular_binning_bilinear_2d",
        (2, "NN"): "map_interpolator_regular_binning_nearest_neighbor_2d", (3, "IDW"): "map_interpolator_regular_binning_3d",
        (3, "LERP"): "map_interpolator_regular_binning_trilinear_3d", (3, "NN"): "map_interpolator_regular_binning_nearest_neighbor_3d"}
OTHER = "\0any other"
XC, CD_, XM = z3.Function("coordinate", I, R), z3.Function("cumulative", I, R), z3.Real("norm")
LO, UP = z3.Function("axis_lower", I, R), z3.Function("axis_upper", I, R)
POS = z3.Function("query", I, I, R)
NPT, NQ = z3.Int("number_of_points"), z3.Int("number_of_queries")
FLO, FHI = [smt.num(float(x)) for x in (np.finfo(np.float32).tiny, np.finfo(np.float32).max)]


class Values:
    """the stored map values (an array of any content)"""
    array = True

    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        if name in ("astype", "copy"):
            return P.Contract(lambda it, a, k: o, name)
        return P._MISSING


VALUES = Values()


class Result:
    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        return P._MISSING


def contracts(data):
    con = dict(X.contracts())
    con.update(nd.contracts())
    ut = __import__("appletree.utils", fromlist=["x"])
    con[ut.get_file_path] = lambda it, a, k: a[0]
    con[cfg().Config._resolve_cached_config] = lambda it, a, k: P.SStr(z3.Const("file", N))

    def load(it, a, k):
        it.state["loaded"].append(a[0])
        return data(it)
    con[ut.load_json] = load
    con[ut.integrate_midpoint] = lambda it, a, k: P.SNum(XM)

    def cum(it, a, k):
        it.state["converted"].append((a, k))
        return (P.SObj(VALUES, z3.Const("midpoints", OPQ)), nd.arr([NPT], lambda j: P.SNum(CD_(j))))
    con[ut.cumulative_integrate_midpoint] = cum
    for n in list(POINT.values()) + list(GRID.values()):
        f = repo_fn("appletree.interpolation", n)

        def interp(it, a, k, n=n, f=f):
            it.state["calls"].append((n, list(bind(f, a, k).values())))
            return P.SObj(Result(), z3.Const("interpolated", OPQ))
        con[f] = interp
    return con


def strname(it, s):
    """the concrete string, or a symbolic one different from every documented word"""
    if s != OTHER:
        return s
    c = z3.Const("other_word", N)
    for w in ("point", "log_point", "regbin", "log_regbin", "IDW", "NN", "LERP", "pdf", "cdf"):
        it.run.fact(c != it.run.name(w))
    return P.SStr(c)


def _run(env, tag0, data, method, queries, expect, fn):
    """expect(state) -> z3 condition under which the file has to be refused"""
    def body(it):
        it.state = dict(loaded=[], converted=[], calls=[])
        run = it.run
        run.fact(z3.And(NPT >= 1, NQ >= 0, XM > 0, CD_(NPT - 1) == XM))       # the last running sum is the integral (C07)
        c = run.cell(P.MDict([], cls=share().RecordingDict))
        it.setattr(c, "accessed_keys", run.cell(P.MSet()))
        run.contracts[("global", "_cached_configs")] = c
        inst = instance(it, cfg().Map, False, dict(method=method if method != OTHER else "SPLINE"))
        it.call(it.getattr(inst, "build"), [], dict(llh_name=P.SStr(LLH)))
        it.state["built"] = True
        it.state["r"] = it.call(it.getattr(inst, "apply"), [queries()])
    for n, p in enumerate(P.explore(env, body, contracts(data))):
        tag = "%s, path %d]" % (tag0, n)
        s = p.state
        bad = expect
        if p.kind == "raise":
            env.check("an accepted map can be evaluated" + tag, not s.get("built"), repr(p.value))
            env.prove("refused only for a declared reason" + tag, bad, p.hyps)
            continue
        env.prove("an invalid file is refused" + tag, z3.Not(bad), p.hyps)
        if z3.is_true(z3.simplify(bad)):
            continue
        env.check("the file of the option is read" + tag, len(s["loaded"]) == 1 and isinstance(s["loaded"][0], P.SStr) and z3.eq(s["loaded"][0].z, z3.Const("file", N)), repr(s["loaded"]))
        env.check("one interpolation" + tag, len(s["calls"]) == 1 and isinstance(s["r"], P.SObj) and isinstance(s["r"].model, Result), repr(s["calls"]))
        if len(s["calls"]) == 1:
            fn(env, tag, p, *s["calls"][0])


def _axis(env, what, tag, hyps, got, raw, is_log):
    """got: element handed to the interpolator; raw: the coordinate"""
    g = P.anum(got)
    env.prove(what + " is finite" + tag, g.finite, hyps)
    if is_log:
        env.prove(what + " enters as log10" + tag, g.z == nd.LOG10(raw), hyps + [raw >= FLO, raw <= FHI])
    else:
        env.prove(what + " enters unchanged" + tag, P.zreal(g.z) == raw, hyps)


def _shape(env, what, tag, v, shape):
    ok = nd.is_nd(v) and len(v.info["shape"]) == len(shape) and all(nd._same(a, b) for a, b in zip(v.info["shape"], shape))
    env.check("shape of " + what + tag, ok, repr(getattr(v, "info", v)))
    return ok


def _point(env):
    for ctype, cname, method in itertools.product(("point", "log_point"), ("z", "pdf", "cdf"), ("IDW", "NN", "LERP", OTHER)):
        _point1(env, ctype, cname, method)
    _point1(env, OTHER, "z", "IDW")


def _point1(env, ctype, cname, method):
    log = ctype == "log_point"

    def data(it):
        seq = it.run.cell(P.MList.of_seq(P.SSeq(NPT, lambda j: P.SNum(XC(smt.num(j))))))
        return it.run.cell(P.MDict([("coordinate_type", strname(it, ctype)), ("coordinate_name", cname), ("coordinate_system", seq), ("map", P.SObj(VALUES, z3.Const("stored", OPQ)))]))
    j, n = z3.Ints("j n")
    bad = z3.BoolVal(ctype == OTHER or method == OTHER or log and cname in ("pdf", "cdf"))
    if log:
        bad = z3.Or(bad, z3.Not(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < NPT), XC(j) > 0), patterns=[XC(j)])))
    tag0 = " [%s, %s, %s" % (ctype.strip("\0"), cname, method.strip("\0"))

    def post(env, tag, p, name, args):
        env.check("the interpolation of the method" + tag, name == POINT[method], name)
        if len(args) != 3:
            env.fail("query, coordinates and values" + tag, repr(args))
            return
        hy = p.hyps + [n >= 0, n < NQ, j >= 0, j < NPT]
        if _shape(env, "queries" + tag, "", args[0], [NQ]):
            _axis(env, "the query", tag, hy, args[0].info["elem"](n), POS(n, 0), log)
        want = CD_(j) / XM if cname == "pdf" else XC(j)
        if _shape(env, "coordinates" + tag, "", args[1], [NPT]):
            _axis(env, "the coordinate", tag, hy, args[1].info["elem"](j), want, log)
        v = args[2]
        env.check("with the values of the map" + tag, isinstance(v, P.SObj) and v.model is VALUES and z3.eq(v.z, z3.Const("midpoints" if cname == "pdf" else "stored", OPQ)), repr(v))
        env.check("only a density is converted" + tag, len(p.state["converted"]) == (cname == "pdf"), repr(p.state["converted"]))
    _run(env, tag0, data, method, lambda: nd.arr([NQ], lambda a: P.SNum(POS(a, 0))), bad, post)


def _grid(ndim, part):
    def run(env):
        names = ["x", "y", "z", "w"][:ndim]
        words = ("regbin", "log_regbin")
        masks = [list(m) for m in itertools.product(words, repeat=ndim)]
        if part == "valid":
            for t, m in itertools.product(list(words) + masks, ("IDW", "NN", "LERP", OTHER)):
                _grid1(env, ndim, t, names, m)
        elif part == "names":
            for t in list(words) + masks:
                for k, w in itertools.product(range(ndim), ("pdf", "cdf")):
                    _grid1(env, ndim, t, names[:k] + [w] + names[k + 1:], "IDW")
        else:
            bad = [["regbin"] * (ndim - 1), ["log_regbin"] * (ndim + 1), ["regbin"] * (ndim + 1), ["log_regbin"] * (ndim - 1)]
            for k in range(ndim):
                for o in (OTHER, "point", "log_point"):
                    bad.append(["regbin"] * k + [o] + ["log_regbin"] * (ndim - k - 1))
            for t in bad:
                _grid1(env, ndim, t, names, "IDW")
    return run


def _grid1(env, ndim, ctype, names, method):
    good = isinstance(ctype, str) and ctype in ("regbin", "log_regbin") or isinstance(ctype, list) and len(ctype) == ndim and all(c in ("regbin", "log_regbin") for c in ctype)
    log = [c == "log_regbin" for c in (ctype if isinstance(ctype, list) else [ctype] * ndim)]

    def data(it):
        cell = it.run.cell
        ct = cell(P.MList([strname(it, c) for c in ctype])) if isinstance(ctype, list) else ctype
        lst = lambda f: cell(P.MList([P.SNum(f(z3.IntVal(k))) for k in range(ndim)]))      # noqa: E731
        return cell(P.MDict([("coordinate_type", ct), ("coordinate_name", cell(P.MList(names))), ("coordinate_lowers", lst(LO)), ("coordinate_uppers", lst(UP)),
                             ("map", P.SObj(VALUES, z3.Const("stored", OPQ)))]))
    bad = z3.BoolVal(not good or (ndim, method) not in GRID or any(w in ("pdf", "cdf") and lg for w, lg in zip(names, log)))
    if good:
        bad = z3.Or(bad, *[z3.Or(LO(k) <= 0, UP(k) <= 0) for k in range(ndim) if log[k]])
    tag0 = " [%d axes, %s, %s, %s" % (ndim, str(ctype).replace("\\x00", ""), names, method.strip("\0"))

    def post(env, tag, p, name, args):
        env.check("the interpolation of method and dimension" + tag, name == GRID[(ndim, method)], name)
        if len(args) != 4:
            env.fail("query, edges and values" + tag, repr(args))
            return
        n = z3.Int("n")
        hy = p.hyps + [n >= 0, n < NQ]
        qs = [NQ, ndim] if ndim > 1 else [NQ]
        if _shape(env, "queries" + tag, "", args[0], qs):
            for k in range(ndim):
                _axis(env, "the query on axis %d" % k, tag, hy, args[0].info["elem"](*([n, z3.IntVal(k)] if ndim > 1 else [n])), POS(n, k), log[k])
        for what, v, f in (("lower", args[1], LO), ("upper", args[2], UP)):
            if _shape(env, what + " edges" + tag, "", v, [ndim]):
                for k in range(ndim):
                    _axis(env, "the %s edge of axis %d" % (what, k), tag, hy, v.info["elem"](z3.IntVal(k)), f(z3.IntVal(k)), log[k])
        v = args[3]
        env.check("with the values of the map" + tag, isinstance(v, P.SObj) and v.model is VALUES and z3.eq(v.z, z3.Const("stored", OPQ)), repr(v))
    q = (lambda: nd.arr([NQ, ndim], lambda a, b: P.SNum(POS(a, b)))) if ndim > 1 else (lambda: nd.arr([NQ], lambda a: P.SNum(POS(a, 0))))
    _run(env, tag0, data, method, q, bad, post)


def _many(*runs):
    def run(env):
        for r in runs:
            r(env)
    return run


def units():
    c = "appletree/config.py:Map."
    common = [c + x for x in ("build", "preprocess", "_validate_log_coords")]
    grid = common + [c + x for x in ("build_regbin", "_get_regbin_interpolator", "map_regbin")]
    return [Unit("Map: point maps", common + [c + "build_point", c + "map_point", c + "pdf_to_cdf"], _point)] + \
        [Unit("Map: regular grids with %d axes" % d, grid, _many(*[_grid(d, p) for p in ("valid", "names", "invalid")])) for d in (1, 2, 3, 4)]


# ---------------------------------------------------------------- concrete
def cases(rng, tier):
    while True:
        yield dict(kind="point", seed=rng.randrange(1 << 30))
        yield dict(kind="grid", seed=rng.randrange(1 << 30))
        yield dict(kind="invalid", seed=rng.randrange(1 << 30))


def run_case(c):
    rng = random.Random(c["seed"])
    tmp = tempfile.mkdtemp(prefix="vc_c05_")
    cwd = os.getcwd()
    import appletree as apt
    apt.clear_cache()
    try:
        os.chdir(tmp)
        with X.Quiet():
            return dict(point=_c_point, grid=_c_grid, invalid=_c_invalid)[c["kind"]](rng)
    finally:
        os.chdir(cwd)
        apt.clear_cache()
        shutil.rmtree(tmp, True)


def _build(data, method):
    json.dump(data, open("map.json", "w"))
    m = cfg().Map(method=method, name="vc_map", default="map.json")
    m.taken_by = "Step"
    m.build(llh_name="er")
    return m


def _lg(x, log):
    return np.log10(np.asarray(x, np.float64)).astype(np.float32) if log else np.asarray(x, np.float32)


def _close(got, want, what):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return "%s: shape %s instead of %s" % (what, got.shape, want.shape)
    if not np.all(np.isclose(got, want, rtol=2e-3, atol=2e-3, equal_nan=True)):
        return "%s: %r instead of %r" % (what, got.tolist(), want.tolist())
    return None


def _c_point(rng):
    log, n = rng.random() < 0.5, rng.randrange(2, 7)
    x = np.cumsum([rng.choice([0.2, 1, 3, 40]) for _ in range(n)]) + (0 if log else rng.choice([-3, 0, -50]))
    if log and rng.random() < 0.5:      # coordinates over many decades
        x = 10.0 ** (rng.choice([-9, -6, -3, 1]) + np.cumsum([rng.choice([0.4, 1, 2.5]) for _ in range(n)]))
    v = np.array([rng.uniform(-3, 3) for _ in range(n)])
    method = rng.choice(sorted(POINT))
    cname = "z" if log else rng.choice(["z", "cdf", "pdf"])
    d = dict(coordinate_type="log_point" if log else "point", coordinate_name=cname, coordinate_system=x.tolist(), map=(np.abs(v) + 0.05 if cname == "pdf" else v).tolist())
    m = _build(dict(d), method)
    if cname == "pdf":
        ut = __import__("appletree.utils", fromlist=["x"])
        p = np.array(d["map"])
        mid = (x[1:] + x[:-1]) / 2
        s = np.cumsum((p[1:] + p[:-1]) / 2 * np.diff(x))
        got = ut.cumulative_integrate_midpoint(x, p)
        if len(got[0]) != len(mid):
            return None
        x, v = np.asarray(got[1], float) / float(ut.integrate_midpoint(x, p)), np.asarray(got[0], float)
        q = np.array([rng.random() for _ in range(5)])
    else:
        draw = (lambda: x[0] * (x[-1] / x[0]) ** rng.random()) if log and rng.random() < 0.7 else (lambda: rng.uniform(x[0], x[-1]))
        q = np.array([draw() if rng.random() < 0.7 else rng.choice([x[0], x[-1], x[-1] + 5, x[0] / 3 if log else x[0] - 2]) for _ in range(5)])
    if log:
        gap = np.abs(_lg(q, True)[:, None] - _lg(x, True)[None])
    else:
        gap = np.abs(q[:, None] - x[None])
    g = np.sort(gap, axis=1)
    if method == "NN" and len(x) > 1 and np.any(g[:, 1] - g[:, 0] < 1e-3) or method == "IDW" and np.any(gap < 1e-3):
        return None
    want = repo_fn("appletree.interpolation", POINT[method])(_lg(q, log), _lg(x, log), np.asarray(v, np.float32))
    return _close(m.apply(q.astype(np.float32)), want, "%s map %r with %s at %r" % (d["coordinate_type"], d, method, q.tolist()))


def _c_grid(rng):
    nd_, method = rng.choice(sorted(GRID))
    spec = rng.choice(["regbin", "log_regbin", "list", "list", "list"])
    log = [spec == "log_regbin" if spec != "list" else rng.random() < 0.5 for _ in range(nd_)]
    lo = [rng.choice([0.1, 1.0, 7.0]) if l else rng.choice([-5.0, 0.0, 2.0]) for l in log]
    if rng.random() < 0.4:
        lo = [rng.choice([1e-9, 1e-6, 1e-4, 300.0, 1e6]) if l else a for a, l in zip(lo, log)]
    up = [a * rng.choice([10.0, 50.0, 1e4]) if l else a + rng.choice([1.0, 9.0]) for a, l in zip(lo, log)]
    names = ["x", "y", "z"][:nd_]
    for k in range(nd_):
        if not log[k] and rng.random() < 0.1:
            names[k] = rng.choice(["pdf", "cdf"])
    shape = [rng.randrange(2, 5) for _ in range(nd_)]
    v = np.array([rng.uniform(-3, 3) for _ in range(int(np.prod(shape)))], np.float32).reshape(shape)
    d = dict(coordinate_type=spec if spec != "list" else ["log_regbin" if l else "regbin" for l in log], coordinate_name=names, coordinate_lowers=lo, coordinate_uppers=up, map=v.tolist())
    m = _build(dict(d), method)
    q = np.array([[(a * (b / a) ** t if l else a + (b - a) * t) for a, b, l, t in zip(lo, up, log, [rng.choice([0.17, 0.31, 0.43, 0.71, 0.93]) + rng.uniform(-.02, .02) for _ in lo])] for _ in range(5)])
    tr = lambda a: np.stack([_lg(np.asarray(a)[..., k], log[k]) for k in range(nd_)], axis=-1)     # noqa: E731
    qq, l2, u2 = tr(q), tr(lo), tr(up)
    if method == "NN":
        t = (qq - l2) / (u2 - l2) * (np.array(shape) - 1)
        if np.any(np.abs(t - np.floor(t) - 0.5) < 1e-2):
            return None
    if nd_ == 1:
        q, qq = q[:, 0], qq[:, 0]
    want = repo_fn("appletree.interpolation", GRID[(nd_, method)])(qq, l2, u2, v)
    return _close(m.apply(q.astype(np.float32)), want, "grid %r with %s at %r" % (d, method, q.tolist()))


def _c_invalid(rng):
    n = rng.randrange(1, 5)
    d = dict(coordinate_type=["log_regbin" if rng.random() < 0.5 else "regbin" for _ in range(n)], coordinate_name=["x", "y", "z", "w"][:n], coordinate_lowers=[1.0] * n, coordinate_uppers=[5.0] * n,
             map=np.zeros([2] * n).tolist())
    method = "IDW" if n < 4 else rng.choice(["IDW", "NN", "LERP"])
    what = rng.choice(["type", "entry", "length", "method", "negative", "negpoint", "pdf", "pdfpoint", "four"])
    if what == "type":
        d["coordinate_type"] = rng.choice(["regbins", "log", "points", "", "POINT", "log_regbin "])
    elif what == "entry":
        d["coordinate_type"][rng.randrange(n)] = rng.choice(["point", "log_point", "log", "linear", ""])
    elif what == "length":
        d["coordinate_type"] = (d["coordinate_type"] + ["regbin"]) if rng.random() < 0.5 else d["coordinate_type"][:-1]
    elif what == "method":
        method = rng.choice(["idw", "linear", "", "SPLINE"] + (["NN", "LERP"] if n == 1 else []))
    elif what == "negative":
        k = rng.randrange(n)
        d["coordinate_type"][k] = "log_regbin"
        if all(t == "log_regbin" for t in d["coordinate_type"]) and rng.random() < 0.5:
            d["coordinate_type"] = "log_regbin"
        if rng.random() < 0.8:
            d["coordinate_lowers"][k] = rng.choice([0.0, -1.0])
        else:
            d["coordinate_uppers"][k] = rng.choice([0.0, -2.0])
    elif what == "pdf":
        k = rng.randrange(n)
        d["coordinate_type"][k], d["coordinate_name"][k] = "log_regbin", rng.choice(["pdf", "cdf"])
    elif what == "four":
        d["coordinate_type"] = rng.choice(["regbin", ["regbin"] * 4, ["log_regbin"] * 4])
        d.update(coordinate_name=["x", "y", "z", "w"], coordinate_lowers=[1.0] * 4, coordinate_uppers=[5.0] * 4, map=np.zeros([2] * 4).tolist())
        method = rng.choice(["IDW", "NN", "LERP"])
    else:
        x = [0.5, 1.0, 2.0]
        if what == "negpoint":
            x[rng.randrange(3)] = rng.choice([0.0, -0.5])
            x.sort()
        d = dict(coordinate_type="log_point", coordinate_name="z" if what == "negpoint" else rng.choice(["pdf", "cdf"]), coordinate_system=x, map=[1.0, 2.0, 3.0])
        method = rng.choice(sorted(POINT))
    try:
        _build(json.loads(json.dumps(d)), method)
    except Exception:
        return None
    return "invalid map file (%s) accepted with method %r: %r" % (what, method, d)
