"""C16: component histograms are scaled to the rate parameter."""
import itertools
import os
import random
import shutil
import tempfile

import numpy as np
import z3

from vc import nd
from vc import pysym as P
from vc import smt
from vc.harness import Unit
from vc.models import bind
from vc.util import repo_fn
from checks import context_common as X

N, R, B, I, OPQ = X.N, X.R, X.B, X.I, X.OPQ
ASSUMPTIONS = ["the histogram functions by their contract (C01); simulate returns its observables with the efficiency last (C15)",
               "simulated numbers and histogram contents are finite, the total content and the number of events positive (requires)", "bootstrapped energies (g4 input) are not covered"]
OBS, DATA = z3.Function("observable", I, I, R), z3.Function("data", N, I, R)
EFF = z3.Function("efficiency", I, R)
PAR, HAS = z3.Function("parameter", N, R), z3.Function("has_parameter", N, B)
NEV, BATCH = z3.Int("number_of_events"), z3.Int("batch_size")
RATE = z3.Const("rate_name", N)
HIST = {1: z3.Function("histogram", I, R), 2: z3.Function("histogram2", I, I, R), 3: z3.Function("histogram3", I, I, I, R)}
NB = [z3.Int("bins_%d" % k) for k in range(3)]
HISTS = dict(irreg1="make_hist_irreg_bin_1d", irreg2="make_hist_irreg_bin_2d", mesh="make_hist_mesh_grid")


def comp():
    return __import__("appletree.component", fromlist=["x"])


class Edges:
    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        return P._MISSING


EDGES = Edges()


def edges(it, d):
    return it.run.cell(P.MList([P.SObj(EDGES, z3.Const("edges_%d" % k, OPQ)) for k in range(d)]))


def hist(it, d):
    return nd.arr(NB[:d], lambda *i: P.SNum(HIST[d](*[smt.num(x) for x in i])))


def contracts(d):
    con = dict(X.contracts())
    con.update(nd.contracts())
    for key, name in HISTS.items():
        f = repo_fn("appletree.hist", name)

        def c(it, a, k, key=key, f=f):
            it.state["hists"].append((key, bind(f, a, k)))
            return hist(it, d)
        con[f] = c
        w = getattr(f, "__wrapped__", None)
        if w is not None:
            con[w] = c
    return con


class _Energy:
    pass


_REAL = {}


def instance(it, kind, d, **over):
    m = comp()
    cls = m.ComponentSim if kind == "sim" else m.ComponentFixed
    if kind not in _REAL:
        with X.Quiet():
            _REAL[kind] = cls(name="vc", llh_name="vc_llh", **({} if kind == "sim" else dict(file_name="vc.csv")))
    attrs = dict(vars(_REAL[kind]))
    attrs.update(needed_parameters=it.run.cell(P.MSet()))
    if kind == "sim":
        attrs.update(_plugin_class_registry=it.run.cell(P.MDict([("energy", _Energy)])))
    inst = it.run.cell(P.Inst(cls, attrs))
    for k, v in {"bins": edges(it, d), "rate_name": P.SStr(RATE), **over}.items():
        it.setattr(inst, k, v)
    return inst


def parameters(it):
    it.run.fact(HAS(RATE))
    return it.run.cell(P.MDict(base=P.SymBase(lambda k: HAS(k), lambda k: P.SNum(PAR(k.z)))))


def binned(it, d, eps, eff):
    """spec: the histogram, raised to the small positive floor when asked for"""
    h = hist(it, d)
    if not eps:
        return h
    floor = it.binop(P.ast.Add(), 1e-10, nd.f_mean(it, [nd.arr([NEV], eff)], {}))
    return nd.elementwise(it, lambda x: nd._merge(it, it.zb(it.truthz(it.compare1(P.ast.Lt(), x, floor))), floor, x), h)


def base_facts(it, d):
    it.run.fact(z3.And(NEV >= 1, BATCH >= 1, *[b >= 1 for b in NB[:d]]))


def check_call(env, tag, p, btype, d, sample, eff):
    """the histogram is made from the observables in order, with the weights"""
    calls = p.state["hists"]
    want = "mesh" if btype == "meshgrid" else "irreg%d" % d
    env.check("one histogram of the binning" + tag, len(calls) == 1 and calls[0][0] == want, repr([c[0] for c in calls]))
    if len(calls) != 1 or calls[0][0] != want:
        return
    b = calls[0][1]
    s, n = b["sample"], z3.Int("n")
    hy = p.hyps + [n >= 0, n < NEV]
    shape = [NEV] if want == "irreg1" else [NEV, d]
    s = nd.lift(s) if not isinstance(s, P.SObj) or nd.is_nd(s) else None
    ok = s is not None and len(s.info["shape"]) == len(shape) and all(nd._same(x, y) for x, y in zip(s.info["shape"], shape))
    env.check("one row per event, one column per observable" + tag, ok, repr(getattr(s, "info", s)))
    if ok:
        for k in range(d):
            e = P.anum(s.info["elem"](*([n] if len(shape) == 1 else [n, z3.IntVal(k)])))
            env.prove("observable %d in its place%s" % (k, tag), z3.And(e.finite, e.z == sample(k, n)), hy)
    w = b.get("weights")
    okw = isinstance(w, (P.SArr,)) or nd.is_nd(w) and len(w.info["shape"]) == 1
    env.check("weights of the events" + tag, okw, repr(w))
    if okw:
        w = nd.lift(w)
        e = P.anum(w.info["elem"](n))
        env.prove("weights are the efficiencies" + tag, z3.And(smt.num(w.info["shape"][0]) == NEV, e.finite, P.zreal(e.z) == eff(n).z), hy)
    if want == "mesh":
        got = b["bins"]
        got = list(got.concrete() or []) if isinstance(got, P.MList) else list(got) if isinstance(got, (tuple, list)) else [got]
    else:
        got = [b["bins"]] if want == "irreg1" else [b["bins_x"], b["bins_y"]]
    env.check("the edges of the component in order" + tag, [getattr(g, "z", None) is not None and str(g.z) for g in got] == ["edges_%d" % k for k in range(d)], repr(got))


def check_result(env, tag, p, d, norm):
    s = p.state
    r, w = s["r"], s["want"]
    ok = nd.is_nd(r) and len(r.info["shape"]) == d and all(nd._same(x, y) for x, y in zip(r.info["shape"], NB[:d]))
    env.check("shape of the histogram" + tag, ok, repr(getattr(r, "info", r)))
    if not ok:
        return
    ix = [z3.Int("b%d" % k) for k in range(d)]
    hy = p.hyps + [z3.And(i >= 0, i < b) for i, b in zip(ix, NB)]
    e, h = P.anum(r.info["elem"](*ix)), P.anum(w.info["elem"](*ix))
    if norm == "on_pdf":
        t = P.anum(s["total"])
        hy = hy + [t.z > 0]
        env.prove("rate times content over total content" + tag, z3.And(e.finite, e.z * t.z == h.z * PAR(RATE)), hy)
    else:
        env.prove("rate times content over the number of events" + tag, z3.And(e.finite, e.z * z3.ToReal(s["n"]) == h.z * PAR(RATE)), hy)


def _sim(d, btype, noeff):
    def run(env):
        for norm, eps in itertools.product(("on_pdf", "on_sim"), (True, False)):
            eff = (lambda j: P.SNum(z3.RealVal(1))) if noeff else (lambda j: P.SNum(EFF(smt.num(j))))

            def body(it):
                it.state = s = dict(hists=[], asked=[])
                base_facts(it, d)
                inst = instance(it, "sim", d, bins_type=btype, norm_type=norm, add_eps_to_hist=eps, force_no_eff=noeff)
                key, key2, pars = P.SOpq(z3.Const("key", OPQ)), P.SOpq(z3.Const("key2", OPQ)), parameters(it)

                def sim(it, a, k):
                    s["asked"].append((list(a), k))
                    out = [P.SArr(NEV, lambda j, q=q: P.SNum(OBS(q, smt.num(j)))) for q in range(d)]
                    return (key2, it.run.cell(P.MList(out + ([] if noeff else [P.SArr(NEV, lambda j: P.SNum(EFF(smt.num(j))))]))))
                it.setattr(inst, "simulate", P.Contract(sim, "simulate"))
                r = it.call(it.getattr(inst, "simulate_hist"), [key, P.SNum(BATCH), pars])
                s["ok"] = isinstance(r, tuple) and len(r) == 2
                if s["ok"]:
                    s["key"], s["r"] = r
                s["given"] = (key, pars)
                s["want"] = w = binned(it, d, eps, eff)
                s["n"] = BATCH
                if norm == "on_pdf":
                    s["total"] = nd.f_sum(it, [w], {})
            tag0 = " [%d observables, %s, %s%s%s" % (d, btype, norm, ", floor" if eps else "", ", no efficiency" if noeff else "")
            for n, p in enumerate(P.explore(env, body, contracts(d))):
                tag = "%s, path %d]" % (tag0, n)
                s = p.state
                env.check("a histogram is made" + tag, p.kind != "raise" and s["ok"], repr(p.value))
                if p.kind == "raise" or not s["ok"]:
                    continue
                a = s["asked"]
                args = list(a[0][0]) + list(a[0][1].values()) if a else []
                env.check("one simulation with the given key, size and parameters" + tag, len(a) == 1 and len(args) == 3 and args[0] is s["given"][0] and args[2] is s["given"][1]
                          and isinstance(args[1], P.SNum) and z3.eq(args[1].z, BATCH), repr(a))
                env.check("the key of the simulation is handed on" + tag, isinstance(s["key"], P.SOpq) and z3.eq(s["key"].z, z3.Const("key2", OPQ)), repr(s["key"]))
                check_call(env, tag, p, btype, d, lambda k, n: OBS(k, n), eff)
                check_result(env, tag, p, d, norm)
    return run


NAMES = [z3.Const("column_%d" % k, N) for k in range(3)]


class Frame:
    """the data file: a column of numbers per name"""

    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        cols = o.info.get("cols")
        if name in ("to_numpy", "values") and cols is not None:
            v = nd.arr([NEV, len(cols)], lambda n, k: _col(cols, n, k))
            return P.Contract(lambda it, a, k: v, name) if name == "to_numpy" else v
        return P._MISSING

    def getitem(self, it, o, k):
        if isinstance(k, P.MList) and k.concrete() is not None and all(isinstance(x, P.SStr) for x in k.concrete()):
            return P.SObj(FRAME, None, cols=[x.z for x in k.concrete()])
        raise P.Unsupported("column %r" % (k,))

    def length(self, it, o):
        return P.SNum(NEV)


FRAME = Frame()


def _col(cols, n, k):
    k = z3.simplify(smt.num(k))
    vals = [DATA(c, smt.num(n)) for c in cols]
    r = vals[-1]
    for j in range(len(vals) - 2, -1, -1):
        r = z3.If(k == j, vals[j], r)
    return P.SNum(z3.simplify(r))


def _fixed(d, btype, form):
    def run(env):
        for norm, eps in itertools.product(("on_pdf", "on_sim"), (True, False)):
            one = lambda j: P.SNum(z3.RealVal(1))       # noqa: E731
            con = contracts(d)
            loads = []

            def load(it, a, k):
                loads.append(a[0] if a else None)
                return P.SObj(FRAME, None)
            con[repo_fn("appletree.utils", "load_data")] = load

            def body(it):
                it.state = s = dict(hists=[])
                del loads[:]
                base_facts(it, d)
                inst = instance(it, "fixed", d, bins_type=btype, norm_type=norm, add_eps_to_hist=eps)
                names = [P.SStr(z) for z in NAMES[:d]]
                it.call(it.getattr(inst, "deduce"), [], dict(data_names=tuple(names) if form == "tuple" else it.run.cell(P.MList(names))))
                need = it.getattr(inst, "needed_parameters")
                q = z3.Const("q", N)
                s["need"] = it.zb(it.has(need, P.SStr(q)))
                s["r"] = it.call(it.getattr(inst, "simulate_hist"), [parameters(it)])
                s["want"] = w = binned(it, d, eps, one)
                s["n"] = NEV
                if norm == "on_pdf":
                    s["total"] = nd.f_sum(it, [w], {})
            tag0 = " [%d columns, %s, %s%s, names in a %s" % (d, btype, norm, ", floor" if eps else "", form)
            for n, p in enumerate(P.explore(env, body, con)):
                tag = "%s, path %d]" % (tag0, n)
                s = p.state
                env.check("a histogram is made" + tag, p.kind != "raise", repr(p.value))
                if p.kind == "raise":
                    continue
                env.check("of the configured file" + tag, set(loads) == {"vc.csv"}, repr(loads))
                q = z3.Const("q", N)
                env.prove("needs exactly its rate" + tag, s["need"] == (q == RATE), p.hyps)
                check_call(env, tag, p, btype, d, lambda k, n: DATA(NAMES[k], n), one)
                check_result(env, tag, p, d, norm)
    return run


def _refused(env):
    """unsupported binnings and normalisations"""
    other = z3.Const("other_word", N)

    def word(it, w):
        if w != "other":
            return w
        for x in ("irreg", "meshgrid", "on_pdf", "on_sim"):
            it.run.fact(other != it.run.name(x))
        return P.SStr(other)
    for d, btype, norm in ((1, None, "on_pdf"), (2, None, "on_sim"), (1, "other", "on_pdf"), (3, "irreg", "on_pdf"), (1, "irreg", "other"), (2, "irreg", "other"), (2, "meshgrid", "other"), (1, "irreg", "")):
        def body(it):
            it.state = dict(hists=[])
            base_facts(it, d)
            inst = instance(it, "sim", d, bins_type=word(it, btype), norm_type=word(it, norm))
            out = [P.SArr(NEV, lambda j, q=q: P.SNum(OBS(q, smt.num(j)))) for q in range(d)] + [P.SArr(NEV, lambda j: P.SNum(EFF(smt.num(j))))]
            it.setattr(inst, "simulate", P.Contract(lambda it, a, k: (P.SOpq(z3.Const("key2", OPQ)), it.run.cell(P.MList(out))), "simulate"))
            it.call(it.getattr(inst, "simulate_hist"), [P.SOpq(z3.Const("key", OPQ)), P.SNum(BATCH), parameters(it)])
        for n, p in enumerate(P.explore(env, body, contracts(d))):
            env.check("%d observables, binning %s, normalisation %s are refused [path %d]" % (d, btype, norm, n), p.kind == "raise", "accepted")
    for w in ("irreg", "meshgrid", None, "other", "nobins", "notype"):
        def body(it):
            it.state = {}
            inst = instance(it, "sim", 1)
            kw = dict(bins=edges(it, 1), bins_type=word(it, w) if w not in ("nobins", "notype") else "irreg")
            if w == "nobins":
                kw.pop("bins")
            if w == "notype":
                kw.pop("bins_type")
            it.call(it.getattr(inst, "set_binning"), [], kw)
            it.state["type"] = it.getattr(inst, "bins_type")
            it.state["bins"] = it.getattr(inst, "bins") is kw["bins"]
        for n, p in enumerate(P.explore(env, body, contracts(1))):
            if w in ("other", "nobins", "notype"):
                env.check("set_binning refuses %s [path %d]" % (w, n), p.kind == "raise", "accepted")
            else:
                env.check("set_binning keeps bins and type %s [path %d]" % (w, n), p.kind != "raise" and p.state["type"] == w and p.state["bins"], repr(p.value))


def _many(*runs):
    def run(env):
        for r in runs:
            r(env)
    return run


KINDS = ((1, "irreg"), (2, "irreg"), (1, "meshgrid"), (2, "meshgrid"))


def units():
    c = "appletree/component.py:"
    common = [c + "Component.implement_binning", c + "Component.get_normalization"]
    out = []
    for half, kinds in (("irregular", KINDS[:2]), ("mesh", KINDS[2:])):
        out += [Unit("ComponentSim.simulate_hist, %s bins" % half, common + [c + "ComponentSim.simulate_hist"], _many(*[_sim(d, b, False) for d, b in kinds])),
                Unit("ComponentSim.simulate_hist without efficiency, %s bins" % half, common + [c + "ComponentSim.simulate_hist"], _many(*[_sim(d, b, True) for d, b in kinds])),
                Unit("ComponentFixed.simulate_hist, %s bins" % half, common + [c + "ComponentFixed.simulate_hist", c + "ComponentFixed.deduce"],
                     _many(*[_fixed(d, b, f) for d, b in kinds for f in ("list", "tuple")]))]
    return out + [Unit("unsupported binning or normalisation", common + [c + "ComponentSim.simulate_hist", c + "Component.set_binning"], _refused)]


# ----------------------------------------------------------------- concrete
def cases(rng, tier):
    k = 0
    while True:
        k += 1
        d = 1 + k % 2
        n, m = rng.choice([(1, 2), (6, 3), (40, 5)]), rng.choice([2, 3, 6])
        n = n[0]

        def axis(m):
            return np.cumsum([rng.randint(1, 3) for _ in range(m)]).astype(float).tolist()
        btype = "irreg" if k % 3 else "meshgrid"
        ex = axis(m)
        bins = [ex] if d == 1 else [ex, axis(m)] if btype == "meshgrid" else [ex, [axis(3) for _ in range(m - 1)]]
        yield dict(kind="fixed" if k % 5 < 2 else "sim", d=d, btype=btype, norm=rng.choice(["on_pdf", "on_sim"]), eps=rng.random() < 0.5,
                   noeff=rng.random() < 0.3, bins=bins, batch=rng.choice([n, n, 3 * n + 1]),
                   obs=[[ex[0] + rng.randint(-2, int(ex[-1] - ex[0]) + 1) + 0.5 for _ in range(n)]] + [[rng.randint(-1, 12) + 0.5 for _ in range(n)] for _ in range(d - 1)],
                   eff=[rng.choice([0.0, 0.25, 0.5, 1.0]) for _ in range(n)], rates=[rng.choice([1.0, 2.5, 1e3, 0.125]), 7.0], bad=rng.choice([None, None, None, "norm", "btype", "dim"]), order=rng.random() < 0.5)


def _make(c, cls_, d=None, **kw):
    with X.Quiet():
        o = cls_(name="one", llh_name="vc_c16", **kw)
    o.rate_name, o.norm_type, o.add_eps_to_hist = "one_rate", c["norm"], c["eps"]
    o.set_binning(bins=[np.array(b) for b in c["bins"]], bins_type=c["btype"])
    return o


def _counts(c, obs, w):
    """content per bin; no value lies on an edge"""
    b = c["bins"]
    inside = lambda v, e: [(v > lo) & (v < hi) for lo, hi in zip(e[:-1], e[1:])]        # noqa: E731
    x = inside(obs[0], b[0])
    if c["d"] == 1:
        return np.array([w[m].sum() for m in x])
    ys = [b[1]] * len(x) if c["btype"] == "meshgrid" else b[1]
    return np.array([[w[m & n].sum() for n in inside(obs[1], y)] for m, y in zip(x, ys)])


def run_case(c):
    with X.Quiet():
        return _case(c)


def _case(c):
    m = comp()
    obs, n = [np.array(o) for o in c["obs"]], len(c["obs"][0])
    fixed = c["kind"] == "fixed"
    eff = np.ones(n) if fixed or c["noeff"] else np.array(c["eff"])
    d = None
    pars = {"one_rate": c["rates"][0], "other_rate": 3.0, "rate": 5.0}
    asked = []
    try:
        if fixed:
            import pandas as pd
            d = tempfile.mkdtemp(prefix="vc_c16_")
            f = os.path.join(d, "data.csv")
            names = ["cs%d" % (q + 1) for q in range(c["d"])]
            cols = {"junk": np.arange(n) + 0.25, **dict(zip(names, obs))}
            pd.DataFrame({q: cols[q] for q in (sorted(cols, reverse=c["order"]))}).to_csv(f, index=False)
            o = _make(c, m.ComponentFixed, file_name=f)
        else:
            o = _make(c, m.ComponentSim)
            o.register(__import__("appletree.plugins", fromlist=["x"]).UniformEnergySpectra)
            o.force_no_eff = c["noeff"]

            def simulate(key, batch_size, parameters):
                asked.append((key, batch_size, parameters))
                return ("next", key), [np.array(v, np.float32) for v in c["obs"]] + ([] if c["noeff"] else [np.array(c["eff"], np.float32)])
            o.simulate = simulate
        if c["bad"]:
            return _bad(c, o, m, pars, names if fixed else None)
        if fixed:
            o.deduce(data_names=names)
            if set(o.needed_parameters) != {"one_rate"}:
                return "needed parameters %s" % sorted(o.needed_parameters)

        def get(p):
            if fixed:
                return np.asarray(o.simulate_hist(p), float)
            del asked[:]
            key, h = o.simulate_hist("key", c["batch"], p)
            if key != ("next", "key") or len(asked) != 1 or asked[0][0] != "key" or asked[0][1] != c["batch"] or asked[0][2] is not p:
                raise AssertionError("simulated with %r, key %r returned" % (asked, key))
            return np.asarray(h, float)
        h = _counts(c, obs, eff)
        if c["eps"]:
            h = np.maximum(h, 1e-10 + eff.mean())
        count = n if fixed else c["batch"]
        if c["norm"] == "on_pdf" and h.sum() <= 0:
            return None
        for rate in c["rates"]:
            for other in (3.0, 4e3):
                pars = {"one_rate": rate, "other_rate": other, "rate": 5.0 * other}
                want = h * rate / (h.sum() if c["norm"] == "on_pdf" else count)
                got = get(pars)
                if got.shape != want.shape:
                    return "histogram of shape %s, expected %s" % (got.shape, want.shape)
                if not np.allclose(got, want, rtol=1e-4, atol=1e-9):
                    i = tuple(np.argwhere(~np.isclose(got, want, rtol=1e-4, atol=1e-9))[0])
                    return "bin %s holds %g, content %g at rate %g, %s: %g expected" % (list(map(int, i)), got[i], h[i], rate, c["norm"], want[i])
        return None
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)


def _bad(c, o, m, pars, names):
    if c["bad"] == "norm":
        o.norm_type = "on_data"
    elif c["bad"] == "btype":
        try:
            o.set_binning(bins=o.bins, bins_type="regular")
        except ValueError:
            pass
        else:
            return "an unsupported binning type is accepted"
        o.bins_type = "regular"
    else:
        if c["btype"] == "meshgrid":
            return None
        o.bins = [o.bins[0]] * 3
        if names is None:
            n, old = len(c["obs"][0]), o.simulate

            def simulate(*a):
                k, r = old(*a)
                return k, [r[0]] * 3 + ([] if c["noeff"] else [r[-1]])
            o.simulate = simulate
    try:
        if names is not None:
            o.deduce(data_names=names if c["bad"] != "dim" else ["junk", "cs1", "junk"])
            o.simulate_hist(pars)
        else:
            o.simulate_hist("key", c["batch"], pars)
    except Exception:
        return None
    return "unsupported %s accepted" % dict(norm="normalisation", btype="binning", dim="number of dimensions")[c["bad"]]
