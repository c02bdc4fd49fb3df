"""C34: the plotter analyses exactly the usable samples of the chain."""
import contextlib
import io
import json
import os
import shutil
import tempfile

import emcee
import h5py
import numpy as np
import z3

from vc import nd
from vc import pysym as P
from vc import smt
from vc.harness import Unit
from vc.models import bind
from checks import context_common as X

N, R, B, I, OPQ = X.N, X.R, X.B, X.I, X.OPQ
ASSUMPTIONS = ["emcee: HDFBackend.get_chain, get_log_prob and get_blobs return the stored steps after discarding and thinning, in order; flat=True lists "
               "the walkers of the first step, then those of the second one and so on",
               "h5py and json: the attributes parameter_fit and par_config read as they were written (C31)",
               "numpy: argmax is the index of a largest entry"]
S, W, D = z3.Int("n_steps"), z3.Int("n_walkers"), z3.Int("n_parameters")
Q = z3.Int("parameter")
DIS, THIN = z3.Int("discard"), z3.Int("thin")
CH = z3.Function("chain", I, I, I, I, I, R)
LP = z3.Function("log_posterior", I, I, I, I, R)
BAD = [z3.Function("log_posterior_" + x, I, I, I, I, B) for x in ("nan", "pinf", "ninf")]
BL = z3.Function("log_prior", I, I, I, I, R)
NAME = z3.Function("fitted_name", I, N)
FILE = z3.Const("backend_file", N)


def lp(d, t, s, w):
    return P.SNum(LP(d, t, s, w), *[f(d, t, s, w) for f in BAD])


def usable(s, w):
    return P.znot(P.zor(*[f(DIS, THIN, s, w) for f in BAD]))


class Backend:
    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        if name == "iteration":
            return P.SNum(z3.Int("iterations"))
        if name in ("get_chain", "get_log_prob", "get_blobs"):
            def f(it, a, k):
                b = bind([("flat", False), ("thin", 1), ("discard", 0)], a, k)
                d, t = P.anum(b["discard"]).z, P.anum(b["thin"]).z
                el = {"get_chain": lambda s, w, q: P.SNum(CH(d, t, s, w, q)), "get_log_prob": lambda s, w: lp(d, t, s, w), "get_blobs": lambda s, w: P.SNum(BL(d, t, s, w))}[name]
                last = [D] if name == "get_chain" else []
                z = smt.num
                if it.truth(b["flat"]):
                    return nd.arr([S * W] + last, lambda j, *q: el(z(j) / W, z(j) % W, *[z(x) for x in q]))
                return nd.arr([S, W] + last, lambda s, w, *q: el(z(s), z(w), *[z(x) for x in q]))
            return P.Contract(f, name)
        return P._MISSING


class Attr:
    """what the backend file says about the fit"""

    def is_none(self, it, o):
        return False

    def isinstance(self, it, o, c):
        return c is str

    def getattr(self, it, o, name):
        if name in ("attrs", "__enter__"):
            return o if name == "attrs" else P.Contract(lambda it, a, k: o, name)
        if name in ("__exit__", "close"):
            return P.Contract(lambda it, a, k: None, name)
        return P._MISSING

    def getitem(self, it, o, k):
        s = it.state
        if k == "mcmc":
            return o
        if k == "parameter_fit":
            return P.SSeq(D, lambda j: P.SStr(NAME(smt.num(j))))
        if k == "par_config":
            return P.SObj(ATTR, z3.Const("par_config_text", OPQ))
        raise P.Unsupported("attribute %r" % (k,))


ATTR = Attr()
CFG = P.SObj(ATTR, z3.Const("par_config", OPQ))


def _h5(it, a, k):
    b = bind(["name", ("mode", "r")], a, k)
    it.state["opened"].append((b["name"], b["mode"]))
    return P.SObj(ATTR, z3.Const("file", OPQ))


def _backend(it, a, k):
    b = bind(["filename", ("name", "mcmc"), ("read_only", False), ("dtype", None), ("compression", None), ("compression_opts", None)], a, k)
    if b["name"] != "mcmc":
        raise P.Unsupported("backend name")
    it.state["opened"].append((b["filename"], "r" if b["read_only"] is True else "r+"))
    return P.SObj(Backend(), it.run.fresh("backend", OPQ))


def _loads(it, a, k):
    if len(a) == 1 and isinstance(a[0], P.SObj) and z3.eq(a[0].z, z3.Const("par_config_text", OPQ)):
        return CFG
    raise P.Unsupported("json.loads")


def _argmax(it, a, k):
    b = bind(["a", ("axis", None)], a, k)
    x = nd.lift(b["a"], it)
    if len(x.info["shape"]) != 1 or b["axis"] is not None:
        raise P.Unsupported("argmax along an axis")
    n, e = smt.num(x.info["shape"][0]), x.info["elem"]
    if not it.run.truth(n > 0):
        raise P.PyRaise(P.Exc(ValueError, ("empty",)))
    t, j = it.run.fresh("argmax", I), z3.Int(it.run.env.name("j"))
    u = P.anum(e(t))
    v = P.anum(e(j))
    # a NaN counts as the largest number
    it.run.fact(z3.And(t >= 0, t < n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Or(u.nan, z3.And(P.znot(v.nan), z3.Or(u.pinf, v.ninf, z3.And(u.finite, v.finite, v.z <= u.z))))))))
    it.state["best"].append(t)
    return P.SNum(t)


def _all(it, a, k):
    b = bind(["a", ("axis", None)], a, k)
    x = nd.lift(b["a"], it)
    if b["axis"] is None:
        return nd.f_all(it, a, {})
    sh, e = x.info["shape"], x.info["elem"]
    if len(sh) != 2 or b["axis"] not in (1, -1):
        raise P.Unsupported("all along an axis")
    w = z3.Int("all!w")
    return nd.arr([sh[0]], lambda s: P.SBool(z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < smt.num(sh[1])), it.zb(it.truthz(e(s, w)))))))


def _any(it, a, k):
    b = bind(["a", ("axis", None)], a, k)
    x = nd.lift(b["a"], it)
    r = _all(it, [nd.elementwise(it, lambda v: it.mkbool(P.znot(it.zb(it.truthz(v)))), x)], {"axis": b["axis"]}) if b["axis"] is not None else None
    return nd.f_any(it, a, {}) if r is None else nd.elementwise(it, lambda v: it.mkbool(P.znot(it.zb(it.truthz(v)))), r)


def contracts():
    con = dict(nd.contracts())
    con[emcee.backends.HDFBackend], con[h5py.File], con[json.loads] = _backend, _h5, _loads
    con[np.argmax], con[np.all], con[np.any] = _argmax, _all, _any
    return con


def _array(env, what, v, shape, elem, hy, tag):
    ok = nd.is_nd(v) and len(v.info["shape"]) == len(shape)
    env.check("%s has the declared dimensions%s" % (what, tag), ok, repr(v))
    if not ok:
        return
    for x, y in zip(v.info["shape"], shape):
        env.prove("%s: only the usable samples%s" % (what, tag), smt.num(x) == smt.num(y), hy)
    ix = [z3.Int("ix%d" % j) for j in range(len(shape))]
    rng = [z3.And(j >= 0, j < smt.num(n)) for j, n in zip(ix, shape)]
    a, b = P.anum(v.info["elem"](*ix)), P.anum(elem(*ix))
    env.prove("%s: exactly the usable samples in order%s" % (what, tag), z3.And(a.finite, b.finite, a.z == b.z), hy + rng)


def _plotter(env):
    cls = __import__("appletree.plot", fromlist=["x"]).Plotter

    def body(it):
        run = it.run
        it.state = s = dict(opened=[], best=[])
        run.fact(z3.And(S > 0, W > 0, D > 0, DIS >= 0, THIN > 0))
        q1, q2 = z3.Ints("q1 q2")
        run.fact(z3.And(Q >= 0, Q < D))
        run.fact(z3.ForAll([q1, q2], z3.Implies(z3.And(q1 >= 0, q1 < q2, q2 < D), NAME(q1) != NAME(q2))))
        o = it.run.cell(P.Inst(cls))
        it.call(it.class_lookup(cls, "__init__"), [o, P.SStr(FILE)], dict(discard=P.SNum(DIS), thin=P.SNum(THIN)))
        w = z3.Int("all!w")
        steps = P.SArr(S, lambda t: P.SBool(z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < W), usable(t, w)))))
        s["sel"] = it.mask_select(P.SArr(S, lambda t: P.SNum(smt.num(t))), steps)
        s["fsel"] = it.mask_select(P.SArr(S * W, lambda t: P.SNum(smt.num(t))), P.SArr(S * W, lambda t: P.SBool(usable(smt.num(t) / W, smt.num(t) % W))))
        s["o"] = o
        best = it.getattr(o, "param_mpe")
        if isinstance(best, P.MDict):
            s["value"] = it.getitem(best, P.SStr(NAME(Q)))
            s["keys"] = it.keyseq(best)
    n = 0
    for a, p in enumerate(P.explore(env, body, contracts())):
        s, tag = p.state, " [path %d]" % a
        hy = p.hyps + list(p.run.facts)
        n += 1
        if p.kind == "raise":
            # nothing can be said about a chain without a single usable sample
            f = s.get("fsel")
            j = z3.Int("j")
            env.prove("an error only when no sample is usable" + tag, z3.Not(z3.And(j >= 0, j < S * W, usable(j / W, j % W))), hy)
            continue
        o = s["o"].content
        for f, m in s["opened"]:
            env.check("the given file is only read" + tag, isinstance(f, P.SStr) and z3.eq(f.z, FILE) and m == "r", "%r opened with %r" % (f, m))
        sel, fsel = s["sel"], s["fsel"]
        at, fat = (lambda t: P.anum(sel.elem(smt.num(t))).z), (lambda t: P.anum(fsel.elem(smt.num(t))).z)
        _array(env, "chain", o.get("chain"), [sel.n, W, D], lambda t, w, q: P.SNum(CH(DIS, THIN, at(t), w, q)), hy, tag)
        _array(env, "posterior", o.get("posterior"), [sel.n, W], lambda t, w: lp(DIS, THIN, at(t), w), hy, tag)
        _array(env, "prior", o.get("prior"), [sel.n, W], lambda t, w: P.SNum(BL(DIS, THIN, at(t), w)), hy, tag)
        _array(env, "flat chain", o.get("flat_chain"), [fsel.n, D], lambda t, q: P.SNum(CH(DIS, THIN, fat(t) / W, fat(t) % W, q)), hy, tag)
        _array(env, "flat posterior", o.get("flat_posterior"), [fsel.n], lambda t: lp(DIS, THIN, fat(t) / W, fat(t) % W), hy, tag)
        _array(env, "flat prior", o.get("flat_prior"), [fsel.n], lambda t: P.SNum(BL(DIS, THIN, fat(t) / W, fat(t) % W)), hy, tag)
        for nm, v in (("n_iter", sel.n), ("n_walker", W), ("n_param", D)):
            x = o.get(nm)
            env.prove("%s is the size of the chain%s" % (nm, tag), smt.num(P.anum(x).z) == smt.num(v) if P.is_num(x) else z3.BoolVal(False), hy)
        env.check("the prior configuration is that of the fit" + tag, o.get("param_prior") is CFG, repr(o.get("param_prior")))
        best, m = o.get("param_mpe"), s["best"]
        env.check("best-fit parameters" + tag, isinstance(best, P.MDict) and len(m) == 1, repr(best))
        if not (isinstance(best, P.MDict) and len(m) == 1):
            continue
        v = P.anum(s["value"]) if P.is_num(s["value"]) else None
        f = fat(m[0])
        env.prove("the value of every fitted parameter is that of the best sample" + tag,
                  z3.And(v.finite, v.z == CH(DIS, THIN, f / W, f % W, Q)) if v is not None else z3.BoolVal(False), hy)
        r = z3.Int("r")
        env.prove("the best sample is a usable one" + tag, z3.And(f >= 0, f < S * W, usable(f / W, f % W)), hy)
        g = fat(r)
        env.prove("and no usable sample has a higher log posterior" + tag, LP(DIS, THIN, g / W, g % W) <= LP(DIS, THIN, f / W, f % W),
                  hy + [r >= 0, r < smt.num(fsel.n)])
        ks = s["keys"]
        env.prove("one entry per fitted parameter" + tag, smt.num(ks.n) == D, hy)
        env.prove("no other parameters are reported" + tag, ks.elem(r).z == NAME(r), hy + [r >= 0, r < D])
    env.check("a path exists", n > 0, "none")


def units():
    return [Unit("Plotter.__init__", ["appletree/plot.py:Plotter.__init__"], _plotter)]


# ---------------------------------------------------------------- concrete side
def cases(rng, tier):
    while True:
        yield dict(steps=rng.choice([1, 2, 5, 12, 30]), walkers=rng.choice([1, 2, 4, 7]), pars=rng.randint(1, 4), discard=rng.choice([0, 0, 1, 3]), thin=rng.choice([1, 1, 2, 3]),
                   bad=rng.choice([0.0, 0.05, 0.3, 0.9]), kinds=rng.choice([["nan"], ["-inf"], ["inf"], ["nan", "-inf", "inf"]]), seed=rng.randint(0, 10 ** 6),
                   tie=rng.random() < 0.2, default=rng.random() < 0.2)


def run_case(c):
    d = tempfile.mkdtemp(prefix="vc_h5_")
    try:
        return _case(c, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _case(c, d):
    g = np.random.RandomState(c["seed"])
    S, W, D = c["steps"], c["walkers"], c["pars"]
    ch = np.round(g.normal(size=(S, W, D)), 6)
    lp = np.round(g.normal(-10, 5, size=(S, W)), 0 if c["tie"] else 6)
    bl = g.normal(size=(S, W)).astype(np.float32)
    hit = g.uniform(size=(S, W)) < c["bad"]
    lp[hit] = [float(c["kinds"][k % len(c["kinds"])]) for k in range(int(hit.sum()))]
    names = ["p%d" % j for j in range(D)][::-1]
    cfg = {n: dict(prior_type="free", prior_args={}, allowed_range=[0, j + 1]) for j, n in enumerate(names)}
    f = os.path.join(d, "x.h5")
    b = emcee.backends.HDFBackend(f)
    b.reset(W, D)
    with h5py.File(f, "r+") as h:
        m = h["mcmc"]
        for k, v in (("chain", ch), ("log_prob", lp), ("blobs", bl)):
            if k in m:
                del m[k]
            m.create_dataset(k, data=v, maxshape=(None,) + v.shape[1:])
        m.attrs["iteration"] = S
        m.attrs["has_blobs"] = True
        m.attrs["parameter_fit"] = names
        m.attrs["par_config"] = json.dumps(cfg)
    with open(f, "rb") as h:
        raw = h.read()
    dis, thin = (0, 1) if c["default"] else (c["discard"], c["thin"])
    kept = list(range(S))[dis + thin - 1:S:thin]
    rows = [s for s in kept if all(np.isfinite(lp[s, w]) for w in range(W))]
    flat = [(s, w) for s in kept for w in range(W) if np.isfinite(lp[s, w])]
    cls = __import__("appletree.plot", fromlist=["x"]).Plotter
    if not flat:
        return None
    with X.Quiet(), contextlib.redirect_stderr(io.StringIO()):
        p = cls(f) if c["default"] else cls(f, discard=dis, thin=thin)
    with open(f, "rb") as h:
        if h.read() != raw:
            return "the backend file was changed"
    for nm, want in (("chain", ch[rows]), ("posterior", lp[rows]), ("prior", bl[rows]),
                     ("flat_chain", np.array([ch[x] for x in flat])), ("flat_posterior", np.array([lp[x] for x in flat])), ("flat_prior", np.array([bl[x] for x in flat]))):
        got = np.asarray(getattr(p, nm))
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-6):
            return "%s is %s instead of %s" % (nm, got.tolist(), want.tolist())
    if (p.n_iter, p.n_walker, p.n_param) != (len(rows), W, D):
        return "sizes %s instead of %s" % ((p.n_iter, p.n_walker, p.n_param), (len(rows), W, D))
    if list(p.param_names) != names or p.param_prior != cfg:
        return "parameter names %s or priors %s" % (list(p.param_names), p.param_prior)
    if sorted(p.param_mpe) != sorted(names):
        return "best-fit values of %s instead of %s" % (sorted(p.param_mpe), sorted(names))
    top = max(lp[x] for x in flat)
    row = [float(p.param_mpe[n]) for n in names]
    if not any(lp[x] == top and np.allclose(ch[x], row, rtol=1e-9) for x in flat):
        return "the best-fit values %s are not those of a usable sample with the highest log posterior %s" % (row, top)
    return None
